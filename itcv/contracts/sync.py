"""Contracts of condition_variable.hpp (with detail/semaphore.cpp) and mutex.hpp."""
import z3

from ..engine import (Ptr, FPtr, VecVal, And, Or, Not, Implies, B, bv, eq, ult, ule, add, sub, same, Unsupported)
from ..spec import Contract, LockKey
from .threads import Base

RET = 'ret'
CV = 'tpp::condition_variable'


class Sync(Base):
    def ev_user_call(self, st, w, fv, name):
        # callers rely on this (summaries.cv_notify, cv_sleep)
        self.oblige(st, st.ghost.get('self_id') is None, 'user-code-only-if-unregistered', ('P04',),
                    'user code is run although the calling thread is registered')

    def havoc_ghost(self, name, g0):
        if name in ('pending_notify',):
            return g0
        return super().havoc_ghost(name, g0)


class CvWait(Sync):
    top = CV + '::wait'
    props = ('P04', 'P11', 'P12', 'P20')
    safe = ('P11',)
    uses = ('wait', 'wait_for')
    sem_role = 'wait'

    def setup(self, st):
        self.t0 = self.sp.clock(st)
        st.ghost.update(blocked=False)
        self.cv = self.sym_obj(st, CV, 'cv')
        m = self.sym_obj(st, 'std::mutex', 'user mutex')
        st.mem[m.obj].meta['user'] = True
        self.um = m
        self.ul = self.local_obj(st, None, 'lock', 16)
        self.eng.store_at(st, self.ul.obj, 0, 8, m)
        self.eng.store_at(st, self.ul.obj, 8, 1, 1)
        self.key = LockKey('?user mutex', '+0', m.obj, 0, 0, None)
        st.locks = (self.key,)
        a = self.args(st)
        return [(s, a) for s in self.tls_setup(st)]

    def args(self, st):
        return [self.cv, self.ul]

    def locks0(self, st):
        return (self.key,)

    def tok(self, st):
        for k, v in st.ghost.items():
            if isinstance(k, tuple) and k[0] == 'tok':
                return v
        return None

    def ev_unlocked(self, st, lk):
        if lk == self.key:
            reg = st.ghost.get('self_id') is None or self.tok(st) is not None
            self.oblige(st, reg, 'registered-before-lock-release', ('P11',), 'the lock is released before the thread is registered as waiter')

    def loop_end(self, st, head, fn, header, M):
        self.serving_loop(st, head, M, ('P11',))

    def asleep(self, st):
        st.ghost['blocked'] = True
        self.serve(st)
        self.oblige(st, not self.sp.holds(st, (self.um.obj, 0)), 'lock-released-while-waiting', ('P11',), 'waits with the lock held')

    def ev_waited(self, st):
        self.asleep(st)

    def flag(self, st):
        t = self.tok(st)
        if t is None:
            return 0
        return self.sp.monitors['tpp::detail::semaphore'].flag(st, t[0])

    def ended(self, st):
        """notified, asked to exit or not registered"""
        own = self.sp.owner_obj(st)
        if own is None:
            return True
        ex = self.sp.get(st, own, 0, self.ctx_rec(), 'exit')
        return Or(Not(eq(self.flag(st), 0)), Not(eq(ex, 0)))

    def common(self, st):
        self.oblige(st, self.sp.holds(st, (self.um.obj, 0)), 'returns-with-lock', ('P11',), 'returns without the lock')
        own = self.eng.load_at(st, self.ul.obj, 8, 1)
        self.oblige(st, Not(eq(own, 0)), 'lock-object-owns', ('P11',), 'the lock object does not own the mutex on return')
        if st.ghost.get('sem_added'):
            self.oblige(st, Or(not st.ghost.get('sem_in'), Not(eq(self.flag(st), 0))), 'left-waiter-not-registered', ('P11',),
                        'returns while still registered as waiter')
        if st.ghost.get('self_id') is None:
            self.oblige(st, self.tok(st) is None, 'unregistered-thread-not-registered', ('P11',), 'a thread without id is registered as waiter')

    def ensures(self, st, kind, val):
        self.common(st)
        self.oblige(st, self.ended(st), 'wait-ends-when-notified', ('P11',), 'the wait ends although neither notified nor asked to exit')


class CvWaitFor(CvWait):
    top = CV + '::wait_for'
    sig = r'ratio<1l, 1000000l>'
    unit = 1000

    def args(self, st):
        p = self.local_obj(st, None, 'rtime', 8)
        d = self.eng.load_at(st, p.obj, 0, 8)
        lim = (1 << 60) // self.unit
        st.assume(z3.And(d < lim, d > -lim))
        self.dur = d * self.unit if self.unit != 1 else d
        self.pos = d > 0
        return [self.cv, self.ul, p]

    def ev_clock(self, st, v):
        if 'clock1' not in st.ghost and getattr(self, 't0', None) is not None:
            st.ghost['clock1'] = v

    def late(self, st, d):
        self.oblige(st, st.ghost['clock'] + bv(d) <= st.ghost['clock1'] + self.dur, 'sleeps-no-longer-than-asked', ('P12',),
                    'sleeps towards a point in time after its deadline')

    def ev_slept(self, st, d):
        self.asleep(st)
        self.late(st, d)

    def ev_waited(self, st):
        self.oblige(st, False, 'timed-wait-has-deadline', ('P12',), 'a timed wait blocks without a deadline')

    def loop_candidates(self, s0, h0, M, fn, header):
        out = [('blocked only if positive', lambda t: Implies(t.ghost['blocked'], self.pos))]
        for key, g, bits in self.eng.int_locs(h0, M):
            if bits == 64 and key != ('ghost', 'clock'):
                out.append(('%s<=clock' % (key,), lambda t, g=g: bv(g(t)) <= t.ghost['clock']))
                out.append(('%s>=start' % (key,), lambda t, g=g: bv(g(t)) >= t.ghost['clock1']))
        return out

    def deadline(self):
        return self.t0 + self.dur

    def ensures(self, st, kind, val):
        self.common(st)
        self.oblige(st, Or(Not(st.ghost['blocked']), self.pos), 'zero-duration-does-not-block', ('P12',), 'blocks although the duration is zero or negative')
        to = eq(val, 1)
        self.oblige(st, Implies(to, bv(st.ghost['clock']) >= self.deadline()), 'timeout-not-early', ('P12',), 'reports a timeout before the deadline')
        self.oblige(st, Implies(to, eq(self.flag(st), 0)), 'timeout-only-without-notification', ('P12',), 'reports a timeout although it was notified')
        self.oblige(st, Implies(eq(val, 0), self.ended(st)), 'no-timeout-only-if-ended', ('P11', 'P12'),
                    'reports no_timeout although neither notified nor asked to exit')
        self.oblige(st, Or(eq(val, 0), eq(val, 1)), 'status-is-valid', ('P12',), 'neither timeout nor no_timeout')


class CvWaitUntil(CvWaitFor):
    top = CV + '::wait_until'
    sig = None

    def args(self, st):
        p = self.local_obj(st, None, 'abs_time', 8)
        self.abs = self.eng.load_at(st, p.obj, 0, 8)
        st.assume(z3.And(self.abs < (1 << 60), self.abs > -(1 << 60), st.ghost['clock'] < (1 << 60)))
        self.pos = self.abs > self.t0
        return [self.cv, self.ul, p]

    def late(self, st, d):
        pass

    def deadline(self):
        return self.abs


class CvNotify(Sync):
    props = ('P04', 'P11', 'P12', 'P20')
    safe = ('P11',)
    uses = ('notify',)

    def setup(self, st):
        self.cv = self.sym_obj(st, CV, 'cv')
        st.ghost.update(told=False, sem_pick=None)
        return [(s, [self.cv]) for s in self.tls_setup(st)]

    def flag(self, st, w):
        return self.sp.monitors['tpp::detail::semaphore'].flag(st, w[0])


class CvNotifyOne(CvNotify):
    top = CV + '::notify_one'
    sem_role = 'one'

    def ev_notify(self, st, i):
        w = st.ghost.get('sem_pick')
        self.oblige(st, w is not None and eq(i, w[2]), 'notifies-the-oldest-waiter', ('P11',), 'a thread other than the oldest waiter is notified')
        self.oblige(st, Not(st.ghost['told']), 'notifies-once', ('P11',), 'notify_one notifies twice')
        if w is not None:
            self.oblige(st, Not(eq(self.flag(st, w), 0)), 'marked-before-notified', ('P11',), 'the thread is woken before it can see that it was notified')
        st.ghost['told'] = True

    def ensures(self, st, kind, val):
        self.oblige(st, 'sem_some' in st.ghost, 'looks-at-the-waiters', ('P11',), 'the list of waiters is not consulted')
        if st.ghost.get('sem_some'):
            self.oblige(st, st.ghost['told'], 'oldest-waiter-is-woken', ('P11',), 'the waiter taken from the list is not woken')


class CvNotifyAll(CvNotify):
    top = CV + '::notify_all'
    sem_role = 'all'

    def ev_sem_released(self, st, lk, v0, v):
        st.ghost['sem_buf'] = v0.buf
        st.ghost['sem_lk'] = lk

    def ev_notify(self, st, i):
        w = st.ghost.get('sem_pick')
        b = st.ghost.get('sem_buf')
        mon = self.sp.monitors['tpp::detail::semaphore']
        ids = []
        if b is not None and b in st.mem:
            ids = [mon.words(st, st.ghost['sem_lk'], e)[2] for _, e in st.mem[b].meta['elems']]
        self.oblige(st, Or(*[eq(i, x) for x in ids]), 'notifies-waiters-only', ('P11',), 'a thread that does not wait is notified')
        if w is not None:
            hit = eq(i, w[2])
            self.oblige(st, Implies(hit, Not(eq(self.flag(st, w), 0))), 'marked-before-notified', ('P11',),
                        'the thread is woken before it can see that it was notified')
            st.ghost['told'] = Or(st.ghost['told'], hit)

    def loop_candidates(self, s0, h0, M, fn, header):
        snap = [v for k, v in h0.ghost.items() if isinstance(k, tuple) and k[0] == 'snap' and v is not None]
        out = []
        if snap:
            k = snap[-1][1]
            for key, g, bits in self.eng.int_locs(h0, M):
                if bits == 64:
                    out.append(('told or %s<=k' % (key,), lambda t, g=g: Or(t.ghost['told'], ule(g(t), k))))
                    out.append(('told or %s>k' % (key,), lambda t, g=g: Or(t.ghost['told'], ult(k, g(t)))))
        return out

    def ensures(self, st, kind, val):
        self.oblige(st, 'sem_some' in st.ghost, 'looks-at-the-waiters', ('P11',), 'the list of waiters is not consulted')
        if st.ghost.get('sem_some'):
            self.oblige(st, st.ghost['told'], 'every-waiter-is-woken', ('P11',), 'a waiter taken from the list is not woken')


# ---------------------------------------------------------------- tpp::mutex
class MutexBase(Sync):
    props = ('P04', 'P13', 'P20')
    safe = ('P13',)
    uses = ('cv_wait', 'cv_notify_one', 'cv_notify_all')

    def setup(self, st):
        self.m = self.sym_obj(st, 'tpp::mutex', 'mutex')
        st.ghost.update(taken=0, freed=0)
        return [(s, [self.m]) for s in self.tls_setup(st)]

    def ev_mutex_released(self, st, lk, old, new, why):
        took = And(eq(old[0], 0), Not(eq(new[0], 0)))
        left = And(Not(eq(old[0], 0)), eq(new[0], 0))
        one = lambda c: (1 if c else 0) if isinstance(c, bool) else z3.If(c, bv(1), bv(0))
        st.ghost['taken'] = add(st.ghost['taken'], one(took))
        st.ghost['freed'] = add(st.ghost['freed'], one(left))
        st.ghost['mutex_old'] = old

    def havoc_ghost(self, name, g0):
        if name in ('mutex_last', 'mutex_old'):
            return None
        return super().havoc_ghost(name, g0)

    def me(self, st):
        return self.sp.me(st)

    def post(self, st, kind, val):
        self.ensures(st, kind, val)

    def unchanged(self, st):
        return And(eq(st.ghost['taken'], 0), eq(st.ghost['freed'], 0))

    def misuse(self, st, val, code, name, when):
        self.oblige(st, self.unchanged(st), 'misuse-changes-nothing', ('P13',), 'ownership changes although the call throws')
        old = st.ghost.get('mutex_old')
        self.oblige(st, False if old is None else when(old), name, ('P13',), 'throws without reason')
        c = self.eng.load_at(st, val.ptr.obj, 16, 4) if val.ti == '_ZTISt12system_error' else 0
        self.oblige(st, eq(c, code), 'error-code', ('P13',), 'throws %s with code %s' % (val.ti, c))


class MutexLock(MutexBase):
    top = 'tpp::mutex::lock'

    def ensures(self, st, kind, val):
        if kind == RET:
            self.oblige(st, And(eq(st.ghost['taken'], 1), eq(st.ghost['freed'], 0)), 'lock-takes-the-mutex', ('P13',), 'returns without having taken the mutex')
            return
        self.misuse(st, val, 35, 'throws-only-if-owned-by-caller', lambda old: And(Not(eq(old[0], 0)), eq(old[1], self.me(st))))

    def loop_end(self, st, head, fn, header, M):
        self.serving_loop(st, head, M, ('P13',))

    def ev_cv_skipped(self, st, c, lk):
        self.serve(st)

    def ev_yielded(self, st):
        self.serve(st)

    def ev_cv_wait(self, st, c, lk, deadline):
        self.serve(st)
        f, o = self.sp.monitors['tpp::mutex'].vals(st, lk) if lk.rec == 'tpp::mutex' else (1, 0)
        self.oblige(st, Not(eq(o, self.me(st))), 'owner-does-not-block', ('P13',), 'the owner blocks on its own mutex')


class MutexTryLock(MutexBase):
    top = 'tpp::mutex::try_lock'

    def ev_cv_wait(self, st, c, lk, deadline):
        self.oblige(st, False, 'try-lock-does-not-block', ('P13',), 'try_lock blocks')

    def ensures(self, st, kind, val):
        self.oblige(st, kind == RET, 'no-exception', ('P13',), 'try_lock throws')
        ok = Not(eq(val, 0))
        self.oblige(st, eq(B(ok), B(eq(st.ghost['taken'], 1))), 'answer-is-faithful', ('P13',), 'the answer does not say whether the mutex was taken')
        self.oblige(st, eq(st.ghost['freed'], 0), 'try-lock-frees-nothing', ('P13',), 'try_lock frees the mutex')
        old = st.ghost.get('mutex_old')
        self.oblige(st, False if old is None else Implies(Not(ok), Not(eq(old[0], 0))), 'fails-only-if-owned', ('P13',), 'fails although the mutex is free')


class MutexUnlock(MutexBase):
    top = 'tpp::mutex::unlock'

    def ensures(self, st, kind, val):
        if kind == RET:
            if st.ghost.get('self_id') is not None:
                self.oblige(st, And(eq(st.ghost['freed'], 1), eq(st.ghost['taken'], 0)), 'unlock-frees-the-mutex', ('P13',), 'returns without having freed the mutex')
            return
        self.misuse(st, val, 37, 'throws-only-if-not-owner', lambda old: Or(eq(old[0], 0), Not(eq(old[1], self.me(st)))))


class New(Sync):
    """what the invariants of the monitors start from"""

    def find(self):
        f = [n for n in self.eng.m.by_base.get(self.top, []) if not self.eng.m.functions[n].is_decl and self.eng.m.dem[n].endswith('()')]
        return [n for n in f if 'C2' in n] or f

    def setup(self, st):
        rec = self.eng.di.rec(self.REC)
        self.o = self.out_obj(st, self.eng.di.size(rec), 'object')
        self.rec = rec
        return [(s, [self.o]) for s in self.tls_setup(st)]

    def get(self, st, name, size=8):
        return self.eng.load_at(st, self.o.obj, self.o.off + self.sp.field(self.rec, name)[0], size)


class CvNew(New):
    REC = CV
    top = CV + '::condition_variable'
    name = top + '()'
    props = safe = ('P11',)

    def ensures(self, st, kind, val):
        sync = self.sp.field(self.rec, 'sync_')
        off = sync[0] + self.sp.field(self.eng.di.strip(sync[2]), 'waiters_')[0]
        v = st.mem[self.o.obj].cells.get(off, (0, None))[1]
        n = v.len if isinstance(v, VecVal) else None
        self.oblige(st, And(kind == RET, False if n is None else eq(n, 0)), 'nobody-waits-yet', ('P11',), 'a new condition variable has waiters')


class MutexNew(New):
    REC = 'tpp::mutex'
    top = 'tpp::mutex::mutex'
    name = top + '()'
    props = safe = ('P13',)

    def ensures(self, st, kind, val):
        self.oblige(st, And(kind == RET, eq(self.get(st, 'owner_'), 0), eq(self.get(st, 'flag_', 1), 0)), 'new-mutex-is-free', ('P13',), 'a new mutex is owned')


CONTRACTS = [CvNew, MutexNew, CvWait, CvWaitFor, CvWaitUntil, CvNotifyOne, CvNotifyAll, MutexLock, MutexTryLock, MutexUnlock]
