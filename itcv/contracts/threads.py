"""Contracts of threadpp/thread.cpp and thread.h."""
import re

import z3

from ..engine import (Ptr, FPtr, VecVal, And, Or, Not, Implies, B, bv, eq, ult, ule, add, sub, same, Unsupported)
from ..spec import Contract
from ..monitors import TC, PC, KEYAT, fwords, weq
from .. import stdlib as SL

RET = 'ret'


class Base(Contract):
    """common pre-state: the registry and the calling thread's own context"""
    registered = None          # None: both cases, True/False

    def ctx_rec(self):
        return self.eng.di.rec(TC)

    def tls_setup(self, st):
        """the possible values of the thread local context pointer"""
        t = self.sp.tls(st)
        me = self.sp.native_self(st)
        out = []
        for s, nul in self.eng.split(st, t == 0):
            if self.registered is True and nul or self.registered is False and not nul:
                continue
            if not nul:
                q = self.eng.resolve(s, t)
                rec = self.ctx_rec()
                cid = self.sp.get(s, q.obj, 0, rec, 'id')
                s.assume(B(Not(eq(cid, 0))))
                s.assume(B(eq(self.sp.get(s, q.obj, 0, rec, 'native_thread_id'), me)))
                if self.sp.has_field(rec, 'closed'):
                    s.assume(B(eq(self.sp.get(s, q.obj, 0, rec, 'closed'), 0)))
                s.ghost['self_id'] = cid
                s.ghost['self_ctx'] = t
            out.append(s)
        return out

    def on_new_object(self, st, o):
        if o.ty and self.eng.di.tname(o.ty) == TC:
            a = self.eng.obj_addr.get(o.id)
            k = self.sp.ctx_key.get(a.get_id()) if a is not None else None
            if k is not None:
                st.assume(B(eq(self.sp.get(st, o.id, 0, o.ty, 'id'), k)))

    def on_new_entry(self, st, tab, key, node, pos):
        pass

    def ev_user_call(self, st, w, fv, name):
        g = None
        own = self.sp.owner_obj(st)
        if 'config' in name:
            return
        infl = st.ghost.get(('inflight', own))
        self.eng.oblige(st, infl is not None, 'runs-only-taken-tasks', ('P01',), detail='a task runs that was not just taken from the queue')
        if infl is None:
            return
        k, W, n = infl
        self.eng.oblige(st, Implies(eq(k, 0), And(self.eng.ptr_eq(st, w, W[0]), self.eng.ptr_eq(st, fv, W[3]))), 'runs-the-oldest-task', ('P01',),
                        detail='the task that runs is not the oldest outstanding one')
        st.ghost[('inflight', own)] = None
        st.ghost['ran'] = True

    def post(self, st, kind, val):
        own = self.sp.owner_obj(st)
        self.oblige(st, own is None or st.ghost.get(('inflight', own)) is None, 'taken-task-is-run', ('P01',), 'returns with a task taken but not run')
        self.oblige(st, kind == RET, 'no-exception', self.safe, 'an exception leaves the function')
        self.ensures(st, kind, val)

    def ensures(self, st, kind, val):
        pass

    def havoc_ghost(self, name, g0):
        if isinstance(name, tuple) and name[0] in ('snap', 'last') or name in ('reg', 'reg_last'):
            return None
        if name in ('reg_ops', 'sizes'):
            return ()
        if name == 'notified':
            return ()
        if name in ('last_n', 'wait_n', 'clock1'):
            return self.eng.fresh(name)
        if name in ('last_exit', 'wait_exit'):
            return self.eng.fresh(name, 8)
        if name in ('took', 'ran'):
            return self.eng.freshb(name)
        if isinstance(name, tuple) and name[0] in ('depth0',):
            return None
        raise Unsupported('ghost %s changed in a loop' % (name,))


class Directed(Base):
    """functions addressed to a thread by id: which contexts did the call look up, lock and change?"""

    def ev_registry_released(self, st, lk, why):
        known = False
        reg = st.ghost['reg']
        for e in st.mem[reg[0]].meta['entries']:
            if self.eng.must(st, eq(e['key'], self.tid)):
                known = True
        st.ghost['known'] = known
        st.ghost['looked'] = True

    def ev_ctx_released(self, st, lk, v0, v, why):
        st.ghost['touched'] = (st.ghost.get('touched') or ()) + ((lk.oid, lk.base, v0, v),)

    def touched(self, st):
        t = st.ghost.get('touched') or ()
        return t[-1] if t else None

    def looked_up(self, st, tags):
        """the call consulted the registry unless the id is the invalid one; returns whether the id is registered"""
        if not st.ghost.get('looked'):
            self.oblige(st, eq(self.tid, 0), 'consults-the-registry', tags, 'the id is not looked up in the registry')
            return False
        return st.ghost['known']

    def ctx_id(self, st, t):
        return self.sp.get(st, t[0], t[1], self.ctx_rec(), 'id')


class InvokePackagedTask(Directed):
    top = 'tpp::detail::invoke_packaged_task'
    props = ('P01', 'P02', 'P03', 'P04', 'P19', 'P20')
    safe = ('P01',)

    def setup(self, st):
        self.tid = self.eng.fresh('id')
        self.f = self.local_obj(st, 'std::function<void ()>', 'f')
        self.f0 = fwords(self.eng, st, self.f.obj)
        return [(s, [self.tid, self.f]) for s in self.tls_setup(st)]

    def ev_user_call(self, st, w, fv, name):
        # callers rely on this (summaries.invoke_packaged_task)
        self.oblige(st, Or(eq(self.tid, 0), self.eng.isnull(st, self.f0[2])), 'user-code-only-for-bad-arguments', ('P04',),
                    'user code is run although there is a task and the id is valid')

    def accepted(self, val):
        if isinstance(val, (bool, int)):
            return bool(val)
        return Not(eq(val, 0))

    def queued(self, st):
        """number of contexts that got one more task"""
        n = 0
        last = None
        for t in st.ghost.get('touched') or ():
            if self.eng.must(st, eq(t[3].n, add(t[2].n, 1))):
                n += 1
                last = t
        return n, last

    def ensures(self, st, kind, val):
        n, t = self.queued(st)
        acc = self.accepted(val)
        self.oblige(st, acc if n == 1 else Not(acc), 'accepted-iff-queued', ('P01',),
                    'returns true without queueing the task once, or false after queueing it')
        if n == 1:
            self.oblige(st, eq(self.ctx_id(st, t), self.tid), 'queued-on-the-named-thread', ('P01',), 'task queued on another thread')
            for s, e in self.eng.buf_elem(st.fork(), t[3].t.buf, sub(t[3].t.len, 1)):
                self.eng.oblige(s, weq(self.eng, s, fwords(self.eng, s, e), self.f0), self.label() + ': queued-task-is-the-argument', ('P01',),
                                'the queued task is not the one passed in')
            return
        self.refused(st)

    def refused(self, st):
        empty = self.eng.isnull(st, self.f0[2])
        if not self.eng.must(st, empty):
            if self.looked_up(st, ('P01',)):
                t = self.touched(st)
                closed = Not(eq(t[2].closed, 0)) if t else False
                self.oblige(st, closed, 'refused-only-if-not-registered', ('P01',), 'a task for a registered thread is refused')
        self.oblige(st, weq(self.eng, st, fwords(self.eng, st, self.f.obj), self.f0), 'refused-task-stays-with-caller', ('P01',),
                    'a refused task is taken from the caller')


class Notify(Directed):
    top = 'tpp::notify'
    props = ('P01', 'P02', 'P03', 'P04', 'P19', 'P20')
    safe = ('P02',)

    def setup(self, st):
        self.tid = self.eng.fresh('id')
        return [(s, [self.tid]) for s in self.tls_setup(st)]

    def ev_user_call(self, st, w, fv, name):
        # callers rely on this (summaries.notify)
        self.oblige(st, True if st.ghost.get('self_id') is None else eq(self.tid, 0), 'user-code-only-if-unregistered', ('P04',),
                    'user code is run although the calling thread is registered and the id is valid')

    def ensures(self, st, kind, val):
        own = st.ghost.get('self_id')
        me = eq(self.tid, own) if own is not None else eq(self.tid, 0)
        if self.eng.must(st, me):
            return
        if self.looked_up(st, ('P02',)):
            t = self.touched(st)
            self.oblige(st, t is not None, 'notify-reaches-the-thread', ('P02',), 'a registered thread is not notified')
            if t is not None:
                self.oblige(st, eq(self.ctx_id(st, t), self.tid), 'notifies-the-named-thread', ('P02',), 'another thread is notified')
                self.oblige(st, Or(Not(eq(t[2].closed, 0)), And(Not(eq(t[3].wakeup, 0)), Not(eq(t[3].n, 0)))), 'notification-is-recorded', ('P02',),
                            'the notification leaves nothing behind that ends a sleep')


class NotifyForExit(Directed):
    top = 'tpp::notify_for_exit'
    props = ('P01', 'P02', 'P03', 'P04', 'P19', 'P20')
    safe = ('P19',)

    def setup(self, st):
        self.tid = self.eng.fresh('id')
        return [(s, [self.tid]) for s in self.tls_setup(st)]

    def exit_ok(self, st, lk):
        return eq(self.sp.get(st, lk.oid, lk.base, lk.recid, 'id'), self.tid)

    def ensures(self, st, kind, val):
        if self.looked_up(st, ('P19',)):
            t = self.touched(st)
            self.oblige(st, t is not None, 'exit-request-reaches-the-thread', ('P19',), 'a registered thread is not asked to exit')
            if t is not None:
                self.oblige(st, eq(self.ctx_id(st, t), self.tid), 'exit-request-names-the-thread', ('P19',), 'another thread is asked to exit')
                self.oblige(st, Not(eq(t[3].exit, 0)), 'exit-request-is-recorded', ('P19',), 'the exit request is not recorded')
                self.oblige(st, Or(Not(eq(t[2].exit, 0)), Not(eq(t[3].wakeup, 0))), 'exit-request-wakes', ('P02',), 'the exit request does not end a sleep')


class PendingCount(Directed):
    top = 'tpp::get_pending_task_count'
    props = ('P01', 'P03', 'P04', 'P20')
    safe = ('P01',)

    def setup(self, st):
        self.tid = self.eng.fresh('id')
        return [(s, [self.tid]) for s in self.tls_setup(st)]

    def count(self, st, val):
        return val

    def ensures(self, st, kind, val):
        cnt = self.count(st, val)
        if self.looked_up(st, ('P01',)):
            t = self.touched(st)
            self.oblige(st, t is not None, 'pending-count-reads-the-queue', ('P01',), 'the count of a registered thread is not read')
            if t is not None:
                v = t[3]
                self.oblige(st, eq(self.ctx_id(st, t), self.tid), 'pending-count-of-the-named-thread', ('P01',), 'counts the tasks of another thread')
                d = z3.ZeroExt(32, bv(v.depth, 32))
                self.oblige(st, eq(bv(cnt), bv(v.n) + d), 'pending-count-exact', ('P01',),
                            'the count is not the number of queued tasks plus running tasks')
        else:
            self.oblige(st, eq(cnt, 0), 'pending-count-of-unknown-thread', ('P01', 'P03'), 'tasks are reported for an unknown id')


class PendingCountDetailed(PendingCount):
    top = 'tpp::get_pending_task_count_detailed'

    def setup(self, st):
        self.tid = self.eng.fresh('id')
        self.out = self.out_obj(st, 40, 'info')
        return [(s, [self.out, self.tid]) for s in self.tls_setup(st)]

    def count(self, st, val):
        return self.eng.load_at(st, self.out.obj, 0, 8)


class Waiting(Base):
    props = ('P01', 'P02', 'P03', 'P04', 'P19', 'P20')
    safe = ('P01', 'P02')

    def setup(self, st):
        self.t0 = self.sp.clock(st)
        st.ghost.update(blocked=False, took=False)
        a = self.args(st)
        return [(s, a) for s in self.tls_setup(st)]

    def args(self, st):
        return []

    def ev_cv_wait(self, st, c, lk, deadline):
        st.ghost['blocked'] = True

    def exiting(self, st):
        return Not(eq(self.sp.get(st, self.sp.owner_obj(st), 0, self.ctx_rec(), 'exit'), 0))

    def seen_empty(self, st):
        n = st.ghost.get('last_n')
        return False if n is None else eq(n, 0)

    def woken_runs_oldest(self, st, at_once=False):
        if self.sp.owner_obj(st) is None:
            return
        self.oblige(st, Or(st.ghost.get('took', False), self.seen_empty(st), And(at_once, Not(st.ghost['blocked'])), And('last_n' not in st.ghost, self.exiting(st))),
                    'woken-wait-runs-oldest', ('P02',), 'returns with an outstanding task and without having run one')
        self.oblige(st, Or(st.ghost.get('took', False), st.ghost['blocked'], at_once, self.exiting(st)), 'idle-wait-sleeps', ('P02',),
                    'returns at once although there is no task to run and exit was not requested')

    def loop_candidates(self, s0, h0, M, fn, header):
        own = self.sp.owner_obj(h0)
        if own is None or 'blocked' not in h0.ghost:
            return []
        return [('slept or not told', lambda t: Or(t.ghost['blocked'], eq(self.sp.get(t, own, 0, self.ctx_rec(), 'wakeup'), 0)))]

    def unregistered_returns(self, st):
        if self.sp.owner_obj(st) is None:
            self.oblige(st, Not(st.ghost['blocked']), 'unregistered-thread-does-not-block', ('P02', 'P12'),
                        'an unregistered thread blocks')


class Wait(Waiting):
    top = 'tpp::this_thread::wait'

    def ensures(self, st, kind, val):
        self.woken_runs_oldest(st)
        self.unregistered_returns(st)


class Timed(Waiting):
    """duration argument by reference"""
    sig = r'ratio<1l, 1000000l>'
    unit = 1000                # nanoseconds
    props = ('P01', 'P02', 'P03', 'P04', 'P12', 'P19', 'P20')

    def args(self, st):
        p = self.local_obj(st, None, 'rtime', 8)
        d = self.eng.load_at(st, p.obj, 0, 8)
        lim = (1 << 60) // self.unit
        st.assume(z3.And(d < lim, d > -lim))
        self.dur = d * self.unit if self.unit != 1 else d
        self.pos = d > 0
        return [p]

    def usec(self):
        """the duration at the library's microsecond resolution"""
        return (self.dur / 1000) * 1000 if self.unit % 1000 else self.dur

    def ev_clock(self, st, v):
        if 'clock1' not in st.ghost and getattr(self, 't0', None) is not None:
            st.ghost['clock1'] = v

    def ev_cv_wait(self, st, c, lk, deadline):
        super().ev_cv_wait(st, c, lk, deadline)
        self.oblige(st, deadline is not None, 'timed-wait-has-deadline', ('P12',), 'a timed wait blocks without a deadline')
        if deadline is not None:
            self.oblige(st, bv(deadline) <= st.ghost['clock1'] + self.dur, 'sleeps-no-longer-than-asked', ('P12',),
                        'blocks towards a point in time after its deadline')

    def zero_returns(self, st):
        self.oblige(st, Or(Not(st.ghost['blocked']), self.pos), 'zero-duration-does-not-block', ('P12',),
                    'blocks although the duration is zero or negative')


class WaitFor(Timed):
    top = 'tpp::this_thread::wait_for'

    def ensures(self, st, kind, val):
        self.unregistered_returns(st)
        self.zero_returns(st)
        timeout = eq(val, 1)
        if timeout is True or z3.is_expr(timeout):
            n, ex = st.ghost.get('wait_n'), st.ghost.get('wait_exit')
            self.oblige(st, Implies(timeout, False if n is None else And(eq(n, 0), eq(ex, 0))), 'timeout-only-if-nothing-arrived', ('P02',),
                        'reports a timeout although a task, notification or exit request arrived')
            self.oblige(st, Implies(timeout, bv(st.ghost['clock']) >= self.t0 + self.usec()), 'timeout-not-early', ('P12',),
                        'reports a timeout before the deadline')
        self.oblige(st, Or(eq(val, 0), eq(val, 1)), 'status-is-valid', ('P12',), 'neither timeout nor no_timeout')
        self.woken_runs_oldest(st, Not(self.pos))


class WaitUntil(Timed):
    sig = r'ratio<1l, 1000000000l>'
    unit = 1
    top = 'tpp::this_thread::wait_until'

    def args(self, st):
        p = self.local_obj(st, None, 'abs_time', 8)
        self.abs = self.eng.load_at(st, p.obj, 0, 8)
        st.assume(z3.And(self.abs < (1 << 60), self.abs > -(1 << 60), st.ghost['clock'] < (1 << 60)))
        self.dur = self.abs - self.t0
        return [p]

    def ev_cv_wait(self, st, c, lk, deadline):
        Waiting.ev_cv_wait(self, st, c, lk, deadline)
        self.oblige(st, deadline is not None, 'timed-wait-has-deadline', ('P12',), 'a timed wait blocks without a deadline')

    def ensures(self, st, kind, val):
        self.unregistered_returns(st)
        timeout = eq(val, 1)
        if timeout is True or z3.is_expr(timeout):
            n, ex = st.ghost.get('wait_n'), st.ghost.get('wait_exit')
            self.oblige(st, Implies(timeout, False if n is None else And(eq(n, 0), eq(ex, 0))), 'timeout-only-if-nothing-arrived', ('P02',),
                        'reports a timeout although a task, notification or exit request arrived')
            self.oblige(st, Implies(timeout, bv(st.ghost['clock']) > self.abs - 1000), 'timeout-not-early', ('P12',),
                        'reports a timeout before the deadline')
        self.oblige(st, Or(Not(st.ghost['blocked']), self.abs > self.t0), 'zero-duration-does-not-block', ('P12',),
                    'blocks although the deadline has passed')


class Process(Waiting):
    top = 'tpp::this_thread::process'

    def ensures(self, st, kind, val):
        self.unregistered_returns(st)
        self.oblige(st, Not(st.ghost['blocked']), 'process-does-not-block', ('P12',), 'process blocks')
        if self.sp.owner_obj(st) is None:
            return
        self.oblige(st, Or(self.seen_empty(st), self.exiting(st)),
                    'process-empties-queue', ('P01',), 'process returns with tasks left although exit was not requested')


class ProcessFor(Timed):
    top = 'tpp::this_thread::process_for'

    def ev_took(self, st, lk):
        self.oblige(st, st.ghost['clock'] < self.t0 + self.dur + (st.ghost['clock1'] - self.t0) if 'clock1' in st.ghost else False,
                    'no-task-after-the-deadline', ('P12',), 'a task is started although the time is over')

    def ensures(self, st, kind, val):
        self.unregistered_returns(st)
        self.oblige(st, Not(st.ghost['blocked']), 'process-does-not-block', ('P12',), 'process_for blocks')
        if self.sp.owner_obj(st) is None:
            return
        self.oblige(st, Or(self.seen_empty(st), self.exiting(st), st.ghost['clock'] >= self.t0 + self.usec()),
                    'process-for-empties-queue', ('P01',), 'process_for returns early with tasks left')


class SleepFor(Timed):
    sig = r'ratio<1l, 1000000000l>'
    unit = 1
    top = 'tpp::this_thread::sleep_for'
    uses = ('wait_for',)

    def ev_slept(self, st, d):
        st.ghost['blocked'] = True
        self.serve(st)
        self.not_late(st, d)

    def not_late(self, st, d):
        self.oblige(st, st.ghost['clock'] + bv(d) <= st.ghost['clock1'] + self.dur, 'sleeps-no-longer-than-asked', ('P12',),
                    'sleeps towards a point in time after its deadline')

    def ev_waited(self, st):
        self.oblige(st, False, 'timed-wait-has-deadline', ('P12',), 'a sleep blocks without a deadline')

    def loop_end(self, st, head, fn, header, M):
        self.serving_loop(st, head, M, ('P12',))

    def slept_enough(self, st, end):
        own = self.sp.owner_obj(st)
        ex = True if own is None else Not(eq(self.sp.get(st, own, 0, self.ctx_rec(), 'exit'), 0))
        self.oblige(st, Or(ex, st.ghost['clock'] >= end), 'sleeps-until-the-deadline', ('P12',),
                    'returns before the deadline although exit was not requested')

    def ensures(self, st, kind, val):
        self.zero_returns(st)
        self.slept_enough(st, self.t0 + self.dur)


class SleepUntil(SleepFor):
    top = 'tpp::this_thread::sleep_until'

    def args(self, st):
        p = self.local_obj(st, None, 'abs_time', 8)
        self.abs = self.eng.load_at(st, p.obj, 0, 8)
        st.assume(z3.And(self.abs < (1 << 60), self.abs > -(1 << 60), st.ghost['clock'] < (1 << 60)))
        self.dur = self.abs - self.t0
        return [p]

    def not_late(self, st, d):
        pass

    def ensures(self, st, kind, val):
        self.oblige(st, Or(Not(st.ghost['blocked']), self.abs > self.t0), 'zero-duration-does-not-block', ('P12',),
                    'blocks although the deadline has passed')
        self.slept_enough(st, self.abs)


class SetThreadConfigTask(Waiting):
    """the task that set_thread_config sends to a thread"""
    registered = True
    name = 'tpp::set_thread_config task'

    def find(self):
        return [n for b, l in self.eng.m.by_base.items() if b.startswith('tpp::set_thread_config::') and b.endswith('operator()')
                for n in l if not self.eng.m.functions[n].is_decl]

    def args(self, st):
        return [self.local_obj(st, None, 'closure', 16)]


class SetThreadConfig(SetThreadConfigTask):
    """runs at once for the calling thread, is queued for others"""
    registered = None
    name = 'tpp::set_thread_config'
    top = 'tpp::set_thread_config'
    uses = SetThreadConfigTask.uses + ('invoke_packaged_task',)

    def find(self):
        return [n for n in self.eng.m.by_base.get(self.top, []) if not self.eng.m.functions[n].is_decl]

    def args(self, st):
        self.tid = self.eng.fresh('id')
        st.ghost['sent'] = ()
        # the task needs a registered thread, id 0 stands for none
        st.assume(self.tid != 0)
        return [self.tid, self.eng.fresh('reserved'), self.eng.fresh('threshold')]

    def ev_launched(self, st, ident, w, ok):
        st.ghost['sent'] += ((ident, ok),)

    def ensures(self, st, kind, val):
        super().ensures(st, kind, val)
        own = eq(self.tid, self.sp.me(st))
        sent = st.ghost['sent']
        self.oblige(st, kind == RET, 'no-exception', ('P01',), 'an exception leaves the call')
        self.oblige(st, Implies(own, not sent), 'runs-at-once', ('P01',), 'a request for the calling thread is queued')
        self.oblige(st, Implies(Not(own), And(len(sent) == 1, *[eq(i, self.tid) for i, ok in sent])), 'is-queued', ('P01',), 'a request for another thread is not sent to it')
        if kind == RET:
            self.oblige(st, eq(B(Not(eq(val, 0))), B(all(ok for i, ok in sent))), 'reports-acceptance', ('P01',), 'the answer is not whether the request was taken')


# ---------------------------------------------------------------- registry
class Registry(Base):
    props = ('P01', 'P03', 'P04', 'P19', 'P20')
    safe = ('P03',)

    def ev_user_call(self, st, w, fv, name):
        pass

    def name_arg(self, st):
        return self.local_obj(st, None, 'name', 32)

    def registered_as(self, st, native):
        """(was registered before, id) of the native id according to the last look at the registry"""
        reg = st.ghost.get('reg')
        if reg is None:
            return None, None
        insC, insI, delC, delI = st.ghost.get('reg_last') or ((), (), (), ())
        for o in insC:
            if insI and self.eng.must(st, eq(insI[0][2], native)):
                return False, o[2]
        for e in st.mem[reg[1]].meta['entries']:
            if not e['new'] and self.eng.must(st, eq(e['key'], native)):
                return True, self.eng.load_at(st, e['node'], st.mem[e['node']].ty[3], 8)
        return None, None

    def check_registration(self, st, native, rid):
        old, ident = self.registered_as(st, native)
        self.oblige(st, old is not None, 'thread-is-registered', ('P03',), 'the native thread is not registered afterwards')
        if old is not None:
            self.oblige(st, eq(ident, rid), 'reports-the-registered-id', ('P03',), 'the id reported is not the registered one')
        self.oblige(st, Not(eq(rid, 0)), 'id-is-not-zero', ('P03',), 'the invalid id is handed out')


class RegisterThread(Registry):
    top = 'tpp::register_thread'

    def setup(self, st):
        self.native = self.eng.fresh('native')
        st.assume(self.native != 0)
        return [(s, [self.native, self.name_arg(s)]) for s in self.tls_setup(st)]

    def ensures(self, st, kind, val):
        self.check_registration(st, self.native, val)


class RegisterThis(Registry):
    top = 'tpp::thread::register_this'

    def setup(self, st):
        self.t = self.local_obj(st, 'tpp::thread', 'thread')
        self.native = self.eng.load_at(st, self.t.obj, 0, 8)
        st.assume(self.native != 0)
        return [(s, [self.t, self.name_arg(s)]) for s in self.tls_setup(st)]

    def ev_user_call(self, st, w, fv, name):
        # callers rely on this (summaries.register_this)
        self.oblige(st, False, 'runs-no-user-code', ('P04',), 'user code is run')

    def ensures(self, st, kind, val):
        self.check_registration(st, self.native, self.eng.load_at(st, self.t.obj, 8, 8))


class RegisterThisThread(Registry):
    top = 'tpp::this_thread::register_this_thread'
    sig = r'register_this_thread\(\)'
    name = 'tpp::this_thread::register_this_thread()'

    def setup(self, st):
        return [(s, self.args(s)) for s in self.tls_setup(st)]

    def args(self, st):
        return []

    def ensures(self, st, kind, val):
        t = self.sp.tls(st)
        if isinstance(t, int):
            self.oblige(st, t != 0, 'thread-is-linked', ('P03',), 'the thread has no context afterwards')
            return
        p = t if isinstance(t, Ptr) else self.eng.resolve(st, t)
        rid = self.sp.get(st, p.obj, p.off, self.ctx_rec(), 'id')
        self.check_registration(st, self.sp.native_self(st), rid)


class RegisterThisThreadNamed(RegisterThisThread):
    sig = r'register_this_thread\(std'
    name = 'tpp::this_thread::register_this_thread(name)'

    def args(self, st):
        return [self.name_arg(st)]


class UnregisterThisThread(Registry):
    top = 'tpp::this_thread::unregister_this_thread'

    def setup(self, st):
        return [(s, []) for s in self.tls_setup(st)]

    def ev_destroy(self, st, w, fv):
        if st.ghost.get('self_id') is None:
            return
        t = self.sp.tls(st)
        self.oblige(st, eq(t, 0), 'unlinked-before-tasks-die', ('P03',), 'left-over tasks are destroyed while the thread still counts as registered')
        self.oblige(st, bool(st.ghost.get('self_gone')), 'id-unknown-before-tasks-die', ('P03',),
                    'left-over tasks are destroyed while the id is still known')

    def last_release(self, st, pi):
        # the context itself may die here: its tasks must already be gone
        if st.ghost.get('self_id') is not None:
            t = self.sp.tls(st)
            self.oblige(st, eq(t, 0), 'unlinked-before-context-dies', ('P03',), 'the context dies while the thread is still linked to it')
            self.oblige(st, not st.locks, 'context-dies-unlocked', ('P04',), 'a context is destroyed while a lock is held')
        return [st]

    def ensures(self, st, kind, val):
        self.oblige(st, eq(self.sp.tls(st), 0), 'thread-is-unlinked', ('P03',), 'the thread still counts as registered')
        if st.ghost.get('self_id') is not None:
            self.oblige(st, bool(st.ghost.get('self_gone')), 'id-is-unknown-afterwards', ('P03',), 'the id stays registered')


class ListThreads(Registry):
    top = 'tpp::get_all_registered_threads'
    props = ('P03', 'P04', 'P20')

    def setup(self, st):
        self.out = self.out_obj(st, 24, 'result')
        return [(s, [self.out]) for s in self.tls_setup(st)]

    def ev_registry_acquired(self, st, lk, why):
        if why == 'lock':
            C = st.ghost['reg'][0]
            st.ghost['listing'] = (C, st.mem[C].meta['size'])

    def bufs(self, st, M):
        return [m[1] for m in M if m[0] == 'buf' and m[1] in st.mem and st.mem[m[1]].meta.get('esize') == 8]

    def loop_head(self, st, s0, fn, header, M):
        """invariant of the loop that builds the list: entry j is the j-th registered id"""
        if 'listing' not in st.ghost:
            return
        C, size = st.ghost['listing']
        for b in self.bufs(st, M):
            def view(s, bo, e, i, C=C):
                s.assume(B(eq(self.eng.load_at(s, e.id, 0, 8), KEYAT(z3.BitVecVal(C, 64), bv(i)))))
            st.w(b).meta['views'] = (view,)

    def all_listed(self, st, v, what):
        C, size = st.ghost['listing']
        j = self.eng.fresh('j')
        s = st.fork()
        s.assume(B(ult(j, v.len)))
        if not self.eng.alive(s):
            return
        for s2, e in self.eng.buf_elem(s, v.buf, j):
            self.eng.oblige(s2, eq(self.eng.load_at(s2, e, 0, 8), KEYAT(z3.BitVecVal(C, 64), bv(j))), self.label() + ': ' + what, ('P03',),
                            'an entry of the list is not the id of a registered thread')

    def loop_end(self, st, head, fn, header, M):
        if 'listing' not in st.ghost:
            return
        bs = self.bufs(st, M)
        for oid, o in list(st.mem.items()):
            for off, (sz, v) in list(o.cells.items()):
                if isinstance(v, VecVal) and v.buf in bs:
                    self.all_listed(st, v, 'listed-ids-are-registered (loop)')

    def ensures(self, st, kind, val):
        if 'listing' not in st.ghost:
            self.oblige(st, False, 'consults-the-registry', ('P03',), 'the list is not taken from the registry')
            return
        C, size = st.ghost['listing']
        v = self.eng_vec(st)
        self.oblige(st, eq(v.len, size), 'every-registered-thread-listed', ('P03',), 'the list has not one entry per registered thread')
        self.all_listed(st, v, 'listed-ids-are-registered')

    def eng_vec(self, st):
        c = st.mem[self.out.obj].cells.get(0)
        if c is None or not isinstance(c[1], VecVal):
            raise Unsupported('result vector')
        return c[1]


class GetId(Registry):
    top = 'tpp::this_thread::get_id'
    props = ('P03', 'P04', 'P10', 'P20')

    def setup(self, st):
        return [(s, []) for s in self.tls_setup(st)]

    def ensures(self, st, kind, val):
        self.oblige(st, eq(val, st.ghost.get('self_id', 0)), 'own-id', ('P03', 'P10'), 'does not report the id of the calling thread')


class IsRegistered(GetId):
    top = 'tpp::this_thread::is_registered'
    props = ('P03', 'P04', 'P20')

    def ensures(self, st, kind, val):
        r = 'self_id' in st.ghost
        self.oblige(st, eq(val, 1 if r else 0), 'is-registered', ('P03',), 'registration of the calling thread misreported')


class NotifiedForExit(GetId):
    top = 'tpp::this_thread::notified_for_exit'
    props = ('P04', 'P19', 'P20')

    def ensures(self, st, kind, val):
        own = self.sp.owner_obj(st)
        want = 1 if own is None else self.sp.get(st, own, 0, self.ctx_rec(), 'exit')
        self.oblige(st, eq(B(Not(eq(val, 0))), B(Not(eq(want, 0)))), 'exit-request-reported', ('P19',), 'exit request misreported')


class GetDepth(GetId):
    top = 'tpp::this_thread::get_depth'
    props = ('P01', 'P04', 'P20')

    def ensures(self, st, kind, val):
        own = self.sp.owner_obj(st)
        want = 0 if own is None else self.sp.get(st, own, 0, self.ctx_rec(), 'processing_stack_depth')
        self.oblige(st, eq(val, want), 'depth-reported', ('P01',), 'number of running tasks misreported')


class MainThreadId(GetId):
    top = 'tpp::main_thread::get_id'
    props = ('P03', 'P04', 'P19', 'P20')

    def ev_registry_acquired(self, st, lk, why):
        st.ghost['main'] = self.sp.get(st, lk.oid, 0, lk.rec, 'main_thread_id')

    def ensures(self, st, kind, val):
        self.oblige(st, 'main' in st.ghost and eq(val, st.ghost['main']), 'main-thread-reported', ('P19',), 'the answer is not the id of the main thread')


# ---------------------------------------------------------------- init, shutdown, thread objects
class Init(Registry):
    top = 'tpp::init'
    props = ('P03', 'P04', 'P19', 'P20')
    safe = ('P19',)

    def setup(self, st):
        self.data = self.local_obj(st, 'tpp::init_data', 'data')
        return [(s, [self.data]) for s in self.tls_setup(st)]

    def ev_atomic(self, st, rec, fld, q, old, new, kind):
        if fld == 'init_count':
            st.ghost['inits'] = st.ghost.get('inits', 0) + 1
            st.ghost['init_old'] = old
            self.oblige(st, eq(new, add(old, 1)), 'init-counts-up', ('P19',), 'init changes the number of initialisers by something else than one')

    def main_id(self, st, lk):
        return self.sp.get(st, lk.oid, 0, lk.rec, 'main_thread_id')

    def ev_registry_acquired(self, st, lk, why):
        st.ghost['main0'] = self.main_id(st, lk)

    def ev_registry_released(self, st, lk, why):
        m = self.main_id(st, lk)
        if not self.eng.must(st, eq(m, st.ghost['main0'])):
            st.ghost['main'] = m

    def ensures(self, st, kind, val):
        self.oblige(st, st.ghost.get('inits', 0) == 1, 'init-counts-once', ('P19',), 'init does not count exactly once')
        if self.eng.must(st, eq(st.ghost.get('init_old', 1), 0)):
            self.oblige(st, Not(eq(self.sp.tls(st), 0)), 'first-init-registers-the-caller', ('P03',), 'the initialising thread is not registered')
            self.oblige(st, 'main' in st.ghost and eq(st.ghost['main'], self.sp.me(st)),
                        'initialiser-is-the-main-thread', ('P19',), 'the id of the main thread is not that of the thread that called init first')


class Shutdown(Registry):
    top = 'tpp::shutdown'
    props = ('P03', 'P04', 'P19', 'P20')
    safe = ('P19',)
    uses = ('notify_for_exit', 'unregister_this_thread', 'get_all_registered_threads')

    def setup(self, st):
        self.sp.clock(st)
        p = self.local_obj(st, None, 'timeout', 8)
        d = self.eng.load_at(st, p.obj, 0, 8)
        st.assume(z3.And(d < (1 << 30), d > -(1 << 30)))
        self.J = self.eng.fresh('J')
        st.ghost.update(asked=False, counted=0, acted=False, gave_up=False)
        return [(s, [p]) for s in self.tls_setup(st)]

    def ev_atomic(self, st, rec, fld, q, old, new, kind):
        if fld == 'init_count':
            self.oblige(st, And(Not(eq(old, 0)), eq(new, sub(old, 1))), 'shutdown-counts-down', ('P19',),
                        'shutdown changes the number of initialisers although there is none, or by more than one')
            st.ghost['counted'] = add(st.ghost['counted'], 1)
            st.ghost['last_init'] = eq(new, 0)

    def ev_listed(self, st, C, size):
        st.ghost['list'] = (C, size)
        st.ghost['asked'] = Not(ult(self.J, size))

    def ev_unregistered(self, st):
        st.ghost['acted'] = True

    def ev_notify_exit(self, st, ident):
        st.ghost['acted'] = True
        C, size = st.ghost.get('list') or (0, 0)
        if 'list' in st.ghost:
            st.ghost['asked'] = Or(st.ghost['asked'], eq(ident, KEYAT(z3.BitVecVal(C, 64), self.J)))

    def loop_candidates(self, s0, h0, M, fn, header):
        out = []
        for key, g, bits in self.eng.int_locs(h0, M):
            if bits == 64:
                out.append(('asked or J>=%s' % (key,), lambda t, g=g: Or(t.ghost['asked'], ule(g(t), self.J))))
                out.append(('asked or J<%s' % (key,), lambda t, g=g: Or(t.ghost['asked'], ult(self.J, g(t)))))
        return out

    def exit_ok(self, st, lk):
        return bool(st.ghost.get('last_init_must'))

    def ev_registry_acquired(self, st, lk, why):
        C = st.ghost['reg'][0]
        st.ghost['left'] = st.mem[C].meta['size']

    def ev_registry_released(self, st, lk, why):
        # the last size seen before the waiting ended is the result
        st.ghost['sizes'] = (st.ghost.get('sizes') or ()) + (st.ghost['left'],)

    def ensures(self, st, kind, val):
        n = st.ghost['counted']
        one = eq(n, 1)
        last = And(one, st.ghost.get('last_init', False))
        neg = eq(val, 0xffffffff)
        self.oblige(st, Or(last, neg), 'early-shutdown-returns-minus-one', ('P19',), 'shutdown by a non-last initialiser does not return -1')
        self.oblige(st, ule(n, 1), 'shutdown-counts-once', ('P19',), 'shutdown counts more than once')
        if not self.eng.must(st, last):
            self.oblige(st, Not(st.ghost['acted']), 'early-shutdown-changes-nothing', ('P19',), 'shutdown by a non-last initialiser has effects')
            return
        self.leaves_first(st)
        self.oblige(st, 'list' in st.ghost, 'shutdown-lists-threads', ('P19',), 'registered threads are not asked to exit')
        size = (st.ghost.get('list') or (0, 0))[1]
        self.oblige(st, Or(st.ghost['asked'], Not(ult(self.J, size))), 'every-thread-asked-to-exit', ('P19',), 'a registered thread is not asked to exit')
        sizes = st.ghost.get('sizes') or ()
        self.oblige(st, Or(*[And(eq(val, z3.Extract(31, 0, bv(z))), Implies(eq(val, 0), eq(z, 0))) for z in sizes]) if sizes else False,
                    'result-is-threads-left', ('P19',), 'the result is not the number of threads still registered')
        self.oblige(st, Implies(Not(eq(val, 0)), st.ghost['gave_up']), 'waits-until-timeout', ('P19',),
                    'gives up before the timeout although threads are still registered')

    def leaves_first(self, st):
        self.oblige(st, eq(self.sp.tls(st), 0), 'shutdown-does-not-wait-for-itself', ('P19',), 'the thread that shuts down stays registered, so it waits for itself')

    def ev_cv_wait(self, st, c, lk, deadline):
        self.leaves_first(st)

    def ev_cv_result(self, st, c, timeout):
        if timeout:
            st.ghost['gave_up'] = True

    def last_release(self, st, pi):
        return [st]


class ThreadObj(Base):
    """tpp::thread: native handle and id travel together"""
    props = ('P04', 'P19', 'P20')
    safe = ('P19',)
    uses = ('notify_for_exit',)
    joinable = None

    def fields(self):
        return self.sp.field('tpp::thread', '_M_id')[0], self.sp.field('tpp::thread', 'id_')[0]

    def thr(self, st, name, joinable=None):
        p = self.local_obj(st, 'tpp::thread', name)
        h, i = self.pair(st, p)
        if joinable is True:
            st.assume(B(Not(eq(h, 0))))
        return p, (h, i)

    def pair(self, st, p):
        a, b = self.fields()
        return self.eng.load_at(st, p.obj, p.off + a, 8), self.eng.load_at(st, p.obj, p.off + b, 8)

    def ev_notify_exit(self, st, ident):
        st.ghost['steps'] = (st.ghost.get('steps') or ()) + (('exit', ident),)

    def ev_join(self, st, h):
        st.ghost['steps'] = (st.ghost.get('steps') or ()) + (('join', h),)

    def setup(self, st):
        self.t, self.t0 = self.thr(st, 'thr', self.joinable)
        return [(s, [self.t]) for s in self.tls_setup(st)]

    def ended(self, st, pair):
        """the thread was asked to exit and joined, if it was joinable"""
        steps = st.ghost.get('steps') or ()
        if self.eng.must(st, eq(pair[0], 0)):
            self.oblige(st, not steps, 'nothing-to-end', ('P19',), 'a thread is ended although the object owned none')
            return
        self.oblige(st, len(steps) == 2 and steps[0][0] == 'exit' and steps[1][0] == 'join', 'asks-to-exit-then-joins', ('P19',),
                    'the thread is not asked to exit and then waited for (exactly once)')
        if len(steps) == 2 and steps[0][0] == 'exit' and steps[1][0] == 'join':
            self.oblige(st, eq(steps[0][1], pair[1]), 'asks-that-thread', ('P19',), 'another thread is asked to exit')
            self.oblige(st, eq(steps[1][1], pair[0]), 'joins-that-thread', ('P19',), 'another thread is joined')


class ThreadJoin(ThreadObj):
    top = 'tpp::thread::join'
    joinable = True

    def ensures(self, st, kind, val):
        self.ended(st, self.t0)
        self.oblige(st, eq(self.pair(st, self.t)[0], 0), 'not-joinable-afterwards', ('P19',), 'still joinable after join')


class ThreadDtor(ThreadObj):
    top = 'tpp::thread::~thread'
    sig = None

    def find(self):
        f = [n for n in self.eng.m.by_base.get(self.top, []) if not self.eng.m.functions[n].is_decl]
        return [n for n in f if 'D2' in n] or f

    def ensures(self, st, kind, val):
        self.ended(st, self.t0)


class ThreadAssign(ThreadObj):
    top = 'tpp::thread::operator='

    def setup(self, st):
        self.t, self.t0 = self.thr(st, 'thr')
        self.u, self.u0 = self.thr(st, 'other')
        return [(s, [self.t, self.u]) for s in self.tls_setup(st)]

    def ensures(self, st, kind, val):
        self.ended(st, self.t0)
        h, i = self.pair(st, self.t)
        self.oblige(st, And(eq(h, self.u0[0]), eq(i, self.u0[1])), 'takes-native-thread-and-id', ('P19',),
                    'after assignment native thread and id do not belong together')
        self.oblige(st, eq(self.pair(st, self.u)[0], 0), 'source-gives-up-its-thread', ('P19',), 'the source still owns a thread')


class ThreadSwap(ThreadObj):
    top = 'tpp::thread::swap'

    def setup(self, st):
        self.t, self.t0 = self.thr(st, 'thr')
        self.u, self.u0 = self.thr(st, 'other')
        return [(s, [self.t, self.u]) for s in self.tls_setup(st)]

    def ensures(self, st, kind, val):
        a, b = self.pair(st, self.t), self.pair(st, self.u)
        self.oblige(st, And(eq(a[0], self.u0[0]), eq(a[1], self.u0[1]), eq(b[0], self.t0[0]), eq(b[1], self.t0[1])),
                    'swaps-native-thread-and-id', ('P19',), 'after swap native threads and ids do not belong together')
        self.oblige(st, not st.ghost.get('steps'), 'nothing-to-end', ('P19',), 'swap ends a thread')


class ProgramStart(Base):
    """the registry as the program starts: what its invariants start from"""
    top = 'tpp::program_context::program_context'
    name = top + '()'
    props = safe = ('P03', 'P19')

    def find(self):
        f = [n for n in self.eng.m.by_base.get(self.top, []) if not self.eng.m.functions[n].is_decl]
        return [n for n in f if 'C2' in n] or f

    def setup(self, st):
        self.rec = self.eng.di.rec('tpp::program_context')
        self.o = self.out_obj(st, self.eng.di.size(self.rec), 'program')
        return [(st, [self.o])]

    def ensures(self, st, kind, val):
        at = lambda n: self.sp.field(self.rec, n)[0]
        get = lambda n: self.eng.load_at(st, self.o.obj, at(n), 8)

        def empty(n):
            c = st.mem[self.o.obj].cells.get(at(n))
            return isinstance(c[1], SL.MapVal) and eq(st.mem[c[1].tab].meta['size'], 0) if c else False
        self.oblige(st, kind == RET, 'no-exception', ('P03', 'P19'), 'starting the program throws')
        self.oblige(st, And(empty('contexts'), empty('id_map')), 'nobody-is-registered-yet', ('P03', 'P19'), 'threads are registered as the program starts')
        self.oblige(st, eq(get('main_thread_id'), 0), 'no-main-thread-yet', ('P03',), 'there is a main thread before init')
        self.oblige(st, eq(get('init_count'), 0), 'not-initialised-yet', ('P19',), 'the library counts as initialised as the program starts')


class ThreadNew(ThreadObj):
    top = 'tpp::thread::thread'
    sig = r'::thread\(\)$'
    name = 'tpp::thread::thread()'

    def find(self):
        return [n for n in self.eng.m.by_base.get(self.top, []) if re.search(self.sig, self.eng.m.dem[n]) and not self.eng.m.functions[n].is_decl]

    def setup(self, st):
        self.t = self.out_obj(st, 16, 'thr')
        return [(s, [self.t]) for s in self.tls_setup(st)]

    def ensures(self, st, kind, val):
        h, i = self.pair(st, self.t)
        self.oblige(st, And(eq(h, 0), eq(i, 0)), 'owns-nothing', ('P19',), 'a new thread object owns a thread or has an id')


class ThreadMove(ThreadNew):
    sig = r'\(tpp::thread&&\)'
    name = 'tpp::thread::thread(thread&&)'

    def setup(self, st):
        self.t = self.out_obj(st, 16, 'thr')
        self.u, self.u0 = self.thr(st, 'other')
        return [(s, [self.t, self.u]) for s in self.tls_setup(st)]

    def ensures(self, st, kind, val):
        h, i = self.pair(st, self.t)
        self.oblige(st, And(eq(h, self.u0[0]), eq(i, self.u0[1])), 'takes-native-thread-and-id', ('P19',),
                    'after the move native thread and id do not belong together')
        self.oblige(st, eq(self.pair(st, self.u)[0], 0), 'source-gives-up-its-thread', ('P19',), 'the source still owns a thread')
        self.oblige(st, not st.ghost.get('steps'), 'nothing-to-end', ('P19',), 'a thread is ended')


class MakeSharedThread(ThreadObj):
    top = 'tpp::make_shared_thread'
    uses = ThreadObj.uses + ('make_thread',)

    def setup(self, st):
        st.ghost.update(made=())
        self.out = self.out_obj(st, 16, 'thread')
        self.nm = self.local_obj(st, None, 'name', 32)
        return [(s, [self.out, self.nm]) for s in self.tls_setup(st)]

    def ev_made_thread(self, st, h, i):
        st.ghost['made'] += ((h, i),)

    def ensures(self, st, kind, val):
        made = st.ghost['made']
        self.oblige(st, kind == RET, 'no-exception', ('P19',), 'an exception leaves the call although a thread runs')
        self.oblige(st, len(made) == 1, 'one-thread-is-started', ('P19',), 'not exactly one thread is started')
        self.oblige(st, not st.ghost.get('steps'), 'nothing-to-end', ('P19',), 'the thread is ended')
        p = self.eng.load_at(st, self.out.obj, self.out.off, 8)
        self.oblige(st, isinstance(p, Ptr), 'owns-the-thread', ('P19',), 'no thread object is returned')
        if isinstance(p, Ptr) and len(made) == 1:
            h, i = self.pair(st, p)
            self.oblige(st, And(eq(h, made[0][0]), eq(i, made[0][1])), 'owns-the-thread', ('P19',), 'the object does not own the thread that was started')


class MakeThread(ThreadObj):
    """starts one thread and knows it by the id it was registered under"""
    top = 'tpp::make_thread'
    uses = ThreadObj.uses + ('register_this',)

    def setup(self, st):
        st.ghost.update(started=(), ids=())
        self.out = self.out_obj(st, 16, 'thread')
        self.nm = self.local_obj(st, None, 'name', 32)
        return [(s, [self.out, self.nm]) for s in self.tls_setup(st)]

    def ev_thread_start(self, st, p, h):
        st.ghost['started'] += (h,)

    def ev_registered_other(self, st, h, i):
        st.ghost['ids'] += ((h, i),)

    def ensures(self, st, kind, val):
        if kind != RET:
            self.oblige(st, not st.ghost['started'], 'no-thread-is-lost', ('P19',), 'an exception leaves the call although a thread runs')
            return
        h, i = self.pair(st, self.out)
        th, ids = st.ghost['started'], st.ghost['ids']
        self.oblige(st, len(th) == 1, 'one-thread-is-started', ('P19',), 'not exactly one thread is started')
        self.oblige(st, bool(th) and eq(h, th[0]), 'owns-the-thread', ('P19',), 'the object does not own the thread that was started')
        self.oblige(st, And(Not(eq(i, 0)), Or(*[And(eq(i, y), eq(h, x)) for x, y in ids])), 'knows-the-thread', ('P19', 'P14'),
                    'the id of the object is not the one its thread is registered under')
        if st.ghost.get('self_id') is not None:
            self.oblige(st, Not(eq(i, st.ghost['self_id'])), 'another-thread', ('P19', 'P14'), 'the new thread has the id of the calling one')
        self.oblige(st, not st.ghost.get('steps'), 'nothing-to-end', ('P19',), 'a thread is ended')


class ThreadBody(Registry):
    """the body of a thread created by make_thread"""
    name = 'thread body of tpp::make_thread'
    props = ('P01', 'P02', 'P03', 'P04', 'P19', 'P20')
    safe = ('P19',)
    registered = False
    uses = ('wait',)

    def find(self):
        return [n for b, l in self.eng.m.by_base.items() if b.startswith('tpp::make_thread::') and b.endswith('operator()')
                for n in l if not self.eng.m.functions[n].is_decl]

    def setup(self, st):
        return [(s, [self.local_obj(s, None, 'closure', 32)]) for s in self.tls_setup(st)]

    def ev_table_op(self, st, kind, tab, e):
        reg = st.ghost.get('reg')
        if kind == 'del' and reg and tab == reg[0]:
            st.ghost['left'] = True

    def ensures(self, st, kind, val):
        self.oblige(st, eq(self.sp.tls(st), 0), 'ends-unregistered', ('P03', 'P19'), 'the thread ends without unregistering')
        self.oblige(st, bool(st.ghost.get('left')), 'leaves-the-registry', ('P03', 'P19'), 'the thread ends while its id stays registered')


CONTRACTS = [ProgramStart, WaitUntil, Init, Shutdown, WaitFor, ProcessFor, Process, Wait, InvokePackagedTask, Notify, NotifyForExit, PendingCount,
             PendingCountDetailed, SleepFor, SleepUntil, SetThreadConfigTask, SetThreadConfig, RegisterThread, RegisterThis, RegisterThisThread,
             RegisterThisThreadNamed, UnregisterThisThread, ListThreads, GetId, IsRegistered, NotifiedForExit, GetDepth,
             MainThreadId, ThreadNew, ThreadMove, MakeSharedThread, ThreadJoin, ThreadDtor, ThreadAssign, ThreadSwap, MakeThread, ThreadBody]
