"""Contracts of promises and futures (future.hpp, detail/future_state.hpp)."""
import re

import z3

from ..engine import (Ptr, FPtr, VecVal, Exc, And, Or, Not, Implies, B, bv, eq, ult, ule, add, sub, same, Unsupported)
from ..monitors import BasicState, fwords
from .threads import Base

RET = 'ret'
ALREADY_RETRIEVED, ALREADY_SATISFIED, NO_STATE, BROKEN = 1, 2, 3, 4
FUTURE_ERROR = '_ZTISt12future_error'


def off(eng, rec, *names):
    """offset of a (nested) field"""
    o = 0
    for n in names:
        f = eng.di.all_fields(rec)[n]
        o += f[0]
        rec = f[2]
    return o


class Opaque(Base):
    """user supplied types are only declared: what they do is unknown, apart from carrying a value along"""
    value_throws = False       # may copies and moves of results throw?

    def external(self, st, name, base, args, fty):
        m = re.match(r'itcv::(\w+)::(.*)$', base)
        if m is None:
            return None
        cls, fn = m.groups()
        if fn == cls:
            return self.copy(st, cls, args, '&&' in self.eng.m.dem[name])
        if fn == '~' + cls:
            self.event(st, 'dtor', cls, args[0])
            return [(st, RET, None)]
        return None

    def copy(self, st, cls, args, move):
        eng = self.eng
        out = []
        for s, d in eng.deref(st, args[0]):
            for s2, q in eng.deref(s, args[1]):
                if cls == 'U' and self.value_throws:
                    out.append(self.throw(s2.fork()))
                v = eng.load_at(s2, q.obj, q.off, 8)
                eng.store_at(s2, d.obj, d.off, 8, v)
                if move and not isinstance(v, Ptr):
                    eng.store_at(s2, q.obj, q.off, 8, eng.fresh('moved_from'))
                out.append((s2, RET, d if not d.off else Ptr(d.obj, d.off)))
        return out

    def throw(self, st):
        o = self.eng.new_obj(st, 'exc', 64, name='user exception')
        e = Exc(Ptr(o.id, 0), '_ZTIN4itcv4thrownE')
        st.excs[o.id] = e
        st.ghost['thrown'] = (st.ghost.get('thrown') or ()) + (o.id,)
        return (st, 'throw', e)

    def user_exc(self, st, e):
        """an exception thrown by user code"""
        return isinstance(e.ptr, Ptr) and e.ptr.obj in (st.ghost.get('thrown') or ())

    def error_code(self, st, e):
        """code of a std::future_error (None: something else)"""
        if not isinstance(e, Exc) or e.ti != FUTURE_ERROR:
            return None
        return self.eng.load_at(st, e.ptr.obj, 16, 4)


class Fut(Opaque):
    """shared states reachable from promises and futures"""
    props = ('P04', 'P05', 'P06', 'P07', 'P08', 'P20')
    safe = ('P05', 'P06', 'P07', 'P08')
    uses = ('cv_wait', 'cv_wait_for', 'cv_notify_all', 'cv_notify_one')
    T = 'itcv::U'

    def state_ptr(self, st, p):
        return self.eng.load_at(st, p.obj, p.off, 8)

    def holder(self, st, kind, name):
        """a promise or future that may or may not have a state"""
        p = self.local_obj(st, 'tpp::%s<%s>' % (kind, self.T), name)
        v, pi = self.state_ptr(st, p), self.eng.load_at(st, p.obj, 8, 8)
        st.assume(B(eq(B(eq(v, 0)), B(eq(pi, 0)))))
        return p

    def void(self):
        return self.T == 'void'

    def lock_of(self, st, oid):
        """LockKey of the guard of the state in object oid"""
        o = st.mem[oid]
        T = self.T
        base = 0
        for t, n in o.tags:
            m = re.match(r'tpp::detail::future_state<(.*)>$', n)
            if m:
                base, T = t, m.group(1)
        rec = self.eng.di.rec('tpp::detail::basic_state<%s>' % T)
        return self.sp.lock_key(st, Ptr(oid, base + self.sp.field(rec, 'guard')[0]))

    def view(self, st, oid):
        from ..monitors import StateView
        return StateView(self.sp.monitors[BasicState.REC], st, self.lock_of(st, oid))

    def status(self, st, oid):
        return self.view(st, oid).status

    # --- what happened to the shared states
    def begin(self, st):
        st.ghost.update(made=(), pos=0, attached=(), attached_run=0)
        a = self.args(st)
        return [(s2, a) for s in self.cases(st) for s2 in self.tls_setup(s)]

    setup = begin

    def cases(self, st):
        """split on whether there is a state"""
        out = []
        for s, nul in self.eng.split(st, eq(self.s0, 0)):
            s.ghost['no_state'] = nul
            if not nul:
                s.ghost['target'] = self.eng.resolve(s, self.s0).obj
            else:
                self.eng.store_at(s, self.subject.obj, 0, 8, 0)
                self.eng.store_at(s, self.subject.obj, 8, 8, 0)
            out.append(s)
        return out

    def ev_made_ready(self, st, lk, v0, v, k, W):
        self.all_started(st)
        st.ghost['made'] = st.ghost['made'] + (lk.oid,)
        st.ghost['conts'] = (v0.cb.buf, v0.cb.len, k, W)
        st.ghost['pos'] = 0

    def ev_attached(self, st, lk, w, e):
        st.ghost['attached'] = st.ghost['attached'] + ((lk.oid, tuple(w), e),)

    def ev_state_released(self, st, lk, v0, v, why):
        st.ghost[('seen', lk.oid)] = v0.status

    def user_call(self, st, w, fv, name, args, rty):
        """a continuation is started"""
        eng = self.eng
        if 'config' in name:
            return super().user_call(st, w, fv, name, args, rty)
        c = st.ghost.get('conts')
        tags = ('P06',)
        if c is None:
            self.oblige(st, False, 'only-attached-continuations-run', tags, 'runs something although no state became ready')
            return [(st, RET, None)]
        buf, n, k, W = c
        idx = self.which(st, buf, args[0], w, fv)
        if idx is None:
            raise Unsupported('cannot tell which continuation is started')
        pos = st.ghost['pos']
        self.oblige(st, And(ule(pos, idx), ult(idx, n)), 'continuation-not-run-twice', tags, 'a continuation is started twice or out of order')
        self.oblige(st, Implies(And(ule(pos, k), ult(k, idx)), eng.isnull(st, W[2])), 'continuation-not-skipped', tags, 'a continuation is skipped')
        st.ghost['pos'] = add(idx, 1)
        return [(st, RET, None)]

    def which(self, st, buf, q, w, fv):
        """index of the function object at q (or of the one it is a copy of) in the list of continuations"""
        if isinstance(q, Ptr) and q.obj == buf and q.idx is not None:
            return q.idx
        for i, x in st.mem[buf].meta['elems']:
            if isinstance(q, Ptr) and q.obj == x:
                return i
        for i, x in st.mem[buf].meta['elems']:
            f = fwords(self.eng, st, x)
            if same(f[0], w) and same(f[3], fv):
                return i
        return None

    def loop_candidates(self, s0, h0, M, fn, header):
        out = []
        c = h0.ghost.get('conts')
        if c is None:
            return out
        buf, n, k, W = c
        for key, g, bits in self.eng.int_locs(h0, M):
            if bits == 64 and key != ('ghost', 'pos'):
                out.append(('pos<=%s' % (key,), lambda t, g=g: ule(t.ghost['pos'], g(t))))
                out.append(('none skipped before %s' % (key,), lambda t, g=g: Implies(And(ule(t.ghost['pos'], k), ult(k, g(t))), self.eng.isnull(t, W[2]))))
        return out

    def havoc_ghost(self, name, g0):
        if isinstance(name, tuple) and name[0] in ('seen', 'valpi'):
            return None
        return super().havoc_ghost(name, g0)

    def all_started(self, st):
        c = st.ghost.get('conts')
        if c is not None:
            buf, n, k, W = c
            self.oblige(st, Implies(And(ule(st.ghost['pos'], k), ult(k, n)), self.eng.isnull(st, W[2])), 'every-continuation-started', ('P06',),
                        'returns without having started every continuation that was attached')

    def post(self, st, kind, val):
        self.all_started(st)
        self.ensures(st, kind, val)

    def no_state_error(self, st, kind, val):
        """True if there was no state; then the call must have said so"""
        if not st.ghost.get('no_state'):
            return False
        code = self.error_code(st, val) if kind != RET else None
        self.oblige(st, code is not None and eq(code, NO_STATE), 'no-state-reported', ('P05',), 'a call without a shared state does not throw no_state')
        return True

    def once(self, st):
        """the call completed exactly the state of the promise"""
        return st.ghost['made'] == (st.ghost['target'],)

    def untouched(self, st):
        return st.ghost['made'] == () and st.ghost['attached'] == ()


class PromiseMethod(Fut):
    kind = 'promise'

    def args(self, st):
        self.p = self.subject = self.holder(st, 'promise', 'promise')
        self.s0 = self.state_ptr(st, self.p)
        return self.params(st)

    def params(self, st):
        return [self.p]


class SetValue(PromiseMethod):
    """the result of a promise is fixed by the first successful call"""
    top = 'tpp::promise::set_value'
    sig = r'<itcv::U>::set_value\(itcv::U&&\)'
    name = 'tpp::promise<T>::set_value(T&&)'
    value_throws = True

    def params(self, st):
        self.u = self.local_obj(st, 'itcv::U', 'value')
        self.v0 = self.eng.load_at(st, self.u.obj, 0, 8)
        return [self.p, self.u]

    def holds_result(self, st, v):
        """the result in the state is the one given to the call"""
        if self.void():
            return eq(v.status, 1)
        if not isinstance(v.val, Ptr):
            return False
        return And(eq(v.status, 1), eq(self.eng.load_at(st, v.val.obj, v.val.off, 8), self.v0))

    def ensures(self, st, kind, val):
        if self.no_state_error(st, kind, val):
            return
        tgt = st.ghost['target']
        seen = st.ghost.get(('seen', tgt))
        if kind == RET:
            self.oblige(st, self.once(st), 'sets-the-result', ('P05',), 'returns without having made the state ready exactly once')
            if self.once(st):
                self.oblige(st, self.holds_result(st, st.ghost[('last', tgt)]), 'stores-what-was-given', ('P05', 'P07'), 'the state does not hold the result that was given')
            return
        code = self.error_code(st, val)
        self.oblige(st, self.untouched(st), 'failed-set-changes-nothing', ('P05',), 'a call that throws has changed the shared state')
        if code is not None:
            self.oblige(st, And(eq(code, ALREADY_SATISFIED), seen is not None and Not(eq(seen, 0))), 'refused-only-if-satisfied', ('P05',),
                        'the call is refused although the promise is not satisfied')
        else:
            self.oblige(st, self.user_exc(st, val), 'no-other-exception', ('P05',), 'an unexpected exception leaves the call')


class SetValueCopy(SetValue):
    sig = r'<itcv::U>::set_value\(itcv::U const&\)'
    name = 'tpp::promise<T>::set_value(const T&)'


class SetValueVoid(SetValue):
    sig = r'<void>::set_value\(\)'
    name = 'tpp::promise<void>::set_value'
    T = 'void'

    def params(self, st):
        return [self.p]


class SetException(SetValue):
    top = 'tpp::detail::basic_promise::set_exception'
    sig = r'<itcv::U>::'
    name = 'tpp::promise<T>::set_exception'
    value_throws = False

    def params(self, st):
        self.e = self.local_obj(st, None, 'exception_ptr', 8)
        self.e0 = self.eng.load_at(st, self.e.obj, 0, 8)
        st.assume(self.e0 != 0)
        return [self.p, self.e]

    def holds_result(self, st, v):
        return And(eq(v.status, 2), self.eng.ptr_eq(st, v.exc, self.e0))


class SetExceptionVoid(SetException):
    sig = r'<void>::'
    name = 'tpp::promise<void>::set_exception'
    T = 'void'


class Abandon(SetValue):
    top = 'tpp::detail::basic_promise::abandon'
    sig = r'<itcv::U>::'
    name = 'tpp::promise<T>::abandon'
    value_throws = False

    def params(self, st):
        return [self.p]

    def broken(self, st, v):
        if not isinstance(v.exc, Ptr):
            return False
        code = self.error_code(st, st.excs.get(v.exc.obj))
        return And(eq(v.status, 2), False if code is None else eq(code, BROKEN))

    holds_result = broken

    def ensures(self, st, kind, val):
        super().ensures(st, kind, val)
        if kind == RET and not st.ghost['no_state']:
            self.oblige(st, self.once(st) and self.broken(st, st.ghost[('last', st.ghost['target'])]), 'abandoned-promise-breaks-its-future', ('P08',),
                        'the future of an abandoned promise is not ready with broken_promise')


class AbandonVoid(Abandon):
    sig = r'<void>::'
    name = 'tpp::promise<void>::abandon'
    T = 'void'


class GiveUp(Abandon):
    """the promise is not used by any other thread any more"""

    def exclusive(self, st, lk):
        return lk.oid in self.mine(st)

    def mine(self, st):
        return (st.ghost.get('target'),)

    def atomic_stable(self, st, rec, fld, q):
        return fld == 'status' and q.obj in self.mine(st)

    def given_up(self, st):
        tgt = st.ghost['target']
        st0 = self.st0
        v = self.view(st, tgt)
        self.oblige(st, Implies(Not(eq(st0, 0)), And(st.ghost['made'] == (), eq(v.status, st0))), 'satisfied-promise-keeps-its-result', ('P08', 'P05'),
                    'giving up a satisfied promise changes its result')
        self.oblige(st, Implies(eq(st0, 0), self.once(st) and self.broken(st, v)), 'given-up-promise-breaks-its-future', ('P08',),
                    'the future of a promise that is gone is not ready with broken_promise')

    def cases(self, st):
        out = super().cases(st)
        for s in out:
            if not s.ghost['no_state']:
                self.st0 = self.status(s, s.ghost['target'])
                s.assume(B(ule(self.st0, 2)))
        return out


class PromiseDtor(GiveUp):
    top = 'tpp::promise::~promise'
    sig = r'<itcv::U>::'
    name = 'tpp::promise<T>::~promise'

    def ensures(self, st, kind, val):
        self.oblige(st, kind == RET, 'no-exception', ('P08',), 'an exception leaves the destructor')
        if st.ghost['no_state']:
            self.oblige(st, self.untouched(st), 'nothing-to-give-up', ('P08',), 'a promise without state changes a shared state')
        else:
            self.given_up(st)


class PromiseDtorVoid(PromiseDtor):
    sig = r'<void>::'
    name = 'tpp::promise<void>::~promise'
    T = 'void'


class PromiseAssign(PromiseDtor):
    """the old state is given up, the new one taken over"""
    top = 'tpp::promise::operator='
    sig = r'<itcv::U>::'
    name = 'tpp::promise<T>::operator='

    def params(self, st):
        self.q = self.holder(st, 'promise', 'rhs')
        self.q0 = [self.eng.load_at(st, self.q.obj, k, 8) for k in (0, 8)]
        return [self.p, self.q]

    def ensures(self, st, kind, val):
        super().ensures(st, kind, val)
        eng = self.eng
        self.oblige(st, And(*[eng.ptr_eq(st, eng.load_at(st, self.p.obj, k, 8), self.q0[k // 8]) for k in (0, 8)]), 'state-taken-over', ('P08',),
                    'the promise assigned to does not own the state of the other one')
        self.oblige(st, And(*[eng.isnull(st, eng.load_at(st, self.q.obj, k, 8)) for k in (0, 8)]), 'moved-from-promise-has-no-state', ('P08',),
                    'the promise that was moved from still owns a state')


class PromiseAssignVoid(PromiseAssign):
    sig = r'<void>::'
    name = 'tpp::promise<void>::operator='
    T = 'void'


class PromiseSelfAssign(GiveUp):
    top = 'tpp::promise::operator='
    sig = r'<itcv::U>::'
    name = 'tpp::promise<T>::operator= (itself)'

    def params(self, st):
        return [self.p, self.p]

    def ensures(self, st, kind, val):
        self.oblige(st, kind == RET, 'no-exception', ('P08',), 'an exception leaves the assignment')
        if st.ghost['no_state']:
            self.oblige(st, self.untouched(st), 'nothing-to-give-up', ('P08',), 'a promise without state changes a shared state')
            return
        # either nothing happens or the state is given up properly
        kept = self.eng.ptr_eq(st, self.state_ptr(st, self.p), self.s0)
        self.oblige(st, Or(And(kept, self.untouched(st)), Not(eq(self.st0, 0)), self.once(st) and self.broken(st, self.view(st, st.ghost['target']))),
                    'self-assignment-loses-nothing', ('P08',), 'assigning a promise to itself loses its state')


class PromiseMove(PromiseMethod):
    top = 'tpp::promise::promise'
    sig = r'<itcv::U>::promise\(tpp::promise<itcv::U>&&\)'
    name = 'tpp::promise<T>::promise(promise&&)'

    def params(self, st):
        self.new = self.out_obj(st, 16, 'new promise')
        self.pi0 = self.eng.load_at(st, self.p.obj, 8, 8)
        return [self.new, self.p]

    def ensures(self, st, kind, val):
        eng = self.eng
        self.oblige(st, kind == RET, 'no-exception', ('P08',), 'an exception leaves the constructor')
        self.oblige(st, self.untouched(st), 'move-leaves-the-state-alone', ('P08',), 'moving a promise changes its shared state')
        nul = st.ghost['no_state']
        self.oblige(st, And(eng.ptr_eq(st, self.state_ptr(st, self.new), 0 if nul else self.s0),
                            eng.ptr_eq(st, eng.load_at(st, self.new.obj, 8, 8), 0 if nul else self.pi0)), 'state-taken-over', ('P08',),
                    'the new promise does not own the state')
        self.oblige(st, And(*[eng.isnull(st, eng.load_at(st, self.p.obj, k, 8)) for k in (0, 8)]), 'moved-from-promise-has-no-state', ('P08',),
                    'the promise that was moved from still owns a state')


class GetFuture(PromiseMethod):
    """the future is handed out once"""
    top = 'tpp::detail::basic_promise::get_future'
    sig = r'<itcv::U>::'
    name = 'tpp::promise<T>::get_future'

    def params(self, st):
        self.out = self.out_obj(st, 16, 'future')
        return [self.out, self.p]

    def ev_atomic(self, st, rec, fld, q, old, new, kind):
        if fld == 'retrieved':
            self.oblige(st, q.obj == st.ghost.get('target'), 'own-flag', ('P05',), 'looks at the flag of another state')
            if kind != 'load':
                self.oblige(st, Not(eq(new, 0)), 'retrieved-flag-stays-set', ('P05',), 'the retrieved flag is cleared')
                st.ghost['was'] = old

    def ensures(self, st, kind, val):
        if self.no_state_error(st, kind, val):
            return
        was = st.ghost.get('was')
        self.oblige(st, self.untouched(st), 'get-future-leaves-the-state-alone', ('P05',), 'get_future changes the shared state')
        if was is None:
            self.oblige(st, False, 'retrieved-flag-tested', ('P05',), 'the future is handed out (or refused) without testing and setting the flag')
            return
        if kind == RET:
            self.oblige(st, eq(was, 0), 'future-handed-out-once', ('P05',), 'the future is handed out a second time')
            self.oblige(st, self.eng.ptr_eq(st, self.state_ptr(st, self.out), self.s0), 'future-of-this-promise', ('P05',), 'the future belongs to another state')
            self.oblige(st, self.eng.ptr_eq(st, self.state_ptr(st, self.p), self.s0), 'promise-keeps-its-state', ('P05',), 'the promise loses its state')
        else:
            code = self.error_code(st, val)
            self.oblige(st, And(Not(eq(was, 0)), code is not None and eq(code, ALREADY_RETRIEVED)), 'refused-only-if-retrieved', ('P05',),
                        'the future is refused although it has not been retrieved')


class GetFutureVoid(GetFuture):
    sig = r'<void>::'
    name = 'tpp::promise<void>::get_future'
    T = 'void'


class PromiseNew(Fut):
    top = 'tpp::promise::promise'
    sig = r'<itcv::U>::promise\(\)'
    name = 'tpp::promise<T>::promise()'

    def setup(self, st):
        st.ghost.update(made=(), pos=0, attached=())
        self.out = self.out_obj(st, 16, 'new promise')
        return [(s, [self.out]) for s in self.tls_setup(st)]

    def ensures(self, st, kind, val):
        self.oblige(st, kind == RET, 'no-exception', ('P05',), 'an exception leaves the constructor')
        if kind != RET:
            return
        p = self.state_ptr(st, self.out)
        self.oblige(st, isinstance(p, Ptr), 'new-promise-has-a-state', ('P05',), 'a new promise has no state')
        if not isinstance(p, Ptr):
            return
        v = self.view(st, p.obj)
        self.oblige(st, And(eq(v.status, 0), self.eng.isnull(st, v.exc), self.void() or self.eng.isnull(st, v.val), eq(v.cb.len, 0)), 'new-state-is-empty',
                    ('P05', 'P06'), 'the state of a new promise holds something')
        lk = self.lock_of(st, p.obj)
        self.oblige(st, eq(self.eng.load_at(st, p.obj, lk.base + self.sp.field(lk.recid, 'retrieved')[0], 1), 0), 'new-state-not-retrieved', ('P05',),
                    'the future of a new promise counts as retrieved')


class PromiseNewVoid(PromiseNew):
    sig = r'<void>::promise\(\)'
    name = 'tpp::promise<void>::promise()'
    T = 'void'


# ---------------------------------------------------------------- futures
class FutureMethod(Fut):
    kind = 'future'
    rec = 'basic_future'

    def args(self, st):
        self.p = self.subject = self.holder(st, self.kind, 'future')
        self.s0 = self.state_ptr(st, self.p)
        return self.params(st)

    def params(self, st):
        return [self.p]

    def ev_atomic(self, st, rec, fld, q, old, new, kind):
        if fld == 'status':
            st.ghost['status_read'] = new

    def exit_or_gone(self, st):
        """asked to exit or not registered"""
        own = self.sp.owner_obj(st)
        if own is None:
            return True
        return Not(eq(self.sp.get(st, own, 0, self.ctx_rec(), 'exit'), 0))

    def has_result(self, st):
        return Not(eq(self.status(st, st.ghost['target']), 0))


class Valid(FutureMethod):
    top = 'tpp::detail::basic_future::valid'
    sig = r'<itcv::U>::'
    name = 'tpp::future<T>::valid'

    def ensures(self, st, kind, val):
        self.oblige(st, kind == RET and eq(val, 0 if st.ghost['no_state'] else 1), 'valid-iff-state', ('P05', 'P07'), 'valid does not tell whether there is a state')
        self.oblige(st, self.untouched(st), 'no-effect', ('P05',), 'an observer changes the state')


class IsReady(FutureMethod):
    top = 'tpp::detail::basic_future::is_ready'
    sig = r'<itcv::U>::'
    name = 'tpp::future<T>::is_ready'

    def right(self, st, val, s):
        return eq(B(Not(eq(val, 0))), B(Not(eq(s, 0))))

    def ensures(self, st, kind, val):
        if self.no_state_error(st, kind, val):
            return
        self.oblige(st, kind == RET, 'no-exception', ('P05',), 'an exception leaves the call')
        if kind == RET:
            self.oblige(st, self.right(st, val, self.status(st, st.ghost['target'])), 'reports-the-status', ('P05', 'P07'), 'the answer is not what the state says')
        self.oblige(st, self.untouched(st), 'no-effect', ('P05',), 'an observer changes the state')


class HasError(IsReady):
    top = 'tpp::detail::basic_future::has_error'
    name = 'tpp::future<T>::has_error'

    def right(self, st, val, s):
        return eq(B(Not(eq(val, 0))), B(eq(s, 2)))


class FutureWait(FutureMethod):
    top = 'tpp::detail::basic_future::wait'
    sig = r'<itcv::U>::'
    name = 'tpp::future<T>::wait'

    def ensures(self, st, kind, val):
        if self.no_state_error(st, kind, val):
            return
        self.oblige(st, kind == RET, 'no-exception', ('P07',), 'an exception leaves the wait')
        self.oblige(st, Or(self.has_result(st), self.exit_or_gone(st)), 'wait-ends-with-result', ('P07',),
                    'the wait ends although there is no result and the thread was not asked to exit')
        self.oblige(st, self.untouched(st), 'no-effect', ('P05',), 'an observer changes the state')

    def loop_end(self, st, head, fn, header, M):
        self.serving_loop(st, head, M, ('P07',))

    def ev_cv_skipped(self, st, c, lk):
        self.serve(st)

    def ev_cv_wait(self, st, c, lk, deadline):
        self.serve(st)
        self.oblige(st, c.obj == st.ghost.get('target') and lk.oid == st.ghost.get('target'), 'waits-for-this-state', ('P07',), 'waits for something else')


class FutureWaitVoid(FutureWait):
    sig = r'<void>::'
    name = 'tpp::future<void>::wait'
    T = 'void'


class FutureWaitFor(FutureWait):
    """0 ready, 1 timeout, 2 deferred"""
    top = 'tpp::detail::basic_future::wait_for'
    sig = r'ratio<1l, 1000000l>.*basic_future<itcv::U>|basic_future<itcv::U>.*ratio<1l, 1000000l>'
    name = 'tpp::future<T>::wait_for'
    unit = 1000

    def params(self, st):
        self.t0 = self.sp.clock(st)
        p = self.local_obj(st, None, 'timeout_duration', 8)
        d = self.eng.load_at(st, p.obj, 0, 8)
        lim = (1 << 60) // self.unit
        st.assume(z3.And(d < lim, d > -lim))
        self.deadline = self.t0 + d * self.unit
        return [self.p, p]

    def timed_out(self, st):
        return st.ghost['clock'] >= self.deadline

    def ensures(self, st, kind, val):
        if self.no_state_error(st, kind, val):
            return
        self.oblige(st, kind == RET, 'no-exception', ('P07',), 'an exception leaves the wait')
        if kind != RET:
            return
        self.oblige(st, Implies(eq(val, 0), self.has_result(st)), 'ready-only-with-result', ('P07',), 'answers ready without a result')
        self.oblige(st, Implies(eq(val, 1), And(self.timed_out(st), Not(self.has_result(st)))), 'timeout-only-in-time', ('P07',),
                    'answers timeout too early or although the result is there')
        self.oblige(st, Implies(eq(val, 2), self.exit_or_gone(st)), 'deferred-only-on-exit', ('P07',), 'gives up although not asked to exit')
        self.oblige(st, ule(val, 2), 'known-answer', ('P07',), 'answers something else')
        self.oblige(st, self.untouched(st), 'no-effect', ('P05',), 'an observer changes the state')


class FutureWaitForVoid(FutureWaitFor):
    sig = r'ratio<1l, 1000000l>.*basic_future<void>|basic_future<void>.*ratio<1l, 1000000l>'
    name = 'tpp::future<void>::wait_for'
    T = 'void'


class FutureWaitUntil(FutureWaitFor):
    top = 'tpp::detail::basic_future::wait_until'
    sig = r'<itcv::U>::'
    name = 'tpp::future<T>::wait_until'
    unit = 1

    def params(self, st):
        a = super().params(st)
        self.deadline = self.eng.load_at(st, a[1].obj, 0, 8)
        return a


class FutureGet(FutureWait):
    """the stored outcome, exactly"""
    top = 'tpp::future::get'
    sig = r'<itcv::U>::'
    name = 'tpp::future<T>::get'
    keeps = False
    value_throws = True

    def params(self, st):
        self.out = self.out_obj(st, 8, 'result')
        return [self.out, self.p]

    def ev_state_released(self, st, lk, v0, v, why):
        super().ev_state_released(st, lk, v0, v, why)
        if isinstance(v.val, Ptr) or z3.is_expr(v.val):
            q = v.val if isinstance(v.val, Ptr) else self.eng.resolve(st, v.val)
            st.ghost['stored'] = (q, self.eng.load_at(st, q.obj, q.off, 8))

    def returned(self, st, val):
        s = st.ghost.get('stored')
        return False if s is None else eq(self.eng.load_at(st, self.out.obj, 0, 8), s[1])

    def ensures(self, st, kind, val):
        if self.no_state_error(st, kind, val):
            return
        tgt = st.ghost['target']
        last = st.ghost.get(('last', tgt))
        eng = self.eng
        self.oblige(st, st.ghost['made'] == (), 'no-effect', ('P05',), 'get changes the shared state')
        if self.keeps:
            self.oblige(st, eng.ptr_eq(st, self.state_ptr(st, self.p), self.s0), 'shared-future-stays-valid', ('P07',), 'a shared future loses its state')
        else:
            self.oblige(st, eng.isnull(st, self.state_ptr(st, self.p)), 'future-invalid-after-get', ('P07',), 'the future still has a state after get')
        if last is None:
            self.oblige(st, False, 'result-looked-up', ('P07',), 'get ends without having looked at the result')
            return
        if kind == RET:
            self.oblige(st, eq(last.status, 1), 'returns-only-with-value', ('P07',), 'get returns although no value is stored')
            self.oblige(st, self.returned(st, val), 'returns-the-stored-value', ('P07',), 'get returns something else than the stored value')
            return
        code = self.error_code(st, val)
        if code is not None and not same(val.ptr, last.exc):
            self.oblige(st, And(eq(code, BROKEN), eq(last.status, 0), self.exit_or_gone(st)), 'broken-promise-only-without-result', ('P07',),
                        'get throws its own error although there is a result (or the thread was not asked to exit)')
        elif self.user_exc(st, val):
            self.oblige(st, eq(last.status, 1), 'value-could-not-be-moved', ('P07',), 'an unexpected exception leaves get')
        else:
            self.oblige(st, And(eq(last.status, 2), eng.ptr_eq(st, val.ptr, last.exc)), 'throws-the-stored-exception', ('P07',),
                        'get throws something else than the stored exception')


class FutureGetVoid(FutureGet):
    sig = r'<void>::'
    name = 'tpp::future<void>::get'
    T = 'void'

    def params(self, st):
        return [self.p]

    def returned(self, st, val):
        return True


class SharedGet(FutureGet):
    kind = 'shared_future'
    top = 'tpp::shared_future::get'
    sig = r'<itcv::U>::'
    name = 'tpp::shared_future<T>::get'
    keeps = True

    def params(self, st):
        return [self.p]

    def returned(self, st, val):
        s = st.ghost.get('stored')
        if s is None:
            return False
        q = val if isinstance(val, Ptr) else self.eng.resolve(st, val)
        return And(q.obj == s[0].obj and q.off == s[0].off, eq(self.eng.load_at(st, q.obj, q.off, 8), s[1]))


class SharedGetVoid(SharedGet):
    sig = r'<void>::'
    name = 'tpp::shared_future<void>::get'
    T = 'void'

    def returned(self, st, val):
        return True


class Share(FutureMethod):
    top = 'tpp::future::share'
    sig = r'<itcv::U>::'
    name = 'tpp::future<T>::share'

    def params(self, st):
        self.out = self.out_obj(st, 16, 'shared future')
        return [self.out, self.p]

    def ensures(self, st, kind, val):
        eng = self.eng
        self.oblige(st, kind == RET, 'no-exception', ('P07',), 'an exception leaves share')
        self.oblige(st, eng.ptr_eq(st, self.state_ptr(st, self.out), 0 if st.ghost['no_state'] else self.s0), 'state-handed-over', ('P07',),
                    'the shared future does not refer to the state of the future')
        self.oblige(st, eng.isnull(st, self.state_ptr(st, self.p)), 'future-invalid-after-share', ('P07',), 'the future keeps its state')
        self.oblige(st, self.untouched(st), 'no-effect', ('P05',), 'share changes the shared state')


class ShareVoid(Share):
    sig = r'<void>::'
    name = 'tpp::future<void>::share'
    T = 'void'


class MakeReady(Fut):
    top = 'tpp::make_ready_future'
    sig = r'make_ready_future<itcv::U>'
    name = 'tpp::make_ready_future<T>'
    value_throws = True

    def setup(self, st):
        st.ghost.update(made=(), pos=0, attached=())
        self.out = self.out_obj(st, 16, 'future')
        a = self.params(st)
        return [(s, a) for s in self.tls_setup(st)]

    def params(self, st):
        self.u = self.local_obj(st, 'itcv::U', 'value')
        self.v0 = self.eng.load_at(st, self.u.obj, 0, 8)
        return [self.out, self.u]

    def right(self, st, v):
        return And(eq(v.status, 1), isinstance(v.val, Ptr) and eq(self.eng.load_at(st, v.val.obj, v.val.off, 8), self.v0))

    def ensures(self, st, kind, val):
        if kind != RET:
            self.oblige(st, self.user_exc(st, val), 'no-exception', ('P07',), 'an exception leaves the call')
            return
        p = self.state_ptr(st, self.out)
        self.oblige(st, isinstance(p, Ptr), 'future-has-a-state', ('P07',), 'the future has no state')
        if isinstance(p, Ptr):
            self.oblige(st, self.right(st, self.view(st, p.obj)), 'ready-with-the-given-result', ('P07',), 'the future does not hold the given result')


class MakeReadyVoid(MakeReady):
    sig = r'make_ready_future\(\)'
    name = 'tpp::make_ready_future<void>'
    T = 'void'

    def params(self, st):
        return [self.out]

    def right(self, st, v):
        return eq(v.status, 1)


class MakeExceptional(MakeReady):
    top = 'tpp::make_exceptional_future'
    sig = r'<itcv::U>\('
    name = 'tpp::make_exceptional_future<T>'

    def params(self, st):
        self.e = self.local_obj(st, None, 'exception_ptr', 8)
        self.e0 = self.eng.load_at(st, self.e.obj, 0, 8)
        st.assume(self.e0 != 0)
        return [self.out, self.e]

    def right(self, st, v):
        return And(eq(v.status, 2), self.eng.ptr_eq(st, v.exc, self.e0))


class MakeExceptionalFrom(MakeExceptional):
    """from an exception object: the future holds a copy of it"""
    sig = r'<itcv::U, itcv::X>'
    name = 'tpp::make_exceptional_future<T>(E)'

    def params(self, st):
        self.e = self.local_obj(st, 'itcv::X', 'ex')
        self.e0 = self.eng.load_at(st, self.e.obj, 0, 8)
        return [self.out, self.e]

    def right(self, st, v):
        if not isinstance(v.exc, Ptr):
            return False
        return And(eq(v.status, 2), eq(self.eng.load_at(st, v.exc.obj, v.exc.off, 8), self.e0))


class MakeExceptionalVoid(MakeExceptional):
    sig = r'<void>\('
    name = 'tpp::make_exceptional_future<void>'
    T = 'void'


CONTRACTS = [SetValue, SetValueCopy, SetValueVoid, SetException, SetExceptionVoid, Abandon, AbandonVoid, PromiseNew, PromiseNewVoid, PromiseDtor,
             PromiseDtorVoid, PromiseAssign, PromiseAssignVoid, PromiseSelfAssign, PromiseMove, GetFuture, GetFutureVoid,
             Valid, IsReady, HasError, FutureWait, FutureWaitVoid, FutureWaitFor, FutureWaitForVoid, FutureWaitUntil, FutureGet, FutureGetVoid, SharedGet, SharedGetVoid, Share, ShareVoid,
             MakeReady, MakeReadyVoid, MakeExceptional, MakeExceptionalVoid, MakeExceptionalFrom]
