"""Contracts of async, then, invoke and dispatch: what is run, where, how often and what becomes of its outcome.

A function that queues a task or attaches a continuation is checked beyond its return: the stored function object is run
(and, separately, dropped) from the state it was left in, on an arbitrary thread.
"""
import re

import z3

from ..engine import Ptr, FPtr, Exc, And, Or, Not, Implies, B, bv, eq, ult, ule, add, sub, same, Unsupported
from .futures import Fut, FutureMethod, BROKEN

RET = 'ret'
RETURNING = ('F', 'C', 'CS')


class Call:
    """one call of the user's callable"""

    def __init__(self, cls, f, arg, me, ready, res):
        self.cls, self.f, self.arg, self.me, self.ready, self.res = cls, f, arg, me, ready, res


class Task(Fut):
    props = ('P04', 'P06', 'P08', 'P09', 'P10', 'P20')
    safe = ('P09', 'P10')
    uses = Fut.uses + ('invoke_packaged_task', 'register_this', 'set_value', 'set_exception', 'wait', 'register_this_thread',
                       'unregister_this_thread')
    fn_cls = 'F'
    lvalue = False
    guarded = True          # exceptions of the callable end up in a future
    T = 'itcv::U'

    def external(self, st, name, base, args, fty):
        m = re.match(r'itcv::(\w+)::operator\(\)$', base)
        if m:
            return self.run_user(st, m.group(1), args)
        return super().external(st, name, base, args, fty)

    def run_user(self, st, cls, args):
        eng = self.eng
        args = list(args)
        ret = args.pop(0) if cls in RETURNING else None
        out = []
        for s, f in eng.deref(st, args[0]):
            for s2, a in eng.deref(s, args[1]):
                self.sp.user_event(s2, 'the callable passed in')
                self.oblige(s2, len(s2.ghost['calls']) == 0, 'called-only-once', ('P09', 'P06', 'P10'), 'the callable is called a second time')
                fv = eng.load_at(s2, f.obj, f.off, 8)
                av = eng.load_at(s2, a.obj, a.off, 8)
                ready = self.target_ready(s2)
                me = self.sp.me(s2)
                bad = s2.fork()
                r = self.throw(bad)
                bad.ghost['calls'] += (Call(cls, fv, av, me, ready, ('throw', r[2])),)
                out.append(r)
                res = None
                if ret is not None:
                    res = eng.fresh('result')
                    for s3, q in eng.deref(s2, ret):
                        eng.store_at(s3, q.obj, q.off, 8, res)
                        s3.ghost['calls'] += (Call(cls, fv, av, me, ready, ('value', res)),)
                        out.append((s3, RET, None))
                else:
                    s2.ghost['calls'] += (Call(cls, fv, av, me, ready, ('value', None)),)
                    out.append((s2, RET, None))
        return out

    def target_ready(self, st):
        t = st.ghost.get('target')
        return True if t is None else Not(eq(self.status(st, t), 0))

    # --- events
    def ev_launched(self, st, ident, w, ok):
        self.oblige(st, not st.ghost['launched'], 'queued-only-once', ('P09', 'P06', 'P10'), 'the task is queued a second time')
        st.ghost['launched'] += ((ident, tuple(w), ok, self.target_ready(st)),)

    def ev_completed(self, st, lk):
        st.ghost['made'] += (lk.oid,)

    def ev_thread_start(self, st, p, h):
        st.ghost['threads'] += ((p, h),)

    def ev_registered_other(self, st, h, i):
        st.ghost['ids'] += ((h, i),)

    def exclusive(self, st, lk):
        return lk.oid == st.ghost.get('result')

    def atomic_stable(self, st, rec, fld, q):
        return fld == 'status' and q.obj == st.ghost.get('result')

    def user_call(self, st, w, fv, name, args, rty):
        if 'config' in name or st.ghost.get('conts') is not None:
            return super().user_call(st, w, fv, name, args, rty)
        raise Unsupported('unknown function object is called')

    def fresh_run(self, st):
        st.ghost.update(calls=(), launched=(), threads=(), ids=(), made=(), pos=0, attached=(), conts=None)

    # --- the pre-state
    def callable_args(self, st):
        self.f = self.local_obj(st, 'itcv::' + self.fn_cls, 'f')
        self.f0 = self.eng.load_at(st, self.f.obj, 0, 8)
        return self.f

    def value_arg(self, st):
        self.u = self.local_obj(st, 'itcv::U', 'u')
        self.u0 = self.eng.load_at(st, self.u.obj, 0, 8)
        return self.u

    # --- later
    def other_thread(self, st):
        """the states in which some thread runs what was stored"""
        st.ghost = dict(st.ghost)
        for k in ('self_id', 'self_ctx', 'native_self'):
            st.ghost.pop(k, None)
        self.sp.switch_thread(st, self.eng.fresh('other_thread'))
        return self.tls_setup(st)

    def stored(self, st, w):
        o = self.eng.new_obj(st, 'heap', 32, name='stored task')
        for i in range(4):
            self.eng.store_at(st, o.id, 8 * i, 8, w[i])
        o = st.w(o.id)
        o.fresh = True
        return Ptr(o.id, 0)

    def run_stored(self, st, p):
        """call the function object at p"""
        fv = self.eng.load_at(st, p.obj, 24, 8)
        if not isinstance(fv, FPtr):
            raise Unsupported('stored function is unknown')
        return self.eng.call_value(st, fv, [p], ('void',))

    def drop_stored(self, st, p):
        """destroy the function object at p"""
        fv = self.eng.load_at(st, p.obj, 16, 8)
        if not isinstance(fv, FPtr):
            raise Unsupported('stored function is unknown')
        return self.eng.call_value(st, fv, [p, p, 3], ('int', 1))

    def after_queued(self, st, w):
        """the queued task runs later, or is dropped"""
        for s in self.other_thread(st.fork()):
            me = self.sp.me(s)
            self.fresh_run(s)
            p = self.stored(s, w)
            for s2, kind, val in self.run_stored(s, p):
                self.all_started(s2)
                self.check_call(s2)
                if self.guarded:
                    self.oblige(s2, kind == RET, 'exception-stays-in-the-future', ('P09',), 'an exception of the callable escapes into the thread that runs the task')
                if kind == RET:
                    for s3, k, v in self.drop_stored(s2, p):
                        self.oblige(s3, k == RET, 'no-exception', ('P09',), 'destroying the task throws')
                        self.check_result(s3)
        for s in self.other_thread(st.fork()):
            self.fresh_run(s)
            for s2, k, v in self.drop_stored(s, self.stored(s, w)):
                self.oblige(s2, k == RET, 'no-exception', ('P09',), 'destroying the task throws')
                self.all_started(s2)
                self.oblige(s2, not s2.ghost['calls'], 'dropped-task-not-run', ('P08', 'P09'), 'destroying a task runs it')
                self.check_broken(s2)

    # --- what must hold of a call
    def args_right(self, st, c):
        return eq(c.arg, self.u0)

    def check_call(self, st):
        calls = st.ghost['calls']
        self.oblige(st, len(calls) == 1, 'callable-is-called', ('P09', 'P06', 'P10') if self.guarded else ('P01', 'P10'), 'the callable is not called')
        for c in calls:
            self.oblige(st, And(c.cls == self.fn_cls, eq(c.f, self.f0)), 'calls-the-given-callable', ('P09',) if self.guarded else ('P01', 'P10'), 'something else than the given callable is called')
            self.oblige(st, self.args_right(st, c), 'called-with-the-given-arguments', ('P09',) if self.guarded else ('P01', 'P10'),
                        'the callable gets other arguments')

    def result_state(self, st):
        p = self.state_ptr(st, self.out)
        return p if isinstance(p, Ptr) else None

    def check_result(self, st):
        """what the callable returned or threw is the result of the future"""
        if not self.guarded or not st.ghost['calls']:
            return
        c = st.ghost['calls'][-1]
        p = self.result_state(st)
        self.oblige(st, p is not None, 'future-has-a-state', ('P09',), 'the returned future has no state')
        if p is None:
            return
        v = self.view(st, p.obj)
        if c.res[0] == 'throw':
            self.oblige(st, And(eq(v.status, 2), self.eng.ptr_eq(st, v.exc, c.res[1].ptr)), 'exception-becomes-the-result', ('P09',),
                        'the future does not hold the exception thrown by the callable')
        else:
            val = True if c.res[1] is None else (isinstance(v.val, Ptr) and eq(self.eng.load_at(st, v.val.obj, v.val.off, 8), c.res[1]))
            self.oblige(st, And(eq(v.status, 1), val), 'returned-value-becomes-the-result', ('P09',), 'the future does not hold what the callable returned')

    def check_broken(self, st):
        if not self.guarded:
            return
        p = self.result_state(st)
        if p is None:
            return
        v = self.view(st, p.obj)
        code = self.error_code(st, st.excs.get(v.exc.obj)) if isinstance(v.exc, Ptr) else None
        self.oblige(st, And(eq(v.status, 2), False if code is None else eq(code, BROKEN)), 'dropped-task-breaks-its-future', ('P08',),
                    'the future of a task that was dropped without running is not ready with broken_promise')

    def placed(self, st, ident, policy):
        """run at once or queued on the requested thread, as the policy says"""
        own = self.sp.me(st)
        eff = z3.If(B(eq(ident, 0)), bv(own), bv(ident))
        direct = And(Not(eq(policy, 1)), eq(eff, own))
        calls, launched = st.ghost['calls'], st.ghost['launched']
        self.oblige(st, Implies(direct, bool(len(calls) == 1 and not launched)), 'runs-at-once', ('P10',), 'the callable is not run at once although it is to run on this thread')
        self.oblige(st, Implies(Not(direct), bool(not calls and len(launched) == 1)), 'is-queued', ('P10',), 'the callable is run at once (or not queued) although it is to be queued')
        for i, w, ok, ready in launched:
            self.oblige(st, eq(i, eff), 'queued-on-the-requested-thread', ('P10',), 'the task is queued on another thread')
        for c in calls:
            self.oblige(st, eq(c.me, own), 'runs-on-this-thread', ('P10',), 'the callable runs as another thread')

    def settle(self, st):
        """outcome once the call is over: at once, later, or never"""
        if st.ghost['calls']:
            self.check_call(st)
            self.check_result(st)
        for i, w, ok, ready in st.ghost['launched']:
            if ok:
                self.after_queued(st, w)
            else:
                self.check_broken(st)

    def keeps_arguments(self, st):
        if self.lvalue:
            self.oblige(st, And(eq(self.eng.load_at(st, self.f.obj, 0, 8), self.f0), eq(self.eng.load_at(st, self.u.obj, 0, 8), self.u0)), 'lvalues-are-copied', ('P09',),
                        'an lvalue argument is changed')

    def own_thread(self, st):
        """the overloads without an id: one new thread, known under the id that is used; returns the id"""
        th, ids = st.ghost['threads'], st.ghost['ids']
        self.oblige(st, len(th) == 1 and len(ids) == 1 and same(ids[0][0], th[0][1]), 'one-fresh-thread', ('P10',), 'not exactly one thread is started and registered')
        if len(ids) != 1 or len(th) != 1:
            return None
        self.thread_body(st, *th[0])
        return ids[0][1]

    def thread_body(self, st, p, h):
        """what the new thread does: register, wait (which runs its task), unregister"""
        eng = self.eng
        s = st.fork()
        s.ghost = dict(s.ghost)
        for k in ('self_id', 'self_ctx', 'native_self'):
            s.ghost.pop(k, None)
        s.ghost['native_self'] = h
        s.ghost['steps'] = ()
        self.sp.switch_thread(s, 0)
        vt = eng.load_at(s, p.obj, p.off, 8)
        fv = eng.load_at(s, vt.obj, vt.off + 16, 8)
        for s2, kind, val in eng.call_value(s, fv, [p], ('void',)):
            steps = s2.ghost['steps']
            self.oblige(s2, kind == RET, 'no-exception', ('P10',), 'an exception ends the new thread')
            self.oblige(s2, 'wait' in steps, 'fresh-thread-serves-its-queue', ('P10',), 'the new thread ends without waiting for its task while registered')
            self.oblige(s2, steps[:1] == ('register',) and steps[-1:] == ('unregister',) and eng.must(s2, eng.isnull(s2, self.sp.tls(s2))),
                        'fresh-thread-ends-unregistered', ('P10',), 'the new thread does not register or stays registered when it ends')
            self.oblige(s2, steps.count('wait') <= 1, 'fresh-thread-ends-after-its-task', ('P10',), 'the new thread goes on waiting after its task')

    def ev_registered(self, st):
        if 'steps' in st.ghost:
            st.ghost['steps'] += ('register',)

    def ev_unregistered(self, st):
        if 'steps' in st.ghost:
            st.ghost['steps'] += ('unregister',)

    def ev_waited(self, st):
        if 'steps' in st.ghost:
            st.ghost['steps'] += ('wait',)

    def no_thread(self, st):
        self.oblige(st, not st.ghost['threads'], 'no-extra-thread', ('P10',), 'a thread is started although an id was given')


class Async(Task):
    top = 'tpp::async'
    sig = r'async<itcv::F, itcv::U>\(unsigned long, std::launch'
    name = 'tpp::async(id, policy, f, args)'
    with_id = True
    with_policy = True

    def setup(self, st):
        self.fresh_run(st)
        self.out = self.out_obj(st, 16, 'future')
        a = [self.out]
        self.tid = self.eng.fresh('id')
        self.policy = self.eng.fresh('policy', 32) if self.with_policy else 3
        if self.with_id:
            a.append(self.tid)
        if self.with_policy:
            a.append(self.policy)
        a += [self.callable_args(st), self.value_arg(st)]
        return [(s, a) for s in self.tls_setup(st)]

    def ensures(self, st, kind, val):
        self.oblige(st, kind == RET, 'no-exception', ('P09',), 'an exception leaves the call')
        if kind != RET:
            return
        p = self.result_state(st)
        self.oblige(st, p is not None, 'future-has-a-state', ('P09',), 'the returned future has no state')
        if p is None:
            return
        st.ghost['result'] = p.obj
        ident = self.tid
        if self.with_id:
            self.no_thread(st)
        else:
            ident = self.own_thread(st)
        if ident is not None:
            self.placed(st, ident, self.policy)
        self.keeps_arguments(st)
        self.settle(st)


class AsyncLvalues(Async):
    sig = r'async<itcv::F&, itcv::U&>\(unsigned long, std::launch'
    name = 'tpp::async(id, policy, f, args) with lvalues'
    lvalue = True


class AsyncVoid(Async):
    sig = r'async<itcv::G, itcv::U>\(unsigned long, std::launch'
    name = 'tpp::async(id, policy, f, args) without result'
    fn_cls = 'G'


class AsyncId(Async):
    sig = r'async<itcv::F, itcv::U>\(unsigned long, itcv::F'
    name = 'tpp::async(id, f, args)'
    with_policy = False


class AsyncPolicy(Async):
    sig = r'async<itcv::F, itcv::U>\(std::launch'
    name = 'tpp::async(policy, f, args)'
    with_id = False


class AsyncPlain(Async):
    sig = r'async<itcv::F, itcv::U>\(itcv::F'
    name = 'tpp::async(f, args)'
    with_id = False
    with_policy = False


class Invoke(Task):
    top = 'tpp::invoke'
    sig = r'invoke<itcv::G, itcv::U>'
    name = 'tpp::invoke(id, f, args)'
    props = ('P01', 'P04', 'P10', 'P20')
    safe = ('P01', 'P10')
    fn_cls = 'G'
    guarded = False

    def setup(self, st):
        self.fresh_run(st)
        self.tid = self.eng.fresh('id')
        a = [self.tid, self.callable_args(st), self.value_arg(st)]
        return [(s, a) for s in self.tls_setup(st)]

    def ensures(self, st, kind, val):
        self.oblige(st, kind == RET, 'no-exception', ('P01', 'P10'), 'an exception leaves the call')
        if kind != RET:
            return
        self.no_thread(st)
        self.keeps_arguments(st)
        self.handed_over(st, val)

    def handed_over(self, st, val):
        calls, launched = st.ghost['calls'], st.ghost['launched']
        self.oblige(st, not calls, 'not-run-at-once', ('P01', 'P10'), 'the callable is run at once')
        self.oblige(st, len(launched) == 1, 'is-queued', ('P01', 'P10'), 'the callable is not queued')
        for i, w, ok, ready in launched:
            self.oblige(st, eq(i, self.tid), 'queued-on-the-requested-thread', ('P01', 'P10'), 'the task is queued on another thread')
            self.oblige(st, eq(val, 1 if ok else 0), 'reports-acceptance', ('P01', 'P10'), 'the answer does not tell whether the task was accepted')
            if ok:
                self.after_queued(st, w)


class InvokeLvalues(Invoke):
    sig = r'invoke<itcv::G&, itcv::U&>'
    name = 'tpp::invoke(id, f, args) with lvalues'
    lvalue = True


class Dispatch(Invoke):
    top = 'tpp::dispatch'
    sig = r'dispatch<itcv::G, itcv::U>'
    name = 'tpp::dispatch(id, f, args)'

    def ensures(self, st, kind, val):
        self.no_thread(st)
        own = eq(self.tid, self.sp.me(st))
        calls, launched = st.ghost['calls'], st.ghost['launched']
        self.oblige(st, Implies(own, bool(len(calls) == 1 and not launched)), 'runs-at-once', ('P10',), 'a task for the calling thread is not run at once')
        self.oblige(st, Implies(Not(own), bool(not calls and len(launched) == 1)), 'is-queued', ('P10', 'P01'), 'a task for another thread is not queued')
        if kind != RET:
            self.oblige(st, self.user_exc(st, val) and len(calls) == 1, 'no-exception', ('P10',), 'an exception leaves the call')
        if calls:
            self.check_call(st)
            if kind == RET:
                self.oblige(st, Not(eq(val, 0)), 'reports-acceptance', ('P10',), 'a task that was run is reported as refused')
        elif kind == RET:
            self.handed_over(st, val)


class Then(Task):
    top = 'tpp::future::then'
    sig = r'future<itcv::U>::then<itcv::C>\(unsigned long, std::launch'
    name = 'tpp::future<T>::then(id, policy, f)'
    fn_cls = 'C'
    kind = 'future'
    with_id = True
    with_policy = True
    safe = ('P06', 'P09', 'P10')

    setup = Fut.begin

    def args(self, st):
        self.fresh_run(st)
        self.p = self.subject = self.holder(st, self.kind, 'future')
        self.s0 = self.state_ptr(st, self.p)
        self.out = self.out_obj(st, 16, 'future')
        a = [self.out, self.p]
        self.tid = self.eng.fresh('id')
        self.policy = self.eng.fresh('policy', 32) if self.with_policy else 3
        if self.with_id:
            a.append(self.tid)
        if self.with_policy:
            a.append(self.policy)
        return a + [self.callable_args(st)]

    def args_right(self, st, c):
        return And(self.eng.ptr_eq(st, c.arg, self.s0), c.ready)

    def started(self, st):
        return len(st.ghost['calls']) + len(st.ghost['launched'])

    def ensures(self, st, kind, val):
        eng = self.eng
        if st.ghost['no_state']:
            code = self.error_code(st, val) if kind != RET else None
            self.oblige(st, code is not None and eq(code, 3), 'no-state-reported', ('P06',), 'attaching to a future without shared state does not throw no_state')
            self.oblige(st, not self.started(st), 'nothing-started', ('P06',), 'a continuation is started although there is no future to wait for')
            return
        self.oblige(st, kind == RET, 'no-exception', ('P06', 'P09'), 'an exception leaves the call')
        if kind != RET:
            return
        tgt = st.ghost['target']
        p = self.result_state(st)
        self.oblige(st, p is not None and p.obj != tgt, 'future-has-a-state', ('P09',), 'the returned future has no state of its own')
        if p is None:
            return
        st.ghost['result'] = p.obj
        if self.kind == 'future':
            self.oblige(st, eng.isnull(st, self.state_ptr(st, self.p)), 'unique-future-is-invalidated', ('P06',), 'the future stays valid')
        else:
            self.oblige(st, eng.ptr_eq(st, self.state_ptr(st, self.p), self.s0), 'shared-future-stays-valid', ('P06',), 'the shared future loses its state')
        self.oblige(st, tgt not in st.ghost['made'], 'then-leaves-the-result-alone', ('P06', 'P05'), 'attaching a continuation completes the future')
        ident = self.tid
        if self.with_id:
            self.no_thread(st)
        else:
            ident = self.own_thread(st)
            if ident is None:
                return
        att = [a for a in st.ghost['attached'] if a[0] == tgt]
        self.oblige(st, len(st.ghost['attached']) == len(att), 'attached-to-its-own-future', ('P06',), 'the continuation is attached to another state')
        self.oblige(st, len(att) + self.started(st) == 1, 'attached-or-started-once', ('P06',), 'the continuation is not either attached or started, exactly once')
        for i, w, ok, ready in st.ghost['launched']:
            self.oblige(st, ready, 'started-only-when-ready', ('P06', 'P09'), 'the continuation is started before the result is there')
        for c in st.ghost['calls']:
            self.oblige(st, c.ready, 'started-only-when-ready', ('P06', 'P09'), 'the continuation is started before the result is there')
        if not att:
            if self.started(st) == 1:
                self.placed(st, ident, self.policy)
                self.settle(st)
            return
        self.after_attached(st, att[0][1], ident)

    def after_attached(self, st, w, ident):
        """the result arrives later, on some thread; or the continuation is dropped with the state"""
        tgt = st.ghost['target']
        eng = self.eng
        for s in self.other_thread(st.fork()):
            self.fresh_run(s)
            r = eng.fresh('result_kind', 32)
            s.assume(z3.And(r >= 1, r <= 2))
            lk = self.lock_of(s, tgt)
            eng.store_at(s, tgt, lk.base + self.sp.field(lk.recid, 'status')[0], 4, r)
            p = self.stored(s, w)
            for s2, kind, val in self.run_stored(s, p):
                self.all_started(s2)
                self.oblige(s2, kind == RET, 'exception-stays-in-the-future', ('P09',), 'starting a continuation throws into the thread that sets the result')
                self.oblige(s2, self.started(s2) == 1, 'continuation-starts-its-callable', ('P06',), 'the continuation does not start the callable exactly once')
                if kind != RET or self.started(s2) != 1:
                    continue
                self.placed(s2, ident, self.policy)
                for s3, k, v in self.drop_stored(s2, p):
                    self.oblige(s3, k == RET, 'no-exception', ('P09',), 'destroying the continuation throws')
                    self.all_started(s3)
                    self.settle(s3)
        for s in self.other_thread(st.fork()):
            self.fresh_run(s)
            for s2, k, v in self.drop_stored(s, self.stored(s, w)):
                self.oblige(s2, k == RET, 'no-exception', ('P09',), 'destroying the continuation throws')
                self.all_started(s2)
                self.oblige(s2, not self.started(s2), 'dropped-task-not-run', ('P08', 'P09'), 'destroying a continuation runs it')
                self.check_broken(s2)


def then(cls, kind, T, fn, name):
    """contracts of the four overloads of then of one class"""
    out = []
    t = {'itcv::U': 'T', 'void': 'void'}[T]
    for suffix, sig, wid, wpol in (('IdPolicy', r'unsigned long, std::launch', True, True), ('Id', r'unsigned long, itcv::', True, False),
                                   ('Policy', r'std::launch', False, True), ('Plain', r'itcv::', False, False)):
        out.append(type(name + suffix, (Then,), dict(
            top='tpp::%s::then' % kind, sig=r'%s<%s>::then<itcv::%s>\(%s' % (kind, T, fn, sig), kind=kind, T=T, fn_cls=fn, with_id=wid, with_policy=wpol,
            name='tpp::%s<%s>::then(%sf)' % (kind, t, ('id, ' if wid else '') + ('policy, ' if wpol else '')))))
    return out


class ThenNoResult(Then):
    sig = r'future<itcv::U>::then<itcv::CN>\(unsigned long, std::launch'
    name = 'tpp::future<T>::then(id, policy, f) without result'
    fn_cls = 'CN'


THEN = (then(Then, 'future', 'itcv::U', 'C', 'Then') + then(Then, 'future', 'void', 'CV', 'ThenVoid') +
        then(Then, 'shared_future', 'itcv::U', 'CS', 'SharedThen') + then(Then, 'shared_future', 'void', 'CSV', 'SharedThenVoid'))
for _c in THEN:
    globals()[_c.__name__] = _c

CONTRACTS = [Async, AsyncLvalues, AsyncVoid, AsyncId, AsyncPolicy, AsyncPlain, Invoke, InvokeLvalues, Dispatch, ThenNoResult] + THEN
