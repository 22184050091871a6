"""Contracts of verified functions as seen by their callers (modular verification).

Each entry states the effect that the function's own contract (contracts/*.py) proves from its body; the callers rely on
it instead of executing the body again.
"""
import re

import z3

from .engine import Ptr, And, Or, Not, Implies, B, bv, eq, ult, ule, add, sub, Unsupported

RET = 'ret'


def call(eng, st, what, user=False, blocks=False):
    """bookkeeping common to all summaries: lock order and user code"""
    sp = eng.spec
    sp.calls.add((tuple(k.name for k in st.locks), what))
    names = ', '.join(k.name for k in st.locks)
    if user:
        held = sp.internal(st)
        names = ', '.join(k.name for k in held)
        eng.oblige(st, not held, 'no-lock-in-user-code', ('P04',), detail='%s may run user code while %s is held' % (what, names))
    if blocks:
        held = sp.internal(st)
        names = ', '.join(k.name for k in held)
        eng.oblige(st, not held, 'no-lock-while-blocked', ('P04',), detail='%s blocks while %s is held' % (what, names))
        sp.before_block(st)


def unit_of(eng, name):
    """nanoseconds per tick of the duration parameter"""
    m = re.search(r'ratio<(\d+)l?, (\d+)l?>', eng.m.dem[name])
    if m is None:
        raise Unsupported('duration type of ' + eng.m.dem[name])
    return 10 ** 9 * int(m.group(1)) // int(m.group(2))


def wait(eng, st, name, args, fty):
    call(eng, st, 'tpp::this_thread::wait', True, True)
    eng.spec.ev(st, 'waited')
    return [(st, RET, None)]


def wait_for(eng, st, name, args, fty):
    call(eng, st, 'tpp::this_thread::wait_for', True, True)
    out = []
    unit = unit_of(eng, name)
    for s, d in eng.load(st, args[0], 8):
        t0 = s.ghost.get('clock')
        if t0 is None:
            t0 = eng.spec.clock(s)
        ns = bv(d) * unit if unit != 1 else bv(d)
        eng.spec.ev(s, 'slept', ns)
        now = eng.spec.clock(s)
        r = eng.fresh('status', 32)
        us = ns if unit % 1000 == 0 else ns - 999
        s.assume(z3.ULE(r, 1))
        s.assume(z3.Implies(r == 1, now >= t0 + us))
        s.assume(z3.Implies(bv(d) <= 0, r == 0))
        out.append((s, RET, r))
    return out


def notify_for_exit(eng, st, name, args, fty):
    call(eng, st, 'tpp::notify_for_exit')
    eng.spec.ev(st, 'notify_exit', args[0])
    return [(st, RET, None)]


def unregister_this_thread(eng, st, name, args, fty):
    call(eng, st, 'tpp::this_thread::unregister_this_thread', True)
    sp = eng.spec
    sp.set_tls(st, 0)
    if st.ghost.get('self_id') is not None:
        st.ghost['self_gone'] = True
    sp.ev(st, 'unregistered')
    return [(st, RET, None)]


def register_this_thread(eng, st, name, args, fty):
    """the thread is linked to a registered context of its own"""
    call(eng, st, 'tpp::this_thread::register_this_thread', True)
    sp = eng.spec
    ct = sp.contract
    out = []
    for s, nul in eng.split(st, eng.isnull(st, sp.tls(st))):
        if nul:
            t = eng.fresh('own_context')
            s.assume(t != 0)
            sp.switch_thread(s, t)
            out += ct.tls_setup(s)
        else:
            out.append(s)
    for s in out:
        sp.ev(s, 'registered')
    return [(s, RET, None) for s in out]


def list_threads(eng, st, name, args, fty):
    """get_all_registered_threads: entry j is the j-th registered id"""
    from . import stdlib as SL
    from .monitors import KEYAT
    from .engine import VecVal
    call(eng, st, 'tpp::get_all_registered_threads')
    out = []
    for s, q in eng.deref(st, args[0]):
        b = SL.new_buf(eng, s, 8, None, sym=True, name='ids')
        b = b if isinstance(b, int) else b.id
        n = eng.fresh('ids.size')
        s.assume(z3.ULT(n, 1 << 40))
        gen = z3.BitVecVal(b, 64)

        def view(t, bo, e, i):
            t.assume(B(eq(eng.load_at(t, e.id, 0, 8), KEYAT(gen, bv(i)))))
        s.w(b).meta['views'] = (view,)
        SL.vec_set(eng, s, q, VecVal(n, n, b))
        eng.spec.ev(s, 'listed', b, n)
        out.append((s, RET, None))
    return out


def notify(eng, st, name, args, fty):
    """tpp::notify: logs (user code) only when the calling thread is not registered or the id is the invalid one"""
    call(eng, st, 'tpp::notify', user=st.ghost.get('self_id') is None or not eng.must(st, Not(eq(args[0], 0))))
    eng.spec.ev(st, 'notify', args[0])
    return [(st, RET, None)]


def invoke_packaged_task(eng, st, name, args, fty):
    """either the task is taken over by the queue of the named thread or nothing happens; logs only for an empty task or an invalid id"""
    sp = eng.spec
    out = []
    for s, q in eng.deref(st, args[1]):
        w = [eng.load_at(s, q.obj, q.off + 8 * i, 8) for i in range(4)]
        bad = Or(eq(args[0], 0), eng.isnull(s, w[2]))
        call(eng, s, 'tpp::detail::invoke_packaged_task', user=not eng.must(s, Not(bad)))
        no = s.fork()
        sp.ev(no, 'launched', args[0], w, False)
        out.append((no, RET, 0))
        s.assume(B(Not(bad)))
        if not eng.alive(s):
            continue
        for i in (2, 3):
            eng.store_at(s, q.obj, q.off + 8 * i, 8, 0)
        for v in w:
            eng.publish(s, v)
        sp.ev(s, 'launched', args[0], w, True)
        out.append((s, RET, 1))
    return out


def register_this(eng, st, name, args, fty):
    """tpp::thread::register_this: the thread object learns the id of its (other) thread"""
    call(eng, st, 'tpp::thread::register_this')
    sp = eng.spec
    out = []
    for s, q in eng.deref(st, args[0]):
        i = eng.fresh('registered_id')
        s.assume(i != 0)
        h = eng.load_at(s, q.obj, q.off, 8)
        if s.ghost.get('self_id') is not None:
            s.assume(B(Or(eq(h, sp.native_self(s)), Not(eq(i, s.ghost['self_id'])))))
        eng.store_at(s, q.obj, q.off + 8, 8, i)
        sp.ev(s, 'registered_other', h, i)
        out.append((s, RET, None))
    return out


def complete(kind):
    """promise::set_value and set_exception: the first one fixes the result, the others throw and change nothing"""
    def f(eng, st, name, args, fty):
        from .monitors import BasicState, StateView
        from .stdlib import _throw_named
        sp = eng.spec
        ct = sp.contract
        mon = sp.monitors[BasicState.REC]
        what = 'tpp::promise::set_' + ('exception' if kind == 2 else 'value')
        out = []
        for s, q in eng.deref(st, args[0]):
            for s2, nul in eng.split(s, eng.isnull(s, eng.load_at(s, q.obj, q.off, 8))):
                if nul:
                    out += _throw_named(eng, s2, '_ZTISt12future_error', 3)
                    continue
                p = eng.load_at(s2, q.obj, q.off, 8)
                p = p if isinstance(p, Ptr) else eng.resolve(s2, p)
                lk = ct.lock_of(s2, p.obj)
                # nobody waits for and nothing is attached to a state that no other thread has seen
                call(eng, s2, what, user=not s2.mem[lk.oid].fresh)
                for s3 in [s2] if s2.mem[lk.oid].fresh else mon.acquire(s2, lk, 'lock'):
                    if not eng.must(s3, eq(StateView(mon, s3, lk).status, 0)):
                        out += _throw_named(eng, s3, '_ZTISt12future_error', 2)
                        continue
                    put = lambda fld, n, v: eng.store_at(s3, lk.oid, lk.base + sp.field(lk.recid, fld)[0], n, v)
                    voff = mon.value_at(s3, lk)
                    put('status', 4, kind)
                    if kind == 2:
                        for s4, e in eng.load(s3, args[1], 8):
                            put('exception', 8, e)
                    elif voff is not None:
                        if len(args) != 2 or 'itcv::U' not in eng.m.dem[name]:
                            raise Unsupported('result type of ' + eng.m.dem[name])
                        o = eng.new_obj(s3, 'heap', 8, name='result')
                        v = eng.deref(s3, args[1])[0][1]
                        eng.store_at(s3, o.id, 0, 8, eng.load_at(s3, v.obj, v.off, 8))
                        s3.w(o.id).fresh = False
                        eng.store_at(s3, lk.oid, voff, 8, Ptr(o.id, 0))
                        s3.ghost[('valpi', lk.oid)] = eng.fresh('value.pi')
                        eng.store_at(s3, lk.oid, voff + 8, 8, s3.ghost[('valpi', lk.oid)])
                    s3.ghost[('last', lk.oid)] = StateView(mon, s3, lk)
                    sp.ev(s3, 'completed', lk)
                    out.append((s3, RET, None))
        return out
    return f


def set_value_body(eng, st, name, args, fty):
    """promise::set_value with its real body, on a state that is looked at by this thread only; starts user code if the future was handed out"""
    call(eng, st, 'tpp::promise::set_value', user=bool(st.ghost.get('handed_out')))
    r = eng.spec.contract.value_given(st, name, args)
    return r if r is not None else eng.call(st, name, args, fty, top=True)


def closure_of(eng, name):
    """the type of the callable given to an instance of a function template (its last parameter): (record, given as rvalue, {member: function})"""
    memo = eng.__dict__.setdefault('_closures', {})
    if name in memo:
        return memo[name]
    di = eng.di

    def dbg(fn):
        m = re.search(r'!dbg (!\d+)', fn.header)
        return m.group(1) if m else None
    if 'members' not in memo:
        tab = {}
        for g, fn in eng.m.functions.items():
            i = None if fn.is_decl else dbg(fn)
            if i is None:
                continue
            d = di.get(i)
            dec = d.get('declaration')
            sc = (di.get(dec) if dec else d).get('scope')
            tab.setdefault(sc, []).append((d.get('name', ''), g))
        memo['members'] = tab
    i = dbg(eng.m.functions[name])
    r = None
    if i is not None:
        last = di.get(di.get(di.get(i)['type'])['types'])['_items'][-1]
        d = di.get(last)
        if d.get('tag') in ('DW_TAG_rvalue_reference_type', 'DW_TAG_reference_type'):
            c = di.strip(d['baseType'])
            fns = {}
            for nm, g in memo['members'].get(c, ()):
                if nm.startswith('operator()'):
                    fns.setdefault('call', []).append(g)
                elif nm.startswith('~'):
                    fns['destroy'] = g
                elif '&&)' in eng.m.dem[g]:
                    fns['move'] = g
                else:
                    fns['copy'] = g
            r = (c, d['tag'] == 'DW_TAG_rvalue_reference_type', fns)
    memo[name] = r
    return r


def then(eng, st, name, args, fty):
    """future::then with a closure of the library: the closure is taken over; it is called once with the future when that is ready, at once or later,
    by the named thread (or dropped with it)"""
    from .stdlib import _throw_named
    sp = eng.spec
    ct = sp.contract
    cl = closure_of(eng, name)
    if cl is None or 'call' not in cl[2] or len(cl[2]['call']) != 1 or len(args) not in (4, 5):
        raise Unsupported('continuation of ' + eng.m.dem[name][:200])
    rec, rv, fns = cl
    make = fns.get('move' if rv else 'copy') or fns.get('copy')
    if make is None or 'destroy' not in fns:
        raise Unsupported('continuation of ' + eng.m.dem[name][:200])
    call(eng, st, 'tpp::future::then', user=True)
    policy = args[3] if len(args) == 5 else 3
    shared = 'shared_future' in eng.m.bases[name]
    out = []
    for s, q in eng.deref(st, args[1]):
        for s1, nul in eng.split(s, eng.isnull(s, eng.load_at(s, q.obj, q.off, 8))):
            if nul:
                out += _throw_named(eng, s1, '_ZTISt12future_error', 3)
                continue
            w = [eng.load_at(s1, q.obj, q.off + k, 8) for k in (0, 8)]
            if not shared:
                for k in (0, 8):
                    eng.store_at(s1, q.obj, q.off + k, 8, 0)
            o = eng.new_obj(s1, 'heap', eng.di.size(rec), name='continuation', ty=rec)
            for s2, kind, val in eng.call(s1, make, [Ptr(o.id, 0), args[-1]]):
                if kind != RET:
                    raise Unsupported('copying a continuation throws')
                for s3, kind, val in ct.then_called(s2, args[2], policy, w, Ptr(o.id, 0), fns):
                    for k in (0, 8):
                        v = eng.fresh('continuation_future')
                        s3.assume(v != 0)
                        d = eng.deref(s3, args[0])[0][1]
                        eng.store_at(s3, d.obj, d.off + k, 8, v)
                    out.append((s3, RET, None))
    return out


def check_jobs(eng, st, name, args, fty):
    """a worker looks for a job and runs it"""
    call(eng, st, 'tpp::thread_pool::impl::check_jobs', user=True)
    eng.spec.ev(st, 'checked', args[0], args[1])
    return [(st, RET, None)]


def add_job(eng, st, name, args, fty):
    """thread_pool::add_job: the task is taken over as a pending job with a new id"""
    call(eng, st, 'tpp::thread_pool::add_job')
    out = []
    for s, q in eng.deref(st, args[1]):
        w = [eng.load_at(s, q.obj, q.off + 8 * i, 8) for i in range(4)]
        for i in (2, 3):
            eng.store_at(s, q.obj, q.off + 8 * i, 8, 0)
        for v in w:
            eng.publish(s, v)
        i = eng.fresh('job_id')
        s.assume(i != 0)
        eng.spec.ev(s, 'job_given', args[0], w, args[2:4], i)
        out.append((s, RET, i))
    return out


def pool_stop(eng, st, name, args, fty):
    call(eng, st, 'tpp::thread_pool::stop', user=True)
    eng.spec.ev(st, 'pool_stop', args[0], args[1])
    return [(st, RET, None)]


def pool_change_priority(eng, st, name, args, fty):
    call(eng, st, 'tpp::thread_pool::change_priority')
    eng.spec.ev(st, 'pool_change_priority', args[0], args[1], args[2:4])
    return [(st, RET, None)]


def impl_dtor(eng, st, name, args, fty):
    """the destructor of a pool stops the pending jobs and ends the workers"""
    call(eng, st, 'tpp::thread_pool::impl::~impl', user=True, blocks=True)
    eng.spec.ev(st, 'pool_destroyed', args[0])
    return [(st, RET, None)]


def make_thread(eng, st, name, args, fty):
    """a started and registered thread"""
    call(eng, st, 'tpp::make_thread', user=True)
    out = []
    for s, q in eng.deref(st, args[0]):
        for off in (0, 8):
            v = eng.fresh('thread' if off == 0 else 'thread.id')
            s.assume(v != 0)
            eng.store_at(s, q.obj, q.off + off, 8, v)
        if s.ghost.get('self_id') is not None:
            s.assume(B(Not(eq(v, s.ghost['self_id']))))
        eng.spec.ev(s, 'made_thread', eng.load_at(s, q.obj, q.off, 8), v)
        out.append((s, RET, None))
    return out


def future_wait(eng, st, name, args, fty):
    """basic_future::wait: returns when the state is ready or the calling thread was asked to exit"""
    from .stdlib import _throw_named
    call(eng, st, 'tpp::detail::basic_future::wait', user=True, blocks=True)
    out = []
    for s, q in eng.deref(st, args[0]):
        p = eng.load_at(s, q.obj, q.off, 8)
        for s2, nul in eng.split(s, eng.isnull(s, p)):
            if nul:
                out += _throw_named(eng, s2, '_ZTISt12future_error', 3)
                continue
            eng.spec.ev(s2, 'waited_for', p)
            out.append((s2, RET, None))
    return out


def user_lock(eng, st, p):
    """the mutex behind a std::unique_lock argument: [(state, LockKey)]"""
    out = []
    for s, m in eng.load(st, p, 8):
        for s2, q in eng.deref(s, m):
            own = eng.load_at(s2, eng.deref(s2, p)[0][1].obj, eng.deref(s2, p)[0][1].off + 8, 1)
            lk = [k for k in s2.locks if (k.oid, k.off) == (q.obj, q.off)]
            eng.oblige(s2, And(bool(lk), Not(eq(own, 0))), 'cv-wait-with-lock', ('P04', 'P11'), detail='waits on a condition variable without holding its lock')
            if lk:
                out.append((s2, lk[-1]))
    return out


def cv_sleep(eng, st, what, args):
    """states after a wait on a tpp::condition_variable: not blocked at all, or the lock was released and acquired again"""
    sp = eng.spec
    out = []
    c = eng.deref(st, args[0])[0][1]
    for s, lk in user_lock(eng, st, args[1]):
        unreg = s.ghost.get('self_id') is None
        held = tuple(k for k in sp.internal(s) if True)
        if unreg:
            call(eng, s, what, user=True)
        else:
            call(eng, s, what)
        s0 = s.fork()
        # returns without blocking: exit requested (or not registered), or notified before it could block
        sp.ev(s0, 'cv_skipped', c, lk)
        out.append((s0, False))
        if unreg:
            continue
        others = [k.name for k in s.locks if k is not lk]
        eng.oblige(s, not others, 'no-lock-while-blocked', ('P04',), detail='%s blocks while holding %s' % (what, ', '.join(others)))
        sp.before_block(s)
        sp.ev(s, 'cv_wait', c, lk, None)
        m = sp.monitors.get(lk.rec)
        if m is None:
            out.append((s, True))
            continue
        m.release(s, lk, 'wait')
        for s2 in m.acquire(s, lk, 'wait'):
            sp.ev(s2, 'cv_woken', c, lk)
            out.append((s2, True))
    return out


def cv_wait(eng, st, name, args, fty):
    return [(s, RET, None) for s, b in cv_sleep(eng, st, 'tpp::condition_variable::wait', args)]


def cv_wait_for(eng, st, name, args, fty):
    unit = unit_of(eng, name)
    out = []
    for s, b in cv_sleep(eng, st, 'tpp::condition_variable::wait_for', args):
        for s2, d in eng.load(s, args[2], 8):
            t0 = s2.ghost.get('clock')
            if t0 is None:
                t0 = eng.spec.clock(s2)
            now = eng.spec.clock(s2)
            r = eng.fresh('status', 32)
            s2.assume(z3.ULE(r, 1))
            ns = bv(d) * unit if unit != 1 else bv(d)
            s2.assume(z3.Implies(r == 1, now >= t0 + ns))
            if b:
                s2.assume(ns > 0)
            eng.spec.ev(s2, 'cv_timed', args[0], d, r, b)
            out.append((s2, RET, r))
    return out


def cv_notify(all_):
    what = 'tpp::condition_variable::notify_all' if all_ else 'tpp::condition_variable::notify_one'

    def f(eng, st, name, args, fty):
        call(eng, st, what, user=st.ghost.get('self_id') is None)
        c = eng.deref(st, args[0])[0][1]
        eng.spec.on_cv_notify(st, c, all_)
        return [(st, RET, None)]
    return f


TABLE = {
    'register_this_thread': ('tpp::this_thread::register_this_thread', register_this_thread),
    'set_value': ('tpp::promise::set_value', complete(1)),
    'set_value_body': ('tpp::promise::set_value', set_value_body),
    'then': ('tpp::future::then', then),
    'shared_then': ('tpp::shared_future::then', then),
    'set_exception': ('tpp::detail::basic_promise::set_exception', complete(2)),
    'invoke_packaged_task': ('tpp::detail::invoke_packaged_task', invoke_packaged_task),
    'register_this': ('tpp::thread::register_this', register_this),
    'notify': ('tpp::notify', notify),
    'cv_wait': ('tpp::condition_variable::wait', cv_wait),
    'cv_wait_for': ('tpp::condition_variable::wait_for', cv_wait_for),
    'cv_notify_one': ('tpp::condition_variable::notify_one', cv_notify(False)),
    'cv_notify_all': ('tpp::condition_variable::notify_all', cv_notify(True)),
    'add_job': ('tpp::thread_pool::add_job', add_job),
    'pool_stop': ('tpp::thread_pool::stop', pool_stop),
    'pool_change_priority': ('tpp::thread_pool::change_priority', pool_change_priority),
    'impl_dtor': ('tpp::thread_pool::impl::~impl', impl_dtor),
    'make_thread': ('tpp::make_thread', make_thread),
    'check_jobs': ('tpp::thread_pool::impl::check_jobs', check_jobs),
    'future_wait': ('tpp::detail::basic_future::wait', future_wait),
    'wait': ('tpp::this_thread::wait', wait),
    'wait_for': ('tpp::this_thread::wait_for', wait_for),
    'notify_for_exit': ('tpp::notify_for_exit', notify_for_exit),
    'unregister_this_thread': ('tpp::this_thread::unregister_this_thread', unregister_this_thread),
    'get_all_registered_threads': ('tpp::get_all_registered_threads', list_threads),
}


def install(eng, uses):
    for u in uses:
        base, f = TABLE[u]
        eng.contracts[base] = f
