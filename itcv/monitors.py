"""Invariants and guarantees of the data protected by each lock."""
import z3

from .engine import (Ptr, FPtr, VecVal, MapVal, And, Or, Not, Implies, B, bv, eq, ult, ule, add, sub, same, unlit, Unsupported)
from . import stdlib as SL
from .spec import Monitor, strip_targs
from .pool import Pool

TC = 'tpp::thread_context'
PC = 'tpp::program_context'

FWORDS = (0, 8, 16, 24)       # std::function: functor (2 words), manager, invoker


def fwords(eng, st, oid, off=0):
    return [eng.load_at(st, oid, off + k, 8) for k in FWORDS]


def weq(eng, st, a, b):
    return And(*[eng.ptr_eq(st, x, y) if not (z3.is_expr(x) and z3.is_expr(y)) else (True if x.eq(y) else x == y)
                 for x, y in zip(a, b)])


class View:
    """the outstanding tasks of a thread as one sequence: processing_tasks[processing_idx..] then tasks"""

    def __init__(self, mon, st, lk):
        sp = mon.sp
        self.p = sp.vec(st, lk.oid, lk.base, lk.recid, 'processing_tasks')
        self.t = sp.vec(st, lk.oid, lk.base, lk.recid, 'tasks')
        self.idx = sp.get(st, lk.oid, lk.base, lk.recid, 'processing_idx')
        self.wakeup = sp.get(st, lk.oid, lk.base, lk.recid, 'wakeup')
        self.exit = sp.get(st, lk.oid, lk.base, lk.recid, 'exit')
        self.depth = sp.get(st, lk.oid, lk.base, lk.recid, 'processing_stack_depth')
        self.np = sub(self.p.len, self.idx)
        self.n = add(self.np, self.t.len)
        self.closed = sp.get(st, lk.oid, lk.base, lk.recid, 'closed') if sp.has_field(lk.recid, 'closed') else 0
        self.cells = {n: sp.get(st, lk.oid, lk.base, lk.recid, n) for n in ()}


class ThreadCtx(Monitor):
    """tasks_mutex: the task queue of one thread"""

    def acquire(self, st, lk, why='lock'):
        eng, sp = self.eng, self.sp
        own = sp.is_owner(st, lk.oid)
        depth = None
        old = st.ghost.get(('left', lk.oid))
        if own:
            dq = Ptr(lk.oid, lk.base + sp.field(lk.recid, 'processing_stack_depth')[0])
            depth = eng.load_at(st, dq.obj, dq.off, 4)
            if why != 'loop':
                self.check_inflight(st, lk)
        exit0 = sp.get(st, lk.oid, lk.base, lk.recid, 'exit')
        closed0 = sp.get(st, lk.oid, lk.base, lk.recid, 'closed') if sp.has_field(lk.recid, 'closed') else None
        sp.havoc_record(st, lk)
        # invariant: processing_idx <= processing_tasks.size(), written as size = idx + np
        idx = sp.get(st, lk.oid, lk.base, lk.recid, 'processing_idx')
        p = sp.vec(st, lk.oid, lk.base, lk.recid, 'processing_tasks')
        np = eng.fresh('np')
        st.assume(B(And(ult(np, 1 << 40), ult(idx, 1 << 40))))
        po = sp.field(lk.recid, 'processing_tasks')[0]
        st.w(lk.oid).cells[lk.base + po] = (24, VecVal(add(idx, np), p.cap, p.buf))
        v = View(self, st, lk)
        st.assume(B(Implies(Not(eq(exit0, 0)), Not(eq(v.exit, 0)))))
        if closed0 is not None:
            if own:
                st.assume(B(eq(closed0, v.closed)))
            else:
                st.assume(B(Implies(Not(eq(closed0, 0)), Not(eq(v.closed, 0)))))
            st.assume(B(Implies(Not(eq(v.closed, 0)), eq(v.n, 0))))
        if own:
            # only the owner changes the depth; nested processing restores it
            st.assume(B(eq(depth, v.depth)))
            if closed0 is not None:
                # a registered thread's own context is open
                st.assume(B(eq(v.closed, 0)))
        if why == 'wait':
            st.assume(B(Implies(Or(Not(eq(v.n, 0)), Not(eq(v.exit, 0))), Not(eq(v.wakeup, 0)))))
            st.ghost['wait_n'] = v.n
            st.ghost['wait_exit'] = v.exit
        k = eng.fresh('k')
        W = [eng.fresh('Q_k.%d' % j) for j in range(4)]
        self.install_views(st, v, k, W)
        st.ghost[('snap', lk.oid)] = (v, k, W)
        st.ghost['notified'] = tuple(x for x in (st.ghost.get('notified') or ()) if x != lk.oid)
        if own and ('depth0', lk.oid) not in st.ghost:
            st.ghost[('depth0', lk.oid)] = v.depth
        return [st]

    def install_views(self, st, v, k, W):
        eng = self.eng

        def pview(s, b, e, i):
            w = fwords(eng, s, e.id)
            inq = And(ule(v.idx, i), ult(i, v.p.len))
            s.assume(B(Implies(inq, eng.nonnull(s, w[2]))))
            s.assume(B(Implies(ult(i, v.idx), eng.isnull(s, w[2]))))
            s.assume(B(Implies(And(inq, eq(sub(i, v.idx), k)), weq(eng, s, w, W))))

        def tview(s, b, e, i):
            w = fwords(eng, s, e.id)
            inq = ult(i, v.t.len)
            s.assume(B(Implies(inq, eng.nonnull(s, w[2]))))
            s.assume(B(Implies(And(inq, eq(add(i, v.np), k)), weq(eng, s, w, W))))
        st.w(v.p.buf).meta['views'] = (pview,)
        st.w(v.t.buf).meta['views'] = (tview,)

    def at(self, st, v, k):
        """[(state, element words)] of view v at position k (k in range)"""
        out = []
        for s, inp in self.eng.split(st, ult(k, v.np)):
            if inp:
                for s2, e in self.eng.buf_elem(s, v.p.buf, add(v.idx, k)):
                    out.append((s2, fwords(self.eng, s2, e)))
            else:
                for s2, e in self.eng.buf_elem(s, v.t.buf, sub(k, v.np)):
                    out.append((s2, fwords(self.eng, s2, e)))
        return out

    def check_inflight(self, st, lk):
        g = st.ghost.get(('inflight', lk.oid))
        self.eng.oblige(st, g is None, 'taken-task-is-run', ('P01',),
                        detail='a task taken from the queue has not been run')

    def release(self, st, lk, why='unlock'):
        eng, sp = self.eng, self.sp
        snap = st.ghost.get(('snap', lk.oid))
        if snap is None:
            return
        v0, k, W = snap
        own = sp.is_owner(st, lk.oid)
        v = View(self, st, lk)
        ob = lambda c, n, t, d: eng.oblige(st, c, n, t, d)
        closing = And(eq(v0.closed, 0), Not(eq(v.closed, 0))) if not (isinstance(v0.closed, int) and isinstance(v.closed, int)) else False
        ob(ule(v.idx, v.p.len), 'queue-index-in-range', ('P01',), 'processing index beyond the batch being processed')
        grow = eq(v.n, add(v0.n, 1))
        shrink = eq(add(v.n, 1), v0.n)
        keep = eq(v.n, v0.n)
        if closing is not False:
            # the context is being closed: the owner empties the queue
            ob(Implies(closing, eq(v.n, 0)), 'closed-queue-empty', ('P01', 'P03'), 'a context is closed with tasks left in its queue')
            ob(Implies(Not(eq(v0.closed, 0)), And(Not(eq(v.closed, 0)), keep)), 'closed-context-stays-closed', ('P01', 'P03'),
               'the queue of a closed context changes')
        ob(Or(grow, shrink, keep, closing), 'queue-changes-by-one', ('P01',),
           'the number of outstanding tasks changes by more than one in one step')
        if not own:
            ob(Or(Not(shrink), eq(v0.n, 0), closing), 'only-owner-takes', ('P01',), 'a task is removed by another thread')
        # the content seen through the skolem index
        st2 = st.fork()
        st2.assume(B(Not(closing)))
        for s, g in eng.split(st2, grow):
            if g:
                s1 = s.fork()
                s1.assume(B(ult(k, v0.n)))
                if eng.alive(s1):
                    for s2, w in self.at(s1, v, k):
                        eng.oblige(s2, weq(eng, s2, w, W), 'queue-prefix-kept', ('P01',),
                                   'accepting a task reorders or changes tasks already accepted')
                for s2, w in self.at(s, v, v0.n):
                    eng.oblige(s2, eng.nonnull(s2, w[2]), 'accepted-task-not-empty', ('P01',), 'an empty task is queued')
                    sp.ev(s2, 'appended', lk, w)
                continue
            for s1, sh in eng.split(s, shrink):
                if sh:
                    s1.assume(B(And(ult(k, v0.n), Not(eq(k, 0)))))
                    if eng.alive(s1):
                        for s2, w in self.at(s1, v, sub(k, 1)):
                            eng.oblige(s2, weq(eng, s2, w, W), 'queue-rest-kept', ('P01',),
                                       'taking a task reorders, skips or changes the other tasks')
                else:
                    s1.assume(B(ult(k, v0.n)))
                    if eng.alive(s1):
                        for s2, w in self.at(s1, v, k):
                            eng.oblige(s2, weq(eng, s2, w, W), 'queue-kept', ('P01',), 'queued tasks are reordered or changed')
        # consumed slots hold empty functions (they may be destroyed under the lock)
        j = eng.fresh('j')
        s3 = st.fork()
        s3.assume(B(ult(j, v.idx)))
        if eng.alive(s3):
            for s2, e in eng.buf_elem(s3, v.p.buf, j):
                w = fwords(eng, s2, e)
                eng.oblige(s2, eng.isnull(s2, w[2]), 'consumed-slot-empty', ('P01',), 'a task stays behind in a consumed slot')
        # taking
        d0 = st.ghost.get(('depth0', lk.oid))
        infl = st.ghost.get(('inflight', lk.oid))
        if own and why != 'loop':
            took = eng.must(st, And(shrink, Not(eq(v0.n, 0)), Not(closing)))
            if took:
                self.eng.oblige(st, infl is None, 'taken-task-is-run', ('P01',), 'a second task is taken before the first one was run')
                infl = (k, W, v0.n)
                st.ghost[('inflight', lk.oid)] = infl
                st.ghost['took'] = True
                sp.ev(st, 'took', lk)
            elif eng.feasible(st, And(shrink, Not(eq(v0.n, 0)), Not(closing))):
                raise Unsupported('cannot tell whether a task is taken')
        if own:
            if d0 is not None:
                run = 1 if infl is not None else 0
                ob(eq(v.depth, add(d0, run, 32)), 'depth-counts-running-tasks', ('P01',),
                   'the number of running tasks is not what the pending count reports')
        else:
            ob(eq(v.depth, v0.depth), 'depth-changed-by-owner-only', ('P01',), 'running-task count changed by another thread')
            ob(Implies(Not(eq(v0.wakeup, 0)), Not(eq(v.wakeup, 0))), 'wakeup-not-cleared', ('P02',),
               'the wakeup request of another thread is cleared')
        ob(Implies(Not(eq(v0.exit, 0)), Not(eq(v.exit, 0))), 'exit-request-sticky', ('P19',), 'an exit request is withdrawn')
        newexit = And(eq(v0.exit, 0), Not(eq(v.exit, 0)))
        if eng.feasible(st, newexit):
            ob(Implies(newexit, sp.contract.exit_ok(st, lk)), 'exit-request-addressed', ('P19',), 'exit is requested from a thread that was not asked to')
        newwork = Or(grow, And(eq(v0.exit, 0), Not(eq(v.exit, 0))))
        if why == 'unlock' and not own:
            ob(Implies(newwork, Not(eq(v.wakeup, 0))), 'new-work-sets-wakeup', ('P02',),
               'work is queued (or exit requested) without setting the wakeup request')
            if eng.feasible(st, newwork) and lk.oid not in (st.ghost.get('notified') or ()):
                st.ghost['pending_notify'] = (st.ghost.get('pending_notify') or ()) + ((lk.oid, 'P02', newwork),)
        if why == 'wait':
            ob(And(eq(v.n, 0), eq(v.exit, 0)), 'sleeps-only-when-idle', ('P02',),
               'the thread goes to sleep although a task is queued or exit was requested')
        st.ghost[('last', lk.oid)] = v
        st.ghost['last_n'] = v.n
        st.ghost['last_exit'] = v.exit
        sp.ev(st, 'ctx_released', lk, v0, v, why)

    def loop_head(self, st, lk):
        sts = self.acquire(st, lk, 'loop')
        d0 = st.ghost.get(('depth0', lk.oid))
        if d0 is not None and self.sp.is_owner(st, lk.oid):
            run = 1 if st.ghost.get(('inflight', lk.oid)) is not None else 0
            st.assume(B(eq(View(self, st, lk).depth, add(d0, run, 32))))
        return sts

    def candidates(self, lk, h0, M):
        out = []
        for key, g, bits in self.eng.int_locs(h0, M):
            if bits == 8:
                # a flag that remembers that the queue was found empty
                out.append(('%s or queue empty' % (key,), lambda t, g=g: Or(Not(eq(g(t), 0)), eq(View(self, t, lk).n, 0))))
                out.append(('not %s or queue empty' % (key,), lambda t, g=g: Or(eq(g(t), 0), eq(View(self, t, lk).n, 0))))

        def J(t):
            v = View(self, t, lk)
            return Implies(Or(Not(eq(v.n, 0)), Not(eq(v.exit, 0))), Not(eq(v.wakeup, 0)))

        def depth(t):
            d0 = t.ghost.get(('depth0', lk.oid))
            if d0 is None:
                return None
            return eq(View(self, t, lk).depth, d0)

        def empty(t):
            v = View(self, t, lk)
            return And(eq(v.n, 0), eq(v.exit, 0))
        return out + [('sleep-invariant', J), ('idle', empty)]


KEYAT = z3.Function('registered_id_at', z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(64))


class Program(Monitor):
    """the registry mutex: id_map (native id -> id) and contexts (id -> context) describe the same set of threads"""

    def layout(self, recid, fld):
        eng = self.eng
        off, size, ty = self.sp.field(recid, fld)
        ta = SL.targs(eng, eng.di.strip(ty))
        return off, SL.tab_layout(eng, ta['_Key'], ta['_Tp']), strip_targs(eng.di.tname(ty))

    def tabs(self, st, lk):
        out = []
        for f in ('contexts', 'id_map'):
            off, T, kind = self.layout(lk.recid, f)
            out.append(SL.map_at(self.eng, st, Ptr(lk.oid, lk.base + off), T, kind))
        return out

    def acquire(self, st, lk, why='lock'):
        eng, sp = self.eng, self.sp
        sp.havoc_record(st, lk)
        C, I = self.tabs(st, lk)
        self.install_views(st, lk, C, I)
        gen = z3.BitVecVal(C, 64)
        st.ghost['reg'] = (C, I, st.mem[C].meta['size'], st.mem[I].meta['size'])
        st.ghost['reg_ops'] = ()
        st.ghost['notified'] = tuple(x for x in (st.ghost.get('notified') or ()) if x != lk.oid)
        st.assume(B(And(eq(st.mem[C].meta['size'], st.mem[I].meta['size']), ult(st.mem[C].meta['size'], 1 << 31))))
        if self.self_live(st):
            st.assume(B(Not(eq(st.mem[C].meta['size'], 0))))
        sp.ev(st, 'registry_acquired', lk, why)
        return [st]

    def self_live(self, st):
        """the calling thread is registered and has not unregistered itself"""
        return st.ghost.get('self_id') is not None and not st.ghost.get('self_gone')

    def ctx_of(self, st, node):
        """location of the context in an entry of contexts"""
        return self.ctx_ptr(st, self.eng.load_at(st, node, st.mem[node].ty[3], 8))

    def ctx_ptr(self, st, v):
        return v if isinstance(v, Ptr) else self.eng.resolve(st, v)

    def native(self, st, p):
        return self.sp.get(st, p.obj, p.off, self.eng.di.rec(TC), 'native_thread_id')

    def install_views(self, st, lk, C, I):
        eng, sp = self.eng, self.sp
        gen = z3.BitVecVal(C, 64)

        def live(s, tab):
            """(key, value, node) of the entries known to have been there when the mutex was acquired"""
            out = [(e['key'], eng.load_at(s, e['node'], s.mem[e['node']].ty[3], 8)) for e in s.mem[tab].meta['entries'] if not e['new']]
            t = 'C' if tab == C else 'I'
            new = {o[3] for o in s.ghost.get('reg_ops') or () if o[0] == 'ins'}
            return out + [(o[2], o[4]) for o in s.ghost.get('reg_ops') or () if o[0] == 'del' and o[1] == t and o[3] not in new]

        def cview(s, tab, key, node, pos):
            s.assume(B(Not(eq(key, 0))))
            s.assume(B(eq(KEYAT(gen, bv(pos)), key)))
            voff = s.mem[node].ty[3]
            p = eng.load_at(s, node, voff, 8)
            pi = eng.load_at(s, node, voff + 8, 8)
            s.assume(B(Not(eq(p, 0))))
            s.assume(B(Not(eq(pi, 0))))
            for m in s.ghost.get('minted') or ():
                s.assume(B(Not(eq(m, key))))
            if self.self_live(s) and same(key, s.ghost['self_id']):
                eng.store_at(s, node, voff, 8, s.ghost['self_ctx'])
            elif z3.is_expr(p):
                sp.ctx_key[p.get_id()] = key
            for k, v in live(s, I):
                c = eq(v, key)
                if c is False:
                    continue
                s.assume(B(eq(B(c), B(eq(self.native(s, self.ctx_of(s, node)), k)))))

        def iview(s, tab, key, node, pos):
            v = eng.load_at(s, node, s.mem[node].ty[3], 8)
            s.assume(B(Not(eq(v, 0))))
            for m in s.ghost.get('minted') or ():
                s.assume(B(Not(eq(m, v))))
            if self.self_live(s):
                s.assume(B(eq(B(eq(key, sp.native_self(s))), B(eq(v, s.ghost['self_id'])))))
            for k, c in live(s, C):
                s.assume(B(eq(B(eq(v, k)), B(eq(self.native(s, self.ctx_ptr(s, c)), key)))))

        def cabsent(s, tab, key):
            if self.self_live(s):
                s.assume(B(Not(eq(key, s.ghost['self_id']))))
            for k, v in live(s, I):
                s.assume(B(Not(eq(v, key))))

        def iabsent(s, tab, key):
            if self.self_live(s):
                s.assume(B(Not(eq(key, sp.native_self(s)))))
            for k, c in live(s, C):
                s.assume(B(Not(eq(self.native(s, self.ctx_ptr(s, c)), key))))
        for tab, v, a in ((C, cview, cabsent), (I, iview, iabsent)):
            o = st.w(tab)
            o.meta['views'] = (v,)
            o.meta['absent_views'] = (a,)

    def linked(self, st, v):
        """the calling thread makes v its own context: it must be the one registered for it"""
        eng, sp = self.eng, self.sp
        p = self.ctx_ptr(st, v)
        tc = eng.di.rec(TC)
        me = sp.native_self(st)
        eng.oblige(st, eq(self.native(st, p), me), 'linked-to-own-context', ('P03',), 'the thread is linked to the context of another thread')
        reg = st.ghost.get('reg')
        found = False
        if reg:
            es = st.mem[reg[0]].meta['entries']
            found = Or(*[eng.ptr_eq(st, eng.load_at(st, e['node'], st.mem[e['node']].ty[3], 8), v) for e in es])
        if self_ptr(st, v) and self.self_live(st):
            found = True
        eng.oblige(st, found, 'linked-context-is-registered', ('P03',), 'the thread is linked to a context that is not in the registry')
        st.ghost['self_id'] = sp.get(st, p.obj, p.off, tc, 'id')
        st.ghost['self_ctx'] = v
        st.ghost['self_gone'] = False

    # changes of the tables while the mutex is held
    def op(self, st, kind, tab, e):
        reg = st.ghost.get('reg')
        if not reg or tab not in reg[:2]:
            return
        t = 'C' if tab == reg[0] else 'I'
        if kind == 'clear':
            st.ghost['reg_ops'] = st.ghost['reg_ops'] + (('clear', t, None, None, None),)
            return
        v = self.eng.load_at(st, e['node'], st.mem[e['node']].ty[3], 8) if kind == 'del' else None
        st.ghost['reg_ops'] = st.ghost['reg_ops'] + ((kind, t, e['key'], e['node'], v),)
        if kind == 'del' and t == 'C' and st.ghost.get('self_id') is not None:
            if self.eng.must(st, eq(e['key'], st.ghost['self_id'])):
                st.ghost['self_gone'] = True

    def release(self, st, lk, why='unlock'):
        eng, sp = self.eng, self.sp
        reg = st.ghost.get('reg')
        if not reg or why == 'loop':
            return
        C, I, c0, i0 = reg
        tc = eng.di.rec(TC)
        ob = lambda c, n, d, t=('P03',): eng.oblige(st, c, n, t, d)
        ob(self.tabs(st, lk) == [C, I], 'registry-not-replaced', 'a table of the registry is replaced')
        ops = st.ghost['reg_ops']
        # an entry inserted and removed again in the same step is no change
        sel = lambda k, t: [o for o in ops if o[0] == k and o[1] == t]
        for o in sel('clear', 'C') + sel('clear', 'I'):
            ob(eq(c0, 0), 'registry-not-cleared', 'registered threads are dropped from the registry')
        node_val = lambda n: eng.load_at(st, n, st.mem[n].ty[3], 8)
        insC, insI, delC, delI = sel('ins', 'C'), sel('ins', 'I'), sel('del', 'C'), sel('del', 'I')
        ob(len(insC) <= 1 and len(insI) <= 1 and len(insC) == len(insI), 'registry-tables-agree',
           'an id is added to one table of the registry only')
        ob(len(delC) <= 1 and len(delI) <= 1 and len(delC) == len(delI), 'registry-tables-agree-on-removal',
           'an id is removed from one table of the registry only')
        if insC and insI:
            key = insC[0][2]
            cp = self.ctx_of(st, insC[0][3])
            ob(Or(*[eq(key, m) for m in st.ghost.get('minted') or ()]), 'registered-id-is-new',
               'the id of a new registration may have been used before')
            ob(eq(sp.get(st, cp.obj, cp.off, tc, 'id'), key), 'context-carries-its-id', 'the context registered under an id has another id')
            ob(eq(self.native(st, cp), insI[0][2]), 'context-carries-its-native-id', 'native id of the context and of the id map differ')
            ob(eq(node_val(insI[0][3]), key), 'native-id-maps-to-id', 'the native id is mapped to another id')
            ob(st.mem[cp.obj].kind == 'heap', 'context-is-new', 'a context is registered twice')
        if delC and delI:
            key, val = delC[0][2], delC[0][4]
            cp = self.ctx_ptr(st, val)
            ob(eq(self.native(st, cp), delI[0][2]), 'native-id-removed-with-id', 'another native id is removed from the registry')
            sid = st.ghost.get('self_id')
            ob(False if sid is None else eq(key, sid), 'only-own-registration-removed', 'the registration of another thread is removed')
            if sp.has_field(tc, 'closed'):
                ob(Not(eq(sp.get(st, cp.obj, cp.off, tc, 'closed'), 0)), 'unregistered-context-closed',
                   'a context removed from the registry still accepts tasks', ('P01', 'P03'))
            empty = eq(st.mem[C].meta['size'], 0)
            if lk.oid not in (st.ghost.get('notified') or ()) and eng.feasible(st, empty):
                st.ghost['pending_notify'] = (st.ghost.get('pending_notify') or ()) + ((lk.oid, 'P19', empty),)
        # entries that stay keep their value
        for tab in (C, I):
            for e in st.mem[tab].meta['entries']:
                if e['new']:
                    continue
                o = st.mem[e['node']]
                voff = o.ty[3]
                cur = eng.load_at(st, e['node'], voff, 8)
                ini = eng.lazy.get((e['node'], voff, 8, 0))
                if tab == C and self_ptr(st, cur):
                    continue
                if ini is not None and not same(cur, ini):
                    ob(eng.ptr_eq(st, cur, ini), 'registration-kept', 'the registration of a thread is changed')
        st.ghost['reg_last'] = (insC, insI, delC, delI)
        sp.ev(st, 'registry_released', lk, why)


class Semaphore(Monitor):
    """mutex_ of a semaphore: the list of waiters (token, id), oldest first

    Invariant: ids are valid and distinct; a registered waiter's token is not interrupted.  Whoever takes another thread's
    entry out interrupts its token before releasing the mutex, so a waiting call finds either its entry or its token set.
    What a function may do to the list is given by the role of its contract ('wait', 'one', 'all' or None).
    """
    REC = 'tpp::detail::semaphore'

    def layout(self, lk):
        eng, sp = self.eng, self.sp
        off, size, ty = sp.field(lk.recid, 'waiters_')
        et = SL.targs(eng, eng.di.strip(ty))['_Tp']
        f = eng.di.all_fields(et)
        tok = eng.di.all_fields(eng.di.strip(f['token'][2]))
        return f['token'][0] + tok['flag_'][0], f['id'][0]

    def words(self, st, lk, e):
        fo, io = self.layout(lk)
        return [self.eng.load_at(st, e, fo, 8), self.eng.load_at(st, e, fo + 8, 8), self.eng.load_at(st, e, io, 8)]

    def weq(self, st, a, b):
        return And(*[self.eng.ptr_eq(st, x, y) for x, y in zip(a, b)])

    def flag_at(self, st, p):
        q = p if isinstance(p, Ptr) else self.eng.resolve(st, p)
        return q

    def flag(self, st, p):
        """value of the flag a token points to"""
        q = self.flag_at(st, p)
        return self.eng.load_at(st, q.obj, q.off, 1)

    def set_flag(self, st, p, v):
        q = self.flag_at(st, p)
        st.w(q.obj).cells[q.off] = (1, v)

    def acquire(self, st, lk, why='lock'):
        eng, sp = self.eng, self.sp
        role = sp.contract.sem_role
        sp.havoc_record(st, lk)
        v = sp.vec(st, lk.oid, lk.base, lk.recid, 'waiters_')
        fo, io = self.layout(lk)
        k = eng.fresh('k')
        W = [eng.fresh('waiter_k.%d' % j) for j in range(3)]
        sid = st.ghost.get('self_id')
        own_in = eng.freshb('own_in')
        own_pos = eng.fresh('own_pos')
        if sid is None:
            own_in = False
        else:
            st.assume(B(Implies(own_in, ult(own_pos, v.len))))
        tok = st.ghost.get(('tok', lk.oid))

        def view(s, b, e, i):
            inr = ult(i, v.len)
            if tok is not None and same(i, own_pos):
                for j in (0, 1):
                    eng.store_at(s, e.id, fo + 8 * j, 8, tok[j])
            w = self.words(s, lk, e.id)
            s.assume(B(Implies(inr, And(Not(eq(w[2], 0)), eng.nonnull(s, w[0]), eng.nonnull(s, w[1])))))
            s.assume(B(Implies(And(inr, eq(i, k)), self.weq(s, w, W))))
            s.assume(B(Implies(And(inr, ult(k, v.len)), eq(B(eq(w[2], W[2])), B(eq(i, k))))))
            if sid is not None:
                s.assume(B(Implies(inr, eq(B(eq(w[2], sid)), B(And(own_in, eq(i, own_pos)))))))
            # nobody has touched a token since the mutex was acquired
            # (in a loop: of an element that is not known here)
            if isinstance(s.ghost['sem_marks'], int):
                self.set_flag(s, w[0], 0)
        st.ghost['sem_marks'] = 0
        st.w(v.buf).meta['views'] = (view,)
        out = []
        for s, mine in eng.split(st, own_in):
            own_e = None
            if tok is not None:
                old = self.flag(s, tok[0])
                if mine:
                    s.assume(B(eq(old, 0)))
                elif not s.ghost.get('tok_frozen'):
                    new = eng.fresh('flag', 8)
                    s.assume(new == 1)
                    self.set_flag(s, tok[0], new)
            if mine:
                own_e = eng.buf_new_elem(s, v.buf, own_pos)
            s.ghost[('snap', lk.oid)] = (v, k, W, mine, own_pos, own_e)
            s.ghost['sem_n0'] = v.len
            if role in ('one', 'all'):
                idx = 0 if role == 'one' else k
                for s1, some in eng.split(s, ult(idx, v.len)):
                    s1.ghost['sem_some'] = some
                    if not some:
                        s1.ghost['sem_pick'] = None
                        out.append(s1)
                        continue
                    for s2, e in eng.buf_elem(s1, v.buf, idx):
                        s2.ghost['sem_pick'] = tuple(self.words(s2, lk, e))
                        out.append(s2)
            else:
                out.append(s)
        return [s for s in out if eng.alive(s)]

    def loop_head(self, st, lk):
        raise Unsupported('the waiter list is changed in a loop')

    def candidates(self, lk, h0, M):
        snap = h0.ghost.get(('snap', lk.oid))
        if snap is None:
            return []
        v, k, W, mine, own_pos, own_e = snap
        pick = h0.ghost.get('sem_pick')
        out = []
        for key, g, bits in self.eng.int_locs(h0, M):
            if bits != 64:
                continue
            if mine:
                out.append(('%s<=own' % (key,), lambda t, g=g: ule(g(t), own_pos)))
            if pick is not None:
                out.append(('%s<=k or marked' % (key,), lambda t, g=g: Or(Not(eq(self.flag(t, pick[0]), 0)), ule(g(t), k))))
                out.append(('%s>k or marked' % (key,), lambda t, g=g: Or(Not(eq(self.flag(t, pick[0]), 0)), ult(k, g(t)))))
        return out

    def release(self, st, lk, why='unlock'):
        eng, sp = self.eng, self.sp
        snap = st.ghost.get(('snap', lk.oid))
        if snap is None or why == 'loop':
            return
        v0, k, W, mine, own_pos, own_e = snap
        role = sp.contract.sem_role
        v = sp.vec(st, lk.oid, lk.base, lk.recid, 'waiters_')
        T = ('P11', 'P12', 'P13') if role == 'wait' else ('P11', 'P13')
        ob = lambda s, c, n, d, t=('P11',): eng.oblige(s, c, n, t, d)

        def kept(s, pos, n, what):
            for s2, e in eng.buf_elem(s, v.buf, pos):
                w = self.words(s2, lk, e)
                ob(s2, self.weq(s2, w, W), n, what)
                ob(s2, eq(self.flag(s2, w[0]), 0), 'registered-waiter-not-marked', 'the token of a waiter that stays registered is set')

        def rest(s0, c, pos, n, what):
            s = s0.fork()
            s.assume(B(And(ult(k, v0.len), c)))
            if eng.alive(s):
                kept(s, pos, n, what)
        if role == 'one':
            some = st.ghost['sem_some']
            ob(st, eq(v.len, sub(v0.len, 1)) if some else eq(v.len, 0), 'notify-one-takes-one-waiter', 'notify_one does not take exactly one waiter')
            if some:
                pick = st.ghost['sem_pick']
                rest(st, Not(eq(k, 0)), sub(k, 1), 'other-waiters-kept', 'notify_one takes a waiter other than the oldest one')
                ob(st, Not(eq(self.flag(st, pick[0]), 0)), 'removed-waiter-is-marked',
                   'a waiter is taken from the list and cannot see that it was notified', ('P11', 'P12'))
        elif role == 'all':
            ob(st, eq(v.len, 0), 'notify-all-takes-every-waiter', 'a waiter stays registered after notify_all')
            if st.ghost['sem_some']:
                pick = st.ghost['sem_pick']
                ob(st, Not(eq(self.flag(st, pick[0]), 0)), 'removed-waiter-is-marked',
                   'a waiter is taken from the list and cannot see that it was notified', ('P11', 'P12'))
        elif role == 'wait':
            same_n, grow, shrink = eq(v.len, v0.len), eq(v.len, add(v0.len, 1)), And(eq(add(v.len, 1), v0.len), Not(eq(v0.len, 0)))
            ob(st, Or(same_n, grow, shrink), 'waiter-list-changes-by-own-entry', 'a wait removes entries of other threads')
            if eng.must(st, grow):
                rest(st, True, k, 'other-waiters-kept', 'registering a waiter changes the order of the others')
                ob(st, st.ghost.get('self_id') is not None, 'waiter-has-id', 'a thread without id is registered as waiter')
                ob(st, not mine, 'registered-once', 'a thread is registered twice')
                for s2, e in eng.buf_elem(st, v.buf, v0.len):
                    w = self.words(s2, lk, e)
                    if s2 is not st:
                        raise Unsupported('new waiter')
                    ob(st, eq(w[2], sp.me(st)), 'registers-itself', 'another id is registered')
                    ob(st, eq(self.flag(st, w[0]), 0), 'registered-waiter-not-marked', 'registered with a token that is already set')
                    st.ghost[('tok', lk.oid)] = tuple(w[:2])
                    st.ghost['sem_added'] = True
                    st.ghost['sem_in'] = True
            elif eng.must(st, shrink):
                ob(st, bool(mine and st.ghost.get('sem_added')), 'only-own-entry-removed',
                   'a wait removes an entry that it did not register (an outer wait on the same object misses its notification)')
                rest(st, Not(eq(k, own_pos)), z3.If(B(ult(k, own_pos)), k, k - 1), 'other-waiters-kept', 'leaving the list drops another waiter')
                st.ghost['tok_frozen'] = True
                st.ghost['sem_in'] = False
            elif eng.must(st, same_n):
                rest(st, True, k, 'other-waiters-kept', 'the entries of other waiters change')
                if mine and st.ghost.get(('tok', lk.oid)) is None:
                    st.ghost[('tok', lk.oid)] = tuple(self.words(st, lk, own_e)[:2])
                st.ghost['sem_in'] = mine
            elif eng.alive(st):
                raise Unsupported('cannot tell how the waiter list changes')
        else:
            ob(st, eq(v.len, v0.len), 'waiter-list-unchanged', 'the list of waiters changes')
            rest(st, True, k, 'other-waiters-kept', 'the entries of other waiters change')
        sp.ev(st, 'sem_released', lk, v0, v)

    # the shared flag of a token
    def flag_atomic(self, st, q, size, kind, v):
        eng, sp = self.eng, self.sp
        if kind == 'store':
            eng.oblige(st, Not(eq(v, 0)), 'token-not-withdrawn', ('P11',), 'a token is reset')
        if kind != 'load' and 'sem_marks' in st.ghost:
            st.ghost['sem_marks'] = add(st.ghost['sem_marks'], 1)
        if any(k.rec == self.REC for k in st.locks):
            return
        mine = [key for key in st.ghost if isinstance(key, tuple) and key[0] == 'tok' and st.ghost[key] is not None
                and self.flag_at(st, st.ghost[key][0]).obj == q.obj]
        if not mine or st.ghost.get('tok_frozen'):
            if mine:
                return
        old = eng.load_at(st, q.obj, q.off, size)
        eng.havoc_range(st, q.obj, q.off, q.off + size)
        new = eng.load_at(st, q.obj, q.off, size)
        st.assume(B(ule(new, 1)))
        st.assume(B(Implies(Not(eq(old, 0)), Not(eq(new, 0)))))


class TppMutex(Monitor):
    """guard_ of tpp::mutex: the flag says whether it is owned, owner_ by whom"""
    REC = 'tpp::mutex'

    def vals(self, st, lk):
        sp = self.sp
        return sp.get(st, lk.oid, lk.base, lk.recid, 'flag_', 1), sp.get(st, lk.oid, lk.base, lk.recid, 'owner_')

    def acquire(self, st, lk, why='lock'):
        eng, sp = self.eng, self.sp
        mine = st.ghost.get('owns')
        sp.havoc_record(st, lk)
        f, o = self.vals(st, lk)
        st.assume(B(ule(f, 1)))
        # a free mutex has no owner; the entry of the calling thread is changed by this thread only
        st.assume(B(Implies(eq(f, 0), eq(o, 0))))
        st.ghost[('snap', lk.oid)] = (f, o)
        if why != 'lock':
            me = st.ghost.get('self_id')
            old = st.ghost.get('mutex_last')
            if me is not None and old is not None:
                st.assume(B(eq(B(And(Not(eq(old[0], 0)), eq(old[1], me))), B(And(Not(eq(f, 0)), eq(o, me))))))
        return [st]

    def release(self, st, lk, why='unlock'):
        eng, sp = self.eng, self.sp
        snap = st.ghost.get(('snap', lk.oid))
        if snap is None:
            return
        f0, o0 = snap
        f, o = self.vals(st, lk)
        me = sp.me(st)
        ob = lambda c, n, d: eng.oblige(st, c, n, ('P13',), d)
        free0, free = eq(f0, 0), eq(f, 0)
        took = And(free0, Not(free))
        left = And(Not(free0), free)
        ob(Implies(took, eq(o, me)), 'taken-by-caller', 'the mutex is taken for another owner')
        ob(Implies(left, eq(o0, me)), 'only-owner-frees', 'the mutex is freed although the caller does not own it')
        ob(Implies(And(Not(free0), Not(free)), eq(o, o0)), 'owner-kept', 'the owner of a locked mutex is replaced')
        ob(Implies(free, eq(o, 0)), 'free-mutex-has-no-owner', 'a free mutex keeps an owner')
        if why == 'unlock':
            if eng.feasible(st, left) and lk.oid not in (st.ghost.get('notified') or ()):
                st.ghost['pending_notify'] = (st.ghost.get('pending_notify') or ()) + ((lk.oid, 'P13', left),)
        if why == 'wait':
            ob(Not(free), 'sleeps-only-while-owned', 'sleeps although the mutex is free')
        st.ghost['mutex_last'] = (f, o)
        sp.ev(st, 'mutex_released', lk, (f0, o0), (f, o), why)


class StateView:
    """what a shared state holds"""

    def __init__(self, mon, st, lk):
        sp, eng = mon.sp, mon.eng
        self.status = sp.get(st, lk.oid, lk.base, lk.recid, 'status')
        self.exc = sp.get(st, lk.oid, lk.base, lk.recid, 'exception')
        v = mon.value_at(st, lk)
        self.val = None if v is None else eng.load_at(st, lk.oid, v, 8)
        self.cb = sp.vec(st, lk.oid, lk.base, lk.recid, 'callbacks')


class BasicState(Monitor):
    """guard of the shared state of a promise: status, result and the continuations attached so far"""
    REC = 'tpp::detail::basic_state'

    def value_at(self, st, lk):
        """offset of the stored value (None: no value is stored, void)"""
        for rec, base, fld, foff, fty in self.eng.paths(st.mem[lk.oid], lk.off):
            if strip_targs(rec) == 'tpp::detail::future_state':
                f = self.eng.di.all_fields(self.eng.di.rec(rec))
                return base + f['value'][0] if 'value' in f else None
        raise Unsupported('shared state outside a future_state')

    def acquire(self, st, lk, why='lock'):
        eng, sp = self.eng, self.sp
        old = sp.get(st, lk.oid, lk.base, lk.recid, 'status')
        last = st.ghost.get(('last', lk.oid))
        off = {n: lk.base + sp.field(lk.recid, n)[0] for n in ('status', 'exception')}
        voff = self.value_at(st, lk)
        sp.havoc_record(st, lk)
        if voff is not None:
            eng.havoc_range(st, lk.oid, voff, voff + 16)
        out = []
        for k in (0, 1, 2):
            s = st.fork()
            # a result is final; without a result, nothing is stored
            s.assume(B(Implies(Not(eq(old, 0)), eq(old, k))))
            if sp.contract.exclusive(s, lk):
                s.assume(B(eq(old, k)))
            if not eng.alive(s):
                continue
            keep = last is not None and eng.must(s, Not(eq(last.status, 0)))
            store = lambda o, n, v: eng.store_at(s, lk.oid, o, n, v)
            store(off['status'], 4, k)
            exc = last.exc if keep else (eng.fresh('exception') if k == 2 else 0)
            val = (last.val if keep else (eng.fresh('value') if k == 1 else 0)) if voff is not None else None
            store(off['exception'], 8, exc)
            if voff is not None:
                store(voff, 8, val)
                pi = s.ghost.get(('valpi', lk.oid)) if keep else (eng.fresh('value.pi') if k == 1 else 0)
                store(voff + 8, 8, pi)
                s.ghost[('valpi', lk.oid)] = pi
                if z3.is_expr(val):
                    s.assume(val != 0)
                if z3.is_expr(pi):
                    s.assume(pi != 0)
            if z3.is_expr(exc):
                s.assume(exc != 0)
            v = StateView(self, s, lk)
            if k:
                s.assume(B(eq(v.cb.len, 0)))
            j = eng.fresh('k')
            W = [eng.fresh('C_k.%d' % i) for i in range(4)]

            def view(t, b, e, i, v=v, j=j, W=W):
                w = fwords(eng, t, e.id)
                t.assume(B(Implies(And(ult(i, v.cb.len), eq(i, j)), weq(eng, t, w, W))))
            s.w(v.cb.buf).meta['views'] = (view,)
            s.ghost[('snap', lk.oid)] = (v, j, W)
            s.ghost['notified'] = tuple(x for x in (s.ghost.get('notified') or ()) if x != lk.oid)
            sp.ev(s, 'state_locked', lk, v)
            out.append(s)
        return out

    def release(self, st, lk, why='unlock'):
        eng, sp = self.eng, self.sp
        snap = st.ghost.get(('snap', lk.oid))
        if snap is None:
            return
        v0, k, W = snap
        v = StateView(self, st, lk)
        ob = lambda s, c, n, t, d: eng.oblige(s, c, n, t, d)
        void = v.val is None
        null = lambda s, x: True if x is None else eng.isnull(s, x)
        parts = eng.split(st, Not(eq(v0.status, 0)))
        if len(parts) != 1:
            raise Unsupported('status of the shared state when it was locked')
        if parts[0][1]:
            ob(st, And(eq(v.status, v0.status), eng.ptr_eq(st, v.exc, v0.exc), True if void else eng.ptr_eq(st, v.val, v0.val)),
               'result-never-changes', ('P05',), 'the result of a state that is ready is changed')
            ob(st, eq(v.cb.len, 0), 'no-continuation-left', ('P06',), 'a continuation is attached to a state that is ready')
        else:
            ready = Not(eq(v.status, 0))
            parts = eng.split(st, ready)
            if len(parts) != 1:
                raise Unsupported('status of the shared state when it is unlocked')
            if parts[0][1]:
                ob(st, Or(And(eq(v.status, 1), eng.isnull(st, v.exc), Not(null(st, v.val)) if not void else True),
                          And(eq(v.status, 2), eng.nonnull(st, v.exc), null(st, v.val))),
                   'ready-with-complete-result', ('P05',), 'the state becomes ready without its complete result')
                ob(st, eq(v.cb.len, 0), 'no-continuation-left', ('P06',), 'continuations stay behind in a state that is ready')
                if lk.oid not in (st.ghost.get('notified') or ()):
                    st.ghost['pending_notify'] = (st.ghost.get('pending_notify') or ()) + ((lk.oid, 'P07', True),)
                sp.ev(st, 'made_ready', lk, v0, v, k, W)
            else:
                ob(st, And(null(st, v.val), eng.isnull(st, v.exc)), 'no-result-before-ready', ('P05',),
                   'a result is stored but the state is not ready')
                kept = eq(v.cb.len, v0.cb.len)
                grown = eq(v.cb.len, add(v0.cb.len, 1))
                ob(st, Or(kept, grown), 'continuations-kept', ('P06',), 'continuations are lost or added twice')
                s1 = st.fork()
                s1.assume(B(ult(k, v0.cb.len)))
                if eng.alive(s1):
                    for s2, e in eng.buf_elem(s1, v.cb.buf, k):
                        eng.oblige(s2, weq(eng, s2, fwords(eng, s2, e), W), 'continuations-kept-in-order', ('P06',),
                                   'continuations attached earlier are reordered or changed')
                g = eng.split(st, grown)
                if len(g) != 1:
                    raise Unsupported('number of continuations')
                if g[0][1]:
                    for s2, e in eng.buf_elem(st, v.cb.buf, v0.cb.len):
                        if s2 is not st:
                            raise Unsupported('appended continuation')
                        sp.ev(st, 'attached', lk, fwords(eng, st, e), e)
        if why == 'wait':
            ob(st, eq(v.status, 0), 'sleeps-only-without-result', ('P07',), 'sleeps although the result is there')
        st.ghost[('last', lk.oid)] = v
        sp.ev(st, 'state_released', lk, v0, v, why)


def self_ptr(st, v):
    return st.ghost.get('self_ctx') is not None and same(v, st.ghost['self_ctx'])


def install(sp):
    sp.monitors[TC] = ThreadCtx(sp)
    sp.monitors[PC] = Program(sp)
    sp.monitors[Semaphore.REC] = Semaphore(sp)
    sp.monitors[TppMutex.REC] = TppMutex(sp)
    sp.monitors[BasicState.REC] = BasicState(sp)
    sp.monitors[Pool.REC] = Pool(sp)
