"""Invariant and guarantee of the data protected by the lock of a thread pool."""
import z3

from .engine import (Ptr, VecVal, And, Or, Not, Implies, B, bv, eq, ult, ule, add, sub, same, Unsupported)
from . import stdlib as SL
from .spec import Monitor, strip_targs

FILLED = z3.Function('queue_not_empty_at', z3.BitVecSort(64), z3.BitVecSort(64), z3.BoolSort())
FUTAT = z3.Function('future_of_job_at', z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(64))


def words_at(eng, st, oid, off):
    return [eng.load_at(st, oid, off + k, 8) for k in (0, 8, 16, 24)]


class Job:
    """one entry of the job table"""

    def __init__(self, mon, st, node):
        eng, v = mon.eng, st.mem[node].ty[3]
        o = mon.job_off
        self.id = eng.load_at(st, node, v + o['id'], 8)
        self.level = eng.load_at(st, node, v + o['level'], 8)
        self.prio = eng.load_at(st, node, v + o['priority'], 8)
        self.words = words_at(eng, st, node, v + o['callable'])
        self.fut = eng.load_at(st, node, v + o['future'], 8)
        self.pi = eng.load_at(st, node, v + o['future'] + 8, 8)


class Pool(Monitor):
    """the job table, one queue per level and the workers

    Job ids are below free_id_ and never given out again.  A job in the table is pending while its callable is there and
    running afterwards; it leaves the table when it is stopped (pending jobs only) or by the worker that ran it.  For every
    pending job the queue of its current level holds an entry with its id and its current level and priority.

    The invariant is about all jobs; it is used and checked for one arbitrary job K (contract.job()) and for every entry
    that the code looks at.
    """
    REC = 'tpp::thread_pool::impl'
    shape_ = None

    def shape(self, recid):
        if self.shape_ is not None:
            return self.shape_
        eng = self.eng
        out = {}
        for n, (off, size, ty) in eng.di.all_fields(recid).items():
            tn = eng.di.tname(ty)
            kind = strip_targs(tn)
            if kind in ('std::map', 'std::unordered_map'):
                ta = SL.targs(eng, eng.di.strip(ty))
                vt = strip_targs(eng.di.tname(ta['_Tp']))
                key = {'std::vector': 'W', 'std::priority_queue': 'Q'}.get(vt, 'J')
                T = SL.tab_layout(eng, ta['_Key'], ta['_Tp'])
                if key != 'J':
                    T = dict(T)
                    et = SL.targs(eng, eng.di.strip(ta['_Tp']))['_Tp']
                    self.elem_ty = dict(getattr(self, 'elem_ty', {}), **{key: (eng.di.size(et), eng.di.strip(et))})
                else:
                    self.job_ty = eng.di.strip(ta['_Tp'])
                out[key] = (off, T, kind)
            elif kind == 'unsigned long' or size == 8 and 'job_id' in tn:
                out['free'] = off
        if set(out) != {'J', 'Q', 'W', 'free'}:
            raise Unsupported('the tables of the pool')
        f = eng.di.all_fields(self.job_ty)
        h = eng.di.all_fields(eng.di.strip(f['handle'][2]))
        g = eng.di.all_fields(eng.di.strip(h['group'][2]))
        ho = f['handle'][0]
        self.handle_off = dict(id=h['id'][0], level=h['group'][0] + g['level'][0], priority=h['group'][0] + g['priority'][0])
        self.job_off = {k: ho + v for k, v in self.handle_off.items()}
        self.job_off.update(callable=f['callable'][0], future=f['callable_future'][0])
        tf = eng.di.all_fields(self.elem_ty['W'][1])
        self.wid_off = tf['id_'][0]
        self.shape_ = out
        return out

    def tab(self, st, lk, key):
        off, T, kind = self.shape(lk.recid)[key]
        return SL.map_at(self.eng, st, Ptr(lk.oid, lk.base + off), T, kind)

    def free(self, st, lk):
        return self.eng.load_at(st, lk.oid, lk.base + self.shape(lk.recid)['free'], 8)

    def entries(self, st, tab):
        return st.mem[tab].meta['entries']

    def queue(self, st, node):
        es, et = self.elem_ty['Q']
        return SL.vec_at(self.eng, st, Ptr(node, st.mem[node].ty[3]), es, et)

    def crew(self, st, node):
        es, et = self.elem_ty['W']
        return SL.vec_at(self.eng, st, Ptr(node, st.mem[node].ty[3]), es, et)

    def handle(self, st, e):
        o = self.handle_off
        return [self.eng.load_at(st, e, o[k], 8) for k in ('id', 'level', 'priority')]

    def pending(self, st, w):
        return self.eng.nonnull(st, w[2])

    # ------------------------------------------------------------ acquire
    def acquire(self, st, lk, why='lock'):
        eng, sp = self.eng, self.sp
        old = self.free(st, lk)
        sp.havoc_record(st, lk)
        new = self.free(st, lk)
        st.assume(B(And(ule(old, new), Not(eq(new, 0)), ult(new, 1 << 63))))
        J, Q, W = (self.tab(st, lk, k) for k in 'JQW')
        st.ghost['pool'] = (J, Q, W, new)
        st.ghost['pool_taken'] = ()
        self.install(st)
        out = []
        for s in self.split_job(st, lk):
            if not eng.alive(s):
                continue
            sp.ev(s, 'pool_acquired', lk)
            out += sp.contract.pool_cases(s, lk) if hasattr(sp.contract, 'pool_cases') else [s]
        return out

    def install(self, st):
        eng = self.eng
        J, Q, W, free = st.ghost['pool']
        qg = eng.fresh('queues')
        jg = eng.fresh('jobs')
        st.ghost['pool_gen'] = (st.mem[J].meta['gen'], st.mem[Q].meta['gen'], qg, jg)

        def jview(s, tab, key, node, pos):
            j = Job(self, s, node)
            s.assume(B(And(eq(j.id, key), ult(key, free), Not(eq(key, 0)))))
            s.assume(B(And(eng.nonnull(s, j.fut), eng.nonnull(s, j.pi))))
            s.assume(B(Implies(self.pending(s, j.words), eng.nonnull(s, j.words[3]))))
            s.assume(B(eq(FUTAT(jg, bv(pos)), j.fut)))
            for m in s.ghost.get('mine') or ():
                s.assume(B(Implies(eq(key, m), Not(self.pending(s, j.words)))))
            s.w(node).meta['job0'] = j

        def jabsent(s, tab, key):
            for m in s.ghost.get('mine') or ():
                s.assume(B(Not(eq(key, m))))

        def qview(s, tab, key, node, pos):
            v = self.queue(s, node)
            s.assume(B(eq(FILLED(qg, bv(key)), B(Not(eq(v.len, 0))))))

        def qabsent(s, tab, key):
            s.assume(B(Not(FILLED(qg, bv(key)))))

        def wview(s, tab, key, node, pos):
            v = self.crew(s, node)

            def ids(t, b, e, i):
                t.assume(B(Not(eq(eng.load_at(t, e.id, self.wid_off, 8), 0))))
            s.w(v.buf).meta['views'] = (ids,)
        for tab, v in ((J, jview), (Q, qview), (W, wview)):
            st.w(tab).meta['views'] = (v,)
        st.w(J).meta['absent_views'] = (jabsent,)
        st.w(Q).meta['absent_views'] = (qabsent,)

    def split_job(self, st, lk):
        """what is known of job K"""
        eng = self.eng
        K = self.sp.contract.job(st)
        st.ghost['k'] = None
        if K is None:
            return [st]
        J, Q, W, free = st.ghost['pool']
        out = []
        for s, e in SL.tab_find(eng, st, J, K):
            if e is None:
                s.ghost['k'] = ('absent', None)
                out.append(s)
                continue
            j = Job(self, s, e['node'])
            for s1, p in eng.split(s, self.pending(s, j.words)):
                s1.ghost['k'] = ('pending' if p else 'running', j)
                if not p:
                    out.append(s1)
                    continue
                for s2, q in SL.tab_find(eng, s1, Q, j.level):
                    if q is None:
                        continue
                    v = self.queue(s2, q['node'])
                    i = eng.fresh('entry')
                    s2.assume(B(ult(i, v.len)))
                    el = eng.buf_new_elem(s2, v.buf, i)
                    h = self.handle(s2, el)
                    s2.assume(B(And(eq(h[0], K), eq(h[1], j.level), eq(h[2], j.prio))))
                    out.append(s2)
        return out

    # ------------------------------------------------------------ loops
    def known(self, st, K):
        """('absent', None), ('there', entry) or None for a job of the table as it is now"""
        o = st.mem[st.ghost['pool'][0]]
        for e in o.meta['entries']:
            if same(e['key'], K):
                return ('there', e)
        if any(same(k, K) for k in o.meta['absent']) or not o.sym:
            return ('absent', None)
        for e in o.meta['entries']:
            if self.eng.must(st, eq(e['key'], K)):
                return ('there', e)
        return None

    def loop_head(self, st, lk):
        eng = self.eng
        J, Q, W, free = st.ghost['pool']
        if [self.tab(st, lk, k) for k in 'JQW'] != [J, Q, W]:
            raise Unsupported('a table of the pool is replaced in a loop')
        jg, qg = st.ghost['pool_gen'][:2]
        if jg == st.mem[J].meta['gen'] and qg == st.mem[Q].meta['gen']:
            return [st]
        keep = st.ghost['pool_gen']
        self.install(st)
        if qg == st.mem[Q].meta['gen']:
            st.ghost['pool_gen'] = st.ghost['pool_gen'][:2] + keep[2:]
        K = self.sp.contract.job(st)
        if K is None or self.known(st, K) is not None:
            return [st]
        return [s for s, e in SL.tab_find(eng, st, J, K) if eng.alive(s)]

    def candidates(self, lk, h0, M):
        eng = self.eng
        if not h0.ghost.get('pool') or lk.rec != self.REC:
            return []
        K = self.sp.contract.job(h0)
        out = []
        if K is None:
            return out
        ints = [(key, g) for key, g, bits in eng.int_locs(h0, M) if bits == 64]

        def same_job(t, e, j0):
            j = Job(self, t, e['node'])
            w = And(*[eng.ptr_eq(t, a, b) for a, b in zip(j.words[2:], j0.words[2:])]) if eng.must(t, self.pending(t, j0.words)) \
                else Not(self.pending(t, j.words))
            return And(w, eng.ptr_eq(t, j.fut, j0.fut), eng.ptr_eq(t, j.pi, j0.pi), eq(j.level, j0.level), eq(j.prio, j0.prio))

        def keep(t):
            k = t.ghost.get('k')
            n = self.known(t, K)
            if k is None or n is None:
                return None
            if k[0] == 'absent':
                return n[0] == 'absent'
            if n[0] == 'absent':
                return k[0] == 'pending' and bool(self.sp.contract.may_remove(t, K, True) is True)
            return same_job(t, n[1], k[1])
        out.append(('job K kept, or removed if it was pending', keep))

        def seen(g, fwd):
            def f(t):
                k = t.ghost.get('k')
                n = self.known(t, K)
                if k is None or n is None:
                    return None
                if k[0] != 'pending' or n[0] == 'absent':
                    return True
                return ule(g(t), n[1]['pos']) if fwd else ult(n[1]['pos'], g(t))
            return f
        for key, g in ints:
            out.append(('pending K removed or at >=%s' % (key,), seen(g, True)))
            out.append(('pending K removed or at <%s' % (key,), seen(g, False)))
        # the search for the fullest level
        Q = h0.ghost['pool'][1]

        def qpos(t):
            k = t.ghost.get('k')
            if k is None or k[0] != 'pending':
                return None
            for e in self.entries(t, Q):
                if same(e['key'], k[1].level):
                    return e['pos'], k[1].level
            return None
        lvl = self.sp.contract.worker_level(h0)
        if lvl is not None:
            for key, it in ints:
                def left(t, it=it):
                    q = qpos(t)
                    return True if q is None else Or(ult(q[1], lvl), ult(q[0], it(t)))
                out.append(('level of K below %s' % (key,), left))
            for key, sel in ints:
                out.append(('%s is the level or not empty' % (key,),
                            lambda t, g=sel: Or(eq(g(t), lvl), FILLED(t.ghost['pool_gen'][2], bv(g(t))))))
                for key2, it in ints:
                    if key2 == key:
                        continue

                    def best(t, sel=sel, it=it, fwd=True):
                        q = qpos(t)
                        if q is None:
                            return True
                        ahead = ule(it(t), q[0]) if fwd else ult(q[0], it(t))
                        return Or(ult(q[1], lvl), ahead, ule(q[1], sel(t)))
                    out.append(('%s best before %s' % (key, key2), best))
                    out.append(('%s best behind %s' % (key, key2), lambda t, f=best: f(t, fwd=False)))
        return out

    # ------------------------------------------------------------ changes under the lock
    def op(self, st, kind, tab, e):
        pool = st.ghost.get('pool')
        if not pool or tab != pool[0]:
            return
        eng, ct = self.eng, self.sp.contract
        if kind == 'ins':
            return
        if kind == 'clear':
            # one arbitrary job stands for all of them
            K = ct.job(st)
            n = self.known(st, K) if K is not None else None
            if n is None:
                raise Unsupported('all jobs are removed')
            if n[0] == 'absent':
                return
            key, j0 = K, Job(self, st, n[1]['node'])
        else:
            key, j0 = e['key'], st.mem[e['node']].meta.get('job0')
            if j0 is None:
                return
        for s, p in eng.split(st.fork(), self.pending(st, j0.words)):
            if p:
                eng.oblige(s, ct.may_remove(s, key, True), 'pending-job-not-dropped', ('P14', 'P16'),
                           'a pending job is removed without being run or stopped')
            else:
                eng.oblige(s, ct.may_remove(s, key, False), 'running-job-stays-known', ('P16',),
                           'a job that is running (not by this worker) is removed from the pool')
        self.sp.ev(st, 'job_removed', key, j0)

    def queued(self, st, key, j):
        """there is a queue entry for the job at its level and priority"""
        Q = st.ghost['pool'][1]
        alts = []
        for e in self.entries(st, Q):
            v = self.queue(st, e['node'])
            for i, el in st.mem[v.buf].meta['elems']:
                h = self.handle(st, el)
                alts.append(And(eq(e['key'], j.level), ult(i, v.len), eq(h[0], key), eq(h[1], j.level), eq(h[2], j.prio)))
        return Or(*alts) if alts else False

    # ------------------------------------------------------------ release
    def before_release(self, st, lk):
        """decides for every job whether it was taken"""
        pool = st.ghost.get('pool')
        sts = [st]
        if not pool:
            return sts
        for e in self.entries(st, pool[0]):
            j0 = st.mem[e['node']].meta.get('job0')
            if j0 is not None:
                p = Job(self, st, e['node']).words
                sts = [s1 for s in sts for s1, t in self.eng.split(s, And(self.pending(s, j0.words), Not(self.pending(s, p))))]
        return sts

    def release(self, st, lk, why='unlock'):
        eng, sp = self.eng, self.sp
        pool = st.ghost.get('pool')
        if not pool:
            return
        ct = sp.contract
        J, Q, W, free0 = pool
        ob = lambda s, c, n, t, d: eng.oblige(s, c, n, t, d)
        tabs = [self.tab(st, lk, k) for k in 'JQW']
        ob(st, tabs[0] == J, 'job-table-not-replaced', ('P14', 'P16'), 'the job table is replaced')
        if tabs[1] != Q:
            raise Unsupported('the queues of the pool are replaced')
        ob(st, tabs[2] == W or ct.may_stop_workers, 'workers-not-replaced', ('P14',), 'the workers of the pool are replaced')
        free = self.free(st, lk)
        ob(st, ule(free0, free), 'job-ids-not-reused', ('P14',), 'the next job id goes back')
        K = ct.job(st)
        taken = ()
        for e in self.entries(st, J):
            j = Job(self, st, e['node'])
            ob(st, eq(j.id, e['key']), 'job-carries-its-id', ('P14', 'P15', 'P16'), 'the entry of a job has another id')
            ob(st, ult(e['key'], free), 'job-id-below-next', ('P14',), 'a job id may be given out again')
            ob(st, And(eng.nonnull(st, j.fut), eng.nonnull(st, j.pi)), 'job-has-a-future', ('P16',), 'a job has no future to wait for')
            j0 = st.mem[e['node']].meta.get('job0')
            if j0 is None:
                ob(st, And(ule(free0, e['key']), Not(eq(e['key'], 0))), 'new-job-has-new-id', ('P14',), 'the id of a new job was given out before')
                ob(st, self.pending(st, j.words), 'new-job-is-pending', ('P14',), 'a job is added without its callable')
                ob(st, self.queued(st, e['key'], j), 'pending-job-is-queued', ('P14',), 'no queue entry for a new job at its priority')
                sp.ev(st, 'job_added', e['key'], j)
                continue
            ob(st, And(eng.ptr_eq(st, j.fut, j0.fut), eng.ptr_eq(st, j.pi, j0.pi)), 'job-keeps-its-future', ('P16',), 'the future of a job is replaced')
            p0, p = self.pending(st, j0.words), self.pending(st, j.words)
            ob(st, Implies(Not(p0), Not(p)), 'started-job-not-pending-again', ('P14',), 'a job that was started gets a callable again')
            ob(st, Implies(And(p0, p), And(*[eng.ptr_eq(st, a, b) for a, b in zip(j.words, j0.words)])), 'job-keeps-its-callable', ('P14',),
               'the callable of a pending job is replaced')
            same_group = And(eq(j.level, j0.level), eq(j.prio, j0.prio))
            ob(st, Or(same_group, ct.may_regroup(st, e['key'], j, p0)), 'priority-changed-on-request', ('P15',), 'the priority of a job changes unasked')
            if not eng.must(st, same_group):
                ob(st, Implies(And(p, Not(same_group)), self.queued(st, e['key'], j)), 'pending-job-is-queued', ('P14', 'P15'),
                   'no queue entry for a pending job at its current priority')
            t = eng.split(st, And(p0, Not(p)))
            if len(t) != 1:
                raise Unsupported('cannot tell whether a job is taken')
            if t[0][1]:
                taken += ((e['key'], j0),)
        ob(st, len(taken) <= (1 if ct.may_take else 0), 'takes-one-job', ('P14',), 'more than one job is taken, or a job is taken outside a worker')
        if K is not None:
            n = self.known(st, K)
            k = st.ghost['k']
            if n is None:
                raise Unsupported('what became of job K')
            if why != 'loop':
                ob(st, Or(n[0] == 'there', k[0] == 'absent', k[0] == 'pending' and ct.may_remove(st, K, True),
                          k[0] == 'running' and ct.may_remove(st, K, False)), 'job-not-lost', ('P14', 'P16'), 'a job disappears from the pool')
                if n[0] == 'there' and k[0] != 'absent':
                    j = Job(self, st, n[1]['node'])
                    ob(st, Implies(self.pending(st, j.words), self.queued(st, K, j)), 'pending-job-is-queued', ('P14',),
                       'no queue entry is left for a pending job at its current priority')
                    ob(st, eng.ptr_eq(st, j.fut, k[1].fut), 'job-keeps-its-future', ('P16',), 'the future of a job is replaced')
        if why == 'loop':
            if taken:
                raise Unsupported('jobs are taken in a loop')
            return
        st.ghost['pool_taken'] = taken
        sp.ev(st, 'pool_released', lk, taken, why)
