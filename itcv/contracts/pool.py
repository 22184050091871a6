"""Contracts of the thread pool (thread_pool.h, thread_pool.cpp)."""
import re

import z3

from ..engine import Ptr, FPtr, VecVal, And, Or, Not, Implies, B, bv, eq, ult, ule, add, sub, same, Unsupported
from .. import stdlib as SL
from ..pool import Pool, Job, FUTAT
from ..monitors import weq
from .tasks import Task

RET = 'ret'


class PoolCall(Task):
    """functions of a pool, looked at for one arbitrary job K"""
    props = ('P04', 'P14', 'P15', 'P16', 'P20')
    safe = ('P14', 'P15', 'P16')
    uses = Task.uses + ('check_jobs', 'future_wait', 'notify_for_exit')
    guarded = True

    def mon(self):
        return self.sp.monitors[Pool.REC]

    def pool(self, st):
        """a pool object; K and a worker of it"""
        self.fresh_run(st)
        self.K = self.eng.fresh('job')
        self.group = [self.eng.fresh('level'), self.eng.fresh('priority')]
        st.ghost.update(asked=False, pushed=(), ran=(), waits=(), mine=(), removed=(), added=(), acquired=0, destroyed=0, k_future=None)
        self.w_level, self.w_idx, self.w_id = self.eng.fresh('worker.level'), self.eng.fresh('worker.index'), self.eng.fresh('worker.id')
        p = self.local_obj(st, 'tpp::thread_pool', 'pool')
        rec = self.eng.di.rec('tpp::thread_pool')
        self.impl = self.sym_obj(st, Pool.REC, 'impl')
        st.w(p.obj).cells[p.off + self.sp.field(rec, 'impl_')[0]] = (8, self.impl)
        self.pool_obj = p
        return p

    def job(self, st):
        return self.K

    def is_impl(self, st, p):
        return self.eng.ptr_eq(st, p, self.impl)

    # --- events
    def ev_pool_acquired(self, st, lk):
        st.ghost['acquired'] += 1
        st.ghost['asked'] = False

    asks = False           # does the call have to ask workers?

    def pool_cases(self, st, lk):
        """one arbitrary worker (if there is one)"""
        if not self.asks:
            st.ghost['worker'] = None
            return [st]
        eng, mon = self.eng, self.mon()
        W = st.ghost['pool'][2]
        out = []
        for s, e in SL.tab_find(eng, st, W, self.w_level):
            s.ghost['worker'] = None
            if e is None:
                out.append(s)
                continue
            v = mon.crew(s, e['node'])
            for s1, inr in eng.split(s, ult(self.w_idx, v.len)):
                if inr:
                    el = eng.buf_new_elem(s1, v.buf, self.w_idx)
                    s1.assume(B(eq(eng.load_at(s1, el, mon.wid_off, 8), self.w_id)))
                    s1.ghost['worker'] = (W, e['node'], v.buf)
                out.append(s1)
        return out

    def ev_pq_push(self, st, q, v, el):
        h = self.mon().handle(st, el)
        st.ghost['pushed'] += (tuple(h),)

    def ev_launched(self, st, ident, w, ok):
        """a request queued on a worker: it makes the worker look for jobs of its own level"""
        if 'later' in st.ghost:
            return
        s = st.fork()
        s.ghost = dict(s.ghost)
        s.ghost.update(checks=(), later=True)
        s.locks = ()
        outs = []
        for s1 in self.other_thread(s):
            for s2, kind, val in self.run_stored(s1, self.stored(s1, w)):
                outs.append((s2, kind))
                cs = s2.ghost['checks']
                self.oblige(s2, len(cs) == 1 and kind == RET, 'request-looks-for-jobs', ('P14',), 'a request to a worker does not look for jobs exactly once')
        lv = [s2.ghost['checks'][0] for s2, k in outs if len(s2.ghost['checks']) == 1]
        if not lv:
            return
        this, level = lv[0]
        if not all(same(level, x[1]) for x in lv):
            raise Unsupported('level a worker is asked to look at')
        self.oblige(st, And(*[self.is_impl(st, x[0]) for x in lv]), 'request-for-this-pool', ('P14',), 'a worker is asked to look at another pool')
        self.oblige(st, self.has_worker(st, ident, level), 'worker-asked-for-its-level', ('P15',), 'a worker is asked to look for jobs of another level than its own')
        st.ghost['asked'] = Or(st.ghost['asked'], And(eq(ident, self.w_id), eq(level, self.w_level)))

    def has_worker(self, st, ident, level):
        mon = self.mon()
        W = st.ghost['pool'][2]
        alts = []
        for e in mon.entries(st, W):
            v = mon.crew(st, e['node'])
            for i, el in st.mem[v.buf].meta['elems']:
                alts.append(And(eq(e['key'], level), ult(i, v.len), eq(self.eng.load_at(st, el, mon.wid_off, 8), ident)))
        return Or(*alts) if alts else False

    def ev_checked(self, st, this, level):
        if 'checks' in st.ghost:
            st.ghost['checks'] += ((this, level),)
        else:
            self.oblige(st, False, 'no-check-by-caller', ('P14',), 'a caller looks for jobs itself')

    def ev_pool_released(self, st, lk, taken, why):
        pushed = st.ghost['pushed']
        if len(pushed) > 1:
            raise Unsupported('several queue entries are added in one step')
        if pushed and st.ghost['worker'] is not None:
            self.oblige(st, Or(ult(pushed[0][1], self.w_level), st.ghost['asked']), 'eligible-workers-are-asked', ('P14',),
                        'a worker that may run the new job is not asked to look for it')
        st.ghost['pushed'] = ()
        st.ghost['k_last'] = self.mon().known(st, self.K) if self.job(st) is not None else None

    def ev_job_removed(self, st, key, j0):
        st.ghost['removed'] += ((key, j0),)

    def ev_job_added(self, st, key, j):
        st.ghost['added'] += ((key, j),)

    def ev_waited_for(self, st, p):
        st.ghost['waits'] += (p,)

    def ev_destroy(self, st, w, fv):
        k = st.ghost.get('k')
        if k and k[1] is not None:
            st.ghost['destroyed'] = add(st.ghost['destroyed'], z3.If(B(And(self.eng.ptr_eq(st, w, k[1].words[0]), self.eng.ptr_eq(st, fv, k[1].words[2]))), z3.BitVecVal(1, 64), z3.BitVecVal(0, 64)))

    def user_call(self, st, w, fv, name, args, rty):
        if 'config' in name:
            return super().user_call(st, w, fv, name, args, rty)
        self.oblige(st, False, 'runs-no-job', ('P14', 'P16'), 'a job is run by a thread that is not a worker')
        return [(st, RET, None)]

    def last_release(self, st, pi):
        return [st]

    # --- loops over the workers
    def loop_candidates(self, s0, h0, M, fn, header):
        out = []
        w = h0.ghost.get('worker')
        pushed = h0.ghost.get('pushed')
        if not w or not self.asks or not h0.locks:
            return out
        W, node, buf = w
        L = pushed[0][1] if pushed else self.group[0]
        done = lambda t: Or(t.ghost['asked'], ult(L, self.w_level))
        pos = lambda t: [e['pos'] for e in t.mem[W].meta['entries'] if e['node'] == node][0]

        def outer(t, skip=()):
            """where the loops over the levels are"""
            return [(o.id, off) for o in t.mem.values() if o.kind == 'alloca' for off, (sz, v) in o.cells.items()
                    if isinstance(v, Ptr) and v.obj == W and v.idx is not None]
        for oid, off in outer(h0):
            P = lambda t, oid=oid, off=off: t.mem[oid].cells[off][1].idx
            out.append(('asked or level at >=%d' % oid, lambda t, P=P: Or(done(t), ule(P(t), pos(t)))))
            for key, g, bits in self.eng.int_locs(h0, M):
                if bits == 64:
                    out.append(('asked or worker at >=%d,%s' % (oid, key),
                                lambda t, P=P, g=g: Or(done(t), ult(P(t), pos(t)), And(eq(P(t), pos(t)), ule(g(t), self.w_idx)))))
                    out.append(('asked or worker below %d,%s' % (oid, key),
                                lambda t, P=P, g=g: Or(done(t), ult(P(t), pos(t)), And(eq(P(t), pos(t)), ult(self.w_idx, g(t))))))
        return out

    def havoc_ghost(self, name, g0):
        if name in ('checks', 'removed'):
            return ()
        return super().havoc_ghost(name, g0)

    def ensures(self, st, kind, val):
        self.oblige(st, kind == RET, 'no-exception', ('P14', 'P16'), 'an exception leaves the call')
        if kind == RET:
            self.done(st, val)

    def k_was(self, st):
        return st.ghost['k'][0]

    def k_there(self, st):
        n = st.ghost['k_last']
        if n is None:
            raise Unsupported('what became of job K')
        return n[0] == 'there'


class ByJob(PoolCall):
    """functions for one job: K is that job or another one"""

    def args(self, st):
        return []

    def setup(self, st):
        p = self.pool(st)
        self.id = self.eng.fresh('id')
        a = [p, self.id] + self.args(st)
        return [(s, a) for s in self.tls_setup(st)]

    def mine(self):
        return eq(self.K, self.id)


class Stop(ByJob):
    top = 'tpp::thread_pool::stop'

    def may_remove(self, st, key, pending):
        return eq(key, self.id) if pending else False

    def done(self, st, val):
        self.oblige(st, st.ghost['acquired'] >= 1, 'looks-at-the-jobs', ('P16',), 'the job table is not looked at')
        if not st.ghost['acquired']:
            return
        if self.k_was(st) == 'pending':
            self.oblige(st, Implies(self.mine(), not self.k_there(st)), 'pending-job-is-stopped', ('P16',), 'a pending job is not stopped')
            self.oblige(st, Implies(self.mine(), eq(st.ghost['destroyed'], 1)), 'stopped-job-is-dropped', ('P16',),
                        'the callable of a stopped job is not destroyed (its future does not break)')
        elif self.k_was(st) == 'running':
            self.oblige(st, self.k_there(st), 'running-job-not-stopped', ('P16',), 'a running job is removed')


class StopAll(PoolCall):
    top = 'tpp::thread_pool::stop_all'

    def setup(self, st):
        a = [self.pool(st)]
        return [(s, a) for s in self.tls_setup(st)]

    def may_remove(self, st, key, pending):
        return bool(pending)

    def done(self, st, val):
        self.oblige(st, st.ghost['acquired'] >= 1, 'looks-at-the-jobs', ('P16',), 'the job table is not looked at')
        if not st.ghost['acquired']:
            return
        if self.k_was(st) == 'pending':
            self.oblige(st, not self.k_there(st), 'pending-job-is-stopped', ('P16',), 'a pending job is not stopped')
        elif self.k_was(st) == 'running':
            self.oblige(st, self.k_there(st), 'running-job-not-stopped', ('P16',), 'a running job is removed')


class ChangePriority(ByJob):
    top = 'tpp::thread_pool::change_priority'

    def args(self, st):
        return list(self.group)

    def may_regroup(self, st, key, j, pending):
        # what is noted for a running job is not looked at any more
        return And(eq(key, self.id), eq(j.level, self.group[0]), eq(j.prio, self.group[1]))

    def done(self, st, val):
        self.oblige(st, st.ghost['acquired'] >= 1, 'looks-at-the-jobs', ('P15',), 'the job table is not looked at')
        if not st.ghost['acquired']:
            return
        if self.k_was(st) == 'pending':
            self.oblige(st, self.k_there(st), 'job-stays-pending', ('P15', 'P14'), 'the job is removed')
            if self.k_there(st):
                j = Job(self.mon(), st, st.ghost['k_last'][1]['node'])
                self.oblige(st, Implies(self.mine(), And(eq(j.level, self.group[0]), eq(j.prio, self.group[1]))), 'priority-is-changed', ('P15',),
                            'a pending job does not get the new level and priority')


class ChangePriorityAsks(ChangePriority):
    """the same, looked at for one arbitrary worker instead of a job"""
    asks = True

    def job(self, st):
        return None

    def done(self, st, val):
        pass


class Count(PoolCall):
    top = 'tpp::thread_pool::get_jobs_count'

    def setup(self, st):
        a = [self.pool(st)]
        return [(s, a) for s in self.tls_setup(st)]

    def ev_pool_acquired(self, st, lk):
        super().ev_pool_acquired(st, lk)
        st.ghost['count'] = st.mem[st.ghost['pool'][0]].meta['size']

    def done(self, st, val):
        self.oblige(st, eq(val, st.ghost['count']) if 'count' in st.ghost else False, 'counts-the-jobs', ('P16',),
                    'the result is not the number of jobs pending or running')


class Wait(ByJob):
    top = 'tpp::thread_pool::wait'

    def done(self, st, val):
        self.oblige(st, st.ghost['acquired'] >= 1, 'looks-at-the-jobs', ('P16',), 'the job table is not looked at')
        if not st.ghost['acquired'] or self.k_was(st) == 'absent':
            return
        fut = st.ghost['k'][1].fut
        self.oblige(st, Implies(self.mine(), Or(*[self.eng.ptr_eq(st, p, fut) for p in st.ghost['waits']])), 'waits-for-the-job', ('P16',),
                    'does not wait for the job although it is pending or running')


class WaitAll(PoolCall):
    """waits for every job of the table; the list that is built holds the future of the j-th job at place j"""
    top = 'tpp::thread_pool::wait_all'

    def setup(self, st):
        a = [self.pool(st)]
        st.ghost['k_waited'] = False
        return [(s, a) for s in self.tls_setup(st)]

    def ev_waited_for(self, st, p):
        k = st.ghost.get('k')
        if k and k[1] is not None:
            st.ghost['k_waited'] = Or(st.ghost['k_waited'], self.eng.ptr_eq(st, p, k[1].fut))

    def bufs(self, st, M):
        return [m[1] for m in M if m[0] == 'buf' and m[1] in st.mem and st.mem[m[1]].meta.get('esize') == 16]

    def listed(self, st, e, j):
        f = self.eng.load_at(st, e, 0, 8)
        return And(self.eng.ptr_eq(st, f, FUTAT(st.ghost['pool_gen'][3], bv(j))), self.eng.nonnull(st, f))

    def loop_head(self, st, s0, fn, header, M):
        if 'pool_gen' not in st.ghost:
            return
        for b in self.bufs(st, M):
            def view(s, bo, e, i):
                s.assume(B(self.listed(s, e.id, i)))
            st.w(b).meta['views'] = (view,)

    def loop_end(self, st, head, fn, header, M):
        if 'pool_gen' not in st.ghost:
            return
        bs = self.bufs(st, M)
        for oid, o in list(st.mem.items()):
            for off, (sz, v) in list(o.cells.items()):
                if isinstance(v, VecVal) and v.buf in bs:
                    j = self.eng.fresh('j')
                    s = st.fork()
                    s.assume(B(ult(j, v.len)))
                    if not self.eng.alive(s):
                        continue
                    for s2, e in self.eng.buf_elem(s, v.buf, j):
                        self.oblige(s2, self.listed(s2, e, j), 'futures-are-listed', ('P16',), 'the list of futures to wait for does not follow the jobs')

    def k_pos(self, st):
        n = self.mon().known(st, self.K)
        return n[1]['pos'] if n is not None and n[0] == 'there' else None

    def loop_candidates(self, s0, h0, M, fn, header):
        out = super().loop_candidates(s0, h0, M, fn, header)
        k = h0.ghost.get('k')
        if not k or k[1] is None or 'pool' not in h0.ghost:
            return out
        for key, g, bits in self.eng.int_locs(h0, M):
            if bits == 64:
                out.append(('waited or ahead at %s' % (key,), lambda t, g=g: Or(t.ghost['k_waited'], ule(g(t), self.k_pos(t)))))
                out.append(('waited or behind %s' % (key,), lambda t, g=g: Or(t.ghost['k_waited'], ult(self.k_pos(t), g(t)))))
        return out

    def done(self, st, val):
        self.oblige(st, st.ghost['acquired'] >= 1, 'looks-at-the-jobs', ('P16',), 'the job table is not looked at')
        if not st.ghost['acquired'] or self.k_was(st) == 'absent':
            return
        self.oblige(st, st.ghost['k_waited'], 'waits-for-the-job', ('P16',), 'does not wait for a job although it is pending or running')


class CheckJobs(PoolCall):
    """what a worker does when it was asked to look for jobs"""
    top = 'tpp::thread_pool::impl::check_jobs'
    registered = True
    may_take = True
    uses = tuple(u for u in PoolCall.uses if u != 'check_jobs')

    def setup(self, st):
        self.pool(st)
        st.ghost.update(pops=(), ran=(), owed=())
        a = [self.impl, self.group[0]]
        return [(s, a) for s in self.tls_setup(st)]

    def worker_level(self, st):
        return self.group[0]

    def ev_pq_pop(self, st, q, v, el):
        st.ghost['pops'] += ((q, v, el, tuple(self.mon().handle(st, el)), st.mem[q.obj].cells[0][1]),)

    def may_remove(self, st, key, pending):
        if pending:
            return False
        return Or(*[eq(key, m) for m in st.ghost['ran']])

    def ev_pool_released(self, st, lk, taken, why):
        super().ev_pool_released(st, lk, taken, why)
        pops = st.ghost['pops']
        for key, j0 in taken:
            self.oblige(st, ule(self.group[0], j0.level), 'worker-keeps-to-its-level', ('P15',), 'a worker takes a job of a lower level')
            st.ghost['mine'] += (key,)
            st.ghost['owed'] += ((key, tuple(j0.words)),)
        if st.ghost['acquired'] > 1:
            return
        self.oblige(st, len(pops) <= 1, 'takes-one-entry', ('P14',), 'more than one queue entry is removed for one request')
        self.oblige(st, Implies(bool(taken), len(pops) == 1), 'taken-job-leaves-its-queue', ('P14',), 'the entry of a job that is started stays in the queue')
        k = st.ghost['k']
        if k[0] == 'pending':
            low = ult(k[1].level, self.group[0])
            self.oblige(st, Or(low, len(pops) >= 1), 'pending-job-is-found', ('P14', 'P15'), 'a worker leaves although a job of its level or above is queued')
            for q, v, el, h, key in pops:
                # the level of the queue it was taken from
                self.oblige(st, Or(low, ule(k[1].level, key)), 'highest-level-first', ('P15',), 'a job is taken although one of a higher level is queued')
                self.oblige(st, Or(low, Not(eq(k[1].level, key)), ule(k[1].prio, h[2])), 'highest-priority-first', ('P15',),
                            'a job is taken although one of a higher priority is queued at the same level')
        for q, v, el, h, key in pops:
            self.oblige(st, ule(self.group[0], key), 'looks-at-its-level-and-above', ('P15',), 'a worker takes an entry of a lower level')
            # the job that is taken is the one of the entry
            for tk, j0 in taken:
                self.oblige(st, eq(tk, h[0]), 'takes-the-selected-job', ('P14', 'P15'), 'a job other than the selected one is taken')

    def user_call(self, st, w, fv, name, args, rty):
        if 'config' in name:
            return Task.user_call(self, st, w, fv, name, args, rty)
        owed = st.ghost['owed']
        ok = Or(*[And(self.eng.ptr_eq(st, w, W[0]), self.eng.ptr_eq(st, fv, W[3])) for k, W in owed])
        self.oblige(st, ok, 'runs-only-the-taken-job', ('P14',), 'something is run that was not taken from the pending jobs just now (or a second time)')
        st.ghost['ran'] += tuple(k for k, W in owed)
        st.ghost['owed'] = ()
        return [(st, RET, None)]

    def done(self, st, val):
        self.oblige(st, not st.ghost['owed'], 'taken-job-is-run', ('P14',), 'a job is taken and not run')
        if not st.ghost['acquired']:
            self.oblige(st, Not(eq(self.sp.get(st, self.sp.owner_obj(st), 0, self.ctx_rec(), 'exit'), 0)), 'looks-for-jobs', ('P14',),
                        'a worker does not look for jobs although it was not asked to exit')
        for m in st.ghost['ran']:
            gone = Or(*[eq(m, k) for k, j in st.ghost['removed']])
            self.oblige(st, gone, 'finished-job-is-forgotten', ('P16',), 'a finished job stays in the pool')


class AddJob(PoolCall):
    """the job that is added runs the task given, once; its own future becomes ready when that is over or when it is dropped"""
    top = 'tpp::thread_pool::add_job'
    T = 'void'

    def setup(self, st):
        p = self.pool(st)
        self.task = self.local_obj(st, 'std::function<void ()>', 'task')
        self.w0 = [self.eng.load_at(st, self.task.obj, 8 * i, 8) for i in range(4)]
        st.assume(B(And(Not(eq(self.w0[2], 0)), Not(eq(self.w0[3], 0)))))
        st.ghost['user_runs'] = 0
        a = [p, self.task] + self.group
        return [(s, a) for s in self.tls_setup(st)]

    def is_task(self, st, w, fv, k):
        return And(*([self.eng.ptr_eq(st, fv, self.w0[k])] + ([self.eng.ptr_eq(st, w, self.w0[0])] if w is not None else [])))

    def user_call(self, st, w, fv, name, args, rty):
        if 'config' in name or 'later' not in st.ghost:
            return super().user_call(st, w, fv, name, args, rty)
        self.oblige(st, self.is_task(st, w, fv, 3), 'job-runs-the-task', ('P14', 'P09'), 'the job runs something else than the task given')
        self.oblige(st, st.ghost['user_runs'] == 0, 'job-runs-the-task-once', ('P14', 'P09'), 'the job runs its task twice')
        st.ghost['user_runs'] += 1
        bad = st.fork()
        r = self.throw(bad)
        bad.ghost['threw'] = r[2]
        return [(st, RET, None), r]

    def ev_destroy(self, st, w, fv):
        if 'later' in st.ghost:
            st.ghost['destroyed'] = add(st.ghost['destroyed'], z3.If(B(self.is_task(st, w, fv, 2)), z3.BitVecVal(1, 64), z3.BitVecVal(0, 64)))

    def done(self, st, val):
        added = st.ghost['added']
        self.oblige(st, len(added) == 1, 'one-job-is-added', ('P14',), 'not exactly one job is added')
        if len(added) != 1:
            return
        key, j = added[0]
        self.oblige(st, eq(val, key), 'returns-the-id', ('P14', 'P16'), 'the returned id is not the one of the new job')
        self.oblige(st, And(eq(j.level, self.group[0]), eq(j.prio, self.group[1])), 'job-has-its-priority', ('P15',), 'the job does not get the level and priority asked for')
        self.oblige(st, self.eng.isnull(st, self.eng.load_at(st, self.task.obj, 16, 8)), 'task-is-taken-over', ('P14',), 'the task stays with the caller as well')
        if isinstance(j.fut, Ptr):
            st.ghost['result'] = j.fut.obj
        for run in (True, False):
            for s in self.other_thread(st.fork()):
                s.ghost.update(later=True, made=(), destroyed=0, user_runs=0, threw=None)
                p = self.stored(s, j.words)
                outs = self.run_stored(s, p) if run else [(s, RET, None)]
                for s2, kind, v in outs:
                    self.oblige(s2, kind == RET, 'exception-stays-in-the-future', ('P09', 'P14'), 'an exception of a job escapes into the worker')
                    if kind != RET:
                        continue
                    for s3, k3, v3 in self.drop_stored(s2, p):
                        self.oblige(s3, k3 == RET, 'no-exception', ('P14',), 'destroying a job throws')
                        self.oblige(s3, s3.ghost['user_runs'] == (1 if run else 0), 'job-runs-the-task', ('P14', 'P09'),
                                    'the job does not run its task (or dropping it runs it)')
                        self.oblige(s3, eq(s3.ghost['destroyed'], 1), 'dropped-job-drops-its-task', ('P16', 'P08'), 'the task of a job that is gone is not destroyed')
                        f = j.fut if isinstance(j.fut, Ptr) else None
                        self.oblige(s3, f is not None and Not(eq(self.status(s3, f.obj), 0)), 'job-future-gets-ready', ('P16',),
                                    'the future that wait() looks at is not ready after the job ran or was dropped')


class AddJobAsks(AddJob):
    """the same, looked at for one arbitrary worker instead of a job"""
    asks = True

    def job(self, st):
        return None

    def done(self, st, val):
        pass


class Schedule(Task):
    props = ('P04', 'P08', 'P09', 'P14', 'P15', 'P16', 'P20')
    safe = ('P09', 'P14')
    uses = Task.uses + ('add_job',)
    top = 'tpp::thread_pool::schedule'
    sig = r'schedule<itcv::F, itcv::U>\(tpp::priority::group, '
    name = 'tpp::thread_pool::schedule(group, f, args)'
    with_group = True

    def setup(self, st):
        self.fresh_run(st)
        st.ghost['given'] = ()
        self.out = self.out_obj(st, 40, 'future')
        self.pool_obj = self.local_obj(st, 'tpp::thread_pool', 'pool')
        rec = self.eng.di.rec('tpp::thread_pool')
        o = self.sp.field(rec, 'sentinel_')[0]
        self.sentinel = [self.eng.load_at(st, self.pool_obj.obj, o + k, 8) for k in (0, 8)]
        st.assume(B(And(*[Not(eq(x, 0)) for x in self.sentinel])))
        self.group = [self.eng.fresh('level'), self.eng.fresh('priority')]
        a = [self.out, self.pool_obj] + (self.group if self.with_group else [])
        a += [self.callable_args(st), self.value_arg(st)]
        return [(s, a) for s in self.tls_setup(st)]

    def ev_job_given(self, st, this, w, group, i):
        st.ghost['given'] += ((this, tuple(w), tuple(group), i),)

    def last_release(self, st, pi):
        return [st]

    def ensures(self, st, kind, val):
        self.oblige(st, kind == RET, 'no-exception', ('P09', 'P14'), 'an exception leaves the call')
        if kind != RET:
            return
        given = st.ghost['given']
        self.oblige(st, len(given) == 1 and not st.ghost['calls'] and not st.ghost['launched'] and not st.ghost['threads'], 'one-job-is-added', ('P14', 'P09'),
                    'the callable is run by the caller, or not exactly one job is added')
        if len(given) != 1:
            return
        this, w, group, i = given[0]
        eng = self.eng
        self.oblige(st, eng.ptr_eq(st, this, self.pool_obj), 'added-to-this-pool', ('P14',), 'the job is added to another pool')
        want = self.group if self.with_group else [0, 0]
        self.oblige(st, And(*[eq(a, b) for a, b in zip(group, want)]), 'job-has-its-priority', ('P15',), 'the job does not get the level and priority asked for')
        f = eng.di.all_fields(eng.di.rec('tpp::job_future_storage'))
        base = 16
        self.oblige(st, eq(eng.load_at(st, self.out.obj, base + f['id'][0], 8), i), 'future-knows-its-job', ('P16',), 'the future does not carry the id of its job')
        self.oblige(st, And(*[eng.ptr_eq(st, eng.load_at(st, self.out.obj, base + f['sentinel_'][0] + k, 8), x) for k, x in zip((0, 8), self.sentinel)]),
                    'future-knows-its-pool', ('P16',), 'the future cannot reach the pool of its job')
        p = self.result_state(st)
        self.oblige(st, p is not None, 'future-has-a-state', ('P09',), 'the returned future has no state')
        if p is None:
            return
        st.ghost['result'] = p.obj
        self.after_queued(st, w)


class ScheduleVoid(Schedule):
    sig = r'schedule<itcv::G, itcv::U>\(tpp::priority::group, '
    name = 'tpp::thread_pool::schedule(group, f, args) for void results'
    fn_cls = 'G'
    T = 'void'


class ScheduleDefault(Schedule):
    sig = r'schedule<itcv::F, itcv::U>\(itcv::F&&, '
    name = 'tpp::thread_pool::schedule(f, args)'
    with_group = False


class JobHandle(Task):
    """job_future::stop and change_priority reach the pool as long as it is there"""
    props = ('P04', 'P16', 'P20')
    safe = ('P16',)
    uses = Task.uses + ('pool_stop', 'pool_change_priority')
    what = None

    def setup(self, st):
        self.fresh_run(st)
        st.ghost.update(done=(), locked=None)
        self.h = self.local_obj(st, 'tpp::job_future_storage', 'handle')
        f = self.eng.di.all_fields(self.eng.di.rec('tpp::job_future_storage'))
        self.id = self.eng.load_at(st, self.h.obj, self.h.off + f['id'][0], 8)
        o = self.h.off + f['sentinel_'][0]
        self.sent, self.pi = (self.eng.load_at(st, self.h.obj, o + k, 8) for k in (0, 8))
        self.group = [self.eng.fresh('level'), self.eng.fresh('priority')]
        self.owner = self.eng.fresh('pool')
        st.assume(self.owner != 0)
        out = []
        for s, nul in self.eng.split(st, eq(self.pi, 0)):
            if not nul:
                # while the sentinel lives it points to the pool
                c = self.eng.new_obj(s, 'sym', 8, name='sentinel')
                self.eng.store_at(s, self.h.obj, o, 8, Ptr(c.id, 0))
                self.eng.store_at(s, c.id, 0, 8, self.owner)
            out += [(t, [self.h] + (self.group if self.what == 'change_priority' else [])) for t in self.tls_setup(s)]
        return out

    def last_release(self, st, pi):
        return [st]

    def ev_weak_lock(self, st, pi, ok):
        st.ghost['locked'] = ok

    def ev_pool_stop(self, st, this, i):
        st.ghost['done'] += (('stop', this, i, ()),)

    def ev_pool_change_priority(self, st, this, i, group):
        st.ghost['done'] += (('change_priority', this, i, tuple(group)),)

    def ensures(self, st, kind, val):
        self.oblige(st, kind == RET, 'no-exception', ('P16',), 'an exception leaves the call')
        done = st.ghost['done']
        if st.ghost['locked'] is not True:
            self.oblige(st, not done, 'nothing-without-the-pool', ('P16',), 'a pool that is gone is used')
            self.oblige(st, Or(eq(self.pi, 0), st.ghost['locked'] is False), 'pool-is-looked-up', ('P16',), 'the pool is not looked for')
            return
        self.oblige(st, len(done) == 1, 'reaches-the-pool', ('P16',), 'the pool is not told')
        for what, this, i, g in done:
            self.oblige(st, And(what == self.what, self.eng.ptr_eq(st, this, self.owner), eq(i, self.id), *[eq(a, b) for a, b in zip(g, self.group)]),
                        'tells-the-pool-of-its-job', ('P16',), 'the wrong pool, job or request is passed on')


class JobStop(JobHandle):
    top = 'tpp::job_future_storage::stop'
    what = 'stop'


class JobChangePriority(JobHandle):
    top = 'tpp::job_future_storage::change_priority'
    what = 'change_priority'


class HandleDrop(JobHandle):
    """a job future that goes away leaves its job alone"""
    props = ('P16', 'P05', 'P20')
    src = 'job_future'

    def setup(self, st):
        self.fresh_run(st)
        st.ghost.update(done=(), locked=None)
        self.h = self.holder(st, self.src, 'future')
        return [(s, [self.h]) for s in self.tls_setup(st)]

    def ensures(self, st, kind, val):
        self.oblige(st, kind == RET, 'no-exception', ('P16',), 'the destructor throws')
        self.oblige(st, not st.ghost['done'], 'job-is-left-alone', ('P16',), 'the job is stopped or changed as its future goes away')
        self.oblige(st, not st.ghost['made'], 'no-effect', ('P05',), 'the result is changed')


class HandleMove(Task):
    """moving, copying and sharing job futures keeps the result, the id and the link to the pool"""
    props = ('P16', 'P07', 'P05', 'P20')
    safe = ('P16', 'P07')
    src, dst = 'job_future', 'job_future'
    moves = True
    returned = False

    def parts(self, st, p):
        f = self.eng.di.all_fields(self.eng.di.rec('tpp::job_future_storage'))
        return [self.eng.load_at(st, p.obj, p.off + o, 8) for o in (0, 8, 16 + f['id'][0], 16 + f['sentinel_'][0], 16 + f['sentinel_'][0] + 8)]

    def setup(self, st):
        self.fresh_run(st)
        self.b = self.holder(st, self.src, 'other')
        self.a = self.out_obj(st, 40, 'future') if self.returned else self.holder(st, self.dst, 'future')
        self.was = self.parts(st, self.b)
        return [(s, [self.a, self.b]) for s in self.tls_setup(st)]

    def last_release(self, st, pi):
        return [st]

    def ensures(self, st, kind, val):
        eng = self.eng
        self.oblige(st, kind == RET, 'no-exception', ('P07', 'P16'), 'an exception leaves the call')
        now, src = self.parts(st, self.a), self.parts(st, self.b)
        same_ = lambda x, y, r: And(*[eng.ptr_eq(st, x[i], y[i]) for i in r])
        self.oblige(st, same_(now, self.was, (0, 1)), 'refers-to-the-result', ('P07',), 'the new future does not refer to the result of the old one')
        self.oblige(st, And(eq(now[2], self.was[2]), same_(now, self.was, (3, 4))), 'refers-to-the-job', ('P16',), 'the new future does not reach the job of the old one')
        if self.moves:
            self.oblige(st, eng.isnull(st, src[0]), 'source-gives-up-its-result', ('P07',), 'a unique future is valid twice')
        else:
            self.oblige(st, And(same_(src, self.was, (0, 1, 3, 4)), eq(src[2], self.was[2])), 'source-is-left-alone', ('P07', 'P16'), 'copying a shared future changes it')
        self.oblige(st, not st.ghost['made'], 'no-effect', ('P05',), 'the result is changed')


def handle_contracts():
    out = []
    for T, tag in (('itcv::U', ''), ('void', 'Void')):
        for cname, fn, src, dst, sig, moves, ret in (
                ('JobShare', 'job_future::share', 'job_future', 'job_shared_future', r'share\(\)', True, True),
                ('JobSharedFrom', 'job_shared_future::job_shared_future', 'job_future', 'job_shared_future', r'\(tpp::job_future<.*>&&\)', True, False),
                ('JobMove', 'job_future::job_future', 'job_future', 'job_future', r'\(tpp::job_future<.*>&&\)', True, False),
                ('JobAssign', 'job_future::operator=', 'job_future', 'job_future', r'&&\)', True, False),
                ('JobSharedMove', 'job_shared_future::job_shared_future', 'job_shared_future', 'job_shared_future', r'\(tpp::job_shared_future<.*>&&\)', True, False),
                ('JobSharedCopy', 'job_shared_future::job_shared_future', 'job_shared_future', 'job_shared_future', r' const&\)', False, False),
                ('JobSharedMoveAssign', 'job_shared_future::operator=', 'job_shared_future', 'job_shared_future', r'&&\)', True, False),
                ('JobSharedCopyAssign', 'job_shared_future::operator=', 'job_shared_future', 'job_shared_future', r' const&\)', False, False)):
            t = T if T == 'void' else 'T'
            cls, meth = fn.split('::')
            arg = {'share': '()'}.get(meth, '(%s<%s>%s)' % (src, t, '&&' if moves else ' const&'))
            out.append(type(cname + tag, (HandleMove,), dict(
                T=T, top='tpp::' + fn, sig='<%s>.*' % T + sig, name='tpp::%s<%s>::%s%s' % (cls, t, meth, arg),
                src=src, dst=dst, moves=moves, returned=ret, __module__=__name__)))
        for cls in ('job_future', 'job_shared_future'):
            out.append(type('Drop' + ('Job' if cls == 'job_future' else 'JobShared') + tag, (HandleDrop,), dict(
                T=T, top='tpp::%s::~%s' % (cls, cls), sig='<%s>' % T, src=cls, name='tpp::%s<%s>::~%s()' % (cls, T if T == 'void' else 'T', cls),
                __module__=__name__)))
    return out


class PoolMove(Task):
    """moving a pool moves its jobs, and the futures of the jobs find it where it is now"""
    props = ('P04', 'P16', 'P20')
    safe = ('P16',)
    uses = Task.uses + ('impl_dtor',)
    top = 'tpp::thread_pool::thread_pool'
    sig = r'thread_pool\(tpp::thread_pool&&\)'
    name = 'tpp::thread_pool::thread_pool(thread_pool&&)'

    def make(self, st, name):
        """(object, pool, sentinel): a pool, or one that was moved from"""
        p = self.local_obj(st, 'tpp::thread_pool', name)
        return p

    def parts(self, st, p):
        rec = self.eng.di.rec('tpp::thread_pool')
        i, s = self.sp.field(rec, 'impl_')[0], self.sp.field(rec, 'sentinel_')[0]
        return [self.eng.load_at(st, p.obj, p.off + o, 8) for o in (i, s, s + 8)]

    def full(self, st, p, full):
        """the pool has jobs and its sentinel points to it; or it was moved from"""
        rec = self.eng.di.rec('tpp::thread_pool')
        i, s = self.sp.field(rec, 'impl_')[0], self.sp.field(rec, 'sentinel_')[0]
        if not full:
            for o in (i, s, s + 8):
                self.eng.store_at(st, p.obj, p.off + o, 8, 0)
            return [0, 0, 0]
        c = self.eng.new_obj(st, 'sym', 8, name='sentinel')
        self.eng.store_at(st, c.id, 0, 8, p)
        impl = self.sym_obj(st, Pool.REC, 'impl')
        pi = self.eng.fresh('sentinel.pi')
        st.assume(pi != 0)
        for o, v in ((i, impl), (s, Ptr(c.id, 0)), (s + 8, pi)):
            self.eng.store_at(st, p.obj, p.off + o, 8, v)
        return [impl, Ptr(c.id, 0), pi]

    def setup(self, st):
        self.fresh_run(st)
        st.ghost['destroyed_pools'] = ()
        self.a = self.make(st, 'pool')
        self.b = self.make(st, 'other')
        out = []
        for fb in (True, False):
            s = st.fork()
            s.ghost['old'] = None
            s.ghost['new'] = self.full(s, self.b, fb)
            out += [(t, [self.a, self.b]) for t in self.tls_setup(s)]
        return out

    def last_release(self, st, pi):
        return [st]

    def ev_pool_destroyed(self, st, p):
        st.ghost['destroyed_pools'] += (p,)
        old = st.ghost['old']
        if old and isinstance(old[1], Ptr):
            self.oblige(st, And(*[Not(self.eng.ptr_eq(st, self.parts(st, o)[1], old[1])) for o in (self.a, self.b)]), 'futures-are-cut-off-first', ('P16',),
                        'the futures of the jobs still reach the pool while it is ended')

    def ensures(self, st, kind, val):
        eng = self.eng
        self.oblige(st, kind == RET, 'no-exception', ('P16',), 'an exception leaves the call')
        new, old = st.ghost['new'], st.ghost['old']
        now = self.parts(st, self.a)
        self.oblige(st, And(*[eng.ptr_eq(st, x, y) for x, y in zip(now, new)]), 'pool-is-moved', ('P16',), 'the moved pool does not have the jobs of the old one')
        if not st.ghost.get('self'):
            src = self.parts(st, self.b)
            self.oblige(st, eng.isnull(st, src[0]), 'source-gives-up-its-jobs', ('P16',), 'two pools have the same jobs')
        if isinstance(now[1], Ptr):
            self.oblige(st, eng.ptr_eq(st, eng.load_at(st, now[1].obj, 0, 8), self.a), 'futures-find-the-moved-pool', ('P16',),
                        'the futures of the jobs do not reach the pool where it is now')
        if not st.ghost.get('self') and isinstance(src[1], Ptr):
            w = eng.load_at(st, src[1].obj, 0, 8)
            self.oblige(st, And(Not(eng.ptr_eq(st, w, self.a)), Not(eng.ptr_eq(st, w, self.b))), 'futures-of-the-old-pool-do-nothing', ('P16',),
                        'the futures of the pool that is assigned over reach another pool')
        d = st.ghost['destroyed_pools']
        if old and isinstance(old[0], Ptr):
            self.oblige(st, len(d) == 1 and eng.ptr_eq(st, d[0], old[0]), 'old-pool-is-ended', ('P16',), 'the pool that is assigned over is not ended')
        else:
            self.oblige(st, not d, 'nothing-else-is-ended', ('P16',), 'a pool is ended')


class PoolAssign(PoolMove):
    top = 'tpp::thread_pool::operator='
    sig = None
    name = 'tpp::thread_pool::operator=(thread_pool&&)'

    def setup(self, st):
        out = PoolMove.setup(self, st)
        res = []
        for s, a in out:
            for fa in (True, False):
                t = s.fork()
                t.ghost['old'] = self.full(t, self.a, fa)
                res.append((t, a))
        for fa in (True, False):
            s = st.fork()
            s.ghost['new'] = self.full(s, self.a, fa)
            s.ghost['old'] = None
            s.ghost['self'] = True
            res += [(t, [self.a, self.a]) for t in self.tls_setup(s)]
        return res


class PoolEnd(PoolCall):
    """the destructor, looked at for one arbitrary worker: it is asked to exit and joined, without a lock held and before the
    jobs are destroyed"""
    name = 'tpp::thread_pool::~thread_pool'
    top = 'tpp::thread_pool::~thread_pool'
    may_stop_workers = True
    asks = True

    def find(self):
        f = [n for n in self.eng.m.by_base.get(self.top, []) if not self.eng.m.functions[n].is_decl]
        return [n for n in f if 'D2' in n] or f

    def setup(self, st):
        a = [self.pool(st)]
        rec = self.eng.di.rec('tpp::thread_pool')
        self.sentinel = self.eng.fresh('sentinel.pi')
        st.assume(self.sentinel != 0)
        self.eng.store_at(st, a[0].obj, a[0].off + self.sp.field(rec, 'sentinel_')[0] + 8, 8, self.sentinel)
        self.w_native = self.eng.fresh('worker.native')
        st.assume(self.w_native != 0)
        st.ghost.update(exit_asked=False, joined=False, cut_off=False)
        return [(s, a) for s in self.tls_setup(st)]

    def job(self, st):
        return None

    def pool_cases(self, st, lk):
        out = super().pool_cases(st, lk)
        for s in out:
            w = s.ghost['worker']
            if w is not None:
                for i, e in s.mem[w[2]].meta['elems']:
                    s.assume(B(eq(self.eng.load_at(s, e, 0, 8), self.w_native)))
        return out

    def may_remove(self, st, key, pending):
        return bool(pending)

    def last_release(self, st, pi):
        st.ghost['cut_off'] = Or(st.ghost['cut_off'], self.eng.ptr_eq(st, pi, self.sentinel))
        return [st]

    def ev_pool_acquired(self, st, lk):
        super().ev_pool_acquired(st, lk)
        self.oblige(st, st.ghost['cut_off'], 'futures-are-cut-off-first', ('P16',), 'the futures of the jobs still reach the pool while it is ended')

    def ev_notify_exit(self, st, ident):
        st.ghost['exit_asked'] = Or(st.ghost['exit_asked'], eq(ident, self.w_id))

    def ev_join(self, st, h):
        st.ghost['joined'] = Or(st.ghost['joined'], And(st.ghost['exit_asked'], eq(h, self.w_native)))

    def ended(self, st):
        return Or('worker' in st.ghost and st.ghost['worker'] is None, st.ghost['joined'])

    def access_ok(self, st, rec, fld, own, write):
        return rec == Pool.REC and self.eng.must(st, B(self.ended(st)))

    def done(self, st, val):
        self.oblige(st, self.ended(st), 'workers-are-ended', ('P14', 'P16'), 'a worker is not asked to exit and joined when the pool is destroyed')


class PoolNew(Task):
    """the constructor, looked at for one arbitrary level A: as many workers as asked for, started and with an id, and an empty
    queue; nothing for levels that were not asked for"""
    props = ('P04', 'P14', 'P15', 'P16', 'P20')
    safe = ('P14', 'P15', 'P16')
    uses = Task.uses + ('make_thread',)
    name = 'tpp::thread_pool::thread_pool(map, config)'
    top = 'tpp::thread_pool::thread_pool'
    sig = r'thread_pool\(std::map<'

    def find(self):
        f = [n for n in self.eng.m.by_base.get(self.top, []) if not self.eng.m.functions[n].is_decl and re.search(self.sig, self.eng.m.dem[n])]
        return [n for n in f if 'C2' in n] or f

    def mon(self):
        return self.sp.monitors[Pool.REC]

    def setup(self, st):
        eng = self.eng
        self.fresh_run(st)
        rec = eng.di.rec(Pool.REC)
        self.sh = self.mon().shape(rec)
        T = dict(self.sh['W'][1])
        f = eng.di.all_fields(rec)
        size_t = next(t for n, (o, s, t) in f.items() if o == self.sh['free'])
        key = SL.targs(eng, eng.di.strip(next(t for n, (o, s, t) in f.items() if o == self.sh['W'][0])))['_Key']
        T = SL.tab_layout(eng, key, size_t)
        self.conf = self.local_obj(st, None, 'levels', 48)
        self.tab = SL.map_at(eng, st, self.conf, T, 'std::map')
        self.A = eng.fresh('level', 8 * T['ksize'])
        rec = eng.di.rec('tpp::thread_pool')
        self.pool = self.out_obj(st, eng.di.size(rec), 'pool')
        cfg = [eng.fresh('reserved'), eng.fresh('threshold')]
        out = []
        for s, e in SL.tab_find(eng, st, self.tab, self.A):
            s.ghost['levels'] = None if e is None else (e['pos'], eng.load_at(s, e['node'], T['voff'], T['vsize']))
            out += [(t, [self.pool, self.conf] + cfg) for t in self.tls_setup(s)]
        return out

    def ev_launched(self, st, ident, w, ok):
        pass

    def impl_obj(self, st):
        """the impl object as soon as it is there"""
        for oid, o in st.mem.items():
            if o.kind == 'heap' and all(isinstance(o.cells.get(self.sh[k][0], (0, None))[1], SL.MapVal) for k in 'JQW'):
                return oid
        return None

    def tables(self, st):
        o = self.impl_obj(st)
        return None if o is None else [st.mem[o].cells[self.sh[k][0]][1].tab for k in 'JQW']

    def known(self, st, tab):
        """entry of level A, False if there is none, None if that is not known"""
        m = st.mem[tab].meta
        for e in m['entries']:
            if same(e['key'], self.A):
                return e
        if any(same(k, self.A) for k in m['absent']) or not st.mem[tab].sym and not m['entries']:
            return False
        return None

    def worker_ok(self, st, e):
        a, b = self.sp.field('tpp::thread', '_M_id')[0], self.sp.field('tpp::thread', 'id_')[0]
        return And(Not(eq(self.eng.load_at(st, e, a, 8), 0)), Not(eq(self.eng.load_at(st, e, b, 8), 0)))

    def crew(self, st, node):
        return self.mon().crew(st, node)

    def crew_view(self, st, node):
        v = self.crew(st, node)

        def view(s, bo, e, i):
            s.assume(B(self.worker_ok(s, e.id)))
        st.w(v.buf).meta['views'] = (view,)

    def check_crews(self, st, W):
        eng = self.eng
        for e in st.mem[W].meta['entries']:
            v = self.crew(st, e['node'])
            j = eng.fresh('j')
            s = st.fork()
            s.assume(B(ult(j, v.len)))
            if eng.alive(s):
                for s2, x in eng.buf_elem(s, v.buf, j):
                    self.oblige(s2, self.worker_ok(s2, x), 'workers-are-started', ('P14',), 'a worker of the pool has no thread or no id')

    def loop_entry(self, st, fn, header, M):
        self.loop_end(st, st, fn, header, M)

    def loop_end(self, st, head, fn, header, M):
        t = self.tables(st)
        if t:
            self.check_crews(st, t[2])

    def loop_head(self, st, s0, fn, header, M):
        t = self.tables(st)
        if not t:
            return None
        J, Q, W = t
        eng = self.eng
        for e in st.mem[W].meta['entries']:
            v = self.crew(st, e['node'])
            if ('buf', v.buf) in M:
                self.crew_view(st, e['node'])
        if ('tab', W) not in M:
            return None
        st.w(W).meta['views'] = (lambda s, tab, key, node, pos: self.crew_view(s, node),)
        return [s2 for s, _ in SL.tab_find(eng, st, W, self.A) for s2, _ in SL.tab_find(eng, s, Q, self.A)]

    def loop_candidates(self, s0, h0, M, fn, header):
        t = self.tables(h0)
        lv = h0.ghost['levels']
        if not t:
            return []
        if ('tab', t[2]) not in M:
            return [] if lv is None else [('%s<=workers of A' % (key,), lambda t, g=g: ule(g(t), lv[1]))
                                          for key, g, bits in self.eng.int_locs(h0, M) if bits == 64]
        J, Q, W = t

        def built(t):
            w, q = self.state(t, W), self.state(t, Q)
            if w is None or q is None:
                return None
            if w is False or q is False:
                return False
            return And(eq(self.crew(t, w['node']).len, lv[1]), eq(self.mon().queue(t, q['node']).len, 0))

        def nothing(t):
            w, q = self.state(t, W), self.state(t, Q)
            return None if w is None or q is None else w is False and q is False
        out = []
        if lv is None:
            return [('no level A', nothing)]

        def imp(pre, f):
            def g(t):
                p = pre(t)
                if self.eng.must(t, Not(p)):
                    return True
                r = f(t)
                return None if r is None else Implies(p, r)
            return g
        out.append(('no level A without workers', imp(lambda t: eq(lv[1], 0), nothing)))
        for key, g, bits in self.eng.int_locs(h0, M):
            if bits != 64:
                continue
            out.append(('level A from %s on' % (key,), imp(lambda t, g=g: And(ult(lv[0], g(t)), Not(eq(lv[1], 0))), built)))
            out.append(('no level A before %s' % (key,), imp(lambda t, g=g: ule(g(t), lv[0]), nothing)))
        return out

    def state(self, t, tab):
        r = self.known(t, tab)
        if r is not None:
            return r
        hit = None
        for e in t.mem[tab].meta['entries']:
            if self.eng.must(t, eq(e['key'], self.A)):
                return e
            if not self.eng.must(t, Not(eq(e['key'], self.A))):
                hit = True
        return None if hit or t.mem[tab].sym else False

    def ensures(self, st, kind, val):
        eng = self.eng
        self.oblige(st, kind == RET, 'no-exception', ('P14',), 'an exception leaves the constructor')
        t = self.tables(st)
        self.oblige(st, t is not None, 'makes-its-tables', ('P14',), 'the pool has no tables')
        if t is None:
            return
        J, Q, W = t
        o = self.impl_obj(st)
        rec = eng.di.rec('tpp::thread_pool')
        self.oblige(st, eng.ptr_eq(st, eng.load_at(st, self.pool.obj, self.pool.off + self.sp.field(rec, 'impl_')[0], 8), Ptr(o, 0)), 'owns-its-tables', ('P14',), 'the pool does not own what was made')
        self.oblige(st, eq(st.mem[J].meta['size'], 0), 'no-jobs-yet', ('P14', 'P16'), 'a new pool has jobs')
        self.oblige(st, Not(eq(eng.load_at(st, o, self.sh['free'], 8), 0)), 'job-ids-are-valid', ('P14', 'P16'), 'the first job gets the id that stands for no job')
        self.check_crews(st, W)
        lv = st.ghost['levels']
        for s, w in SL.tab_find(eng, st, W, self.A):
            for s2, q in SL.tab_find(eng, s, Q, self.A):
                if lv is None or eng.must(s2, eq(lv[1], 0)):
                    self.oblige(s2, w is None, 'no-workers-unasked', ('P15',), 'a level without workers asked for has workers')
                    continue
                self.oblige(s2, w is not None, 'workers-per-level', ('P14', 'P15'), 'a level has no workers')
                self.oblige(s2, q is None or eq(self.mon().queue(s2, q['node']).len, 0), 'queues-are-empty', ('P14',), 'a new pool has queued jobs')
                if w is not None:
                    self.oblige(s2, eq(self.crew(s2, w['node']).len, lv[1]), 'workers-per-level', ('P14', 'P15'), 'a level has another number of workers than asked for')


class Group(Task):
    """the groups users name: ordered levels, the priority asked for"""
    props = ('P15', 'P20')
    safe = ('P15',)
    level = None

    def setup(self, st):
        self.fresh_run(st)
        self.n = self.eng.fresh('priority')
        return [(s, [self.n]) for s in self.tls_setup(st)]

    def ensures(self, st, kind, val):
        # two words, level and priority
        ok = kind == RET and isinstance(val, (list, tuple)) and len(val) == 2
        self.oblige(st, ok and And(eq(val[0], self.level), eq(val[1], self.n)), 'level-and-priority', ('P15',), 'the group has another level or priority than its name says')


class GroupNormal(Group):
    top = 'tpp::priority::normal'
    level = 0


class GroupHigh(Group):
    top = 'tpp::priority::high'
    level = 1


class GroupCritical(Group):
    top = 'tpp::priority::critical'
    level = 2


class PoolNewDefault(PoolNew):
    """without settings: one worker per core, for jobs of every level"""
    name = 'tpp::thread_pool::thread_pool()'
    sig = r'thread_pool\(\)'

    def setup(self, st):
        eng = self.eng
        self.fresh_run(st)
        self.sh = self.mon().shape(eng.di.rec(Pool.REC))
        self.A = eng.fresh('level')
        self.cores = eng.fresh('cores', 32)
        self.pool = self.out_obj(st, eng.di.size(eng.di.rec('tpp::thread_pool')), 'pool')
        out = []
        for s, low in eng.split(st, eq(self.A, 0)):
            s.ghost['levels'] = (0, z3.ZeroExt(32, self.cores)) if low else None
            out += [(t, [self.pool]) for t in self.tls_setup(s)]
        return out


CONTRACTS = [PoolNew, PoolNewDefault, GroupNormal, GroupHigh, GroupCritical, Stop, StopAll, ChangePriority, ChangePriorityAsks, Count, Wait, WaitAll, CheckJobs, AddJob, AddJobAsks, Schedule, ScheduleVoid, ScheduleDefault,
             JobStop, JobChangePriority,
             PoolMove, PoolAssign, PoolEnd]
CONTRACTS += handle_contracts()
