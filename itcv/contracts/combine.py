"""Contracts of when_all and when_any (when_all_any.hpp)."""
import z3

from ..engine import (Ptr, FPtr, VecVal, And, Or, Not, Implies, B, bv, eq, ult, ule, add, sub, same, Unsupported)
from ..monitors import BasicState
from .futures import Fut, BROKEN
from .tasks import Task

RET = 'ret'


class Combine(Fut):
    """the whole life of a combined future: the call, and afterwards the continuations that were not run at once, in any order, or dropped.

    The continuations run on the calling thread only, so that nothing else touches their context."""
    registered = True
    uses = ('set_value_body', 'then', 'shared_then')
    tag = None

    def setup(self, st):
        st.ghost.update(made=(), pos=0, attached=(), pending=(), ran=())
        a = self.args(st)
        return [(s, a) for s in self.tls_setup(st)]

    def input(self, st, kind, T, name):
        p = self.local_obj(st, 'tpp::%s<%s>' % (kind, T), name)
        for k in (0, 8):
            st.assume(self.eng.load_at(st, p.obj, k, 8) != 0)
        return p

    def then_called(self, st, ident, policy, w, closure, fns):
        """the library attaches a continuation to the state w"""
        eng = self.eng
        self.oblige(st, eq(ident, self.sp.me(st)), 'attached-for-the-calling-thread', (self.tag,), 'the continuation is attached for another thread')
        k = self.which_input(st, w)
        self.oblige(st, k is not None, 'attached-to-an-input', (self.tag,), 'a continuation is attached to something else than an input')
        if k is None:
            return []
        now = st.fork()
        st.ghost['pending'] = st.ghost['pending'] + ((k, tuple(w), closure, fns),)
        out = [(st, RET, None)]
        if eng.must(now, Not(eq(policy, 1))):
            out += self.run(now, k, w, closure, fns)
        return out

    def value_given(self, st, name, args):
        """the combined future is completed (None: by the real code)"""
        return None

    def run(self, st, k, w, closure, fns):
        """the continuation of input k is run"""
        eng = self.eng
        fn = eng.m.functions[fns['call'][0]].parse()
        if fn.ret_ty != ('void',) or len(fn.params) != 2:
            raise Unsupported('continuation with a result')
        o = eng.new_obj(st, 'alloca', 16, name='future')
        for i in (0, 1):
            eng.store_at(st, o.id, 8 * i, 8, w[i])
        out = []
        for s, kind, val in eng.call(st, fn.name, [closure, Ptr(o.id, 0)]):
            self.oblige(s, kind == RET, 'continuation-does-not-throw', (self.tag,), 'the continuation throws')
            if kind != RET:
                continue
            self.has_run(s, k)
            out += self.drop(s, closure, fns)
        return out

    def has_run(self, st, k):
        st.ghost['ran'] = st.ghost['ran'] + (k,)

    def drop(self, st, closure, fns):
        out = []
        for s, kind, val in self.eng.call(st, fns['destroy'], [closure]):
            self.oblige(s, kind == RET, 'continuation-does-not-throw', (self.tag,), 'destroying the continuation throws')
            if kind == RET:
                out.append((s, RET, None))
        return out

    def result(self, st):
        """the state of the returned future"""
        p = self.state_ptr(st, self.out)
        return p.obj if isinstance(p, Ptr) else None

    def post(self, st, kind, val):
        self.oblige(st, kind == RET, 'no-exception', (self.tag,), 'an exception leaves the call')
        if kind != RET:
            return
        r = self.result(st)
        self.oblige(st, r is not None, 'future-has-a-state', (self.tag,), 'the returned future has no state')
        if r is None:
            return
        st.ghost['handed_out'] = True
        self.after_call(st)
        self.explore(st, r)


class Tuple(Combine):
    """variadic form; three inputs: a future, a shared future given as an lvalue and a future without result"""
    props = ('P04', 'P08', 'P17', 'P20')
    kinds = (('future', 'itcv::U'), ('shared_future', 'itcv::U'), ('future', 'void'))

    moved_shared = False        # shared futures are given as rvalues

    def args(self, st):
        self.out = self.out_obj(st, 16, 'combined future')
        self.ins = [self.input(st, k, T, 'input%d' % i) for i, (k, T) in enumerate(self.kinds)]
        self.S = [[self.eng.load_at(st, p.obj, k, 8) for k in (0, 8)] for p in self.ins]
        return [self.out] + self.ins

    def which_input(self, st, w):
        for i, S in enumerate(self.S):
            if same(w[0], S[0]) or isinstance(w[0], Ptr) and w[0].obj == self.eng.resolve(st, S[0]).obj:
                return i
        return None

    def after_call(self, st):
        eng = self.eng
        for i, (k, T) in enumerate(self.kinds):
            v = self.state_ptr(st, self.ins[i])
            if k == 'future':
                self.oblige(st, eng.isnull(st, v), 'unique-inputs-are-taken', (self.tag,), 'a unique future is still valid in the hands of the caller')
            elif not self.moved_shared:
                self.oblige(st, eng.ptr_eq(st, v, self.S[i][0]), 'shared-inputs-stay', (self.tag,), 'a shared future of the caller is changed')
        att = sorted([p[0] for p in st.ghost['pending']] + list(st.ghost['ran']))
        self.oblige(st, att == list(range(len(self.ins))), 'every-input-is-attached-once', (self.tag,), 'not every input is attached exactly once')

    def element(self, T, i):
        """offset of element i of the tuple type T"""
        di = self.eng.di

        def walk(rec, off):
            for nm, o, s, t in di.members(rec):
                n = di.tname(t)
                if nm == '<base>' and n.startswith('std::_Head_base<%dUL' % i):
                    return off + o
                if nm == '<base>' and n.startswith('std::_Tuple_impl<'):
                    r = walk(t, off + o)
                    if r is not None:
                        return r
            return None
        r = walk(di.rec(T), 0)
        if r is None:
            raise Unsupported('layout of ' + T)
        return r

    def futures_in(self, st, q, base):
        """states of the futures held by the tuple at q + base"""
        T = 'std::tuple<%s>' % ', '.join('tpp::%s<%s>' % k for k in self.kinds)
        return [self.eng.load_at(st, q.obj, q.off + base + self.element(T, i), 8) for i in range(len(self.kinds))]

    def in_order(self, st, q, base):
        return And(*[self.eng.ptr_eq(st, v, S[0]) for v, S in zip(self.futures_in(st, q, base), self.S)])

    def explore(self, st, r):
        """the continuations that are left run in any order, or are dropped"""
        self.check(st, r)
        pend = st.ghost['pending']
        for i, (k, w, c, fns) in enumerate(pend):
            s = st.fork()
            s.ghost['pending'] = pend[:i] + pend[i + 1:]
            for s2, kind, val in self.run(s, k, list(w), c, fns):
                self.explore(s2, r)
        if pend:
            sts = [st.fork()]
            for k, w, c, fns in pend:
                sts = [s2 for s in sts for s2, kind, val in self.drop(s, c, fns)]
            for s in sts:
                self.check_dropped(s, r)

    def broken(self, st, v):
        if not isinstance(v.exc, Ptr):
            return False
        code = self.error_code(st, st.excs.get(v.exc.obj))
        return And(eq(v.status, 2), False if code is None else eq(code, BROKEN))

    def complete(self, st):
        raise NotImplementedError

    def check(self, st, r):
        v = self.view(st, r)
        if self.complete(st):
            self.oblige(st, eq(v.status, 1), 'ready-in-time', (self.tag,), 'the combined future is not ready although its condition is met')
            self.oblige(st, isinstance(v.val, Ptr) and self.right_value(st, v.val), 'holds-the-inputs-in-order', (self.tag,),
                        'the result does not hold the input futures in order')
        else:
            self.oblige(st, eq(v.status, 0), 'not-ready-too-early', (self.tag,), 'the combined future is ready although its condition is not met')

    def check_dropped(self, st, r):
        v = self.view(st, r)
        if self.complete(st):
            self.oblige(st, eq(v.status, 1), 'result-stays', (self.tag,), 'the combined future loses its result')
        else:
            self.oblige(st, self.broken(st, v), 'dropped-inputs-break-the-future', (self.tag, 'P08'),
                        'the continuations are gone and the combined future is not ready with broken_promise')


class AllTuple(Tuple):
    top = 'tpp::when_all'
    sig = r'when_all<tpp::future<itcv::U>, tpp::shared_future<itcv::U>&, tpp::future<void>>'
    name = 'tpp::when_all(futures...)'
    tag = 'P17'
    safe = ('P17',)

    def complete(self, st):
        return len(st.ghost['ran']) == len(self.kinds)

    def right_value(self, st, q):
        return self.in_order(st, q, 0)


class AnyTuple(Tuple):
    top = 'tpp::when_any'
    sig = r'when_any<tpp::future<itcv::U>, tpp::shared_future<itcv::U>&, tpp::future<void>>'
    name = 'tpp::when_any(futures...)'
    props = ('P04', 'P08', 'P18', 'P20')
    tag = 'P18'
    safe = ('P18',)

    def complete(self, st):
        return len(st.ghost['ran']) > 0

    def right_value(self, st, q):
        rec = 'tpp::when_any_result<std::tuple<%s>>' % ', '.join('tpp::%s<%s>' % k for k in self.kinds)
        f = self.eng.di.all_fields(rec)
        return And(eq(self.eng.load_at(st, q.obj, q.off + f['index'][0], 8), st.ghost['ran'][0]), self.in_order(st, q, f['futures'][0]))


STATEAT = z3.Function('input_state', z3.BitVecSort(64), z3.BitVecSort(64))
PIAT = z3.Function('input_state_count', z3.BitVecSort(64), z3.BitVecSort(64))


class Range(Combine):
    """iterator form; any number of inputs. K is an arbitrary input; n inputs are attached and r of their continuations have run.

    What is known about the other inputs is what holds for an arbitrary one."""
    kind = 'future'
    speculate = True

    def args(self, st):
        from ..stdlib import new_buf
        eng = self.eng
        fut = 'tpp::%s<itcv::U>' % self.kind
        b = new_buf(eng, st, 16, eng.di.rec(fut), sym=True, name='inputs')
        self.inputs = b.id
        self.N = eng.fresh('N')
        self.K = eng.fresh('K')
        st.assume(z3.ULT(self.N, 1 << 40))
        st.assume(z3.ULT(self.K, self.N))
        self.shape = None
        self.unknown = eng.fresh('unknown')
        self.in_view(st, 0)
        st.ghost.update(n=0, r=0, first=0, ranK=False, done=False)
        return [Ptr(b.id, 0, 0), Ptr(b.id, 0, self.N)]

    def unique(self):
        return self.kind == 'future'

    def in_view(self, st, n):
        """inputs that are not attached yet have the state they came with"""
        def view(s, bo, e, i):
            v = self.eng.load_at(s, e.id, 0, 8)
            s.assume(B(Implies(ule(n, i), And(eq(v, STATEAT(bv(i))), v != 0, eq(self.eng.load_at(s, e.id, 8, 8), PIAT(bv(i))), PIAT(bv(i)) != 0))))
        st.w(self.inputs).meta['views'] = (view,)

    # --- the continuations
    def then_called(self, st, ident, policy, w, closure, fns):
        eng = self.eng
        self.oblige(st, eq(ident, self.sp.me(st)), 'attached-for-the-calling-thread', (self.tag,), 'the continuation is attached for another thread')
        n = st.ghost['n']
        self.oblige(st, And(ult(n, self.N), eng.ptr_eq(st, w[0], STATEAT(bv(n))), eng.ptr_eq(st, w[1], PIAT(bv(n)))), 'attached-to-the-next-input', (self.tag,),
                    'a continuation is not attached to the inputs one after the other')
        st.assume(B(And(STATEAT(bv(n)) != 0, PIAT(bv(n)) != 0)))
        self.note_shape(st, closure, fns, n)
        st.ghost['n'] = add(n, 1)
        out = [(st.fork(), RET, None)]
        if eng.must(st, Not(eq(policy, 1))):
            out += self.run(self.count(st, n), n, w, closure, fns)
        return out

    def count(self, st, i):
        g = st.ghost
        g['first'] = z3.If(B(eq(g['r'], 0)), bv(i), bv(g['first']))
        g['r'] = add(g['r'], 1)
        g['ranK'] = Or(g['ranK'], eq(i, self.K))
        return st

    def has_run(self, st, k):
        pass

    def note_shape(self, st, closure, fns, n):
        """what the closure of input n consists of"""
        eng = self.eng
        o = st.mem[closure.obj]
        words = []
        for off in range(0, o.size, 8):
            v = eng.load_at(st, closure.obj, off, 8)
            idx = not isinstance(v, Ptr)
            if idx:
                self.oblige(st, eq(v, n), 'continuation-knows-its-input', (self.tag,), 'the continuation remembers something else than the position of its input')
            words.append(None if idx else v)
        if self.shape is not None and not all(same(a, b) for a, b in zip(self.shape[2], words)):
            raise Unsupported('content of a continuation')
        self.shape = (o.ty, fns, words)

    def closure(self, st, i):
        """the continuation of input i"""
        eng = self.eng
        ty, fns, words = self.shape
        o = eng.new_obj(st, 'heap', 8 * len(words), name='continuation', ty=ty)
        for k, v in enumerate(words):
            eng.store_at(st, o.id, 8 * k, 8, i if v is None else v)
        return Ptr(o.id, 0), fns

    def external(self, st, name, base, args, fty):
        if base == 'itcv::returned':
            return self.returned(st, args[0])
        if base == 'itcv::step':
            return self.step(st)
        return super().external(st, name, base, args, fty)

    def returned(self, st, p):
        eng = self.eng
        g = st.ghost
        self.oblige(st, eq(g['n'], self.N), 'every-input-is-attached-once', (self.tag,), 'not every input is attached exactly once')
        v = self.state_ptr(st, p)
        self.oblige(st, isinstance(v, Ptr), 'future-has-a-state', (self.tag,), 'the returned future has no state')
        if not isinstance(v, Ptr):
            return []
        self.R = v.obj
        g['handed_out'] = True
        if eng.must(st, eq(self.N, 0)):
            return [(st, RET, None)]
        self.check(st)
        return [(st, RET, None)]

    def step(self, st):
        """one of the continuations that are left runs (result 1), or none (result 0)"""
        eng = self.eng
        out = [(st.fork(), RET, 0)]
        g = st.ghost
        i = eng.fresh('i')
        # input i is attached and has not been run; if K is another such input there are two of them
        st.assume(B(And(ult(i, g['n']), Implies(eq(i, self.K), Not(g['ranK'])), ult(g['r'], g['n']),
                        Implies(And(Not(eq(i, self.K)), Not(g['ranK'])), ult(add(g['r'], 1), g['n'])))))
        st.assume(STATEAT(i) != 0)
        if not eng.alive(st) or self.shape is None:
            return out
        c, fns = self.closure(st, i)
        st.assume(PIAT(i) != 0)
        for s, kind, val in self.run(self.count(st, i), i, [STATEAT(i), PIAT(i)], c, fns):
            self.check(s)
            out.append((s, RET, 1))
        return out

    def check(self, st):
        self.oblige(st, Implies(self.complete(st), st.ghost['done']), 'ready-in-time', (self.tag,), 'the combined future is not ready although its condition is met')
        self.oblige(st, Implies(st.ghost['done'], self.complete(st)), 'not-ready-too-early', (self.tag,), 'the combined future is ready although its condition is not met')

    def value_given(self, st, name, args):
        eng = self.eng
        from ..stdlib import vec_at, vec_set
        g = st.ghost
        if 'n' not in g or eng.must(st, eq(self.N, 0)):
            return None
        move = '&&)' in eng.m.dem[name]
        out = []
        for s0, p in eng.deref(st, args[0]):
            v = eng.load_at(s0, p.obj, p.off, 8)
            self.oblige(s0, isinstance(v, Ptr) and getattr(self, 'promised', v.obj) == v.obj, 'one-promise', (self.tag,), 'completes another promise')
            self.promised = v.obj
            self.oblige(s0, Not(s0.ghost['done']), 'completed-once', (self.tag,), 'the combined future is completed twice')
            self.oblige(s0, self.may_complete(s0), 'not-ready-too-early', (self.tag,), 'the combined future is completed although its condition is not met')
            for s1, q in eng.deref(s0, args[1]):
                q = Ptr(q.obj, q.off + self.vec_off())
                vec = vec_at(eng, s1, q)
                self.oblige(s1, And(eq(vec.len, self.N), self.index_right(s1, q)), 'holds-every-input', (self.tag,), 'the result does not hold all inputs (or the wrong index)')
                for s2, e in eng.buf_elem(s1, vec.buf, self.K):
                    self.oblige(s2, eng.ptr_eq(s2, eng.load_at(s2, e, 0, 8), STATEAT(self.K)), 'holds-the-inputs-in-order', (self.tag,),
                                'the result does not hold the input futures in order')
                    if move:
                        s2.w(vec.buf).meta['elems'] = ()
                        vec_set(eng, s2, q, VecVal(0, 0, vec.buf))
                    s2.ghost['done'] = True
                    out.append((s2, RET, None))
        return out

    def vec_off(self):
        return 0

    def index_right(self, st, q):
        return True

    def counted_release(self, st, pi):
        """the context: kept by the continuations that are left (and destroyed by the last one of them, with a promise that is satisfied then)"""
        return [st]

    # --- loops
    def vectors(self, st, M=None):
        """(object, offset, kind) of the vectors of futures or states the library keeps"""
        out = []
        for oid, o in st.mem.items():
            if o.kind != 'heap':
                continue
            for off, (sz, v) in o.cells.items():
                if isinstance(v, VecVal) and v.buf in st.mem and st.mem[v.buf].meta.get('esize') == 16:
                    if M is None or ('cell', oid, off, sz) in M or ('buf', v.buf) in M:
                        ety = st.mem[v.buf].meta.get('ety')
                        out.append((oid, off, 'future' if ety and 'future<' in self.eng.di.tname(ety).split('std::shared_ptr')[0] else 'state'))
        return out

    def elem_inv(self, st, kind, n, i, e):
        """element e of one of the vectors, for input i"""
        v, pi = [self.eng.load_at(st, e, k, 8) for k in (0, 8)]
        ok = And(eq(v, STATEAT(bv(i))), self.eng.ptr_eq(st, pi, PIAT(bv(i))))
        if kind == 'future' and self.unique():
            ok = Or(ok, And(eq(v, 0), self.eng.isnull(st, pi)))
        return Implies(ult(i, n), And(ok, STATEAT(bv(i)) != 0, PIAT(bv(i)) != 0))

    def loop_head(self, st, s0, fn, header, M):
        eng = self.eng
        n = st.ghost.get('n')
        if n is None:
            return None
        if ('buf', self.inputs) in M:
            self.in_view(st, n)
        out = [st]
        for oid, off, kind in self.vectors(st, M):
            def view(s, bo, e, i, kind=kind):
                s.assume(B(self.elem_inv(s, kind, n, i, e.id)))
            nxt = []
            for s in out:
                b = s.mem[oid].cells[off][1].buf
                s.w(b).meta['views'] = (view,)
                for s2, yes in eng.split(s, And(ult(self.K, n), Not(s.ghost['done']))):
                    nxt += [x for x, e in eng.buf_elem(s2, b, self.K)] if yes else [s2]
            out = nxt
        return out

    def loop_entry(self, st, fn, header, M):
        self.loop_end(st, st, fn, header, M)

    def loop_end(self, st, head, fn, header, M):
        eng = self.eng
        n = st.ghost.get('n')
        if n is None:
            return
        todo = [(b, kind) for oid, off, kind in self.vectors(st, M) for b in (st.mem[oid].cells[off][1].buf,)]
        for b, kind in todo:
            j = eng.fresh('j')
            s = st.fork()
            s.assume(B(And(ult(j, n), Not(s.ghost['done']))))
            if eng.alive(s):
                for s2, e in eng.buf_elem(s, b, j):
                    self.oblige(s2, self.elem_inv(s2, kind, n, j, e), 'collected-inputs (loop)', (self.tag,), 'a collected future is not the input')
        if ('buf', self.inputs) in M:
            j = eng.fresh('j')
            s = st.fork()
            s.assume(B(And(ule(n, j), ult(j, self.N))))
            if eng.alive(s):
                for s2, e in eng.buf_elem(s, self.inputs, j):
                    self.oblige(s2, eq(eng.load_at(s2, e, 0, 8), STATEAT(j)), 'inputs-untouched-until-attached (loop)', (self.tag,), 'an input is changed before it is attached')

    def elem_K(self, t, oid, off):
        v = t.mem[oid].cells[off][1]
        for i, x in t.mem[v.buf].meta['elems']:
            if same(i, self.K):
                return self.eng.load_at(t, x, 0, 8)
        r = self.unknown
        for i, x in t.mem[v.buf].meta['elems']:
            w = self.eng.load_at(t, x, 0, 8)
            if not (isinstance(w, int) or z3.is_bv(w)):
                return None
            r = z3.If(B(eq(i, self.K)), bv(w), r)
        return r

    def loop_candidates(self, s0, h0, M, fn, header):
        out = []
        if 'n' not in h0.ghost:
            return out
        N, K = self.N, self.K
        G = lambda t, k: t.ghost[k]
        out.append(('n<=N', lambda t: ule(G(t, 'n'), N)))
        out.append(('r<=n', lambda t: ule(G(t, 'r'), G(t, 'n'))))
        out.append(('ranK=>K<n', lambda t: Implies(G(t, 'ranK'), ult(K, G(t, 'n')))))
        out.append(('ranK=>r>0', lambda t: Implies(G(t, 'ranK'), ult(0, G(t, 'r')))))
        out.append(('K attached, not run => r<n', lambda t: Implies(And(ult(K, G(t, 'n')), Not(G(t, 'ranK'))), ult(G(t, 'r'), G(t, 'n')))))
        out.append(('first<n', lambda t: Or(eq(G(t, 'r'), 0), ult(G(t, 'first'), G(t, 'n')))))
        out.append(('done=>r=N', lambda t: Implies(G(t, 'done'), eq(G(t, 'r'), N))))
        out.append(('done=>r>0', lambda t: Implies(G(t, 'done'), ult(0, G(t, 'r')))))
        out.append(('done=>n=N', lambda t: Implies(G(t, 'done'), eq(G(t, 'n'), N))))
        out.append(('complete=done', lambda t: And(Implies(G(t, 'done'), self.complete(t)), Implies(self.complete(t), G(t, 'done')))))
        locs = self.eng.int_locs(h0, M)
        for key, g, bits in locs:
            if key[0] == 'ghost':
                continue
            if bits == 64:
                out.append(('%s=n' % (key,), lambda t, g=g: eq(g(t), G(t, 'n'))))
                out.append(('done or %s=n' % (key,), lambda t, g=g: Or(G(t, 'done'), eq(g(t), G(t, 'n')))))
                out.append(('done or %s=N' % (key,), lambda t, g=g: Or(G(t, 'done'), eq(g(t), N))))
                out.append(('%s=r' % (key,), lambda t, g=g: eq(g(t), G(t, 'r'))))
                out.append(('%s=first' % (key,), lambda t, g=g: Or(eq(G(t, 'r'), 0), eq(g(t), G(t, 'first')))))
                out.append(('%s=first or -1' % (key,), lambda t, g=g: eq(g(t), z3.If(B(eq(G(t, 'r'), 0)), z3.BitVecVal(2 ** 64 - 1, 64), bv(G(t, 'first'))))))
                out.append(('%s<=N' % (key,), lambda t, g=g: ule(g(t), N)))
            if bits == 8:
                out.append(('%s~r>0' % (key,), lambda t, g=g: eq(g(t), z3.If(B(ult(0, G(t, 'r'))), z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)))))
                out.append(('%s~done' % (key,), lambda t, g=g: eq(g(t), z3.If(B(G(t, 'done')), z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)))))
        for oid, off, kind in self.vectors(h0, M):
            def at(t, cond, oid=oid, off=off, kind=kind):
                pre = And(ult(K, G(t, 'n')), Not(G(t, 'done')))
                if self.eng.must(t, Not(pre)):
                    return True
                v = self.elem_K(t, oid, off)
                return None if v is None else Implies(pre, cond(t, v))
            nm = 'at(%d,%d)' % (oid, off)
            out.append((nm + '=S', lambda t, at=at: at(t, lambda t, v: eq(v, STATEAT(K)))))
            out.append((nm + '=S if run', lambda t, at=at: at(t, lambda t, v: Implies(G(t, 'ranK'), eq(v, STATEAT(K))))))
            out.append((nm + '=S if first', lambda t, at=at: at(t, lambda t, v: Implies(And(ult(0, G(t, 'r')), eq(G(t, 'first'), K)), eq(v, STATEAT(K))))))
            for key, g, bits in locs:
                if bits == 64 and key[0] != 'ghost':
                    out.append((nm + '=S before %s' % (key,), lambda t, at=at, g=g: at(t, lambda t, v: Implies(ult(K, g(t)), eq(v, STATEAT(K))))))
        return out

    def post(self, st, kind, val):
        self.oblige(st, kind == RET, 'no-exception', (self.tag,), 'an exception leaves the call')
        if 'handed_out' in st.ghost and hasattr(self, 'promised'):
            self.oblige(st, self.R == self.promised, 'future-of-the-promise', (self.tag,), 'the returned future belongs to another promise')


class AllRange(Range):
    top = 'itcv::all_life'
    sig = r'all_life<.*tpp::future<itcv::U>'
    name = 'tpp::when_all(first, last) of futures'
    props = ('P04', 'P17', 'P20')
    tag = 'P17'
    safe = ('P17',)

    def complete(self, st):
        return eq(st.ghost['r'], self.N)

    may_complete = complete


class AllRangeShared(AllRange):
    sig = r'all_life<.*tpp::shared_future<itcv::U>'
    name = 'tpp::when_all(first, last) of shared futures'
    kind = 'shared_future'


class AnyRange(Range):
    top = 'itcv::any_life'
    sig = r'any_life<.*tpp::future<itcv::U>'
    name = 'tpp::when_any(first, last) of futures'
    props = ('P04', 'P18', 'P20')
    tag = 'P18'
    safe = ('P18',)

    def complete(self, st):
        return And(eq(st.ghost['n'], self.N), ult(0, st.ghost['r']))

    may_complete = complete

    def fields(self):
        v = 'tpp::%s<itcv::U>' % self.kind
        return self.eng.di.all_fields('tpp::when_any_result<std::vector<%s, std::allocator<%s>>>' % (v, v))

    def vec_off(self):
        return self.fields()['futures'][0]

    def index_right(self, st, q):
        return eq(self.eng.load_at(st, q.obj, q.off - self.vec_off() + self.fields()['index'][0], 8), st.ghost['first'])


class AnyRangeShared(AnyRange):
    sig = r'any_life<.*tpp::shared_future<itcv::U>'
    name = 'tpp::when_any(first, last) of shared futures'
    kind = 'shared_future'


class AllOne(AllTuple):
    """one input"""
    sig = r'when_all<tpp::future<itcv::U>>\('
    name = 'tpp::when_all(future)'
    kinds = (('future', 'itcv::U'),)


class AnyOne(AnyTuple):
    sig = r'when_any<tpp::future<itcv::U>>\('
    name = 'tpp::when_any(future)'
    kinds = (('future', 'itcv::U'),)


class AllFour(AllTuple):
    """four inputs, each given the other way than in AllTuple"""
    sig = r'when_all<tpp::future<void>&, tpp::shared_future<void>, tpp::shared_future<itcv::U>, tpp::future<itcv::U>&>'
    name = 'tpp::when_all(four futures)'
    kinds = (('future', 'void'), ('shared_future', 'void'), ('shared_future', 'itcv::U'), ('future', 'itcv::U'))
    moved_shared = True


class AnyFour(AnyTuple):
    sig = r'when_any<tpp::future<void>&, tpp::shared_future<void>, tpp::shared_future<itcv::U>, tpp::future<itcv::U>&>'
    name = 'tpp::when_any(four futures)'
    kinds = AllFour.kinds
    moved_shared = True


class Empty(Combine):
    """nothing to wait for: the future is ready at once"""

    def explore(self, st, r):
        v = self.view(st, r)
        self.oblige(st, eq(v.status, 1), 'ready-at-once', (self.tag,), 'the combination of no futures is not ready')
        self.oblige(st, st.ghost['pending'] == () and isinstance(v.val, Ptr) and self.right_value(st, v.val), 'empty-result', (self.tag,),
                    'the combination of no futures has a result that is not empty (index: size_t(-1))')

    def after_call(self, st):
        pass

    def which_input(self, st, w):
        return None


class AllNone(Empty):
    top = 'tpp::when_all'
    sig = r'when_all\(\)'
    name = 'tpp::when_all()'
    props = ('P04', 'P17', 'P20')
    tag = 'P17'
    safe = ('P17',)

    def args(self, st):
        self.out = self.out_obj(st, 16, 'combined future')
        return [self.out]

    def right_value(self, st, q):
        return True


class AnyNone(AllNone):
    top = 'tpp::when_any'
    sig = r'when_any\(\)'
    name = 'tpp::when_any()'
    props = ('P04', 'P18', 'P20')
    tag = 'P18'
    safe = ('P18',)
    seq = 'std::tuple<>'

    def right_value(self, st, q):
        f = self.eng.di.all_fields('tpp::when_any_result<%s>' % self.seq)
        return eq(self.eng.load_at(st, q.obj, q.off + f['index'][0], 8), (1 << 64) - 1)


class AllEmpty(AllNone):
    sig = r'when_all<.*iterator<tpp::future<itcv::U>'
    name = 'tpp::when_all(first, first)'

    def args(self, st):
        from ..stdlib import new_buf
        eng = self.eng
        b = new_buf(eng, st, 16, eng.di.rec('tpp::future<itcv::U>'), sym=True, name='inputs')
        i = eng.fresh('i')
        self.out = self.out_obj(st, 16, 'combined future')
        return [self.out, Ptr(b.id, 0, i), Ptr(b.id, 0, i)]

    def right_value(self, st, q):
        from ..stdlib import vec_at
        return eq(vec_at(self.eng, st, q).len, 0)


class AnyEmpty(AnyNone):
    sig = r'when_any<.*iterator<tpp::future<itcv::U>'
    name = 'tpp::when_any(first, first)'
    seq = 'std::vector<tpp::future<itcv::U>, std::allocator<tpp::future<itcv::U>>>'
    args = AllEmpty.args

    def right_value(self, st, q):
        from ..stdlib import vec_at
        f = self.eng.di.all_fields('tpp::when_any_result<%s>' % self.seq)
        return And(super().right_value(st, q), eq(vec_at(self.eng, st, Ptr(q.obj, q.off + f['futures'][0])).len, 0))


class VisitAt(Task):
    """the callable gets the element at the index, nothing else; no element: an exception"""
    props = ('P04', 'P18', 'P20')
    safe = ('P18',)
    top = 'tpp::visit_at'

    def setup(self, st):
        eng = self.eng
        self.fresh_run(st)
        self.t = self.local_obj(st, None, 'futures', 48)
        self.i = eng.fresh('index')
        self.v = self.local_obj(st, 'itcv::V', 'v')
        return [(s, [self.t, self.i, self.v]) for s in self.tls_setup(st)]

    def external(self, st, name, base, args, fty):
        if base != 'itcv::V::operator()':
            return super().external(st, name, base, args, fty)
        self.sp.user_event(st, 'the callable passed in')
        st.ghost['calls'] += ((args[0], args[1], self.eng.m.dem[name]),)
        no = st.fork()
        no.ghost['threw'] = True
        from ..stdlib import _throw_named
        return [(st, RET, None)] + _throw_named(self.eng, no, '_ZTISt13runtime_error', None)

    def ensures(self, st, kind, val):
        calls = st.ghost['calls']
        # std::tuple stores its elements from the last to the first
        at = [Ptr(self.t.obj, self.t.off + 16 * (2 - k)) for k in range(3)]
        if not calls:
            self.oblige(st, And(kind != RET, ule(3, self.i)), 'visits-the-element', ('P18',), 'the element at the index is not visited')
            return
        self.oblige(st, len(calls) == 1, 'visits-once', ('P18',), 'more than one element is visited')
        v, p, fn = calls[0]
        self.oblige(st, And(self.eng.ptr_eq(st, v, self.v), Or(*[And(eq(self.i, k), self.eng.ptr_eq(st, p, at[k])) for k in range(3)])), 'visits-that-element', ('P18',), 'another element than the one at the index is visited')
        self.oblige(st, (kind == RET) == (not st.ghost.get('threw')), 'passes-on-exceptions', ('P18',), 'an exception is swallowed or made up')


CONTRACTS = [VisitAt, AllTuple, AnyTuple, AllOne, AnyOne, AllFour, AnyFour, AllNone, AnyNone, AllEmpty, AnyEmpty,
             AllRange, AllRangeShared, AnyRange, AnyRangeShared]
