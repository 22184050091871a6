"""Symbolic executor and obligation generator over LLVM IR."""
import itertools
import re
import time

import z3

from . import ir as IR
from .di import DI

M64 = (1 << 64) - 1
DEBUG_LOOPS = False


class Unsupported(Exception):
    """construct outside the verifier's reach"""


class NeedCut(Exception):
    def __init__(self, header):
        self.header = header


class Ptr:
    __slots__ = ('obj', 'off', 'idx')

    def __init__(self, obj, off=0, idx=None):
        self.obj, self.off, self.idx = obj, off, idx

    def __repr__(self):
        return 'Ptr(%s,%s%s)' % (self.obj, self.off, '' if self.idx is None else ',[%s]' % (self.idx,))

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.obj == o.obj and same(self.off, o.off) and same(self.idx, o.idx)

    def __hash__(self):
        return hash((self.obj, str(self.off), str(self.idx)))


class FPtr:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, FPtr) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return 'FPtr(%s)' % self.name


class PDiff:
    """difference of two pointers into one buffer, n elements of size e"""
    __slots__ = ('n', 'e')

    def __init__(self, n, e):
        self.n, self.e = n, e


class VecVal:
    """abstract std::vector: length, capacity, buffer object"""
    __slots__ = ('len', 'cap', 'buf')

    def __init__(self, len, cap, buf):
        self.len, self.cap, self.buf = len, cap, buf

    def __eq__(self, o):
        return isinstance(o, VecVal) and same(self.len, o.len) and same(self.cap, o.cap) and self.buf == o.buf

    def __hash__(self):
        return hash(self.buf)

    def __repr__(self):
        return 'Vec(len=%s,buf=%s)' % (self.len, self.buf)


class MapVal:
    """abstract associative container (the entries live in object tab)"""
    __slots__ = ('tab',)

    def __init__(self, tab):
        self.tab = tab

    def __eq__(self, o):
        return isinstance(o, MapVal) and self.tab == o.tab

    def __hash__(self):
        return hash(self.tab)

    def __repr__(self):
        return 'Map(%s)' % self.tab


def same(a, b):
    if a is b:
        return True
    if z3.is_expr(a):
        return z3.is_expr(b) and a.eq(b)
    if z3.is_expr(b):
        return False
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return type(a) == type(b) and a == b or (isinstance(a, int) and isinstance(b, int) and a == b)


class Obj:
    __slots__ = ('id', 'kind', 'size', 'cells', 'sym', 'zero', 'ty', 'fresh', 'name', 'epoch', 'meta', 'tok', 'tags', 'dead')

    def __init__(self, id, kind, size=None, sym=False, zero=False, ty=None, fresh=True, name=None):
        self.id, self.kind, self.size = id, kind, size
        self.cells = {}
        self.sym, self.zero, self.ty, self.fresh = sym, zero, ty, fresh
        self.name = name or ('%s%d' % (kind, id))
        self.epoch = ()        # tuple of (lo, hi, n): havoc epochs of byte ranges
        self.meta = {}
        self.tags = ()         # (offset, type name) learnt from constructor calls
        self.tok = None
        self.dead = False

    def clone(self):
        o = Obj.__new__(Obj)
        o.id, o.kind, o.size, o.sym, o.zero, o.ty, o.fresh, o.name = self.id, self.kind, self.size, self.sym, self.zero, \
            self.ty, self.fresh, self.name
        o.cells = dict(self.cells)
        o.epoch = self.epoch
        o.meta = dict(self.meta)
        o.tags = self.tags
        o.tok = None
        o.dead = self.dead
        return o

    def ep(self, off):
        n = 0
        for lo, hi, k in self.epoch:
            if lo <= off < hi:
                n = k
        return n


class Exc:
    """a C++ exception: object id, type info symbol (None = unknown user exception), code"""
    __slots__ = ('ptr', 'ti', 'code')

    def __init__(self, ptr, ti, code=None):
        self.ptr, self.ti, self.code = ptr, ti, code

    def __repr__(self):
        return 'Exc(%s,%s)' % (self.ti, self.code)


_tok = itertools.count(1)


class State:
    __slots__ = ('mem', 'pc', 'known', 'ghost', 'locks', 'excs', 'caught', 'tok', 'trace', 'resolved')

    def __init__(self):
        self.mem = {}
        self.pc = []
        self.known = 0         # so many constraints of pc are known to be satisfiable together
        self.ghost = {}
        self.locks = ()
        self.excs = {}
        self.caught = ()
        self.tok = next(_tok)
        self.trace = ()
        self.resolved = ()

    def fork(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.pc = list(self.pc)
        s.known = self.known
        s.ghost = dict(self.ghost)
        s.locks = self.locks
        s.excs = dict(self.excs)
        s.caught = self.caught
        s.trace = self.trace
        s.resolved = self.resolved
        s.tok = next(_tok)
        self.tok = next(_tok)
        return s

    def w(self, oid):
        """object for writing"""
        o = self.mem[oid]
        if o.tok != self.tok:
            o = o.clone()
            o.tok = self.tok
            self.mem[oid] = o
        return o

    def assume(self, c):
        if c is True or c is None:
            return
        if c is False:
            c = z3.BoolVal(False)
        self.pc.append(c)


class Obligation:
    __slots__ = ('name', 'tags', 'pc', 'goal', 'loc', 'trace', 'result', 'model', 'fn', 'detail', 'backend')

    def __init__(self, name, tags, pc, goal, loc, trace, fn, detail=None):
        self.name, self.tags, self.pc, self.goal, self.loc, self.trace, self.fn = name, tags, pc, goal, loc, trace, fn
        self.result = None
        self.model = None
        self.detail = detail


def B(c):
    """python bool / z3 Bool -> z3 Bool"""
    if isinstance(c, (bool, int)):
        return z3.BoolVal(bool(c))
    return c


def And(*a):
    r = []
    for x in a:
        if x is True or (isinstance(x, int) and x == 1 and not isinstance(x, bool)):
            continue
        if x is False or (isinstance(x, int) and not isinstance(x, bool) and x == 0):
            return False
        r.append(x)
    if not r:
        return True
    return r[0] if len(r) == 1 else z3.And(*r)


def Or(*a):
    r = []
    for x in a:
        if x is True or (isinstance(x, int) and not isinstance(x, bool) and x == 1):
            return True
        if x is False or (isinstance(x, int) and not isinstance(x, bool) and x == 0):
            continue
        r.append(x)
    if not r:
        return False
    return r[0] if len(r) == 1 else z3.Or(*r)


def Not(a):
    if isinstance(a, (bool, int)):
        return not a
    return z3.Not(a)


def Implies(a, b):
    return Or(Not(a), b)


def bv(v, bits=64):
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, int):
        return z3.BitVecVal(v, bits)
    if z3.is_bool(v):
        return z3.If(v, z3.BitVecVal(1, bits), z3.BitVecVal(0, bits))
    return v


def eq(a, b):
    """equality of two integer-like values"""
    if isinstance(a, (Ptr, FPtr)) or isinstance(b, (Ptr, FPtr)):
        if isinstance(a, int) or isinstance(b, int):
            return False
        if isinstance(a, (Ptr, FPtr)) and isinstance(b, (Ptr, FPtr)) and a == b:
            return True
        raise Unsupported('equality of pointers')
    if isinstance(a, int) and isinstance(b, int):
        return int(a) == int(b)
    if z3.is_expr(a) and z3.is_expr(b) and a.eq(b):
        return True
    if z3.is_bool(a) or z3.is_bool(b):
        if isinstance(a, int):
            a, b = b, a
        if isinstance(b, int):
            return a if b else Not(a)
        return a == b
    bits = a.size() if z3.is_bv(a) else b.size()
    return bv(a, bits) == bv(b, bits)


def ult(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a < b
    bits = a.size() if z3.is_bv(a) else b.size()
    return z3.ULT(bv(a, bits), bv(b, bits))


def ule(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a <= b
    bits = a.size() if z3.is_bv(a) else b.size()
    return z3.ULE(bv(a, bits), bv(b, bits))


def add(a, b, bits=64):
    if isinstance(a, int) and isinstance(b, int):
        return (a + b) & ((1 << bits) - 1)
    if isinstance(b, int) and b == 0:
        return a
    if isinstance(a, int) and a == 0:
        return b
    return z3.simplify(bv(a, bits) + bv(b, bits))


def sub(a, b, bits=64):
    if isinstance(a, int) and isinstance(b, int):
        return (a - b) & ((1 << bits) - 1)
    if isinstance(b, int) and b == 0:
        return a
    r = z3.simplify(bv(a, bits) - bv(b, bits))
    return unlit(r)


def unlit(r):
    if z3.is_bv_value(r):
        return r.as_long()
    if z3.is_true(r):
        return 1
    if z3.is_false(r):
        return 0
    return r


def ite(c, a, b):
    if isinstance(c, (bool, int)):
        return a if c else b
    if same(a, b):
        return a
    bits = 64
    for x in (a, b):
        if z3.is_bv(x):
            bits = x.size()
        elif z3.is_bool(x):
            return z3.If(c, B(a), B(b))
    return z3.If(c, bv(a, bits), bv(b, bits))


def clean(n):
    return re.sub(r'[^\w.\[\]*{}\'+-]', '_', n.replace('tpp::(anonymous namespace)::', '').lstrip('@.'))


def check(cs, timeout=20000, model=False):
    """satisfiability of a list of constraints: the plain solver and bit-blasting with short limits, then translation to integers (fast on
    linear arithmetic), then bit-blasting and the general solver with the full limit.  Models never come from the
    integer translation."""
    def qf(t):
        s = z3.Tactic('qfbv').solver()
        s.set('timeout', t)
        s.add(*cs)
        return s.check(), s
    s = z3.SimpleSolver()
    s.set('timeout', 150)
    s.add(*cs)
    r = s.check()
    if r == z3.unknown:
        r, s = qf(400)
    if r == z3.unknown and not model:
        s = z3.SimpleSolver()
        s.set('smt.bv.solver', 2)
        s.set('timeout', min(timeout, 4000))
        s.add(*cs)
        r = s.check()
    if r == z3.unknown:
        r, s = qf(timeout)
    if r == z3.unknown:
        s = z3.Solver()
        s.set('timeout', timeout)
        s.add(*cs)
        r = s.check()
    return r, (s.model() if model and r == z3.sat else None)


def is_ptr(v):
    return isinstance(v, (Ptr, FPtr))


class Engine:
    MAX_DEPTH = 60
    PATH_LIMIT = 6000

    def __init__(self, module, di=None):
        self.m = module
        self.di = di or DI(module)
        self.ids = itertools.count(1)
        self.names = itertools.count(1)
        self.obs = []                 # current obligation buffer
        self.intercepts = {}          # base name -> handler
        self.intercept_re = []
        self.contracts = {}           # base name -> handler
        self.spec = None
        self.term_info = {}           # ast id -> (term, name, pointee DI type id)
        self.term_obj = {}            # ast id -> (obj id)
        self.entered = set()
        self.focus = None
        self.obj_addr = {}            # obj id -> term
        self.gobj = {}                # global name -> obj id
        self.keep = []
        self.lazy = {}
        self.depth = 0
        self.cur_dbg = None
        self.cur_fn = None
        self.stats = dict(checks=0, time=0.0, paths=0, instrs=0, loops=0)
        self.used_fns = set()
        self.used_contracts = set()
        self.used_intercepts = set()
        self.opaque_calls = set()
        self.typeids = {}
        self.loop_log = []
        self._icache = {}
        self._sat_cache = {}
        self._vars = {}
        self.fn_filter = None
        self.deadline = None
        self.inline_stack = []

    # ------------------------------------------------------------ basics
    def fresh(self, name, bits=64):
        v = z3.BitVec('%s!%d' % (clean(name), next(self.names)), bits)
        self.keep.append(v)
        return v

    def freshb(self, name):
        v = z3.Bool('%s!%d' % (clean(name), next(self.names)))
        self.keep.append(v)
        return v

    def new_obj(self, st, kind, size=None, **kw):
        o = Obj(next(self.ids), kind, size, **kw)
        o.tok = st.tok
        st.mem[o.id] = o
        return o

    def addr(self, st, oid):
        t = self.obj_addr.get(oid)
        if t is None:
            t = z3.BitVec('addr_%s' % st.mem[oid].name if oid in st.mem else 'addr_%d' % oid, 64)
            t = z3.BitVec('addr!%d' % oid, 64)
            self.obj_addr[oid] = t
        return t

    def ptr_bv(self, st, v):
        """pointer value as a 64 bit term"""
        if isinstance(v, int):
            return z3.BitVecVal(v, 64)
        if z3.is_expr(v):
            return bv(v, 64)
        if isinstance(v, FPtr):
            t = self.obj_addr.get(v.name)
            if t is None:
                t = self.obj_addr[v.name] = z3.BitVec('fn!' + v.name, 64)
            st.assume(t != 0)
            return t
        a = self.addr(st, v.obj)
        if not any(x is a for x in st.resolved):
            st.resolved = st.resolved + (a,)
            st.assume(a != 0)
        if v.idx is not None:
            es = st.mem[v.obj].meta.get('esize', 1)
            return a + bv(v.idx) * es + v.off
        if same(v.off, 0):
            return a
        return a + bv(v.off)

    def vars_of(self, c):
        """names of the constants and functions in a constraint"""
        r = self._vars.get(c.get_id())
        if r is None:
            seen, names, todo = set(), set(), [c]
            while todo:
                x = todo.pop()
                i = x.get_id()
                if i in seen:
                    continue
                seen.add(i)
                d = self._vars.get(i)
                if d is not None:
                    names |= d[0]
                    continue
                if z3.is_app(x):
                    if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                        names.add(x.decl().name())
                    todo.extend(x.children())
                else:
                    names.add('?')
            r = self._vars[c.get_id()] = (frozenset(names), c)
        return r[0]

    def relevant(self, seeds, rest):
        """the constraints of rest that share constants with the seeds, directly or through others"""
        names = set()
        for c in seeds:
            names |= self.vars_of(c)
        out = list(seeds)
        left = [(c, self.vars_of(c)) for c in rest]
        while True:
            nxt, grown = [], False
            for c, v in left:
                if names.isdisjoint(v):
                    nxt.append((c, v))
                else:
                    out.append(c)
                    if not v <= names:
                        names |= v
                        grown = True
            left = nxt
            if not grown:
                return out

    def sat(self, pc, extra=(), known=0):
        """True / False / None (unknown); the first `known` constraints of pc are satisfiable together, so that only those
        connected with the others matter"""
        cs = [c for c in pc[known:] if not (c is True)]
        cs += [B(c) for c in extra]
        for c in cs:
            if z3.is_false(c):
                return False
        if known:
            cs = self.relevant(cs, [c for c in pc[:known] if c is not True])
        key = tuple(sorted(set(c.get_id() for c in cs)))
        r = self._sat_cache.get(key)
        if r is not None:
            return r[0]
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget exceeded')
        t = time.time()
        r, _ = check(cs)
        self.stats['checks'] += 1
        self.stats['time'] += time.time() - t
        res = True if r == z3.sat else False if r == z3.unsat else None
        self._sat_cache[key] = (res, cs)
        return res

    def sat_model(self, pc, extra, known=0):
        """a model, False (unsatisfiable) or None (unknown)"""
        cs = [c for c in pc[known:] if c is not True] + [B(c) for c in extra]
        if any(z3.is_false(c) for c in cs):
            return False
        cs = self.relevant(cs, [c for c in pc[:known] if c is not True])
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget exceeded')
        t = time.time()
        r, m = check(cs, 20000, True)
        self.stats['checks'] += 1
        self.stats['time'] += time.time() - t
        return m if r == z3.sat else False if r == z3.unsat else None

    def sat_st(self, st, c=None):
        """can the state be, and c hold in it?"""
        r = self.sat(st.pc, () if c is None else (c,), st.known)
        if r is True:
            st.known = len(st.pc)
        return r

    def feasible(self, st, c):
        if isinstance(c, (bool, int)):
            return bool(c)
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return self.sat_st(st, c) is not False

    def must(self, st, c):
        if isinstance(c, (bool, int)):
            return bool(c)
        return not self.feasible(st, z3.Not(c))

    def alive(self, st):
        return self.sat_st(st) is not False

    def split(self, st, c):
        """[(state, bool)] of feasible outcomes of condition c"""
        if isinstance(c, (bool, int)):
            return [(st, bool(c))]
        c = z3.simplify(c)
        if z3.is_true(c):
            return [(st, True)]
        if z3.is_false(c):
            return [(st, False)]
        n = z3.Not(c)
        t = self.sat_st(st, c)
        if t is False:
            all_known = st.known == len(st.pc)
            st.pc.append(n)
            if all_known:
                st.known = len(st.pc)
            return [(st, False)]
        f = self.sat_st(st, n)
        if f is False:
            st.pc.append(c)
            if t is True:
                st.known = len(st.pc)
            return [(st, True)]
        s2 = st.fork()
        st.pc.append(c)
        s2.pc.append(n)
        for s, r in ((st, t), (s2, f)):
            if r is True:
                s.known = len(s.pc)
        return [(st, True), (s2, False)]

    def oblige(self, st, cond, name, tags, detail=None, dbg=None):
        if isinstance(tags, str):
            tags = (tags,)
        loc = self.di.loc(dbg or self.cur_dbg)
        if isinstance(cond, (bool, int)):
            cond = bool(cond)
        o = Obligation(name, tuple(tags), list(st.pc), cond, loc, st.trace, self.cur_fn, detail)
        self.obs.append(o)
        # what has been obliged may be assumed from here on; an obligation of another property must not hide a failure of
        # the one being decided, so it is only assumed when memory safety depends on it
        if cond is not True and (self.focus is None or self.focus in tags or 'SAFE' in tags):
            st.assume(B(cond))

    def note(self, st, msg):
        st.trace = (msg, st.trace)

    # ------------------------------------------------------------ memory
    def lazy_var(self, st, o, off, size, want_ptr=False):
        """the (deterministic) initial symbolic content of a lazily initialised cell"""
        key = (o.id, off, size, o.ep(off))
        v = self.lazy.get(key)
        if v is None:
            nm = None
            pointee = None
            if True:
                path = self.paths(o, off)
                if not path and off == 0 and isinstance(o.ty, str):
                    path = [('', 0, '', 0, o.ty)]
                if path:
                    nm = '.'.join(x[2] for x in path if x[2] and x[2] != '<base>')
                    t = self.di.strip(path[-1][4])
                    d = self.di.get(t) if t and t.startswith('!') else {}
                    if d.get('tag') in ('DW_TAG_pointer_type', 'DW_TAG_reference_type') and path[-1][3] == off:
                        pointee = d.get('baseType')
            nm = '%s.%s%s' % (o.name, nm or ('+%d' % off), "'" * 1 if o.ep(off) else '')
            v = self.fresh(nm, size * 8)
            self.lazy[key] = v
            self.term_info[v.get_id()] = (v, nm, pointee)
        return v

    def default_cell(self, st, o, off, size):
        if o.zero:
            return 0
        if o.sym:
            h = self.spec.lazy_cell(st, o, off, size) if self.spec else None
            if h is not None:
                return h
            v = self.lazy_var(st, o, off, size)
            if size == 1:
                p = self.paths(o, off)
                if p and self.di.tname(p[-1][4]) == 'bool':
                    st.assume(z3.ULE(v, 1))
            return v
        key = (o.id, off, size, 'undef', o.ep(off))
        v = self.lazy.get(key)
        if v is None:
            v = self.lazy[key] = self.fresh('undef.%s+%s' % (o.name, off), size * 8)
        return v

    def deref(self, st, p, what='access'):
        """turn a pointer value into Ptr(object, concrete offset) list of (state, Ptr)"""
        if isinstance(p, Ptr):
            o = st.mem.get(p.obj)
            if o is None:
                raise Unsupported('dangling pointer %r' % (p,))
            if p.idx is not None:
                return self.elem(st, p)
            if not isinstance(p.off, int):
                off = unlit(z3.simplify(p.off))
                if not isinstance(off, int):
                    raise Unsupported('symbolic byte offset')
                p = Ptr(p.obj, off)
            return [(st, p)]
        if isinstance(p, int):
            self.oblige(st, False, 'null-dereference', ('SAFE',), detail='%s through null pointer (%#x)' % (what, p))
            return []
        if z3.is_expr(p):
            return [(st, self.resolve(st, p))]
        raise Unsupported('dereference of %r' % (p,))

    def resolve(self, st, term):
        term = z3.simplify(term)
        off = 0
        if z3.is_app_of(term, z3.Z3_OP_BADD) and z3.is_bv_value(term.arg(0)):
            off = term.arg(0).as_long()
            if off >= 1 << 63:
                off -= 1 << 64
            if term.num_args() != 2:
                raise Unsupported('pointer arithmetic ' + str(term))
            term = term.arg(1)
        k = term.get_id()
        oid = self.term_obj.get(k)
        if oid is None:
            # equal to the address of a known object?
            for cand, a in list(self.obj_addr.items()):
                if isinstance(cand, int) and cand in st.mem and self.must(st, a == term):
                    return Ptr(cand, off)
            info = self.term_info.get(k)
            oid = next(self.ids)
            self.term_obj[k] = oid
            self.keep.append(term)
            self.obj_addr[oid] = term
        if oid not in st.mem:
            info = self.term_info.get(k)
            ty = self.di.strip(info[2]) if info and info[2] else None
            o = Obj(oid, 'sym', self.di.size(ty) if ty else None, sym=True, ty=ty, fresh=False,
                    name='*' + (info[1] if info else 'p%d' % oid))
            o.tok = st.tok
            st.mem[oid] = o
            if self.spec:
                self.spec.on_new_object(st, o)
        st.assume(term != 0)
        return Ptr(oid, off)

    def elem(self, st, p):
        """resolve pointer into a buffer/table to the element object"""
        o = st.mem[p.obj]
        es = o.meta['esize']
        off, idx = p.off, p.idx
        if not isinstance(off, int):
            raise Unsupported('symbolic offset in element')
        if off < 0 or off >= es:
            idx = add(idx, (off // es) & M64)
            off = off % es
        if o.kind == 'tab':
            hs = o.meta['hs']
            return [(s, Ptr(e, off - hs)) for s, e in stdlib.tab_at(self, st, o.id, idx)]
        return [(s, Ptr(e, off)) for s, e in self.buf_elem(st, o.id, idx)]

    def buf_elem(self, st, bid, idx):
        """[(state, element object id)] for index idx of buffer bid"""
        o = st.mem[bid]
        for j, e in o.meta['elems']:
            if same(j, idx):
                return [(st, e)]
        res = []
        cur = st
        for j, e in o.meta['elems']:
            c = eq(j, idx)
            if c is False:
                continue
            parts = self.split(cur, c)
            nxt = None
            for s, b in parts:
                if b:
                    res.append((s, e))
                else:
                    nxt = s
            cur = nxt
            if cur is None:
                break
        if cur is not None:
            res.append((cur, self.buf_new_elem(cur, bid, idx)))
        return res

    def buf_new_elem(self, st, bid, idx, sym=None):
        o = st.w(bid)
        e = self.new_obj(st, 'elem', o.meta['esize'], sym=o.sym if sym is None else sym, zero=o.zero, ty=o.meta.get('ety'),
                         fresh=o.fresh, name='%s[%s]' % (o.name, str(idx)[:24]))
        e.meta['parent'] = bid
        o.meta['elems'] = o.meta['elems'] + ((idx, e.id),)
        if o.sym and self.spec and (sym is None or sym):
            self.spec.on_new_elem(st, o, e, idx)
        return e.id

    def load(self, st, p, size):
        """list of (state, value)"""
        out = []
        for s, q in self.deref(st, p, 'load'):
            for s2 in self.access(s, q, size, False):
                out.append((s2, self.load_at(s2, q.obj, q.off, size)))
        return out

    def access(self, st, q, size, write, atomic=False):
        if self.spec is not None:
            self.spec.on_access(st, q, size, write, atomic)
        return [st]

    def load_at(self, st, oid, off, size):
        o = st.mem[oid]
        c = o.cells.get(off)
        if c is not None and c[0] == size:
            return c[1]
        if o.kind == 'global' and 'init' in o.meta:
            self.init_global(st, oid)
            return self.load_at(st, oid, off, size)
        # overlapping cells?
        ov = [(k, v) for k, v in o.cells.items() if k < off + size and k + v[0] > off]
        if not ov:
            v = self.default_cell(st, o, off, size)
            o = st.w(oid)
            o.cells[off] = (size, v)
            return v
        # inside one larger cell
        for k, (s, v) in ov:
            if k <= off and k + s >= off + size:
                if isinstance(v, int):
                    return (v >> (8 * (off - k))) & ((1 << 8 * size) - 1)
                if z3.is_bv(v):
                    lo = 8 * (off - k)
                    return unlit(z3.simplify(z3.Extract(lo + 8 * size - 1, lo, v)))
                if z3.is_bool(v):
                    v = bv(v, 8 * s)
                    lo = 8 * (off - k)
                    return unlit(z3.simplify(z3.Extract(lo + 8 * size - 1, lo, v)))
                raise Unsupported('partial load of %r' % (v,))
        # concatenation of bytes
        parts = []
        pos = off
        ovd = dict(ov)
        while pos < off + size:
            if pos in ovd and pos + ovd[pos][0] <= off + size:
                s, v = ovd[pos]
                parts.append((s, v))
                pos += s
            else:
                nxt = min([k for k in ovd if k > pos] + [off + size])
                cov = [k for k, (s, v) in ov if k <= pos < k + s]
                if cov:
                    raise Unsupported('misaligned load')
                n = nxt - pos
                parts.append((n, self.default_cell(st, o, pos, n)))
                pos = nxt
        r = None
        for s, v in parts:
            if is_ptr(v) or isinstance(v, (VecVal, MapVal)):
                raise Unsupported('load across pointer cell')
            b = bv(v, 8 * s)
            r = b if r is None else z3.Concat(b, r)
        return unlit(z3.simplify(r))

    def store(self, st, p, size, v):
        out = []
        for s, q in self.deref(st, p, 'store'):
            for s2 in self.access(s, q, size, True):
                self.store_at(s2, q.obj, q.off, size, v)
                out.append(s2)
        return out

    def store_at(self, st, oid, off, size, v):
        o = st.w(oid)
        if o.kind == 'global' and 'init' in o.meta:
            self.init_global(st, oid)
            o = st.w(oid)
        cells = o.cells
        c = cells.get(off)
        if c is None or c[0] != size:
            for k in [k for k, x in cells.items() if k < off + size and k + x[0] > off]:
                s, old = cells[k]
                del cells[k]
                if k >= off and k + s <= off + size:
                    continue
                if is_ptr(old) or isinstance(old, (VecVal, MapVal)):
                    raise Unsupported('partial overwrite of pointer cell')
                ob = bv(old, 8 * s)
                if k < off:
                    n = off - k
                    cells[k] = (n, unlit(z3.simplify(z3.Extract(8 * n - 1, 0, ob))))
                if k + s > off + size:
                    n = k + s - off - size
                    cells[off + size] = (n, unlit(z3.simplify(z3.Extract(8 * s - 1, 8 * (s - n), ob))))
        cells[off] = (size, v)
        if self.spec is not None:
            self.spec.after_store(st, o, off, size, v)

    def copy_mem(self, st, dst, src, n):
        """memcpy of a concrete number of bytes between Ptrs with concrete offsets"""
        so = st.mem[src.obj]
        if so.kind == 'global' and 'init' in so.meta:
            self.init_global(st, src.obj)
            so = st.mem[src.obj]
        cells = sorted((k, v) for k, v in so.cells.items() if k < src.off + n and k + v[0] > src.off)
        for k, (s, v) in cells:
            if k < src.off or k + s > src.off + n:
                raise Unsupported('memcpy through the middle of a cell')
        items = []
        pos = src.off
        for k, (s, v) in cells + [(src.off + n, (0, None))]:
            while pos < k:
                g = 8 if (pos % 8 == 0 and pos + 8 <= k) else 4 if (pos % 4 == 0 and pos + 4 <= k) else 1
                if so.sym or so.zero:
                    items.append((pos, g, self.load_at(st, src.obj, pos, g)))
                pos += g
            if s:
                items.append((k, s, v))
            pos = k + s
        # drop destination cells
        do = st.w(dst.obj)
        for k in [k for k, x in do.cells.items() if k < dst.off + n and k + x[0] > dst.off]:
            s, old = do.cells[k]
            if k < dst.off or k + s > dst.off + n:
                raise Unsupported('memcpy over the middle of a cell')
            del do.cells[k]
        if not (so.sym or so.zero):
            do.epoch = do.epoch + ((dst.off, dst.off + n, next(self.names)),) if do.sym else do.epoch
        for k, s, v in items:
            self.store_at(st, dst.obj, dst.off + k - src.off, s, v)

    def havoc_range(self, st, oid, lo, hi):
        o = st.w(oid)
        for k in [k for k, x in o.cells.items() if k < hi and k + x[0] > lo]:
            del o.cells[k]
        o.epoch = tuple(e for e in o.epoch if not (lo <= e[0] and e[1] <= hi)) + ((lo, hi, next(self.names)),)
        if not o.sym:
            o.sym = True
        o.zero = False

    # ------------------------------------------------------------ globals
    def global_ptr(self, st, name):
        if name in self.m.functions:
            return FPtr(name)
        oid = self.gobj.get(name)
        if oid is None:
            oid = self.gobj[name] = next(self.ids)
        if oid not in st.mem:
            raw = self.m.globals.get(name)
            o = Obj(oid, 'global', None, name='@' + self.m.dem.get(name, name), fresh=False)
            o.tok = st.tok
            m = None
            if raw is not None:
                o.meta['raw'] = raw
                m = re.search(r', !dbg (!\d+)', raw)
                if m:
                    d = self.di.get(m.group(1))
                    if d.get('var'):
                        d = self.di.get(d['var'])
                    o.ty = self.di.strip(d.get('type'))
                if re.search(r'\bconstant\b', raw) and not re.match(r'external', raw):
                    o.meta['init'] = raw
                else:
                    # mutable state: arbitrary content
                    o.sym = True
                    o.size = self.di.size(o.ty) if o.ty else None
                if 'thread_local' in raw:
                    o.meta['tls'] = True
            else:
                o.sym = True
            st.mem[oid] = o
            if self.spec:
                self.spec.on_global(st, o, name)
        return Ptr(oid, 0)

    def init_global(self, st, oid):
        o = st.w(oid)
        raw = o.meta.pop('init')
        toks = IR.tokenize(re.sub(r', !dbg !\d+', '', raw))
        k = max(i for i, t in enumerate(toks) if t in ('constant', 'global') and
                all(x not in toks[:i] for x in ('constant', 'global')))
        p = IR.Parser(self.m, toks)
        p.i = k + 1
        ty = p.type()
        v = p.value(ty)
        o.size = self.m.layout(ty)[0]
        if 'thread_local' in raw:
            o.meta['tls'] = True
        o.zero = True
        self.init_const(st, oid, 0, ty, v)

    def init_const(self, st, oid, off, ty, v):
        k = v[0]
        if k == 'zero':
            return
        if k == 'undef':
            return
        if k == 'agg':
            o2 = 0
            rt = self.m.resolve(ty)
            for j, (et, ev) in enumerate(v[1]):
                fo, _ = self.m.field_offset(rt, j)
                self.init_const(st, oid, off + fo, et, ev)
            return
        if k == 'str':
            s = re.sub(r'\\([0-9A-Fa-f]{2})', lambda m: chr(int(m.group(1), 16)), v[1])
            o = st.w(oid)
            for j, ch in enumerate(s):
                o.cells[off + j] = (1, ord(ch) & 255)
            return
        val = self.const(st, ty, v)
        st.w(oid).cells[off] = (self.m.layout(ty)[0], val)

    def const(self, st, ty, v):
        k = v[0]
        if k == 'c':
            if ty[0] == 'i':
                return v[1] & ((1 << ty[1]) - 1)
            return v[1]
        if k == 'g':
            return self.global_ptr(st, v[1])
        if k == 'undef':
            return self.undef(ty)
        if k == 'zero':
            return self.zero(ty)
        if k == 'gep':
            bt, ops = v[1], v[2]
            base = self.const(st, ops[0][0], ops[0][1])
            idx = [self.const(st, t, x) for t, x in ops[1:]]
            return self.gep(st, bt, base, idx)
        if k == 'cast':
            return self.const(st, v[2], v[3])
        if k == 'agg':
            return [self.const(st, t, x) for t, x in v[1]]
        if k == 'fp':
            return ('fp', v[1])
        if k == 'binexpr':
            a = self.const(st, v[2], v[3])
            b = self.const(st, v[2], v[4])
            return self.binop(st, v[1], v[2], a, b)
        raise Unsupported('constant %r' % (v,))

    def undef(self, ty):
        k = ty[0]
        if k == 'i':
            return self.freshb('undef') if ty[1] == 1 else self.fresh('undef', ty[1])
        if k == 'ptr':
            return self.fresh('undefp', 64)
        if k in ('lit', 'named', 'arr'):
            rt = self.m.resolve(ty)
            if rt[0] == 'lit':
                return [self.undef(t) for t in rt[1]]
            if rt[0] == 'arr':
                return [self.undef(rt[2]) for _ in range(rt[1])]
        if k == 'fp':
            return ('fp', None)
        if k == 'void':
            return None
        return None

    def zero(self, ty):
        k = ty[0]
        if k in ('i', 'ptr'):
            return 0
        rt = self.m.resolve(ty)
        if rt[0] == 'lit':
            return [self.zero(t) for t in rt[1]]
        if rt[0] in ('arr', 'vec'):
            return [self.zero(rt[2]) for _ in range(rt[1])]
        if k == 'fp':
            return ('fp', '0.0')
        return 0

    # ------------------------------------------------------------ operators
    def gep(self, st, bt, base, idx):
        """constant or symbolic pointer arithmetic"""
        off = 0
        ty = bt
        sym = None
        for j, n in enumerate(idx):
            if j == 0:
                s = self.m.layout(bt)[0]
            else:
                rt = self.m.resolve(ty)
                if rt[0] == 'lit':
                    fo, ty = self.m.field_offset(rt, n)
                    off += fo
                    continue
                ty = rt[2]
                s = self.m.layout(ty)[0]
            if isinstance(n, PDiff):
                n = self.undiff(n)
            if isinstance(n, int):
                if n >= 1 << 63:
                    n -= 1 << 64
                elif n >= 1 << 31 and n < 1 << 32:
                    n -= 1 << 32
                off += n * s
            else:
                if n.size() == 32:
                    n = z3.SignExt(32, n)
                if sym is not None:
                    raise Unsupported('gep with two symbolic indices')
                sym = (n, s)
        if isinstance(base, int):
            if sym:
                raise Unsupported('gep null sym')
            return (base + off) & M64
        if z3.is_expr(base):
            if off == 0 and sym is None:
                return base
            base = self.resolve(st, base)
        if isinstance(base, FPtr):
            raise Unsupported('gep on function')
        if base.idx is not None:
            es = st.mem[base.obj].meta['esize']
            i = base.idx
            o = base.off + off
            if sym:
                if sym[1] != es:
                    raise Unsupported('gep stride')
                i = add(i, sym[0])
            q, r = divmod(o, es)
            if q:
                i = add(i, q & M64)
            return Ptr(base.obj, r, i)
        o = base.off
        if sym:
            o = bv(o) + bv(sym[0]) * sym[1]
        o = add(o, off & M64) if not isinstance(o, int) else o + off
        return Ptr(base.obj, o)

    def undiff(self, d):
        if isinstance(d.n, int):
            return (d.n * d.e) & M64
        return bv(d.n) * d.e

    def binop(self, st, op, ty, a, b):
        if ty[0] == 'fp':
            return ('fp', None)
        n = ty[1]
        mask = (1 << n) - 1
        if isinstance(a, PDiff) or isinstance(b, PDiff):
            if isinstance(a, PDiff) and isinstance(b, int):
                if op in ('sdiv', 'udiv') and b == a.e:
                    return a.n
                if op == 'ashr' and (1 << b) == a.e:
                    return a.n
            if isinstance(a, PDiff):
                a = self.undiff(a)
            if isinstance(b, PDiff):
                b = self.undiff(b)
        if is_ptr(a) or is_ptr(b):
            if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
                if a.idx is not None or b.idx is not None:
                    es = st.mem[a.obj].meta['esize']
                    d = sub(a.idx if a.idx is not None else 0, b.idx if b.idx is not None else 0)
                    if same(a.off, b.off):
                        if isinstance(d, int):
                            return (d * es) & M64
                        return PDiff(d, es)
                    return add(bv(d) * es, (a.off - b.off) & M64)
                return sub(a.off, b.off)
            if op == 'add' and isinstance(b, int) and isinstance(a, Ptr):
                return self.gep(st, ('i', 8), a, [b])
            if op in ('and', 'or', 'sub', 'add', 'urem', 'xor', 'lshr'):
                a = self.ptr_bv(st, a) if is_ptr(a) else a
                b = self.ptr_bv(st, b) if is_ptr(b) else b
            else:
                raise Unsupported('binop %s on pointers' % op)
        if n == 1:
            if isinstance(a, int) and isinstance(b, int):
                return {'and': a & b, 'or': a | b, 'xor': a ^ b, 'add': a ^ b, 'sub': a ^ b}[op]
            if op == 'and':
                return And(bool(a) if isinstance(a, int) else a, bool(b) if isinstance(b, int) else b) + 0 \
                    if isinstance(a, int) and isinstance(b, int) else self._b1(And(self._pb(a), self._pb(b)))
            if op == 'or':
                return self._b1(Or(self._pb(a), self._pb(b)))
            if op in ('xor', 'add', 'sub'):
                if isinstance(b, int):
                    return Not(a) if b else a
                if isinstance(a, int):
                    return Not(b) if a else b
                return z3.Xor(a, b)
            raise Unsupported('i1 ' + op)
        if isinstance(a, int) and isinstance(b, int):
            def sg(x):
                return x - (1 << n) if x >> (n - 1) else x
            if op == 'add':
                r = a + b
            elif op == 'sub':
                r = a - b
            elif op == 'mul':
                r = a * b
            elif op == 'and':
                r = a & b
            elif op == 'or':
                r = a | b
            elif op == 'xor':
                r = a ^ b
            elif op == 'shl':
                r = a << b
            elif op == 'lshr':
                r = a >> b
            elif op == 'ashr':
                r = sg(a) >> b
            elif op == 'udiv':
                r = a // b
            elif op == 'urem':
                r = a % b
            elif op == 'sdiv':
                x, y = sg(a), sg(b)
                r = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
            elif op == 'srem':
                x, y = sg(a), sg(b)
                r = abs(x) % abs(y) * (1 if x >= 0 else -1)
            return r & mask
        if isinstance(b, int) and b == 0 and op in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            return a
        if isinstance(b, int) and b == 1 and op in ('mul', 'sdiv', 'udiv'):
            return a
        x, y = bv(a, n), bv(b, n)
        f = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'and': lambda: x & y, 'or': lambda: x | y,
             'xor': lambda: x ^ y, 'shl': lambda: x << y, 'lshr': lambda: z3.LShR(x, y), 'ashr': lambda: x >> y,
             'udiv': lambda: z3.UDiv(x, y), 'urem': lambda: z3.URem(x, y), 'sdiv': lambda: x / y,
             'srem': lambda: z3.SRem(x, y)}[op]
        return unlit(z3.simplify(f()))

    def _pb(self, a):
        return bool(a) if isinstance(a, int) else a

    def _b1(self, a):
        return int(a) if isinstance(a, bool) else a

    def ptr_eq(self, st, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return a == b
        if isinstance(a, FPtr) and isinstance(b, FPtr):
            return a.name == b.name
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.obj != b.obj:
                return False
            c = eq(a.off, b.off)
            if a.idx is None and b.idx is None:
                return c
            return And(c, eq(a.idx if a.idx is not None else 0, b.idx if b.idx is not None else 0))
        if is_ptr(a) and isinstance(b, int) or is_ptr(b) and isinstance(a, int):
            p, n = (a, b) if is_ptr(a) else (b, a)
            if n == 0:
                return False
            return self.ptr_bv(st, p) == n
        if isinstance(a, (Ptr, FPtr)) and z3.is_expr(b) or isinstance(b, (Ptr, FPtr)) and z3.is_expr(a):
            p, t = (a, b) if is_ptr(a) else (b, a)
            if isinstance(p, Ptr) and st.mem[p.obj].fresh and p.idx is None:
                # a term that existed before cannot be the address of a private object
                at = self.obj_addr.get(p.obj)
                if at is None:
                    return False
            return self.ptr_bv(st, p) == bv(t)
        return eq(a, b)

    def icmp(self, st, pred, ty, a, b):
        if isinstance(a, PDiff):
            a = self.undiff(a)
        if isinstance(b, PDiff):
            b = self.undiff(b)
        if ty[0] == 'ptr' or is_ptr(a) or is_ptr(b):
            if pred == 'eq':
                return self._b1(self.ptr_eq(st, a, b))
            if pred == 'ne':
                return self._b1(Not(self.ptr_eq(st, a, b)))
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
                if a.idx is not None or b.idx is not None:
                    a, b = (a.idx if a.idx is not None else 0), (b.idx if b.idx is not None else 0)
                else:
                    a, b = a.off, b.off
                ty = ('i', 64)
            else:
                a, b = self.ptr_bv(st, a), self.ptr_bv(st, b)
                ty = ('i', 64)
        n = ty[1] if ty[0] == 'i' else 64
        if pred == 'eq':
            return self._b1(eq(a, b))
        if pred == 'ne':
            return self._b1(Not(eq(a, b)))
        if isinstance(a, int) and isinstance(b, int):
            def sg(x):
                return x - (1 << n) if x >> (n - 1) else x
            if pred[0] == 's':
                a, b = sg(a), sg(b)
            return int({'lt': a < b, 'gt': a > b, 'le': a <= b, 'ge': a >= b}[pred[1:]])
        x, y = bv(a, n), bv(b, n)
        f = {'ult': z3.ULT, 'ugt': z3.UGT, 'ule': z3.ULE, 'uge': z3.UGE, 'slt': lambda p, q: p < q, 'sgt': lambda p, q: p > q,
             'sle': lambda p, q: p <= q, 'sge': lambda p, q: p >= q}[pred]
        return unlit(z3.simplify(f(x, y)))

    def cast(self, st, op, t1, v, t2):
        if op in ('bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast'):
            return v
        if op in ('sitofp', 'uitofp', 'fpext', 'fptrunc'):
            return ('fp', None)
        if op in ('fptosi', 'fptoui'):
            return self.fresh('fp', t2[1])
        n1, n2 = t1[1], t2[1]
        if isinstance(v, PDiff):
            v = self.undiff(v)
        if is_ptr(v):
            v = self.ptr_bv(st, v)
        if op == 'trunc':
            if isinstance(v, int):
                return v & ((1 << n2) - 1)
            if z3.is_bool(v):
                return v
            if n2 == 1:
                if z3.is_app_of(v, z3.Z3_OP_ITE) and z3.is_bv_value(v.arg(1)) and z3.is_bv_value(v.arg(2)) \
                        and v.arg(1).as_long() == 1 and v.arg(2).as_long() == 0:
                    return v.arg(0)
                return unlit(z3.simplify(z3.Extract(0, 0, v) == 1))
            return unlit(z3.simplify(z3.Extract(n2 - 1, 0, v)))
        if op == 'zext':
            if isinstance(v, int):
                return v
            if n1 == 1:
                return bv(v, n2)
            return z3.simplify(z3.ZeroExt(n2 - n1, v))
        if op == 'sext':
            if isinstance(v, int):
                if v >> (n1 - 1):
                    v |= ((1 << n2) - 1) & ~((1 << n1) - 1)
                return v
            if n1 == 1:
                return z3.If(v, z3.BitVecVal(-1, n2), z3.BitVecVal(0, n2))
            return z3.simplify(z3.SignExt(n2 - n1, v))
        raise Unsupported('cast ' + op)

    # ------------------------------------------------------------ typed load/store
    def load_ty(self, st, ty, p):
        rt = self.m.resolve(ty)
        if rt[0] in ('lit', 'arr'):
            n = len(rt[1]) if rt[0] == 'lit' else rt[1]
            outs = [(st, [])]
            for j in range(n):
                fo, ft = self.m.field_offset(rt, j)
                nxt = []
                for s, acc in outs:
                    q = self.gep(s, ('i', 8), p, [fo])
                    for s2, v in self.load_ty(s, ft, q):
                        nxt.append((s2, acc + [v]))
                outs = nxt
            return outs
        if rt[0] == 'fp':
            return [(st, ('fp', None))]
        size = self.m.layout(rt)[0]
        outs = []
        for s, v in self.load(st, p, size):
            if rt[0] == 'i' and rt[1] == 1:
                v = self.cast(s, 'trunc', ('i', 8), v, ('i', 1))
            outs.append((s, v))
        return outs

    def store_ty(self, st, ty, p, v):
        rt = self.m.resolve(ty)
        if rt[0] in ('lit', 'arr'):
            n = len(rt[1]) if rt[0] == 'lit' else rt[1]
            outs = [st]
            for j in range(n):
                fo, ft = self.m.field_offset(rt, j)
                nxt = []
                for s in outs:
                    q = self.gep(s, ('i', 8), p, [fo])
                    nxt.extend(self.store_ty(s, ft, q, v[j]))
                outs = nxt
            return outs
        if rt[0] == 'fp':
            return [st]
        size = self.m.layout(rt)[0]
        if rt[0] == 'i' and rt[1] == 1:
            v = self.cast(st, 'zext', ('i', 1), v, ('i', 8))
        return self.store(st, p, size, v)

    # ------------------------------------------------------------ execution
    def find(self, base):
        """symbols (defined functions) with the given base name"""
        return [n for n in self.m.by_base.get(base, []) if not self.m.functions[n].is_decl]

    def call(self, st, name, args, fty=None, top=False):
        """list of (state, 'ret'|'throw', value)"""
        fn = self.m.functions.get(name)
        base = self.m.bases.get(name, name)
        h = self.intercepts.get(base)
        if h is None and name in self._icache:
            h = self._icache[name]
        elif h is None:
            for rx, hh in self.intercept_re:
                if rx.match(base):
                    h = hh
                    break
            self._icache[name] = h
        if h is not None:
            r = h(self, st, name, args, fty)
            if r is not NotImplemented:
                self.used_intercepts.add(base)
                return r
        if not top:
            c = self.contracts.get(base)
            if c is not None:
                r = c(self, st, name, args, fty)
                if r is not NotImplemented:
                    self.used_contracts.add(base)
                    return r
        if fn is None or fn.is_decl:
            r = self.spec.on_external(st, name, base, args, fty) if self.spec else None
            if r is None:
                raise Unsupported('call to external function %s' % self.m.dem.get(name, name))
            return r
        self.entered.add(base)
        return self.exec_fn(st, fn, args)

    def exec_fn(self, st, fn, args):
        fn.parse()
        if self.depth > self.MAX_DEPTH:
            raise Unsupported('call depth')
        if self.inline_stack.count(fn.name) > 3:
            raise Unsupported('recursion in %s' % fn.name)
        self.used_fns.add(fn.name)
        saved = (self.cur_fn, self.cur_dbg)
        self.inline_stack.append(fn.name)
        self.depth += 1
        # constructors tell us the type of raw memory
        base = self.m.bases[fn.name]
        p = base.rsplit('::', 2)
        if len(p) >= 2 and p[-1] == p[-2].split('<')[0] and args and isinstance(args[0], Ptr) and isinstance(args[0].off, int) \
                and args[0].idx is None and args[0].obj in st.mem:
            tn = class_of(self.m.dem[fn.name])
            if tn:
                o = st.w(args[0].obj)
                if (args[0].off, tn) not in o.tags:
                    o.tags = o.tags + ((args[0].off, tn),)
        env = {}
        for (ty, nm, at), v in zip(fn.params, args):
            env[nm] = v
        ids0 = next(self.ids)
        res = []
        try:
            for r in self.run(st, env, fn, fn.order[0], None):
                if r[0] == 'ret':
                    res.append((r[1], 'ret', r[2]))
                elif r[0] == 'throw':
                    res.append((r[1], 'throw', r[2]))
                else:
                    raise Unsupported('stray edge')
        except Unsupported as e:
            if not hasattr(e, 'stack'):
                e.stack = [(self.di.loc(self.cur_dbg), self.inline_stack[:])]
            raise
        finally:
            self.depth -= 1
            self.inline_stack.pop()
            self.cur_fn, self.cur_dbg = saved
        # free the frame
        for s, k, v in res:
            fr = [oid for oid, o in s.mem.items() if o.kind == 'alloca' and o.meta.get('frame') == self.depth + 1]
            for oid in fr:
                del s.mem[oid]
        return res

    def run(self, st, env, fn, block, prev, loop=None, trial=None):
        """explore from block; loop: header of the enclosing loop region being executed (edges leaving it or
        returning to its header are collected).  Results: ('ret',st,v) ('throw',st,e) ('edge',st,env,target,prev)"""
        results = []
        work = []
        body = fn.loops[loop] if loop is not None else None

        def goto(s, e, target, frm):
            if body is not None:
                if target == loop or target not in body:
                    results.append(('edge', s, e, target, frm))
                    return
            if target in fn.loops:
                for r in self.run_loop(s, e, fn, target, frm):
                    if r[0] == 'edge':
                        goto(r[1], r[2], r[3], r[4])
                    else:
                        results.append(r)
                return
            work.append((s, e, target, frm, 0))

        if loop == block:
            work.append((st, env, block, prev, 0))
        else:
            goto(st, env, block, prev)
        n = 0
        while work:
            s, e, b, frm, i = work.pop()
            n += 1
            if n > self.PATH_LIMIT:
                raise Unsupported('path limit in %s' % self.m.dem[fn.name])
            self.step(s, e, fn, b, frm, i, work, results, goto, loop, trial)
        return results

    def val(self, st, env, ty, v):
        k = v[0]
        if k == 'l':
            return env[v[1]]
        return self.const(st, ty, v)

    def step(self, st, env, fn, b, frm, i, work, results, goto, loop, trial):
        ins = fn.blocks[b]
        # phis
        if i == 0 and ins and ins[0].op == 'phi':
            vals = {}
            while ins[i].op == 'phi':
                I = ins[i]
                for v, lab in I.a[0]:
                    if lab == frm:
                        vals[I.dst] = self.val(st, env, I.ty, v)
                        break
                else:
                    raise Unsupported('phi')
                i += 1
            env.update(vals)
        while True:
            I = ins[i]
            i += 1
            self.stats['instrs'] += 1
            op = I.op
            if I.dbg:
                self.cur_dbg = I.dbg
            self.cur_fn = fn.name
            if op == 'alloca':
                cnt = I.a[0]
                n = 1
                if cnt:
                    n = self.val(st, env, cnt[0], cnt[1])
                o = self.new_obj(st, 'alloca', self.m.layout(I.ty)[0] * n, name='%' + I.dst)
                o.meta['frame'] = self.depth
                o.meta['fn'] = fn.name
                env[I.dst] = Ptr(o.id, 0)
            elif op == 'load':
                p = self.val(st, env, ('ptr',), I.a[0])
                if I.a[1]:
                    outs = self.atomic_load(st, I.ty, p)
                else:
                    outs = self.load_ty(st, I.ty, p)
                if not outs:
                    return
                for s, v in outs[1:]:
                    e2 = dict(env)
                    e2[I.dst] = v
                    work.append((s, e2, b, frm, i))
                st, v = outs[0]
                env[I.dst] = v
            elif op == 'store':
                p = self.val(st, env, ('ptr',), I.a[1])
                v = self.val(st, env, I.ty, I.a[0])
                if I.a[2]:
                    outs = self.atomic_store(st, I.ty, p, v)
                else:
                    outs = self.store_ty(st, I.ty, p, v)
                if not outs:
                    return
                for s in outs[1:]:
                    work.append((s, dict(env), b, frm, i))
                st = outs[0]
            elif op == 'getelementptr':
                base = self.val(st, env, ('ptr',), I.a[0])
                idx = [self.val(st, env, t, x) for t, x in I.a[1]]
                env[I.dst] = self.gep(st, I.ty, base, idx)
            elif op in IR.BINOPS:
                env[I.dst] = self.binop(st, op, I.ty, self.val(st, env, I.ty, I.a[0]), self.val(st, env, I.ty, I.a[1]))
            elif op == 'icmp':
                env[I.dst] = self.icmp(st, I.a[0], I.ty, self.val(st, env, I.ty, I.a[1]), self.val(st, env, I.ty, I.a[2]))
            elif op == 'fcmp':
                env[I.dst] = self.freshb('fcmp')
            elif op in IR.CASTS:
                env[I.dst] = self.cast(st, op, I.a[0], self.val(st, env, I.a[0], I.a[1]), I.ty)
            elif op == 'select':
                c = self.val(st, env, ('i', 1), I.a[0])
                x = self.val(st, env, I.ty, I.a[1])
                y = self.val(st, env, I.ty, I.a[2])
                if isinstance(c, int):
                    env[I.dst] = x if c else y
                elif all(isinstance(t, int) or z3.is_expr(t) for t in (x, y)) and I.ty[0] == 'i':
                    env[I.dst] = z3.If(c, bv(x, I.ty[1]), bv(y, I.ty[1])) if I.ty[1] > 1 else z3.If(c, B(x), B(y))
                else:
                    parts = self.split(st, c)
                    for s, t in parts[1:]:
                        e2 = dict(env)
                        e2[I.dst] = x if t else y
                        work.append((s, e2, b, frm, i))
                    st, t = parts[0]
                    env[I.dst] = x if t else y
            elif op in ('call', 'invoke'):
                f = I.a[0]
                args = []
                for t, v, at in I.a[1]:
                    if t == ('metadata',):
                        args.append(None)
                        continue
                    a = self.val(st, env, t, v)
                    if 'byval' in at:
                        a = self.byval_copy(st, a, at['byval'])
                    args.append(a)
                if f[0] == 'g' and f[1].startswith('llvm.'):
                    outs = self.intrinsic(st, f[1], args, I)
                elif f[0] == 'asm':
                    outs = [(st, 'ret', self.undef(I.ty))]
                else:
                    fv = self.val(st, env, ('ptr',), f)
                    outs = self.call_value(st, fv, args, I.ty)
                if op == 'call':
                    first = True
                    cont = None
                    for s, k, v in outs:
                        if k == 'throw':
                            results.append(('throw', s, v))
                            continue
                        if cont is None:
                            cont = (s, v)
                        else:
                            e2 = dict(env)
                            if I.dst is not None:
                                e2[I.dst] = v
                            work.append((s, e2, b, frm, i))
                    if cont is None:
                        return
                    st = cont[0]
                    if I.dst is not None:
                        env[I.dst] = cont[1]
                    self.cur_fn = fn.name
                    if I.dbg:
                        self.cur_dbg = I.dbg
                else:
                    for s, k, v in outs:
                        e2 = dict(env)
                        if k == 'throw':
                            self.landing(s, e2, fn, v, I.a[3], b, goto, results)
                        else:
                            if I.dst is not None:
                                e2[I.dst] = v
                            goto(s, e2, I.a[2], b)
                    return
            elif op == 'br':
                if len(I.a) == 1:
                    goto(st, env, I.a[0], b)
                    return
                c = self.val(st, env, ('i', 1), I.a[0])
                if isinstance(c, int):
                    goto(st, env, I.a[1] if c else I.a[2], b)
                    return
                parts = self.split(st, c)
                if len(parts) == 2 and trial is not None and loop is not None:
                    body = fn.loops[loop]
                    if (I.a[1] not in body) != (I.a[2] not in body):
                        if b == loop or not trial.get('hdr_exit'):
                            raise NeedCut(loop)
                for s, t in parts:
                    if len(parts) == 2:
                        l = self.di.loc(I.dbg)
                        self.note(s, '%s:%d %s' % (l[0].split('/')[-1], l[1], 'taken' if t else 'not taken'))
                    goto(s, dict(env), I.a[1] if t else I.a[2], b)
                return
            elif op == 'switch':
                v = self.val(st, env, I.ty, I.a[0])
                if isinstance(v, int):
                    for cv, lab in I.a[2]:
                        if (cv & ((1 << I.ty[1]) - 1)) == v:
                            goto(st, env, lab, b)
                            return
                    goto(st, env, I.a[1], b)
                    return
                cur = st
                for cv, lab in I.a[2]:
                    nxt = None
                    for s, t in self.split(cur, eq(v, cv & ((1 << I.ty[1]) - 1))):
                        if t:
                            goto(s, dict(env), lab, b)
                        else:
                            nxt = s
                    cur = nxt
                    if cur is None:
                        return
                goto(cur, dict(env), I.a[1], b)
                return
            elif op == 'ret':
                v = None if I.a[0] is None else self.val(st, env, I.ty, I.a[0])
                results.append(('ret', st, v))
                return
            elif op == 'extractvalue':
                v = self.val(st, env, I.ty, I.a[0])
                for k in I.a[1]:
                    v = v[k]
                env[I.dst] = v
            elif op == 'insertvalue':
                v = self.val(st, env, I.ty, I.a[0])
                w = self.val(st, env, I.a[1], I.a[2])
                env[I.dst] = self.insert(v, w, I.a[3])
            elif op == 'resume':
                v = self.val(st, env, I.ty, I.a[0])
                results.append(('throw', st, self.exc_of(st, v[0])))
                return
            elif op == 'unreachable':
                return
            elif op == 'landingpad':
                pass                     # the value was bound by landing()
            elif op == 'fence':
                pass
            elif op == 'freeze':
                env[I.dst] = self.val(st, env, I.ty, I.a[0])
            elif op == 'fneg':
                env[I.dst] = ('fp', None)
            elif op == 'cmpxchg':
                p = self.val(st, env, ('ptr',), I.a[0])
                c = self.val(st, env, I.ty, I.a[1])
                n = self.val(st, env, I.ty, I.a[2])
                outs = self.atomic_cmpxchg(st, I.ty, p, c, n)
                for s, v in outs[1:]:
                    e2 = dict(env)
                    e2[I.dst] = v
                    work.append((s, e2, b, frm, i))
                st, env[I.dst] = outs[0]
            elif op == 'atomicrmw':
                p = self.val(st, env, ('ptr',), I.a[1])
                v = self.val(st, env, I.ty, I.a[2])
                outs = self.atomic_rmw(st, I.ty, I.a[0], p, v)
                if not outs:
                    return
                for s, r in outs[1:]:
                    e2 = dict(env)
                    e2[I.dst] = r
                    work.append((s, e2, b, frm, i))
                st, env[I.dst] = outs[0]
            else:
                raise Unsupported('instruction ' + I.text)

    def insert(self, v, w, idx):
        v = list(v)
        if len(idx) == 1:
            v[idx[0]] = w
        else:
            v[idx[0]] = self.insert(v[idx[0]], w, idx[1:])
        return v

    def byval_copy(self, st, a, ty):
        o = self.new_obj(st, 'alloca', self.m.layout(ty)[0], name='byval')
        o.meta['frame'] = self.depth + 1
        q = self.deref(st, a)
        if len(q) != 1:
            raise Unsupported('byval fork')
        self.copy_mem(st, Ptr(o.id, 0), q[0][1], self.m.layout(ty)[0])
        return Ptr(o.id, 0)

    def call_value(self, st, fv, args, rty):
        if isinstance(fv, FPtr):
            return self.call(st, fv.name, args, rty)
        if isinstance(fv, int):
            self.oblige(st, False, 'call-through-null', ('SAFE',))
            return []
        if z3.is_expr(fv):
            info = self.term_info.get(fv.get_id())
            r = self.spec.on_unknown_call(st, fv, info[1] if info else None, args, rty) if self.spec else None
            if r is None:
                raise Unsupported('indirect call through %s' % (fv,))
            return r
        raise Unsupported('indirect call through %r' % (fv,))

    # ------------------------------------------------------------ exceptions
    def exc_of(self, st, p):
        if isinstance(p, Ptr):
            e = st.excs.get(p.obj)
            if e is None:
                e = Exc(p, None)
                st.excs[p.obj] = e
            return e
        return Exc(p, None)

    def typeid(self, name):
        return self.typeids.setdefault(name, len(self.typeids) + 1)

    BASES = {'_ZTISt12future_error': ['_ZTISt11logic_error', '_ZTISt9exception'],
             '_ZTISt12system_error': ['_ZTISt13runtime_error', '_ZTISt9exception'],
             '_ZTISt13runtime_error': ['_ZTISt9exception'],
             '_ZTISt11logic_error': ['_ZTISt9exception']}

    def landing(self, st, env, fn, exc, pad, frm, goto, results):
        blk = fn.blocks[pad]
        j = 0
        while blk[j].op == 'phi':
            j += 1
        lp = blk[j]
        assert lp.op == 'landingpad', lp
        cl = lp.a[0]
        cleanup = any(c[0] == 'cleanup' for c in cl)
        branches = [(st, None)]
        sel = None
        cur = st
        for c in cl:
            if c[0] == 'cleanup':
                continue
            if c[0] == 'filter':
                raise Unsupported('exception filter')
            tv = c[1]
            tn = tv[1] if tv[0] == 'g' else None
            if tn is None:
                sel = self.typeid('null')
                break
            if exc.ti is not None:
                if tn == exc.ti or tn in self.BASES.get(exc.ti, []):
                    sel = self.typeid(tn)
                    break
            else:
                # unknown exception: may or may not match
                s2 = cur.fork()
                e2 = dict(env)
                self._land(s2, e2, fn, exc, pad, j, self.typeid(tn), frm, goto)
        if sel is not None:
            self._land(cur, env, fn, exc, pad, j, sel, frm, goto)
        elif cleanup:
            self._land(cur, env, fn, exc, pad, j, 0, frm, goto)
        else:
            results.append(('throw', cur, exc))

    def _land(self, st, env, fn, exc, pad, j, sel, frm, goto):
        lp = fn.blocks[pad][j]
        p = exc.ptr
        if isinstance(p, Ptr):
            st.excs[p.obj] = exc
        # a landing pad starts with the landingpad instruction: set value and jump past it through a pseudo edge
        env['%%lp:' + pad] = [p, sel]
        env[lp.dst] = [p, sel]
        goto(st, env, pad, frm)

    # ------------------------------------------------------------ atomics
    def atomic_load(self, st, ty, p):
        size = self.m.layout(ty)[0]
        out = []
        for s, q in self.deref(st, p, 'load'):
            self.access(s, q, size, False, True)
            h = self.spec.on_atomic(s, q, size, 'load', None) if self.spec else None
            out.append((s, self.load_at(s, q.obj, q.off, size)))
        return self.trunc1(ty, out)

    def trunc1(self, ty, outs):
        if ty[0] == 'i' and ty[1] == 1:
            return [(s, self.cast(s, 'trunc', ('i', 8), v, ty)) for s, v in outs]
        return outs

    def atomic_store(self, st, ty, p, v):
        size = self.m.layout(ty)[0]
        out = []
        for s, q in self.deref(st, p, 'store'):
            self.access(s, q, size, True, True)
            old = None
            if self.spec:
                self.spec.on_atomic(s, q, size, 'store', v)
                old = self.load_at(s, q.obj, q.off, size)
            self.store_at(s, q.obj, q.off, size, v)
            if self.spec:
                self.spec.after_atomic(s, q, size, 'store', old, v)
            out.append(s)
        return out

    def atomic_rmw(self, st, ty, op, p, v):
        size = self.m.layout(ty)[0]
        out = []
        for s, q in self.deref(st, p, 'rmw'):
            self.access(s, q, size, True, True)
            if self.spec:
                self.spec.on_atomic(s, q, size, 'rmw', None)
            old = self.load_at(s, q.obj, q.off, size)
            if op == 'xchg':
                new = v
            elif op in ('add', 'sub', 'and', 'or', 'xor'):
                new = self.binop(s, op, ('i', 8 * size), old, v)
            else:
                raise Unsupported('atomicrmw ' + op)
            self.store_at(s, q.obj, q.off, size, new)
            if self.spec:
                self.spec.after_atomic(s, q, size, 'rmw', old, new)
            out.append((s, old))
        return out

    def atomic_cmpxchg(self, st, ty, p, c, n):
        size = self.m.layout(ty)[0]
        out = []
        for s, q in self.deref(st, p, 'cmpxchg'):
            self.access(s, q, size, True, True)
            if self.spec:
                self.spec.on_atomic(s, q, size, 'rmw', None)
            old = self.load_at(s, q.obj, q.off, size)
            cond = self.ptr_eq(s, old, c) if ty[0] == 'ptr' else eq(old, c)
            for s2, t in self.split(s, cond):
                if t:
                    self.store_at(s2, q.obj, q.off, size, n)
                    if self.spec:
                        self.spec.after_atomic(s2, q, size, 'rmw', old, n)
                out.append((s2, [old, int(t)]))
        return out

    # ------------------------------------------------------------ intrinsics
    def intrinsic(self, st, name, args, I):
        R = lambda v=None: [(st, 'ret', v)]
        if name.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.donothing', 'llvm.invariant', 'llvm.stacksave',
                            'llvm.stackrestore', 'llvm.prefetch', 'llvm.experimental')):
            return R()
        if name.startswith(('llvm.memcpy', 'llvm.memmove')):
            n = args[2]
            if not isinstance(n, int):
                raise Unsupported('symbolic memcpy')
            if n == 0:
                return R()
            out = []
            for s, d in self.deref(st, args[0]):
                for s2, q in self.deref(s, args[1]):
                    self.access(s2, q, n, False)
                    self.access(s2, d, n, True)
                    self.copy_mem(s2, d, q, n)
                    out.append((s2, 'ret', None))
            return out
        if name.startswith('llvm.memset'):
            n = args[2]
            if not isinstance(n, int) or not isinstance(args[1], int):
                raise Unsupported('symbolic memset')
            out = []
            for s, d in self.deref(st, args[0]):
                self.access(s, d, n, True)
                o = s.w(d.obj)
                for k in [k for k, x in o.cells.items() if k < d.off + n and k + x[0] > d.off]:
                    sz, old = o.cells[k]
                    if k < d.off or k + sz > d.off + n:
                        raise Unsupported('memset over the middle of a cell')
                    del o.cells[k]
                pos = d.off
                end = d.off + n
                while pos < end:
                    g = 8 if (pos % 8 == 0 and pos + 8 <= end) else 4 if (pos % 4 == 0 and pos + 4 <= end) else 1
                    o.cells[pos] = (g, int.from_bytes(bytes([args[1] & 255]) * g, 'little'))
                    pos += g
                out.append((s, 'ret', None))
            return out
        if name.startswith('llvm.threadlocal.address'):
            return R(args[0])
        if name.startswith('llvm.eh.typeid.for'):
            a = args[0]
            if isinstance(a, Ptr):
                nm = [n for n, i in self.gobj.items() if i == a.obj][0]
                return R(self.typeid(nm))
            return R(self.typeid('null'))
        if name.startswith('llvm.trap'):
            self.oblige(st, False, 'trap', ('SAFE',))
            return []
        if name.startswith(('llvm.umax', 'llvm.umin', 'llvm.smax', 'llvm.smin')):
            k = name.split('.')[1]
            n = int(re.search(r'\.i(\d+)$', name).group(1))
            pr = {'umax': 'ugt', 'umin': 'ult', 'smax': 'sgt', 'smin': 'slt'}[k]
            c = self.icmp(st, pr, ('i', n), args[0], args[1])
            return R(ite(c, args[0], args[1]))
        if name.startswith('llvm.is.constant'):
            return R(0)
        if name.startswith('llvm.expect'):
            return R(args[0])
        if name.startswith('llvm.objectsize'):
            return R(M64)
        m = re.match(r'llvm\.(u|s)(add|sub|mul)\.with\.overflow\.i(\d+)', name)
        if m:
            n = int(m.group(3))
            r = self.binop(st, m.group(2), ('i', n), args[0], args[1])
            x, y = bv(args[0], n), bv(args[1], n)
            f = {'uadd': lambda: z3.Not(z3.BVAddNoOverflow(x, y, False)), 'usub': lambda: z3.Not(z3.BVSubNoUnderflow(x, y, False)),
                 'umul': lambda: z3.Not(z3.BVMulNoOverflow(x, y, False)), 'sadd': lambda: z3.Not(z3.BVAddNoOverflow(x, y, True)),
                 'ssub': lambda: z3.Not(z3.BVSubNoOverflow(x, y)), 'smul': lambda: z3.Not(z3.BVMulNoOverflow(x, y, True))}
            return R([r, unlit(z3.simplify(f[m.group(1) + m.group(2)]()))])
        raise Unsupported('intrinsic ' + name)

    # ------------------------------------------------------------ loops
    TRIAL = 10

    def run_loop(self, st, env, fn, header, prev):
        body = fn.loops[header]
        term = fn.blocks[header][-1]
        hdr_exit = term.op == 'br' and len(term.a) == 3 and ((term.a[1] in body) != (term.a[2] in body))
        saved_obs = self.obs
        base = st.fork()
        self.obs = []
        try:
            exits = []
            cur = [(st, dict(env), prev)]
            for it in range(self.TRIAL + 1):
                nxt = []
                for s, e, pv in cur:
                    for r in self.run(s, e, fn, header, pv, loop=header, trial={'hdr_exit': hdr_exit}):
                        if r[0] == 'edge' and r[3] == header:
                            nxt.append((r[1], r[2], r[4]))
                        else:
                            exits.append(r)
                cur = nxt
                if not cur:
                    saved_obs.extend(self.obs)
                    return exits
                if it >= 2 and len(cur) > 12:
                    break
            raise NeedCut(header)
        except NeedCut as e:
            if e.header != header:
                raise
        finally:
            self.obs = saved_obs
        return self.cut_loop(base, env, fn, header, prev)

    def state_diff(self, sh, e):
        """set of modified locations of e relative to sh"""
        out = set()
        for oid, o in sh.mem.items():
            if o.kind == 'global' and not o.sym and not o.cells and oid in e.mem and not e.mem[oid].cells:
                continue
            n = e.mem.get(oid)
            if n is o:
                continue
            if n is None:
                out.add(('gone', oid))
                continue
            if n.epoch != o.epoch:
                old = set(o.epoch)
                for ep in n.epoch:
                    if ep not in old:
                        out.add(('range', oid, ep[0], ep[1]))
            for off, (sz, v) in n.cells.items():
                c = o.cells.get(off)
                if c is None:
                    if o.kind == 'global' and 'init' in o.meta:
                        continue
                    d = self.lazy.get((oid, off, sz, o.ep(off)))
                    d2 = self.lazy.get((oid, off, sz, 'undef', o.ep(off)))
                    if (d is not None and same(d, v)) or (d2 is not None and same(d2, v)):
                        continue
                    if o.zero and same(v, 0):
                        continue
                    if self.spec and self.spec.is_lazy(o, off, v):
                        continue
                    if isinstance(v, (VecVal, MapVal)) and self.container_unwritten(e, oid, off, v):
                        continue
                    out.add(('cell', oid, off, sz))
                elif c[0] != sz or not same(c[1], v):
                    out.add(('cell', oid, off, sz))
            for off, (sz, v) in o.cells.items():
                if off not in n.cells and not any(x[0] == 'range' and x[1] == oid and x[2] <= off < x[3] for x in out):
                    out.add(('cell', oid, off, sz))
            if o.kind in ('buf', 'tab'):
                if o.kind == 'tab' and (not same(o.meta['size'], n.meta['size'])):
                    out.add(('tab', oid))
                if n.meta.get('gen') != o.meta.get('gen'):
                    out.add((o.kind, oid))
                # elements created and written in the body
                olde = {x for _, x in o.meta['elems']} if o.kind == 'buf' else {x['node'] for x in o.meta['entries']}
                newe = [x for _, x in n.meta['elems']] if n.kind == 'buf' else [x['node'] for x in n.meta['entries']]
                if o.kind == 'buf' and not olde <= set(newe):
                    out.add(('buf', oid))
                for x in newe:
                    if x not in olde and self.elem_written(e, x):
                        out.add((o.kind, oid))
                        break
        for k in set(sh.ghost) | set(e.ghost):
            if not same(sh.ghost.get(k), e.ghost.get(k)):
                out.add(('ghost', k))
        if sh.locks != e.locks:
            out.add(('locks',))
        return out

    def elem_written(self, e, x):
        """has an element or entry been changed since it was made up?"""
        eo = e.mem.get(x)
        if eo is None:
            return False
        for off, (sz, v) in eo.cells.items():
            d = self.lazy.get((x, off, sz, 0))
            if d is not None and same(d, v):
                continue
            c0 = eo.meta.get('cells0', {}).get(off)
            if c0 is not None and same(c0[1], v) and not isinstance(v, (VecVal, MapVal)):
                continue
            if self.spec and self.spec.is_lazy(eo, off, v):
                continue
            if isinstance(v, (VecVal, MapVal)) and self.container_unwritten(e, x, off, v):
                continue
            return True
        return False

    def container_unwritten(self, e, oid, off, v):
        """is v the container first found at this place, with the content found in it?"""
        o = e.mem[oid]
        vec = isinstance(v, VecVal)
        d = self.lazy.get((oid, off, 'vec' if vec else 'map', o.ep(off)))
        if d is None or not same(d, v):
            return False
        b = e.mem[v.buf if vec else v.tab]
        if b.meta.get('gen') != 0:
            return False
        if not vec and not same(b.meta['size'], self.lazy.get((oid, off, 'map', o.ep(off), 'size'))):
            return False
        xs = [x for _, x in b.meta['elems']] if vec else [x['node'] for x in b.meta['entries']]
        return not any(self.elem_written(e, x) for x in xs)

    def havoc(self, s0, M, seen):
        """fresh loop-head state; returns (list of states) since shapes may fork"""
        s = s0.fork()
        # objects that appear at the loop head only (created by the monitors) are arbitrary anyway
        M = {m for m in M if m[0] not in ('range', 'cell', 'buf', 'tab', 'gone') or m[1] in s.mem}
        for m in sorted(M, key=lambda x: tuple(str(y) for y in x)):
            k = m[0]
            if k == 'range':
                self.havoc_range(s, m[1], m[2], m[3])
        bufs = {}
        for m in sorted(M, key=lambda x: tuple(str(y) for y in x)):
            k = m[0]
            if k == 'buf':
                o = s.w(m[1])
                o.meta['elems'] = ()
                o.meta['gen'] = next(self.names)
                o.sym = True
            elif k == 'tab':
                o = s.w(m[1])
                self.tab_havoc(s, o)
        res = [s]
        for m in sorted(M, key=lambda x: tuple(str(y) for y in x)):
            k = m[0]
            if k == 'cell':
                _, oid, off, sz = m
                vals = []
                v0 = s0.mem[oid].cells.get(off)
                v0 = v0[1] if v0 else None
                for e in seen:
                    c = e.mem.get(oid)
                    c = c.cells.get(off) if c else None
                    if c and not any(same(c[1], x) for x in vals):
                        vals.append(c[1])
                nres = []
                for t in res:
                    nres.extend(self.havoc_cell(t, oid, off, sz, v0, vals))
                res = nres
            elif k == 'ghost':
                for t in res:
                    g0 = s0.ghost.get(m[1])
                    t.ghost[m[1]] = self.havoc_ghost(m[1], g0)
            elif k == 'gone':
                for t in res:
                    t.mem.pop(m[1], None)
        return res

    def havoc_ghost(self, name, g0):
        if isinstance(g0, bool) or z3.is_bool(g0):
            return self.freshb('g.' + name)
        if isinstance(g0, int) or z3.is_bv(g0):
            bits = g0.size() if z3.is_bv(g0) else 64
            return self.fresh('g.%s' % (name,), bits)
        if self.spec is not None:
            return self.spec.havoc_ghost(name, g0)
        raise Unsupported('ghost %s changed in loop' % name)

    def havoc_cell(self, s, oid, off, sz, v0, vals):
        allv = ([v0] if v0 is not None else []) + vals
        if any(isinstance(v, VecVal) for v in allv):
            bufs = {v.buf for v in allv if isinstance(v, VecVal)}
            L = self.fresh('loop.len')
            s.assume(z3.ULT(L, 1 << 40))
            if len(bufs) == 1 and next(iter(bufs)) in s.mem:
                nv = VecVal(L, self.fresh('loop.cap'), next(iter(bufs)))
            else:
                src = next((v for v in allv if isinstance(v, VecVal) and v.buf in s.mem), None)
                if src is None:
                    if s.mem[oid].sym and not s.mem[oid].zero:
                        # arbitrary content, made up when it is looked at
                        self.havoc_range(s, oid, off, off + sz)
                        return [s]
                    raise Unsupported('vector havoc')
                so = s.mem[src.buf]
                b = self.new_obj(s, 'buf', None, sym=True, fresh=so.fresh, name='loopbuf')
                b.meta.update(esize=so.meta['esize'], ety=so.meta.get('ety'), etn=so.meta.get('etn'), elems=())
                nv = VecVal(L, self.fresh('loop.cap'), b.id)
            s.w(oid).cells[off] = (sz, nv)
            return [s]
        if any(isinstance(v, MapVal) for v in allv):
            if not s.mem[oid].sym:
                raise Unsupported('map replaced in loop')
            self.havoc_range(s, oid, off, off + sz)
            return [s]
        if any(isinstance(v, Ptr) for v in allv):
            objs = {v.obj if isinstance(v, Ptr) else None for v in allv}
            if len(objs) == 1 and next(iter(objs)) in s.mem and all(v.idx is not None for v in allv):
                if len({v.off for v in allv}) == 1:
                    s.w(oid).cells[off] = (sz, Ptr(next(iter(objs)), allv[0].off, self.fresh('loop.idx')))
                    return [s]
            # finite set of possible pointers
            cand = []
            for v in allv:
                if isinstance(v, Ptr) and v.obj not in s.mem:
                    continue
                if not any(same(v, c) for c in cand):
                    cand.append(v)
            res = []
            for j, v in enumerate(cand):
                t = s if j == len(cand) - 1 else s.fork()
                t.w(oid).cells[off] = (sz, v)
                res.append(t)
            if not res:
                s.w(oid).cells.pop(off, None)
                res = [s]
            return res
        if any(isinstance(v, FPtr) for v in allv):
            res = []
            for j, v in enumerate(allv):
                t = s if j == len(allv) - 1 else s.fork()
                t.w(oid).cells[off] = (sz, v)
                res.append(t)
            return res
        v = self.fresh('loop.%s+%d' % (s.mem[oid].name.strip('%'), off), sz * 8)
        if v0 is not None and z3.is_expr(v0):
            info = self.term_info.get(v0.get_id())
            if info:
                self.term_info[v.get_id()] = (v, info[1], info[2])
        s.w(oid).cells[off] = (sz, v)
        return [s]

    def int_locs(self, s, M):
        """integer-like modified locations: list of (key, getter)"""
        out = []
        for m in sorted(M, key=lambda x: tuple(str(y) for y in x)):
            if m[0] == 'cell':
                _, oid, off, sz = m
                c = s.mem.get(oid)
                c = c.cells.get(off) if c else None
                if c is None:
                    continue
                if isinstance(c[1], VecVal):
                    out.append((m, lambda t, oid=oid, off=off: t.mem[oid].cells[off][1].len, 64))
                elif isinstance(c[1], Ptr) and c[1].idx is not None:
                    out.append((m, lambda t, oid=oid, off=off: t.mem[oid].cells[off][1].idx, 64))
                elif isinstance(c[1], int) or z3.is_bv(c[1]):
                    out.append((m, lambda t, oid=oid, off=off: t.mem[oid].cells[off][1], sz * 8))
            elif m[0] == 'ghost':
                v = s.ghost.get(m[1])
                if isinstance(v, int) or z3.is_bv(v):
                    out.append((m, lambda t, k=m[1]: t.ghost[k], v.size() if z3.is_bv(v) else 64))
            elif m[0] == 'tab':
                out.append((m, lambda t, k=m[1]: t.mem[k].meta['size'], 64))
        return out

    def lens(self, s):
        """lengths of all containers visible in s: list of (key, getter)"""
        out = []
        for oid, o in s.mem.items():
            for off, (sz, v) in o.cells.items():
                if isinstance(v, VecVal):
                    out.append((('vec', oid, off), lambda t, oid=oid, off=off: t.mem[oid].cells[off][1].len))
            if o.kind == 'tab':
                out.append((('tab', oid), lambda t, oid=oid: t.mem[oid].meta['size']))
        return out

    def cut_loop(self, s0, env, fn, header, prev):
        """the loop is represented by one iteration from an arbitrary state that satisfies the invariants found for it.

        The invariants are the candidates that hold on entry and are kept by the body. With `speculate` they are assumed while the body is
        explored (and the exploration is repeated when some of them turn out not to be kept), which leaves fewer paths to look at."""
        self.stats['loops'] += 1
        for I in fn.blocks[header]:
            if I.op == 'phi':
                raise Unsupported('phi in loop header')
        loc = self.di.loc(fn.blocks[header][0].dbg)
        saved = self.obs
        guess = bool(self.spec and self.spec.contract is not None and self.spec.contract.speculate)
        M = set()
        seen = []
        rounds = 0
        dropped = set()
        live = []
        while True:
            rounds += 1
            if rounds > (20 if guess else 8):
                raise Unsupported('modified set of loop does not stabilise')
            heads = self.havoc(s0, M, seen)
            ends = []
            exits = []
            self.obs = []
            obs_h = []
            try:
                if self.spec:
                    heads = [h1 for h in heads for h1 in self.spec.on_loop_head(h, s0, fn, header, M)]
                if guess:
                    live = [c for c in self.invariant_candidates(s0, heads[0], M, fn, header) if c[0] not in dropped] if heads else []
                    live = self.hold_on_entry(s0, live)
                    hs = []
                    for h in heads:
                        h.pc.extend(self.cand_values(live, h))
                        if self.alive(h):
                            hs.append(h)
                    heads = hs
                for h in heads:
                    snap = h.fork()
                    self.obs = []
                    for r in self.run(h, dict(env), fn, header, prev, loop=header):
                        if r[0] == 'edge' and r[3] == header:
                            if self.spec:
                                self.spec.on_loop_end(r[1], snap, fn, header, M)
                            ends.append((snap, r[1]))
                        else:
                            exits.append((snap, r))
                    obs_h.append((snap, self.obs))
            finally:
                self.obs = saved
            D = set()
            for h, e in ends:
                D |= self.state_diff(h, e)
            # objects created for the head are arbitrary there (their invariants are checked by the monitors)
            D = {d for d in D if d[0] not in ('range', 'cell', 'buf', 'tab', 'gone') or d[1] in s0.mem}
            if ('locks',) in D:
                # a loop that changes the set of held locks from one iteration to the next
                for h, e in ends:
                    self.oblige(e, h.locks == e.locks, 'loop-lock-balance', ('SAFE', 'P04'), detail='locks at loop head %s, at the end of the body %s' % (h.locks, e.locks))
                D.discard(('locks',))
            known = D <= M
            seen = [e for _, e in ends]
            if guess:
                kept = self.kept_by_body(live, ends)
                gone = {c[0] for c in live} - {c[0] for c in kept}
                dropped |= gone
                live = kept
                if DEBUG_LOOPS and gone:
                    print('loop', loc, 'round', rounds, 'dropped', sorted(gone)[:12], len(gone))
                known = known and not gone
            if known:
                break
            if DEBUG_LOOPS:
                print('loop', loc, 'round', rounds, sorted(map(str, D - M)))
            M |= D
        if self.spec:
            self.spec.on_loop_entry(s0, fn, header, M)
        if not guess:
            live = self.invariant_candidates(s0, ends[0][0], M, fn, header) if ends else []
            live = self.kept_by_body(self.hold_on_entry(s0, live), ends)
        self.loop_log.append((loc, fn.name, [c[0] for c in live], sorted(map(str, M))))
        res = []
        for snap, ol in obs_h:
            hy = [] if guess else self.cand_values(live, snap)
            for o in ol:
                o.pc = o.pc + hy
                saved.append(o)
        for snap, r in exits:
            if not guess:
                r[1].pc.extend(self.cand_values(live, snap))
            if not self.alive(r[1]):
                continue
            res.append(r)
        return res

    def invariant_candidates(self, s0, h0, M, fn, header):
        cands = []
        locs = self.int_locs(h0, M)
        L = self.lens(s0)
        for key, g, bits in locs:
            def init(t, g=g):
                try:
                    return g(t)
                except (KeyError, AttributeError):
                    return None
            x0 = init(s0)
            if x0 is None or not (isinstance(x0, int) or z3.is_bv(x0)):
                continue
            cands.append(('%s>=init' % (key,), lambda t, g=g, x0=x0: ule(x0, g(t))))
            cands.append(('%s<=init' % (key,), lambda t, g=g, x0=x0: ule(g(t), x0)))
            if bits == 64:
                for lk, lg in L:
                    if key[0] == 'cell' and lk == ('vec', key[1], key[2]):
                        continue
                    cands.append(('%s<=len%s' % (key, lk), lambda t, g=g, lg=lg: ule(g(t), lg(t))))
            if key[0] == 'ghost':
                for kc in (0, 1, 2):
                    cands.append(('%s==%d' % (key, kc), lambda t, g=g, kc=kc: eq(g(t), kc)))
                cands.append(('%s<=1' % (key,), lambda t, g=g: ule(g(t), 1)))
        for (k1, g1, b1), (k2, g2, b2) in itertools.combinations(locs, 2):
            if b1 != b2:
                continue
            try:
                x1, x2 = g1(s0), g2(s0)
            except (KeyError, AttributeError):
                continue
            cands.append(('%s~%s' % (k1, k2), lambda t, g1=g1, g2=g2, x1=x1, x2=x2, b=b1:
                          eq(sub(g1(t), x1, b), sub(g2(t), x2, b))))
            cands.append(('%s+%s' % (k1, k2), lambda t, g1=g1, g2=g2, x1=x1, x2=x2, b=b1:
                          eq(sub(g1(t), x1, b), sub(x2, g2(t), b))))
        for m in M:
            if m[0] == 'ghost':
                v = s0.ghost.get(m[1])
                if isinstance(v, bool) or z3.is_bool(v):
                    cands.append(('%s=init' % (m,), lambda t, k=m[1], v=v: eq(t.ghost[k], v)))
                    cands.append(('%s' % (m,), lambda t, k=m[1]: t.ghost[k]))
                    cands.append(('!%s' % (m,), lambda t, k=m[1]: Not(t.ghost[k])))
        if self.spec:
            cands.extend(self.spec.loop_candidates(s0, h0, M, fn, header))
        return cands

    def cand_value(self, c, t):
        try:
            return c[1](t)
        except (KeyError, AttributeError):
            return None

    def cand_values(self, live, t):
        return [B(x) for x in (self.cand_value(c, t) for c in live) if x is not None and x is not True]

    def failing(self, pc, known, vals):
        """indices of conditions that do not (surely) hold; not all of them have to be found at once"""
        idx = [i for i, v in enumerate(vals) if v is not True]
        bad = [i for i in idx if vals[i] is None or vals[i] is False or z3.is_expr(vals[i]) and z3.is_false(z3.simplify(vals[i]))]
        if bad:
            return [] if self.sat(pc, (), known) is False else bad
        if not idx:
            return []
        m = self.sat_model(pc, [Not(And(*[vals[i] for i in idx]))], known)
        if m is False:
            return []
        if m is not None:
            bad = [i for i in idx if not z3.is_true(m.eval(B(vals[i]), model_completion=True))]
            if bad:
                return bad
        return [i for i in idx if self.sat(pc, [Not(vals[i])], known) is not False]

    def hold_on_entry(self, s0, live):
        while True:
            bad = set(self.failing(s0.pc, s0.known, [self.cand_value(c, s0) for c in live]))
            if not bad:
                return live
            live = [c for i, c in enumerate(live) if i not in bad]

    def kept_by_body(self, live, ends):
        changed = True
        while changed:
            changed = False
            for h, e in ends:
                while True:
                    hyp = self.cand_values(live, h)
                    vals = [self.cand_value(c, e) for c in live]
                    bad = set(self.failing(e.pc + hyp, e.known, vals))
                    if not bad:
                        break
                    changed = True
                    live = [c for i, c in enumerate(live) if i not in bad]
        return live

    # ------------------------------------------------------------ helpers for the library layer
    def paths(self, o, off):
        """debug-info path (record, base, field, field offset, field type) to a byte of object o, outermost first"""
        if not isinstance(off, int):
            return []
        best = []
        ty = o.ty

        def rank(p):
            # raw storage (aligned buffers) says less than the object constructed in it
            return any(x[0].startswith('tpp::') for x in p), len(p)
        if isinstance(ty, tuple):
            _, kty, vty, voff = ty
            t, b = (vty, voff) if off >= voff else (kty, 0)
            best = [('std::pair', 0, 'second' if off >= voff else 'first', b, t)]
            best += [(r, x + b, f, fo + b, ft) for r, x, f, fo, ft in self.di.path_at(t, off - b)]
        elif ty:
            best = self.di.path_at(ty, off)
        for toff, tn in o.tags:
            rec = self.di.rec(tn)
            if rec is None or off < toff or off >= toff + max(self.di.size(rec), 1):
                continue
            p = [(r, x + toff, f, fo + toff, ft) for r, x, f, fo, ft in self.di.path_at(rec, off - toff)]
            if rank(p) > rank(best):
                best = p
        return best

    def loc_name(self, o, off):
        p = self.paths(o, off)
        nm = '.'.join(x[2] for x in p if x[2] and x[2] != '<base>' and x[3] <= off)
        return '%s.%s' % (o.name, nm) if nm else '%s+%s' % (o.name, off)

    def isnull(self, st, v):
        if isinstance(v, int):
            return v == 0
        if is_ptr(v):
            return False
        return v == 0

    def nonnull(self, st, v):
        return Not(self.isnull(st, v))

    def dummy(self, st):
        """an object standing for empty function objects and allocators"""
        o = self.new_obj(st, 'heap', 1, name='dummy')
        return o.id

    def rc(self, st, pi, off, d):
        c = self.load_at(st, pi.obj, pi.off + off, 4)
        self.store_at(st, pi.obj, pi.off + off, 4, add(c, d & 0xffffffff, 32))

    def vcall(self, st, pi, slot):
        out = []
        for s, vt in self.load(st, pi, 8):
            for s2, f in self.load(s, self.gep(s, ('i', 8), vt, [slot * 8]), 8):
                for s3, k, v in self.call_value(s2, f, [pi], ('void',)):
                    if k == 'throw':
                        self.oblige(s3, False, 'destructor-throws', ('SAFE',))
                        continue
                    out.append(s3)
        return out

    def publish(self, st, v):
        """v became reachable for other threads"""
        if isinstance(v, Ptr):
            self.publish_obj(st, v.obj)
        elif isinstance(v, VecVal):
            self.publish_obj(st, v.buf)
        elif isinstance(v, MapVal):
            self.publish_obj(st, v.tab)
        elif isinstance(v, list):
            for x in v:
                self.publish(st, x)

    def publish_obj(self, st, oid):
        o = st.mem.get(oid)
        if o is None or not o.fresh or o.kind == 'alloca':
            return
        o = st.w(oid)
        o.fresh = False
        if self.spec:
            self.spec.on_publish(st, o)
        self.publish_cells(st, oid)

    def publish_cells(self, st, oid):
        o = st.mem[oid]
        for off, (sz, v) in list(o.cells.items()):
            self.publish(st, v)
        if o.kind == 'buf':
            for _, e in o.meta['elems']:
                self.publish_obj(st, e)
        elif o.kind == 'tab':
            for e in o.meta['entries']:
                self.publish_obj(st, e['node'])

    def is_count_cell(self, st, o, off):
        """does this cell hold the control block pointer of a shared_ptr object?"""
        p = self.paths(o, off)
        if p:
            return p[-1][2] == '_M_pi' and not any('weak' in x[0] for x in p)
        if o.kind == 'alloca':
            return off >= 8 and (o.size or 0) >= 16 and off - 8 in o.cells
        return o.kind in ('heap', 'elem', 'node') and off >= 8

    def visible(self, st, par, oid):
        """is element/node oid still part of container par?"""
        if par.kind == 'buf':
            return any(e == oid for _, e in par.meta['elems'])
        return any(e['node'] == oid for e in par.meta['entries'])

    # ------------------------------------------------------------ tables (maps)
    def tab_havoc(self, st, o):
        o.meta['entries'] = ()
        o.meta['absent'] = ()
        o.meta['size'] = self.fresh(o.name + '.size')
        o.meta['gen'] = next(self.names)
        o.sym = True
        st.assume(z3.ULT(o.meta['size'], 1 << 40))

    # discharge -------------------------------------------------------
    def discharge(self, obs, timeout=30000):
        for o in obs:
            if o.result is not None:
                continue
            if o.goal is True:
                o.result = 'proved'
                continue
            t = time.time()
            s = z3.Solver()
            s.set('timeout', timeout)
            s.add(*[c for c in o.pc])
            s.add(B(Not(o.goal)))
            r = s.check()
            self.stats['checks'] += 1
            self.stats['time'] += time.time() - t
            if r == z3.unsat:
                o.result = 'proved'
            elif r == z3.sat:
                o.result = 'refuted'
                o.model = s.model()
            else:
                o.result = 'unknown'
        return obs


def class_of(dem):
    """class name (with template args) of a constructor's demangled name"""
    # strip parameter list
    d = 0
    for j in range(len(dem) - 1, -1, -1):
        if dem[j] == ')':
            d += 1
        elif dem[j] == '(':
            d -= 1
            if d == 0:
                dem = dem[:j]
                break
    # strip template args of the constructor itself
    if dem.endswith('>'):
        d = 0
        for j in range(len(dem) - 1, -1, -1):
            if dem[j] == '>':
                d += 1
            elif dem[j] == '<':
                d -= 1
                if d == 0:
                    dem = dem[:j]
                    break
    if '::' not in dem:
        return None
    # last :: at depth 0
    d = 0
    for j in range(len(dem) - 1, 0, -1):
        c = dem[j]
        if c in '>)}':
            d += 1
        elif c in '<({':
            d -= 1
        elif c == ':' and dem[j - 1] == ':' and d == 0:
            return dem[:j - 1]
    return None


from . import stdlib  # noqa: E402
