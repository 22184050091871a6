"""Semantics given to the C++ standard library entry points that are not executed from their own source.

Everything here is part of the trusted base (see DESIGN.md): each handler states the specification of one library
operation (ISO C++) on the abstract values of the executor.  All other library code (std::function, unique_lock,
lock_guard, shared_ptr copies and moves, make_shared, chrono arithmetic, predicate waits, tuples, iterators...) is executed from the
real libstdc++ headers like any other code.
"""
import re

import z3

from .engine import (Ptr, FPtr, VecVal, MapVal, Exc, Obj, Unsupported, And, Or, Not, Implies, B, bv, eq, ult, ule, add, sub, same,
                     is_ptr, unlit)

RET = 'ret'


def R(st, v=None):
    return [(st, 'ret', v)]


def locs(eng, st, p):
    return eng.deref(st, p)


# ------------------------------------------------------------------ types
def cls_of(eng, name):
    """DI type id of the class a member function belongs to"""
    fn = eng.m.functions[name]
    fn.parse()
    if not fn.dbg:
        return None
    d = eng.di.get(fn.dbg)
    sc = d.get('scope')
    if d.get('declaration') and (not sc or eng.di.get(sc)['_kind'] != 'DICompositeType'):
        sc = eng.di.get(d['declaration']).get('scope')
    return sc


def targs(eng, cls):
    """template type arguments of a class by parameter name"""
    if not cls:
        return {}
    d = eng.di.get(cls)
    tp = d.get('templateParams')
    out = {}
    if tp and tp.startswith('!'):
        for i in eng.di.get(tp)['_items']:
            if i == 'null':
                continue
            e = eng.di.get(i)
            if e['_kind'] == 'DITemplateTypeParameter':
                out[e.get('name')] = e.get('type')
    return out


def callees(eng, name, depth=7):
    """functions reachable by direct calls, breadth first"""
    key = ('callees', name, depth)
    r = eng._icache.get(key)
    if r is not None:
        return r
    seen = [name]
    level = [name]
    for _ in range(depth):
        nxt = []
        for n in level:
            fn = eng.m.functions.get(n)
            if fn is None or fn.is_decl:
                continue
            fn.parse()
            for b in fn.order:
                for I in fn.blocks[b]:
                    if I.op in ('call', 'invoke') and I.a[0][0] == 'g':
                        g = I.a[0][1]
                        if g in eng.m.functions and g not in seen:
                            seen.append(g)
                            nxt.append(g)
        level = nxt
    eng._icache[key] = seen
    return seen


def find_callee(eng, name, pred):
    for n in callees(eng, name):
        if pred(eng.m.bases.get(n, n), eng.m.functions[n]):
            return n
    return None


def elem_destroyer(eng, name):
    key = ('destroyer', name)
    if key in eng._icache:
        return eng._icache[key]

    def pred(b, fn):
        if b != 'std::_Destroy' or fn.is_decl:
            return False
        fn.parse()
        return len(fn.params) == 1
    r = find_callee(eng, name, pred)
    eng._icache[key] = r
    return r


def type_destroyer(eng, tid):
    """std::_Destroy<T> or T::~T for DI type tid (by name)"""
    tn = eng.di.tname(tid)
    key = ('tdestroyer', tn)
    if key in eng._icache:
        return eng._icache[key]
    from .di import norm
    r = None
    short = re.sub(r'<.*', '', tn).split('::')[-1]
    for n in eng.m.functions:
        b = eng.m.bases.get(n, n)
        if b.endswith('::~' + short) and not eng.m.functions[n].is_decl:
            d = eng.m.dem[n]
            c = d[:d.rindex('::~')]
            if norm(c) == norm(tn):
                r = n
                break
    eng._icache[key] = r
    return r


# ------------------------------------------------------------------ std::vector
def new_buf(eng, st, esize, ety, sym=False, fresh=True, name='buf'):
    o = eng.new_obj(st, 'buf', None, sym=sym, fresh=fresh, name=name, ty=None)
    o.meta.update(esize=esize, ety=ety, elems=(), gen=0)
    return o


def vec_types(eng, name):
    cls = cls_of(eng, name)
    t = targs(eng, cls).get('_Tp')
    if t is None:
        raise Unsupported('vector element type of ' + eng.m.dem[name])
    return eng.di.size(t), eng.di.strip(t)


def vec_at(eng, st, q, esize=None, ety=None):
    """VecVal stored at object location q"""
    o = st.mem[q.obj]
    c = o.cells.get(q.off)
    if c is not None and isinstance(c[1], VecVal):
        return c[1]
    if esize is None:
        path = eng.paths(o, q.off)
        for rec, base, fld, foff, fty in reversed(path):
            t = eng.di.strip(fty)
            if t and t.startswith('!'):
                a = targs(eng, t).get('_Tp')
                if eng.di.tname(t).startswith('std::vector') and a:
                    esize, ety = eng.di.size(a), eng.di.strip(a)
                    break
        if esize is None:
            raise Unsupported('vector of unknown element type')
    if o.sym and not o.zero:
        key = (o.id, q.off, 'vec', o.ep(q.off))
        v = eng.lazy.get(key)
        nm = eng.loc_name(o, q.off)
        if v is None or v.buf not in st.mem:
            if v is None:
                L = eng.fresh(nm + '.len')
                v = VecVal(L, eng.fresh(nm + '.cap'), next(eng.ids))
                eng.lazy[key] = v
            b = Obj(v.buf, 'buf', None, sym=True, fresh=o.fresh, name=nm)
            b.tok = st.tok
            b.meta.update(esize=esize, ety=ety, elems=(), gen=0, owner=(o.id, q.off))
            st.mem[v.buf] = b
            st.assume(z3.ULT(v.len, 1 << 40))
            st.assume(z3.ULE(v.len, v.cap))
            st.assume(z3.ULT(v.cap, 1 << 41))
        st.w(q.obj).cells[q.off] = (24, v)
        if eng.spec:
            eng.spec.on_new_vec(st, st.mem[q.obj], q.off, v)
        return v
    b = new_buf(eng, st, esize, ety, name=eng.loc_name(o, q.off))
    b.meta['owner'] = (o.id, q.off)
    v = VecVal(0, 0, b.id)
    vec_set(eng, st, q, v)
    return v


def vec_set(eng, st, q, v):
    o = st.w(q.obj)
    for k in [k for k, x in o.cells.items() if k < q.off + 24 and k + x[0] > q.off and k != q.off]:
        del o.cells[k]
    o.cells[q.off] = (24, v)
    st.w(v.buf).meta['owner'] = (q.obj, q.off)
    if eng.spec:
        eng.spec.after_store(st, o, q.off, 24, v)


def empty_like(eng, st, v):
    so = st.mem[v.buf]
    b = new_buf(eng, st, so.meta['esize'], so.meta.get('ety'), fresh=True, name=so.name + '~')
    return VecVal(0, 0, b.id)


def vread(eng, st, q):
    eng.access(st, q, 24, False)


def vwrite(eng, st, q):
    eng.access(st, q, 24, True)


def destroy_elem(eng, st, destroyer, p):
    """[(state)] after destroying the element at p (exceptions in destructors are not modelled)"""
    if destroyer is None:
        return [st]
    outs = []
    for s, k, v in eng.call(st, destroyer, [p]):
        if k == 'throw':
            eng.oblige(s, False, 'destructor-throws', ('SAFE',))
            continue
        outs.append(s)
    return outs


def destroy_all(eng, st, v, destroyer):
    """destroy every element of v: materialised ones for real, the others through one generic element"""
    if destroyer is None or same(v.len, 0):
        return [st]
    b = st.mem[v.buf]
    states = [st]
    for idx, e in b.meta['elems']:
        nxt = []
        for s in states:
            for s2, t in eng.split(s, ult(idx, v.len)):
                if not t:
                    nxt.append(s2)
                    continue
                nxt.extend(destroy_elem(eng, s2, destroyer, Ptr(e, 0)))
        states = nxt
    out = []
    for s in states:
        if b.sym:
            g = eng.fresh('anyidx')
            c = And(ult(g, v.len), *[Not(eq(g, i)) for i, _ in s.mem[v.buf].meta['elems']])
            if eng.feasible(s, c):
                gs = s.fork()
                gs.assume(B(c))
                e = eng.buf_new_elem(gs, v.buf, g)
                gs.ghost['generic'] = True
                destroy_elem(eng, gs, destroyer, Ptr(e, 0))
        out.append(s)
    return out


def with_vec(f):
    def h(eng, st, name, args, fty):
        es, ety = vec_types(eng, name)
        out = []
        p = args[0]
        for s, q in locs(eng, st, p):
            v = vec_at(eng, s, q, es, ety)
            out.extend(f(eng, s, name, args, q, v))
        return out
    return h


def params_of(eng, name):
    """list of demangled parameter types"""
    d = eng.m.dem[name]
    dep = 0
    end = d.rfind(')')
    i = end
    while i >= 0:
        if d[i] == ')':
            dep += 1
        elif d[i] == '(':
            dep -= 1
            if dep == 0:
                break
        i -= 1
    s = d[i + 1:end]
    out = []
    dep = 0
    cur = ''
    for c in s:
        if c in '<({[':
            dep += 1
        elif c in '>)}]':
            dep -= 1
        if c == ',' and dep == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


def vector_ctor(eng, st, name, args, fty):
    es, ety = vec_types(eng, name)
    pp = params_of(eng, name)
    out = []
    for s, q in locs(eng, st, args[0]):
        b = new_buf(eng, s, es, ety, name=eng.loc_name(s.mem[q.obj], q.off))
        if not pp:
            vec_set(eng, s, q, VecVal(0, 0, b.id))
            out.append((s, RET, None))
        elif pp[0].startswith('std::vector') and pp[0].endswith('&&'):
            for s2, r in locs(eng, s, args[1]):
                vwrite(eng, s2, r)
                v = vec_at(eng, s2, r, es, ety)
                vec_set(eng, s2, r, VecVal(0, 0, b.id))
                vec_set(eng, s2, q, v)
                out.append((s2, RET, None))
        elif pp[0].startswith('std::vector') and pp[0].endswith('const&'):
            for s2, r in locs(eng, s, args[1]):
                vread(eng, s2, r)
                v = vec_at(eng, s2, r, es, ety)
                out.extend(copy_vec(eng, s2, name, q, v))
        else:
            raise Unsupported('vector constructor ' + eng.m.dem[name])
    return out


def copy_vec(eng, st, name, q, v):
    cons = find_callee(eng, name, lambda b, fn: b in ('std::_Construct', 'std::construct_at') and not fn.is_decl)
    so = st.mem[v.buf]
    nb = new_buf(eng, st, so.meta['esize'], so.meta.get('ety'), sym=so.sym, name=so.name + '.copy')
    vec_set(eng, st, q, VecVal(v.len, v.len, nb.id))
    states = [st]
    for idx, e in so.meta['elems']:
        nxt = []
        for s in states:
            for s2, t in eng.split(s, ult(idx, v.len)):
                if t:
                    ne = eng.buf_new_elem(s2, nb.id, idx, sym=False)
                    if cons is None:
                        eng.copy_mem(s2, Ptr(ne, 0), Ptr(e, 0), so.meta['esize'])
                        nxt.append(s2)
                    else:
                        nxt.extend(x for x, k, _ in eng.call(s2, cons, [Ptr(ne, 0), Ptr(e, 0)]) if k == RET)
                else:
                    nxt.append(s2)
        states = nxt
    return [(s, RET, None) for s in states]


@with_vec
def vector_dtor(eng, st, name, args, q, v):
    out = []
    for s in destroy_all(eng, st, v, elem_destroyer(eng, name)):
        vec_set(eng, s, q, empty_like(eng, s, v))
        out.append((s, RET, None))
    return out


@with_vec
def vector_clear(eng, st, name, args, q, v):
    vwrite(eng, st, q)
    out = []
    for s in destroy_all(eng, st, v, elem_destroyer(eng, name)):
        nv = empty_like(eng, s, v)
        vec_set(eng, s, q, VecVal(0, v.cap, nv.buf))
        out.append((s, RET, None))
    return out


@with_vec
def vector_assign(eng, st, name, args, q, v):
    pp = params_of(eng, name)
    if not (pp[0].startswith('std::vector') and pp[0].endswith('&&')):
        if pp[0].endswith('const&'):
            out = []
            for s in destroy_all(eng, st, v, elem_destroyer(eng, name)):
                for s2, r in locs(eng, s, args[1]):
                    vread(eng, s2, r)
                    vwrite(eng, s2, q)
                    for s3, k, _ in copy_vec(eng, s2, name, q, vec_at(eng, s2, r)):
                        out.append((s3, k, args[0]))
            return out
        raise Unsupported('vector assignment ' + eng.m.dem[name])
    out = []
    for s, r in locs(eng, st, args[1]):
        if r == q:
            out.append((s, RET, args[0]))
            continue
        vwrite(eng, s, q)
        vwrite(eng, s, r)
        src = vec_at(eng, s, r)
        vec_set(eng, s, r, empty_like(eng, s, src))
        vec_set(eng, s, q, src)
        # old contents are destroyed after the exchange
        for s2 in destroy_all(eng, s, v, elem_destroyer(eng, name)):
            out.append((s2, RET, args[0]))
    return out


@with_vec
def vector_swap(eng, st, name, args, q, v):
    out = []
    for s, r in locs(eng, st, args[1]):
        vwrite(eng, s, q)
        vwrite(eng, s, r)
        w = vec_at(eng, s, r)
        vec_set(eng, s, q, w)
        vec_set(eng, s, r, v)
        out.append((s, RET, None))
    return out


@with_vec
def vector_size(eng, st, name, args, q, v):
    vread(eng, st, q)
    return R(st, v.len)


@with_vec
def vector_capacity(eng, st, name, args, q, v):
    vread(eng, st, q)
    return R(st, v.cap)


@with_vec
def vector_empty(eng, st, name, args, q, v):
    vread(eng, st, q)
    c = eq(v.len, 0)
    return R(st, int(c) if isinstance(c, bool) else c)


@with_vec
def vector_begin(eng, st, name, args, q, v):
    vread(eng, st, q)
    return R(st, Ptr(v.buf, 0, 0))


@with_vec
def vector_end(eng, st, name, args, q, v):
    vread(eng, st, q)
    return R(st, Ptr(v.buf, 0, v.len))


@with_vec
def vector_index(eng, st, name, args, q, v):
    vread(eng, st, q)
    eng.oblige(st, ult(args[1], v.len), 'vector-index-in-range', ('SAFE',))
    return R(st, Ptr(v.buf, 0, args[1]))


@with_vec
def vector_front(eng, st, name, args, q, v):
    vread(eng, st, q)
    eng.oblige(st, ult(0, v.len), 'vector-front-non-empty', ('SAFE',))
    return R(st, Ptr(v.buf, 0, 0))


@with_vec
def vector_back(eng, st, name, args, q, v):
    vread(eng, st, q)
    eng.oblige(st, ult(0, v.len), 'vector-back-non-empty', ('SAFE',))
    return R(st, Ptr(v.buf, 0, sub(v.len, 1)))


@with_vec
def vector_nop(eng, st, name, args, q, v):
    """reserve, shrink_to_fit: no change of the contents"""
    vwrite(eng, st, q)
    vec_set(eng, st, q, VecVal(v.len, eng.fresh('cap'), v.buf))
    return R(st)


def constructor_in(eng, name):
    return find_callee(eng, name, lambda b, fn: b in ('std::allocator_traits::construct', 'std::_Construct', 'std::construct_at')
                       and not fn.is_decl)


def construct(eng, st, cname, p, args):
    fn = eng.m.functions[cname]
    fn.parse()
    a = list(args)
    if eng.m.bases[cname] == 'std::allocator_traits::construct':
        a = [Ptr(eng.dummy(st), 0), p] + a
    else:
        a = [p] + a
    if len(a) != len(fn.params):
        raise Unsupported('construct arity ' + eng.m.dem[cname])
    return eng.call(st, cname, a)


@with_vec
def vector_emplace_back(eng, st, name, args, q, v):
    cons = constructor_in(eng, name)
    if cons is None:
        # push_back(T&&) forwards to emplace_back
        raise Unsupported('no construct in ' + eng.m.dem[name])
    vwrite(eng, st, q)
    b = st.w(v.buf)
    # the new element is a raw object
    e = eng.new_obj(st, 'elem', b.meta['esize'], fresh=b.fresh, ty=b.meta.get('ety'), name='%s[+]' % b.name)
    e.meta['parent'] = v.buf
    eid = e.id
    out = []
    for s, k, r in construct(eng, st, cons, Ptr(eid, 0), args[1:]):
        if k == 'throw':
            out.append((s, k, r))
            continue
        # re-read the vector: the constructor may not touch it
        b = s.w(v.buf)
        b.meta['elems'] = vacate(eng, s, b.meta['elems'], v.len) + ((v.len, eid),)
        nv = VecVal(add(v.len, 1), eng.fresh('cap'), v.buf)
        vec_set(eng, s, q, nv)
        if eng.spec:
            eng.spec.on_vec_append(s, q, nv, eid)
        out.append((s, RET, Ptr(v.buf, 0, v.len)))
    return out


def vacate(eng, st, elems, n):
    """the elements after position n, just beyond the end, has got a new content"""
    out = []
    for i, x in elems:
        c = eq(i, n)
        if c is True:
            continue
        out.append((i if c is False or not eng.feasible(st, c) else z3.simplify(z3.If(B(c), bv((1 << 64) - 1), bv(i))), x))
    return tuple(out)


def remap_views(b, f):
    """elements discovered from now on at position i were at position f(i) before"""
    def wrap(v):
        return lambda s, bo, e, i: v(s, bo, e, f(i))
    b.meta['views'] = tuple(wrap(v) for v in b.meta.get('views', ()))


@with_vec
def vector_insert(eng, st, name, args, q, v):
    """insert(pos, value) / emplace(pos, args...) of one element"""
    p = args[1]
    if not isinstance(p, Ptr) or p.obj != v.buf or len(args) != 3 and eng.m.bases[name].endswith('insert'):
        raise Unsupported('vector insert position')
    pi = p.idx if p.idx is not None else 0
    cons = constructor_in(eng, name)
    if cons is None:
        raise Unsupported('no construct in ' + eng.m.dem[name])
    vwrite(eng, st, q)
    b = st.w(v.buf)
    e = eng.new_obj(st, 'elem', b.meta['esize'], fresh=b.fresh, ty=b.meta.get('ety'), name='%s[+]' % b.name)
    e.meta['parent'] = v.buf
    eid = e.id
    out = []
    for s, k, r in construct(eng, st, cons, Ptr(eid, 0), args[2:]):
        if k == 'throw':
            out.append((s, k, r))
            continue
        b = s.w(v.buf)
        ne = []
        for i, x in b.meta['elems']:
            if x == eid:
                continue
            g = ule(pi, i)
            ne.append((add(i, 1) if g else i, x) if isinstance(g, bool) else (z3.simplify(z3.If(g, bv(i) + 1, bv(i))), x))
        b.meta['elems'] = tuple(ne) + ((pi, eid),)
        remap_views(b, lambda i: z3.If(B(ult(pi, i)), bv(i) - 1, bv(i)))
        nv = VecVal(add(v.len, 1), eng.fresh('cap'), v.buf)
        vec_set(eng, s, q, nv)
        out.append((s, RET, Ptr(v.buf, 0, pi)))
    return out


@with_vec
def vector_pop_back(eng, st, name, args, q, v):
    vwrite(eng, st, q)
    eng.oblige(st, ult(0, v.len), 'vector-pop-back-non-empty', ('SAFE',))
    last = sub(v.len, 1)
    des = find_callee(eng, name, lambda b, fn: b in ('std::allocator_traits::destroy',) and not fn.is_decl)
    out = []
    for s, e in eng.buf_elem(st, v.buf, last):
        ss = [s]
        if des:
            ss = [x for x, k, _ in eng.call(s, des, [Ptr(eng.dummy(s), 0), Ptr(e, 0)]) if k == RET]
        for s2 in ss:
            b = s2.w(v.buf)
            b.meta['elems'] = tuple(x for x in b.meta['elems'] if x[1] != e)
            vec_set(eng, s2, q, VecVal(last, v.cap, v.buf))
            out.append((s2, RET, None))
    return out


@with_vec
def vector_erase(eng, st, name, args, q, v):
    """erase(pos) / erase(first, last)"""
    vwrite(eng, st, q)
    des = elem_destroyer(eng, name)
    if des is None:
        des = find_callee(eng, name, lambda b, fn: b == 'std::allocator_traits::destroy' and not fn.is_decl)
        if des:
            d0 = des
    if len(args) == 2:
        p = args[1]
        if not isinstance(p, Ptr) or p.obj != v.buf:
            raise Unsupported('erase position')
        eng.oblige(st, ult(p.idx, v.len), 'vector-erase-in-range', ('SAFE',))
        out = []
        for s, e in eng.buf_elem(st, v.buf, p.idx):
            ss = [s]
            if des:
                if eng.m.bases[des] == 'std::allocator_traits::destroy':
                    ss = [x for x, k, _ in eng.call(s, des, [Ptr(eng.dummy(s), 0), Ptr(e, 0)]) if k == RET]
                else:
                    ss = destroy_elem(eng, s, des, Ptr(e, 0))
            for s2 in ss:
                b = s2.w(v.buf)
                ne = []
                for i, x in b.meta['elems']:
                    if x == e:
                        continue
                    g = ult(p.idx, i)
                    if isinstance(g, bool):
                        ne.append((sub(i, 1) if g else i, x))
                    else:
                        ne.append((z3.simplify(z3.If(g, bv(i) - 1, bv(i))), x))
                b.meta['elems'] = tuple(ne)
                remap_views(b, lambda i: z3.If(B(ule(p.idx, i)), bv(i) + 1, bv(i)))
                vec_set(eng, s2, q, VecVal(sub(v.len, 1), v.cap, v.buf))
                out.append((s2, RET, Ptr(v.buf, 0, p.idx)))
        return out
    f, l = args[1], args[2]
    if not (isinstance(f, Ptr) and isinstance(l, Ptr) and f.obj == v.buf and l.obj == v.buf):
        raise Unsupported('erase range')
    fi, li = f.idx if f.idx is not None else 0, l.idx if l.idx is not None else 0
    eng.oblige(st, And(ule(fi, li), ule(li, v.len)), 'vector-erase-in-range', ('SAFE',))
    tail = same(li, v.len) or eng.must(st, eq(li, v.len))
    if not tail and st.mem[v.buf].meta.get('tail_moved'):
        raise Unsupported('erase of a part of what an algorithm left over')
    states = [st]
    for i, e in st.mem[v.buf].meta['elems']:
        nxt = []
        for s in states:
            for s2, t in eng.split(s, And(ule(fi, i), ult(i, li))):
                if t:
                    r = destroy_elem(eng, s2, des, Ptr(e, 0)) if des else [s2]
                    for s3 in r:
                        b = s3.w(v.buf)
                        b.meta['elems'] = tuple(x for x in b.meta['elems'] if x[1] != e)
                    nxt.extend(r)
                else:
                    nxt.append(s2)
        states = nxt
    out = []
    n = sub(li, fi)
    for s in states:
        b = s.mem[v.buf]
        if b.sym and des and not b.meta.get('tail_moved'):
            g = eng.fresh('anyidx')
            c = And(ule(fi, g), ult(g, li), *[Not(eq(g, i)) for i, _ in b.meta['elems']])
            if eng.feasible(s, c):
                gs = s.fork()
                gs.assume(B(c))
                e = eng.buf_new_elem(gs, v.buf, g)
                gs.ghost['generic'] = True
                destroy_elem(eng, gs, des, Ptr(e, 0))
        b = s.w(v.buf)
        b.meta.pop('tail_moved', None)
        if tail:
            nl = fi
        else:
            ne = []
            for i, x in b.meta['elems']:
                g = ule(li, i)
                ne.append((sub(i, n) if g else i, x) if isinstance(g, bool) else (z3.simplify(z3.If(g, bv(i) - bv(n), bv(i))), x))
            b.meta['elems'] = tuple(ne)
            b.meta['gen'] = next(eng.names)
            remap_views(b, lambda i: z3.If(B(ule(fi, i)), bv(i) + bv(n), bv(i)))
            nl = sub(v.len, n)
        vec_set(eng, s, q, VecVal(nl, v.cap, v.buf))
        out.append((s, RET, Ptr(v.buf, 0, fi)))
    return out


def call_pred(eng, st, predfn, pobj, e):
    """value of a pure predicate closure on element object e: [(state, bool-ish)]"""
    out = []
    for s, k, v in eng.call(st, predfn, [pobj, Ptr(e, 0)]):
        if k == RET:
            out.append((s, v))
    return out


def pred_of(eng, name):
    """operator() of the predicate used by an algorithm instantiation"""
    return find_callee(eng, name, lambda b, fn: b.endswith('::operator()') and not b.startswith('__gnu_cxx') and not fn.is_decl)


def as_ptr(eng, st, p):
    """range iterators are passed as raw registers; predicate closures by value as register or pointer"""
    return p


def closure_arg(eng, st, name, i, v):
    """a closure passed by value: give it an address"""
    fn = eng.m.functions[name]
    fn.parse()
    ty = fn.params[i][0]
    if isinstance(v, Ptr) and st.mem.get(v.obj) is not None and fn.params[i][2].get('byval'):
        return v
    o = eng.new_obj(st, 'heap', 64, name='pred')
    st.w(o.id).cells[0] = (8, v)
    return Ptr(o.id, 0)


def algo_find_if(eng, st, name, args, fty):
    f, l = args[0], args[1]
    if not (isinstance(f, Ptr) and isinstance(l, Ptr) and f.obj == l.obj and st.mem[f.obj].kind == 'buf'):
        return NotImplemented
    pf = pred_of(eng, name)
    if pf is None:
        raise Unsupported('find_if predicate')
    pobj = closure_arg(eng, st, name, 2, args[2])
    fi, li = f.idx or 0, l.idx if l.idx is not None else 0
    out = []
    # not found: no materialised element in range satisfies the predicate
    nf = st.fork()
    states = [nf]
    for i, e in nf.mem[f.obj].meta['elems']:
        nxt = []
        for s in states:
            for s2, inr in eng.split(s, And(ule(fi, i), ult(i, li))):
                if not inr:
                    nxt.append(s2)
                    continue
                for s3, v in call_pred(eng, s2, pf, pobj, e):
                    for s4, t in eng.split(s3, v if not isinstance(v, int) else bool(v)):
                        if not t:
                            nxt.append(s4)
        states = nxt
    for s in states:
        if eng.spec:
            eng.spec.on_find_none(s, f.obj, fi, li, pf, pobj)
        if eng.alive(s):
            out.append((s, RET, Ptr(f.obj, 0, li)))
    # found at r
    r = eng.fresh('found')
    c = And(ule(fi, r), ult(r, li))
    if eng.feasible(st, c):
        st.assume(B(c))
        for s, e in eng.buf_elem(st, f.obj, r):
            for s3, v in call_pred(eng, s, pf, pobj, e):
                for s4, t in eng.split(s3, v if not isinstance(v, int) else bool(v)):
                    if t:
                        out.append((s4, RET, Ptr(f.obj, 0, r)))
    return out


def algo_remove_if(eng, st, name, args, fty):
    f, l = args[0], args[1]
    if not (isinstance(f, Ptr) and isinstance(l, Ptr) and f.obj == l.obj and st.mem[f.obj].kind == 'buf'):
        return NotImplemented
    pf = pred_of(eng, name)
    pobj = closure_arg(eng, st, name, 2, args[2])
    fi, li = f.idx or 0, l.idx if l.idx is not None else 0
    if not same(fi, 0):
        raise Unsupported('remove_if on a sub-range')
    bid = f.obj
    if eng.spec:
        eng.spec.on_remove_if(st, bid, fi, li, pf, pobj)
    dtid = st.mem[bid].meta.get('ety')
    des = type_destroyer(eng, dtid) if dtid else None
    # decide the predicate on every materialised element
    states = [(st, [], [])]
    for i, e in st.mem[bid].meta['elems']:
        nxt = []
        for s, kept, gone in states:
            for s2, inr in eng.split(s, ult(i, li)):
                if not inr:
                    nxt.append((s2, kept, gone))
                    continue
                for s3, v in call_pred(eng, s2, pf, pobj, e):
                    for s4, t in eng.split(s3, v if not isinstance(v, int) else bool(v)):
                        if t:
                            for s5 in (destroy_elem(eng, s4, des, Ptr(e, 0)) if des else [s4]):
                                nxt.append((s5, kept, gone + [(i, e)]))
                        else:
                            nxt.append((s4, kept + [(i, e)], gone))
        states = nxt
    out = []
    for s, kept, gone in states:
        nrem = len(gone)
        if nrem <= 1 and not generic_match(eng, s, bid, li, pf, pobj):
            # no other element matches: the effect is exact
            if not gone:
                out.append((s, RET, Ptr(bid, 0, li)))
                continue
            p = gone[0][0]
            b = s.w(bid)
            ne = []
            for i, x in kept:
                g = ult(p, i)
                ne.append((sub(i, 1) if g else i, x) if isinstance(g, bool) else (z3.simplify(z3.If(g, bv(i) - 1, bv(i))), x))
            b.meta['elems'] = tuple(ne)
            remap_views(b, lambda i, p=p: z3.If(B(ule(p, i)), bv(i) + 1, bv(i)))
            b.meta['tail_moved'] = True
            out.append((s, RET, Ptr(bid, 0, sub(li, 1))))
            continue
        b = s.w(bid)
        r = eng.fresh('kept')
        s.assume(B(ule(r, li)))
        s.assume(B(ule(len(kept), r)))
        s.assume(B(ule(r, sub(li, nrem))))
        new = []
        for i, e in kept:
            j = eng.fresh('pos')
            s.assume(B(And(ule(j, i), ult(j, r))))
            for (j2, e2), (i2, _) in zip(new, kept):
                s.assume(B(eq(ult(i, i2) if not isinstance(ult(i, i2), bool) else B(ult(i, i2)), B(ult(j, j2)))))
                s.assume(Not(eq(j, j2)))
            new.append((j, e))
        b.meta['elems'] = tuple(new)
        b.meta['views'] = ()
        b.meta['tail_moved'] = True
        if eng.spec:
            eng.spec.on_removed(s, bid, r, li, nrem)
        if eng.alive(s):
            out.append((s, RET, Ptr(bid, 0, r)))
    return out


def generic_match(eng, st, bid, li, pf, pobj):
    """may an element that is not materialised satisfy the predicate?"""
    b = st.mem[bid]
    if not b.sym:
        return False
    s = st.fork()
    g = eng.fresh('anyidx')
    s.assume(B(And(ult(g, li), *[Not(eq(g, i)) for i, _ in b.meta['elems']])))
    if not eng.alive(s):
        return False
    e = eng.buf_new_elem(s, bid, g)
    saved = eng.obs
    eng.obs = []
    try:
        for s2, v in call_pred(eng, s, pf, pobj, e):
            if eng.feasible(s2, v if not isinstance(v, int) else bool(v)):
                return True
    finally:
        eng.obs = saved
    return False


# ------------------------------------------------------------------ associative containers
HS = {'std::unordered_map': 8, 'std::map': 32}


def tab_types(eng, name):
    cls = cls_of(eng, name)
    ta = targs(eng, cls)
    k, v = ta.get('_Key'), ta.get('_Tp')
    if k is None or v is None:
        raise Unsupported('map types of ' + eng.m.dem[name])
    return tab_layout(eng, k, v)


def tab_layout(eng, k, v):
    ks, vs = eng.di.size(k), eng.di.size(v)
    al = min(8, vs) if vs in (1, 2, 4, 8) else 8
    voff = (ks + al - 1) // al * al
    return dict(kty=eng.di.strip(k), vty=eng.di.strip(v), ksize=ks, vsize=vs, voff=voff, nsize=voff + vs)


def map_at(eng, st, q, T, kind):
    o = st.mem[q.obj]
    c = o.cells.get(q.off)
    if c is not None and isinstance(c[1], MapVal):
        return c[1].tab
    size = 56 if kind == 'std::unordered_map' else 48
    nm = eng.loc_name(o, q.off)
    if o.sym and not o.zero:
        key = (o.id, q.off, 'map', o.ep(q.off))
        v = eng.lazy.get(key)
        if v is None:
            v = MapVal(next(eng.ids))
            eng.lazy[key] = v
            eng.lazy[key + ('size',)] = eng.fresh(nm + '.size')
        if v.tab not in st.mem:
            t = Obj(v.tab, 'tab', None, sym=True, fresh=o.fresh, name=nm)
            t.tok = st.tok
            t.meta.update(entries=(), absent=(), size=eng.lazy[key + ('size',)], esize=1 << 20, hs=HS[kind], gen=0,
                          sorted=kind == 'std::map', owner=(o.id, q.off), **T)
            st.mem[v.tab] = t
            st.assume(z3.ULT(t.meta['size'], 1 << 40))
        st.w(q.obj).cells[q.off] = (size, v)
        if eng.spec:
            eng.spec.on_new_map(st, st.mem[q.obj], q.off, v.tab)
        return v.tab
    return map_new(eng, st, q, T, kind)


def map_new(eng, st, q, T, kind):
    t = eng.new_obj(st, 'tab', None, name=eng.loc_name(st.mem[q.obj], q.off))
    t.meta.update(entries=(), absent=(), size=0, esize=1 << 20, hs=HS[kind], gen=0, sorted=kind == 'std::map',
                  owner=(q.obj, q.off), **T)
    map_set(eng, st, q, t.id, kind)
    return t.id


def map_set(eng, st, q, tab, kind):
    size = 56 if kind == 'std::unordered_map' else 48
    o = st.w(q.obj)
    for k in [k for k, x in o.cells.items() if k < q.off + size and k + x[0] > q.off and k != q.off]:
        del o.cells[k]
    o.cells[q.off] = (size, MapVal(tab))
    st.w(tab).meta['owner'] = (q.obj, q.off)
    if eng.spec:
        eng.spec.after_store(st, o, q.off, size, MapVal(tab))


def key_eq(a, b):
    return eq(a, b)


def tab_add_entry(eng, st, tab, key, pos, sym):
    """materialise an entry"""
    t = st.w(tab)
    m = t.meta
    n = eng.new_obj(st, 'node', m['nsize'], sym=sym, fresh=t.fresh, ty=('pair', m['kty'], m['vty'], m['voff']),
                    name='%s{%s}' % (t.name, str(key)[:24]))
    n.cells[0] = (m['ksize'], key)
    n.meta['parent'] = tab
    for e in m['entries']:
        st.assume(B(Not(eq(e['pos'], pos))))
        st.assume(B(Not(key_eq(e['key'], key))))
        if m['sorted']:
            st.assume(B(eq(B(ult(e['key'], key)), B(ult(e['pos'], pos)))))
    for k in m['absent']:
        st.assume(B(Not(key_eq(k, key))))
    st.assume(B(ult(pos, m['size'])))
    m['entries'] = m['entries'] + (dict(key=key, pos=pos, node=n.id, new=not sym),)
    if sym and eng.spec:
        eng.spec.on_new_entry(st, tab, key, n.id, pos)
    if sym:
        n = st.w(n.id)
        n.meta['cells0'] = dict(n.cells)
    return n.id


def tab_find(eng, st, tab, key):
    """[(state, entry or None)]"""
    m = st.mem[tab].meta
    for e in m['entries']:
        if same(e['key'], key):
            return [(st, e)]
    for k in m['absent']:
        if same(k, key):
            return [(st, None)]
    out = []
    cur = st
    for e in m['entries']:
        c = key_eq(e['key'], key)
        if c is False:
            continue
        nxt = None
        for s, t in eng.split(cur, c):
            if t:
                out.append((s, e))
            else:
                nxt = s
        cur = nxt
        if cur is None:
            return out
    for k in m['absent']:
        c = key_eq(k, key)
        nxt = None
        for s, t in eng.split(cur, c):
            if t:
                out.append((s, None))
            else:
                nxt = s
        cur = nxt
        if cur is None:
            return out
    if not st.mem[tab].sym:
        out.append((cur, None))
        return out
    # unknown: present or absent
    s2 = cur.fork()
    pos = eng.fresh('pos')
    n = tab_add_entry(eng, cur, tab, key, pos, True)
    if eng.alive(cur):
        out.append((cur, [e for e in cur.mem[tab].meta['entries'] if e['node'] == n][0]))
    t = s2.w(tab)
    t.meta['absent'] = t.meta['absent'] + (key,)
    if eng.spec:
        eng.spec.on_absent(s2, tab, key)
    s2.assume(B(ule(len(t.meta['entries']), t.meta['size'])))
    if eng.alive(s2):
        out.append((s2, None))
    return out


def tab_at(eng, st, tab, pos):
    """[(state, node id)] of the entry at position pos"""
    m = st.mem[tab].meta
    for e in m['entries']:
        if same(e['pos'], pos):
            return [(st, e['node'])]
    out = []
    cur = st
    for e in m['entries']:
        nxt = None
        for s, t in eng.split(cur, eq(e['pos'], pos)):
            if t:
                out.append((s, e['node']))
            else:
                nxt = s
        cur = nxt
        if cur is None:
            return out
    if not cur.mem[tab].sym:
        eng.oblige(cur, False, 'map-iterator-dereferenceable', ('SAFE',))
        return out
    eng.oblige(cur, ult(pos, m['size']), 'map-iterator-dereferenceable', ('SAFE',))
    key = eng.fresh(st.mem[tab].name + '.key', 8 * m['ksize'])
    n = tab_add_entry(eng, cur, tab, key, pos, True)
    if eng.alive(cur):
        out.append((cur, n))
    return out


def insert_cases(eng, st, tab, key):
    """the states in which it is settled which of the keys known to be absent is the one that is inserted"""
    out = [st]
    for k in st.mem[tab].meta['absent']:
        if not same(k, key):
            out = [s2 for s in out for s2, b in eng.split(s, key_eq(k, key))]
    return out


def tab_insert(eng, st, tab, key):
    t = st.w(tab)
    pos = t.meta['size']
    if t.meta['sorted']:
        # positions follow the key order: shift the entries with a larger key
        p = eng.fresh('pos')
        st.assume(B(ule(p, pos)))
        ents = []
        for e in t.meta['entries']:
            e = dict(e)
            e['pos'] = z3.If(B(ule(p, e['pos'])), bv(e['pos']) + 1, bv(e['pos']))
            ents.append(e)
        t.meta['entries'] = tuple(ents)
        pos = p
    t.meta['size'] = add(t.meta['size'], 1)
    t.meta['absent'] = tuple(k for k in t.meta['absent'] if not same(k, key) and eng.must(st, Not(key_eq(k, key))))
    t.meta['gen'] = next(eng.names)
    # other absent keys must differ from the new key
    n = tab_add_entry(eng, st, tab, key, pos, False)
    return n


def tab_remove(eng, st, tab, e):
    t = st.w(tab)
    ents = []
    for x in t.meta['entries']:
        if x['node'] == e['node']:
            continue
        g = ult(e['pos'], x['pos'])
        x = dict(x)
        x['pos'] = (sub(x['pos'], 1) if g else x['pos']) if isinstance(g, bool) else z3.simplify(
            z3.If(g, bv(x['pos']) - 1, bv(x['pos'])))
        ents.append(x)
    t.meta['entries'] = tuple(ents)
    t.meta['size'] = sub(t.meta['size'], 1)
    t.meta['absent'] = t.meta['absent'] + (e['key'],)
    t.meta['gen'] = next(eng.names)


def node_destroyer(eng, name):
    return find_callee(eng, name, lambda b, fn: b == 'std::pair::~pair' and not fn.is_decl)


def tab_destroy_node(eng, st, tab, node, name):
    des = node_destroyer(eng, name)
    if des is None:
        m = st.mem[tab].meta
        d2 = type_destroyer(eng, m['vty'])
        if d2 is None:
            return [st]
        return destroy_elem(eng, st, d2, Ptr(node, m['voff']))
    return destroy_elem(eng, st, des, Ptr(node, 0))


def kind_of(name_base):
    return name_base.rsplit('::', 1)[0]


def with_map(f):
    def h(eng, st, name, args, fty, off=0):
        kind = kind_of(eng.m.bases[name])
        T = tab_types(eng, name)
        out = []
        for s, q in locs(eng, st, args[off]):
            tab = map_at(eng, s, q, T, kind)
            out.extend(f(eng, s, name, args, q, tab, kind, T))
        return out
    return h


def load_key(eng, st, p, T):
    return eng.load(st, p, T['ksize'])


def it(st, tab, pos):
    return Ptr(tab, 0, pos)


@with_map
def map_find(eng, st, name, args, q, tab, kind, T):
    out = []
    eng.access(st, q, 56, False)
    for s, k in load_key(eng, st, args[1], T):
        for s2, e in tab_find(eng, s, tab, k):
            out.append((s2, RET, it(s2, tab, e['pos'] if e else s2.mem[tab].meta['size'])))
    return out


@with_map
def map_count(eng, st, name, args, q, tab, kind, T):
    out = []
    eng.access(st, q, 56, False)
    for s, k in load_key(eng, st, args[1], T):
        for s2, e in tab_find(eng, s, tab, k):
            out.append((s2, RET, 1 if e else 0))
    return out


@with_map
def map_mapped_at(eng, st, name, args, q, tab, kind, T):
    out = []
    eng.access(st, q, 56, False)
    for s, k in load_key(eng, st, args[1], T):
        for s2, e in tab_find(eng, s, tab, k):
            if e:
                out.append((s2, RET, Ptr(tab, s2.mem[tab].meta['hs'] + T['voff'], e['pos'])))
            else:
                o = eng.new_obj(s2, 'exc', 16, name='out_of_range')
                ex = Exc(Ptr(o.id, 0), '_ZTISt12out_of_range')
                s2.excs[o.id] = ex
                out.append((s2, 'throw', ex))
    return out


@with_map
def map_begin(eng, st, name, args, q, tab, kind, T):
    eng.access(st, q, 56, False)
    return R(st, it(st, tab, 0))


@with_map
def map_end(eng, st, name, args, q, tab, kind, T):
    eng.access(st, q, 56, False)
    return R(st, it(st, tab, st.mem[tab].meta['size']))


@with_map
def map_size(eng, st, name, args, q, tab, kind, T):
    eng.access(st, q, 56, False)
    return R(st, st.mem[tab].meta['size'])


@with_map
def map_empty(eng, st, name, args, q, tab, kind, T):
    eng.access(st, q, 56, False)
    c = eq(st.mem[tab].meta['size'], 0)
    return R(st, int(c) if isinstance(c, bool) else c)


def tree_end(eng, st, name, args, fty):
    """begin and end of the tree inside a map (reached through rbegin, rend)"""
    pair = targs(eng, eng.di.strip(targs(eng, cls_of(eng, name)).get('_Val')))
    if pair.get('_T1') is None:
        raise Unsupported('tree of ' + eng.m.dem[name])
    out = []
    for s, q in locs(eng, st, args[0]):
        tab = map_at(eng, s, q, tab_layout(eng, pair['_T1'], pair['_T2']), 'std::map')
        eng.access(s, q, 56, False)
        first = eng.m.bases[name].endswith('::begin')
        out.append((s, RET, it(s, tab, 0 if first else s.mem[tab].meta['size'])))
    return out


def map_ctor(eng, st, name, args, fty):
    kind = kind_of(eng.m.bases[name])
    pp = params_of(eng, name)
    T = tab_types(eng, name)
    out = []
    for s, q in locs(eng, st, args[0]):
        if not pp:
            map_new(eng, s, q, T, kind)
            out.append((s, RET, None))
        elif pp[0].startswith(kind) and pp[0].endswith('&&'):
            for s2, r in locs(eng, s, args[1]):
                eng.access(s2, r, 56, True)
                tab = map_at(eng, s2, r, T, kind)
                map_new(eng, s2, r, T, kind)
                map_set(eng, s2, q, tab, kind)
                out.append((s2, RET, None))
        elif 'initializer_list' in pp[0] and isinstance(args[2], int) and args[2] <= 8 and isinstance(args[1], Ptr) and T['vsize'] in (1, 2, 4, 8):
            tab = map_new(eng, s, q, T, kind)
            todo = [s]
            for i in range(args[2]):
                nxt = []
                for c in todo:
                    a = args[1].off + i * T['nsize']
                    k, v = eng.load_at(c, args[1].obj, a, T['ksize']), eng.load_at(c, args[1].obj, a + T['voff'], T['vsize'])
                    for c2, e in tab_find(eng, c, tab, k):
                        if e is None:
                            eng.store_at(c2, tab_insert(eng, c2, tab, k), T['voff'], T['vsize'], v)
                        nxt.append(c2)
                todo = nxt
            out += [(c, RET, None) for c in todo]
        elif 'initializer_list' in pp[0]:
            # contents opaque
            t = map_new(eng, s, q, T, kind)
            o = s.w(t)
            o.sym = True
            o.meta['size'] = eng.fresh('map.size')
            s.assume(z3.ULT(o.meta['size'], 1 << 40))
            out.append((s, RET, None))
        else:
            raise Unsupported('map constructor ' + eng.m.dem[name])
    return out


@with_map
def map_clear(eng, st, name, args, q, tab, kind, T):
    eng.access(st, q, 56, True)
    out = []
    if eng.spec:
        eng.spec.on_map_clear(st, tab)
    for s in destroy_nodes(eng, st, tab, name):
        t = s.w(tab)
        t.meta.update(entries=(), absent=(), size=0, gen=next(eng.names))
        t.sym = False
        out.append((s, RET, None))
    return out


def destroy_nodes(eng, st, tab, name):
    t = st.mem[tab]
    states = [st]
    for e in t.meta['entries']:
        nxt = []
        for s in states:
            nxt.extend(tab_destroy_node(eng, s, tab, e['node'], name))
        states = nxt
    for s in states:
        if s.mem[tab].sym:
            m = s.mem[tab].meta
            g = eng.fresh('anypos')
            c = And(ult(g, m['size']), *[Not(eq(g, e['pos'])) for e in m['entries']])
            if eng.feasible(s, c):
                gs = s.fork()
                gs.assume(B(c))
                key = eng.fresh('anykey', 8 * m['ksize'])
                n = tab_add_entry(eng, gs, tab, key, g, True)
                if eng.alive(gs):
                    gs.ghost['generic'] = True
                    tab_destroy_node(eng, gs, tab, n, name)
    return states


@with_map
def map_dtor(eng, st, name, args, q, tab, kind, T):
    out = []
    for s in destroy_nodes(eng, st, tab, name):
        t = s.w(tab)
        t.meta.update(entries=(), absent=(), size=0, gen=next(eng.names))
        t.sym = False
        out.append((s, RET, None))
    return out


@with_map
def map_erase(eng, st, name, args, q, tab, kind, T):
    eng.access(st, q, 56, True)
    pp = params_of(eng, name)
    out = []
    bykey = pp[0].endswith('const&') and 'iterator' not in pp[0]
    if bykey:
        for s, k in load_key(eng, st, args[1], T):
            for s2, e in tab_find(eng, s, tab, k):
                if e is None:
                    out.append((s2, RET, 0))
                    continue
                tab_remove(eng, s2, tab, e)
                if eng.spec:
                    eng.spec.on_map_erase(s2, tab, e)
                for s3 in tab_destroy_node(eng, s2, tab, e['node'], name):
                    out.append((s3, RET, 1))
        return out
    if len(pp) != 1:
        raise Unsupported('map erase range')
    p = args[1]
    if not isinstance(p, Ptr) or p.obj != tab:
        raise Unsupported('map erase iterator')
    for s, n in tab_at(eng, st, tab, p.idx):
        e = [x for x in s.mem[tab].meta['entries'] if x['node'] == n][0]
        tab_remove(eng, s, tab, e)
        if eng.spec:
            eng.spec.on_map_erase(s, tab, e)
        for s3 in tab_destroy_node(eng, s, tab, n, name):
            out.append((s3, RET, it(s3, tab, p.idx)))
    return out


@with_map
def map_index(eng, st, name, args, q, tab, kind, T):
    """operator[]"""
    eng.access(st, q, 56, True)
    out = []
    for s, k in load_key(eng, st, args[1], T):
        for s2, e in tab_find(eng, s, tab, k):
            hs = s2.mem[tab].meta['hs']
            if e:
                out.append((s2, RET, Ptr(tab, hs + T['voff'], e['pos'])))
                continue
            for s3 in insert_cases(eng, s2, tab, k):
                out.extend(map_index_new(eng, s3, name, tab, k, T, args[1]))
    return out


def map_index_new(eng, st, name, tab, k, T, keyp):
    n = tab_insert(eng, st, tab, k)
    cons = constructor_in(eng, name)
    o = eng.new_obj(st, 'heap', 8, name='tuple')
    o.cells[0] = (8, keyp)
    kobj = eng.new_obj(st, 'heap', 8, name='key')
    kobj.cells[0] = (T['ksize'], k)
    o.cells[0] = (8, Ptr(kobj.id, 0))
    d = Ptr(eng.dummy(st), 0)
    out = []
    if cons is None:
        raise Unsupported('map operator[] construct')
    for s, kk, r in construct(eng, st, cons, Ptr(n, 0), [d, Ptr(o.id, 0), d]):
        e = [x for x in s.mem[tab].meta['entries'] if x['node'] == n][0]
        if eng.spec:
            eng.spec.on_map_insert(s, tab, e)
        out.append((s, kk, Ptr(tab, s.mem[tab].meta['hs'] + T['voff'], e['pos']) if kk == RET else r))
    return out


@with_map
def map_emplace(eng, st, name, args, q, tab, kind, T):
    """emplace(key, value...), insert(pair): returns pair<iterator,bool>"""
    eng.access(st, q, 56, True)
    meth = eng.m.bases[name].rsplit('::', 1)[1]
    cons = constructor_in(eng, name)
    if cons is None:
        raise Unsupported('map emplace construct')
    # construct the node first to learn the key
    n0 = eng.new_obj(st, 'node', T['nsize'], fresh=True, ty=('pair', T['kty'], T['vty'], T['voff']), name='newnode')
    nid = n0.id
    fn = eng.m.functions[cons]
    fn.parse()
    a = args[1:]
    if meth == 'try_emplace':
        raise Unsupported('try_emplace')
    out = []
    for s, k, r in construct(eng, st, cons, Ptr(nid, 0), a):
        if k != RET:
            out.append((s, k, r))
            continue
        key = eng.load_at(s, nid, 0, T['ksize'])
        for s2, e in tab_find(eng, s, tab, key):
            if e:
                for s3 in tab_destroy_node(eng, s2, tab, nid, name):
                    out.append((s3, RET, [it(s3, tab, e['pos']), 0]))
                continue
            for s3 in insert_cases(eng, s2, tab, key):
                n = tab_insert(eng, s3, tab, key)
                # adopt the constructed node
                t = s3.w(tab)
                ents = []
                for x in t.meta['entries']:
                    if x['node'] == n:
                        x = dict(x)
                        x['node'] = nid
                    ents.append(x)
                t.meta['entries'] = tuple(ents)
                o = s3.w(nid)
                o.meta['parent'] = tab
                o.fresh = t.fresh
                if not t.fresh:
                    eng.publish_cells(s3, nid)
                e = [x for x in ents if x['node'] == nid][0]
                if eng.spec:
                    eng.spec.on_map_insert(s3, tab, e)
                out.append((s3, RET, [it(s3, tab, e['pos']), 1]))
    return out


@with_map
def map_nop(eng, st, name, args, q, tab, kind, T):
    eng.access(st, q, 56, True)
    return R(st)


@with_map
def map_assign(eng, st, name, args, q, tab, kind, T):
    pp = params_of(eng, name)
    if not pp[0].endswith('&&'):
        raise Unsupported('map copy assignment')
    out = []
    for s, r in locs(eng, st, args[1]):
        eng.access(s, r, 56, True)
        eng.access(s, q, 56, True)
        src = map_at(eng, s, r, T, kind)
        map_new(eng, s, r, T, kind)
        map_set(eng, s, q, src, kind)
        for s2 in destroy_nodes(eng, s, tab, name):
            out.append((s2, RET, args[0]))
    return out


@with_map
def map_swap(eng, st, name, args, q, tab, kind, T):
    out = []
    for s, r in locs(eng, st, args[1]):
        eng.access(s, r, 56, True)
        eng.access(s, q, 56, True)
        src = map_at(eng, s, r, T, kind)
        map_set(eng, s, q, src, kind)
        map_set(eng, s, r, tab, kind)
        out.append((s, RET, None))
    return out


def iter_incr(eng, st, name, args, fty):
    """_Node_iterator_base::_M_incr"""
    out = []
    for s, v in eng.load(st, args[0], 8):
        if not isinstance(v, Ptr) or v.idx is None:
            raise Unsupported('hash iterator')
        for s2 in eng.store(s, args[0], 8, Ptr(v.obj, v.off, add(v.idx, 1))):
            out.append((s2, RET, None))
    return out


def rb_incr(eng, st, name, args, fty):
    v = args[0]
    if not isinstance(v, Ptr) or v.idx is None:
        raise Unsupported('tree iterator')
    return R(st, Ptr(v.obj, v.off, add(v.idx, 1)))


def rb_decr(eng, st, name, args, fty):
    v = args[0]
    if not isinstance(v, Ptr) or v.idx is None:
        raise Unsupported('tree iterator')
    return R(st, Ptr(v.obj, v.off, sub(v.idx, 1)))


# ------------------------------------------------------------------ std::priority_queue
def pq_types(eng, name):
    cls = cls_of(eng, name)
    t = targs(eng, cls).get('_Tp')
    if t is None:
        raise Unsupported('priority_queue element type')
    return eng.di.size(t), eng.di.strip(t)


def with_pq(f):
    def h(eng, st, name, args, fty):
        es, ety = pq_types(eng, name)
        out = []
        for s, q in locs(eng, st, args[0]):
            v = vec_at(eng, s, q, es, ety)
            out.extend(f(eng, s, name, args, q, v))
        return out
    return h


def comparator(eng, ety):
    """the real operator() of the queue's std::less / user comparator for the element type"""
    from .di import norm
    tn = eng.di.tname(ety)
    for n in eng.m.functions:
        if eng.m.bases.get(n) == 'std::less::operator()' and norm('std::less<%s>::' % tn) in norm(eng.m.dem[n]):
            return n
    return None


@with_pq
def pq_empty(eng, st, name, args, q, v):
    vread(eng, st, q)
    c = eq(v.len, 0)
    return R(st, int(c) if isinstance(c, bool) else c)


@with_pq
def pq_size(eng, st, name, args, q, v):
    vread(eng, st, q)
    return R(st, v.len)


def pq_comp(eng, st, name, a, b):
    """comp(a, b) -> [(state, bool)]"""
    ety = pq_types(eng, name)[1]
    c = comparator(eng, ety)
    if c is None:
        raise Unsupported('priority_queue comparator')
    return [(s, v) for s, k, v in eng.call(st, c, [Ptr(eng.dummy(st), 0), Ptr(a, 0), Ptr(b, 0)]) if k == RET]


def pq_top_idx(eng, st, name, q, v):
    b = st.mem[v.buf]
    top = b.meta.get('top')
    if top is not None and top[0] == b.meta.get('gen') and same(top[1], v.len):
        return [(st, top[2])]
    eng.oblige(st, ult(0, v.len), 'priority-queue-non-empty', ('SAFE',))
    t = eng.fresh('top')
    st.assume(B(ult(t, v.len)))
    out = []
    for s, e in eng.buf_elem(st, v.buf, t):
        states = [s]
        for i, x in s.mem[v.buf].meta['elems']:
            if x == e:
                continue
            nxt = []
            for s1 in states:
                for s2, inr in eng.split(s1, ult(i, v.len)):
                    if not inr:
                        nxt.append(s2)
                        continue
                    for s3, c in pq_comp(eng, s2, name, e, x):
                        s3.assume(B(Not(c if not isinstance(c, int) else bool(c))))
                        if eng.alive(s3):
                            nxt.append(s3)
            states = nxt
        for s1 in states:
            bo = s1.w(v.buf)
            bo.meta['top'] = (bo.meta.get('gen'), v.len, t)
            out.append((s1, t))
    return out


@with_pq
def pq_top(eng, st, name, args, q, v):
    vread(eng, st, q)
    return [(s, RET, Ptr(v.buf, 0, t)) for s, t in pq_top_idx(eng, st, name, q, v)]


@with_pq
def pq_pop(eng, st, name, args, q, v):
    vwrite(eng, st, q)
    out = []
    for s, t in pq_top_idx(eng, st, name, q, v):
        for s2, e in eng.buf_elem(s, v.buf, t):
            b = s2.w(v.buf)
            ne = []
            for i, x in b.meta['elems']:
                if x == e:
                    continue
                g = ult(t, i)
                ne.append(((sub(i, 1) if g else i) if isinstance(g, bool) else z3.simplify(z3.If(g, bv(i) - 1, bv(i))), x))
            b.meta['elems'] = tuple(ne)
            b.meta['gen'] = next(eng.names)
            nv = VecVal(sub(v.len, 1), v.cap, v.buf)
            vec_set(eng, s2, q, nv)
            if eng.spec:
                eng.spec.on_pq_pop(s2, q, nv, e)
            out.append((s2, RET, None))
    return out


@with_pq
def pq_emplace(eng, st, name, args, q, v):
    cons = constructor_in(eng, name)
    if cons is None:
        raise Unsupported('priority_queue emplace')
    vwrite(eng, st, q)
    b = st.w(v.buf)
    e = eng.new_obj(st, 'elem', b.meta['esize'], fresh=b.fresh, ty=b.meta.get('ety'), name='%s[+]' % b.name)
    e.meta['parent'] = v.buf
    eid = e.id
    out = []
    for s, k, r in construct(eng, st, cons, Ptr(eid, 0), args[1:]):
        if k == 'throw':
            out.append((s, k, r))
            continue
        b = s.w(v.buf)
        b.meta['elems'] = vacate(eng, s, b.meta['elems'], v.len) + ((v.len, eid),)
        b.meta['gen'] = next(eng.names)
        nv = VecVal(add(v.len, 1), eng.fresh('cap'), v.buf)
        vec_set(eng, s, q, nv)
        if eng.spec:
            eng.spec.on_pq_push(s, q, nv, eid)
        out.append((s, RET, None))
    return out


def pq_ctor(eng, st, name, args, fty):
    es, ety = pq_types(eng, name)
    pp = params_of(eng, name)
    out = []
    for s, q in locs(eng, st, args[0]):
        b = new_buf(eng, s, es, ety, name=eng.loc_name(s.mem[q.obj], q.off))
        if not pp:
            vec_set(eng, s, q, VecVal(0, 0, b.id))
            out.append((s, RET, None))
        elif pp[0].endswith('&&'):
            for s2, r in locs(eng, s, args[1]):
                v = vec_at(eng, s2, r, es, ety)
                vec_set(eng, s2, r, VecVal(0, 0, b.id))
                vec_set(eng, s2, q, v)
                out.append((s2, RET, None))
        else:
            raise Unsupported('priority_queue constructor')
    return out


# ------------------------------------------------------------------ strings (opaque)
def string_op(eng, st, name, args, fty):
    base = eng.m.bases.get(name, name)
    meth = base.rsplit('::', 1)[-1]
    if meth in ('empty',):
        return R(st, eng.freshb('string.empty'))
    if meth in ('size', 'length', 'capacity', 'compare', 'find'):
        return R(st, eng.fresh('string.' + meth, 64 if meth != 'compare' else 32))
    if fty is None or fty == ('void',):
        return R(st)
    if fty[0] == 'ptr':
        if meth in ('c_str', 'data'):
            return R(st, eng.fresh('cstr'))
        return R(st, args[0] if args else None)
    return R(st, eng.undef(fty))


def string_free(eng, st, name, args, fty):
    d = eng.m.dem.get(name, '')
    if 'basic_string' not in d and 'std::string' not in d and not eng.m.bases.get(name, '').endswith('to_string'):
        return NotImplemented
    if fty is None or fty == ('void',):
        return R(st)
    return R(st, eng.undef(fty))


def nop(eng, st, name, args, fty):
    if fty is None or fty == ('void',):
        return R(st)
    if fty[0] == 'ptr' and args:
        return R(st, args[0])
    return R(st, eng.undef(fty))


# ------------------------------------------------------------------ exceptions
def cxa_allocate(eng, st, name, args, fty):
    o = eng.new_obj(st, 'exc', args[0] if isinstance(args[0], int) else None, name='exception')
    st.excs[o.id] = Exc(Ptr(o.id, 0), None)
    return R(st, Ptr(o.id, 0))


def ti_name(eng, v):
    if isinstance(v, Ptr):
        for n, i in eng.gobj.items():
            if i == v.obj:
                return n
    return None


def cxa_init_primary(eng, st, name, args, fty):
    st.excs[args[0].obj] = Exc(args[0], ti_name(eng, args[1]))
    return R(st, args[0])


def cxa_throw(eng, st, name, args, fty):
    e = Exc(args[0], ti_name(eng, args[1]))
    st.excs[args[0].obj] = e
    return [(st, 'throw', e)]


def cxa_begin_catch(eng, st, name, args, fty):
    st.caught = st.caught + (eng.exc_of(st, args[0]),)
    return R(st, args[0])


def cxa_end_catch(eng, st, name, args, fty):
    st.caught = st.caught[:-1]
    return R(st)


def cxa_rethrow(eng, st, name, args, fty):
    if not st.caught:
        eng.oblige(st, False, 'rethrow-without-exception', ('SAFE',))
        return []
    e = st.caught[-1]
    return [(st, 'throw', e)]


def current_exception(eng, st, name, args, fty):
    e = st.caught[-1] if st.caught else None
    return [(s, RET, None) for s in eng.store(st, args[0], 8, e.ptr if e else 0)]


def rethrow_exception(eng, st, name, args, fty):
    out = []
    for s, v in eng.load(st, args[0], 8):
        if isinstance(v, int):
            eng.oblige(s, False, 'rethrow-null-exception', ('SAFE',))
            continue
        if z3.is_expr(v):
            eng.oblige(s, v != 0, 'rethrow-null-exception', ('SAFE',))
            s.assume(v != 0)
        e = eng.exc_of(s, v)
        out.append((s, 'throw', e))
    return out


def eptr_ctor_raw(eng, st, name, args, fty):
    """exception_ptr(void*)"""
    pp = params_of(eng, name)
    if pp == ['void*']:
        return [(s, RET, None) for s in eng.store(st, args[0], 8, args[1])]
    if eng.m.functions[name].is_decl:
        if not pp:
            return [(s, RET, None) for s in eng.store(st, args[0], 8, 0)]
        if pp[0].endswith('const&'):
            out = []
            for s, v in eng.load(st, args[1], 8):
                out += [(x, RET, None) for x in eng.store(s, args[0], 8, v)]
            return out
        raise Unsupported('exception_ptr constructor')
    return NotImplemented


def future_error_ctor(eng, st, name, args, fty):
    pp = params_of(eng, name)
    out = []
    if pp and pp[0].endswith('&') and 'error' in pp[0] and 'code' not in pp[0]:
        for s, v in eng.load(st, eng.gep(st, ('i', 8), args[1], [16]), 4):
            for s2 in eng.store(s, eng.gep(s, ('i', 8), args[0], [16]), 4, v):
                out.append((s2, RET, None))
        return out
    v = args[1]
    if isinstance(v, Ptr):
        for s, x in eng.load(st, v, 4):
            for s2 in eng.store(s, eng.gep(s, ('i', 8), args[0], [16]), 4, x):
                out.append((s2, RET, None))
        return out
    if isinstance(v, list):
        v = v[0]
    if z3.is_bv(v) and v.size() == 64:
        v = unlit(z3.simplify(z3.Extract(31, 0, v)))
    elif isinstance(v, int):
        v &= 0xffffffff
    for s2 in eng.store(st, eng.gep(st, ('i', 8), args[0], [16]), 4, v):
        out.append((s2, RET, None))
    return out


def category(eng, st, name, args, fty):
    return R(st, Ptr(eng.dummy(st), 0))


def make_error_code(eng, st, name, args, fty):
    return R(st, [args[0], Ptr(eng.dummy(st), 0)])


# ------------------------------------------------------------------ memory
def op_new(eng, st, name, args, fty):
    n = args[0]
    if not isinstance(n, int):
        raise Unsupported('symbolic allocation size')
    o = eng.new_obj(st, 'heap', n, name='heap')
    return R(st, Ptr(o.id, 0))


def op_delete(eng, st, name, args, fty):
    p = args[0]
    if isinstance(p, int):
        return R(st)
    if isinstance(p, Ptr) and p.obj in st.mem:
        o = st.w(p.obj)
        if o.dead:
            eng.oblige(st, False, 'double-delete', ('SAFE',))
        o.dead = True
    return R(st)


def mem_alloc_raw(eng, st, name, args, fty):
    return NotImplemented


# ------------------------------------------------------------------ reference counts
def count_concrete(eng, st, pi):
    if isinstance(pi, Ptr) and pi.obj in st.mem and st.mem[pi.obj].fresh:
        return True
    return False


def add_ref(eng, st, name, args, fty):
    pi = args[0]
    if count_concrete(eng, st, pi):
        eng.rc(st, pi, 8, 1)
    return R(st)


def weak_add_ref(eng, st, name, args, fty):
    pi = args[0]
    if count_concrete(eng, st, pi):
        eng.rc(st, pi, 12, 1)
    return R(st)


def add_ref_lock_nothrow(eng, st, name, args, fty):
    pi = args[0]
    if count_concrete(eng, st, pi):
        c = eng.load_at(st, pi.obj, pi.off + 8, 4)
        if isinstance(c, int):
            if c == 0:
                eng.spec.ev(st, 'weak_lock', pi, False)
                return R(st, 0)
            eng.rc(st, pi, 8, 1)
            eng.spec.ev(st, 'weak_lock', pi, True)
            return R(st, 1)
    s2 = st.fork()
    eng.spec.ev(st, 'weak_lock', pi, True)
    eng.spec.ev(s2, 'weak_lock', pi, False)
    return [(st, RET, 1), (s2, RET, 0)]


def get_use_count(eng, st, name, args, fty):
    pi = args[0]
    if count_concrete(eng, st, pi):
        return R(st, eng.load_at(st, pi.obj, pi.off + 8, 4))
    v = eng.fresh('use_count', 64)
    st.assume(z3.And(v >= (1 if holders(eng, st, pi, None) else 0), v < (1 << 31)))
    return R(st, v)


def owners(eng, st, skip=None, match=lambda v: True):
    """the control blocks that live shared_ptr cells hold"""
    for oid, o in st.mem.items():
        if o.dead or o.kind == 'global':
            continue
        for off, (sz, v) in o.cells.items():
            if sz != 8 or (oid, off) == skip or not match(v) or not eng.is_count_cell(st, o, off):
                continue
            if o.kind in ('elem', 'node'):
                par = st.mem.get(o.meta.get('parent'))
                if par is None or not eng.visible(st, par, oid):
                    continue
            elif o.kind in ('heap', 'sym') and not o.fresh:
                if not eng.spec.stable_cell(st, o, off):
                    continue
            yield v


def holders(eng, st, pi, skip):
    """number of other live shared_ptr cells holding control block pi"""
    return sum(1 for v in owners(eng, st, skip, lambda v: v is pi or isinstance(v, Ptr) and isinstance(pi, Ptr) and v == pi or
                                 z3.is_expr(v) and z3.is_expr(pi) and v.eq(pi)))


def release(eng, st, pi, skip=None):
    """drop one strong reference"""
    if isinstance(pi, int):
        return [st]
    if count_concrete(eng, st, pi):
        c = eng.load_at(st, pi.obj, pi.off + 8, 4)
        if not isinstance(c, int):
            # changed by a loop: the contract has to know whether other references are left
            r = eng.spec.contract.counted_release(st, pi) if eng.spec else None
            if r is None:
                raise Unsupported('reference count')
            return r
        eng.rc(st, pi, 8, -1)
        if c > 1:
            return [st]
        out = []
        # _M_dispose (vtable slot 2), then the weak count
        for s in eng.vcall(st, pi, 2):
            for s2 in weak_release(eng, s, pi):
                out.append(s2)
        return out
    if holders(eng, st, pi, skip) > 0:
        return [st]
    r = eng.spec.on_release(st, pi)
    if r is not None:
        return r
    return [st]


def weak_release(eng, st, pi):
    if isinstance(pi, int) or not count_concrete(eng, st, pi):
        return [st]
    c = eng.load_at(st, pi.obj, pi.off + 12, 4)
    if not isinstance(c, int):
        raise Unsupported('weak count')
    eng.rc(st, pi, 12, -1)
    if c > 1:
        return [st]
    return eng.vcall(st, pi, 3)


def sp_release(eng, st, name, args, fty):
    return [(s, RET, None) for s in release(eng, st, args[0])]


def sp_weak_release(eng, st, name, args, fty):
    return [(s, RET, None) for s in weak_release(eng, st, args[0])]


def shared_count_dtor(eng, st, name, args, fty):
    out = []
    for s, q in locs(eng, st, args[0]):
        pi = eng.load_at(s, q.obj, q.off, 8)
        eng.access(s, q, 8, True)
        for s1, isnull in eng.split(s, eng.ptr_eq(s, pi, 0)):
            if isnull:
                out.append((s1, RET, None))
                continue
            eng.store_at(s1, q.obj, q.off, 8, 0)
            for s2 in release(eng, s1, pi):
                out.append((s2, RET, None))
    return out


def shared_count_assign(eng, st, name, args, fty):
    if '__weak_count' in params_of(eng, name)[0]:
        return NotImplemented
    out = []
    for s, q in locs(eng, st, args[0]):
        for s1, r in locs(eng, s, args[1]):
            eng.access(s1, r, 8, False)
            eng.access(s1, q, 8, True)
            old = eng.load_at(s1, q.obj, q.off, 8)
            new = eng.load_at(s1, r.obj, r.off, 8)
            if same(old, new):
                out.append((s1, RET, args[0]))
                continue
            if count_concrete(eng, s1, new):
                eng.rc(s1, new, 8, 1)
            eng.store_at(s1, q.obj, q.off, 8, new)
            for s2, isnull in eng.split(s1, eng.ptr_eq(s1, old, 0)):
                if isnull:
                    out.append((s2, RET, args[0]))
                    continue
                for s3 in release(eng, s2, old):
                    out.append((s3, RET, args[0]))
    return out


# ------------------------------------------------------------------ threads, locks, time
def mutex_lock(eng, st, name, args, fty):
    out = []
    for s, q in locs(eng, st, args[0]):
        for s2 in eng.spec.on_lock(s, q):
            out.append((s2, RET, None))
    return out


def mutex_unlock(eng, st, name, args, fty):
    out = []
    for s, q in locs(eng, st, args[0]):
        for s2 in eng.spec.on_unlock(s, q):
            out.append((s2, RET, None))
    return out


def mutex_try_lock(eng, st, name, args, fty):
    out = []
    for s, q in locs(eng, st, args[0]):
        s1 = s.fork()
        out.append((s1, RET, 0))
        for s2 in eng.spec.on_lock(s, q, True):
            out.append((s2, RET, 1))
    return out


def lock_mutex_of(eng, st, ul):
    """mutex pointer of a std::unique_lock"""
    out = []
    for s, m in eng.load(st, ul, 8):
        for s2, q in locs(eng, s, m):
            out.append((s2, q))
    return out


def cv_wait(eng, st, name, args, fty):
    if len(args) != 2:
        return NotImplemented
    out = []
    for s, q in lock_mutex_of(eng, st, args[1]):
        for s2, c in locs(eng, s, args[0]):
            for s3 in eng.spec.on_cv_wait(s2, c, q, None):
                out.append((s3, RET, None))
    return out


def cv_wait_until(eng, st, name, args, fty):
    if len(args) != 3:
        return NotImplemented
    out = []
    for s, q in lock_mutex_of(eng, st, args[1]):
        for s1, tp in eng.load(s, args[2], 8):
            for s2, c in locs(eng, s1, args[0]):
                for s3 in eng.spec.on_cv_wait(s2, c, q, tp):
                    # status: 0 no_timeout, 1 timeout
                    t = s3.fork()
                    now = eng.spec.clock(t)
                    t.assume(B(bv(now) >= bv(tp)))
                    if eng.alive(t):
                        eng.spec.on_cv_result(t, c, True)
                        out.append((t, RET, 1))
                    eng.spec.on_cv_result(s3, c, False)
                    out.append((s3, RET, 0))
    return out


def cv_notify(eng, st, name, args, fty):
    out = []
    for s, c in locs(eng, st, args[0]):
        eng.spec.on_cv_notify(s, c, name.endswith('notify_allEv'))
        out.append((s, RET, None))
    return out


def steady_now(eng, st, name, args, fty):
    return R(st, eng.spec.clock(st))


def start_thread(eng, st, name, args, fty):
    """std::thread::_M_start_thread(unique_ptr<_State>, void (*)())"""
    out = []
    for s, p in eng.load(st, args[1], 8):
        for s2 in eng.store(s, args[1], 8, 0):
            h = eng.fresh('native_id')
            s2.assume(h != 0)
            s2.assume(h != eng.spec.native_self(s2))
            for s3 in eng.store(s2, args[0], 8, h):
                eng.publish(s3, p)
                eng.spec.on_thread_start(s3, p, h)
                out.append((s3, RET, None))
    return out


def thread_join(eng, st, name, args, fty):
    out = []
    for s, h in eng.load(st, args[0], 8):
        eng.oblige(s, Not(eq(h, 0)), 'join-of-joinable-thread', ('SAFE',))
        eng.spec.on_join(s, h)
        for s2 in eng.store(s, args[0], 8, 0):
            out.append((s2, RET, None))
    return out


def thread_detach(eng, st, name, args, fty):
    out = []
    for s, h in eng.load(st, args[0], 8):
        eng.oblige(s, Not(eq(h, 0)), 'detach-of-joinable-thread', ('SAFE',))
        for s2 in eng.store(s, args[0], 8, 0):
            out.append((s2, RET, None))
    return out


def terminate(eng, st, name, args, fty):
    eng.oblige(st, False, 'std-terminate', ('SAFE',), detail='std::terminate reached')
    return []


def assert_fail(eng, st, name, args, fty):
    eng.oblige(st, False, 'assertion', ('SAFE',), detail='assert() in the source fails')
    return []


def install(eng):
    I = eng.intercepts
    V = 'std::vector::'
    I[V + 'vector'] = vector_ctor
    I[V + '~vector'] = vector_dtor
    I[V + 'clear'] = vector_clear
    I[V + 'operator='] = vector_assign
    I[V + 'swap'] = vector_swap
    I[V + 'size'] = vector_size
    I[V + 'capacity'] = vector_capacity
    I[V + 'empty'] = vector_empty
    I[V + 'begin'] = I[V + 'cbegin'] = I[V + 'data'] = vector_begin
    I[V + 'end'] = I[V + 'cend'] = vector_end
    I[V + 'operator[]'] = I[V + 'at'] = vector_index
    I[V + 'front'] = vector_front
    I[V + 'back'] = vector_back
    I[V + 'reserve'] = I[V + 'shrink_to_fit'] = vector_nop
    I[V + 'emplace_back'] = I[V + 'push_back'] = vector_emplace_back
    I[V + 'pop_back'] = vector_pop_back
    I[V + 'erase'] = vector_erase
    I[V + 'emplace'] = I[V + 'insert'] = vector_insert
    I['std::find_if'] = algo_find_if
    I['std::remove_if'] = algo_remove_if
    for k in ('std::unordered_map', 'std::map'):
        n = k.rsplit('::', 1)[1]
        K = k + '::'
        I[K + n] = map_ctor
        I[K + '~' + n] = map_dtor
        I[K + 'find'] = map_find
        I[K + 'count'] = I[K + 'contains'] = map_count
        I[K + 'at'] = map_mapped_at
        I[K + 'begin'] = I[K + 'cbegin'] = map_begin
        I[K + 'end'] = I[K + 'cend'] = map_end
        I[K + 'size'] = map_size
        I[K + 'empty'] = map_empty
        I[K + 'clear'] = map_clear
        I[K + 'erase'] = map_erase
        I[K + 'operator[]'] = map_index
        I[K + 'emplace'] = I[K + 'insert'] = map_emplace
        I[K + 'reserve'] = I[K + 'rehash'] = map_nop
        I[K + 'operator='] = map_assign
        I[K + 'swap'] = map_swap
    I['std::__detail::_Node_iterator_base::_M_incr'] = iter_incr
    I['std::_Rb_tree::begin'] = I['std::_Rb_tree::end'] = tree_end
    I['std::_Rb_tree_increment'] = rb_incr
    I['std::_Rb_tree_decrement'] = rb_decr
    Q = 'std::priority_queue::'
    I[Q + 'priority_queue'] = pq_ctor
    I[Q + 'empty'] = pq_empty
    I[Q + 'size'] = pq_size
    I[Q + 'top'] = pq_top
    I[Q + 'pop'] = pq_pop
    I[Q + 'emplace'] = I[Q + 'push'] = pq_emplace
    eng.intercept_re += [
        (re.compile(r'std::(__cxx11::)?basic_string::'), string_op),
        (re.compile(r'std::(__cxx11::)?to_string$'), string_free),
        (re.compile(r'std::operator\+$'), string_free),
        (re.compile(r'std::allocator::~?allocator$'), nop),
        (re.compile(r'std::__new_allocator::~?__new_allocator$'), nop),
    ]
    I['__cxa_allocate_exception'] = cxa_allocate
    I['__cxa_init_primary_exception'] = cxa_init_primary
    I['__cxa_free_exception'] = nop
    I['__cxa_throw'] = cxa_throw
    I['__cxa_begin_catch'] = cxa_begin_catch
    I['__cxa_end_catch'] = cxa_end_catch
    I['__cxa_rethrow'] = cxa_rethrow
    I['std::current_exception'] = current_exception
    I['std::rethrow_exception'] = rethrow_exception
    I['std::__exception_ptr::exception_ptr::exception_ptr'] = eptr_ctor_raw
    I['std::__exception_ptr::exception_ptr::_M_addref'] = nop
    I['std::__exception_ptr::exception_ptr::_M_release'] = nop
    I['std::future_error::future_error'] = future_error_ctor
    I['std::system_error::system_error'] = future_error_ctor
    I['std::future_error::~future_error'] = nop
    I['std::system_error::~system_error'] = nop
    I['std::runtime_error::runtime_error'] = nop
    I['std::runtime_error::~runtime_error'] = nop
    I['std::logic_error::~logic_error'] = nop
    I['std::future_category'] = I['std::_V2::generic_category'] = I['std::_V2::system_category'] = category
    I['operator new'] = I['operator new[]'] = op_new
    I['operator delete'] = I['operator delete[]'] = op_delete
    S = 'std::_Sp_counted_base::'
    I[S + '_M_add_ref_copy'] = add_ref
    I[S + '_M_weak_add_ref'] = weak_add_ref
    I[S + '_M_add_ref_lock_nothrow'] = add_ref_lock_nothrow
    I[S + '_M_get_use_count'] = get_use_count
    I[S + '_M_release'] = sp_release
    I[S + '_M_weak_release'] = sp_weak_release
    I['std::__shared_count::~__shared_count'] = shared_count_dtor
    I['std::__shared_count::operator='] = shared_count_assign
    I['std::mutex::lock'] = mutex_lock
    I['std::mutex::unlock'] = mutex_unlock
    I['std::mutex::try_lock'] = mutex_try_lock
    I['std::condition_variable::wait'] = cv_wait
    I['std::condition_variable::wait_until'] = cv_wait_until
    I['std::condition_variable::notify_all'] = I['std::condition_variable::notify_one'] = cv_notify
    I['std::condition_variable::condition_variable'] = nop
    I['std::condition_variable::~condition_variable'] = nop
    I['std::chrono::_V2::steady_clock::now'] = steady_now
    I['std::thread::_M_start_thread'] = start_thread
    I['std::thread::join'] = thread_join
    I['std::thread::detach'] = thread_detach
    I['std::terminate'] = I['__clang_call_terminate'] = terminate
    I['__assert_fail'] = assert_fail
    I['std::__throw_bad_function_call'] = lambda e, s, n, a, f: _throw_named(e, s, '_ZTISt17bad_function_call')
    I['std::__throw_system_error'] = lambda e, s, n, a, f: _throw_named(e, s, '_ZTISt12system_error', a[0])
    I['std::__throw_length_error'] = lambda e, s, n, a, f: _throw_named(e, s, '_ZTISt12length_error')
    I['std::thread::hardware_concurrency'] = lambda e, s, n, a, f: R(s, getattr(e.spec.contract, 'cores', None) if getattr(e.spec.contract, 'cores', None) is not None else e.fresh('hwc', 32))
    I['pthread_self'] = lambda e, s, n, a, f: R(s, e.spec.native_self(s))
    def sched_yield(e, s, n, a, f):
        e.spec.ev(s, 'yielded')
        return R(s, 0)
    I['sched_yield'] = sched_yield
    I['std::this_thread::get_id'] = lambda e, s, n, a, f: R(s, e.spec.native_self(s))


def _throw_named(eng, st, ti, code=None):
    o = eng.new_obj(st, 'exc', 32, name='exception')
    ex = Exc(Ptr(o.id, 0), ti)
    if code is not None:
        eng.store_at(st, o.id, 16, 4, code)
    st.excs[o.id] = ex
    return [(st, 'throw', ex)]
