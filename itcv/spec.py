"""Monitors and checks that apply to every verified function.

A Spec object receives the events of the symbolic executor (lock, unlock, condition variables, calls of user code,
destruction of user objects, memory accesses, atomics, ...), keeps ghost state and emits obligations.
"""
import re

import z3

from .engine import (Ptr, FPtr, VecVal, MapVal, Exc, And, Or, Not, Implies, B, bv, eq, ult, ule, add, sub, same, unlit,
                     Unsupported, Obj)
from . import stdlib as SL

RET = 'ret'

# kinds of fields that carry their own synchronisation
SELF_SYNC = ('std::mutex', 'std::condition_variable', 'std::atomic', 'std::__atomic_base', 'tpp::condition_variable',
             'std::recursive_mutex', 'tpp::mutex', 'tpp::detail::semaphore')


def strip_targs(n):
    out, d = '', 0
    for c in n:
        if c == '<':
            d += 1
        elif c == '>':
            d -= 1
        elif d == 0:
            out += c
    return out


class LockKey:
    """a lock identified by where it lives: record type, field name"""
    __slots__ = ('rec', 'field', 'oid', 'off', 'base', 'recid')

    def __init__(self, rec, field, oid, off, base, recid):
        self.rec, self.field, self.oid, self.off, self.base, self.recid = rec, field, oid, off, base, recid

    @property
    def name(self):
        return '%s.%s' % (self.rec, self.field)

    def __eq__(self, o):
        return isinstance(o, LockKey) and (self.oid, self.off) == (o.oid, o.off)

    def __hash__(self):
        return hash((self.oid, self.off))

    def __repr__(self):
        return self.name


class Monitor:
    """default: protected fields are arbitrary whenever the lock is acquired"""
    key = None

    def __init__(self, sp):
        self.sp = sp
        self.eng = sp.eng

    def acquire(self, st, lk, why='lock'):
        self.sp.havoc_record(st, lk)
        return [st]

    def before_release(self, st, lk):
        return [st]

    def release(self, st, lk, why='unlock'):
        pass

    def loop_head(self, st, lk):
        return self.acquire(st, lk, 'loop')


class Spec:
    def __init__(self, eng):
        self.eng = eng
        eng.spec = self
        self.contract = None
        self.monitors = {}
        self._reclock = {}
        self.edges = {}          # (held lock, acquired lock) -> where
        self.assumed = set()
        self.stable_atomics = set()
        self.calls = set()       # (held lock names, function) for calls replaced by their contract
        self.sites = set()       # accesses to protected fields seen with the lock held
        self.acquired = set()    # names of all locks acquired
        self.ctx_key = {}        # pointer term of a context in the registry -> its id

    # ------------------------------------------------------------ locations
    def field(self, rec, name):
        """(offset, size, type) of a field of a record (by debug-info id or name)"""
        f = self.eng.di.all_fields(rec)
        if name not in f:
            raise Unsupported('record %s has no field %s' % (rec, name))
        return f[name]

    def has_field(self, rec, name):
        return name in self.eng.di.all_fields(rec)

    def lock_key(self, st, q):
        o = st.mem[q.obj]
        best = None
        for rec, base, fld, foff, fty in self.eng.paths(o, q.off):
            if self.eng.di.tname(fty) == 'std::mutex' and foff == q.off:
                best = (rec, base, fld)
        if best is None:
            return LockKey('?' + o.name, '+%d' % q.off, q.obj, q.off, 0, None)
        rec, base, fld = best
        return LockKey(self.short(rec), fld, q.obj, q.off, base, self.eng.di.rec(rec))

    def short(self, rec):
        """record name without template arguments"""
        s = strip_targs(rec)
        if s.endswith('::context') and 'tpp::when_' in s:
            return 'tpp::when_all::context' if 'tpp::when_all' in s else 'tpp::when_any::context'
        return s

    def rec_lock(self, recid):
        """(field name, offset) of the mutex that protects a record, looking into its bases"""
        if recid in self._reclock:
            return self._reclock[recid]
        r = None
        if recid:
            ms = [(n, o) for n, (o, s, t) in self.eng.di.all_fields(recid).items() if self.eng.di.tname(t) == 'std::mutex']
            if len(ms) == 1:
                r = ms[0]
        self._reclock[recid] = r
        return r

    UNPROTECTED = {
        ('tpp::program_context', 'config'),            # set by init/shutdown, see the assumptions
        ('tpp::thread_context', 'name'),               # never written after publication
        ('tpp::when_all::context', 'p'),
        ('tpp::when_any::context', 'p'),
    }

    def protected_fields(self, recid, rname):
        out = []
        for n, (o, s, t) in self.eng.di.all_fields(recid).items():
            tn = self.eng.di.tname(t)
            if tn.startswith(SELF_SYNC) or (rname, n) in self.UNPROTECTED:
                continue
            out.append((n, o, s, t))
        return out

    def havoc_record(self, st, lk):
        if lk.recid is None:
            return
        for n, o, s, t in self.protected_fields(lk.recid, lk.rec):
            self.eng.havoc_range(st, lk.oid, lk.base + o, lk.base + o + s)
        for n, o, s in self.lock_atomics(lk):
            self.eng.havoc_range(st, lk.oid, lk.base + o, lk.base + o + s)

    # atomics that are only written with the lock held: stable under the lock
    LOCK_ATOMICS = {
        'tpp::thread_context': ('wakeup', 'exit', 'processing_stack_depth'),
        'tpp::detail::basic_state': ('status',),
        'tpp::mutex': ('owner_', 'flag_'),
    }

    def lock_atomics(self, lk):
        out = []
        f = self.eng.di.all_fields(lk.recid)
        for n in self.LOCK_ATOMICS.get(lk.rec, ()):
            if n in f:
                out.append((n, f[n][0], f[n][1]))
        return out

    def whole_record(self, st, lk):
        """outermost record containing the lock's record (e.g. future_state<T> for basic_state)"""
        o = st.mem[lk.oid]
        p = self.eng.paths(o, lk.off)
        return p

    def get(self, st, oid, base, rec, name, size=None):
        o, s, t = self.field(rec, name)
        return self.eng.load_at(st, oid, base + o, size or s)

    def vec(self, st, oid, base, rec, name):
        o, s, t = self.field(rec, name)
        return SL.vec_at(self.eng, st, Ptr(oid, base + o))

    # ------------------------------------------------------------ ownership of locations
    def owner_loc(self, st, q):
        """climb from elements/nodes to the object that owns the container"""
        oid, off = q.obj, q.off
        for _ in range(12):
            o = st.mem.get(oid)
            if o is None:
                return None
            if o.kind in ('elem', 'node'):
                par = st.mem.get(o.meta.get('parent'))
                if par is None or not self.eng.visible(st, par, oid):
                    return None
                oid = par.id
                off = 0
                continue
            if o.kind in ('buf', 'tab'):
                ow = o.meta.get('owner')
                if ow is None:
                    return None
                p = st.mem.get(ow[0])
                if p is None:
                    return None
                c = p.cells.get(ow[1])
                if c is None or not (isinstance(c[1], VecVal) and c[1].buf == oid or isinstance(c[1], MapVal) and c[1].tab == oid):
                    return None
                oid, off = ow
                continue
            return Ptr(oid, off)
        return None

    def protection(self, st, q):
        """None or (lock location, record, field, owner location) for a location in shared memory"""
        r = self.owner_loc(st, q)
        if r is None:
            return None
        o = st.mem[r.obj]
        if o.fresh or o.kind in ('alloca', 'exc', 'buf', 'tab'):
            return None
        if o.meta.get('tls'):
            return None
        best = None
        for rec, base, fld, foff, fty in self.eng.paths(o, r.off):
            rid = self.eng.di.rec(rec)
            if not rec.startswith('tpp::'):
                continue
            lk = self.rec_lock(rid)
            if lk is None:
                continue
            tn = self.eng.di.tname(fty)
            sh = self.short(rec)
            if fld == '<base>':
                continue
            if tn.startswith(SELF_SYNC) or (sh, fld) in self.UNPROTECTED:
                return None
            best = ((r.obj, base + lk[1]), sh, fld, r)
        return best

    def holds(self, st, loc):
        return any(k.oid == loc[0] and k.off == loc[1] for k in st.locks)

    def held(self, st, rec):
        return [k for k in st.locks if k.rec == rec]

    # ------------------------------------------------------------ executor hooks: memory
    def on_access(self, st, q, size, write, atomic):
        if atomic:
            return
        p = self.protection(st, q)
        if p is None:
            return
        loc, rec, fld, own = p
        if self.holds(st, loc):
            site = (self.eng.cur_fn, self.eng.cur_dbg, fld)
            if site not in self.sites:
                self.sites.add(site)
                self.eng.oblige(st, True, 'lock-held:%s.%s' % (rec, fld), ('P20',))
            return
        if self.contract is not None and self.contract.access_ok(st, rec, fld, own, write):
            return
        self.eng.oblige(st, False, 'lock-held:%s.%s' % (rec, fld), ('P20',),
                        detail='%s of %s.%s without the lock that protects it' % ('write' if write else 'read', rec, fld))

    def after_store(self, st, o, off, size, v):
        if o.fresh or o.kind in ('alloca', 'exc'):
            return
        if o.meta.get('tls'):
            if isinstance(v, Ptr) or z3.is_expr(v):
                self.monitors['tpp::program_context'].linked(st, v)
            return
        self.eng.publish(st, v)

    def on_publish(self, st, o):
        if self.contract is not None:
            self.contract.on_publish(st, o)

    def lazy_cell(self, st, o, off, size):
        if self.contract is not None:
            return self.contract.lazy_cell(st, o, off, size)
        return None

    def is_lazy(self, o, off, v):
        return False

    def on_new_object(self, st, o):
        if self.contract is not None:
            self.contract.on_new_object(st, o)

    def on_new_elem(self, st, b, e, idx):
        for f in b.meta.get('views', ()):
            f(st, b, e, idx)
        if self.contract is not None:
            self.contract.on_new_elem(st, b, e, idx)

    def on_new_vec(self, st, o, off, v):
        pass

    def on_vec_append(self, st, q, v, eid):
        pass

    def on_find_none(self, st, bid, fi, li, pf, pobj):
        if self.contract is not None:
            self.contract.on_find_none(st, bid, fi, li, pf, pobj)

    def on_remove_if(self, st, bid, fi, li, pf, pobj):
        if self.contract is not None:
            self.contract.on_remove_if(st, bid, fi, li, pf, pobj)

    def on_removed(self, st, bid, r, li, nrem):
        if self.contract is not None:
            self.contract.on_removed(st, bid, r, li, nrem)

    def on_new_map(self, st, o, off, tab):
        if self.contract is not None:
            self.contract.on_new_map(st, o, off, tab)

    def on_new_entry(self, st, tab, key, node, pos):
        for f in st.mem[tab].meta.get('views', ()):
            f(st, tab, key, node, pos)
        if self.contract is not None:
            self.contract.on_new_entry(st, tab, key, node, pos)

    def on_absent(self, st, tab, key):
        for f in st.mem[tab].meta.get('absent_views', ()):
            f(st, tab, key)

    def on_map_insert(self, st, tab, e):
        self.table_op(st, 'ins', tab, e)

    def on_map_erase(self, st, tab, e):
        self.table_op(st, 'del', tab, e)

    def on_map_clear(self, st, tab):
        self.table_op(st, 'clear', tab, None)

    def table_op(self, st, kind, tab, e):
        for m in self.monitors.values():
            if hasattr(m, 'op'):
                m.op(st, kind, tab, e)
        self.ev(st, 'table_op', kind, tab, e)

    def on_pq_pop(self, st, q, v, e):
        self.ev(st, 'pq_pop', q, v, e)

    def on_pq_push(self, st, q, v, e):
        self.ev(st, 'pq_push', q, v, e)

    def ev(self, st, kind, *a):
        if self.contract is not None:
            self.contract.event(st, kind, *a)

    def stable_cell(self, st, o, off):
        """may a reference held in this shared cell be relied on now?"""
        p = self.protection(st, Ptr(o.id, off))
        return p is not None and self.holds(st, p[0])

    def on_global(self, st, o, name):
        pass

    # ------------------------------------------------------------ atomics
    def atomic_field(self, st, q):
        o = st.mem[q.obj]
        if o.fresh or o.kind in ('alloca', 'exc'):
            return None
        best = None
        for rec, base, fld, foff, fty in self.eng.paths(o, q.off):
            if rec.startswith('tpp::') and self.eng.di.tname(fty).startswith(('std::atomic', 'std::__atomic')):
                best = (self.short(rec), base, fld, self.eng.di.rec(rec))
        return best

    STABLE = {('tpp::thread_context', 'id'), ('tpp::thread_context', 'native_thread_id')}

    def on_atomic(self, st, q, size, kind, v):
        f = self.atomic_field(st, q)
        if f is None:
            if self.token_flag(st, q):
                self.monitors['tpp::detail::semaphore'].flag_atomic(st, q, size, kind, v)
            return None
        rec, base, fld, rid = f
        if (rec, fld) in self.STABLE:
            if kind != 'load':
                self.eng.oblige(st, False, 'immutable:%s.%s' % (rec, fld), ('P03',), detail='written after publication')
            return None
        lk = self.rec_lock(rid)
        locked = lk is not None and self.holds(st, (q.obj, base + lk[1]))
        if fld in self.LOCK_ATOMICS.get(rec, ()):
            if locked:
                return None
            if kind != 'load':
                self.atomic_write_unlocked(st, rec, fld, q)
        old = None
        c = st.mem[q.obj].cells.get(q.off)
        if c is not None:
            old = c[1]
        if self.contract is not None and self.contract.atomic_stable(st, rec, fld, q):
            return None
        self.eng.havoc_range(st, q.obj, q.off, q.off + size)
        new = self.eng.load_at(st, q.obj, q.off, size)
        self.atomic_rely(st, rec, fld, old, new, q)
        return None

    def token_flag(self, st, q):
        """the shared flag of an interrupt token"""
        o = st.mem[q.obj]
        if o.fresh or o.kind in ('alloca', 'exc'):
            return False
        if any(t == q.off and n.startswith(('std::atomic', 'std::__atomic')) for t, n in o.tags) and not self.eng.paths(o, q.off)[:1] == []:
            return o.ty is None or not self.eng.di.tname(o.ty).startswith('tpp::')
        return o.ty is not None and not isinstance(o.ty, tuple) and self.eng.di.tname(o.ty) == 'std::atomic<bool>'

    def atomic_write_unlocked(self, st, rec, fld, q):
        tag = {'wakeup': ('P02',), 'exit': ('P02', 'P19'), 'processing_stack_depth': ('P01',), 'status': ('P05', 'P07')}.get(fld, ('P20',))
        self.eng.oblige(st, False, 'atomic-write-locked:%s.%s' % (rec, fld), tag,
                        detail='%s.%s changed without holding the lock its readers rely on' % (rec, fld))

    def atomic_rely(self, st, rec, fld, old, new, q):
        if old is None:
            return
        if fld == 'exit':
            st.assume(B(Implies(Not(eq(old, 0)), Not(eq(new, 0)))))
        elif fld == 'id_generator':
            st.assume(B(ule(old, new)))
        elif fld == 'status':
            st.assume(B(Implies(Not(eq(old, 0)), eq(new, old))))
        elif fld == 'processing_stack_depth' and self.is_owner(st, q.obj):
            st.assume(B(eq(old, new)))

    def after_atomic(self, st, q, size, kind, old, new):
        f = self.atomic_field(st, q)
        if f is None:
            return
        rec, base, fld, rid = f
        if fld == 'id_generator' and kind != 'load':
            st.assume(B(ult(old, 1 << 63)))
            self.eng.oblige(st, ult(old, new), 'id-generator-increases', ('P03',), detail='the id generator does not move forward')
            st.ghost['minted'] = (st.ghost.get('minted') or ()) + (new,)
        self.ev(st, 'atomic', rec, fld, q, old, new, kind)

    # ------------------------------------------------------------ thread identity
    def tls(self, st, name='local_data'):
        """value of the thread local pointer to the thread's own context"""
        for n in self.eng.m.globals:
            if name in n:
                p = self.eng.global_ptr(st, n)
                return self.eng.load_at(st, p.obj, 0, 8)
        raise Unsupported('no thread local ' + name)

    def set_tls(self, st, v, name='local_data'):
        for n in self.eng.m.globals:
            if name in n:
                p = self.eng.global_ptr(st, n)
                self.eng.store_at(st, p.obj, 0, 8, v)
                return
        raise Unsupported('no thread local ' + name)

    def switch_thread(self, st, v, name='local_data'):
        """go on as another thread, whose context pointer is v"""
        for n in self.eng.m.globals:
            if name in n:
                p = self.eng.global_ptr(st, n)
                st.w(p.obj).cells[0] = (8, v)
                return
        raise Unsupported('no thread local ' + name)

    def owner_obj(self, st):
        v = self.tls(st)
        if isinstance(v, Ptr):
            return v.obj
        if z3.is_expr(v):
            oid = self.eng.term_obj.get(z3.simplify(v).get_id())
            return oid if oid in st.mem else None
        return None

    def is_owner(self, st, oid):
        return self.owner_obj(st) == oid

    def me(self, st):
        """id of the calling thread (0: not registered)"""
        v = st.ghost.get('self_id')
        return 0 if v is None else v

    def native_self(self, st):
        v = st.ghost.get('native_self')
        if v is None:
            v = self.eng.fresh('native_self')
            st.assume(v != 0)
            st.ghost['native_self'] = v
        return v

    # ------------------------------------------------------------ locks
    def on_lock(self, st, q, tried=False):
        lk = self.lock_key(st, q)
        self.acquired.add(lk.name)
        if not tried:
            self.eng.oblige(st, not self.holds(st, (q.obj, q.off)), 'lock-not-held:%s' % lk.name, ('P04',),
                            detail='%s is acquired while this thread already holds it' % lk.name)
            for h in st.locks:
                if (h.oid, h.off) != (q.obj, q.off):
                    w = self.edges.setdefault((h.name, lk.name), [])
                    w.append((self.eng.di.loc(self.eng.cur_dbg), self.eng.cur_fn))
        if self.holds(st, (q.obj, q.off)):
            return []
        self.ev(st, 'before_lock', lk)
        st.locks = st.locks + (lk,)
        self.eng.note(st, 'lock %s' % lk.name)
        if st.mem[q.obj].fresh or st.mem[q.obj].kind == 'alloca' and not self.contract.shared_local(st, q.obj):
            return [st]
        m = self.monitors.get(lk.rec)
        if m is None:
            m = self.monitors[lk.rec] = Monitor(self)
        out = []
        for s in m.acquire(st, lk):
            self.ev(s, 'locked', lk)
            out.append(s)
        return out

    def on_unlock(self, st, q):
        mine = [k for k in st.locks if k.oid == q.obj and k.off == q.off]
        if not mine:
            self.eng.oblige(st, False, 'unlock-held', ('P04',), detail='unlock of a mutex that is not held')
            return []
        lk = mine[-1]
        self.ev(st, 'before_unlock', lk)
        m = self.monitors.get(lk.rec) if not st.mem[q.obj].fresh else None
        out = m.before_release(st, lk) if m is not None else [st]
        for s in out:
            if m is not None:
                m.release(s, lk)
            s.locks = tuple(k for k in s.locks if k is not lk)
            self.eng.note(s, 'unlock %s' % lk.name)
            self.ev(s, 'unlocked', lk)
        return out

    def on_cv_wait(self, st, c, q, deadline):
        """blocking on a std::condition_variable with the mutex at q"""
        lk = [k for k in st.locks if k.oid == q.obj and k.off == q.off]
        if not lk:
            self.eng.oblige(st, False, 'cv-wait-with-lock', ('P04',), detail='condition variable wait without holding the mutex')
            return []
        lk = lk[-1]
        others = [k.name for k in st.locks if k is not lk]
        self.eng.oblige(st, not others, 'no-lock-while-blocked', ('P04',), detail='blocks while holding %s' % ', '.join(others))
        self.before_block(st)
        m = self.monitors.get(lk.rec)
        self.ev(st, 'cv_wait', c, lk, deadline)
        if st.mem[q.obj].fresh or m is None:
            return [st]
        m.release(st, lk, 'wait')
        out = m.acquire(st, lk, 'wait')
        for s in out:
            self.ev(s, 'cv_woken', c, lk)
        return out

    def before_block(self, st):
        for oid, tag, c in st.ghost.get('pending_notify') or ():
            self.eng.oblige(st, Not(c), 'notify-before-blocking', (tag,), detail='owed notification not sent before blocking')

    def on_cv_result(self, st, c, timeout):
        self.ev(st, 'cv_result', c, timeout)

    def on_cv_notify(self, st, c, all_):
        o = st.mem[c.obj]
        pn = st.ghost.get('pending_notify') or ()
        st.ghost['pending_notify'] = tuple(x for x in pn if x[0] != c.obj)
        st.ghost['notified'] = tuple(st.ghost.get('notified') or ()) + (c.obj,)
        self.ev(st, 'cv_notify', c, all_)

    def clock(self, st):
        last = st.ghost.get('clock')
        v = self.eng.fresh('now')
        if last is None:
            st.assume(v >= 0)
        else:
            st.assume(v >= last)
        st.assume(v < (1 << 62))
        st.ghost['clock'] = v
        self.ev(st, 'clock', v)
        return v

    # ------------------------------------------------------------ user code
    def user_event(self, st, what, kind='call'):
        """user supplied code runs now"""
        held = self.internal(st)
        names = ', '.join(k.name for k in held)
        self.eng.oblige(st, not held, 'no-lock-in-user-code', ('P04',), detail='%s runs while %s is held' % (what, names))
        self.before_block(st)

    def internal(self, st):
        """the locks held that belong to the library (and not to the caller)"""
        return tuple(k for k in st.locks if not st.mem[k.oid].meta.get('user'))

    def on_external(self, st, name, base, args, fty):
        if self.contract is not None:
            return self.contract.external(st, name, base, args, fty)
        return None

    def on_unknown_call(self, st, fv, name, args, rty):
        if name and re.search(r"_M_manager'?$", name):
            return self.call_manager(st, fv, args)
        if name and re.search(r"_M_invoker'?$", name):
            return self.call_invoker(st, fv, name, args, rty)
        if self.contract is not None:
            return self.contract.unknown_call(st, fv, name, args, rty)
        return None

    def call_manager(self, st, fv, args):
        op = args[2]
        if not isinstance(op, int):
            raise Unsupported('manager operation')
        out = []
        if op == 3:
            for s, w in self.eng.load(st, args[0], 8):
                self.user_event(s, 'the destructor of a user callable', 'destroy')
                self.ev(s, 'destroy', w, fv)
                out.append((s, RET, 0))
            return out
        if op == 2:
            for s, d in self.eng.deref(st, args[0]):
                for s2, q in self.eng.deref(s, args[1]):
                    for k in (0, 8):
                        v = self.eng.load_at(s2, q.obj, q.off + k, 8)
                        self.eng.store_at(s2, d.obj, d.off + k, 8, v)
                    self.user_event(s2, 'the copy constructor of a user callable', 'copy')
                    out.append((s2, RET, 0))
            return out
        raise Unsupported('manager operation %s' % op)

    def call_invoker(self, st, fv, name, args, rty):
        out = []
        for s, w in self.eng.load(st, args[0], 8):
            self.user_event(s, 'a user callable')
            r = self.contract.user_call(s, w, fv, name, args, rty)
            out.extend(r)
        return out

    def on_release(self, st, pi):
        """the last reference known here to a shared object is dropped: what it holds may be destroyed now"""
        held = self.internal(st)
        self.eng.oblige(st, Or(not held, *(self.other_owner(st, pi) if held else ())), 'no-lock-in-user-code', ('P04',), detail='what a shared object holds may be destroyed while %s is held' % ', '.join(k.name for k in held))
        if self.contract is not None:
            return self.contract.last_release(st, pi)
        return None

    def other_owner(self, st, pi):
        """conditions under which one of the references known here is to the same object"""
        from .stdlib import owners
        return [self.eng.ptr_eq(st, v, pi) for v in owners(self.eng, st) if not isinstance(v, int)]

    def on_thread_start(self, st, p, h):
        self.ev(st, 'thread_start', p, h)

    def on_join(self, st, h):
        names = ', '.join(k.name for k in st.locks)
        self.eng.oblige(st, not st.locks, 'no-lock-while-joining', ('P04',), detail='joins a thread while holding %s' % names)
        self.before_block(st)
        self.ev(st, 'join', h)

    # ------------------------------------------------------------ loops
    def havoc_ghost(self, name, g0):
        if name in ('clock',):
            return self.eng.fresh('now')
        if name == 'served':
            return self.eng.fresh('served')
        if self.contract is not None:
            return self.contract.havoc_ghost(name, g0)
        return g0

    def touched(self, st, lk, M):
        """does the loop change state protected by lock lk?"""
        for m in M:
            if m[0] in ('range', 'cell', 'buf', 'tab') and len(m) > 1:
                if m[1] == lk.oid and m[0] in ('range', 'cell'):
                    return True
                q = self.owner_loc(st, Ptr(m[1], 0)) if m[1] in st.mem else None
                if q is not None and q.obj == lk.oid:
                    return True
        return False

    def on_loop_entry(self, st, fn, header, M):
        for lk in st.locks:
            if st.mem[lk.oid].fresh or not self.touched(st, lk, M):
                continue
            m = self.monitors.get(lk.rec)
            if m is not None:
                m.release(st.fork(), lk, 'loop')
        if self.contract is not None:
            self.contract.loop_entry(st.fork(), fn, header, M)

    def on_loop_head(self, st, s0, fn, header, M):
        if ('ghost', 'clock') in M and s0.ghost.get('clock') is not None:
            st.assume(st.ghost['clock'] >= s0.ghost['clock'])
            st.assume(st.ghost['clock'] < (1 << 62))
        sts = [st]
        for lk in st.locks:
            if st.mem[lk.oid].fresh or not self.touched(st, lk, M):
                continue
            m = self.monitors.get(lk.rec)
            if m is not None:
                sts = [s1 for s in sts for s1 in m.loop_head(s, lk)]
        if self.contract is not None:
            out = []
            for s in sts:
                r = self.contract.loop_head(s, s0, fn, header, M)
                out += [s] if r is None else r
            sts = out
        return sts

    def on_loop_end(self, st, head, fn, header, M):
        for lk in st.locks:
            if st.mem[lk.oid].fresh or not self.touched(st, lk, M):
                continue
            m = self.monitors.get(lk.rec)
            if m is not None:
                m.release(st.fork(), lk, 'loop')
        if self.contract is not None:
            self.contract.loop_end(st, head, fn, header, M)

    def loop_candidates(self, s0, h0, M, fn, header):
        out = []
        for lk in s0.locks:
            m = self.monitors.get(lk.rec)
            if m is not None and hasattr(m, 'candidates'):
                out += m.candidates(lk, h0, M)
        if self.contract is not None:
            out += self.contract.loop_candidates(s0, h0, M, fn, header)
        return out

    # ------------------------------------------------------------ end of a verified function
    def on_exit(self, st, kind):
        self.eng.oblige(st, st.locks == self.contract.locks0(st), 'locks-released', ('P04',),
                        detail='returns while holding %s' % ', '.join(k.name for k in st.locks))
        pn = st.ghost.get('pending_notify') or ()
        for tag in ('P02', 'P07', 'P13', 'P19'):
            if tag == 'P02' or any(x[1] == tag for x in pn):
                self.eng.oblige(st, Not(Or(*[x[2] for x in pn if x[1] == tag])), 'notification-sent', (tag,),
                                detail='returns without the notification it owes')


class Contract:
    """per-function contract: pre-state, what to observe, postcondition"""
    top = None            # base name of the function
    sig = None            # optional regular expression on the demangled name
    safe = ()             # properties that memory-safety obligations of this function belong to
    props = ()
    name = None
    may_take = False      # may the function take a job of a pool to run it?
    may_stop_workers = False
    speculate = False     # assume loop invariants while they are being established? (see Engine.cut_loop)
    sem_role = None       # what the function may do to a list of waiters: None, 'wait', 'one' or 'all'
    uses = ()             # functions represented by their contract (see summaries.py) instead of their body

    def __init__(self, sp):
        self.sp = sp
        self.eng = sp.eng

    def label(self):
        return self.name or self.top

    def setup(self, st):
        raise NotImplementedError

    def post(self, st, kind, val):
        pass

    # hooks with neutral defaults
    def access_ok(self, st, rec, fld, own, write):
        return False

    def on_publish(self, st, o):
        pass

    def lazy_cell(self, st, o, off, size):
        return None

    def on_new_object(self, st, o):
        pass

    def on_new_elem(self, st, b, e, idx):
        pass

    def on_find_none(self, *a):
        pass

    def on_remove_if(self, *a):
        pass

    def on_removed(self, *a):
        pass

    def on_new_map(self, *a):
        pass

    def on_new_entry(self, *a):
        pass

    def event(self, st, kind, *a):
        h = getattr(self, 'ev_' + kind, None)
        if h is not None:
            h(st, *a)

    def exit_ok(self, st, lk):
        """may this call request exit from the context of lk?"""
        return False

    def atomic_stable(self, st, rec, fld, q):
        return False

    def exclusive(self, st, lk):
        """is the calling thread the only one that may complete the shared state of lk?"""
        return False

    def job(self, st):
        """the arbitrary job of a pool that is looked at (None: no particular one)"""
        return None

    def worker_level(self, st):
        """the level a worker looks for jobs at (None: no worker)"""
        return None

    def may_remove(self, st, key, pending):
        """may this call remove the (pending or running) job from its pool?"""
        return False

    def may_regroup(self, st, key, job, pending):
        return False

    def shared_local(self, st, oid):
        return False

    def external(self, st, name, base, args, fty):
        return None

    def unknown_call(self, st, fv, name, args, rty):
        return None

    def user_call(self, st, w, fv, name, args, rty):
        self.event(st, 'user_call', w, fv, name)
        if rty is None or rty == ('void',):
            return [(st, RET, None)]
        return [(st, RET, self.eng.undef(rty))]

    def last_release(self, st, pi):
        return [st]

    def counted_release(self, st, pi):
        """a reference to an object with an unknown number of references is dropped (None: not expected)"""
        return None

    def havoc_ghost(self, name, g0):
        return g0

    def loop_entry(self, st, fn, header, M):
        pass

    def loop_head(self, st, s0, fn, header, M):
        pass

    def loop_end(self, st, head, fn, header, M):
        pass

    # a loop that polls: it looks at the clock or changes nothing of its own, so what ends it comes from outside
    def serve(self, st):
        st.ghost['served'] = add(st.ghost.get('served', 0), 1)

    def polls(self, st, M):
        return ('ghost', 'clock') in M or not any(m[0] == 'cell' and m[1] in st.mem and st.mem[m[1]].kind == 'alloca' for m in M)

    def serving_loop(self, st, head, M, tags):
        if self.polls(st, M):
            self.oblige(st, Not(eq(st.ghost.get('served', 0), head.ghost.get('served', 0))), 'waits-instead-of-polling', tags,
                        'a round of the loop neither sleeps nor runs a task sent to the thread')

    def loop_candidates(self, s0, h0, M, fn, header):
        return []

    def locks0(self, st):
        return ()

    # helpers for setup
    def sym_obj(self, st, ty, name, size=None):
        """a symbolic, shared (published) object of a record type"""
        di = self.eng.di
        tid = ty if ty is None or ty.startswith('!') else di.rec(ty)
        if ty is not None and tid is None:
            raise Unsupported('no record ' + ty)
        o = self.eng.new_obj(st, 'sym', size or (di.size(tid) if tid else None), sym=True, ty=tid, fresh=False, name=name)
        return Ptr(o.id, 0)

    def local_obj(self, st, ty, name, size=None):
        """a symbolic object owned by the caller (not shared)"""
        p = self.sym_obj(st, ty, name, size)
        st.mem[p.obj].fresh = True
        st.mem[p.obj].meta['caller'] = True
        return p

    def out_obj(self, st, size, name):
        o = self.eng.new_obj(st, 'alloca', size, name=name)
        return Ptr(o.id, 0)

    def oblige(self, st, cond, name, tags, detail=None):
        self.eng.oblige(st, cond, '%s: %s' % (self.label(), name), tags, detail)
