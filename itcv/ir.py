"""Reader for textual LLVM IR (LLVM 18, opaque pointers).

Function bodies are parsed lazily: the module is split into chunks and a
function is only turned into instruction objects when the executor enters it.
"""
import re
import subprocess

TOK = re.compile(r'''
    (%"(?:[^"\\]|\\.)*"|%[\w.$-]+)            # local / type name
  | (@"(?:[^"\\]|\\.)*"|@[\w.$-]+)            # global
  | (c?"(?:[^"\\]|\\.)*")                     # string
  | (![\w.]*)                                 # metadata ref
  | (-?\d+\.\d+(?:e[+-]?\d+)?|0x[0-9A-Fa-fKLMH]+)    # float
  | (-?\d+)                                   # int
  | ([A-Za-z_][\w.]*)                         # word
  | (\.\.\.)
  | ([()\[\]{}<>,=*|:#])
''', re.X)


class IRError(Exception):
    pass


def tokenize(s):
    out = []
    for m in TOK.finditer(s):
        out.append(m.group(0))
    return out


def unq(name):
    """strip sigil and quotes"""
    n = name[1:]
    if n.startswith('"'):
        n = n[1:-1]
    return n


ATTRS = {'noundef', 'nonnull', 'zeroext', 'signext', 'inreg', 'noalias', 'nocapture', 'readonly', 'writeonly',
         'readnone', 'returned', 'immarg', 'nofree', 'swiftself', 'swifterror', 'noreturn', 'allocptr', 'nest',
         'inrange', 'dead_on_unwind', 'writable', 'allocalign', 'noext'}
ATTRS_PAREN = {'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'byref', 'elementtype', 'align',
               'preallocated', 'inalloca', 'range', 'nofpclass', 'memory', 'captures'}

BINOPS = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
          'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CASTS = {'zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'sitofp', 'uitofp', 'fptosi', 'fptoui',
         'fpext', 'fptrunc', 'addrspacecast'}


class Instr:
    __slots__ = ('op', 'dst', 'ty', 'a', 'dbg', 'text')

    def __init__(self, op, dst, ty, a, dbg, text):
        self.op, self.dst, self.ty, self.a, self.dbg, self.text = op, dst, ty, a, dbg, text

    def __repr__(self):
        return self.text


class Function:
    def __init__(self, name, header, lines, module):
        self.name = name
        self.header = header
        self.lines = lines
        self.module = module
        self._parsed = False
        self.is_decl = lines is None

    def parse(self):
        if self._parsed:
            return self
        self._parsed = True
        p = Parser(self.module, tokenize(self.header))
        self.ret_ty, self.params, self.dbg = p.define_header()
        self.blocks = {}
        self.order = []
        if self.lines is None:
            return self
        cur = None
        i = 0
        L = self.lines
        n = len(L)
        while i < n:
            ln = L[i]
            i += 1
            if not ln or ln[0] == ';':
                continue
            if ln[0] not in ' }\t':
                m = re.match(r'("(?:[^"\\]|\\.)*"|[\w.$-]+):', ln)
                if m:
                    lab = m.group(1)
                    if lab.startswith('"'):
                        lab = lab[1:-1]
                    cur = []
                    self.blocks[lab] = cur
                    self.order.append(lab)
                    continue
            if ln.startswith('}'):
                break
            # join continuation lines
            s = ln.strip()
            if s.startswith('switch') or ' switch ' in s[:10]:
                while ']' not in s:
                    s += ' ' + L[i].strip()
                    i += 1
            elif 'landingpad' in s:
                while i < n and L[i].strip().startswith(('catch', 'cleanup', 'filter')):
                    s += ' ' + L[i].strip()
                    i += 1
            elif s.startswith('invoke') or ' = invoke' in s:
                while 'unwind label' not in s:
                    s += ' ' + L[i].strip()
                    i += 1
            if cur is None:
                cur = []
                self.blocks['entry'] = cur
                self.order.append('entry')
            if 'llvm.dbg.' in s:
                continue
            cur.append(self.module.parse_instr(s))
        self._cfg()
        return self

    def _cfg(self):
        self.succ = {}
        for b, ins in self.blocks.items():
            t = ins[-1]
            s = []
            if t.op == 'br':
                s = [t.a[0]] if len(t.a) == 1 else [t.a[1], t.a[2]]
            elif t.op == 'switch':
                s = [t.a[1]] + [x[1] for x in t.a[2]]
            elif t.op == 'invoke':
                s = [t.a[2], t.a[3]]
            self.succ[b] = s
        self.loops = natural_loops(self.order[0], self.succ)


def natural_loops(entry, succ):
    """header -> set of blocks of the natural loop(s) with this header"""
    order = []
    seen = set()
    stack = [(entry, iter(succ[entry]))]
    seen.add(entry)
    while stack:
        b, it = stack[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                stack.append((s, iter(succ[s])))
                break
        else:
            order.append(b)
            stack.pop()
    rpo = order[::-1]
    idx = {b: i for i, b in enumerate(rpo)}
    pred = {b: [] for b in rpo}
    for b in rpo:
        for s in succ[b]:
            pred[s].append(b)
    idom = {entry: entry}
    changed = True
    while changed:
        changed = False
        for b in rpo[1:]:
            new = None
            for p in pred[b]:
                if p in idom:
                    if new is None:
                        new = p
                    else:
                        x, y = p, new
                        while x != y:
                            while idx[x] > idx[y]:
                                x = idom[x]
                            while idx[y] > idx[x]:
                                y = idom[y]
                        new = x
            if idom.get(b) != new:
                idom[b] = new
                changed = True

    def dominates(a, b):
        while True:
            if a == b:
                return True
            if b == entry:
                return False
            b = idom[b]

    loops = {}
    for b in rpo:
        for s in succ[b]:
            if dominates(s, b):
                body = loops.setdefault(s, {s})
                st = [b]
                while st:
                    x = st.pop()
                    if x in body:
                        continue
                    body.add(x)
                    st.extend(pred[x])
    return loops


class Parser:
    def __init__(self, module, toks):
        self.m = module
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, x):
        if self.i < len(self.t) and self.t[self.i] == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        if not self.accept(x):
            raise IRError('expected %r got %r in %s' % (x, self.peek(), ' '.join(self.t)[:300]))

    # ---- types
    def type(self):
        t = self.next()
        if t == 'ptr':
            r = ('ptr',)
            if self.peek() == 'addrspace':
                self.next(); self.expect('('); self.next(); self.expect(')')
        elif t == 'void':
            r = ('void',)
        elif re.match(r'i\d+$', t):
            r = ('i', int(t[1:]))
        elif t in ('float', 'double', 'x86_fp80', 'half', 'fp128'):
            r = ('fp', t)
        elif t in ('label', 'metadata', 'token'):
            r = (t,)
        elif t == '[':
            n = int(self.next()); self.expect('x')
            e = self.type(); self.expect(']')
            r = ('arr', n, e)
        elif t == '{':
            r = self._struct(False)
        elif t == '<':
            if self.peek() == '{':
                self.next()
                r = self._struct(True)
                self.expect('>')
            else:
                n = int(self.next()); self.expect('x')
                e = self.type(); self.expect('>')
                r = ('vec', n, e)
        elif t == 'opaque':
            r = ('opaque',)
        elif t.startswith('%'):
            r = ('named', unq(t))
        else:
            raise IRError('type? %r in %s' % (t, ' '.join(self.t)[:300]))
        # function type
        if self.peek() == '(' and self._looks_fn():
            depth = 0
            while True:
                x = self.next()
                if x == '(':
                    depth += 1
                elif x == ')':
                    depth -= 1
                    if depth == 0:
                        break
            r = ('fn', r)
        while self.peek() == '*':
            self.next()
            r = ('ptr',)
        return r

    def _looks_fn(self):
        return True

    def _struct(self, packed):
        el = []
        if not self.accept('}'):
            while True:
                el.append(self.type())
                if self.accept('}'):
                    break
                self.expect(',')
        return ('lit', tuple(el), packed)

    # ---- attributes
    def attrs(self):
        out = {}
        while True:
            t = self.peek()
            if t in ATTRS:
                self.next()
            elif t in ATTRS_PAREN:
                self.next()
                if self.peek() == '(':
                    self.next()
                    if t in ('sret', 'byval', 'byref', 'elementtype', 'inalloca'):
                        out[t] = self.type()
                        self.expect(')')
                    else:
                        d = 1
                        while d:
                            x = self.next()
                            d += (x == '(') - (x == ')')
                elif t == 'align':
                    self.next()
            elif t and t.startswith('"'):
                self.next()
                if self.accept('='):
                    self.next()
            else:
                return out

    # ---- values
    def value(self, ty):
        t = self.next()
        c = t[0]
        if c == '%':
            return ('l', unq(t))
        if c == '@':
            return ('g', unq(t))
        if re.match(r'-?\d+$', t):
            return ('c', int(t))
        if t == 'true':
            return ('c', 1)
        if t == 'false':
            return ('c', 0)
        if t == 'null':
            return ('c', 0)
        if t in ('undef', 'poison'):
            return ('undef',)
        if t == 'zeroinitializer':
            return ('zero',)
        if t == 'none':
            return ('undef',)
        if c == 'c' and t.startswith('c"'):
            return ('str', t[2:-1])
        if c == '!' or t == 'metadata':
            return ('undef',)
        if t == '{' or t == '[' or t == '<':
            closer = {'{': '}', '[': ']', '<': '>'}[t]
            if t == '<' and self.peek() == '{':
                self.next()
                closer = '}'
                pk = True
            else:
                pk = False
            el = []
            if not self.accept(closer):
                while True:
                    et = self.type()
                    el.append((et, self.value(et)))
                    if self.accept(closer):
                        break
                    self.expect(',')
            if pk:
                self.expect('>')
            return ('agg', el)
        if t == 'getelementptr':
            while self.peek() in ('inbounds', 'nuw', 'nusw', 'inrange'):
                self.next()
                if self.peek() == '(' and self.t[self.i - 1] == 'inrange':
                    d = 0
                    while True:
                        x = self.next()
                        d += (x == '(') - (x == ')')
                        if d == 0:
                            break
            self.expect('(')
            bt = self.type(); self.expect(',')
            ops = []
            while True:
                self.attrs()
                et = self.type()
                self.attrs()
                ops.append((et, self.value(et)))
                if self.accept(')'):
                    break
                self.expect(',')
            return ('gep', bt, ops)
        if t in CASTS:
            self.expect('(')
            et = self.type()
            v = self.value(et)
            self.expect('to')
            tt = self.type()
            self.expect(')')
            return ('cast', t, et, v, tt)
        if t in BINOPS or t == 'icmp':
            while self.peek() in ('nuw', 'nsw', 'exact', 'eq', 'ne', 'ult', 'ugt', 'slt', 'sgt', 'ule', 'uge', 'sle', 'sge'):
                self.next()
            self.expect('(')
            t1 = self.type(); v1 = self.value(t1); self.expect(',')
            t2 = self.type(); v2 = self.value(t2); self.expect(')')
            return ('binexpr', t, t1, v1, v2)
        if re.match(r'-?\d+\.\d+|0x', t):
            return ('fp', t)
        if t == 'asm':
            while self.peek() and not self.peek().startswith('"'):
                self.next()
            a = self.next(); self.expect(','); b = self.next()
            return ('asm', a, b)
        if t == 'blockaddress' or t == 'dso_local_equivalent' or t == 'no_cfi':
            raise IRError('unsupported constant ' + t)
        raise IRError('value? %r in %s' % (t, ' '.join(self.t)[:400]))

    def define_header(self):
        # skip to the function name, remembering the type before it
        t = self.t
        k = next(j for j, x in enumerate(t) if x.startswith('@'))
        # return type: parse backwards is awkward; try each start
        ret = ('void',)
        for s in range(1, k):
            q = Parser(self.m, t[:k])
            q.i = s
            try:
                ty = q.type()
                q.attrs()
                if q.i == k:
                    ret = ty
                    break
            except (IRError, IndexError, StopIteration):
                pass
        self.i = k + 1
        self.expect('(')
        params = []
        if not self.accept(')'):
            while True:
                if self.accept('...'):
                    self.expect(')')
                    break
                ty = self.type()
                at = self.attrs()
                nm = None
                if self.peek() and self.peek().startswith('%'):
                    nm = unq(self.next())
                params.append((ty, nm, at))
                if self.accept(')'):
                    break
                self.expect(',')
        dbg = None
        rest = t[self.i:]
        for j, x in enumerate(rest):
            if x == '!dbg':
                dbg = rest[j + 1]
        return ret, params, dbg


class Module:
    def __init__(self, text):
        self.functions = {}
        self.globals = {}
        self.types = {}
        self.meta = {}
        self._types_raw = {}
        self._icache = {}
        self._lay = {}
        self.aliases = {}
        self._split(text)
        for a, t in self.aliases.items():
            if t in self.functions and a not in self.functions:
                self.functions[a] = self.functions[t]
                self.globals.pop(a, None)
        self._demangle()

    def _split(self, text):
        lines = text.split('\n')
        i = 0
        n = len(lines)
        name_re = re.compile(r'@("(?:[^"\\]|\\.)*"|[\w.$-]+)\(')
        while i < n:
            ln = lines[i]
            if ln.startswith('define'):
                nm = name_re.search(ln).group(1).strip('"')
                j = i + 1
                while not lines[j].startswith('}'):
                    j += 1
                self.functions[nm] = Function(nm, ln, lines[i + 1:j + 1], self)
                i = j + 1
                continue
            if ln.startswith('declare'):
                nm = name_re.search(ln).group(1).strip('"')
                if nm not in self.functions:
                    self.functions[nm] = Function(nm, ln, None, self)
            elif ln.startswith('@'):
                m = re.match(r'@("(?:[^"\\]|\\.)*"|[\w.$-]+) = (.*)', ln)
                self.globals[m.group(1).strip('"')] = m.group(2)
                a = re.search(r'\balias\b.*, ptr @("(?:[^"\\]|\\.)*"|[\w.$-]+)$', m.group(2))
                if a:
                    self.aliases[m.group(1).strip('"')] = a.group(1).strip('"')
            elif ln.startswith('%'):
                m = re.match(r'%("(?:[^"\\]|\\.)*"|[\w.$-]+) = type (.*)', ln)
                if m:
                    self._types_raw[m.group(1).strip('"')] = m.group(2)
            elif ln.startswith('!'):
                m = re.match(r'(![\w.]+) = (.*)', ln)
                if m:
                    self.meta[m.group(1)] = m.group(2)
            i += 1

    def _demangle(self):
        names = list(self.functions) + list(self.globals)
        out = subprocess.run(['/usr/bin/llvm-cxxfilt-18'], input='\n'.join(names) + '\n', capture_output=True, text=True,
                             check=True).stdout.split('\n')
        self.dem = dict(zip(names, out))
        self.bases = {n: base_name(d) for n, d in self.dem.items()}
        self.by_base = {}
        for n in self.functions:
            if n in self.aliases:
                continue
            self.by_base.setdefault(self.bases[n], []).append(n)
        self.by_dem = {}
        for n in self.functions:
            self.by_dem.setdefault(self.dem[n], n)

    def named(self, name):
        t = self.types.get(name)
        if t is None:
            raw = self._types_raw.get(name)
            if raw is None:
                raise IRError('unknown type ' + name)
            t = Parser(self, tokenize(raw)).type()
            self.types[name] = t
        return t

    # ---- layout
    def layout(self, ty):
        """(size, align)"""
        r = self._lay.get(ty)
        if r is None:
            r = self._lay[ty] = self._layout(ty)
        return r

    def _layout(self, ty):
        k = ty[0]
        if k == 'i':
            n = ty[1]
            b = (n + 7) // 8
            s = 1
            while s < b:
                s *= 2
            return (s, min(s, 16))
        if k == 'ptr':
            return (8, 8)
        if k == 'fp':
            return {'float': (4, 4), 'double': (8, 8), 'x86_fp80': (16, 16), 'half': (2, 2), 'fp128': (16, 16)}[ty[1]]
        if k == 'arr':
            s, a = self.layout(ty[2])
            return (s * ty[1], a)
        if k == 'vec':
            s, a = self.layout(ty[2])
            return (s * ty[1], s * ty[1])
        if k == 'named':
            return self.layout(self.named(ty[1]))
        if k == 'lit':
            off, al = 0, 1
            for e in ty[1]:
                s, a = self.layout(e)
                if ty[2]:
                    a = 1
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            return ((off + al - 1) // al * al, al)
        if k in ('void', 'label', 'opaque', 'fn', 'metadata', 'token'):
            return (0, 1)
        raise IRError('layout ' + repr(ty))

    def resolve(self, ty):
        while ty[0] == 'named':
            ty = self.named(ty[1])
        return ty

    def field_offset(self, ty, k):
        ty = self.resolve(ty)
        if ty[0] == 'lit':
            off = 0
            for j, e in enumerate(ty[1]):
                s, a = self.layout(e)
                if ty[2]:
                    a = 1
                off = (off + a - 1) // a * a
                if j == k:
                    return off, e
                off += s
            raise IRError('field index')
        if ty[0] in ('arr', 'vec'):
            s, _ = self.layout(ty[2])
            return s * k, ty[2]
        raise IRError('field_offset ' + repr(ty))

    # ---- instructions
    def parse_instr(self, s):
        dbg = None
        m = re.search(r', !dbg (!\d+)', s)
        if m:
            dbg = m.group(1)
        core = re.sub(r', ![a-zA-Z_.]+ ![\w]+', '', s)
        core = re.sub(r', ![a-zA-Z_.]+ !\{\}', '', core)
        p = Parser(self, tokenize(core))
        dst = None
        if p.peek(1) == '=':
            dst = unq(p.next())
            p.next()
        op = p.next()
        if op in ('tail', 'musttail', 'notail'):
            op = p.next()
        f = getattr(self, '_i_' + op, None)
        if f:
            ty, a = f(p)
        elif op in BINOPS:
            while p.peek() in ('nuw', 'nsw', 'exact', 'fast', 'disjoint', 'nnan', 'ninf', 'contract', 'reassoc'):
                p.next()
            ty = p.type()
            x = p.value(ty); p.expect(',')
            y = p.value(ty)
            a = (x, y)
        elif op in CASTS:
            while p.peek() in ('nneg', 'nuw', 'nsw'):
                p.next()
            t1 = p.type()
            v = p.value(t1); p.expect('to')
            ty = p.type()
            a = (t1, v)
        else:
            raise IRError('instruction ' + s)
        return Instr(op, dst, ty, a, dbg, s)

    def _i_alloca(self, p):
        p.accept('inalloca')
        ty = p.type()
        cnt = None
        if p.accept(','):
            if p.peek() != 'align':
                ct = p.type()
                cnt = (ct, p.value(ct))
        return ty, (cnt,)

    def _i_load(self, p):
        at = p.accept('atomic')
        p.accept('volatile')
        ty = p.type(); p.expect(',')
        pt = p.type()
        return ty, (p.value(pt), at)

    def _i_store(self, p):
        at = p.accept('atomic')
        p.accept('volatile')
        ty = p.type()
        v = p.value(ty); p.expect(',')
        pt = p.type()
        return ty, (v, p.value(pt), at)

    def _i_getelementptr(self, p):
        while p.peek() in ('inbounds', 'nuw', 'nusw'):
            p.next()
        bt = p.type(); p.expect(',')
        pt = p.type()
        base = p.value(pt)
        idx = []
        while p.accept(','):
            t = p.type()
            idx.append((t, p.value(t)))
        return bt, (base, idx)

    def _callish(self, p):
        while p.peek() in ('fast', 'nnan', 'ninf', 'nsz', 'fastcc', 'ccc', 'coldcc', 'tailcc'):
            p.next()
        p.attrs()
        ty = p.type()
        if ty[0] == 'fn':
            ty = ty[1]
        fn = p.value(('ptr',))
        p.expect('(')
        args = []
        if not p.accept(')'):
            while True:
                t = p.type()
                at = p.attrs()
                if t == ('metadata',):
                    # skip
                    d = 0
                    while not (d == 0 and p.peek() in (',', ')')):
                        x = p.next()
                        d += (x in '([{') - (x in ')]}')
                    args.append((t, ('undef',), at))
                else:
                    args.append((t, p.value(t), at))
                if p.accept(')'):
                    break
                p.expect(',')
        return ty, fn, args

    def _i_call(self, p):
        ty, fn, args = self._callish(p)
        return ty, (fn, args)

    def _i_invoke(self, p):
        ty, fn, args = self._callish(p)
        while p.peek() != 'to':
            p.next()
        p.next(); p.expect('label')
        a = unq(p.next())
        p.expect('unwind'); p.expect('label')
        b = unq(p.next())
        return ty, (fn, args, a, b)

    def _i_br(self, p):
        if p.accept('label'):
            return None, (unq(p.next()),)
        t = p.type()
        c = p.value(t); p.expect(','); p.expect('label')
        a = unq(p.next()); p.expect(','); p.expect('label')
        b = unq(p.next())
        return None, (c, a, b)

    def _i_switch(self, p):
        t = p.type()
        v = p.value(t); p.expect(','); p.expect('label')
        d = unq(p.next()); p.expect('[')
        cases = []
        while not p.accept(']'):
            ct = p.type()
            cv = p.value(ct); p.expect(','); p.expect('label')
            cases.append((cv[1], unq(p.next())))
        return t, (v, d, cases)

    def _i_ret(self, p):
        t = p.type()
        if t == ('void',):
            return t, (None,)
        return t, (p.value(t),)

    def _i_icmp(self, p):
        p.accept('samesign')
        pred = p.next()
        t = p.type()
        x = p.value(t); p.expect(',')
        return t, (pred, x, p.value(t))

    def _i_fcmp(self, p):
        while p.peek() in ('fast', 'nnan', 'ninf', 'nsz'):
            p.next()
        pred = p.next()
        t = p.type()
        x = p.value(t); p.expect(',')
        return t, (pred, x, p.value(t))

    def _i_select(self, p):
        ct = p.type(); c = p.value(ct); p.expect(',')
        t = p.type(); x = p.value(t); p.expect(',')
        t2 = p.type(); y = p.value(t2)
        return t, (c, x, y)

    def _i_phi(self, p):
        t = p.type()
        inc = []
        while True:
            p.expect('[')
            v = p.value(t); p.expect(',')
            inc.append((v, unq(p.next())))
            p.expect(']')
            if not p.accept(','):
                break
        return t, (inc,)

    def _i_extractvalue(self, p):
        t = p.type()
        v = p.value(t)
        idx = []
        while p.accept(','):
            idx.append(int(p.next()))
        return t, (v, idx)

    def _i_insertvalue(self, p):
        t = p.type()
        v = p.value(t); p.expect(',')
        t2 = p.type()
        w = p.value(t2)
        idx = []
        while p.accept(','):
            idx.append(int(p.next()))
        return t, (v, t2, w, idx)

    def _i_landingpad(self, p):
        t = p.type()
        cl = []
        while p.peek():
            x = p.next()
            if x == 'cleanup':
                cl.append(('cleanup',))
            elif x in ('catch', 'filter'):
                ct = p.type()
                cl.append((x, p.value(ct)))
        return t, (cl,)

    def _i_resume(self, p):
        t = p.type()
        return t, (p.value(t),)

    def _i_unreachable(self, p):
        return None, ()

    def _i_fence(self, p):
        return None, ()

    def _i_freeze(self, p):
        t = p.type()
        return t, (p.value(t),)

    def _i_fneg(self, p):
        t = p.type()
        return t, (p.value(t),)

    def _i_va_arg(self, p):
        raise IRError('va_arg')

    def _i_cmpxchg(self, p):
        p.accept('weak'); p.accept('volatile')
        pt = p.type(); ptr = p.value(pt); p.expect(',')
        t = p.type(); c = p.value(t); p.expect(',')
        t2 = p.type(); nv = p.value(t2)
        return t, (ptr, c, nv)

    def _i_atomicrmw(self, p):
        p.accept('volatile')
        op = p.next()
        pt = p.type(); ptr = p.value(pt); p.expect(',')
        t = p.type()
        return t, (op, ptr, p.value(t))


_OPS = ['operator()', 'operator->*', 'operator->', 'operator<<=', 'operator>>=', 'operator<=>', 'operator<<', 'operator>>',
        'operator<=', 'operator>=', 'operator<', 'operator>']


def base_name(d):
    """qualified name without return type, template arguments and parameters"""
    if '(' not in d and '<' not in d:
        return d
    s = d
    s = s.replace('(anonymous namespace)', '{anon}')
    # protect operators
    reps = []
    out = []
    i = 0
    n = len(s)
    while i < n:
        if s.startswith('operator', i) and (i == 0 or not (s[i - 1].isalnum() or s[i - 1] == '_')):
            for o in _OPS:
                if s.startswith(o, i):
                    # operator< followed by template args "operator< <" keep first
                    out.append('\x00%d\x00' % len(reps))
                    reps.append(o)
                    i += len(o)
                    break
            else:
                out.append('operator')
                i += 8
            continue
        out.append(s[i])
        i += 1
    s = ''.join(out)
    # strip balanced <> and ()
    res = []
    da = dp = 0
    for j, c in enumerate(s):
        if c == '<' and dp == 0:
            da += 1
        elif c == '>' and da and dp == 0 and s[j - 1] != '-':
            da -= 1
        elif da:
            # parens inside template args
            continue
        elif c == '(':
            dp += 1
        elif c == ')':
            dp -= 1
        elif dp:
            continue
        else:
            res.append(c)
    s = ''.join(res)
    s = re.sub(r'\[abi:\w+\]', '', s)
    s = re.sub(r"\{lambda#?\d*\}", '{lambda}', s)
    s = s.replace(' const', '').replace(' volatile', '').replace(' &&', '').strip()
    s = re.sub(r' \[clone.*', '', s).strip()
    # return type: drop everything up to the last top-level blank that is not after 'operator'
    m = re.search(r'operator (new|delete|bool|[\w:]+)', s)
    if m:
        pre = s[:m.start()]
        s = pre.split(' ')[-1] + s[m.start():]
    else:
        s = s.split(' ')[-1] if ' ' in s else s
    s = s.lstrip('&*')
    for k, o in enumerate(reps):
        s = s.replace('\x00%d\x00' % k, o)
    return s
