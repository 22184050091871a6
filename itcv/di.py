"""Debug-info view of record types: field names, offsets, types, line numbers."""
import re

KV = re.compile(r'(\w+): ("(?:[^"\\]|\\.)*"|[^,()]+(?:\([^()]*\))?)')


def norm(n):
    n = n.strip()
    while '> >' in n:
        n = n.replace('> >', '>>')
    return n


class DI:
    def __init__(self, module):
        self.m = module
        self._cache = {}
        self._q = {}
        self.records = {}          # qualified name -> id
        self._fields = {}
        for i, raw in module.meta.items():
            if 'DICompositeType(' in raw and ('DW_TAG_structure_type' in raw or 'DW_TAG_class_type' in raw) \
                    and 'elements:' in raw and 'flags: DIFlagFwdDecl' not in raw:
                q = self.qual(i)
                if q:
                    self.records.setdefault(q, i)

    def get(self, i):
        r = self._cache.get(i)
        if r is None:
            raw = self.m.meta[i]
            m = re.match(r'(?:distinct )?!(\w+)\((.*)\)$', raw)
            if not m:
                r = {'_kind': 'list', '_items': re.findall(r'![\w.]+|null', raw[2:] if raw.startswith('!{') else raw)}
            else:
                r = {'_kind': m.group(1)}
                for k, v in KV.findall(m.group(2)):
                    r[k] = v[1:-1] if v.startswith('"') else v.strip()
            self._cache[i] = r
        return r

    def qual(self, i):
        r = self._q.get(i)
        if r is None:
            d = self.get(i)
            nm = d.get('name', '')
            sc = d.get('scope')
            pre = ''
            if sc and sc.startswith('!'):
                sd = self.get(sc)
                if sd['_kind'] == 'DINamespace':
                    if sd.get('exportSymbols') == 'true':
                        # inline namespace
                        pre = self.qual(sc)
                        base = self.qual(sc)
                        pre = base + '::' if base else ''
                    else:
                        q = self.qual(sc)
                        pre = q + '::' if q else ''
                elif sd['_kind'] == 'DICompositeType':
                    q = self.qual(sc)
                    pre = q + '::' if q else ''
                elif sd['_kind'] == 'DISubprogram':
                    ln = sd.get('linkageName')
                    pre = (self.m.dem.get(ln, ln or sd.get('name', '?')) if ln else sd.get('name', '?')) + '::'
            if d['_kind'] == 'DINamespace' and not nm:
                nm = '(anonymous namespace)'
            r = norm(pre + nm) if nm else ''
            self._q[i] = r
        return r

    def strip(self, i):
        """resolve typedefs and cv"""
        while i and i.startswith('!'):
            d = self.get(i)
            if d['_kind'] == 'DIDerivedType' and d.get('tag') in ('DW_TAG_typedef', 'DW_TAG_const_type', 'DW_TAG_volatile_type',
                                                                  'DW_TAG_atomic_type'):
                i = d.get('baseType')
                continue
            break
        return i

    def tname(self, i):
        if not i or not i.startswith('!'):
            return 'void'
        i = self.strip(i)
        if not i or not i.startswith('!'):
            return 'void'
        d = self.get(i)
        if d['_kind'] == 'DIDerivedType' and d.get('tag') in ('DW_TAG_pointer_type', 'DW_TAG_reference_type', 'DW_TAG_rvalue_reference_type'):
            return self.tname(d.get('baseType')) + '*'
        if d['_kind'] == 'DIBasicType':
            return d.get('name')
        return self.qual(i) or d.get('name', '?')

    def members(self, i):
        """direct members: (name, byte offset, byte size, type id) ; bases named by '<base>'"""
        i = self.strip(i)
        r = self._fields.get(i)
        if r is not None:
            return r
        r = []
        d = self.get(i)
        el = d.get('elements')
        if el and el.startswith('!'):
            for e in self.get(el)['_items']:
                if e == 'null':
                    continue
                ed = self.get(e)
                if ed['_kind'] != 'DIDerivedType':
                    continue
                if ed.get('tag') == 'DW_TAG_member' and 'DIFlagStaticMember' not in ed.get('flags', ''):
                    bt = ed.get('baseType')
                    r.append((ed.get('name', ''), int(ed.get('offset', 0)) // 8, self.size(bt), bt))
                elif ed.get('tag') == 'DW_TAG_inheritance':
                    bt = ed.get('baseType')
                    r.append(('<base>', int(ed.get('offset', 0)) // 8, self.size(bt), bt))
        self._fields[i] = r
        return r

    def size(self, i):
        i = self.strip(i)
        if not i or not i.startswith('!'):
            return 0
        d = self.get(i)
        s = d.get('size')
        if s is None:
            return 0
        return int(s) // 8

    def rec(self, name):
        return self.records.get(norm(name))

    def all_fields(self, name_or_id):
        """flattened over bases: dict field -> (offset, size, type id)"""
        i = name_or_id if name_or_id.startswith('!') else self.rec(name_or_id)
        out = {}
        if i is None:
            return out

        def walk(i, off):
            for nm, o, s, t in self.members(i):
                if nm == '<base>':
                    walk(t, off + o)
                else:
                    out.setdefault(nm, (off + o, s, t))
        walk(i, 0)
        return out

    def path_at(self, tid, off):
        """list of (record name, record base offset, field name, field offset, field type id) from outermost to innermost"""
        out = []
        base = 0
        i = self.strip(tid)
        while i and i.startswith('!'):
            d = self.get(i)
            if d['_kind'] != 'DICompositeType':
                break
            if d.get('tag') == 'DW_TAG_array_type':
                break
            best = None
            for nm, o, s, t in self.members(i):
                if base + o <= off < base + o + max(s, 1):
                    if best is None or s > 0 and (best[2] == 0 or best[0] == '<base>' and s >= best[2] and nm != '<base>'):
                        if s > 0 or best is None:
                            best = (nm, o, s, t)
            if best is None:
                break
            out.append((self.qual(i), base, best[0], base + best[1], best[3]))
            base += best[1]
            i = self.strip(best[3])
        return out

    def loc(self, dbg):
        """(file, line, function) of a !dbg reference"""
        if not dbg or dbg not in self.m.meta:
            return ('?', 0, '?')
        d = self.get(dbg)
        line = int(d.get('line', 0))
        sc = d.get('scope')
        f = '?'
        while sc and sc.startswith('!'):
            sd = self.get(sc)
            if f == '?' and sd.get('file'):
                fd = self.get(sd['file'])
                f = fd.get('filename', '?')
            if sd['_kind'] == 'DISubprogram':
                return (f, line, sd.get('name', '?'))
            sc = sd.get('scope')
        return (f, line, '?')
