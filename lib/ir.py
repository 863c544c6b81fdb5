"""Parser for the textual LLVM IR (clang 18, -O0) of the witness units."""
import os
import re


class Ty:
    __slots__ = ('k', 'n', 'el', 'fields', 'size', 'align', 'offs', 'packed')

    def __init__(self, k, n=0, el=None, fields=None):
        self.k, self.n, self.el, self.fields = k, n, el, fields
        self.packed = False
        self.size = None

    def __repr__(self):
        return 'Ty(%s,%s)' % (self.k, self.n)


TOK = re.compile(r'''\s*(?:(c"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*")|("(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*")|([%@][-a-zA-Z$._0-9]+|[%@]"[^"]*")|(![-a-zA-Z$._0-9]*)|(\#\d+)|(0x[KLMHR]?[0-9A-Fa-f]+)|(-?\d+\.\d+(?:e[+-]?\d+)?)|(-?\d+)|([a-zA-Z_$.][-a-zA-Z0-9_$.]*)|(\.\.\.)|(.))''')


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        m = TOK.match(s, pos)
        if not m or m.end() == pos:
            break
        t = m.group(0).strip()
        pos = m.end()
        if t:
            out.append(t)
    return out


class Module:
    def __init__(self, text, path=''):
        self.path = path
        self.types = {}
        self.globals = {}
        self.funcs = {}
        self.decls = set()
        self.aliases = {}
        self.meta = {}
        self._tdefs = {}
        self._raw_globals = {}
        self._parse(text)

    # ---------------------------------------------------------- types
    def int_ty(self, n):
        t = self.types.get(('i', n))
        if t is None:
            t = Ty('i', n)
            nb = (n + 7) // 8
            a = 1
            while a < nb:
                a *= 2
            t.align = min(a, 16)
            t.size = (nb + t.align - 1) // t.align * t.align
            self.types[('i', n)] = t
        return t

    def prim(self, name):
        t = self.types.get(name)
        if t is None:
            if name == 'ptr':
                t = Ty('ptr'); t.size = t.align = 8
            elif name == 'float':
                t = Ty('f', 32); t.size = t.align = 4
            elif name == 'double':
                t = Ty('f', 64); t.size = t.align = 8
            elif name == 'half':
                t = Ty('f', 16); t.size = t.align = 2
            elif name == 'x86_fp80':
                t = Ty('f', 80); t.size = t.align = 16
            elif name == 'fp128':
                t = Ty('f', 128); t.size = t.align = 16
            elif name == 'void':
                t = Ty('void'); t.size = 0; t.align = 1
            else:
                t = Ty('other'); t.size = 0; t.align = 1
            self.types[name] = t
        return t

    def parse_type(self, T, i):
        t = T[i]
        if re.match(r'^i\d+$', t):
            r = self.int_ty(int(t[1:])); i += 1
        elif t in ('ptr', 'float', 'double', 'half', 'void', 'metadata', 'label', 'x86_fp80', 'fp128', 'opaque', 'token'):
            r = self.prim(t); i += 1
            if t == 'ptr' and i < len(T) and T[i] == 'addrspace':
                i += 4
        elif t.startswith('%'):
            r = self.named(t); i += 1
        elif t == '[' or t == '<' and T[i + 1] != '{':
            n = int(T[i + 1])
            assert T[i + 2] == 'x', T[i:i + 5]
            el, j = self.parse_type(T, i + 3)
            i = j + 1
            r = Ty('arr' if t == '[' else 'vec', n, el)
            r.size = n * el.size
            r.align = el.align if t == '[' else max(1, r.size)
        elif t == '{' or t == '<':
            packed = t == '<'
            j = i + (2 if packed else 1)
            fs = []
            while T[j] != '}':
                f, j = self.parse_type(T, j)
                fs.append(f)
                if T[j] == ',':
                    j += 1
            i = j + (2 if packed else 1)
            r = self.struct(fs, packed)
        else:
            raise ValueError('type? ' + ' '.join(T[i:i + 8]))
        # function type
        if i < len(T) and T[i] == '(' and r.k != 'x':
            pass
        return r, i

    def struct(self, fs, packed):
        r = Ty('struct', 0, None, fs)
        r.packed = packed
        off = 0
        al = 1
        r.offs = []
        for f in fs:
            a = 1 if packed else f.align
            al = max(al, a)
            off = (off + a - 1) // a * a
            r.offs.append(off)
            off += f.size
        r.size = (off + al - 1) // al * al
        r.align = al
        return r

    def named(self, name):
        t = self.types.get(name)
        if t is None:
            raw = self._tdefs.get(name)
            if raw is None or raw == ['opaque']:
                t = Ty('opaque'); t.size = 0; t.align = 1
            else:
                t, _ = self.parse_type(raw, 0)
            self.types[name] = t
        return t

    # ---------------------------------------------------------- module
    def _parse(self, text):
        lines = text.split('\n')
        i = 0
        n = len(lines)
        bodies = []
        while i < n:
            ln = lines[i]
            if ln.startswith('define'):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                bodies.append((ln, lines[i + 1:j]))
                i = j + 1
                continue
            if ln.startswith('%') and ' = type ' in ln:
                nm, rest = ln.split(' = type ', 1)
                self._tdefs[nm] = tokenize(rest)
            elif ln.startswith('@'):
                nm, rest = re.match(r'^(@[-a-zA-Z$._0-9]+|@"[^"]*") = (.*)$', ln).groups()
                if re.match(r'^(\w+ )*alias ', rest):
                    self.aliases[nm] = re.findall(r'@[-a-zA-Z$._0-9]+', rest)[-1]
                else:
                    self._raw_globals[nm] = rest
            elif ln.startswith('declare'):
                m = re.search(r'(@[-a-zA-Z$._0-9]+|@"[^"]*")\(', ln)
                if m:
                    self.decls.add(m.group(1))
            elif ln.startswith('!'):
                m = re.match(r'^(!\d+) = (?:distinct )?(.*)$', ln)
                if m:
                    self.meta[m.group(1)] = m.group(2)
            i += 1
        self._lazy = {}
        for head, body in bodies:
            m = re.search(r'(@[-a-zA-Z$._0-9]+|@"[^"]*")\(', head)
            self._lazy[m.group(1)] = (head, body)

    def has(self, name):
        return name in self.funcs or name in self._lazy

    def all_names(self):
        return list(self._lazy)

    def func(self, name):
        name = self.aliases.get(name, name)
        f = self.funcs.get(name)
        if f is None:
            hb = self._lazy.get(name)
            if hb is None:
                return None
            f = self._parse_func(name, *hb)
            self.funcs[name] = f
        return f

    def filename(self, ref):
        """full path of a !DIFile"""
        m = self.meta.get(ref, '')
        fn = re.search(r'filename: "([^"]*)"', m)
        if not fn:
            return '?'
        d = re.search(r'directory: "([^"]*)"', m)
        return os.path.join(d.group(1), fn.group(1)) if d else fn.group(1)

    def dbgloc(self, ref):
        """(file, line) of a !dbg reference"""
        m = self.meta.get(ref)
        if m is None:
            return ('?', 0)
        ml = re.search(r'line: (\d+)', m)
        line = int(ml.group(1)) if ml else 0
        sc = re.search(r'scope: (!\d+)', m)
        seen = 0
        while sc and seen < 20:
            s = self.meta.get(sc.group(1), '')
            f = re.search(r'file: (!\d+)', s)
            if f:
                return (self.filename(f.group(1)), line)
            sc = re.search(r'scope: (!\d+)', s)
            seen += 1
        return ('?', line)

    # ---------------------------------------------------------- functions
    ATTR = {'noundef', 'nonnull', 'noalias', 'zeroext', 'signext', 'inreg', 'returned', 'nocapture', 'readonly',
            'writeonly', 'writable', 'dead_on_unwind', 'immarg', 'nofree', 'nest', 'swiftself', 'readnone',
            'allocptr', 'allocalign', 'range'}

    def skip_attrs(self, T, i, at):
        while i < len(T):
            t = T[i]
            if t in self.ATTR:
                at.append(t); i += 1
            elif t == 'align':
                i += 2
            elif t in ('dereferenceable', 'dereferenceable_or_null', 'allocsize'):
                if t == 'dereferenceable':
                    at.append((t, int(T[i + 2])))
                i += 4
            elif t in ('sret', 'byval', 'elementtype', 'inalloca', 'preallocated'):
                ty, j = self.parse_type(T, i + 2)
                at.append((t, ty))
                i = j + 1
            elif t == 'range':
                i += 1
                while T[i] != ')':
                    i += 1
                i += 1
            else:
                break
        return i

    def _parse_func(self, name, head, body):
        T = tokenize(head)
        i = T.index(name)
        # return type: scan backwards is awkward; parse forward
        j = 1
        RET = {'dso_local', 'linkonce_odr', 'internal', 'weak_odr', 'weak', 'available_externally', 'private', 'hidden',
               'protected', 'unnamed_addr', 'local_unnamed_addr', 'dso_preemptable', 'linkonce', 'external'}
        while T[j] in RET:
            j += 1
        at = []
        j = self.skip_attrs(T, j, at)
        rty, j = self.parse_type(T, j)
        assert T[j] == name, (T[j], name)
        j += 2
        params = []
        k = 0
        while T[j] != ')':
            if T[j] == '...':
                j += 1
                continue
            ty, j = self.parse_type(T, j)
            pat = []
            j = self.skip_attrs(T, j, pat)
            if T[j].startswith('%'):
                pn = T[j]; j += 1
            else:
                pn = '%' + str(k)
            k += 1
            params.append((ty, pn, pat))
            if T[j] == ',':
                j += 1
        dm = re.search(r'!dbg (!\d+)', head)
        F = Func(name, rty, params, self.dbg_func(dm.group(1)) if dm else None)
        cur = []
        F.blocks[None] = cur
        F.entry = None
        first = True
        idx = 0
        lines = body
        while idx < len(lines):
            ln = lines[idx]
            idx += 1
            if not ln.strip():
                continue
            if not ln.startswith(' '):
                m = re.match(r'^([-a-zA-Z$._0-9]+|"[^"]*"):', ln)
                if m:
                    lab = '%' + m.group(1)
                    cur = []
                    F.blocks[lab] = cur
                    continue
            if 'llvm.dbg.' in ln:
                continue
            s = ln.strip()
            # multi-line switch / landingpad / invoke
            if s.startswith('switch') and ']' not in s:
                while ']' not in lines[idx - 1]:
                    s += ' ' + lines[idx].strip()
                    idx += 1
            if ' = invoke ' in s or s.startswith('invoke '):
                while 'unwind label' not in s:
                    s += ' ' + lines[idx].strip()
                    idx += 1
            if ' = landingpad ' in s:
                while idx < len(lines) and lines[idx].startswith('          '):
                    s += ' ' + lines[idx].strip()
                    idx += 1
            cur.append(Instr(self, s))
        # entry block label number = number of unnamed params; phi may refer to it
        F.entry_label = '%' + str(len(params))
        return F

    def dbg_func(self, ref):
        m = self.meta.get(ref, '')
        ln = re.search(r'line: (\d+)', m)
        nm = re.search(r'name: "([^"]*)"', m)
        f = re.search(r'file: (!\d+)', m)
        fn = '?'
        if f:
            fn = self.filename(f.group(1))
        return (nm.group(1) if nm else '?', fn, int(ln.group(1)) if ln else 0)


class Func:
    def __init__(self, name, rty, params, dbg):
        self.name, self.rty, self.params, self.dbg = name, rty, params, dbg
        self.blocks = {}
        self.entry = None
        self.entry_label = None


BINOPS = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'}
FBIN = {'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CASTS = {'zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'fptrunc', 'fpext', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'addrspacecast'}
FLAGS = {'nsw', 'nuw', 'exact', 'inbounds', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'disjoint', 'nneg', 'volatile', 'atomic'}


class Instr:
    """lazily decoded instruction"""
    __slots__ = ('mod', 'raw', 'op', 'dest', 'ty', 'a', 'flags', 'dbg', 'dec')

    def __init__(self, mod, s):
        self.mod = mod
        self.raw = s
        self.dec = False
        self.op = None

    def decode(self):
        s = self.raw
        mod = self.mod
        self.dbg = None
        m = re.search(r', !dbg (!\d+)', s)
        if m:
            self.dbg = m.group(1)
            s = s[:m.start()] + s[m.end():]
        else:
            m = re.search(r' !dbg (!\d+)', s)
            if m:
                self.dbg = m.group(1)
                s = s[:m.start()] + s[m.end():]
        T = tokenize(s)
        # drop trailing metadata
        i = 0
        self.dest = None
        if len(T) > 1 and T[1] == '=':
            self.dest = T[0]
            i = 2
        op = T[i]
        i += 1
        if op in ('tail', 'musttail', 'notail'):
            op = T[i]; i += 1
        self.op = op
        fl = set()
        if op != 'call':
            while i < len(T) and T[i] in FLAGS:
                fl.add(T[i]); i += 1
        self.flags = fl
        P = mod.parse_type
        if op in BINOPS or op in FBIN:
            self.ty, i = P(T, i)
            x, i = self.val(T, i, self.ty)
            assert T[i] == ','
            y, i = self.val(T, i + 1, self.ty)
            self.a = (x, y)
        elif op == 'fneg':
            self.ty, i = P(T, i)
            x, i = self.val(T, i, self.ty)
            self.a = (x,)
        elif op in ('icmp', 'fcmp'):
            pred = T[i]; i += 1
            while pred in FLAGS:
                pred = T[i]; i += 1
            self.ty, i = P(T, i)
            x, i = self.val(T, i, self.ty)
            y, i = self.val(T, i + 1, self.ty)
            self.a = (pred, x, y)
        elif op in CASTS:
            t0, i = P(T, i)
            x, i = self.val(T, i, t0)
            assert T[i] == 'to', T[i:]
            t1, i = P(T, i + 1)
            self.ty = t1
            self.a = (x, t0, t1)
        elif op == 'freeze':
            self.ty, i = P(T, i)
            x, i = self.val(T, i, self.ty)
            self.a = (x,)
        elif op == 'alloca':
            self.ty, i = P(T, i)
            n = 1
            if i < len(T) and T[i] == ',' and T[i + 1] != 'align':
                t, j = P(T, i + 1)
                n, j = self.val(T, j, t)
            self.a = (n,)
        elif op == 'load':
            self.ty, i = P(T, i)
            pt, i = P(T, i + 1)
            x, i = self.val(T, i, pt)
            self.a = (x,)
        elif op == 'store':
            self.ty, i = P(T, i)
            x, i = self.val(T, i, self.ty)
            pt, i = P(T, i + 1)
            y, i = self.val(T, i, pt)
            self.a = (x, y)
        elif op == 'getelementptr':
            self.ty, i = P(T, i)
            pt, i = P(T, i + 1)
            base, i = self.val(T, i, pt)
            idx = []
            while i < len(T) and T[i] == ',' and not T[i + 1].startswith('!'):
                t, i = P(T, i + 1)
                v, i = self.val(T, i, t)
                idx.append((t, v))
            self.a = (base, idx)
        elif op in ('call', 'invoke'):
            while T[i] in FLAGS or T[i] in ('fastcc', 'coldcc', 'ccc', 'cc'):
                i += 1
            at = []
            i = mod.skip_attrs(T, i, at)
            self.ty, i = P(T, i)
            # possible function type
            if T[i] == '(':
                d = 0
                while True:
                    if T[i] == '(':
                        d += 1
                    elif T[i] == ')':
                        d -= 1
                    i += 1
                    if d == 0:
                        break
            callee, i = self.val(T, i, mod.prim('ptr'))
            assert T[i] == '(', (T[i:], s)
            i += 1
            args = []
            while T[i] != ')':
                t, i = P(T, i)
                pa = []
                i = mod.skip_attrs(T, i, pa)
                if t.k == 'other':
                    # metadata argument
                    d = 0
                    while not (d == 0 and T[i] in (',', ')')):
                        if T[i] == '(':
                            d += 1
                        elif T[i] == ')':
                            d -= 1
                        i += 1
                    args.append((t, None, pa))
                else:
                    v, i = self.val(T, i, t)
                    args.append((t, v, pa))
                if T[i] == ',':
                    i += 1
            norm = None
            if op == 'invoke':
                k = T.index('to', i)
                norm = T[k + 2]
            self.a = (callee, args, norm)
        elif op == 'ret':
            if T[i] == 'void':
                self.a = (None, None)
            else:
                t, i = P(T, i)
                v, i = self.val(T, i, t)
                self.a = (t, v)
        elif op == 'br':
            if T[i] == 'label':
                self.a = (None, T[i + 1], None)
            else:
                t, i = P(T, i)
                v, i = self.val(T, i, t)
                # , label %x, label %y
                self.a = (v, T[i + 2], T[i + 5])
        elif op == 'switch':
            t, i = P(T, i)
            v, i = self.val(T, i, t)
            default = T[i + 2]
            i += 4
            cases = []
            while T[i] != ']':
                t2, i = P(T, i)
                c, i = self.val(T, i, t2)
                cases.append((c[1] & ((1 << t.n) - 1), T[i + 2]))
                i += 3
            self.ty = t
            self.a = (v, default, cases)
        elif op == 'select':
            while T[i] in FLAGS:
                i += 1
            t, i = P(T, i)
            c, i = self.val(T, i, t)
            t1, i = P(T, i + 1)
            x, i = self.val(T, i, t1)
            t2, i = P(T, i + 1)
            y, i = self.val(T, i, t2)
            self.ty = t1
            self.a = (c, x, y)
        elif op == 'phi':
            while T[i] in FLAGS:
                i += 1
            self.ty, i = P(T, i)
            inc = []
            while i < len(T) and T[i] == '[':
                v, i = self.val(T, i + 1, self.ty)
                lab = T[i + 1]
                inc.append((v, lab))
                i += 3
                if i < len(T) and T[i] == ',':
                    i += 1
            self.a = (inc,)
        elif op == 'extractvalue':
            t, i = P(T, i)
            v, i = self.val(T, i, t)
            idx = []
            while i < len(T) and T[i] == ',':
                idx.append(int(T[i + 1])); i += 2
            self.ty = t
            self.a = (v, idx)
        elif op == 'insertvalue':
            t, i = P(T, i)
            v, i = self.val(T, i, t)
            t2, i = P(T, i + 1)
            x, i = self.val(T, i, t2)
            idx = []
            while i < len(T) and T[i] == ',':
                idx.append(int(T[i + 1])); i += 2
            self.ty = t
            self.a = (v, x, t2, idx)
        elif op in ('extractelement',):
            t, i = P(T, i)
            v, i = self.val(T, i, t)
            t2, i = P(T, i + 1)
            x, i = self.val(T, i, t2)
            self.ty = t
            self.a = (v, x)
        elif op in ('insertelement',):
            t, i = P(T, i)
            v, i = self.val(T, i, t)
            t2, i = P(T, i + 1)
            x, i = self.val(T, i, t2)
            t3, i = P(T, i + 1)
            y, i = self.val(T, i, t3)
            self.ty = t
            self.a = (v, x, y)
        elif op == 'unreachable':
            self.a = ()
        elif op in ('landingpad', 'resume', 'fence'):
            self.ty = None
            self.a = ()
        else:
            self.op = 'unsupported'
            self.a = (op,)
        self.dec = True

    # value operands: ('c', int) ('r', name) ('g', name) ('u',) ('z', ty) ('n',) ('agg', ty, [..]) ('gep',...)
    def val(self, T, i, ty):
        t = T[i]
        if t.startswith('%'):
            return ('r', t), i + 1
        if t.startswith('@'):
            return ('g', t), i + 1
        if re.match(r'^-?\d+$', t):
            n = int(t)
            if ty.k == 'i':
                n &= (1 << ty.n) - 1
            return ('c', n), i + 1
        if t == 'true':
            return ('c', 1), i + 1
        if t == 'false':
            return ('c', 0), i + 1
        if t in ('undef', 'poison'):
            return ('u', ty), i + 1
        if t == 'null' or t == 'none':
            return ('n',), i + 1
        if t == 'zeroinitializer':
            return ('z', ty), i + 1
        if re.match(r'^0x', t) or re.match(r'^-?\d+\.\d', t):
            return ('c', fpbits(t, ty)), i + 1
        if t == 'getelementptr':
            i += 1
            while T[i] in FLAGS or T[i] in ('inrange',):
                i += 1
            assert T[i] == '('
            et, i = self.mod.parse_type(T, i + 1)
            pt, i = self.mod.parse_type(T, i + 1)
            base, i = self.val(T, i, pt)
            idx = []
            while T[i] == ',':
                if T[i + 1] == 'inrange':
                    i += 1
                t2, i = self.mod.parse_type(T, i + 1)
                v, i = self.val(T, i, t2)
                idx.append((t2, v))
            return ('gep', et, base, idx), i + 1
        if t in ('{', '[', '<'):
            close = {'{': '}', '[': ']', '<': '>'}[t]
            i += 1
            if t == '<' and T[i] == '{':
                i += 1
                close = '}'
            els = []
            while T[i] != close:
                t2, i = self.mod.parse_type(T, i)
                v, i = self.val(T, i, t2)
                els.append((t2, v))
                if T[i] == ',':
                    i += 1
            i += 1
            if t == '<' and close == '}':
                i += 1
            return ('agg', ty, els), i
        if t.startswith('c"'):
            return ('str', t[2:-1]), i + 1
        if t in ('inttoptr', 'ptrtoint', 'bitcast'):
            t0, j = self.mod.parse_type(T, i + 2)
            v, j = self.val(T, j, t0)
            t1, j = self.mod.parse_type(T, j + 1)
            return ('cast', t, v, t0, t1), j + 1
        raise ValueError('operand? %s in %s' % (T[i:i + 6], self.raw[:200]))


def fpbits(t, ty):
    import struct
    if t.startswith('0x'):
        h = t[2:]
        if h[0] in 'LM':    # the low word comes first
            return int(h[17:] + h[1:17], 16)
        if h[0] in 'KHR':
            return int(h[1:], 16)
        d = struct.unpack('>d', bytes.fromhex(h.rjust(16, '0')))[0]
    else:
        d = float(t)
    if ty.n == 32:
        return struct.unpack('>I', struct.pack('>f', d))[0]
    return struct.unpack('>Q', struct.pack('>d', d))[0]
