"""Abstract interpretation of a table generator: every loop of its source file is interpreted once for an arbitrary element of its range (two
of them for innermost loops that fill tables), stores into tables at symbolic places are recorded, and so is the text that is emitted."""
import re
import dom
import interp
from dom import mk, bits_of, mask, sgn
from interp import Machine, Obj, Ptr, FnPtr, Unsupported

TABLE = 64      # an object of at least this many bytes is a table


class Rec:
    __slots__ = ('obj', 'off', 'n', 'val', 'ins', 'names', 'ns')

    def __init__(self, obj, off, n, val, ins, names, ns):
        self.obj, self.off, self.n, self.val, self.ins, self.names, self.ns = obj, off, n, val, ins, names, ns


class Loop:
    __slots__ = ('F', 'head', 'blocks', 'var', 'size', 'v0', 'step', 'n', 'name', 'again', 'cur')


def graph(F):
    """successors, and natural loops {head: blocks}"""
    succ = {}
    for lab, blk in F.blocks.items():
        t = blk[-1]
        if not t.dec:
            t.decode()
        if t.op == 'br':
            s = [t.a[1]] + ([t.a[2]] if t.a[0] is not None else [])
        elif t.op == 'switch':
            s = [t.a[1]] + [l for c, l in t.a[2]]
        elif t.op == 'invoke':
            s = [t.a[2]]
        else:
            s = []
        succ[lab if lab is not None else F.entry_label] = s
    # labels: the entry block may be keyed None
    start = F.entry_label if F.entry_label in succ else F.entry
    if start not in succ:
        start = next(iter(succ))
    state, back, order = {}, [], [(start, iter(succ[start]))]
    state[start] = 1
    while order:
        u, it = order[-1]
        for v in it:
            if state.get(v) == 1:
                back.append((u, v))
            elif v not in state:
                state[v] = 1
                order.append((v, iter(succ.get(v, ()))))
                break
        else:
            state[u] = 2
            order.pop()
    pred = {}
    for u, ss in succ.items():
        for v in ss:
            pred.setdefault(v, []).append(u)
    loops = {}
    for u, h in back:
        body = loops.setdefault(h, {h})
        work = [u]
        while work:
            x = work.pop()
            if x not in body:
                body.add(x)
                work += pred.get(x, [])
    return succ, loops


class GenMachine(Machine):
    def __init__(self, mod, genfile):
        Machine.__init__(self, mod)
        self.genfile = genfile
        self._loops = {}
        self._text = {}
        self.emit = False
        self.externals = Ext(self)
        self.tables = {}
        self.point = None
        self.budget = 3000000

    def reset(self):
        Machine.reset(self)
        self.active = []
        self.recs = []
        self.events_text = []
        self.unresolved = []
        self.allzero = set()

    # ---------------------------------------------------------------- loops
    def loops_of(self, F):
        r = self._loops.get(F.name)
        if r is None:
            r = {}
            f = None
            for blk in F.blocks.values():
                for ins in blk:
                    if not ins.dec:
                        ins.decode()
                    if ins.dbg:
                        f = self.mod.dbgloc(ins.dbg)[0]
                        break
                if f:
                    break
            if f and f.endswith(self.genfile):
                r = graph(F)[1]
            self._loops[F.name] = r
        return r

    def hook(self, F, cur, nxt, env):
        if self.plain:
            return
        L = self.loops_of(F)
        if not L:
            return
        if self.active:
            l = self.active[-1]
            if l.F is F and cur in l.blocks:
                if nxt == l.head:
                    self.end_iteration(l, env)
                    return
                if nxt not in l.blocks and cur != l.head:
                    raise Unsupported('loop left in the middle')
        if nxt in L and cur not in L[nxt]:
            self.enter(F, nxt, L[nxt], env, L)

    plain = False

    def enter(self, F, head, blocks, env, L):
        hb = F.blocks[head]
        loads = set()
        for ins in hb:
            if not ins.dec:
                ins.decode()
            if ins.op == 'load' and ins.a[0][0] == 'r':
                loads.add(ins.a[0][1])
        stores = {}
        for b in blocks:
            for ins in F.blocks[b]:
                if not ins.dec:
                    ins.decode()
                if ins.op == 'store' and ins.a[1][0] == 'r':
                    stores.setdefault(ins.a[1][1], []).append((b, ins))
        cand = [r for r in loads if r in stores and isinstance(env.get(r), Ptr) and len(stores[r]) == 1]
        if len(cand) != 1:
            raise Unsupported('loop without a single counter')
        r = cand[0]
        p = env[r]
        st = stores[r][0][1]
        ty = st.ty
        w = ty.n
        v0 = p.obj.load(p.off, ty.size)
        if type(v0) is not int:
            raise Unsupported('loop starts at an unknown value')
        step = self.step_of(F, blocks, st, r, w)

        def cond(k):
            """does the loop go on at its k-th value"""
            p.obj.store(p.off, ty.size, (v0 + k * step) & mask(w))
            e = dict(env)
            for ins in hb:
                if ins.op == 'br':
                    if ins.a[0] is None:
                        return True
                    c = self.operand(ins.a[0], e, ins)
                    if type(c) is not int:
                        raise Unsupported('loop condition')
                    return (ins.a[1] if c & 1 else ins.a[2]) in blocks
                if ins.op not in ('load', 'icmp', 'sext', 'zext', 'trunc', 'and', 'sub', 'add', 'xor'):
                    raise Unsupported('loop condition')
                v = self.step(ins.op, ins, e)
                if ins.dest is not None:
                    e[ins.dest] = v
            raise Unsupported('loop condition')
        n = 0
        if cond(0):
            ne = [ins for ins in hb if ins.op == 'icmp' and ins.a[0] in ('ne', 'eq')]
            lo, hi = 0, 1
            if ne:
                while hi < 1 << 22 and cond(hi):
                    hi += 1
                n = hi
            else:
                while hi < 1 << 24 and cond(hi):
                    lo, hi = hi, hi * 2
                while hi - lo > 1:
                    m = (lo + hi) // 2
                    if cond(m):
                        lo = m
                    else:
                        hi = m
                n = hi
            if n >= 1 << 22:
                raise Unsupported('loop bound')
        p.obj.store(p.off, ty.size, v0)
        if n <= 2:
            return
        l = Loop()
        l.F, l.head, l.blocks, l.var, l.size, l.v0, l.step, l.n = F, head, blocks, p, (ty.size, w), v0, step, n
        inner = any(h != head and h in blocks for h in L)
        l.cur = 0
        l.again = [] if self.emit or inner or self.active or self.point is not None else ['b']
        l.name = 'i%d' % len(self.active) if self.emit else 'ab'[min(1, len(self.active))]
        self.active.append(l)
        self.set_var(l)

    def step_of(self, F, blocks, st, r, w):
        v = st.a[0]
        defs = {}
        for b in blocks:
            for ins in F.blocks[b]:
                if ins.dest is not None:
                    defs[ins.dest] = ins
        trunc = False
        while v[0] == 'r' and v[1] in defs and defs[v[1]].op == 'trunc':
            v = defs[v[1]].a[0]
        if v[0] == 'r' and v[1] in defs and defs[v[1]].op in ('add', 'sub'):
            i = defs[v[1]]
            x, y = i.a[0], i.a[1]
            while x[0] == 'r' and x[1] in defs and defs[x[1]].op in ('sext', 'zext'):
                x = defs[x[1]].a[0]
            if y[0] == 'c' and x[0] == 'r' and x[1] in defs and defs[x[1]].op == 'load' and defs[x[1]].a[0] == ('r', r):
                s = sgn(y[1], i.ty.n)
                return s if i.op == 'add' else -s
        raise Unsupported('loop step')

    bind = None

    def bit(self, nm, i):
        if self.bind and (nm, i) in self.bind:
            return self.bind[nm, i]
        return dom.inbit(nm, i)

    def set_var(self, l):
        n, w = l.n, l.size[1]
        k = (n - 1).bit_length()
        v0 = sgn(l.v0, w)
        bits = [self.bit(l.name, i) for i in range(k)]
        lo = min(v0, v0 + l.step * (n - 1))
        if abs(l.step) == 1 and n == 1 << k and lo in (0, -(n >> 1)):
            x = mk(k, bits) if w <= k else dom.sext(mk(k, bits), k, w) if lo else mk(w, bits + [0] * (w - k))
        else:
            x = mk(w, bits + [0] * (w - k))
            if n != 1 << k:
                if self.bind:
                    raise Unsupported('bound loop variable')
                if type(x) is int:
                    if x >= n:
                        raise dom.Infeasible()
                else:
                    lit = dom.ult(x, n, w)
                    if lit >= 2:
                        raise dom.Fork(lit)
                    if lit == 0:
                        raise dom.Infeasible()
            x = dom.add(dom.mul(x, l.step & mask(w), w), l.v0, w)
        l.var.obj.store(l.var.off, l.size[0], x if l.size[0] * 8 == w else dom.zext(x, w, l.size[0] * 8))

    def end_iteration(self, l, env):
        if l.again:
            l.name = l.again.pop()
            self.set_var(l)
            return
        self.active.pop()
        for b in l.blocks:
            for ins in l.F.blocks[b]:
                if ins.op == 'store' and ins.a[1][0] == 'r':
                    p = env.get(ins.a[1][1])
                    if isinstance(p, Ptr) and p.obj is not None and p.obj is not l.var.obj and not p.obj.isglobal and p.obj.size < TABLE:
                        p.obj.cells.clear()
        l.var.obj.store(l.var.off, l.size[0], (l.v0 + l.step * l.n) & mask(l.size[1]))
        self.events_text.append(('loop', l.n))

    # ---------------------------------------------------------------- float operations of open operands are not interpreted
    def fp2(self, op, ins, env):
        x = self.operand(ins.a[0], env, ins)
        y = self.operand(ins.a[1], env, ins)
        n = ins.ty.n
        if type(x) is int and type(y) is int:
            return Machine.fp2(self, op, ins, env)
        self.undef_use(x, y, ins)
        if op in ('fadd', 'fmul'):
            x, y = sorted((x, y), key=lambda v: repr(dom.trim(bits_of(v, n))))
        return self.fpatom(op, n, (x, n), (y, n))

    def x_fcmp(self, ins, env):
        pred, x, y = ins.a
        x = self.operand(x, env, ins)
        y = self.operand(y, env, ins)
        if type(x) is int and type(y) is int:
            return Machine.x_fcmp(self, ins, env)
        self.undef_use(x, y, ins)
        n = ins.ty.n
        inv = 0
        # each relation and its complement: equality, order, the unordered ones
        flip = {'une': 'oeq', 'ult': 'oge', 'ule': 'ogt', 'ugt': 'ole', 'uge': 'olt', 'uno': 'ord', 'one': 'ueq'}
        if pred in flip:
            pred, inv = flip[pred], 1
        if pred in ('ogt', 'oge'):
            pred, x, y = {'ogt': 'olt', 'oge': 'ole'}[pred], y, x
        if pred in ('oeq', 'ord', 'ueq'):
            x, y = sorted((x, y), key=lambda v: repr(dom.trim(bits_of(v, n))))
        r = self.fpatom('fcmp ' + pred, 1, (x, n), (y, n))
        return dom.xor_(r, inv, 1) if inv else r

    def fpcast(self, ins, env):
        x = self.operand(ins.a[0], env, ins)
        if type(x) is int:
            return Machine.fpcast(self, ins, env)
        self.undef_use(x, 0, ins)
        return self.fpatom(ins.op, ins.a[2].n, (x, ins.a[1].n))

    x_fptrunc = x_fpext = x_fptosi = x_fptoui = x_sitofp = x_uitofp = fpcast

    # ---------------------------------------------------------------- tables
    def emitting(self):
        """inside a loop that writes text"""
        for l in self.active:
            t = self._text.get((l.F.name, l.head))
            if t is None:
                t = False
                for b in l.blocks:
                    for ins in l.F.blocks[b]:
                        if ins.op in ('call', 'invoke'):
                            if not ins.dec:
                                ins.decode()
                            c = ins.a[0]
                            if c[0] == 'g' and re.match(r'@(_ZNSo|_ZStls)', c[1]):
                                t = True
                self._text[l.F.name, l.head] = t
            if t:
                return True
        return False

    def zero(self, o, off, ty):
        if ty.size > 4096 and off == 0:
            self.allzero.add(o)
            return
        Machine.zero(self, o, off, ty)

    def is_table(self, o):
        return o is not None and o.size >= TABLE and not o.const and (o.isglobal or o.name.startswith('%'))

    def mstore(self, p, ty, v, ins):
        if not self.plain and isinstance(p, Ptr) and self.is_table(p.obj) and ty.k in ('i', 'f') and (self.active or type(p.off) is int):
            self.recs.append(Rec(p.obj, p.off, ty.size, v, ins, tuple(l.name for l in self.active), tuple(l.n for l in self.active)))
            if self.active:
                self.check_bounds(p, ty, ins, 'write')
                return
        return Machine.mstore(self, p, ty, v, ins)

    def check_bounds(self, p, ty, ins, what):
        lo, hi = dom.srange(p.off, 64)
        if hi < 0 or lo + ty.size > p.obj.size:
            self.ub('out-of-bounds-' + what, ins, p.obj.name)
        if lo < 0 or hi + ty.size > p.obj.size:
            self.event('out-of-bounds-' + what, False, ins, p.obj.name)

    def mload(self, p, ty, ins):
        if isinstance(p, Ptr) and p.obj is not None and ty.k in ('i', 'f'):
            o = p.obj
            if self.is_table(o) and any(r.obj is o and r.names for r in self.recs):
                if self.emit:
                    return self.atom(o, p.off, ty)
                return self.entry(o, p.off, ty, ins)
            if o.size > 4096 and o in self.allzero:
                return 0
            if o.opaque and o.isglobal and o.size == 0:
                t = self.tables.get(o.name)
                if t is None:
                    self.unresolved.append('table %s is not emitted' % o.name)
                    return Machine.mload(self, p, ty, ins)
                return self.external(o, t, p.off, ty, ins)
        return Machine.mload(self, p, ty, ins)

    def atom(self, o, off, ty):
        key = ('load', o.name, ty.n, ('BITS', dom.trim(bits_of(off & mask(64) if type(off) is int else off, 64))))
        return mk(ty.n, dom.opword(key, ty.n))

    def external(self, o, t, off, ty, ins):
        """element of an emitted table"""
        arr, cnt, esz, gsz = t
        lo, hi = dom.srange(off, 64)
        self.extern_calls.append(('load', o.name, off, ty.size, self.loc(ins), cnt * esz))
        if hi < 0 or lo + ty.size > cnt * esz:
            self.ub('out-of-bounds-read', ins, '%s: element %s of %d' % (o.name, off, cnt))
        if lo < 0 or hi + ty.size > cnt * esz:
            self.event('out-of-bounds-read', False, ins, '%s: up to byte %d of %d' % (o.name, hi + ty.size, cnt * esz))
        if ty.size != esz or gsz != esz:
            raise Unsupported('element sizes %s differ' % o.name)
        for a in [r.obj for r in self.recs]:
            if a.name == arr:
                return self.entry(a, off, ty, ins)
        self.unresolved.append('array of %s not filled' % o.name)
        return self.atom(o, off, ty)

    def entry(self, arr, off, ty, ins):
        """value stored by the generator at that place: the store whose place is the same for the same operands"""
        if self.point is not None:
            return self.point(arr, off, ty)
        ob = dom.trim(bits_of(off & mask(64) if type(off) is int else off, 64))
        others = None
        for r in reversed(self.recs):
            if r.obj is not arr:
                continue
            if others is not None and r.ins is not others:
                break
            others = r.ins
            rb = dom.trim(bits_of(r.off & mask(64) if type(r.off) is int else r.off, 64))
            if rb == ob and r.n == ty.size and injective(rb, r.names):
                v = r.val
                return v if r.n * 8 == ty.n else dom.trunc(v, r.n * 8, ty.n)
        v = self.rerun(arr, ob, ty)
        if v is not None:
            return v
        self.unresolved.append('element of %s' % arr.name)
        return self.atom(arr, off, ty)

    def rerun(self, arr, ob, ty):
        """the iteration that stores the element at that place: its loop variables are found from the place, and the generator is interpreted for them"""
        main = self.main
        if main is None or self.bind or not self.plain:
            return None
        others = None
        for r in reversed(self.recs):
            if r.obj is not arr:
                continue
            if others is not None and r.ins is not others:
                break
            others = r.ins
            rb = dom.trim(bits_of(r.off & mask(64) if type(r.off) is int else r.off, 64))
            if r.n != ty.size or not injective(rb, r.names):
                continue
            bind = {}
            for i in range(max(len(rb), len(ob))):
                x = rb[i] if i < len(rb) else 0
                y = ob[i] if i < len(ob) else 0
                if x < 2:
                    if y != x:
                        break
                else:
                    d = dom.VARS[x >> 1]
                    y ^= x & 1
                    if bind.setdefault((d[1], d[2]), y) != y:
                        break
            else:
                M = GenMachine(self.mod, self.genfile)
                M.reset()
                M.opaque = self.opaque
                M.bind = bind
                try:
                    M.call(main[0], list(main[1]))
                except Unsupported:
                    return None
                for q in reversed(M.recs):
                    if q.obj.name == arr.name and q.ins is r.ins and dom.trim(bits_of(q.off & mask(64) if type(q.off) is int else q.off, 64)) == ob:
                        return q.val if q.n * 8 == ty.n else dom.trunc(q.val, q.n * 8, ty.n)
        return None

    main = None


def injective(rb, names):
    """the place is made of the operands' own bits, each of them present"""
    seen = set()
    for l in rb:
        if l < 2:
            continue
        v = dom.VARS[l >> 1]
        if v[0] != 'in':
            return False
        seen.add((v[1], v[2]))
    for n in names:
        k = sorted(i for m, i in seen if m == n)
        if k != list(range(len(k))) or not k:
            return False
    return True


class Ext(dict):
    """effects of the standard library on the generator's output"""
    def __init__(self, M):
        self.M = M

    def get(self, name, d=None):
        if 'basic_ofstream' in name and ('C1' in name or 'C2' in name or 'D1' in name or 'D2' in name or 'open' in name or 'close' in name):
            return lambda M, ins, a, v: None
        m = re.match(r'@_ZNSolsE([a-z])$', name)
        if m:
            k = m.group(1)
            return lambda M, ins, a, v: self.add('num', (k, v[1]), v)
        if re.match(r'@_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PK[cah]$', name):
            return lambda M, ins, a, v: self.add('text', text(v[1]), v)
        if re.match(r'@_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_[cah]$', name):
            return lambda M, ins, a, v: self.add('text', chr(v[1]) if type(v[1]) is int else '?', v)
        if name == '@_ZNSolsEPFRSoS_E':
            return lambda M, ins, a, v: self.add('text', '\n', v)
        if name in ('@_ZNKSt9type_info4nameEv',):
            return lambda M, ins, a, v: Ptr(Obj('name', 1), 0)
        m = re.match(r'@(exp2f?|_ZSt4exp2[fe]?|exp|expf|log2|log2f|sqrtf?)$', name)
        if m:
            return lambda M, ins, a, v: self.fun(m.group(1), ins, a, v)
        if re.match(r'@_ZNS.*(basic_string|allocator)', name):
            return None
        return None

    def add(self, kind, val, v):
        self.M.events_text.append((kind, val))
        return v[0]

    def fun(self, f, ins, a, v):
        n = ins.ty.n
        f = f.replace('_ZSt4', '').rstrip('fe') if not f.startswith('exp') else f.rstrip('f')
        x = v[0]
        if type(x) is int:
            r = exp2_point(x, n)
            if r is not None and f == 'exp2':
                return r
        return self.M.fpatom(f, n, (x, n))


def exp2_point(x, n):
    import struct
    import math
    v = struct.unpack('<f' if n == 32 else '<d', struct.pack('<I' if n == 32 else '<Q', x))[0]
    try:
        r = math.exp2(v) if not math.isinf(v) and not math.isnan(v) else (v if v != -math.inf else 0.0)
        b = struct.pack('<f' if n == 32 else '<d', r)
    except OverflowError:
        b = struct.pack('<f' if n == 32 else '<d', math.inf)
    return struct.unpack('<I' if n == 32 else '<Q', b)[0]


def text(p):
    if not isinstance(p, Ptr) or p.obj is None:
        return '?'
    s = ''
    o = p.off
    while True:
        b = p.obj.load(o, 1)
        if type(b) is not int:
            return s + '?'
        if b == 0:
            return s
        s += chr(b)
        o += 1
        if len(s) > 4000:
            return s


DECL = re.compile(r'(u?int\d+_t|char|short|int|unsigned|signed char|unsigned char)\s+(\w+)\s*\[\s*\w*\s*\]\s*=\s*\{\s*$')
SIZES = {'char': 1, 'signed char': 1, 'unsigned char': 1, 'short': 2, 'int': 4, 'unsigned': 4}


def emitted(M):
    """tables described by the emitted text: {qualified name: (array, element count, element size, element size in the generator)}"""
    out = {}
    ns = ''
    buf = ''
    ev = M.events_text
    i = 0
    pend = []           # events since the last text that opened a table
    decl = None
    body = []
    for k, v in ev:
        if k == 'text' and not (decl and body):
            buf += v
            m = re.search(r'namespace\s+(\w+)\s*\{', buf)
            if m:
                ns = m.group(1) + '::'
            d = DECL.search(buf)
            if d:
                decl, body, buf = d, [], ''
            elif decl:
                body.append((k, v))
        elif k == 'loop':
            if decl:
                nums = [x for kk, x in body if kk == 'num']
                seps = ''.join(x for kk, x in body if kk == 'text')
                if len(nums) == 1 and seps.strip() == ',':
                    out[ns + decl.group(2)] = (nums[0], v, decl.group(1))
            decl, body, buf = None, [], ''
        else:
            if decl:
                body.append((k, v))
    return out
