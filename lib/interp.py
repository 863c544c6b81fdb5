"""Interprocedural abstract interpreter over the parsed IR.

Every instruction is a transfer function of the domain in dom.py.  A branch
whose condition is not determined by the facts of the current partition raises
Fork; the driver (analyse) splits the partition on that condition and analyses
both halves, so each analysed trace covers all concrete executions of its cell.
"""
import dom
import fp
from dom import (BV, mk, bits_of, mask, sgn, Fork, Infeasible, UNDEF)
from ir import Module


class Unsupported(Exception):
    pass


class UBStop(Exception):
    pass


class Ptr:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off):
        self.obj, self.off = obj, off

    def __repr__(self):
        return 'Ptr(%s+%s)' % (self.obj.name if self.obj else None, self.off)


class FnPtr:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name


class Obj:
    __slots__ = ('name', 'size', 'cells', 'own', 'const', 'opaque', 'init', 'alive', 'isglobal')

    def __init__(self, name, size, undef=True):
        self.name, self.size = name, size
        self.cells = {}
        self.own = None
        self.const = False
        self.opaque = False   # contents unknown (external table)
        self.alive = True
        self.isglobal = False

    # cells: off -> (nbytes, value)
    def store(self, off, n, val):
        c = self.cells.get(off)
        if c is not None and c[0] == n:
            self.cells[off] = (n, val)
            return
        self._clear(off, n)
        self.cells[off] = (n, val)

    def _clear(self, off, n):
        end = off + n
        for o in [o for o, c in self.cells.items() if o < end and o + c[0] > off]:
            cn, cv = self.cells.pop(o)
            if o >= off and o + cn <= end:
                continue
            # partial overlap: split into bytes
            if isinstance(cv, (Ptr, FnPtr)):
                raise Unsupported('partial overwrite of pointer')
            cb = bits_of(cv, cn * 8)
            for k in range(cn):
                a = o + k
                if not (off <= a < end):
                    self.cells[a] = (1, mk(8, cb[8 * k:8 * k + 8]))

    def load(self, off, n):
        c = self.cells.get(off)
        if c is not None and c[0] == n:
            return c[1]
        out = [UNDEF] * (8 * n)
        end = off + n
        for o, (cn, cv) in self.cells.items():
            if o < end and o + cn > off:
                if isinstance(cv, (Ptr, FnPtr)):
                    raise Unsupported('partial read of pointer')
                cb = bits_of(cv, cn * 8)
                for k in range(cn):
                    a = o + k
                    if off <= a < end:
                        p = 8 * (a - off)
                        out[p:p + 8] = cb[8 * k:8 * k + 8]
        return mk(8 * n, out)

    def copy_to(self, off, n, dst, doff):
        end = off + n
        moved = []
        for o, (cn, cv) in list(self.cells.items()):
            if o < end and o + cn > off:
                if o >= off and o + cn <= end:
                    moved.append((o - off, cn, cv))
                else:
                    if isinstance(cv, (Ptr, FnPtr)):
                        raise Unsupported('partial copy of pointer')
                    cb = bits_of(cv, cn * 8)
                    for k in range(cn):
                        a = o + k
                        if off <= a < end:
                            moved.append((a - off, 1, mk(8, cb[8 * k:8 * k + 8])))
        dst._clear(doff, n)
        for o, cn, cv in moved:
            dst.cells[doff + o] = (cn, cv)


class Event:
    __slots__ = ('kind', 'definite', 'file', 'line', 'func', 'detail')

    def __init__(self, kind, definite, file, line, func, detail=''):
        self.kind, self.definite, self.file, self.line, self.func, self.detail = kind, definite, file, line, func, detail

    def __str__(self):
        d = self.detail if self.detail.__class__ is str else ''
        return '%s at %s:%s in %s%s' % (self.kind, self.file, self.line, self.func, (' (' + d + ')') if d else '')


CONCRETE = object()


class Machine:
    def __init__(self, mod, budget=400000):
        self.mod = mod
        self.budget = budget
        self.reset()
        self.seen_funcs = set()
        self.externals = {}
        self.extern_calls = []
        self.visited = {}       # (file,line) -> count: statements analysed

    opaque = None           # pattern of functions replaced by an uninterpreted function of their arguments

    opaque_open = False     # only when an argument is not a constant

    def opaque_call(self, name, F, args):
        """congruence: same function, same argument contents => same result"""
        key = ['opq', name]
        out = None
        for k, ((ty, pn, pat), v) in enumerate(zip(F.params, args)):
            n = None
            for a in pat:
                if isinstance(a, tuple) and a[0] == 'dereferenceable':
                    n = a[1]
                elif isinstance(a, tuple) and a[0] == 'sret':
                    out = (v, a[1].size)
                elif isinstance(a, tuple) and a[0] == 'byval':
                    n = a[1].size
            if out is not None and k == 0:
                continue
            if ty.k == 'ptr':
                if k == 0 and F.rty.k == 'void' and 'C2E' in name:
                    out = (v, n)
                    continue
                if n is None or v.obj is None or type(v.off) is not int:
                    raise Unsupported('opaque argument')
                b = bits_of(v.obj.load(v.off, n), 8 * n)
            elif ty.k in ('i', 'f'):
                b = bits_of(v, ty.n)
            else:
                raise Unsupported('opaque argument')
            key.append(('BITS', dom.trim(tuple(x if x != UNDEF else 0 for x in b))))
        key = tuple(key)
        if self.opaque_open and all(l in (0, 1) for k in key[2:] for l in k[1]):
            return CONCRETE

        def fresh(ty, path):
            if ty.k in ('i', 'f'):
                return mk(ty.n, dom.opword(key + path, ty.n))
            if ty.k == 'struct':
                return [fresh(f, path + (j,)) for j, f in enumerate(ty.fields)]
            if ty.k in ('arr', 'vec'):
                return [fresh(ty.el, path + (j,)) for j in range(ty.n)]
            raise Unsupported('opaque result')
        self.seen_funcs.add(name)
        if F.rty.k == 'ptr':
            # a member that rewrites its object and returns it
            if not (F.params and F.params[0][0].k == 'ptr' and 'xfloati' in name):
                raise Unsupported('opaque result')
            n = [a[1] for a in F.params[0][2] if isinstance(a, tuple) and a[0] == 'dereferenceable'][0]
            out = (args[0], n)
        if out is not None:
            p, n = out
            for j in range(n):
                p.obj.store(p.off + j, 1, mk(8, dom.opword(key + ('o', j), 8)))
            return args[0] if F.rty.k == 'ptr' else None
        return fresh(F.rty, ()) if F.rty.k != 'void' else None

    def reset(self):
        self.steps = 0
        self.events = []
        self.stack = []
        self.globs = {}
        self.extern_calls = []
        self.gstores = []

    # ------------------------------------------------------------ helpers
    def loc(self, ins):
        if ins is not None and ins.dbg:
            f, l = self.mod.dbgloc(ins.dbg)
            return f, l
        return '?', 0

    def event(self, kind, definite, ins, detail=''):
        f, l = self.loc(ins)
        fn = self.stack[-1] if self.stack else '?'
        self.events.append(Event(kind, definite, f, l, fn, detail))

    def ub(self, kind, ins, detail=''):
        self.event(kind, True, ins, detail)
        raise UBStop(kind)

    def global_obj(self, name):
        o = self.globs.get(name)
        if o is None:
            raw = self.mod._raw_globals.get(name)
            if raw is None:
                if self.mod.has(name) or name in self.mod.decls:
                    return FnPtr(name)
                raise Unsupported('global ' + name)
            o = self.init_global(name, raw)
            self.globs[name] = o
        return o

    def init_global(self, name, raw):
        from ir import tokenize, Instr
        T = tokenize(raw)
        i = 0
        ext = False
        const = False
        while T[i] not in ('global', 'constant'):
            if T[i] in ('external', 'extern_weak'):
                ext = True
            if T[i] in ('thread_local', 'addrspace') and T[i + 1] == '(':
                while T[i] != ')':
                    i += 1
            i += 1
        const = T[i] == 'constant'
        ty, i = self.mod.parse_type(T, i + 1)
        o = Obj(name, ty.size)
        o.const = const
        o.isglobal = True
        if ext or i >= len(T) or T[i] == ',':
            o.opaque = True
            return o
        ins = Instr(self.mod, raw)
        v, i = ins.val(T, i, ty)
        self.globs[name] = o
        self.write_init(o, 0, ty, v)
        return o

    def write_init(self, o, off, ty, v):
        k = v[0]
        if k == 'z':
            self.zero(o, off, ty)
        elif k == 'c':
            n = ty.size
            o.cells[off] = (n, v[1])
        elif k == 'agg':
            for j, (t, x) in enumerate(v[2]):
                if ty.k == 'struct':
                    self.write_init(o, off + ty.offs[j], t, x)
                else:
                    self.write_init(o, off + j * ty.el.size, t, x)
        elif k == 'str':
            s = v[1]
            j = 0
            p = off
            while j < len(s):
                if s[j] == '\\':
                    if s[j + 1] == '\\':
                        b = 92; j += 2
                    else:
                        b = int(s[j + 1:j + 3], 16); j += 3
                else:
                    b = ord(s[j]); j += 1
                o.cells[p] = (1, b)
                p += 1
        elif k == 'u':
            pass
        elif k in ('g', 'gep', 'n', 'cast'):
            try:
                o.cells[off] = (8, self.operand(v, {}, None))
            except Unsupported:
                pass
        else:
            raise Unsupported('init ' + k)

    def zero(self, o, off, ty):
        if ty.k == 'struct':
            for f, fo in zip(ty.fields, ty.offs):
                self.zero(o, off + fo, f)
        elif ty.k in ('arr', 'vec'):
            for j in range(ty.n):
                self.zero(o, off + j * ty.el.size, ty.el)
        elif ty.k == 'ptr':
            o.cells[off] = (8, Ptr(None, 0))
        else:
            o.cells[off] = (ty.size, 0)

    def operand(self, v, env, ins):
        k = v[0]
        if k == 'r':
            return env[v[1]]
        if k == 'c':
            return v[1]
        if k == 'g':
            nm = self.mod.aliases.get(v[1], v[1])
            if self.mod.has(nm) or nm in self.mod.decls:
                return FnPtr(nm)
            return Ptr(self.global_obj(nm), 0)
        if k == 'n':
            return Ptr(None, 0)
        if k == 'u':
            return self.undef(v[1])
        if k == 'z':
            return self.zeroval(v[1])
        if k == 'gep':
            return self.gep(v[1], self.operand(v[2], env, ins), [(t, self.operand(x, env, ins)) for t, x in v[3]])
        if k == 'agg':
            return [self.operand(x, env, ins) for t, x in v[2]]
        raise Unsupported('operand ' + k)

    def undef(self, ty):
        if ty.k in ('i', 'f'):
            return BV(ty.n, (UNDEF,) * ty.n)
        if ty.k == 'ptr':
            return Ptr(None, 0)
        if ty.k == 'struct':
            return [self.undef(f) for f in ty.fields]
        if ty.k in ('arr', 'vec'):
            return [self.undef(ty.el) for _ in range(ty.n)]
        raise Unsupported('undef')

    def zeroval(self, ty):
        if ty.k in ('i', 'f'):
            return 0
        if ty.k == 'ptr':
            return Ptr(None, 0)
        if ty.k == 'struct':
            return [self.zeroval(f) for f in ty.fields]
        return [self.zeroval(ty.el) for _ in range(ty.n)]

    def gep(self, ty, base, idx):
        if not isinstance(base, Ptr):
            raise Unsupported('gep on non pointer')
        off = base.off
        t = ty
        for j, (it, iv) in enumerate(idx):
            if j == 0:
                sz = t.size
            else:
                if t.k == 'struct':
                    off = self.addoff(off, t.offs[iv], 1, 32)
                    t = t.fields[iv]
                    continue
                t = t.el
                sz = t.size
            off = self.addoff(off, iv, sz, it.n)
        return Ptr(base.obj, off)

    def addoff(self, off, iv, sz, w):
        if type(iv) is int:
            d = sgn(iv, w) * sz
            if type(off) is int:
                return sgn((off + d) & mask(64), 64)
            return dom.add(off, d & mask(64), 64)
        iv = dom.sext(iv, w, 64) if w < 64 else iv
        return dom.add(off & mask(64) if type(off) is int else off, dom.mul(iv, sz, 64), 64)

    # ------------------------------------------------------------ memory
    def mload(self, p, ty, ins):
        if not isinstance(p, Ptr):
            raise Unsupported('load via non pointer')
        if p.obj is None:
            self.ub('null-dereference', ins)
        if not p.obj.alive:
            self.ub('use-after-scope', ins)
        n = ty.size
        if type(p.off) is not int:
            return self.symload(p, ty, ins)
        if p.off < 0 or p.off + n > p.obj.size:
            if not (p.obj.opaque and p.obj.size == 0):
                self.ub('out-of-bounds-read', ins, '%s[%d..%d) of %d bytes' % (p.obj.name, p.off, p.off + n, p.obj.size))
        if p.obj.opaque:
            return self.symload(p, ty, ins)
        return self.rawload(p.obj, p.off, ty, ins)

    def rawload(self, obj, off, ty, ins):
        if ty.k == 'ptr':
            v = obj.load(off, 8)
            if isinstance(v, (Ptr, FnPtr)):
                return v
            if v == 0:
                return Ptr(None, 0)
            if dom.has_undef(v):
                self.ub('uninitialised-pointer', ins)
            raise Unsupported('load ptr of data')
        if ty.k in ('i', 'f'):
            v = obj.load(off, ty.size)
            if isinstance(v, (Ptr, FnPtr)):
                raise Unsupported('load data of ptr')
            if ty.size * 8 != ty.n:
                v = dom.trunc(v, ty.size * 8, ty.n)
            return v
        if ty.k == 'struct':
            return [self.rawload(obj, off + o, f, ins) for f, o in zip(ty.fields, ty.offs)]
        if ty.k in ('arr', 'vec'):
            return [self.rawload(obj, off + j * ty.el.size, ty.el, ins) for j in range(ty.n)]
        raise Unsupported('load type')

    def symload(self, p, ty, ins):
        if ty.k not in ('i', 'f'):
            raise Unsupported('symbolic load of ' + ty.k)
        off = p.off
        lo, hi = dom.srange(off, 64)
        if not p.obj.opaque:
            if hi < 0 or lo + ty.size > p.obj.size:
                self.ub('out-of-bounds-read', ins, p.obj.name)
            if lo < 0 or hi + ty.size > p.obj.size:
                self.event('out-of-bounds-read', False, ins, '%s offset in [%d,%d] size %d' % (p.obj.name, lo, hi, p.obj.size))
        self.extern_calls.append(('load', p.obj.name, off, ty.size, self.loc(ins)))
        ob = bits_of(off & mask(64) if type(off) is int else off, 64)
        key = ('load', p.obj.name, ty.n, ('BITS', dom.trim(ob)))
        return mk(ty.n, dom.opword(key, ty.n))

    def mstore(self, p, ty, v, ins):
        if not isinstance(p, Ptr):
            raise Unsupported('store via non pointer')
        if p.obj is None:
            self.ub('null-dereference', ins)
        if not p.obj.alive:
            self.ub('use-after-scope', ins)
        if p.obj.isglobal:
            self.gstores.append((p.obj.name, p.off, v, self.loc(ins)))
        if type(p.off) is not int:
            raise Unsupported('symbolic store to ' + p.obj.name)
        if p.off < 0 or p.off + ty.size > p.obj.size:
            self.ub('out-of-bounds-write', ins, '%s[%d] of %d bytes' % (p.obj.name, p.off, p.obj.size))
        self.rawstore(p.obj, p.off, ty, v)

    def rawstore(self, obj, off, ty, v):
        if ty.k == 'ptr':
            obj.store(off, 8, v)
        elif ty.k in ('i', 'f'):
            n = ty.size
            if n * 8 != ty.n:
                v = dom.zext(v, ty.n, n * 8)
            obj.store(off, n, v)
        elif ty.k == 'struct':
            for f, o, x in zip(ty.fields, ty.offs, v):
                self.rawstore(obj, off + o, f, x)
        elif ty.k in ('arr', 'vec'):
            for j, x in enumerate(v):
                self.rawstore(obj, off + j * ty.el.size, ty.el, x)
        else:
            raise Unsupported('store type')

    # ------------------------------------------------------------ calls
    def call(self, name, args):
        F = self.mod.func(name)
        if F is None:
            raise Unsupported('external ' + name)
        if len(self.stack) > 60:
            raise Unsupported('call depth')
        if self.opaque is not None and self.opaque.match(name):
            r = self.opaque_call(name, F, args)
            if r is not CONCRETE:
                return r
        self.seen_funcs.add(name)
        self.stack.append(F.dbg[0] if F.dbg else name)
        env = {}
        for (ty, pn, pat), v in zip(F.params, args):
            for a in pat:
                if isinstance(a, tuple) and a[0] == 'byval':
                    o = Obj('byval', a[1].size)
                    v.obj.copy_to(v.off, a[1].size, o, 0)
                    v = Ptr(o, 0)
            env[pn] = v
        prev = None
        lab = F.entry
        blocks = F.blocks
        locs = []
        r = None
        while True:
            blk = blocks[lab]
            nxt = None
            # phis read simultaneously
            cur = lab if lab is not None else F.entry_label
            i = 0
            nb = len(blk)
            if nb and (blk[0].op == 'phi' or (not blk[0].dec and ' = phi ' in blk[0].raw)):
                vals = []
                while i < nb:
                    ins = blk[i]
                    if not ins.dec:
                        ins.decode()
                    if ins.op != 'phi':
                        break
                    for v, l in ins.a[0]:
                        if l == prev:
                            vals.append((ins.dest, self.operand(v, env, ins)))
                            break
                    else:
                        raise Unsupported('phi edge')
                    i += 1
                for d, v in vals:
                    env[d] = v
            while i < nb:
                ins = blk[i]
                i += 1
                if not ins.dec:
                    ins.decode()
                op = ins.op
                self.steps += 1
                if op == 'br':
                    c = ins.a[0]
                    if c is None:
                        nxt = ins.a[1]
                    else:
                        cv = self.operand(c, env, ins)
                        b = self.truth(cv, ins)
                        nxt = ins.a[1] if b else ins.a[2]
                    break
                if op == 'ret':
                    if ins.a[0] is not None:
                        r = self.operand(ins.a[1], env, ins)
                    for o in locs:
                        o.alive = False
                    self.stack.pop()
                    return r
                if op == 'switch':
                    v = self.operand(ins.a[0], env, ins)
                    w = ins.ty.n
                    if dom.has_undef(v):
                        self.ub('branch-on-uninitialised', ins)
                    nxt = ins.a[1]
                    for c, l in ins.a[2]:
                        lit = dom.eq(v, c, w)
                        if lit >= 2:
                            raise Fork(lit)
                        if lit:
                            nxt = l
                            break
                    break
                if op == 'unreachable':
                    self.ub('unreachable-reached', ins)
                if op == 'alloca':
                    n = self.operand(ins.a[0], env, ins) if ins.a[0] != 1 else 1
                    o = Obj(ins.dest, ins.ty.size * n)
                    locs.append(o)
                    env[ins.dest] = Ptr(o, 0)
                    continue
                if op == 'invoke':
                    v = self.do_call(ins, env)
                    if ins.dest:
                        env[ins.dest] = v
                    nxt = ins.a[2]
                    break
                v = self.step(op, ins, env)
                if ins.dest is not None:
                    env[ins.dest] = v
            if self.steps > self.budget:
                raise dom.TooDeep()
            if nxt is None:
                raise Unsupported('no terminator')
            prev = cur
            lab = nxt
            if self.hook is not None:
                self.hook(F, cur, nxt, env)

    hook = None             # called on every edge of the control flow

    def truth(self, cv, ins):
        if type(cv) is int:
            return cv & 1
        l = cv.bits[0]
        if l == UNDEF:
            self.ub('branch-on-uninitialised', ins)
        if l >= 2:
            raise Fork(l)
        return l

    def concrete(self, v, w):
        """force a constant by splitting the partition on the unknown bits"""
        if type(v) is int:
            return v
        for l in reversed(v.bits):
            if l >= 2:
                raise Fork(l)
        return v

    def step(self, op, ins, env):
        a = ins.a
        if op == 'load':
            return self.mload(self.operand(a[0], env, ins), ins.ty, ins)
        if op == 'store':
            self.mstore(self.operand(a[1], env, ins), ins.ty, self.operand(a[0], env, ins), ins)
            return None
        if op == 'getelementptr':
            return self.gep(ins.ty, self.operand(a[0], env, ins), [(t, self.operand(x, env, ins)) for t, x in a[1]])
        if op == 'call':
            return self.do_call(ins, env)
        f = getattr(self, 'x_' + op, None)
        if f is not None:
            return f(ins, env)
        if op in BIN:
            x = self.operand(a[0], env, ins)
            y = self.operand(a[1], env, ins)
            return self.binop(op, x, y, ins)
        if op == 'unsupported':
            raise Unsupported('instruction ' + a[0])
        raise Unsupported('instruction ' + op)

    def undef_use(self, x, y, ins):
        if dom.has_undef(x) or dom.has_undef(y):
            self.ub('uninitialised-read', ins)

    def binop(self, op, x, y, ins):
        if ins.ty.k != 'i':
            raise Unsupported('vector op')
        w = ins.ty.n
        if (type(x) is BV and UNDEF in x.bits) or (type(y) is BV and UNDEF in y.bits):
            self.ub('uninitialised-read', ins)
        if op == 'add' or op == 'sub' or op == 'mul':
            if 'nsw' in ins.flags:
                a0, a1 = dom.srange(x, w)
                b0, b1 = dom.srange(y, w)
                if op == 'add':
                    lo, hi = a0 + b0, a1 + b1
                elif op == 'sub':
                    lo, hi = a0 - b1, a1 - b0
                else:
                    ps = (a0 * b0, a0 * b1, a1 * b0, a1 * b1)
                    lo, hi = min(ps), max(ps)
                h = 1 << (w - 1)
                if lo >= h or hi < -h:
                    self.event('signed-overflow', True, ins)
                elif lo < -h or hi >= h:
                    ok = False
                    if op != 'mul':
                        l = dom.lin_add(dom.to_lin(x, w), dom.to_lin(y, w), w + 4, 1 if op == 'add' else -1)
                        r = dom.lin_range(l)
                        lx, ly = dom.lin_range(dom.to_lin(x, w)), dom.lin_range(dom.to_lin(y, w))
                        if lx[0] >= -h and lx[1] < h and ly[0] >= -h and ly[1] < h and r[0] >= -h and r[1] < h:
                            ok = True
                    if not ok:
                        self.event('signed-overflow', False, ins, (op, x, y, w))
            return {'add': dom.add, 'sub': dom.sub, 'mul': dom.mul}[op](x, y, w)
        if op == 'and':
            return dom.and_(x, y, w)
        if op == 'or':
            return dom.or_(x, y, w)
        if op == 'xor':
            return dom.xor_(x, y, w)
        if op in ('shl', 'lshr', 'ashr'):
            if type(y) is not int:
                lo, hi = dom.urange(y, w)
                if lo >= w:
                    self.ub('shift-out-of-range', ins, 'amount in [%d,%d], width %d' % (lo, hi, w))
                self.concrete(y, w)
            if y >= w:
                self.ub('shift-out-of-range', ins, 'amount %d, width %d' % (sgn(y, w), w))
            return {'shl': dom.shl, 'lshr': dom.lshr, 'ashr': dom.ashr}[op](x, y, w)
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            z = dom.eq(y, 0, w)
            if z == 1:
                self.ub('division-by-zero', ins)
            if z >= 2:
                raise Fork(z)
            if op == 'udiv':
                return dom.udiv(x, y, w)
            if op == 'urem':
                return dom.urem(x, y, w)
            if type(x) is int and type(y) is int:
                sx, sy = sgn(x, w), sgn(y, w)
                if sx == -(1 << (w - 1)) and sy == -1:
                    self.ub('signed-overflow', ins)
                q = abs(sx) // abs(sy)
                if (sx < 0) != (sy < 0):
                    q = -q
                return (q if op == 'sdiv' else sx - q * sy) & mask(w)
            sxl = bits_of(x, w)[w - 1]
            syl = bits_of(y, w)[w - 1]
            for l in (sxl, syl):
                if l >= 2:
                    raise Fork(l)
            ax = dom.neg(x, w) if sxl else x
            ay = dom.neg(y, w) if syl else y
            if op == 'sdiv':
                q = dom.udiv(ax, ay, w)
                return dom.neg(q, w) if sxl != syl else q
            r = dom.urem(ax, ay, w)
            return dom.neg(r, w) if sxl else r
        raise Unsupported(op)

    def x_icmp(self, ins, env):
        pred, x, y = ins.a
        x = self.operand(x, env, ins)
        y = self.operand(y, env, ins)
        if isinstance(x, Ptr) or isinstance(y, Ptr):
            if isinstance(x, Ptr) and isinstance(y, Ptr):
                if x.obj is not y.obj:
                    if pred == 'eq':
                        return 0
                    if pred == 'ne':
                        return 1
                    raise Unsupported('ptr order compare')
                x = x.off & mask(64) if type(x.off) is int else x.off
                y = y.off & mask(64) if type(y.off) is int else y.off
                w = 64
            else:
                raise Unsupported('ptr compare')
        else:
            w = ins.ty.n
        self.undef_use(x, y, ins)
        l = icmp(pred, x, y, w)
        return l if l < 2 else BV(1, (l,))

    def x_select(self, ins, env):
        c = self.operand(ins.a[0], env, ins)
        b = self.truth(c, ins)
        return self.operand(ins.a[1] if b else ins.a[2], env, ins)

    def x_zext(self, ins, env):
        x = self.operand(ins.a[0], env, ins)
        return dom.zext(x, ins.a[1].n, ins.a[2].n)

    def x_sext(self, ins, env):
        x = self.operand(ins.a[0], env, ins)
        return dom.sext(x, ins.a[1].n, ins.a[2].n)

    def x_trunc(self, ins, env):
        x = self.operand(ins.a[0], env, ins)
        return dom.trunc(x, ins.a[1].n, ins.a[2].n)

    def x_bitcast(self, ins, env):
        x = self.operand(ins.a[0], env, ins)
        return x

    def x_freeze(self, ins, env):
        return self.operand(ins.a[0], env, ins)

    def x_extractvalue(self, ins, env):
        v = self.operand(ins.a[0], env, ins)
        for i in ins.a[1]:
            v = v[i]
        return v

    def x_insertvalue(self, ins, env):
        v = self.operand(ins.a[0], env, ins)
        x = self.operand(ins.a[1], env, ins)

        def rec(v, idx):
            v = list(v)
            if len(idx) == 1:
                v[idx[0]] = x
            else:
                v[idx[0]] = rec(v[idx[0]], idx[1:])
            return v
        return rec(v, ins.a[3])

    def fpatom(self, op, n, *args):
        key = (op,) + tuple(('BITS', tuple(bits_of(x, w))) for x, w in args)
        return mk(n, dom.opword(key, n))

    def x_fneg(self, ins, env):
        x = self.operand(ins.a[0], env, ins)
        n = ins.ty.n
        return dom.xor_(x, 1 << (n - 1), n)

    def fp2(self, op, ins, env):
        x = self.operand(ins.a[0], env, ins)
        y = self.operand(ins.a[1], env, ins)
        self.undef_use(x, y, ins)
        return fp.binary(self, op, x, y, ins.ty.n)

    def x_fadd(self, ins, env): return self.fp2('fadd', ins, env)
    def x_fsub(self, ins, env): return self.fp2('fsub', ins, env)
    def x_fmul(self, ins, env): return self.fp2('fmul', ins, env)
    def x_fdiv(self, ins, env): return self.fp2('fdiv', ins, env)

    def x_fcmp(self, ins, env):
        pred, x, y = ins.a
        x = self.operand(x, env, ins)
        y = self.operand(y, env, ins)
        self.undef_use(x, y, ins)
        return fp.fcmp(self, pred, x, y, ins.ty.n)

    def fpcast(self, ins, env):
        x = self.operand(ins.a[0], env, ins)
        self.undef_use(x, 0, ins)
        return fp.cast(self, ins.op, x, ins.a[1].n, ins.a[2].n)

    x_fptrunc = x_fpext = x_fptosi = x_fptoui = x_sitofp = x_uitofp = fpcast

    def x_ptrtoint(self, ins, env):
        raise Unsupported('ptrtoint')

    # ------------------------------------------------------------ call
    def do_call(self, ins, env):
        callee, args, _ = ins.a
        if callee[0] == 'g':
            name = self.mod.aliases.get(callee[1], callee[1])
        else:
            q = self.operand(callee, env, ins)
            if not isinstance(q, FnPtr):
                raise Unsupported('indirect call')
            name = q.name
        if name.startswith('@llvm.'):
            return self.intrinsic(name, ins, env)
        vals = [self.operand(v, env, ins) if v is not None else None for t, v, pa in args]
        h = self.externals.get(name)
        if h is not None:
            return h(self, ins, args, vals)
        # explicit byval at the call site is handled in call()
        if self.mod.has(name):
            return self.call(name, vals)
        h = fp.LIBM.get(name)
        if h is not None and len(vals) == h[2]:
            return fp.libm(self, h[0], h[1], *vals)
        raise Unsupported('external ' + name)

    def intrinsic(self, name, ins, env):
        args = ins.a[1]
        V = [self.operand(v, env, ins) if v is not None else None for t, v, pa in args]
        base = name[6:]
        if base.startswith('memcpy') or base.startswith('memmove'):
            d, s, n = V[0], V[1], V[2]
            if type(n) is not int:
                raise Unsupported('memcpy size')
            if n == 0:
                return None
            if s.obj is None or d.obj is None:
                self.ub('null-dereference', ins)
            if type(s.off) is not int or type(d.off) is not int:
                raise Unsupported('memcpy symbolic')
            if s.off < 0 or s.off + n > s.obj.size or d.off < 0 or d.off + n > d.obj.size:
                self.ub('out-of-bounds-copy', ins)
            if d.obj.isglobal:
                self.gstores.append((d.obj.name, d.off, None, self.loc(ins)))
            if s.obj.opaque:
                for k in range(n):
                    key = ('load', s.obj.name, 8, ('BITS', dom.trim(bits_of(s.off + k, 64))))
                    d.obj.store(d.off + k, 1, mk(8, dom.opword(key, 8)))
                return None
            s.obj.copy_to(s.off, n, d.obj, d.off)
            return None
        if base.startswith('memset'):
            d, b, n = V[0], V[1], V[2]
            if type(n) is not int:
                raise Unsupported('memset size')
            if d.off < 0 or d.off + n > d.obj.size:
                self.ub('out-of-bounds-write', ins)
            d.obj._clear(d.off, n)
            for k in range(n):
                d.obj.cells[d.off + k] = (1, b)
            return None
        if base.startswith('lifetime') or base.startswith('dbg') or base.startswith('assume') or base.startswith('experimental.noalias'):
            return None
        ty = ins.ty
        w = ty.n
        if base.startswith('ctlz') or base.startswith('cttz'):
            x = V[0]
            self.undef_use(x, 0, ins)
            b = bits_of(x, w)
            seq = reversed(b) if base.startswith('ctlz') else b
            n = 0
            for l in seq:
                if l == 1:
                    return n
                if l >= 2:
                    z = dom.eq(x, 0, w)
                    raise Fork(l)
                n += 1
            if V[1] == 1:
                self.ub('count-leading-zeros-of-zero', ins)
            return w
        if base.startswith('ctpop'):
            x = V[0]
            c = 0
            b = bits_of(x, w)
            for l in b:
                if l >= 2:
                    raise Fork(l)
                c += l
            return c
        if base.startswith('abs.'):
            x = V[0]
            s = bits_of(x, w)[w - 1]
            if s >= 2:
                raise Fork(s)
            return dom.neg(x, w) if s else x
        if base.startswith(('umax', 'umin', 'smax', 'smin')):
            x, y = V[0], V[1]
            l = dom.ult(x, y, w) if base[0] == 'u' else dom.slt(x, y, w)
            if l >= 2:
                raise Fork(l)
            mx = base[1:4] == 'max'
            return (y if mx else x) if l else (x if mx else y)
        if base.startswith(('fshl', 'fshr')):
            x, y, s = V
            s = self.concrete(s, w) % w
            bb = bits_of(y, w) + bits_of(x, w)
            if base.startswith('fshl'):
                return mk(w, bb[w - s:2 * w - s] if s else bb[w:])
            return mk(w, bb[s:s + w])
        if base.startswith('bswap'):
            b = bits_of(V[0], w)
            out = []
            for k in range(w // 8 - 1, -1, -1):
                out += b[8 * k:8 * k + 8]
            return mk(w, out)
        if base.startswith('bitreverse'):
            return mk(w, tuple(reversed(bits_of(V[0], w))))
        if base.startswith('x86.bmi.bextr'):
            x, c = V
            c = self.concrete(c, w)
            st, ln = c & 255, (c >> 8) & 255
            b = bits_of(x, w)[st:st + ln] if st < w else ()
            return mk(w, tuple(b) + (0,) * (w - len(b)))
        if base.startswith(('uadd.with.overflow', 'usub.with.overflow')):
            pass
        if base.startswith(('fabs',)):
            return dom.and_(V[0], mask(w - 1), w)
        if base.startswith('sqrt.f') and w in (32, 64):
            return fp.libm(self, 'sqrt', w, V[0])
        if base.startswith('trap'):
            self.ub('trap', ins)
        if base.startswith('is.constant'):
            return 0
        if base.startswith('expect'):
            return V[0]
        if ty.k == 'f':
            return self.fpatom(base, w, *[(v, t.n) for v, (t, _, _) in zip(V, args) if v is not None])
        raise Unsupported('intrinsic ' + name)


BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'}


def icmp(pred, x, y, w):
    if pred == 'eq':
        return dom.eq(x, y, w)
    if pred == 'ne':
        return dom.eq(x, y, w) ^ 1
    if pred == 'ult':
        return dom.ult(x, y, w)
    if pred == 'ugt':
        return dom.ult(y, x, w)
    if pred == 'uge':
        return dom.ult(x, y, w) ^ 1
    if pred == 'ule':
        return dom.ult(y, x, w) ^ 1
    if pred == 'slt':
        return dom.slt(x, y, w)
    if pred == 'sgt':
        return dom.slt(y, x, w)
    if pred == 'sge':
        return dom.slt(x, y, w) ^ 1
    if pred == 'sle':
        return dom.slt(y, x, w) ^ 1
    raise Unsupported(pred)


# ---------------------------------------------------------------- driver
class Result:
    """outcome of one analysed trace partition"""
    __slots__ = ('kind', 'assume', 'ret', 'outs', 'events', 'why', 'pure', 'checked', 'steps')

    def __init__(self):
        self.kind = 'ok'
        self.ret = None
        self.outs = None
        self.events = []
        self.why = ''


def analyse(machine, setup, finish, max_cells=600):
    """setup() -> (fname, args, outs): builds the abstract inputs of the cell
    (called again for every sub-partition, under its facts).
    finish(machine, ret, outs) -> obj  (verdict of that trace), may raise Fork.
    yields (assumptions, kind, obj, events, pure)"""
    work = [()]
    done = 0
    while work:
        assume = work.pop()
        done += 1
        if done > max_cells:
            yield (assume, 'budget', None, [], False)
            return
        dom.reset_ctx()
        try:
            dom.install_facts(list(assume))
            machine.reset()
            fname, args, outs = setup()
            # ranges installed by setup() may already decide facts
            ret = machine.call(fname, args)
            obj = finish(machine, ret, outs)
            pure = dom.C.opaque_facts <= 0
            yield (assume, 'ok', obj, machine.events, pure)
        except Fork as f:
            l = f.lit
            work.append(assume + (l ^ 1,))
            work.append(assume + (l,))
        except Infeasible:
            continue
        except UBStop as u:
            yield (assume, 'ub', None, machine.events, dom.C.opaque_facts <= 0)
        except Unsupported as e:
            yield (assume, 'unsupported', str(e), machine.events, False)
        except dom.TooDeep:
            yield (assume, 'budget', None, machine.events, False)
