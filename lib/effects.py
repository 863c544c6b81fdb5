"""Interprocedural side effect analysis of LLVM IR: which memory a function may write, by origin of the pointer.

Origins: ('p', i) memory reached through parameter i, ('g', name) a global variable, ('l',) memory of the activation
itself, ('u', why) not traced.  Summaries are computed to a fixed point over the call graph (context insensitive,
flow insensitive inside a function); a call maps the callee's parameter effects to the origins of the arguments."""
import re
import ir

PURE_EXT = re.compile(r'^@(llvm\.(?!va_)|mem(cpy|set|move|cmp)$|str(len|cmp)$|(sqrt|exp2?|expm1|log2?|log10|log1p|pow|fma|fabs|floor|ceil|trunc|round|rint|nearbyint|sin|cos|tan|sinh|cosh|tanh|a(sin|cos|tan)h?|atan2|fmod|remainder|fmin|fmax|copysign|hypot|cbrt|ldexp|scalbn?|frexp|modf|abs|labs|llabs)[fl]?$|'
                      r'__cxa_guard_|__clang_call_terminate|__gxx_personality|_ZSt|_ZNSt|_ZNKSt|_ZNSo|_ZNSi|_ZNKSo|_Zn[wa]|_Zd[la]|__cxa_(begin|end)_catch|__assert_fail|abort$|__mulo|__mul|__div|__udiv|__umod|__fix|__float|__extend|__trunc|_ITM|__throw|_Unwind|_ZL?9__builtin)')
IMPURE_EXT = re.compile(r'^@(rand|srand|rand_r|random|srandom|drand48|lrand48|time|clock|clock_gettime|gettimeofday|getenv|setenv|printf|fprintf|puts|putchar|putc|fputs|fputc|fwrite|fopen|write|read|exit|signal|raise|fesetround|feraiseexcept|feclearexcept|fesetenv|feholdexcept|setlocale|pthread_\w+|sched_yield|usleep|sleep|nanosleep|_ZNSt6chrono\w*|_ZNSt6thread\w*|_ZNSt13random_device\w*|_ZNSt6locale6global\w*)$')


class Summary:
    def __init__(self):
        self.writes = {}     # origin -> (loc, chain)
        self.rets = set()
        self.impure = {}     # external name -> (loc, chain)
        self.unknown = {}    # external name -> loc

    def size(self):
        return (len(self.writes), len(self.rets), len(self.impure), len(self.unknown))


class Effects:
    def __init__(self, mod):
        self.m = mod
        self.sum = {}
        self.facts = {}
        self.consts = {}
        self.stores = self.calls = 0
        self.g_writers = {}

    def is_const(self, g):
        raw = self.m._raw_globals.get(g)
        return raw is not None and ' constant ' in ' ' + raw.split('{')[0].split('[')[0] + ' '

    def fixed(self, g):
        return self.is_const(g) or self.m.has(g) or g in self.m.decls

    # ------------------------------------------------------------ facts of one function
    def fact(self, name):
        f = self.facts.get(name)
        if f is not None:
            return f
        F = self.m.func(name)
        defs, stores, calls, rets, atom = {}, [], [], [], []
        par = {pn: i for i, (ty, pn, at) in enumerate(F.params)}
        cont = {}
        guard = None
        region = {}
        for lab, blk in F.blocks.items():
            for ins in blk:
                raw = ins.raw
                if 'atomicrmw' in raw or 'cmpxchg' in raw or ' asm ' in raw:
                    atom.append((raw, lab))
                    continue
                if not ins.dec:
                    ins.decode()
                op = ins.op
                if op == 'store':
                    stores.append((ins, lab))
                elif op in ('call', 'invoke'):
                    calls.append((ins, lab))
                elif op == 'ret' and ins.a[0] is not None and ins.a[0].k == 'ptr':
                    rets.append(ins.a[1])
                if ins.dest and op in ('alloca', 'load', 'getelementptr', 'bitcast', 'select', 'phi', 'call', 'invoke', 'inttoptr', 'extractvalue', 'insertvalue', 'addrspacecast', 'freeze'):
                    defs[ins.dest] = ins
        f = dict(F=F, defs=defs, stores=stores, calls=calls, rets=rets, atom=atom, par=par, fn=name)
        self.facts[name] = f
        self._guards(f)
        return f

    def _guards(self, f):
        """globals initialised under a guard in this function, and the blocks of the initialisation"""
        f['ginit'] = {}
        for ins, lab in f['calls']:
            c = ins.a[0]
            if c[0] == 'g' and c[1] == '@__cxa_guard_acquire':
                g = ins.a[1][0][1]
                if g[0] == 'g':
                    f['ginit'][g[1].replace('@_ZGV', '@_Z', 1)] = lab
                    f['ginit'][g[1]] = lab

    # ------------------------------------------------------------ pointers
    def origin(self, f, v, seen=None):
        if v is None:
            return {('u', 'meta')}
        k = v[0]
        if k == 'g':
            return {('g', self.m.aliases.get(v[1], v[1]))}
        if k == 'gep':
            return self.origin(f, v[2], seen)
        if k == 'cast':
            return self.origin(f, v[2], seen)
        if k in ('n', 'u', 'z', 'c'):
            return set()
        if k != 'r':
            return {('u', k)}
        n = v[1]
        if n in f['par']:
            ty, pn, at = f['F'].params[f['par'][n]]
            if any(isinstance(a, tuple) and a[0] == 'byval' for a in at):
                return {('l',)}
            return {('p', f['par'][n])}
        seen = seen or frozenset()
        if n in seen:
            return set()
        seen = seen | {n}
        ins = f['defs'].get(n)
        if ins is None:
            return {('u', n)}
        op = ins.op
        if op == 'alloca':
            return {('l',)}
        if op == 'getelementptr':
            return self.origin(f, ins.a[0], seen)
        if op in ('bitcast', 'freeze', 'addrspacecast'):
            return self.origin(f, ins.a[0], seen)
        if op == 'select':
            return self.origin(f, ins.a[1], seen) | self.origin(f, ins.a[2], seen)
        if op == 'phi':
            s = set()
            for val, lab in ins.a[0]:
                s |= self.origin(f, val, seen)
            return s
        if op == 'load':
            roots = self.roots(f, ins.a[0], frozenset())
            s = set()
            for r in roots:
                if r[0] == 'a':
                    s |= self.contents(f, r[1], seen)
                else:
                    s.add(r)
            return s
        if op in ('call', 'invoke'):
            return self.callret(f, ins, seen)
        return {('u', op)}

    def roots(self, f, v, seen):
        """like origin, but keeps the identity of local objects"""
        if v[0] == 'gep':
            return self.roots(f, v[2], seen)
        if v[0] == 'r':
            ins = f['defs'].get(v[1])
            if ins is not None and v[1] not in f['par'] and v[1] not in seen:
                seen = seen | {v[1]}
                if ins.op == 'alloca':
                    return {('a', v[1])}
                if ins.op in ('getelementptr', 'bitcast'):
                    return self.roots(f, ins.a[0], seen)
                if ins.op == 'select':
                    return self.roots(f, ins.a[1], seen) | self.roots(f, ins.a[2], seen)
                if ins.op == 'phi':
                    s = set()
                    for val, lab in ins.a[0]:
                        s |= self.roots(f, val, seen)
                    return s
        return self.origin(f, v)

    def contents(self, f, a, seen):
        """origins of the pointers kept in local object a"""
        key = ('cont', a)
        idx = f.get('contidx')
        if idx is None:
            idx = f['contidx'] = {}
            for ins, lab in f['stores']:
                val, dst = ins.a
                if ins.ty.k == 'ptr':
                    for r in self.roots(f, dst, frozenset()):
                        if r[0] == 'a':
                            idx.setdefault(r[1], []).append(val)
            for ins, lab in f['calls']:
                args = [x for x in ins.a[1] if x[0].k == 'ptr' and x[1] is not None]
                cn = ins.a[0][1] if ins.a[0][0] == 'g' else ''
                if cn.startswith('@llvm.lifetime') or cn.startswith('@llvm.dbg'):
                    continue
                for i, x in enumerate(args):
                    if x[1][0] == 'r':
                        for r in self.roots(f, x[1], frozenset()):
                            if r[0] == 'a':
                                for j, y in enumerate(args):
                                    if j != i:
                                        idx.setdefault(r[1], []).append(('deep', y[1]))
        s = set()
        for val in idx.get(a, []):
            if val[0] == 'deep':
                val = val[1]
                if val[0] == 'r' and val[1] in seen:
                    continue
                o = self.origin(f, val, seen | {('c', a)}) if ('c', a) not in seen else set()
                s |= {x for x in o if x[0] != 'l'}
            else:
                s |= self.origin(f, val, seen)
        return s

    def callret(self, f, ins, seen):
        c = ins.a[0]
        if c[0] != 'g':
            return {('u', 'indirect')}
        n = self.m.aliases.get(c[1], c[1])
        if n.startswith('@llvm.threadlocal.address'):
            return self.origin(f, ins.a[1][0][1], seen)
        sm = self.sum.get(n)
        s = set()
        if sm is None:
            # external: a pointer result is reached through the arguments, or fresh
            for t, v, pa in ins.a[1]:
                if t.k == 'ptr' and v is not None:
                    s |= self.origin(f, v, seen)
            return s or {('l',)}
        for r in sm.rets:
            s |= self.mapped(f, ins, r, seen)
        return s

    def mapped(self, f, ins, o, seen=None):
        if o[0] == 'p':
            args = ins.a[1]
            if o[1] < len(args):
                return self.origin(f, args[o[1]][1], seen)
            return {('u', 'args')}
        if o[0] == 'l':
            return {('l',)}
        return {o}

    # ------------------------------------------------------------ summaries
    def loc(self, ins):
        if ins.dbg:
            fn, ln = self.m.dbgloc(ins.dbg)
            return '%s:%d' % (fn, ln)
        return '?'

    def close(self, roots):
        """call graph closure"""
        todo, seen = list(roots), []
        s = set()
        while todo:
            n = self.m.aliases.get(todo.pop(), None) or None
            break
        todo = [self.m.aliases.get(r, r) for r in roots]
        while todo:
            n = todo.pop()
            if n in s or not self.m.has(n):
                continue
            s.add(n)
            seen.append(n)
            for ins, lab in self.fact(n)['calls']:
                c = ins.a[0]
                if c[0] == 'g':
                    todo.append(self.m.aliases.get(c[1], c[1]))
                for t, v, pa in ins.a[1]:       # function pointers handed on
                    if v is not None and v[0] == 'g' and self.m.has(self.m.aliases.get(v[1], v[1])):
                        todo.append(self.m.aliases.get(v[1], v[1]))
        return seen

    def solve(self, roots):
        fs = self.close(roots)
        for n in fs:
            self.sum.setdefault(n, Summary())
        ch = True
        rounds = 0
        while ch and rounds < 60:
            ch = False
            rounds += 1
            for n in reversed(fs):
                before = self.sum[n].size()
                self.one(n)
                if self.sum[n].size() != before:
                    ch = True
        return fs

    def one(self, n):
        f = self.fact(n)
        S = self.sum[n]
        for v in f['rets']:
            S.rets |= self.origin(f, v)
        for ins, lab in f['stores']:
            for o in self.origin(f, ins.a[1]):
                if o[0] == 'l':
                    continue
                if o[0] == 'g' and (self.fixed(o[1]) or self.init_of(f, o[1], ins, lab)):
                    continue
                S.writes.setdefault(o, (self.loc(ins), (n,)))
        for raw, lab in f['atom']:
            for g in re.findall(r'ptr (@[-\w$.]+)', raw):
                S.writes.setdefault(('g', g), ('?', (n,)))
            for r in re.findall(r'ptr (%[-\w$.]+)', raw):
                for o in self.origin(f, ('r', r)):
                    if o[0] != 'l':
                        S.writes.setdefault(o, ('?', (n,)))
            if ' asm ' in raw:
                S.unknown.setdefault('inline assembly', raw[:80])
        for ins, lab in f['calls']:
            c = ins.a[0]
            if c[0] != 'g':
                S.unknown.setdefault('indirect call', self.loc(ins))
                continue
            cn = self.m.aliases.get(c[1], c[1])
            if cn.startswith(('@llvm.memcpy', '@llvm.memmove', '@llvm.memset')) or cn in ('@memcpy', '@memset', '@memmove'):
                for o in self.origin(f, ins.a[1][0][1]):
                    if o[0] != 'l' and not (o[0] == 'g' and self.init_of(f, o[1], ins, lab)):
                        S.writes.setdefault(o, (self.loc(ins), (n,)))
                continue
            sm = self.sum.get(cn)
            if sm is not None:
                for o, (lc, ch) in list(sm.writes.items()):
                    for o2 in self.mapped(f, ins, o):
                        if o2[0] == 'l' or (o2[0] == 'g' and (self.fixed(o2[1]) or self.init_of(f, o2[1], ins, lab))):
                            continue
                        S.writes.setdefault(o2, (lc, (n,) + ch[:8]))
                for e, (lc, ch) in sm.impure.items():
                    S.impure.setdefault(e, (lc, (n,) + ch[:8]))
                for e, lc in sm.unknown.items():
                    S.unknown.setdefault(e, lc)
                continue
            if IMPURE_EXT.match(cn):
                S.impure.setdefault(cn, (self.loc(ins), (n,)))
                continue
            if not PURE_EXT.match(cn):
                S.unknown.setdefault(cn, self.loc(ins))
            if cn.startswith('@llvm.') or cn.startswith('@__cxa_guard'):
                continue
            if not re.match(r'^@_ZNK', cn):
                # an external function may write the objects it is handed by address
                for i, (t, v, pa) in enumerate(ins.a[1]):
                    if t.k == 'ptr' and v is not None and 'readonly' not in pa and (i == 0 or not cn.startswith('@_Z')):
                        for o in self.origin(f, v):
                            if o[0] == 'l' or (o[0] == 'g' and self.fixed(o[1])):
                                continue
                            S.writes.setdefault(o, (self.loc(ins), (n,)))

    def init_of(self, f, g, ins, lab):
        """a write that is the guarded one-time initialisation of g, from values independent of the operands"""
        if g not in f['ginit']:
            return False
        reg = self.region(f, f['ginit'][g])
        if lab not in reg:
            return False
        dep = f.get('gdep')
        if dep is None:
            dep = f['gdep'] = {}
        key = f['ginit'][g]
        if key not in dep:
            dep[key] = self.depends(f, reg)
        return not dep[key]

    def region(self, f, lab):
        """blocks between the acquisition and the release of the guard that starts in block lab"""
        key = ('reg', lab)
        r = f.get(key)
        if r is not None:
            return r
        F = f['F']
        succ = {}
        for l, blk in F.blocks.items():
            s = []
            for ins in blk:
                if ins.op == 'br':
                    s += [x for x in ins.a[1:] if x]
                elif ins.op == 'switch':
                    s += [ins.a[1]] + [c[1] for c in ins.a[2]]
                elif ins.op == 'invoke':
                    s += re.findall(r'label (%[-\w$.]+)', ins.raw)
            succ[l] = s
        rel = {l for ins, l in f['calls'] if ins.a[0] == ('g', '@__cxa_guard_release') or ins.a[0] == ('g', '@__cxa_guard_abort')}
        br = [ins for ins in F.blocks[lab] if ins.op == 'br']
        r = set()
        if br and br[-1].a[0] is not None:
            todo = [br[-1].a[1]]
            while todo:
                x = todo.pop()
                if x in r:
                    continue
                r.add(x)
                if x not in rel:
                    todo += succ[x]
        f[key] = r
        return r

    def depends(self, f, reg):
        """does the initialisation read anything of the activation but its own temporaries?"""
        F = f['F']
        inside = set()
        written = set()
        for l in reg:
            for ins in F.blocks.get(l, []):
                if ins.dest:
                    inside.add(ins.dest)
        allo = {d for d, i in f['defs'].items() if i.op == 'alloca'}
        # objects written outside the region carry values of the activation
        outer = set()
        for ins, lab in f['stores']:
            if lab not in reg:
                for r in self.roots(f, ins.a[1], frozenset()):
                    outer.add(r[1] if r[0] == 'a' else None)
        for ins, lab in f['calls']:
            if lab not in reg:
                for t, v, pa in ins.a[1]:
                    if t.k == 'ptr' and v is not None and v[0] == 'r':
                        for r in self.roots(f, v, frozenset()):
                            outer.add(r[1] if r[0] == 'a' else None)
        for l in reg:
            for ins in F.blocks.get(l, []):
                for r in re.findall(r'%[-\w$.]+', ins.raw):
                    if r in inside or r in F.blocks or r.startswith(('%struct', '%class', '%union', '%"')):
                        continue
                    if r in allo and r not in outer:
                        continue
                    if r == '%__cxa':
                        continue
                    return True
        return False
