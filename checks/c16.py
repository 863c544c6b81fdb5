"""C16 equivalent spellings"""
import random
import re
from core import Cell, Obl, TIER
from wit import posit_unit, unpacked_unit
from cells import *
import configs
import c18
import c06
from c05 import pairs as special_pairs

RULE = ('relational abstract interpretation: both spellings are interpreted on the same partition cell (pattern pairs by regime and exponent with symbolic '
        'fractions, special codes, symbolic floats and integers) and must give the same abstract value; min / max must return the operand the order selects')

XP = '''
extern "C" {
i64 w_fromfu(uint32_t x) { return P(U(bf(x))).v; }
i64 w_fromdu(uint64_t x) { return P(U(bd(x))).v; }
i64 w_fromiu(int x) { return P(U(x)).v; }
u64 w_tofu(T v) { return fb((float)D(v).unpack()); }
u64 w_todu(T v) { return db((double)D(v).unpack()); }
i64 w_toiu(T v) { return (int)D(v).unpack(); }
i64 w_tou(T v) { U u = D(v); return P(u).v; }
i64 w_subneg(T v, T w) { return (D(v)+(-D(w))).v; }
i64 w_selfadd(T v) { P a = D(v); a += a; return a.v; }
i64 w_selfmul(T v) { P a = D(v); a *= a; return a.v; }
i64 w_add1(T v) { return (D(v)+D(v)).v; }
i64 w_mul1(T v) { P r = D(v)*D(v); return r.v; }
i64 w_cadd(T w, T v) { return (D(v)+D(w)).v; }
i64 w_cmul(T w, T v) { P r = D(v)*D(w); return r.v; }
}
'''
XG = '''
extern "C" {
i64 w_subeq(T v, T w) { P a = D(v); a = a - D(w); return a.v; }
i64 w_selfdvd(T v) { P a = D(v); a /= a; return a.v; }
i64 w_dvd1(T v) { return (D(v)/D(v)).v; }
i64 w_enc2(int t, int n, i64 e, u64 f) { return pack_posit<T,%(N)d,%(es)d,P::fraction_t,PositSpec::%(spec)s>(mku<U>(t,n,e,f)).v; }
i64 w_enc3(int t, int n, i64 e, u64 f) { return P::pack_low(P::unpacked_full2low(mku<U>(t,n,e,f))).v; }
i64 w_root(T v) { return std::sqrt(D(v)).v; }
i64 w_rootd(T v) { return P(std::sqrt((double)D(v))).v; }
i64 w_rt2(T v) { return P(P::unpacked_low2full(D(v).unpack_low())).v; }
}
'''
XF = '''
extern "C" {
i64 w_fadd(T v, T w) { return (D(v).iszero() ? D(w) : D(w).iszero() ? D(v) : P((FFT)D(v)+(FFT)D(w))).v; }
i64 w_fsub(T v, T w) { P n = -D(w); return (D(v).iszero() ? n : n.iszero() ? D(v) : P((FFT)D(v)+(FFT)n)).v; }
i64 w_fmul_(T v, T w) { return P((FFT)D(v)*(FFT)D(w)).v; }
i64 w_fdvd(T v, T w) { return P((FFT)D(v)/(FFT)D(w)).v; }
i64 w_ffma(T v, T w, T x) { return P((FFT)D(v)*(FFT)D(w)+(FFT)D(x)).v; }
i64 w_finv_(T v) { return P(1/(FFT)D(v)).v; }
}
'''
XM = '''
typedef P::PositMul M_;
extern "C" {
i64 w_m_as(T v, T w) { return (D(v)*D(w)).asPosit().v; }
i64 w_m_cv(T v, T w) { P r = D(v)*D(w); return r.v; }
i64 w_m_u(T v, T w) { return P(D(v).unpack()*D(w).unpack()).v; }
i64 w_m_add(T v, T w, T x, T y) { P r = D(v)*D(w) + D(x)*D(y); return r.v; }
i64 w_m_sub(T v, T w, T x, T y) { P r = D(v)*D(w) - D(x)*D(y); return r.v; }
i64 w_u_add(T v, T w, T x, T y) { return P(D(v).unpack()*D(w).unpack()+D(x).unpack()*D(y).unpack()).v; }
i64 w_u_sub(T v, T w, T x, T y) { return P(D(v).unpack()*D(w).unpack()-D(x).unpack()*D(y).unpack()).v; }
i64 w_m_pa(T v, T w, T x) { return (D(x)+D(v)*D(w)).v; }
i64 w_m_ap(T v, T w, T x) { return (D(v)*D(w)+D(x)).v; }
i64 w_m_fma(T v, T w, T x) { return P(D(v).unpack()*D(w).unpack()+D(x).unpack()).v; }
u64 w_m_f(T v, T w) { return fb((float)(D(v)*D(w))); }
u64 w_m_d(T v, T w) { return db((double)(D(v)*D(w))); }
i64 w_m_i(T v, T w) { return (int)(D(v)*D(w)); }
i64 w_m_un(T v, T w) { U u = D(v)*D(w); return P(u).v; }
i64 w_p_un(T v, T w) { U u = P(D(v).unpack()*D(w).unpack()); return P(u).v; }
u64 w_p_f(T v, T w) { return fb((float)P(D(v).unpack()*D(w).unpack())); }
u64 w_p_d(T v, T w) { return db((double)P(D(v).unpack()*D(w).unpack())); }
i64 w_p_i(T v, T w) { return (int)P(D(v).unpack()*D(w).unpack()); }
i64 w_m_muleq(T v, T w) { P a = D(v); a *= D(w); return a.v; }
}
'''


OPQ = re.compile(r'@_Z(pl|mi|ml|dv)R?K?8Unpacked|@_ZNK8Unpacked.*E(3invEv|ngEv|cv[fdi]Ev|14?2?pack_xf.*)$|@_Z12unpack_posit|@_Z10pack_posit|'
                 r'@_ZN5Posit.*(8pack_low|17unpacked_low2full|17unpacked_full2low)E|@_ZNK5Posit.*10unpack_lowEv|@_ZN8Unpacked.*C2E([fdi]|NS0_10single_tagEj)$')

# reading a float pattern: the decoder behind every constructor instead of the constructors
OPQ1 = re.compile(r'@_ZN8Unpacked.*E14unpack_xfloatiI|@_Z10pack_posit')
# the two steps of the encoding instead of the encoding itself
OPQ2 = re.compile(r'@_ZN5Posit.*(8pack_low|17unpacked_full2low)E')


# pairs whose equality is a fact of the arithmetic and not of the terms
DIRECT = {('add', 'addu'), ('bin', 'tof'), ('cadd', 'add'), ('cmul', 'mul'), ('rt2', 'rt'), ('rtlow', 'rt2'), ('rtg', 'rt'), ('rtp', 'rt')}


def rel(unit, c, f, g, args, desc, max_cells=600):
    """cells: w_f == w_g for all operands; congruence first, every argument tuple of patterns otherwise"""
    full = rel_(unit, c, f, g, args, desc, max_cells)
    if (f, g) in DIRECT:
        return full
    n = len(args[0])

    def gen():
        def setup(M):
            a = [dom.sext(mk(c.N, [dom.inbit('abcd'[k], i) for i in range(c.N)]), c.N, c.H) for k in range(n)]
            return '@w_' + f, a, a

        def finish(M, ret, a):
            return [Obl('%s == %s' % (f, g), ret, M.call('@w_' + g, a), 64)]
        cell = Cell(unit, '%s%r %s == %s (all operands)' % (getattr(c, 'flavor', ''), c, f, g), setup, finish, 200)
        cell.opaque, cell.fallback = OPQ, full
        yield cell
    return gen


def rel_(unit, c, f, g, args, desc, max_cells):
    """cells: w_f == w_g on every argument tuple of patterns"""
    def gen():
        for ps in args:
            def setup(M, ps=ps):
                return '@w_' + f, [p.word() for p in ps], None

            def finish(M, ret, o, ps=ps):
                return [Obl('%s == %s' % (f, g), ret, M.call('@w_' + g, [p.word() for p in ps]), 64)]
            yield Cell(unit, '%s%r %s == %s (%s)' % (getattr(c, 'flavor', ''), c, f, g, ', '.join(map(repr, ps))), setup, finish, max_cells)
    return gen


def relw(unit, c, f, g, w, name='x'):
    """same on an arbitrary w-bit word; split by its top bits when congruence does not do"""
    full = relw_(unit, c, f, g, w, name)

    def gen():
        def setup(M):
            x = input_word(name, w)
            return '@w_' + f, [x], x

        def finish(M, ret, x):
            return [Obl('%s == %s' % (f, g), ret, M.call('@w_' + g, [x]), 64)]
        cell = Cell(unit, '%s%r %s == %s (all words)' % (getattr(c, 'flavor', ''), c, f, g), setup, finish, 200)
        cell.opaque, cell.fallback = (OPQ1 if f == 'fromtag' else OPQ), full
        yield cell
    return gen


def relw_(unit, c, f, g, w, name):
    def gen():
        for top in range(16):
            def setup(M, top=top):
                x = input_word(name, w, w - 4)
                x = dom.or_(x, top << (w - 4), w)
                return '@w_' + f, [x], x

            def finish(M, ret, x):
                return [Obl('%s == %s' % (f, g), ret, M.call('@w_' + g, [x]), 64)]
            yield Cell(unit, '%s%r %s == %s (word %x...)' % (getattr(c, 'flavor', ''), c, f, g, top), setup, finish, 1200)
    return gen


def relnum(unit, c, f, g):
    """same for encodings of numbers"""
    full = relnum_(unit, c, f, g)

    def gen():
        for t in (REG, INF, NAN, ZERO):
            def setup(M, t=t):
                x = [t, input_word('n', 32, 1), input_word('e', 64), input_word('f', 64)]
                return '@w_' + f, x, x

            def finish(M, ret, x):
                return [Obl('%s == %s' % (f, g), ret, M.call('@w_' + g, x), 64)]
            cell = Cell(unit, '%r %s == %s (all numbers of kind %d)' % (c, f, g, t), setup, finish, 200)
            cell.opaque, cell.fallback = (OPQ2 if f == 'enc3' else OPQ), lambda t=t: full(t)
            yield cell
    return gen


def relnum_(unit, c, f, g):
    def gen(only):
        for t, n in [x for x in [(REG, 0), (REG, 1), (INF, 0), (INF, 1), (NAN, 0), (ZERO, 0)] if x[0] == only]:
            es = [e for e in range(c.minexp - 3, c.maxexp + 4) if TIER == 'thorough' or c.maxexp < 40 or e % 5 == 0 or abs(e) > c.maxexp - 3 or abs(e) < 3] if t == REG else [0]
            for e in es:
                def setup(M, t=t, n=n, e=e):
                    x = Num(t, n, e & M64, frac('f', c.F), c.F)
                    return '@w_' + f, arg_num(x, 64), x

                def finish(M, ret, x):
                    return [Obl('%s == %s' % (f, g), ret, M.call('@w_' + g, arg_num(x, 64)), 64)]
                yield Cell(unit, '%r %s == %s (kind %d %s exp %d)' % (c, f, g, t, '+-'[n], e), setup, finish)
    return gen


def minmax(unit, c, f):
    """the selected operand"""
    N, H = c.N, c.H
    gen_nan = c.nan and not getattr(c, 'flavor', '') and not getattr(c, 'tname', '')

    def gen():
        for k in ['same', None] + [(i, s) for i in range(N) for s in (0, 1)] + ['ta', 'tb']:
            def setup(M, k=k):
                A = [dom.inbit('a', i) for i in range(N)]
                B = [dom.inbit('b', i) for i in range(N)]
                if k == 'same':
                    B = list(A)
                elif type(k) is tuple:
                    i, s = k
                    B = B[:i] + A[i:]
                    A[i], B[i] = (0, 1) if s else (1, 0)
                elif k == 'ta':
                    A = [0] * (N - 1) + [1]
                elif k == 'tb':
                    B = [0] * (N - 1) + [1]
                a, b = dom.sext(mk(N, A), N, H), dom.sext(mk(N, B), N, H)
                return '@w_' + f, [a, b], (a, b)

            def finish(M, ret, o):
                a, b = o
                top = mask(H) ^ mask(N - 1)
                if gen_nan and (spec.lit(dom.eq(a, top, H)) or spec.lit(dom.eq(b, top, H))):
                    # unordered: one of the operands
                    w = b if dom.compare(ret, word64(b, H), 64) == dom.EQUAL else a
                else:
                    less = spec.lit(dom.slt(a, b, H))
                    w = (a if less else b) if f == 'smin' else (b if less else a)
                return [Obl(f, ret, word64(w, H), 64)]
            yield Cell(unit, '%s%r %s(%s)' % (getattr(c, 'flavor', ''), c, f, k), setup, finish)
    return gen


def sample(c, lim, k=2):
    names = 'abcd'
    P = [patterns(c, n, exps='some') for n in names]
    rng = random.Random(c.N * 77 + c.es)
    if k == 2:
        return c18.pairs(c, lim) + special_sample(c, lim)
    out = []
    for i in range(lim):
        if i % 6 == 0:
            ps = [rng.choice(P[j][:4]) if rng.random() < .5 else rng.choice(P[j]) for j in range(k)]
        elif i % 6 == 1:
            # near one: products and sums of similar size
            ps = [rng.choice([p for p in P[j] if p.kind == 'reg' and abs(p.r) <= 1]) for j in range(k)]
        else:
            ps = [rng.choice(P[j]) for j in range(k)]
        out.append(tuple(ps))
    return out


def special_sample(c, lim):
    s = list(special_pairs(c))
    s = s if len(s) <= lim else random.Random(5).sample(s, lim)
    # the zero shortcut of sums keeps what a narrower fraction type would drop
    A, B = patterns(c, 'a', exps='some'), patterns(c, 'b', exps='some')
    z = lambda P: [p for p in P if p.kind == 'zero']
    r = lambda P: sorted([p for p in P if p.kind == 'reg'], key=lambda p: abs(p.r))
    w = 24 if c.F >= c.N - 3 else 80
    return s + [(p, q) for p in r(A)[:w] for q in z(B)] + [(p, q) for p in z(A) for q in r(B)[:w]]


UOPQ = re.compile(r'@_Zpl8Unpacked|@_ZNK8Unpacked.*E(12pack_xfloatiI|ngEv)|@_ZN8Unpacked.*E14unpack_xfloatiI')
PARTS = ('kind', 'sign', 'exponent', 'fraction')


def un_cells(u, F, E):
    """unpacked numbers: compound assignments and conversion spellings"""
    full = un_cells_(u, F, E)
    kinds = (REG, INF, NAN, ZERO)

    def num(t, nm):
        return [t, input_word(nm + 'n', 32, 1), input_word(nm + 'e', 64), input_word(nm + 'f', 64)]

    def gen():
        def cell(f, g, desc, setup, finish):
            c = Cell(u, 'Unpacked<uint%d_t,int%d_t> %s == %s (%s)' % (F, E, f, g, desc), setup, finish, 200)
            c.opaque, c.fallback = UOPQ, lambda: full(f)
            return c
        for f, g in (('uaddeq', 'uadd'), ('usubeq', 'usub'), ('uselfadd', 'uadd1'), ('uselfsub', 'usub1')):
            for ta in kinds:
                for tb in kinds:
                    def setup(M, ta=ta, tb=tb, f=f):
                        x = num(ta, 'a') + num(tb, 'b')
                        o = outs(4)
                        return '@w_' + f, x + o, (x, o)

                    def finish(M, ret, y, f=f, g=g):
                        q = outs(4)
                        M.call('@w_' + g, y[0] + q)
                        return [Obl('%s == %s %s' % (f, g, k), oval(x1), oval(x2), 64) for k, x1, x2 in zip(PARTS, y[1], q)]
                    yield cell(f, g, 'kinds %d %d' % (ta, tb), setup, finish)
        for f, g in (('cast_f', 'pack_f'), ('cast_f', 'to_single'), ('cast_d', 'to_double'), ('cast_h', 'to_half')):
            for t in kinds:
                def setup(M, t=t, f=f):
                    x = num(t, 'a')
                    return '@w_' + f, x, x

                def finish(M, ret, x, f=f, g=g):
                    return [Obl('%s == %s' % (f, g), ret, M.call('@w_' + g, x), 64)]
                yield cell(f, g, 'kind %d' % t, setup, finish)
        for f, g, w in (('ctor_f', 'from_single', 32), ('ctor_d', 'from_double', 64), ('ctor_h', 'from_half', 16), ('ctor_tag', 'from_single', 32)):
            def setup(M, f=f, w=w):
                x = input_word('x', w)
                o = outs(4)
                return '@w_' + f, [x] + o, (x, o)

            def finish(M, ret, y, f=f, g=g):
                q = outs(4)
                M.call('@w_' + g, [y[0]] + q)
                return [Obl('%s == %s %s' % (f, g, k), oval(x1), oval(x2), 64) for k, x1, x2 in zip(PARTS, y[1], q)]
            yield cell(f, g, 'all words', setup, finish)
    return gen


def un_cells_(u, F, E):
    def gen(only):
        for c in allc():
            if ' %s == ' % only in c.desc:
                yield c

    def allc():
        kinds = [(REG, 0), (REG, 1), (INF, 0), (INF, 1), (NAN, 0), (ZERO, 0)]
        for f, g in (('uaddeq', 'uadd'), ('usubeq', 'usub'), ('uselfadd', 'uadd1'), ('uselfsub', 'usub1')):
            for ta, na in kinds:
                for tb, nb in kinds:
                    for d in ([0, 1, -1, 3, -3, F - 1, 1 - F, F + 2] if ta == tb == REG else [0]):
                        def setup(M, d=d, f=f, ta=ta, tb=tb, na=na, nb=nb):
                            e = dom.sub(input_word('e', 64, E - 2), 1 << (E - 3), 64)
                            a = Num(ta, na, e, frac('a', F), F)
                            b = Num(tb, nb, dom.add(e, d & M64, 64), frac('b', F), F)
                            o = outs(4)
                            return '@w_' + f, arg_num(a, 64) + arg_num(b, 64) + o, (a, b, o)

                        def finish(M, ret, x, f=f, g=g):
                            a, b, o = x
                            q = outs(4)
                            M.call('@w_' + g, arg_num(a, 64) + arg_num(b, 64) + q)
                            return [Obl('%s == %s %s' % (f, g, k), oval(x1), oval(x2), 64) for k, x1, x2 in zip(('kind', 'sign', 'exponent', 'fraction'), o, q)]
                        yield Cell(u, 'Unpacked<uint%d_t,int%d_t> %s == %s (%d%s, %d%s, distance %d)' % (F, E, f, g, ta, '+-'[na], tb, '+-'[nb], d), setup, finish, 1500)
        for t, n in kinds:
            for e0 in range(-160, 140, 20):
                for f, g in (('cast_f', 'pack_f'), ('cast_f', 'to_single'), ('cast_d', 'to_double'), ('cast_h', 'to_half')):
                    if t != REG and e0 != -160 or e0 < -(1 << (E - 1)) or e0 + 20 >= 1 << (E - 1):
                        continue

                    def setup(M, t=t, n=n, e0=e0, f=f):
                        k = input_word('k', 64, 5)
                        require_range(k, 64, 0, 19)
                        a = Num(t, n, dom.add(k, e0 & M64, 64), frac('a', F), F)
                        return '@w_' + f, arg_num(a, 64), a

                    def finish(M, ret, a, f=f, g=g):
                        return [Obl('%s == %s' % (f, g), ret, M.call('@w_' + g, arg_num(a, 64)), 64)]
                    yield Cell(u, 'Unpacked<uint%d_t,int%d_t> %s == %s (%d%s from %d)' % (F, E, f, g, t, '+-'[n], e0), setup, finish)
        for f, g, w in (('ctor_f', 'from_single', 32), ('ctor_d', 'from_double', 64), ('ctor_h', 'from_half', 16), ('ctor_tag', 'from_single', 32)):
            for top in range(16):
                def setup(M, f=f, w=w, top=top):
                    x = dom.or_(input_word('x', w, w - 4), top << (w - 4), w)
                    o = outs(4)
                    return '@w_' + f, [x] + o, (x, o)

                def finish(M, ret, y, f=f, g=g):
                    x, o = y
                    q = outs(4)
                    M.call('@w_' + g, [x] + q)
                    return [Obl('%s == %s %s' % (f, g, k), oval(x1), oval(x2), 64) for k, x1, x2 in zip(('kind', 'sign', 'exponent', 'fraction'), o, q)]
                yield Cell(u, 'Unpacked<uint%d_t,int%d_t> %s == %s (%x...)' % (F, E, f, g, top), setup, finish, 1200)
    return gen


def mul_cfgs(cfgs):
    return [c for i, c in enumerate(cfgs) if i % 4 == 0 or c.N == 8 and c.es == 0]


def plan(cfgs=None):
    units, tasks = {}, []
    lim = 400 if TIER == 'thorough' else 60
    for i, c in enumerate(cfgs or configs.all_cfgs()):
        u = c.name
        units[u] = posit_unit(c, XP + XG % dict(N=c.N, es=c.es, spec=c.spec))
        pr = sample(c, lim)
        for f, g in (('addeq', 'add'), ('muleq', 'mul'), ('dvdeq', 'dvd'), ('sub', 'subneg'), ('subeq', 'sub'), ('mul', 'mulu'), ('dvd', 'dvdu'), ('cmul', 'mul'), ('cadd', 'add')):
            tasks.append(rel(u, c, f, g, pr, ''))
        # posit sums do not go through the unpacked form when an operand is zero (it may be truncated there)
        tasks.append(rel(u, c, 'add', 'addu', [x for x in pr if 'zero' not in (x[0].kind, x[1].kind)], ''))
        ps = [(p,) for p in patterns(c, exps=c.maxexp > 110)]
        for f, g in (('fneg', 'mneg'), ('neg', 'mneg'), ('finv', 'minv'), ('oinv', 'minv'), ('sabs', 'mabs'), ('tof', 'tofu'), ('tod', 'todu'), ('toi', 'toiu'),
                     ('bin', 'tof'), ('tou', 'rt'), ('rt2', 'rt'), ('rtlow', 'rt2') if c.F >= c.H else ('rt2', 'rt'), ('selfadd', 'add1'), ('selfmul', 'mul1'), ('selfdvd', 'dvd1'), ('root', 'rootd')):
            tasks.append(rel(u, c, f, g, ps, '', 1200))
        for f, g, w in (('fromf', 'fromfu', 32), ('fromd', 'fromdu', 64), ('fromi', 'fromiu', 32), ('fromtag', 'fromfu', 32)):
            tasks.append(relw(u, c, f, g, w))
        tasks += [relnum(u, c, 'enc2', 'enc'), relnum(u, c, 'enc3', 'enc')]
        tasks += [minmax(u, c, 'smin'), minmax(u, c, 'smax')]
        tr = sample(c, lim // 2, 3)
        tasks.append(rel(u, c, 'pfma', 'fmau', tr, '', 1500))
    for c in mul_cfgs(cfgs or configs.all_cfgs()):
        u = 'm' + c.name
        units[u] = (posit_unit(c, XM), ['-DPOSITMUL'])
        pr = sample(c, lim)
        for f, g in (('m_as', 'm_u'), ('m_cv', 'm_u'), ('m_un', 'p_un'), ('m_f', 'p_f'), ('m_d', 'p_d'), ('m_i', 'p_i'), ('m_muleq', 'm_u')):
            tasks.append(rel(u, c, f, g, pr, '', 1200))
        tr = sample(c, lim // 2, 3)
        tasks += [rel(u, c, 'm_pa', 'm_fma', tr, '', 1500), rel(u, c, 'm_ap', 'm_fma', tr, '', 1500)]
        qd = sample(c, lim // 2, 4)
        tasks += [rel(u, c, 'm_add', 'u_add', qd, '', 1500), rel(u, c, 'm_sub', 'u_sub', qd, '', 1500)]
    if cfgs is None:
        for u, c, src in configs.positf_units():
            units[u] = src + XP + XF.replace('FFT', 'float' if c.F == 32 else 'double')
            pr = sample(c, lim)
            for f, g in (('addeq', 'add'), ('muleq', 'mul'), ('sub', 'subneg'), ('add', 'fadd'), ('mul', 'fmul_'), ('dvd', 'fdvd')):
                tasks.append(rel(u, c, f, g, pr, '', 300))
            tasks.append(rel(u, c, 'pfma', 'ffma', sample(c, lim // 2, 3), '', 300))
            ps = [(p,) for p in patterns(c)]
            for f, g in (('fneg', 'mneg'), ('neg', 'mneg'), ('finv', 'minv'), ('oinv', 'minv'), ('minv', 'finv_'), ('sabs', 'mabs'), ('tof', 'tofu'), ('tod', 'todu'), ('toi', 'toiu'), ('tou', 'rt')):
                tasks.append(rel(u, c, f, g, ps, '', 300))
            for f, g, w in (('fromf', 'fromfu', 32), ('fromd', 'fromdu', 64)):
                tasks.append(relw(u, c, f, g, w))
            tasks += [minmax(u, c, 'smin'), minmax(u, c, 'smax')]
        for u, c, src in configs.tab_units():
            units[u] = src
            pr = sample(c, lim)
            for f, g in (('addeq', 'add'), ('muleq', 'mul'), ('sub', 'subn')):
                tasks.append(rel(u, c, f, g, pr, ''))
            ps = [(p,) for p in patterns(c)]
            for f, g in (('fneg', 'neg'), ('finv', 'inv'), ('fhalf', 'half'), ('ftwice', 'twice'), ('fsquare', 'square'), ('fexp2', 'exp2'), ('rtp', 'rt'), ('rtg', 'rt')):
                tasks.append(rel(u, c, f, g, ps, ''))
            tasks += [minmax(u, c, 'smin'), minmax(u, c, 'smax')]
        for F, E in c18.UT[:7]:
            u = 'u%d_%d' % (F, E)
            units[u] = unpacked_unit(F, E, ['single', 'double', 'half'])
            tasks.append(un_cells(u, F, E))
    return dict(units=units, tasks=tasks, rule=RULE, min_obl=1000)
