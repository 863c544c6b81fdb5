"""C11 integers and fixed point"""
from core import Cell, Obl
from wit import posit_unit, unpacked_unit
from cells import *
import configs

RULE = ('abstract interpretation of fixed-point / integer conversions: unpacking over sign x position of the leading one with all lower bits symbolic '
        '(plus zero and the lowest word), packing over kind x sign x each exponent inside the word and the two ranges outside it with the fraction '
        'symbolic; every bit must be the one the value assigns; posit conversions to and from int likewise for every pattern / integer class')

UT = [(8, 8), (8, 16), (16, 16), (16, 32), (32, 16), (32, 32), (64, 32), (64, 64), (32, 8)]
FX = [(8, 8, 0), (8, 8, 3), (8, 8, 7), (16, 16, 0), (16, 16, 8), (16, 16, 15), (32, 32, 0), (32, 32, 1), (32, 32, 16), (32, 32, 31), (64, 64, 0), (64, 64, 32), (64, 64, 60)]


def words(T):
    """(label, builder) partition of T-bit words"""
    yield 'zero', lambda: 0
    yield 'lowest', lambda: 1 << (T - 1)
    for n in (0, 1):
        for k in range(T - 1):
            def b(n=n, k=k):
                m = mk(T, [dom.inbit('x', i) for i in range(k)] + [1] + [0] * (T - 1 - k))
                return dom.neg(m, T) if n else m
            yield '%slead %d' % ('+-'[n], k), b


def num_of(lab, x, T, F):
    """number of the word built by words()"""
    if lab == 'zero':
        return Num(ZERO, W=T)
    if lab == 'lowest':
        return Num(REG, 1, (T - 1 - F) & M64, 0, T)
    n = lab[0] == '-'
    k = int(lab.split()[1])
    f = [dom.inbit('x', i) for i in range(k)]
    return Num(REG, int(n), (k - F) & M64, mk(T, [0] * (T - k) + f), T)


def fits(lab, T, F, E):
    """exponent representable"""
    lim = mask(E - 1)
    return T - 1 - F <= lim and -F >= -lim - 1


def unp(u, F, E, fn, T, Fb):
    def gen():
        for lab, b in words(T):
            def setup(M, b=b):
                o = outs(4)
                return '@w_' + fn, [b()] + o, o

            def finish(M, ret, o, lab=lab):
                return num_obls(o, num_of(lab, None, T, Fb).recast(F))
            yield Cell(u, 'Unpacked<uint%d_t,int%d_t> %s(%s)' % (F, E, fn, lab), setup, finish)
    return gen


def exps(T, Fb, E):
    lim = mask(E - 1)
    top = T - Fb - 1                       # saturation from here
    for e in range(max(-lim - 1, -Fb - 2), min(lim, top + 2) + 1):
        yield 'exponent %d' % e, (lambda e=e: e & M64)

    def rng(a, b):
        def f():
            u = input_word('e', 64, (b - a).bit_length())
            require_range(u, 64, 0, b - a)
            return dom.add(u, a & M64, 64)
        return f
    if lim > top + 2:
        yield 'above', rng(top + 3, lim)
    if -lim - 1 < -Fb - 2:
        yield 'below', rng(-lim - 1, -Fb - 3)


def want_fixed(x, T, Fb):
    """the T-bit word of x, written from the definition"""
    if x.t != REG:
        return 0
    e = x.e
    if type(e) is not int:
        lo, hi = dom.srange(e, 64)
        if lo >= T - Fb - 1:
            e = T
        elif hi < -Fb:
            e = -Fb - 1
        else:
            raise ValueError('open exponent class')
    else:
        e = dom.sgn(e, 64)
    if e >= T - Fb - 1:
        return 1 << (T - 1) if x.n else mask(T - 1)
    if e < -Fb:
        return 0
    k = e + Fb
    b = bits_of(x.f, x.W)[::-1]
    b = (b + (0,) * k)[:k]
    m = mk(T, tuple(reversed(b)) + (1,) + (0,) * (T - k - 1))
    return dom.neg(m, T) if x.n else m


def pck(u, F, E, fn, T, Fb):
    def gen():
        cl = [('kind %d sign %d' % (t, n), (lambda t=t, n=n: Num(t, n, W=F))) for t in (INF, NAN, ZERO) for n in (0, 1)]
        for lab, b in exps(T, Fb, E):
            for n in (0, 1):
                cl.append(('%s %s' % ('+-'[n], lab), (lambda b=b, n=n: Num(REG, n, b(), frac('f', F), F))))
        for lab, mkx in cl:
            def setup(M, mkx=mkx):
                x = mkx()
                return '@w_' + fn, arg_num(x, 64), x

            def finish(M, ret, x):
                w = want_fixed(x, T, Fb)
                return [Obl('word', ret, dom.sext(w, T, 64) if T < 64 else w, 64)]
            yield Cell(u, 'Unpacked<uint%d_t,int%d_t> %s(%s)' % (F, E, fn, lab), setup, finish)
    return gen


def from_int(u, cfg, fn='fromi', lab2=''):
    def gen():
        for lab, b in words(32):
            def setup(M, b=b):
                return '@w_' + fn, [b()], None

            def finish(M, ret, o, lab=lab):
                return [Obl('posit', ret, enc64(cfg, num_of(lab, None, 32, 0).recast(cfg.F)), 64)]
            yield Cell(u, '%r %sfrom int(%s)' % (cfg, lab2, lab), setup, finish)
    return gen


def to_int(p):
    w = want_fixed(p.num().recast(p.cfg.F), 32, 0)
    return dom.sext(w, 32, 64)


def plan(cfgs=None):
    units, tasks = {}, []
    for F, E in UT if cfgs is None else UT[1::3]:
        u = 'u%d_%d' % (F, E)
        units[u] = unpacked_unit(F, E, (), FX)
        for (T, N, Fb) in FX:
            nm = '%d_%d_%d' % (T, N, Fb)
            tasks += [unp(u, F, E, 'fromx_' + nm, T, Fb), pck(u, F, E, 'tox_' + nm, T, Fb)]
        tasks += [unp(u, F, E, 'ctor_i', 32, 0), pck(u, F, E, 'cast_i', 32, 0)]
    for c in cfgs or configs.all_cfgs():
        units[c.name] = posit_unit(c)
        tasks.append(from_int(c.name, c))
        tasks.append(unary(c.name, c, 'toi', to_int, label='int', pats=patterns(c, exps=((-1, 32),))))
    return dict(units=units, tasks=tasks, rule=RULE, min_obl=1000)
