"""C10 writing IEEE-style floats"""
from core import Cell, Obl
from wit import posit_unit, unpacked_unit, TRAITS
from cells import *
import configs
from c09 import UT

RULE = ('abstract interpretation of float packing over kind x sign x exponent class (above range, normal range, each denormal exponent, below range) '
        'with the fraction symbolic; every bit of the float must be the bit of the truncated significand / biased exponent, or the saturated value; '
        'the conversion operators of posits likewise for every pattern (partitioned by regime and exponent)')


def eclasses(eb, fb, E):
    """(label, builder) of exponents of an E bit type, |e| <= 2^(E-1)"""
    bias = mask(eb - 1)
    lim = mask(E - 1)
    n = 1 + eb + fb
    out = []
    top = mask(eb) - 1 - bias           # largest finite exponent
    lo, hi = max(1 - bias, -lim - 1), min(top, lim)

    def rng(a, b):
        """a..b"""
        def f():
            if a == b:
                return a & M64
            u = input_word('e', 64, (b - a).bit_length())
            require_range(u, 64, 0, b - a)
            return dom.add(u, a & M64, 64)
        return f
    if E <= eb:
        out += [('exponent %d' % e, (lambda e=e: e & M64)) for e in range(lo, hi + 1)]
    else:
        def normal():
            # the biased exponent field is the input word
            u = input_word('x', 64, eb)
            require_range(u, 64, lo + bias, hi + bias)
            return dom.add(u, -bias & M64, 64)
        out.append(('normal', normal))
    if lim > top:
        out.append(('above', rng(top + 1, lim)))
    if -lim - 1 < 1 - bias:
        for e in range(max(-lim - 1, 1 - bias - n - 4), 1 - bias):
            out.append(('denormal %d' % e, (lambda e=e: e & M64)))
        b = 1 - bias - n - 5
        if b > -lim - 1:
            out.append(('below', rng(-lim - 1, b)))
    return out


def ucells(u, F, E, fn, eb, fb, den):
    n_ = 1 + eb + fb

    def gen():
        for n in (0, 1):
            cl = [(str(t), (lambda t=t, n=n: Num(t, n, W=F))) for t in (INF, NAN, ZERO)]
            cl += [(lab, (lambda b=b, n=n: Num(REG, n, b(), frac('f', F), F))) for lab, b in eclasses(eb, fb, E)]
            for lab, mkx in cl:
                def setup(M, mkx=mkx):
                    x = mkx()
                    return '@w_' + fn, arg_num(x, 64), x

                def finish(M, ret, x):
                    return [Obl('float', ret, dom.zext(spec.pack_float(x, eb, fb, den), n_, 64) if n_ < 64 else spec.pack_float(x, eb, fb, den), 64)]
                yield Cell(u, 'Unpacked<uint%d_t,int%d_t> %s(%s %s)' % (F, E, fn, '+-'[n], lab), setup, finish, 2000)
    return gen


def pwant(eb, fb, sx):
    def want(p):
        x = p.num().recast(p.cfg.F)
        if p.kind == 'top' and not p.cfg.nan:
            return None
        r = spec.pack_float(x, eb, fb, True)
        n = 1 + eb + fb
        return r if n == 64 else dom.sext(r, n, 64) if sx else dom.zext(r, n, 64)
    return want


FE = ((-155, -126), (127, 128))         # denormal and boundary exponents of single and double
DE = ((-1080, -1022), (1023, 1024))
CT = {'cast_f': 'single', 'cast_d': 'double', 'cast_h': 'half', 'pack_f': 'single'}


def plan(cfgs=None):
    units, tasks = {}, []
    for F, E in UT if cfgs is None else UT[1::3]:
        u = 'u%d_%d' % (F, E)
        units[u] = unpacked_unit(F, E, list(TRAITS))
        for t, (c, eb, fb, den) in TRAITS.items():
            tasks.append(ucells(u, F, E, 'to_' + t, eb, fb, den))
        for k, t in CT.items():
            c, eb, fb, den = TRAITS[t]
            tasks.append(ucells(u, F, E, k, eb, fb, den))
    for c in cfgs or configs.all_cfgs():
        units[c.name] = posit_unit(c)
        tasks.append(unary(c.name, c, 'tof', pwant(8, 23, False), label='float', pats=patterns(c, exps=FE)))
        tasks.append(unary(c.name, c, 'tod', pwant(11, 52, False), label='double', pats=patterns(c, exps=DE)))
        tasks.append(unary(c.name, c, 'bin', pwant(8, 23, False), label='float bits', pats=patterns(c, exps=FE)))
    return dict(units=units, tasks=tasks, rule=RULE, min_obl=1000)
