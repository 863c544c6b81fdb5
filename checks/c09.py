"""C09 reading IEEE-style floats"""
from core import Cell, Obl
from wit import posit_unit, unpacked_unit, TRAITS
from cells import *
import configs

RULE = ('abstract interpretation of float unpacking over sign x exponent field class (zero / normal range / all ones) with the fraction symbolic, '
        'for several fraction and exponent types; every output bit must be the input bit the IEEE layout assigns; the posit constructors must '
        'give the encoding of that number (exponent field enumerated)')

UT = [(8, 8), (8, 16), (16, 16), (16, 32), (32, 16), (32, 32), (64, 32), (64, 64), (32, 8)]


def fword(eb, fb, n, ecls):
    """float word of sign n, exponent class"""
    f = [dom.inbit('f', i) for i in range(fb)]
    if ecls == 'zero':
        e = [0] * eb
    elif ecls == 'ones':
        e = [1] * eb
    elif ecls == 'normal':
        e = [dom.inbit('x', i) for i in range(eb)]
        require_range(mk(64, e + [0] * (64 - eb)), 64, 1, mask(eb) - 1)
    elif ecls.__class__ is tuple:
        e = [dom.inbit('x', i) for i in range(eb)]
        require_range(mk(64, e + [0] * (64 - eb)), 64, *ecls)
    else:
        e = [(ecls >> i) & 1 for i in range(eb)]
    return mk(1 + eb + fb, f + e + [n])


def classes(eb, E):
    bias = mask(eb - 1)
    lo, hi = bias - (1 << (E - 1)), bias + mask(E - 1)     # fields whose exponent just fits
    a, b = max(1, lo), min(mask(eb) - 1, hi)
    r = ['zero', 'ones'] + (list(range(a, b + 1)) if E < eb else [(a, b)])
    if a > 1:
        r.append((1, a - 1))
    if b < mask(eb) - 1:
        r.append((b + 1, mask(eb) - 1))
    return r


def ucells(u, F, E, fn, eb, fb, den):
    def gen():
        for n in (0, 1):
            for ec in classes(eb, E):
                def setup(M, n=n, ec=ec):
                    x = fword(eb, fb, n, ec)
                    o = outs(4)
                    return '@w_' + fn, [x] + o, (x, o)

                def finish(M, ret, xo):
                    x, o = xo
                    return num_obls(o, spec.unpack_float(x, eb, fb, den, F, E))
                yield Cell(u, 'Unpacked<uint%d_t,int%d_t> %s(%s exponent %s)' % (F, E, fn, '+-'[n], ec), setup, finish, 2000)
    return gen


def pcells(u, cfg, fn, eb, fb):
    bias = mask(eb - 1)

    def gen():
        lo, hi = max(1, cfg.minexp + bias - 1), min(mask(eb) - 1, cfg.maxexp + bias + 1)
        ec = list(range(lo, hi + 1)) + ['zero', 'ones']
        if lo > 1:
            ec.append((1, lo - 1))
        if hi < mask(eb) - 1:
            ec.append((hi + 1, mask(eb) - 1))
        for n in (0, 1):
            for e in ec:
                def setup(M, n=n, e=e):
                    x = fword(eb, fb, n, e)
                    return '@w_' + fn, [x], x

                def finish(M, ret, x):
                    return [Obl('posit', ret, enc64(cfg, spec.unpack_float(x, eb, fb, True, cfg.F, cfg.E)), 64)]
                yield Cell(u, '%r %s(%s exponent %s)' % (cfg, fn, '+-'[n], e), setup, finish, 2000)
    return gen


CT = {'ctor_f': 'single', 'ctor_d': 'double', 'ctor_h': 'half', 'ctor_tag': 'single'}


def cfgs_():
    return [c for i, c in enumerate(configs.all_cfgs()) if c.spec == 'WithNan' or i % 4 == 0]


def plan(cfgs=None):
    units, tasks = {}, []
    for F, E in UT if cfgs is None else UT[1::3]:
        u = 'u%d_%d' % (F, E)
        units[u] = unpacked_unit(F, E, list(TRAITS))
        for t, (c, eb, fb, den) in TRAITS.items():
            tasks.append(ucells(u, F, E, 'from_' + t, eb, fb, den))
        for k, t in CT.items():
            c, eb, fb, den = TRAITS[t]
            tasks.append(ucells(u, F, E, k, eb, fb, den))
    for c in cfgs or cfgs_():
        units[c.name] = posit_unit(c)
        tasks += [pcells(c.name, c, 'fromf', 8, 23), pcells(c.name, c, 'fromtag', 8, 23), pcells(c.name, c, 'fromd', 11, 52)]
    return dict(units=units, tasks=tasks, rule=RULE, min_obl=1000)
