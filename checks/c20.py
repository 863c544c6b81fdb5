"""C20 reciprocal"""
from core import Cell, Obl
from wit import posit_unit, unpacked_unit
from cells import *
import configs
from c18 import UT, sym

RULE = ('abstract interpretation of the reciprocal with the fraction symbolic: unpacked values (sign x zero / non-zero fraction, any exponent whose '
        'negation fits), every posit pattern by sign, regime and exponent, in the member, operator and free function spelling and through the unpacked '
        'form; the result must be the truncated quotient one / value with the same sign, and the exact opposite power for powers of two; float backed posits: same abstract value as one divided by it in the backing type')


def ucells(u, F, E):
    def gen():
        for n in (0, 1):
            for z in (0, 1):
                def setup(M, n=n, z=z):
                    a = sym('a', n, F, E)
                    if z:
                        a.f = 0
                    o = outs(4)
                    return '@w_uinv', arg_num(a, 64) + o, (a, o)

                def finish(M, ret, x, z=z):
                    a, o = x
                    if z:
                        return num_obls(o, Num(REG, a.n, dom.neg(a.e, 64), 0, F))
                    return num_obls(o, spec.inv(a))
                yield Cell(u, 'Unpacked<uint%d_t,int%d_t> inv(%s%s)' % (F, E, '+-'[n], ' power of two' if z else ''), setup, finish)
        # one divided by it, in the division's own terms
        for n in (0, 1):
            def setup(M, n=n):
                a = sym('a', n, F, E)
                require_nonzero(a.f, F)
                o = outs(4)
                return '@w_udvd', [0, 0, 0, 0] + arg_num(a, 64) + o, (a, o)

            def finish(M, ret, x):
                a, o = x
                return num_obls(o, spec.inv(a))
            yield Cell(u, 'Unpacked<uint%d_t,int%d_t> 1/(%s)' % (F, E, '+-'[n]), setup, finish)
    return gen


def require_nonzero(f, F):
    # below two the two definitions only differ in the last bit the division drops: keep it clear of that
    require_range(f, F, 2, mask(F))


def pwant(p):
    return enc64(p.cfg, spec.inv(p.num().recast(p.cfg.F)))


def plan(cfgs=None):
    units, tasks = {}, []
    for F, E in UT if cfgs is None else UT[1::3]:
        u = 'u%d_%d' % (F, E)
        units[u] = unpacked_unit(F, E)
        tasks.append(ucells(u, F, E))
    for c in cfgs or configs.all_cfgs():
        units[c.name] = posit_unit(c)
        for f in ('minv', 'oinv', 'finv', 'invu'):
            tasks.append(unary(c.name, c, f, pwant, pats=patterns(c, exps=True), label='inverse ' + f))
    if cfgs is None:
        import c18
        c18.float_backed(units, tasks, (), 0, (('minv', 'finv_'), ('oinv', 'finv_'), ('finv', 'finv_')))
    return dict(units=units, tasks=tasks, rule=RULE, min_obl=1000)
