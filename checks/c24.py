"""C24 unit range helpers"""
from core import Cell, Obl, require_range
from wit import Cfg, posit_unit, positf_unit
from cells import *
import configs
from c16 import OPQ

RULE = ('abstract interpretation of the unit-range complement on every pattern in [0,1] of the configurations without exponent bits (there the patterns are '
        'the fixed-point values v / 2^(N-2)), of its double application and of the result range; of x(1-x) against the product with the complement; and of the unit-range '
        'predicate on all patterns of all configurations')

X = '''
extern "C" {
i64 w_onem2(T v) { return D(v).urOneMinus().urOneMinus().v; }
i64 w_onemu(T v) { return D(v).urOneMinus().isUnitRange() ? 1 : 0; }
i64 w_dp(T v) { P r = D(v).urDeltaPs(); return r.v; }
i64 w_dpref(T v) { P r = D(v)*D(v).urOneMinus(); return r.v; }
i64 w_addback(T v) { return (D(v)+D(v).urOneMinus()).v; }
}
'''
ES0 = [(8, 8, 0, 8), (8, 8, 0, 32), (8, 5, 0, 8), (8, 6, 0, 16), (16, 16, 0, 16), (16, 9, 0, 16), (16, 13, 0, 32), (32, 32, 0, 32), (32, 17, 0, 64), (64, 60, 0, 64), (64, 33, 0, 64)]


def onem(u, c, lab=''):
    one = 1 << (c.N - 2)

    def cell(fn, want, lo=0, hi=one, opq=None):
        def setup(M):
            x = input_word('v', c.H, c.N - 1)
            require_range(x, c.H, lo, hi)
            return '@w_' + fn, [x], x

        def finish(M, ret, x):
            return [Obl(fn, ret, want(M, x), 64)]
        k = Cell(u, '%s%r %s(0 <= x <= 1)' % (lab, c, fn), setup, finish, 300)
        if opq:
            k.opaque, k.fallback = opq, lambda: pats(fn, want)
        return k

    def pats(fn, want):
        for p in patterns(c):
            if p.kind == 'reg' and not p.neg and p.r < 0 or p.kind == 'zero':
                def setup(M, p=p):
                    return '@w_' + fn, [p.word()], p.word()

                def finish(M, ret, x):
                    return [Obl(fn, ret, want(M, x), 64)]
                yield Cell(u, '%s%r %s(%r)' % (lab, c, fn, p), setup, finish, 300)

    def gen():
        yield cell('onem', lambda M, x: dom.sub(one, word64(x, c.H), 64))
        yield cell('onem2', lambda M, x: word64(x, c.H))
        yield cell('onemu', lambda M, x: 1)
        yield cell('dp', lambda M, x: M.call('@w_dpref', [x]), opq=OPQ)
        # by regime: complement of the decoded value, exact in a wide significand
        for p in patterns(c, exps=True):
            if p.kind == 'reg' and not p.neg and p.r < 0 and (c.N <= 20 or p.r > -12 or p.r % 5 == 0):
                def setup(M, p=p):
                    return '@w_onem', [p.word()], None

                def finish(M, ret, o, p=p):
                    # value of the pattern in units of 2^-(N-2): 2^r 1.f
                    k = c.N - 2 + p.r
                    fb = bits_of(p.num().f, c.H)[::-1][:k]
                    x = mk(c.H, list(reversed(fb)) + [1] + [0] * (c.H - k - 1))
                    return [Obl('1 - x', ret, dom.sub(one, word64(x, c.H), 64), 64)]
                yield Cell(u, '%s%r onem(%r)' % (lab, c, p), setup, finish, 300)
        for v, w in ((0, one), (one, 0)):
            def setup(M, v=v):
                return '@w_onem', [v], None

            def finish(M, ret, o, w=w):
                return [Obl('1 - x', ret, w, 64)]
            yield Cell(u, '%s%r onem(0x%x)' % (lab, c, v), setup, finish)
    return gen


def inunit(p):
    if p.kind == 'zero':
        return 1
    if p.kind != 'reg' or p.neg:
        return 0
    if p.r < 0:
        return 1
    one = 1 << (p.cfg.N - 2)
    return 1 if spec.lit(dom.eq(p.word(), one, p.cfg.H)) else 0


def plan(cfgs=None):
    units, tasks = {}, []
    for c in cfgs or configs.all_cfgs():
        units[c.name] = posit_unit(c, X)
        tasks.append(unary(c.name, c, 'unit', inunit))
    for b in ES0 if cfgs is None else ES0[::3]:
        for s in ('WithNan', 'WithInf', 'WithNanInf'):
            c = Cfg(*b, s)
            units[c.name] = posit_unit(c, X)
            tasks.append(onem(c.name, c))
    if cfgs is None:
        for u, c, src in configs.positf_units():
            units[u] = src + X
            tasks.append(unary(u, c, 'unit', inunit))
            if c.es == 0:
                tasks.append(onem(u, c, 'PositF '))
    return dict(units=units, tasks=tasks, rule=RULE, min_obl=500)
