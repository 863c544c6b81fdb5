"""C18 multiplication and division"""
import random
from core import Cell, Obl, SEED, TIER
from wit import posit_unit, unpacked_unit
from cells import *
import configs

RULE = ('abstract interpretation of * and / with both fractions symbolic (products and quotients as hash-consed words); unpacked: sign x any exponents '
        'of the no-overflow range; posits: pairs of regime cells; sign, exponent and every fraction bit must be those of the exact product / '
        'quotient truncated toward zero (checked after normalisation and re-encoding); float backed posits: same abstract value as the operation of the backing type')

UT = [(8, 8), (8, 16), (16, 16), (16, 32), (32, 16), (32, 32), (64, 32), (64, 64)]
OPS = {'mul': spec.mul, 'dvd': spec.div}


def sym(nm, n, F, E):
    u = input_word(nm + 'e', 64, E - 1)
    # |e| <= 2^(E-2) - 1: neither sum nor difference leaves the exponent type
    require_range(u, 64, 1, mask(E - 1))
    return Num(REG, n, dom.sub(u, 1 << (E - 2), 64), frac(nm, F), F)


def ucells(u, F, E, op):
    def gen():
        for na in (0, 1):
            for nb in (0, 1):
                def setup(M, na=na, nb=nb):
                    a, b = sym('a', na, F, E), sym('b', nb, F, E)
                    o = outs(4)
                    return '@w_u' + op, arg_num(a, 64) + arg_num(b, 64) + o, (a, b, o)

                def finish(M, ret, x):
                    a, b, o = x
                    return num_obls(o, OPS[op](a, b))
                yield Cell(u, 'Unpacked<uint%d_t,int%d_t> %s(%s,%s)' % (F, E, op, '+-'[na], '+-'[nb]), setup, finish)
        # exact by position: a power of two as the other operand
        for na, nb, k in [(n, m, k) for n in (0, 1) for m in (0, 1) for k in (0, 1)]:
            def setup(M, na=na, nb=nb, k=k):
                a, b = sym('a', na, F, E), sym('b', nb, F, E)
                b.f = 0
                if k and op == 'mul':
                    a, b = b, a
                o = outs(4)
                return '@w_u' + op, arg_num(a, 64) + arg_num(b, 64) + o, (a, b, o, k)

            def finish(M, ret, x):
                a, b, o, k = x
                # the other operand without the last fraction bit; a product below two keeps one bit less
                lost = 2 if op == 'mul' else 1
                y = b if k and op == 'mul' else a
                e = dom.add(a.e, b.e, 64) if op == 'mul' else dom.sub(a.e, b.e, 64)
                f = mk(F, (0,) * lost + bits_of(y.f, F)[lost:])
                return num_obls(o, Num(REG, a.n ^ b.n, e, f, F))
            yield Cell(u, 'Unpacked<uint%d_t,int%d_t> %s by power of two %d (%s,%s)' % (F, E, op, k, '+-'[na], '+-'[nb]), setup, finish)
    return gen


def pairs(cfg, lim):
    """pairs of regular cells: all of them, or a deterministic choice that always has the ends and the middle"""
    A = [p for p in patterns(cfg, 'a', exps='some') if p.kind == 'reg']
    B = [p for p in patterns(cfg, 'b', exps='some') if p.kind == 'reg']
    if len(A) * len(B) <= lim:
        return [(p, q) for p in A for q in B]
    rng = random.Random(SEED * 1000 + cfg.N)
    ends = [x for x in range(len(A)) if A[x].r in (cfg.minreg, cfg.minreg + 1, -1, 0, cfg.maxreg - 1, cfg.maxreg)]
    n = len(ends) ** 2
    core_ = [(A[ends[k // len(ends)]], B[ends[k % len(ends)]]) for k in (range(n) if n <= lim // 2 else rng.sample(range(n), lim // 2))]
    return core_ + [(A[k // len(B)], B[k % len(B)]) for k in rng.sample(range(len(A) * len(B)), lim - len(core_))]


def pwant(op):
    def want(p, q):
        c = p.cfg
        return enc64(c, OPS[op](p.num().recast(c.F), q.num().recast(c.F)))
    return want


def cfgs_():
    return [c for i, c in enumerate(configs.all_cfgs()) if c.spec == 'WithNan' or i % 3 == 0]


def float_backed(units, tasks, ops, lim, un=()):
    """float backed posits: the operator is the operation of the backing float type, encoded"""
    import c16
    for u, c, src in configs.positf_units():
        units[u] = src + c16.XP + c16.XF.replace('FFT', 'float' if c.F == 32 else 'double')
        for f, g in ops:
            tasks.append(c16.rel(u, c, f, g, c16.sample(c, lim), '', 300))
        for f, g in un:
            tasks.append(c16.rel(u, c, f, g, [(p,) for p in patterns(c)], '', 300))


def plan(cfgs=None):
    units, tasks = {}, []
    for F, E in UT if cfgs is None else UT[1::3]:
        u = 'u%d_%d' % (F, E)
        units[u] = unpacked_unit(F, E)
        tasks += [ucells(u, F, E, 'mul'), ucells(u, F, E, 'dvd')]
    lim = 4000 if TIER == 'thorough' else 700
    for c in cfgs or cfgs_():
        units[c.name] = posit_unit(c)
        pr = pairs(c, lim)
        for op in OPS:
            for part in split(pr, 2):
                tasks.append(binary(c.name, c, op, pwant(op), part))
    if cfgs is None:
        float_backed(units, tasks, (('mul', 'fmul_'), ('dvd', 'fdvd'), ('muleq', 'fmul_')), lim // 8)
    return dict(units=units, tasks=tasks, rule=RULE, min_obl=1000)
