"""C19 addition and subtraction"""
from core import Cell, Obl, TIER
from wit import posit_unit, unpacked_unit
from cells import *
import configs
from c18 import pairs

RULE = ('abstract interpretation of + and - (also += and -=) with both fractions symbolic, partitioned by signs and exponent distance (each distance up to two '
        'beyond the fraction width, and both tails beyond it); the result must be the aligned sum or difference with the sign of the larger magnitude, '
        'normalised by exactly the number of leading zeros; posits: pairs of regime/exponent cells, re-encoded; float backed posits: same abstract value as the sum of the backing type')

UT = [(8, 8), (8, 16), (16, 16), (16, 32), (32, 32), (64, 32), (64, 64), (32, 16)]
OPS = {'add': spec.add, 'sub': lambda a, b: spec.add(a, spec.neg(b)), 'addeq': spec.add, 'subeq': lambda a, b: spec.add(a, spec.neg(b))}
FULL = UT


def base(F, E):
    u = input_word('e', 64, E - 1)
    q = 1 << (E - 2)
    require_range(u, 64, 1, mask(E - 1))
    return dom.sub(u, q, 64)


def dists(F, E, full):
    lim = min(F + 2, (1 << (E - 2)) - 1)
    ds = list(range(-lim, lim + 1))
    if not full:
        ds = [d for d in ds if abs(d) <= 4 or abs(d) >= F - 3 or d % 9 == 0]
    return ds


def ucells(u, F, E, op, ds):
    def gen():
        for d in ds:
            for na in (0, 1):
                for nb in (0, 1):
                    def setup(M, na=na, nb=nb, d=d):
                        if d in ('far+', 'far-'):
                            # distance beyond the fraction width
                            e = input_word('e', 64, E - 3)
                            t = input_word('d', 64, E - 2)
                            require_range(t, 64, F + 3, mask(E - 2))
                            e = dom.sub(e, 1 << (E - 4), 64)
                            far = dom.add(e, t, 64)
                            ea, eb = (far, e) if d == 'far+' else (e, far)
                        else:
                            eb = base(F, E)
                            ea = dom.add(eb, d & M64, 64)
                        a, b = Num(REG, na, ea, frac('a', F), F), Num(REG, nb, eb, frac('b', F), F)
                        o = outs(4)
                        return '@w_u' + op, arg_num(a, 64) + arg_num(b, 64) + o, (a, b, o)

                    def finish(M, ret, x, d=d):
                        a, b, o = x
                        if op.startswith('sub'):
                            b = spec.neg(b)
                        dd = d if type(d) is int else F + 3 if d == 'far+' else -F - 3
                        return num_obls(o, spec.add_at(a, b, dd))
                    yield Cell(u, 'Unpacked<uint%d_t,int%d_t> %s(%s,%s distance %s)' % (F, E, op, '+-'[na], '+-'[nb], d), setup, finish, 1500)
    return gen


def pwant(op):
    def want(p, q):
        c = p.cfg
        return enc64(c, OPS[op](p.num().recast(c.F), q.num().recast(c.F)))
    return want


def cfgs_():
    return [c for i, c in enumerate(configs.all_cfgs()) if c.spec == 'WithNan' or i % 3 == 0]


def plan(cfgs=None):
    units, tasks = {}, []
    for F, E in UT if cfgs is None else UT[1::3]:
        u = 'u%d_%d' % (F, E)
        units[u] = unpacked_unit(F, E)
        full = TIER == 'thorough' or (F, E) in FULL
        ds = dists(F, E, full)
        if F + 3 <= mask(E - 2):
            ds += ['far+', 'far-']
        for op in OPS:
            for part in split(ds if op == 'add' else ds[::3] + ds[-2:], 8):
                tasks.append(ucells(u, F, E, op, part))
    lim = 3000 if TIER == "thorough" else 600
    for c in cfgs or cfgs_():
        units[c.name] = posit_unit(c)
        pr = pairs(c, lim)
        for op in ('add', 'sub'):
            for part in split(pr, 4):
                tasks.append(binary(c.name, c, op, pwant(op), part))
    if cfgs is None:
        import c18
        c18.float_backed(units, tasks, (('add', 'fadd'), ('addeq', 'fadd'), ('sub', 'fsub')), lim // 8)
    return dict(units=units, tasks=tasks, rule=RULE, min_obl=1000)
