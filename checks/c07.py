"""C07 negation and absolute value"""
from core import Cell, Obl
from wit import posit_unit, unpacked_unit
from cells import *
import configs

RULE = ('abstract interpretation of negation and absolute value in every spelling over a partition of all patterns; the result must be '
        'the canonical word of the same exponent and fraction with the other sign (itself for zero and the top code)')


def nword(p):
    w = p.word()
    return word64(w if p.kind == 'top' else dom.neg(w, p.cfg.H), p.cfg.H)


def aword(p):
    if p.kind == 'ninf' or p.kind == 'reg' and p.neg:
        return nword(p)
    return word64(p.word(), p.cfg.H)


UT = [(8, 16), (16, 32), (32, 32), (64, 64), (64, 32), (8, 8)]


def ucells(u, F, E):
    def gen():
        for t in (REG, INF, NAN, ZERO):
            for n in (0, 1):
                if t in (NAN, ZERO) and n:
                    continue

                def setup(M, t=t, n=n):
                    a = Num(t, n, W=F) if t != REG else Num(REG, n, dom.sext(input_word('e', E), E, 64) if E < 64 else input_word('e', 64), frac('f', F), F)
                    o = outs(4)
                    return '@w_uneg', arg_num(a, 64) + o, (a, o)

                def finish(M, ret, x):
                    return num_obls(x[1], spec.neg(x[0]))
                yield Cell(u, 'Unpacked<uint%d_t,int%d_t> -(%s%d)' % (F, E, '+-'[n], t), setup, finish)
    return gen


def plan(cfgs=None):
    units, tasks = {}, []

    def add(u, c, fns):
        for f in fns:
            tasks.append(unary(u, c, f, {'n': nword, 'a': aword, 'i': lambda p: word64(p.word(), p.cfg.H)}[fns[f]]))
    FN = {'neg': 'n', 'mneg': 'n', 'fneg': 'n', 'mabs': 'a', 'sabs': 'a', 'negneg': 'i'}
    for c in cfgs or configs.all_cfgs():
        units[c.name] = posit_unit(c)
        add(c.name, c, FN)
    if cfgs is None:
        for u, c, src in configs.positf_units():
            units[u] = src
            add(u, c, FN)
        for u, c, src in configs.tab_units():
            units[u] = src
            add(u, c, {'neg': 'n', 'fneg': 'n', 'sabs': 'a', 'negneg': 'i'})
        for F, E in UT:
            u = 'u%d_%d' % (F, E)
            units[u] = unpacked_unit(F, E)
            tasks.append(ucells(u, F, E))
    return dict(units=units, tasks=tasks, rule=RULE, min_obl=1000)
