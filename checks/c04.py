"""C04 special codes and predicates"""
from core import Cell, Obl
from wit import posit_unit
from cells import *
import configs

RULE = ('abstract interpretation of the predicates over a partition of all patterns (each predicate must be the constant the '
        'code assigns, or the exact equality with the code of one) and of encoding for every special kind and sign')


def predbits(p):
    c = p.cfg
    t = p.num().t
    b = 0
    if t == NAN:
        b |= 1
    if t == INF:
        b |= 2
    if t == ZERO:
        b |= 4
    w = p.word()
    one = 1 << (c.N - 2)
    l = dom.eq(w, one, c.H)
    if spec.lit(l):
        b |= 8
    if spec.lit(bits_of(w, c.H)[c.H - 1]):
        b |= 16
    return b | (32 if c.nan else 0)


def enc_cells(u, cfg):
    def gen():
        for fn in ('enc', 'enclow'):
            for t in (INF, NAN, ZERO):
                for n in (0, 1):
                    def setup(M, fn=fn, t=t, n=n):
                        return '@w_' + fn, [t, n, 0, 0] + ([0] if fn == 'enclow' else []), None

                    def finish(M, ret, o, t=t, n=n):
                        return [Obl('code', ret, enc64(cfg, Num(t, n)), 64)]
                    yield Cell(u, '%r %s(kind %d sign %d)' % (cfg, fn, t, n), setup, finish)
    return gen


def plan(cfgs=None):
    units, tasks = {}, []
    for c in cfgs or configs.all_cfgs():
        units[c.name] = posit_unit(c)
        tasks += [unary(c.name, c, 'pred', predbits, label='predicates'), enc_cells(c.name, c)]
    if cfgs is None:
        for u, c, src in configs.positf_units():
            units[u] = src
            tasks += [unary(u, c, 'pred', predbits, label='predicates'), enc_cells(u, c)]
        for u, c, src in configs.tab_units():
            units[u] = src
            tasks.append(unary(u, c, 'pred', lambda p: predbits(p) & 19, label=c.tname + ' predicates'))
    return dict(units=units, tasks=tasks, rule=RULE, min_obl=1000)
