"""C01 decode of every pattern"""
from core import Cell, Obl
from wit import posit_unit
from cells import *
import configs

RULE = ('abstract interpretation of unpack()/unpack_low()/analyze() over a partition of all patterns by sign and regime '
        '(remaining bits symbolic); every output bit must be the input bit (or constant) the posit format assigns')


def full(u, cfg, fname='dec'):
    def gen():
        for p in patterns(cfg):
            def setup(M, p=p):
                o = outs(4)
                return '@w_' + fname, [p.word()] + o, o

            def finish(M, ret, o, p=p):
                return num_obls(o, p.num().recast(cfg.F), sign=not (p.kind == 'top'))
            yield Cell(u, '%r unpack(%r)' % (cfg, p), setup, finish)
    return gen


def low(u, cfg):
    def gen():
        for p in patterns(cfg):
            def setup(M, p=p):
                o = outs(5)
                return '@w_declow', [p.word()] + o, o

            def finish(M, ret, o, p=p):
                x = p.num()
                r = [Obl('kind', oval(o[0]), x.t, 64)]
                if p.kind != 'top':
                    r.append(Obl('sign', oval(o[1]), x.n, 64))
                if p.kind == 'reg':
                    rg, e, f = p.parts()
                    r += [Obl('regime', oval(o[2]), rg & mask(64), 64), Obl('exponent bits', oval(o[3]), e, 64),
                          Obl('fraction', oval(o[4]), dom.zext(f, cfg.H, 64) if cfg.H < 64 else f, 64)]
                return r
            yield Cell(u, '%r unpack_low(%r)' % (cfg, p), setup, finish)
    return gen


def analyze(u, cfg):
    """the field by field description of a pattern"""
    def gen():
        for p in patterns(cfg):
            def setup(M, p=p):
                o = outs(8)
                return '@w_ana', [p.word()] + o, o

            def finish(M, ret, o, p=p):
                if p.kind != 'reg':
                    fl = 0 if p.kind == 'zero' else 2 if p.kind == 'top' and cfg.nan else 1
                    if p.kind == 'ninf':
                        fl |= 4
                    return [Obl('flags', oval(o[0]), fl, 64)]
                rg, e, f = p.parts()
                body, eb, fb = p.layout()
                x = p.num().recast(cfg.F)
                return [Obl('flags', oval(o[0]), p.neg << 2, 64), Obl('regime', oval(o[1]), rg & mask(64), 64),
                        Obl('regime size', oval(o[2]), len(body), 64), Obl('exponent size', oval(o[3]), len(eb), 64),
                        Obl('fraction size', oval(o[4]), len(fb), 64), Obl('exponent bits', oval(o[5]), e, 64),
                        Obl('exponent', oval(o[6]), x.e, 64), Obl('fraction', oval(o[7]), dom.zext(x.f, x.W, 64) if x.W < 64 else x.f, 64)]
            yield Cell(u, '%r analyze(%r)' % (cfg, p), setup, finish)
    return gen


def plan(cfgs=None):
    units, tasks = {}, []
    for c in cfgs or configs.all_cfgs():
        units[c.name] = posit_unit(c)
        tasks += [full(c.name, c), low(c.name, c), full(c.name, c, 'conv'), analyze(c.name, c)]
    for u, c, src in configs.positf_units() if cfgs is None else ():
        units[u] = src
        tasks += [full(u, c), low(u, c)]
    # the intrinsic variant of the bit field helpers
    for c in configs.bmi_cfgs() if cfgs is None else ():
        units[c.name + '_bmi'] = (posit_unit(c), ['-mbmi'])
        tasks += [full(c.name + '_bmi', c), low(c.name + '_bmi', c)]
    return dict(units=units, tasks=tasks, rule=RULE, min_obl=1000)
