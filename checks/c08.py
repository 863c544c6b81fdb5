"""C08 half, twice, reciprocal of powers of two"""
from core import Cell, Obl
from wit import posit_unit
from cells import *
import configs

RULE = ('abstract interpretation of half(), twice() and inv() over a partition of all patterns (powers of two for inv); the result must be '
        'the truncating, saturating encoding of the same sign and fraction with the exponent moved by one (negated for inv)')


def scaled(k):
    def want(p):
        x = p.num()
        if x.t != REG:
            return word64(p.word(), p.cfg.H)
        return enc64(p.cfg, Num(REG, x.n, dom.add(x.e, k & M64, 64), x.f, x.W))
    return want


def recip(p):
    x = p.num()
    return enc64(p.cfg, Num(REG, x.n, dom.neg(x.e, 64), x.f, x.W))


def plan(cfgs=None):
    units, tasks = {}, []

    def add(u, c, lab=''):
        tasks.append(unary(u, c, 'half', scaled(-1), pats=patterns(c, exps=True), label=lab + 'half'))
        tasks.append(unary(u, c, 'twice', scaled(1), pats=patterns(c, exps=True), label=lab + 'twice'))
        for f in ('minv', 'oinv', 'finv'):
            tasks.append(unary(u, c, f, recip, pats=patterns(c, exps=True, fz=True), flt=lambda p: p.kind == 'reg', label=lab + f))
    for c in cfgs or configs.all_cfgs():
        units[c.name] = posit_unit(c)
        add(c.name, c)
    if cfgs is None:
        for u, c, src in configs.positf_units():
            units[u] = src
            tasks.append(unary(u, c, 'half', scaled(-1), pats=patterns(c, exps=True), label='PositF half'))
            tasks.append(unary(u, c, 'twice', scaled(1), pats=patterns(c, exps=True), label='PositF twice'))
    return dict(units=units, tasks=tasks, rule=RULE, min_obl=1000)
