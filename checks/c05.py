"""C05 special operands"""
from core import Cell, Obl
from wit import posit_unit, unpacked_unit
from cells import *
import configs

RULE = ('abstract interpretation of every operator over all kind/sign combinations with at least one special operand, the other '
        'operand symbolic (any exponent inside the no-overflow range, any fraction); the result must be the kind, sign and value of '
        'the extended-real table; the posit operators must give the code of that result')

UT = [(8, 16), (16, 16), (16, 32), (32, 32), (64, 32), (64, 64), (8, 8), (32, 64)]
OPS = {'add': spec.add, 'sub': lambda a, b: spec.add(a, spec.neg(b)), 'mul': spec.mul, 'dvd': spec.div}


def operand(t, n, nm, F, E):
    if t != REG:
        return Num(t, n, W=F)
    u = input_word(nm + 'e', 64, E - 1)
    e = dom.sub(u, 1 << (E - 2), 64)
    return Num(REG, n, e, frac(nm, F), F)


KINDS = [(t, n) for t in (REG, INF, NAN, ZERO) for n in (0, 1) if not (t in (NAN, ZERO) and n)]


def ucells(u, F, E, op):
    def gen():
        for ta, na in KINDS:
            for tb, nb in KINDS:
                if ta == REG and tb == REG:
                    continue

                def setup(M, ta=ta, na=na, tb=tb, nb=nb):
                    a, b = operand(ta, na, 'a', F, E), operand(tb, nb, 'b', F, E)
                    o = outs(4)
                    return '@w_u' + op, arg_num(a, 64) + arg_num(b, 64) + o, (a, b, o)

                def finish(M, ret, x):
                    a, b, o = x
                    return num_obls(o, OPS[op.replace('eq', '')](a, b))
                yield Cell(u, 'Unpacked<uint%d_t,int%d_t> %s(%s%d, %s%d)' % (F, E, op, '+-'[na], ta, '+-'[nb], tb), setup, finish)
    return gen


def uinv(u, F, E):
    def gen():
        for t, n in KINDS:
            if t == REG:
                continue

            def setup(M, t=t, n=n):
                o = outs(4)
                return '@w_uinv', arg_num(Num(t, n, W=F), 64) + o, o

            def finish(M, ret, o, t=t, n=n):
                return num_obls(o, spec.inv(Num(t, n, W=F)))
            yield Cell(u, 'Unpacked<uint%d_t,int%d_t> inv(%s%d)' % (F, E, '+-'[n], t), setup, finish)
    return gen


def packed_want(cfg, op):
    def want(p, q):
        a, b = p.num(), q.num()
        if op in ('add', 'sub'):
            # zero is neutral: the other operand itself
            if a.t == ZERO or b.t == ZERO:
                if b.t == ZERO:
                    w = p.word()
                else:
                    w = q.word()
                    if op == 'sub' and q.kind != 'top':
                        w = dom.neg(w, cfg.H)
                return word64(w, cfg.H)
        return enc64(cfg, OPS[op](a.recast(cfg.F), b.recast(cfg.F)))
    return want


def pairs(cfg):
    A, B = patterns(cfg, 'a'), patterns(cfg, 'b')
    for p in A:
        for q in B:
            if p.kind == 'reg' and q.kind == 'reg':
                continue
            yield p, q


def plan(cfgs=None):
    units, tasks = {}, []
    if cfgs is None:
        for F, E in UT:
            u = 'u%d_%d' % (F, E)
            units[u] = unpacked_unit(F, E)
            tasks += [ucells(u, F, E, op) for op in ('add', 'sub', 'mul', 'dvd', 'addeq', 'subeq')]
            tasks.append(uinv(u, F, E))
    for c in cfgs or configs.all_cfgs():
        units[c.name] = posit_unit(c)
        for op in OPS:
            tasks.append(binary(c.name, c, op, packed_want(c, op), pairs(c)))
        tasks.append(unary(c.name, c, 'minv', lambda p: enc64(p.cfg, spec.inv(p.num())), flt=lambda p: p.kind != 'reg', label='inv'))
    if cfgs is None:
        for u, c, src in configs.positf_units():
            units[u] = src
            for op in OPS:
                tasks.append(binary(u, c, op, packed_want(c, op), pairs(c), label='PositF ' + op))
            tasks.append(unary(u, c, 'minv', lambda p: enc64(p.cfg, spec.inv(p.num())), flt=lambda p: p.kind != 'reg', label='PositF inv'))
    return dict(units=units, tasks=tasks, rule=RULE, min_obl=1000)
