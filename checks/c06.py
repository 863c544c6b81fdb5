"""C06 comparisons"""
from core import Cell, Obl
from wit import posit_unit, unpacked_unit
from cells import *
import configs

RULE = ('abstract interpretation of the six comparison operators on two arbitrary patterns (both fully symbolic), on equal patterns and '
        'on patterns that agree above a given bit; each operator must be the order of the signed patterns with NaN unordered')


def cmpbits(cfg, a, b, unordered):
    """a, b storage words"""
    H = cfg.H
    top = mask(H) ^ mask(cfg.N - 1)
    if unordered and cfg.nan:
        for x in (a, b):
            if spec.lit(dom.eq(x, top, H)):
                return 2
    if spec.lit(dom.eq(a, b, H)):
        return 1 | 8 | 32
    if spec.lit(dom.slt(a, b, H)):
        return 2 | 4 | 8
    # a > b when neither equal nor less
    return 2 | 16 | 32


def cells(u, cfg, unordered=True):
    N, H = cfg.N, cfg.H

    def gen():
        # arbitrary pair
        def mkpair(k):
            """bits above k equal, bit k differs (k None: independent)"""
            A = [dom.inbit('a', i) for i in range(N)]
            B = [dom.inbit('b', i) for i in range(N)]
            if k == 'same':
                B = list(A)
            elif k is not None:
                i, s = k
                B = B[:i] + A[i:]
                A[i], B[i] = (0, 1) if s else (1, 0)
            return dom.sext(mk(N, A), N, H), dom.sext(mk(N, B), N, H)
        for k in ['same', None] + [(i, s) for i in range(N) for s in (0, 1)]:
            def setup(M, k=k):
                a, b = mkpair(k)
                return '@w_cmp', [a, b], (a, b)

            def finish(M, ret, o):
                return [Obl('== != < <= > >=', ret, cmpbits(cfg, o[0], o[1], unordered), 64)]
            yield Cell(u, '%r compare(%s)' % (cfg, k), setup, finish)
        # the top code against everything, both sides
        for k in (0, 1):
            def setup(M, k=k):
                a = dom.sext(mk(N, [dom.inbit('a', i) for i in range(N)]), N, H)
                b = mask(H) ^ mask(N - 1)
                if k:
                    a, b = b, a
                return '@w_cmp', [a, b], (a, b)

            def finish(M, ret, o):
                return [Obl('== != < <= > >=', ret, cmpbits(cfg, o[0], o[1], unordered), 64)]
            yield Cell(u, '%r compare with top code (%d)' % (cfg, k), setup, finish)
    return gen


UT = [(8, 16), (16, 32), (32, 32), (64, 64)]
KINDS = [(t, n) for t in (REG, INF, NAN, ZERO) for n in (0, 1)]


def ucells(u, F, E):
    def gen():
        for ta, na in KINDS:
            for tb, nb in KINDS:
                if ta == NAN and na or ta == ZERO and na or tb == NAN and nb or tb == ZERO and nb:
                    continue
                modes = ['any', 'same'] if ta == tb == REG else ['any']
                for m in modes:
                    def setup(M, ta=ta, na=na, tb=tb, nb=nb, m=m):
                        def num(t, n, nm):
                            if t != REG:
                                return Num(t, n, W=F)
                            return Num(REG, n, dom.sext(input_word(nm + 'e', E), E, 64) if E < 64 else input_word(nm + 'e', 64), frac(nm, F), F)
                        a = num(ta, na, 'a')
                        b = num(tb, nb, 'a' if m == 'same' else 'b')
                        return '@w_ucmp', arg_num(a, 64) + arg_num(b, 64), (a, b)

                    def finish(M, ret, o):
                        a, b = o
                        if a.t != b.t or a.t == NAN or a.n != b.n:
                            e = 0
                        elif a.t == REG:
                            e = spec.lit(dom.eq(a.e, b.e, 64)) and spec.lit(dom.eq(a.f, b.f, F))
                        else:
                            e = 1
                        return [Obl('== !=', ret, 1 if e else 2, 64)]
                    yield Cell(u, 'Unpacked<uint%d_t,int%d_t> ==,!= (%s%d, %s%d, %s)' % (F, E, '+-'[na], ta, '+-'[nb], tb, m), setup, finish)
    return gen


def plan(cfgs=None):
    units, tasks = {}, []
    for c in cfgs or configs.all_cfgs():
        units[c.name] = posit_unit(c)
        tasks.append(cells(c.name, c))
    if cfgs is None:
        for F, E in UT:
            u = 'u%d_%d' % (F, E)
            units[u] = unpacked_unit(F, E)
            tasks.append(ucells(u, F, E))
        for u, c, src in configs.positf_units() + configs.tab_units():
            units[u] = src
            tasks.append(cells(u, c, False))
    return dict(units=units, tasks=tasks, rule=RULE, min_obl=1000)
