"""C14 constants, limits, neighbours"""
from core import Cell, Obl
from wit import posit_unit
from cells import *
import configs

RULE = ('constant folding of every named constant and numeric_limits member through the code in every configuration, compared with the encoding of the '
        'value it names; abstract interpretation of next() and prev() on all patterns (adjacent pattern inside the finite range, fixed points at the ends '
        'and on the special codes) and of their compositions on the inner patterns')


def top(c):
    return mask(64) ^ mask(c.N - 1)


def const_wants(c, full=True):
    """witness -> 64-bit value"""
    N = c.N
    val = lambda n, e, f=0: enc64(c, Num(REG, n, e & M64, f, 64))
    mx = mask(N - 1) - (1 if c.both else 0)
    pinf = mask(N - 1) if c.both else top(c)
    ninf = (-pinf) & M64 if c.both else top(c)
    w = {'k_zero': 0, 'k_one': val(0, 0), 'k_two': val(0, 1), 'k_mone': val(1, 0), 'k_half': val(0, -1),
         'k_max': mx, 'k_min': 1, 'k_lowest': -mx & M64, 'k_nan': top(c), 'k_inf': pinf, 'k_pinf': pinf, 'k_ninf': ninf, 'k_infinity': pinf,
         'l_min': 1, 'l_max': mx, 'l_lowest': -mx & M64, 'l_inf': pinf, 'l_nan': top(c), 'l_denmin': 1,
         'l_flags': (1 if c.inf else 0) | (2 if c.nan else 0) | 4 | 32 | 64, 'l_minexp': c.minexp & M64, 'l_maxexp': c.maxexp & M64, 'dflt': 0,
         'l_eps': eps(c)}
    return w


def eps(c):
    """encoding of next(one) - one"""
    nf = c.N - 3 - c.es          # fraction bits of one
    if nf >= 1:
        e, f = -nf, 0
    else:
        s = 1 << -nf             # next(one) is 2^s
        if s - 1 > 8:
            return None
        e, f = s - 1, mask(s - 1) << (64 - (s - 1)) if s > 1 else 0
    if getattr(c, 'flavor', '') == '' and c.F < c.N - 1:
        return None
    return enc64(c, Num(REG, 0, e & M64, f, 64))


def consts(u, c, names=None, extra=None):
    def gen():
        w = const_wants(c)
        if extra:
            w.update(extra(c))
        for k, v in w.items():
            if names is not None and k not in names or v is None:
                continue

            def setup(M, k=k):
                return '@w_' + k, [], None

            def finish(M, ret, o, k=k, v=v):
                return [Obl(k, dom.trunc(ret, 64, c.N) if k == 'k_nan' and not c.nan else ret, v if c.nan or k != 'k_nan' else dom.trunc(v, 64, c.N), 64)]
            yield Cell(u, '%s %r %s' % (getattr(c, 'flavor', ''), c, k), setup, finish)
    return gen


def step(d):
    def want(p):
        c = p.cfg
        w = word64(p.word(), c.H)
        mx = mask(c.N - 1) - (1 if c.both else 0)
        if p.kind in ('top', 'pinf', 'ninf'):
            return w
        lim = mx if d > 0 else -mx & M64
        if spec.lit(dom.eq(w, lim, 64)):
            return w
        return dom.add(w, d & M64, 64)
    return want


INV = '''
extern "C" {
i64 w_nextprev(T v) { return D(v).prev().next().v; }
i64 w_prevnext(T v) { return D(v).next().prev().v; }
}
'''


def inner(u, c, fname, d):
    """composition is the identity strictly inside the finite range"""
    def gen():
        mx = mask(c.N - 1) - (1 if c.both else 0)
        lo = {(0, 1): (0, mx - 1), (0, -1): (0, mx), (1, 1): (1, mx), (1, -1): (1, mx - 1)}
        for n in (0, 1):
            def setup(M, n=n):
                x = input_word('v', c.H, c.N - 1)
                require_range(x, c.H, *lo[n, d])
                if n:
                    x = dom.neg(x, c.H)
                return '@w_' + fname, [x], x

            def finish(M, ret, x):
                return [Obl(fname, ret, word64(x, c.H), 64)]
            yield Cell(u, '%s %r %s(%sx)' % (getattr(c, 'flavor', ''), c, fname, '+-'[n]), setup, finish)
        for p in patterns(c):
            if p.kind in ('top', 'pinf', 'ninf'):
                def setup(M, p=p):
                    return '@w_' + fname, [p.word()], None

                def finish(M, ret, o, p=p):
                    return [Obl(fname, ret, word64(p.word(), c.H), 64)]
                yield Cell(u, '%s %r %s(%r)' % (getattr(c, 'flavor', ''), c, fname, p), setup, finish)
    return gen


def plan(cfgs=None):
    units, tasks = {}, []

    def add(u, c):
        tasks.append(consts(u, c))
        for f, d in (('next', 1), ('prev', -1)):
            tasks.append(unary(u, c, f, step(d)))
        tasks.append(inner(u, c, 'nextprev', -1))
        tasks.append(inner(u, c, 'prevnext', 1))
    for c in cfgs or configs.all_cfgs():
        units[c.name] = posit_unit(c, INV)
        add(c.name, c)
    if cfgs is None:
        for u, c, src in configs.positf_units():
            units[u] = src + INV
            add(u, c)
        for u, c, src in configs.tab_units():
            units[u] = src
            mx = lambda c: mask(c.N - 1)
            tasks.append(consts(u, c, ['k_one', 'k_half', 'k_max', 'k_min', 'k_nan', 'k_pinf', 'k_ninf', 'l_min', 'l_max', 'dflt', 'k_afterone'] +
                                (['k_zero', 'k_two'] if c.tname != 'posit12' else []),
                                lambda c: {'k_afterone': const_wants(c)['k_one'] + 1}))
            tasks.append(eps_tab(u, c))
    return dict(units=units, tasks=tasks, rule=RULE, min_obl=1000)


def eps_tab(u, c):
    """epsilon of a tabulated type is its own subtraction of one from the successor of one"""
    def gen():
        def setup(M):
            return '@w_l_eps', [], None

        def finish(M, ret, o):
            one = const_wants(c)['k_one']
            return [Obl('epsilon', ret, M.call('@w_sub', [one + 1, one]), 64)]
        yield Cell(u, '%r epsilon' % c, setup, finish)
    return gen
