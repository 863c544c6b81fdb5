"""C29 pseudo sigmoid and pseudo softplus: the order of the patterns"""
from core import Cell, Obl
from wit import posit_unit
from cells import *
import configs

RULE = ('abstract interpretation of the two bit tricks on every pattern but the top code, of every configuration: with the rank of a pattern its '
        'distance from the top code, the result must be the quarter (the half) of the rank, whatever the width of the storage; from the same cells: '
        'the sigmoid is in [0,1] by the predicate of the class, neither is negative nor the top code, and order is kept (bit-prefix of the rank)')

X = '''
extern "C" {
i64 w_sig(T v) { return D(v).pseudosigmoid().v; }
i64 w_spl(T v) { return D(v).pseudosoftplus().v; }
i64 w_sigu(T v) { return D(v).pseudosigmoid().isUnitRange() ? 1 : 0; }
i64 w_signeg(T v) { return D(v).pseudosigmoid().isnegative() ? 1 : 0; }
i64 w_splneg(T v) { return D(v).pseudosoftplus().isnegative() ? 1 : 0; }
i64 w_spltop(T v) { return D(v).pseudosoftplus().v == P::PT::POSIT_NAN ? 1 : 0; }
i64 w_sighalf(T v) { return D(v).pseudosigmoid() == P::onehalf() ? 1 : 0; }
i64 w_splone(T v) { return D(v).pseudosoftplus().isone() ? 1 : 0; }
}
'''


def tricks(u, c, lab=''):
    N, H = c.N, c.H

    def words():
        # non negative; negative by the lowest one (the top code is left out)
        yield 'x >= 0', [dom.inbit('v', i) for i in range(N - 1)] + [0]
        for k in range(N - 1):
            yield 'x < 0, lowest one at %d' % k, [0] * k + [1] + [dom.inbit('v', i) for i in range(k + 1, N - 1)] + [1]

    def gen():
        for d, b in words():
            rank = b[:-1] + [1 - b[-1]]

            def one(fn, want, label):
                def setup(M):
                    return '@w_' + fn, [dom.sext(mk(N, b), N, H)], None

                def finish(M, ret, o):
                    return [Obl(label, ret, want, 64)]
                return Cell(u, '%s%r %s(%s)' % (lab, c, fn, d), setup, finish, 60)
            yield one('sig', mk(64, rank[2:] + [0] * (66 - N)), 'pseudosigmoid')
            yield one('spl', mk(64, rank[1:] + [0] * (65 - N)), 'pseudosoftplus')
            yield one('sigu', 1, 'the sigmoid is in [0,1]')
            yield one('signeg', 0, 'the sigmoid is not negative')
            yield one('splneg', 0, 'the softplus is not negative')
            yield one('spltop', 0, 'the softplus is not the top code')

        def at0(fn, want, label):
            def setup(M):
                return '@w_' + fn, [0], None

            def finish(M, ret, o):
                return [Obl(label, ret, want, 64)]
            return Cell(u, '%s%r %s(0)' % (lab, c, fn), setup, finish, 60)
        if c.es == 0 and N > 3:
            yield at0('sighalf', 1, 'the sigmoid of zero is one half')
        yield at0('splone', 1, 'the softplus of zero is one')
    return gen


def plan(cfgs=None):
    units, tasks = {}, []
    for c in cfgs or configs.all_cfgs():
        units[c.name] = posit_unit(c, X)
        tasks.append(tricks(c.name, c))
    if cfgs is None:
        for u, c, src in configs.positf_units():
            units[u] = src + X
            tasks.append(tricks(u, c, 'PositF '))
    return dict(units=units, tasks=tasks, rule=RULE, min_obl=500)
