"""C17 dot product and fused multiply-add"""
import random
from core import Cell, Obl, TIER, require_range
from wit import posit_unit
from cells import *
import configs
import interp
from c16 import OPQ

RULE = ('abstract interpretation of dot on arrays of exactly N posits (any access outside is an alarm) with every element symbolic, for all N below one and N = 1..40: '
        'the result must be the in-order accumulation of the unpacked products encoded once (congruence over the unpacked operators for all element values, the value '
        'specification on sampled pattern tuples); single-pass iterators that count their uses; fma against one encoding of the unpacked expression')

X = '''
struct It_ { const P * p; int * reads; int * steps; P operator*() const { ++*reads; return *p; } It_ operator++(int) { It_ o = *this; ++p; ++*steps; return o; } It_ & operator++() { ++p; ++*steps; return *this; } };
extern "C" {
i64 w_ref(const P *a, const P *b, int n)
{
	if(n < 1) return 0;
	U s = a[0].unpack()*b[0].unpack();
	for(int i = 1; i < n; i++)
	{
		U q = a[i].unpack()*b[i].unpack();
		s = s + q;
	}
	return P(s).v;
}
i64 w_dotc(const P *a, const P *b, int n, int *r1, int *s1, int *r2, int *s2) { It_ x = {a,r1,s1}, y = {b,r2,s2}; return P::dot(x,y,n).v; }
i64 w_dotf(const float *a, const double *b, int n) { return P::dot(a,b,n).v; }
i64 w_reff(const float *a, const double *b, int n)
{
	U s = P(a[0]).unpack()*P(b[0]).unpack();
	for(int i = 1; i < n; i++)
		s = s + P(a[i]).unpack()*P(b[i]).unpack();
	return P(s).v;
}
i64 w_fmaref(T v, T w, T x) { return P(D(v).unpack()*D(w).unpack()+D(x).unpack()).v; }
}
'''
NS = [1, 2, 3, 4, 5, 7, 8, 16, 17, 40]


def arr(name, words, size):
    o = interp.Obj(name, len(words) * size, False)
    for i, w in enumerate(words):
        o.store(i * size, size, w)
    return interp.Ptr(o, 0)


def anyword(c, nm):
    return dom.sext(mk(c.N, [dom.inbit(nm, i) for i in range(c.N)]), c.N, c.H)


def counter():
    o = interp.Obj('count', 4)
    o.store(0, 4, 0)
    return interp.Ptr(o, 0)


def dots(u, c, full):
    sz = c.H // 8

    def gen():
        # N below one: nothing is touched
        def setup0(M):
            n = input_word('n', 32)
            n = dom.or_(n, 1 << 31, 32)
            return '@w_dot', [arr('a', [], sz), arr('b', [], sz), n], None

        def floats(n):
            """constants: float and double elements of moderate size"""
            rng = random.Random(n)
            for k in range(12):
                A = [rng.getrandbits(1) << 31 | rng.randrange(118, 138) << 23 | rng.getrandbits(23) for i in range(n)]
                B = [rng.getrandbits(1) << 63 | rng.randrange(1014, 1034) << 52 | rng.getrandbits(52) for i in range(n)]

                def setup(M, A=A, B=B):
                    return '@w_dotf', [arr('a', A, 4), arr('b', B, 8), n], None

                def finish(M, ret, o, A=A, B=B):
                    return [Obl('dot of floats and doubles', ret, M.call('@w_reff', [arr('a', A, 4), arr('b', B, 8), n]), 64)]
                yield Cell(u, '%r dot(float and double elements %r %r)' % (c, [hex(x) for x in A], [hex(x) for x in B]), setup, finish, 60)

        def setup00(M):
            return '@w_dot', [arr('a', [], sz), arr('b', [], sz), 0], None

        def finish0(M, ret, o):
            return [Obl('dot of nothing', ret, 0, 64)]
        yield Cell(u, '%r dot(N < 0)' % c, setup0, finish0)
        yield Cell(u, '%r dot(N = 0)' % c, setup00, finish0)
        for n in NS if TIER != 'thorough' else range(1, 130):
            def setup(M, n=n):
                A = [anyword(c, 'a%d' % i) for i in range(n)]
                B = [anyword(c, 'b%d' % i) for i in range(n)]
                return '@w_dot', [arr('a', A, sz), arr('b', B, sz), n], (A, B)

            def finish(M, ret, o, n=n):
                A, B = o
                return [Obl('dot', ret, M.call('@w_ref', [arr('a', A, sz), arr('b', B, sz), n]), 64)]
            cell = Cell(u, '%r dot(N = %d, all elements)' % (c, n), setup, finish, 60)
            cell.opaque, cell.fallback = OPQ, (lambda n=n: full(n))
            yield cell

            def setup(M, n=n):
                A = [anyword(c, 'a%d' % i) for i in range(n)]
                B = [anyword(c, 'b%d' % i) for i in range(n)]
                k = [counter() for _ in range(4)]
                return '@w_dotc', [arr('a', A, sz), arr('b', B, sz), n] + k, (A, B, k)

            def finish(M, ret, o, n=n):
                A, B, k = o
                return [Obl('dot', ret, M.call('@w_ref', [arr('a', A, sz), arr('b', B, sz), n]), 64)] + \
                    [Obl(w, x.obj.load(0, 4), n, 32) for w, x in zip(('reads of the first sequence', 'steps of the first sequence', 'reads of the second sequence', 'steps of the second sequence'), k)]
            cell = Cell(u, '%r dot(N = %d, counting iterators)' % (c, n), setup, finish, 60)
            cell.opaque, cell.fallback = OPQ, (lambda n=n: full(n, True))
            yield cell
            if n <= 4:
                def setup(M, n=n):
                    A = [input_word('a%d' % i, 32) for i in range(n)]
                    B = [input_word('b%d' % i, 64) for i in range(n)]
                    return '@w_dotf', [arr('a', A, 4), arr('b', B, 8), n], (A, B)

                def finish(M, ret, o, n=n):
                    A, B = o
                    return [Obl('dot of floats and doubles', ret, M.call('@w_reff', [arr('a', A, 4), arr('b', B, 8), n]), 64)]
                cell = Cell(u, '%r dot(N = %d, float and double elements)' % (c, n), setup, finish, 60)
                cell.opaque, cell.fallback = OPQ, (lambda n=n: floats(n))
                yield cell
    return gen


def tuples(c, n, lim, seed):
    """pattern tuples: symbolic fractions on one side, powers of two on the other"""
    rng = random.Random(seed)
    out = []
    for i in range(lim):
        A, B = [], []
        for k in range(n):
            z = rng.random() < .5
            r = rng.random() < .7
            for L, nm, fz in ((A, 'a', z), (B, 'b', not z)):
                ps = patterns(c, '%s%d' % (nm, k), exps='some', fz=fz)
                if r:
                    ps = [p for p in ps if p.kind == 'reg' and -2 <= p.r <= 2]
                L.append(rng.choice(ps))
        out.append((A, B))
    return out


class Point(Pat):
    """a single pattern of the cell"""
    def __init__(self, p, rng):
        Pat.__init__(self, p.cfg, p.kind, p.neg, p.r, p.name, p.e, p.fz)
        self.seed = rng.getrandbits(40)

    def layout(self):
        body, eb, fb = Pat.layout(self)
        r = random.Random(self.seed)
        return body, [b if b < 2 else r.getrandbits(1) for b in eb], [b if b < 2 else r.getrandbits(1) for b in fb]

    def __repr__(self):
        return '0x%x' % self.word()


def points(c, n, lim):
    rng = random.Random(n)
    R = [p for p in patterns(c, exps='some') if p.kind == 'reg' and -3 <= p.r <= 3]
    return [([Point(rng.choice(R), rng) for _ in range(n)], [Point(rng.choice(R), rng) for _ in range(n)]) for _ in range(lim)]


def value(c, A, B):
    s = None
    for p, q in zip(A, B):
        m = spec.mul(p.num().recast(c.F), q.num().recast(c.F))
        s = m if s is None else spec.add(s, m)
    return enc64(c, s)


def dot_full(u, c, lim=40):
    sz = c.H // 8

    def gen(n, counted=False):
        for A, B in points(c, n, 30) + (tuples(c, n, lim if n <= 3 else max(4, lim // 4), n) if n <= 5 else []):
            def setup(M, A=A, B=B):
                k = [counter() for _ in range(4)]
                return '@w_dotc' if counted else '@w_dot', [arr('a', [p.word() for p in A], sz), arr('b', [p.word() for p in B], sz), n] + (k if counted else []), k

            def finish(M, ret, k, A=A, B=B):
                o = [Obl('dot', ret, value(c, A, B), 64)]
                if counted:
                    o += [Obl('uses of the iterators', x.obj.load(0, 4), n, 32) for x in k]
                return o
            yield Cell(u, '%r dot(%r, %r)%s' % (c, A, B, ' counted' if counted else ''), setup, finish, 400)
    return gen


def fmas(u, c, lim):
    def full():
        rng = random.Random(9)
        for i in range(lim):
            z = i % 2
            ps = [rng.choice([p for p in patterns(c, nm, exps='some', fz=fz) if i % 5 == 0 or p.kind == 'reg' and -3 <= p.r <= 3])
                  for nm, fz in (('a', z), ('b', not z), ('c', i % 7 == 0))]

            def setup(M, ps=ps):
                return '@w_pfma', [p.word() for p in ps], ps

            def finish(M, ret, ps):
                a, b, d = [p.num().recast(c.F) for p in ps]
                return [Obl('fma', ret, enc64(c, spec.add(spec.mul(a, b), d)), 64)]
            yield Cell(u, '%r fma(%r, %r, %r)' % ((c,) + tuple(ps)), setup, finish, 400)

    def gen():
        def setup(M):
            a = [anyword(c, x) for x in 'abc']
            return '@w_pfma', a, a

        def finish(M, ret, a):
            return [Obl('fma', ret, M.call('@w_fmaref', a), 64)]
        cell = Cell(u, '%r fma(all operands)' % c, setup, finish, 60)
        cell.opaque, cell.fallback = OPQ, full
        yield cell
        yield from list(full())[:lim // 3]
        yield from list(dot_full(u, c, lim // 3)(2))
        yield from list(dot_full(u, c, 0)(3))
    return gen


def plan(cfgs=None):
    units, tasks = {}, []
    lim = 120 if TIER == 'thorough' else 36
    for c in cfgs or configs.all_cfgs():
        units[c.name] = posit_unit(c, X)
        tasks += [dots(c.name, c, dot_full(c.name, c)), fmas(c.name, c, lim)]
    return dict(units=units, tasks=tasks, rule=RULE, min_obl=500)
