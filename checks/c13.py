"""C13 operations are pure"""
import os
import random
import re
import multiprocessing as mp
import core
import ir
import effects
import configs
import c21
import c25
from core import Cell, Obl, Stats
from wit import HEAD, Cfg, tab_unit
from cells import *

RULE = ('interprocedural side effect analysis of the unoptimised IR of every public member instantiated for every configuration: every store, memory intrinsic, atomic and call is traced to the origin of its '
        'pointer (activation, parameter, global), summaries are composed over the call graph to a fixed point. No function of the library may write a global, static or thread-local variable (one-time '
        'initialisation of a function-local static from values that do not depend on the operands is not such a write), call a function with effects outside its operands, or write an operand other than the result and the left side of a compound assignment')

# operations on operands passed by reference; the first parameter is the result, unless noted otherwise
BIN = {'add': '*r = *a + *b', 'sub': '*r = *a - *b', 'mul': '*r = *a * *b', 'dvd': '*r = *a / *b', 'smin': '*r = std::min(*a, *b)', 'smax': '*r = std::max(*a, *b)'}
CMP = {'eq': '*a == *b', 'ne': '*a != *b', 'lt': '*a < *b', 'le': '*a <= *b', 'gt': '*a > *b', 'ge': '*a >= *b'}
ASG = {'addeq': '*a += *b', 'muleq': '*a *= *b'}
UN = {'neg': '*r = -*a', 'inv': '*r = ~*a', 'minv': '*r = a->inv()', 'mneg': '*r = a->neg()', 'mabs': '*r = a->abs()', 'half': '*r = a->half()', 'twice': '*r = a->twice()', 'sabs': '*r = std::abs(*a)',
      'next': '*r = a->next()', 'prev': '*r = a->prev()', 'onem': '*r = a->urOneMinus()', 'rt': '*r = P(a->unpack())', 'copy': 'P t(*a); *r = t', 'fneg': '*r = ::neg(*a)', 'finv': '*r = ::inv(*a)',
      'sigm': '*r = a->pseudosigmoid()', 'splus': '*r = a->pseudosoftplus()', 'delta': '*r = P(a->urDeltaPs())'}
QRY = {'tof': '(float)*a', 'tod': '(double)*a', 'toi': '(int)*a', 'isnan': 'a->isNaN()', 'isinf': 'a->isinfinity()', 'iszero': 'a->iszero()', 'isneg': 'a->isnegative()', 'isone': 'a->isone()', 'unit': 'a->isUnitRange()'}
TUN = {'neg': '*r = -*a', 'minv': '*r = a->inv()', 'half': '*r = a->half()', 'twice': '*r = a->twice()', 'square': '*r = a->square()', 'exp2': '*r = a->exp2()', 'sabs': '*r = std::abs(*a)', 'rt': '*r = P(a->unpack())',
       'fneg': '*r = ::neg(*a)', 'finv': '*r = ::inv(*a)', 'fhalf': '*r = ::half(*a)', 'ftwice': '*r = ::twice(*a)', 'fsquare': '*r = ::square(*a)', 'fexp2': '*r = ::exp2(*a)', 'copy': 'P t(*a); *r = t'}
TQRY = {'tof': '(float)*a', 'tod': '(double)*a', 'toi': '(int)*a', 'isnan': 'a->is_nan()', 'isinf': 'a->is_infinity()', 'isneg': 'a->is_negative()'}
UBIN = {'add': '*r = *a + *b', 'sub': '*r = *a - *b', 'mul': '*r = *a * *b', 'dvd': '*r = *a / *b'}
UASG = {'addeq': '*a += *b', 'subeq': '*a -= *b'}
UUN = {'neg': '*r = -*a', 'minv': '*r = a->inv()', 'copy': 'U t(*a); *r = t'}
UQRY = {'tof': '(float)*a', 'tod': '(double)*a', 'toi': '(int)*a', 'toh': '((halffloat)*a).what', 'pinf': 'a->isInfinity()', 'preg': 'a->isRegular()', 'pnan': 'a->isNaN()', 'pzero': 'a->isZero()', 'ppos': 'a->isPositive()',
        'tos': 'a->template pack_xfloati<single_trait>()', 'tob': 'a->template pack_xfloati<half_trait>()'}
XBIN = {k: v for k, v in BIN.items() if k not in ('smin', 'smax')}
XUN = {'neg': '*r = -*a', 'inv': '*r = ~*a', 'minv': '*r = a->inv()', 'mneg': '*r = a->neg()', 'mabs': '*r = a->abs()', 'half': '*r = a->half()', 'twice': '*r = a->twice()', 'rt': '*r = P(a->unpack())', 'copy': 'P t(*a); *r = t'}
XQRY = {'tof': '(float)*(const P*)a', 'tod': '(double)*(const P*)a', 'toi': '(int)*(const P*)a', 'tob': '(P::FFT)*a', 'iszero': 'a->iszero()', 'isneg': 'a->isnegative()'}


def ops(b, c, a, u, q, fma=True, t='P'):
    """witness text and name -> (operands, parameters that may be written)"""
    s, al = '', {}
    for n, e in b.items():
        s += 'void q_%s(%s *r, %s *a, %s *b) { %s; }\n' % (n, t, t, t, e)
        al[n] = (3, {0})
    for n, e in c.items():
        s += 'int q_%s(%s *a, %s *b) { return %s; }\n' % (n, t, t, e)
        al[n] = (2, set())
    for n, e in a.items():
        s += 'void q_%s(%s *a, %s *b) { %s; }\n' % (n, t, t, e)
        al[n] = (2, {0})
    for n, e in u.items():
        s += 'void q_%s(%s *r, %s *a) { %s; }\n' % (n, t, t, e)
        al[n] = (2, {0})
    for n, e in q.items():
        s += 'double q_%s(%s *a) { return (double)(%s); }\n' % (n, t, e)
        al[n] = (1, set())
    if fma:
        s += 'void q_fma(%s *r, %s *a, %s *b, %s *c) { *r = fma(*a, *b, *c); }\n' % (t, t, t, t)
        al['fma'] = (4, {0})
    return s, al


def certs(al, P):
    """scalar form of each operation that returns one operand as it is afterwards, for the certification of a suspect"""
    s = ''
    if P == 'P':
        for n, (k, w) in al.items():
            for i in range(k):
                if i not in w:
                    s += 'i64 k_%s_%d(T v0, T v1, T v2, T v3) { P p[4] = { D(v0), D(v1), D(v2), D(v3) }; q_%s(%s); return (T)p[%d].v; }\n' % (n, i, n, ', '.join('p + %d' % j for j in range(k)), i)
    else:
        for n, (k, w) in al.items():
            for i in range(k):
                if i not in w:
                    s += ('u64 k_%s_%d(int t0,int n0,i64 e0,u64 f0,int t1,int n1,i64 e1,u64 f1,int t2,int n2,i64 e2,u64 f2) { U p[3] = { mku<U>(t0,n0,e0,f0), mku<U>(t1,n1,e1,f1), mku<U>(t2,n2,e2,f2) }; q_%s(%s); '
                          'i64 ot, on, oe; u64 of; { int x, y; x = kind(p[%d]); y = p[%d].type == U::NaN ? 0 : p[%d].negativeSign; ot = x; on = y; } oe = p[%d].type == U::Regular ? (i64)p[%d].exponent : 0; of = p[%d].type == U::Regular ? (u64)p[%d].fraction : 0; '
                          'return (u64)ot ^ ((u64)on << 4) ^ ((u64)oe << 8) ^ (of * 0x10001); }\n') % (n, i, n, ', '.join('p + %d' % j for j in range(k)), i, i, i, i, i, i, i)
                    s += ''
        s += 'u64 k_ident(int t,int n,i64 e,u64 f) { U p = mku<U>(t,n,e,f); i64 oe = p.type == U::Regular ? (i64)p.exponent : 0; u64 of = p.type == U::Regular ? (u64)p.fraction : 0; return (u64)kind(p) ^ ((u64)(p.type == U::NaN ? 0 : p.negativeSign) << 4) ^ ((u64)oe << 8) ^ (of * 0x10001); }\n'
    return s


WIDTH = {}      # unit -> bits of the format


def units():
    """unit -> (source, flags, allowed, storage bits or (fraction, exponent) bits)"""
    out = {}
    dh = '#define D(x) P(P::DeepInit(),(T)(x))\n'
    for c in configs.all_cfgs():
        s, al = ops(BIN, CMP, dict(ASG, dvdeq='*a /= *b'), UN, QRY)
        s += 'void q_dot(P *r, P *a, P *b) { *r = P::dot(a, b, 1); }\nvoid q_sqrt(P *r, P *a) { *r = std::sqrt(*a); }\n'
        al['dot'], al['sqrt'] = (3, {0}), (2, {0})
        src = HEAD + '#include <cmath>\ntypedef %s P; typedef int%d_t T;\n' % (c.ctype, c.H) + dh + 'extern "C" {\n' + s + certs(al, 'P') + '}\n'
        WIDTH['q' + c.name] = c.N
        out['q' + c.name] = (src, [], al, c.H)
    for c in configs.all_cfgs()[::6]:
        s, al = ops({'mul': '*r = *a * *b', 'mm': '*r = *a * *b + *b * *a', 'ma': '*r = *a + *b * *b'}, {}, {'muleq': '*a *= *b'}, {}, {})
        WIDTH['qm' + c.name] = c.N
        out['qm' + c.name] = (HEAD + 'typedef %s P; typedef int%d_t T;\n' % (c.ctype, c.H) + dh + 'extern "C" {\n' + s + certs(al, 'P') + '}\n', ['-DPOSITMUL'], al, c.H)
    for u, c, src in configs.positf_units():
        s, al = ops(BIN, CMP, ASG, UN, QRY)
        WIDTH['q' + u] = c.N
        out['q' + u] = (src + 'extern "C" {\n' + s + certs(al, 'P') + '}\n', [], al, c.H)
    for u, c, src in configs.tab_units():
        s, al = ops(BIN, CMP, ASG, TUN, TQRY, False)
        WIDTH['q' + u] = c.N
        out['q' + u] = (src + 'extern "C" {\n' + s + certs(al, 'P') + '}\n', [], al, c.H)
    for F in (8, 16, 32, 64):
        for E in (8, 16, 32, 64):
            s, al = ops(UBIN, {'eq': '*a == *b', 'ne': '*a != *b'}, UASG, UUN, UQRY, False, 'U')
            out['qu%d_%d' % (F, E)] = (HEAD + 'typedef Unpacked<uint%d_t,int%d_t> U;\nextern "C" {\n' % (F, E) + s + certs(al, 'U') + '}\n', [], al, (F, E))
    for n, v in c25.EMU.items():
        s, al = ops(XBIN, CMP, ASG, XUN, XQRY)
        out['qx' + n] = (HEAD + '#include "float16native32.hpp"\ntypedef %s P; typedef uint%d_t T;\n' % (v[0], v[4]) + dh + 'extern "C" {\n' + s + certs(al, 'P') + '}\n', [], al, v[4])
    return out


def scan(a):
    """worker: effect analysis of one module"""
    kind, name, src, flags, al, tmp = a
    try:
        ll = core.compile_ll(name, src, tmp, extra=flags)
    except core.AnalysisBroken as e:
        return name, None, [str(e)[:300]], [], 0, 0, [], None
    m = ir.Module(open(ll).read())
    e = effects.Effects(m)
    roots, wit = [], {}
    for n in m.all_names():
        if n.startswith(('@_GLOBAL_', '@__cxx_global')):
            continue
        f = m.func(n)
        if f.dbg and f.dbg[1].startswith(core.REPO + '/'):
            roots.append(n)
        elif n.startswith('@q_') or n.startswith('@w_'):
            wit[n] = True
    fs = e.solve(roots + list(wit))
    bad, und, sus = [], [], []
    for n in sorted(roots):
        S = e.sum[n]
        for o, (loc, ch) in S.writes.items():
            if o[0] == 'g':
                bad.append((n, 'writes the variable %s' % o[1][1:], loc, ch))
            elif o[0] == 'u':
                und.append('%s: store through an untraced pointer (%s) at %s' % (n, o[1], loc))
        for x, (loc, ch) in S.impure.items():
            bad.append((n, 'calls %s' % x[1:], loc, ch))
        for x, loc in S.unknown.items():
            if not (str(loc).startswith('/usr') or '/c++/' in str(loc)):
                und.append('%s: effects of %s unknown (%s)' % (n, x, loc))
    nq = 0
    for n, (k, allowed) in (al or {}).items():
        S = e.sum.get('@q_' + n)
        if S is None:
            und.append('witness %s missing' % n)
            continue
        for i in range(k):
            nq += 1
            if ('p', i) in S.writes and i not in allowed:
                sus.append((n, i, S.writes[('p', i)]))
        for i in allowed:
            if ('p', i) not in S.writes:
                und.append('witness %s: the result is not written' % n)
    if kind == 'members':
        try:
            os.unlink(ll)
        except OSError:
            pass
    return name, roots, und, bad, nq, len(fs), sus, ll


def cells_for(u, key, sus):
    """certification: is there an operand value that is changed?"""
    def gen():
        rng = random.Random(11)
        for n, i, (loc, ch) in sus:
            if isinstance(key, int):
                N = WIDTH.get(u, key)
                top = mask(key) ^ mask(N - 1)
                sp = [0, top, top + 1 & mask(key), mask(N - 1), mask(N - 1) - 1, 1 << (N - 2), -(1 << (N - 2)) & mask(key), 1, mask(key)]
                for t in range(60 + len(sp) ** 2 * 2):
                    def setup(M, n=n, i=i, t=t, sp=sp, N=N):
                        r = random.Random(t)
                        if t >= 60:
                            # the special codes, and each of them with an ordinary number
                            q = (t - 60) // 2
                            w = [sp[q % len(sp)], sp[q // len(sp)], sp[(q // 3) % len(sp)], sp[q % 7]]
                            if t & 1:
                                j = q // len(sp) % 3
                                w[j] = dom.sext(r.getrandbits(N), N, key) & mask(key) if N < key else r.getrandbits(N)
                            return '@k_%s_%d' % (n, i), w, w
                        w = [input_word('v%d' % j, key) if t < 2 and j == i else (r.getrandbits(key) if t > 1 else 1 << (key - 2)) for j in range(4)]
                        return '@k_%s_%d' % (n, i), w, w

                    def finish(M, ret, w, i=i, n=n):
                        want = w[i]
                        want = dom.sext(want, key, 64)
                        return [Obl('operand %d of %s as before' % (i, n), ret, want, 64)]
                    c = Cell(u, '%s operand %d, written at %s' % (n, i, loc), setup, finish, 400)
                    yield c
            else:
                F, E = key
                for t in range(60):
                    def setup(M, n=n, i=i, t=t):
                        r = random.Random(t)
                        w = []
                        for j in range(3):
                            w += [r.choice([0, 0, 0, 1, 2, 3]), r.getrandbits(1), r.randrange(-40, 40) & ((1 << 64) - 1), r.getrandbits(F)]
                        return '@k_%s_%d' % (n, i), w, w

                    def finish(M, ret, w, i=i, n=n):
                        return [Obl('operand %d of %s as before' % (i, n), ret, M.call('@k_ident', w[4 * i:4 * i + 4]), 64)]
                    yield Cell(u, '%s operand %d, written at %s' % (n, i, loc), setup, finish, 400)
    return gen


def check(tmp):
    st, st2 = Stats(), Stats()
    work = []
    for i, (label, src, fl, inst) in enumerate(c21.jobs()):
        if label in ('posit8', 'posit10', 'posit12'):
            src = src.replace('#include "%s.hpp"\n' % label, '#include "%s.hpp"\n#include "%s/src/%s.cpp"\n' % (label, core.REPO, label))
        work.append(('members', 'm%d' % i, src, fl, None, tmp))
    U = units()
    for n, (src, fl, al, key) in U.items():
        work.append(('operands', n, src, fl, al, tmp))
    seen = set()
    suspects = {}
    nfun = 0
    with mp.Pool(8) as pool:
        for name, roots, und, bad, nq, nf, sus, ll in pool.imap_unordered(scan, work, 1):
            st.undecided += ['%s: %s' % (name, u) for u in und]
            if roots is None:
                continue
            st.cells += 1
            st.traces += nf
            st.obl += len(roots)
            st.proved += len(roots) - len({b[0] for b in bad})
            st.funcs |= set(roots)
            for n, what, loc, ch in bad:
                k = (what, loc)
                if k in seen:
                    continue
                seen.add(k)
                st.viol.append({'cell': core.demangle(n), 'what': what, 'unit': name, 'inputs': 'any', 'got': what, 'want': 'no effect but the result',
                                'where': [loc] + ['called through ' + re.sub(r'\(.*', '', core.demangle(c)) for c in ch[:6]]})
            st2.obl += nq
            st2.proved += nq - len(sus)
            st2.cells += nq
            if sus:
                suspects[name] = sus
    if len(st.funcs) < 500:
        raise core.AnalysisBroken('only %d functions of the library found' % len(st.funcs))
    stats = [('writes of shared state', st), ('writes of operands', st2)]
    if suspects:
        some, locs = [], {}
        for n in sorted(suspects):
            new = [x for x in suspects[n] if locs.get((x[0], x[1], x[2][0]), 0) < 2]
            if new and len(some) < 12:
                some.append((n, new[:6]))
                for x in new[:6]:
                    k = (x[0], x[1], x[2][0])
                    locs[k] = locs.get(k, 0) + 1
        st3 = core.run_tasks({n: (U[n][0], U[n][1]) for n, x in some}, [cells_for(n, U[n][3], x) for n, x in some], tmp, budget=200)
        stats.append(('suspect operands', st3))
        st2.undecided += ['%s: operand %d of %s may be written at %s' % (n, i, op, loc) for n, s in suspects.items() for op, i, (loc, ch) in s][:20]
    return dict(rule=RULE, stats_list=stats, min_obl=1000, extra={'modules': len(work)})
