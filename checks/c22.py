"""C22 invalid configurations and implicit conversions are rejected at compile time"""
import os
import subprocess
import multiprocessing as mp
import core
from core import Stats
import configs

RULE = ('compile-fail witnesses: every invalid configuration is a program that the type checker must reject, paired with a twin that differs only in the invalid parameter and that it must accept (so that the rejection is due to that parameter); '
        'the absence of implicit conversions is a set of static assertions over every configuration, each with its explicit counterpart. clang and gcc, C++14 and C++17')

INC = '#include <cmath>\n#include <iostream>\n#include "posit.h"\n#include "positf.h"\n#include "anyfloat.hpp"\n#include "floattraits.hpp"\n'


def pairs():
    """(label, rejected program, accepted twin)"""
    out = []

    def p(label, tmpl, bad, good):
        out.append((label, tmpl % bad, tmpl % good))
    for n, s in ((8, 8), (12, 16), (16, 16), (32, 32), (48, 64)):
        for sp in ('WithNan', 'WithInf', 'WithNanInf'):
            p('posit of %d bits, %s: unsigned storage' % (n, sp), 'typedef Posit<%%s,%d,0,uint64_t,PositSpec::%s> P; P k(P a) { return P(a.unpack()); }' % (n, sp), 'uint%d_t' % s, 'int%d_t' % s)
        p('posit of %d bits: unsigned storage, in PositTrait' % n, 'typedef PositTrait<%%s,%d,0,PositSpec::WithNan> T; T t; int k = sizeof(t);' % n, 'uint%d_t' % s, 'int%d_t' % s)
        p('float backed posit of %d bits: unsigned storage' % n, 'typedef PositF<%%s,%d,0,float,PositSpec::WithNan> P; P k(P a) { return P(a.unpack()); }' % n, 'uint%d_t' % s, 'int%d_t' % s)
    for s in (8, 16, 32):
        for sp in ('WithNan', 'WithInf', 'WithNanInf'):
            p('posit over %d bits of storage with one bit more, %s' % (s, sp), 'typedef Posit<int%d_t,%%d,0,uint64_t,PositSpec::%s> P; P k(P a) { return P(a.unpack()); }' % (s, sp), s + 1, s)
        p('posit over %d bits of storage with twice the bits' % s, 'typedef Posit<int%d_t,%%d,0,uint64_t,PositSpec::WithNan> P; P k(P a) { return P(a.unpack()); }' % s, 2 * s, s)
        p('float backed posit over %d bits of storage with one bit more' % s, 'typedef PositF<int%d_t,%%d,0,double,PositSpec::WithNan> P; P k(P a) { return P(a.unpack()); }' % s, s + 1, s)
    p('posit over 64 bits of storage with one bit more', 'typedef Posit<int64_t,%d,0,uint64_t,PositSpec::WithNan> P; P k(P a) { return P(a.unpack()); }', 65, 63)
    for n, s in ((4, 8), (5, 8), (6, 8), (7, 8), (8, 8), (10, 16)):
        for sp in ('WithNan', 'WithInf', 'WithNanInf'):
            p('posit of %d bits with %d exponent bits, %s' % (n, n - 2, sp), 'typedef Posit<int%d_t,%d,%%d,uint64_t,PositSpec::%s> P; P k(P a) { return P(a.unpack()); }' % (s, n, sp), n - 2, n - 3)
        p('posit of %d bits with as many exponent bits' % n, 'typedef Posit<int%d_t,%d,%%d,uint64_t,PositSpec::WithNan> P; P k(P a) { return P(a.unpack()); }' % (s, n), n, n - 3)
        p('float backed posit of %d bits with %d exponent bits' % (n, n - 2), 'typedef PositF<int%d_t,%d,%%d,double,PositSpec::WithNan> P; P k(P a) { return P(a.unpack()); }' % (s, n), n - 2, n - 3)
    for f in (8, 16, 32, 64):
        p('unpacked number with a signed fraction of %d bits' % f, 'typedef Unpacked<%%sint%d_t,int16_t> U; U k() { return U(1); }' % f, '', 'u')
        p('unpacked number with an unsigned exponent of %d bits' % f, 'typedef Unpacked<uint32_t,%%sint%d_t> U; U k() { return U(U::Zero); }' % f, 'u', '')
        p('posit with a signed fraction of %d bits' % f, 'typedef Posit<int8_t,8,0,%%sint%d_t,PositSpec::WithNan> P; P k(P a) { return P(a.unpack()); }' % f, '', 'u')
    for t in ('int', 'uint32_t', 'int64_t', 'float *'):
        p('float backed posit over %s' % t, 'typedef PositF<int8_t,8,0,%s,PositSpec::WithNan> P; P k(P a) { return P(a.unpack()); }', t, 'float')
    for e, f, h in ((4, 3, 8), (5, 10, 16), (8, 7, 16), (8, 23, 32), (11, 52, 64)):
        v = 'microfloat' if h == 8 else 'halffloat'
        p('emulated float %d+%d with a signed holder' % (e, f), 'typedef anyfloat_emu<%d,%d,%s,%%sint%d_t,double> X; X k(X a) { return X(a.unpack()); }' % (e, f, v, h), '', 'u')
        p('emulated float with a holder of %d bits that lacks one bit of fraction' % h, 'typedef anyfloat_emu<%d,%%d,%s,uint%d_t,double> X; X k(X a) { return X(a.unpack()); }' % (e, v, h), f + 1, f)
        p('emulated float with a holder of %d bits that lacks one bit of exponent' % h, 'typedef anyfloat_emu<%%d,%d,%s,uint%d_t,double> X; X k(X a) { return X(a.unpack()); }' % (f, v, h), e + 1, e)
        p('float trait %d+%d that does not fill its holder' % (e, f), 'typedef any_floattrait<%d,%%d,%s,uint%d_t> X; int k = X::data_bits;' % (e, v, h), f - 1, f)
    for h in (8, 16, 32):
        p('fixed point of %d bits in a smaller holder' % (2 * h), 'typedef fixedtrait<int%%d_t,%d,4> X; typename X::value_t k(Unpacked<uint64_t,int> u) { return u.pack_xfixed<X>(); }' % (2 * h), h, 2 * h)
        p('fixed point of %d bits over an unsigned holder' % h, 'typedef fixedtrait<%%sint%d_t,%d,4> X; int k = X::totalbits;' % (h, h), 'u', '')
        p('fixed point of %d bits with more fraction bits' % h, 'typedef fixedtrait<int%d_t,%d,%%d> X; int k = X::totalbits;' % (h, h), h + 1, h)
        p('fixed point of %d bits with a negative number of fraction bits' % h, 'typedef fixedtrait<int%d_t,%d,%%d> X; int k = X::totalbits;' % (h, h), -1, 0)
    return out


CONV = INC + '''#include <type_traits>
template <class A, class B> struct mixes {
	template <class X, class Y> static auto t(int) -> decltype(std::declval<X>() + std::declval<Y>(), std::true_type()); template <class X, class Y> static std::false_type t(...);
	template <class X, class Y> static auto c(int) -> decltype(std::declval<X>() == std::declval<Y>(), std::true_type()); template <class X, class Y> static std::false_type c(...);
	static constexpr bool add = decltype(t<A,B>(0))::value, eq = decltype(c<A,B>(0))::value; };
template <class P> struct G { typedef typename P::UnpackedT U; typedef typename P::UnpackedLow L; typedef typename P::value_t T;
	static_assert(!std::is_convertible<U, P>::value && std::is_constructible<P, U>::value, "unpacked number converts implicitly to a posit");
	static_assert(!std::is_convertible<L, P>::value && std::is_constructible<P, L>::value, "regime, exponent, fraction triple converts implicitly to a posit");
	static_assert(std::is_constructible<P, typename P::DeepInit, T>::value && !std::is_convertible<typename P::DeepInit, P>::value, "raw bit pattern");
	static_assert(std::is_constructible<P, float>::value && std::is_constructible<P, double>::value && std::is_constructible<P, int>::value, "explicit construction from a number");
	static_assert(mixes<P, P>::add && mixes<P, P>::eq, "same type"); };
// nothing but a converting constructor is out of the way for a type without an integer conversion
template <class P> struct E { static_assert(!std::is_convertible<float, P>::value && !std::is_convertible<double, P>::value && !std::is_convertible<int, P>::value && !std::is_convertible<typename P::UnpackedT, P>::value
	&& std::is_constructible<P, float>::value && std::is_constructible<P, double>::value && std::is_constructible<P, int>::value && std::is_constructible<P, typename P::UnpackedT>::value, "a number converts implicitly to an emulated type"); };
template <class P, class Q> struct X { static_assert(!std::is_convertible<P, Q>::value && !std::is_convertible<Q, P>::value, "posits of different configurations convert implicitly");
	static_assert(!mixes<P, Q>::add && !mixes<Q, P>::add && !mixes<P, Q>::eq && !mixes<Q, P>::eq, "operands of different configurations mix"); };
template <class U> struct N { static_assert(!std::is_convertible<float, U>::value && !std::is_convertible<double, U>::value && !std::is_convertible<int, U>::value && !std::is_convertible<halffloat, U>::value && !std::is_convertible<typename U::Type, U>::value
	&& std::is_constructible<U, float>::value && std::is_constructible<U, double>::value && std::is_constructible<U, int>::value && std::is_constructible<U, typename U::Type>::value, "a number converts implicitly to an unpacked number"); };
'''
MODES = [('clang c++14', 'clang++-18', ['-std=c++14']), ('clang c++17', 'clang++-18', ['-std=c++17']), ('gcc c++14', 'g++', ['-std=c++14']), ('gcc c++17', 'g++', ['-std=c++17'])]


def conv_jobs():
    cs = configs.all_cfgs()
    out = []
    for k in range(0, len(cs), 12):
        part = [c.ctype for c in cs[k:k + 12]]
        src = CONV + ''.join('template struct G<%s>;\n' % t for t in part)
        nx = 0
        for a, b in zip(part, part[1:] + part[:1]):
            if a != b:
                src += 'template struct X<%s, %s>;\n' % (a, b)
                nx += 1
        out.append(('conversions of posits %d' % (k // 12), src, 5 * len(part) + 2 * nx))
    src = CONV
    n = 0
    for c in cs[::4]:
        for fft in ('float', 'double'):
            src += 'template struct E<PositF<int%d_t,%d,%d,%s,PositSpec::%s>>;\n' % (c.H, c.N, c.es, fft, c.spec)
            n += 1
    for F in (8, 16, 32, 64):
        for e in (8, 16, 32, 64):
            src += 'template struct N<Unpacked<uint%d_t,int%d_t>>;\n' % (F, e)
            n += 1
    import c25
    for _, v in c25.EMU.items():
        src += 'template struct E<%s>;\n' % v[0]
        n += 1
    out.append(('conversions of float backed posits, unpacked numbers and emulated floats', src, n))
    return out


def cc(mode, src, path):
    with open(path, 'w') as f:
        f.write(src)
    _, c, flags = next(m for m in MODES if m[0] == mode)
    lim = ['-ferror-limit=0'] if 'clang' in c else ['-fmax-errors=0']
    p = subprocess.run([c] + flags + lim + ['-w', '-fsyntax-only', '-march=x86-64', '-I' + os.path.join(core.REPO, 'include'), path], capture_output=True, text=True)
    return p.returncode, p.stderr


def errors(text):
    return [l.strip()[:300] for l in text.splitlines() if 'error:' in l]


def batch(progs, kind):
    """one translation unit with each program in a namespace and a file name of its own, so that a diagnostic names the programs it arises from"""
    return INC + ''.join('#line 1 "%s_%d_"\nnamespace %s%d { %s }\n' % (kind, i, kind, i, t) for i, t in progs)


def comp(a):
    kind, mode, items, path = a
    out = []
    if kind == 'conv':
        for label, src, n in items:
            rc, err = cc(mode, src, path)
            out.append((kind, label, mode, rc, errors(err), n))
        return out
    progs = [(i, t) for i, (label, t) in enumerate(items)]
    rc, err = cc(mode, batch(progs, kind), path)
    for i, t in progs:
        hit = '%s_%d_' % (kind, i) in err
        if kind == 'good' and rc == 0:
            r = (0, [])
        elif kind == 'bad' and rc != 0 and hit:
            r = (rc, [])
        else:                      # not settled by the batch: on its own
            rc1, err1 = cc(mode, batch([(i, t)], kind), path)
            r = (rc1, errors(err1))
        out.append((kind, items[i][0], mode, r[0], r[1], 1))
    return out


def check(tmp):
    st = Stats()
    st2 = Stats()
    work = []
    P = pairs()
    for k, (mode, c, fl) in enumerate(MODES):
        for j in range(0, len(P), 40):
            part = P[j:j + 40]
            work.append(('bad', mode, [(l, b) for l, b, g in part], os.path.join(tmp, 'b%d_%d.cpp' % (j, k))))
            work.append(('good', mode, [(l, g) for l, b, g in part], os.path.join(tmp, 'g%d_%d.cpp' % (j, k))))
        for i, it in enumerate(conv_jobs()):
            work.append(('conv', mode, [it], os.path.join(tmp, 'c%d_%d.cpp' % (i, k))))
    res = {}
    with mp.Pool(8) as pool:
        for rs in pool.imap_unordered(comp, work, 1):
            for kind, label, mode, rc, err, n in rs:
                res[(kind, label, mode)] = (rc, err, n)
    for (kind, label, mode), (rc, err, n) in sorted(res.items()):
        if kind == 'bad':
            st.cells += 1
            st.obl += 1
            grc, gerr, _ = res[('good', label, mode)]
            if grc != 0:
                st.undecided.append('%s (%s): the valid twin is rejected: %s' % (label, mode, gerr[:1]))
            elif rc == 0:
                st.viol.append({'cell': '%s (%s)' % (label, mode), 'what': 'invalid configuration accepted', 'unit': label, 'inputs': 'program', 'got': 'accepted', 'want': 'rejected',
                                'where': [l for lb, b, g in P if lb == label for l in b.splitlines()][:2]})
            else:
                st.proved += 1
                st.traces += 1
        elif kind == 'conv':
            st2.cells += n
            st2.obl += n
            st2.traces += 1
            if rc == 0:
                st2.proved += n
            elif any('static assertion failed' in e or 'static_assert failed' in e for e in err):
                e = next(e for e in err if 'static assertion failed' in e or 'static_assert failed' in e)
                st2.viol.append({'cell': '%s (%s)' % (label, mode), 'what': 'conversion rule broken', 'unit': label, 'inputs': 'program', 'got': e.strip()[:300], 'want': 'no implicit conversion', 'where': [e.strip()[:300]]})
            else:
                st2.undecided.append('%s (%s): %s' % (label, mode, err[:1]))
    return dict(rule=RULE, stats_list=[('compile-fail witnesses', st), ('conversion assertions', st2)], min_obl=200,
                extra={'modes': [m[0] for m in MODES], 'pairs': len(P), 'functions': ['PositTrait', 'Posit', 'PositF', 'Unpacked', 'anyfloat_emu', 'any_floattrait', 'fixedtrait']})
