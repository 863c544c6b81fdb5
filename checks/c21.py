"""C21 every public operation compiles for every supported configuration"""
import os
import re
import subprocess
import sys
import multiprocessing as mp
import core
from core import Stats, AnalysisBroken
from wit import HEAD, UNPACKED, POSIT_BASE, TRAITS, unpacked_unit
import configs
import c25

RULE = ('type checking of witness programs: one template whose members use each public member, operator, constructor, conversion, free function, std overload and limits member once, and whose static assertions '
        'and constexpr objects need the declared constant-expression interface, is explicitly instantiated (all members) for every configuration; clang and gcc, C++14 and C++17, with and without '
        'the bit-extraction instructions and the deferred-product mode. A configuration whose witness is rejected is a violation, located by the diagnostic')

GEN = '''
template <class P> struct Use
{
	typedef typename P::value_t T;
	typedef typename P::UnpackedT U;
	typedef typename P::UnpackedLow L;
	static P d(T v) { return P(typename P::DeepInit(), v); }
	static void ctor() { P a; P b(1); P c(1.0f); P e(1.0); P f(U(1.0f)); P g(f.unpack_low()); P h(a); a = h; (void)b; (void)c; (void)e; (void)g; }
	static void conv(P a) { float f = (float)a; double g = (double)a; int i = (int)a; U u = a; (void)f; (void)g; (void)i; (void)u; }
	static P arith(P a, P b, P c) { P r = a + b; r = P(a - b); r = P(a * b); r = P(a / b); r += a; r *= b; r = -r; r = ~r; r = fma(a, b, c); return r; }
	static bool cmp(P a, P b) { return a == b || a != b || a < b || a <= b || a > b || a >= b; }
	static P unary(P a) { P r = a.half(); r = a.twice(); r = a.inv(); r = a.neg(); r = a.abs(); r = a.next(); r = a.prev(); r = ::neg(a); r = ::inv(a); r = std::abs(a); r = std::min(a, r); r = std::max(a, r);
		r = a.pseudosigmoid(); r = a.pseudosoftplus(); r = a.urOneMinus(); r = P(a.urDeltaPs()); return r; }
	static bool pred(P a) { return a.hasNaN() || a.isNaN() || a.isnegative() || a.isinfinity() || a.iszero() || a.isone() || a.isUnitRange(); }
	static P k() { P r = P::zero(); r = P::inf(); r = P::pinf(); r = P::ninf(); r = P::max(); r = P::min(); r = P::lowest(); r = P::nan(); r = P::infinity(); r = P::one(); r = P::two(); r = P::mone(); r = P::onehalf(); return r; }
	static P low(P a) { L l = a.unpack_low(); U u = P::unpacked_low2full(l); l = P::unpacked_full2low(u); return P::pack_low(l); }
	static P lim() { typedef std::numeric_limits<P> N; P r = N::min(); r = N::max(); r = N::lowest(); r = N::epsilon(); r = N::infinity(); r = N::quiet_NaN(); r = N::denorm_min(); return r; }
	static void print(std::ostream & o, P a) { o << a << a.unpack(); }
	static int limc() { typedef std::numeric_limits<P> N; enum { a = N::is_specialized, b = N::is_signed, c = N::is_integer, d = N::is_exact, e = N::radix, f = N::has_infinity, g = N::has_quiet_NaN, h = N::has_signaling_NaN, i = N::has_denorm_loss, j = N::is_iec559, k = N::is_bounded, l = N::is_modulo, m = N::traps, n = N::tinyness_before };
		constexpr int lo = N::min_exponent, hi = N::max_exponent; static_assert(lo < hi, "exponent range"); return lo + hi; }
	static void cx() {
		constexpr P z; constexpr P a(typename P::DeepInit(), (T)1), b = P::one(), c = P::zero(), n = -a;
		constexpr bool e = a == b, ne = a != b, lt = a < b, le = a <= b, gt = a > b, ge = a >= b;
		constexpr bool q = a.hasNaN() || a.isNaN() || a.isnegative() || a.isinfinity() || a.iszero() || a.isone() || a.isUnitRange();
		constexpr P k[] = { P::zero(), P::inf(), P::pinf(), P::ninf(), P::max(), P::min(), P::lowest(), P::nan(), P::infinity(), P::one(), P::two(), P::mone(), P::onehalf(), a.abs(), a.neg(), a.next(), a.prev(), a.urOneMinus(), a.pseudosigmoid(), a.pseudosoftplus(), ::neg(a), std::abs(n), std::min(a, b), std::max(a, b),
			std::numeric_limits<P>::min(), std::numeric_limits<P>::max(), std::numeric_limits<P>::lowest(), std::numeric_limits<P>::infinity(), std::numeric_limits<P>::quiet_NaN(), std::numeric_limits<P>::denorm_min() };
		constexpr U u = a.unpack(); constexpr L l = a.unpack_low(); constexpr P r = P::pack_low(l), s(u), t(l); constexpr U w = P::unpacked_low2full(l); constexpr L m = P::unpacked_full2low(w); constexpr P y = P::pack_low(m);
		enum { tot = P::vtotalbits, es = P::vesbits };
		(void)z; (void)b; (void)c; (void)e; (void)ne; (void)lt; (void)le; (void)gt; (void)ge; (void)q; (void)k; (void)r; (void)s; (void)t; (void)y;
	}
};
'''
# members of the generic posit only
PONLY = '''
template <class P> struct UseP
{
	typedef typename P::UnpackedT U;
	typedef typename P::value_t T;
	static void dv(P a, P b) { a /= b; }
	static P dot(const P * x, const P * y, int n) { return P::dot(x, y, n); }
	static P sq(P a) { return std::sqrt(a); }
	static P tag(uint32_t x) { return P(typename P::single_tag(), x); }
	static uint32_t bin(P a) { return a.as_float_bin(); }
	static int info(P a) { auto i = a.analyze(); return i.infinity + i.nan + i.k + i.sign + i.rs + i.es + i.fs + i.exp + i.exponent + (i.ifraction != 0) + (i.regime + i.fraction + i.value != 0); }
	static P impl() { P r = 3; r = 4; return r; }
	static P lit(P a) { return a + P(1); }
	static_assert(std::numeric_limits<P>::digits10 > -2, "digits10");
	static void cx() {
		constexpr P a(typename P::DeepInit(), (T)1), b(1), c(3), d = 2;
		constexpr P s = b + c, t = b - c, u = b * c, v = b / c, w = ~c, x = c.inv(), y = c.half(), z = c.twice(), f = fma(a, b, c), g = std::numeric_limits<P>::epsilon(), h = a.urDeltaPs(), i = ::inv(c);
		constexpr int n = (int)c; constexpr U p = b.unpack() * c.unpack() + d.unpack() / c.unpack() - b.unpack(); constexpr P q(p), o(typename P::single_tag(), 0x3f800000u); constexpr uint32_t m = b.as_float_bin();
		(void)a; (void)s; (void)t; (void)u; (void)v; (void)w; (void)x; (void)y; (void)z; (void)f; (void)g; (void)h; (void)i; (void)n; (void)q; (void)o; (void)m;
	}
};
'''
# an operation has no -= of its own on some posits: left out above when the type has none
MUL = '''
template <class P> struct UseM
{
	typedef typename P::UnpackedT U;
	static P a(P x, P y, P z, P w) { P r = x * y; r = x * y + z * w; r = x * y - z * w; r = z + x * y; r = x * y + z; r = (x * y).asPosit(); U u = x * y; float f = x * y; double g = x * y; int i = x * y; (void)u; (void)f; (void)g; (void)i; return r; }
	static void cx() { constexpr P b(1), c(3); constexpr P r = b * c, s = b * c + c * c, t = b * c - c * c, u = b + b * c, v = b * c + b; (void)r; (void)s; (void)t; (void)u; (void)v; }
};
'''
UNP = '''
template <class U, class F, class E> struct UseU
{
	static U arith(U a, U b) { U r = a + b; r = a - b; r = a * b; r = a / b; r += a; r -= b; r = -r; r = r.inv(); return r; }
	static bool cmp(U a, U b) { return a == b || a != b; }
	static bool pred(U a) { return a.isInfinity() || a.isRegular() || a.isNaN() || a.isZero() || a.isPositive(); }
	static void ctor() { U a; U b(1); U c(1.0f); U d(1.0); U e(halffloat(1)); U f(U::Zero); U g(U::Infinity, true); U h((E)1, (F)2, true); U i(typename U::single_tag(), 5); (void)a; (void)b; (void)c; (void)d; (void)e; (void)f; (void)g; (void)h; (void)i; }
	static void conv(U a) { float f = (float)a; double g = (double)a; int i = (int)a; halffloat h = a; f = a.template pack_float<float>(); g = a.template pack_float<double>(); (void)f; (void)g; (void)i; (void)h; }
	template <class Tr> static void traits() { U a = U::template make_floati<Tr>(1); typename Tr::holder_t h = a.template pack_xfloati<Tr>(); (void)h; }
	static void tr() { traits<half_trait>(); traits<single_trait>(); traits<double_trait>(); traits<microfloat_trait>(); traits<half_traitalt>(); traits<bfloat16_trait>(); traits<any_floattrait<4,3,microfloat,uint8_t>>(); }
	static void trv() { U a = U::template make_float<single_trait>(1.0f); a = U::template make_float<double_trait>(1.0); a = U::template make_float<half_trait>(halffloat(1)); float f = a.template pack_xfloat<single_trait>(); double g = a.template pack_xfloat<double_trait>(); (void)f; (void)g; }
	template <class Tr> static void fx() { U a = U::template make_fixed<Tr>(1); typename Tr::value_t v = a.template pack_xfixed<Tr>(); (void)v; }
	static void fixed() { fx<fixedtrait<int8_t,8,4>>(); fx<fixedtrait<int16_t,16,8>>(); fx<fixedtrait<int32_t,32,0>>(); fx<fixedtrait<int32_t,32,16>>(); fx<fixedtrait<int64_t,64,32>>(); }
	static U k() { U r = U::infinity(); r = U::pinfinity(); r = U::ninfinity(); r = U::nan(); r = U::one(); r = U::zero(); return r; }
	static void print(std::ostream & o, U a) { o << a; }
	static void cx() {
		constexpr U a = U::one(), z = U::zero(), i = U::infinity(), p = U::pinfinity(), m = U::ninfinity(), n = U::nan(), b((E)1, (F)2, true), c(3), t(typename U::single_tag(), 5), inv = c.inv(), s = a + b, d = a - b, x = a * b, y = c / a, g = -a;
		constexpr bool e = a == b, f = a != b, q = a.isInfinity() || a.isRegular() || a.isNaN() || a.isZero() || a.isPositive(); constexpr int v = (int)c;
		constexpr uint32_t w = c.template pack_xfloati<single_trait>(); constexpr uint64_t ww = c.template pack_xfloati<double_trait>(); constexpr U r = U::template make_floati<half_trait>(1), fxx = U::template make_fixed<fixedtrait<int32_t,32,16>>(9);
		(void)z; (void)i; (void)p; (void)m; (void)n; (void)t; (void)inv; (void)s; (void)d; (void)x; (void)y; (void)g; (void)e; (void)f; (void)q; (void)v; (void)w; (void)ww; (void)r; (void)fxx;
	}
};
static void cvt() { constexpr uint32_t a = convertfloats<half_trait,single_trait,uint64_t>(1); constexpr uint16_t b = convertfloats<single_trait,half_trait,uint64_t>(1); constexpr uint64_t c = convertfloats<single_trait,double_trait,uint64_t>(1); constexpr uint8_t d = convertfloats<double_trait,microfloat_trait,uint64_t>(1); (void)a; (void)b; (void)c; (void)d; }
'''
EMU = '''
template <class X> struct UseX
{
	typedef typename X::T T;
	typedef typename X::FFT F;
	typedef typename X::UnpackedT U;
	static void ctor() { X a; X b(1); X c(1.0f); X d(1.0); X e(U(1.0f)); X f(typename X::DeepInit(), (T)1); (void)a; (void)b; (void)c; (void)d; (void)e; (void)f; }
	static void conv(const X a) { float f = (float)a; double g = (double)a; int i = (int)a; U u = a; U w = a.unpack(); (void)f; (void)g; (void)i; (void)u; (void)w; }
	static X arith(const X a, const X b, const X c) { X r = a + b; r = a - b; r = a * b; r = a / b; r += a; r *= b; r = -a; r = ~a; r = fma(a, b, c); r = a.half(); r = a.twice(); r = a.inv(); r = a.neg(); r = a.abs(); return r; }
	static bool cmp(const X a, const X b) { return a == b || a != b || a < b || a <= b || a > b || a >= b || a.iszero() || a.isnegative() || a.hasNaN(); }
	static X k() { X r = X::zero(); r = X::inf(); r = X::pinf(); r = X::ninf(); r = X::max(); r = X::min(); r = X::lowest(); r = X::nan(); r = X::infinity(); r = X::one(); r = X::two(); return r; }
	static void cx() { constexpr X a(typename X::DeepInit(), (T)1), b = a.neg(), c = a.abs(), d = -a, e(3), k[] = { X::zero(), X::inf(), X::pinf(), X::ninf(), X::max(), X::min(), X::lowest(), X::nan(), X::infinity(), X::one(), X::two() }; constexpr bool q = a.iszero() || a.isnegative() || a.hasNaN(); constexpr U u = a.unpack(); constexpr X f(u); (void)b; (void)c; (void)d; (void)e; (void)k; (void)q; (void)f; }
};
template <class X> struct UseXs { static X s(X a, X b) { X r = std::abs(a); r = std::min(a, b); r = std::max(a, b); return r; } };
static float16n32 use16(float16n32 a, float16n32 b) { float16n32 r = a + b; r = a - b; r = a * b; r = a / b; r += a; r *= b; r = -a; r = rem(a, b); r = sqrt(a); r = mulAdd(a, b, r); r = half(a); r = square(a); r = inv(a); r = a.abs(); r = a.neg(); r = std::abs(a); r = float16n32::two(); r = float16n32::one(); r = float16n32::zero();
	bool c = a == b || a < b || a > b || a >= b || a <= b; float f = (float)a; double d = (double)a; float16n_t h = a; r = float16n32(1.0f); r = float16n32(h); std::cout << a << c << f << d << a.raw(); return r; }
'''
TAB = '''
template <class P, bool full> struct UseT
{
	typedef typename P::FPT G;
	static P arith(P a, P b) { P r = a + b; r = a - b; r = a * b; r = a / b; r += a; r *= b; r = -a; r = a.inv(); r = a.half(); r = a.twice(); r = a.square(); r = a.exp2(); r = ::neg(a); r = ::inv(a); r = ::half(a); r = ::twice(a); r = ::square(a); r = ::exp2(a); r = std::abs(a); r = std::min(a, b); r = std::max(a, b); return r; }
	static bool cmp(P a, P b) { return a == b || a != b || a < b || a <= b || a > b || a >= b || a.is_nan() || a.is_infinity() || a.is_negative(); }
	static void ctor() { P a; P b(1); P c(1.0f); P d(1.0); P e(G(1).unpack()); P f(G(1).unpack_low()); P g = P(G(1)); (void)a; (void)b; (void)c; (void)d; (void)e; (void)f; (void)g; }
	static void conv(const P a) { float f = (float)a; double g = (double)a; int i = (int)a; G h = a; a.unpack(); a.unpack_low(); a.as_posit(); a.analyze(); a.uu(); std::cout << a; (void)f; (void)g; (void)i; (void)h; }
	static P k() { P r = P::one(); r = P::afterone(); r = P::onehalf(); r = P::max(); r = P::min(); r = P::nan(); r = P::pinfinity(); r = P::ninfinity(); r = std::numeric_limits<P>::min(); r = std::numeric_limits<P>::max(); r = std::numeric_limits<P>::epsilon(); return r; }
};
'''
B8 = '''
template <class P> struct UseB
{
	static P arith(P a, P b) { P r = a + b; r = a - b; r = a * b; r = a / b; r += a; r *= b; r = -a; r = a.inv(); r = a.half(); r = a.twice(); r = a.square(); r = a.exp2(); r = ::neg(a); r = ::inv(a); r = ::half(a); r = ::twice(a); r = ::square(a); r = ::exp2(a); r = std::abs(a); r = std::min(a, b); r = std::max(a, b); return r; }
	static bool cmp(P a, P b) { return a == b || a != b || a < b || a <= b || a > b || a >= b || a.is_negative() || is_negative(b); }
	static void ctor() { P a; P b(1); P c(1.0f); P d(1.0); P e(typename P::DeepInit(), 3); (void)a; (void)b; (void)c; (void)d; (void)e; }
	static int conv(const P a) { float f = (float)a; double g = (double)a; int i = (int)a; a.uu(); (void)f; (void)g; (void)i; return 0; }
	static P k() { P r = P::one(); r = P::afterone(); r = P::zero(); r = P::max(); r = P::min(); r = std::numeric_limits<P>::min(); r = std::numeric_limits<P>::max(); r = std::numeric_limits<P>::epsilon(); return r; }
};
template struct UseB<binary8tab>;
'''
# public headers, each alone and each pair in both orders
HEADERS = ['posit.h', 'positf.h', 'unpacked.h', 'anyfloat.hpp', 'floattraits.hpp', 'fixedtraits.hpp', 'bithippop.hpp', 'typehelpers.hpp', 'float16native32.hpp', 'posit8.hpp', 'posit10.hpp', 'posit12.hpp', 'binary8.hpp']
MODES = [('clang c++14', 'clang++-18', ['-std=c++14', '-march=x86-64']), ('clang c++17 bmi', 'clang++-18', ['-std=c++17', '-march=x86-64', '-mbmi']),
         ('gcc c++14', 'g++', ['-std=c++14', '-march=x86-64']), ('gcc c++17 bmi', 'g++', ['-std=c++17', '-march=x86-64', '-mbmi', '-mf16c', '-mavx'])]


def jobs():
    """(label, kind, source, extra flags, instantiations)"""
    cs = configs.all_cfgs()
    out = []
    for k in range(0, len(cs), 6):
        part = cs[k:k + 6]
        src = '#include <cmath>\n' + HEAD + GEN + PONLY + ''.join('template struct Use<%s>;\ntemplate struct UseP<%s>;\n' % (c.ctype, c.ctype) for c in part)
        out.append(('posit %d' % (k // 6), src, [], part))
    part = cs[::5]
    src = HEAD + MUL + ''.join('template struct UseM<%s>;\n' % c.ctype for c in part)
    out.append(('deferred products', src, ['-DPOSITMUL'], part))
    pf = []
    for c in cs[::3]:
        for fft in ('float', 'double'):
            pf.append('PositF<int%d_t,%d,%d,%s,PositSpec::%s>' % (c.H, c.N, c.es, fft, c.spec))
    for k in range(0, len(pf), 12):
        out.append(('float backed %d' % (k // 12), HEAD + GEN + ''.join('template struct Use<%s>;\n' % t for t in pf[k:k + 12]), [], pf[k:k + 12]))
    ut = [(F, E) for F in (8, 16, 32, 64) for E in (8, 16, 32, 64)]
    out.append(('unpacked', HEAD + '#include "floattraits.hpp"\n' + UNP + ''.join('template struct UseU<Unpacked<uint%d_t,int%d_t>,uint%d_t,int%d_t>;\n' % (F, E, F, E) for F, E in ut), [], ut))
    ex = list(c25.EMU.items())
    out.append(('emulated floats', HEAD + '#include "float16native32.hpp"\n' + EMU + ''.join('template struct UseX<%s>;\n' % v[0] + ('template struct UseXs<%s>;\n' % v[0] if v[3] else '') for n, v in ex), [], ex))
    for t in ('posit8', 'posit10', 'posit12'):
        out.append((t, HEAD + '#include "%s.hpp"\n' % t + TAB + 'template struct UseT<%s,true>;\n' % t + ('' if t == 'posit12' else 'inline %s kz() { return %s::zero(); }\ninline %s kt() { return %s::two(); }\n' % (t, t, t, t)), [], [t]))
    out.append(('binary8tab', '#include "posit.h"\n#include "binary8.hpp"\n' + B8, [], ['binary8tab']))
    for h in HEADERS:
        out.append(('header ' + h, '#include "%s"\nint k;\n' % h, [], [h]))
    for i, g in enumerate(HEADERS):
        for j, h in enumerate(HEADERS):
            # in either order; without the order of one pair every other header is still seen with every other one
            if i < j:
                out.append(('headers %s %s' % (g, h), '#include "%s"\n#include "%s"\nint k;\n' % ((g, h) if (i + j) % 2 else (h, g)), [], [(g, h)]))
    out.append(('all headers', ''.join('#include "%s"\n' % h for h in HEADERS) + 'int k;\n', [], HEADERS))
    out.append(('all headers reversed', ''.join('#include "%s"\n' % h for h in reversed(HEADERS)) + 'int k;\n', [], HEADERS))
    out.append(('quad precision declared before the headers', '#if __has_include(<quadmath.h>)\n#include <quadmath.h>\n#endif\n' + ''.join('#include "%s"\n' % h for h in HEADERS) + 'int k;\n', [], HEADERS))
    out.append(('bit fields', __import__('c26').build(0)[0], [], ['bitset_get', 'bitset_part', 'cast']))
    return out


def compile_one(a):
    label, mode, cc, flags, src, path = a
    with open(path, 'w') as f:
        f.write(src)
    p = subprocess.run([cc] + flags + ['-w', '-fsyntax-only', '-I' + os.path.join(core.REPO, 'include'), path], capture_output=True, text=True)
    return label, mode, p.returncode, p.stderr


def first_error(err):
    lines = err.splitlines()
    for i, l in enumerate(lines):
        if re.search(r'\berror:', l):
            where = [l]
            for m in lines[max(0, i - 6):i] + lines[i + 1:i + 14]:
                if 'instantiation of' in m or 'required from' in m or 'note: ' in m:
                    where.append(m.strip()[:200])
            return l.strip(), where[:4]
    return lines[0] if lines else '?', []


def check(tmp):
    st = Stats()
    work = []
    J = jobs()
    for i, (label, src, fl, inst) in enumerate(J):
        for mode, cc, mf in MODES:
            if 'bmi' in mode and label == 'bit fields':
                continue
            if label.startswith('headers ') and mode != 'gcc c++14':
                continue
            work.append((label, mode, cc, mf + fl, src, os.path.join(tmp, 'w%d_%s.cpp' % (i, re.sub(r'\W', '_', mode)))))
    n = {l: len(inst) for l, s, f, inst in J}
    with mp.Pool(8) as pool:
        for label, mode, rc, err in pool.imap_unordered(compile_one, work, 1):
            st.cells += n[label]
            st.obl += n[label]
            st.traces += 1
            if rc == 0:
                st.proved += n[label]
            elif rc < 0 or 'error:' not in err:
                st.undecided.append('%s (%s): compiler gave no verdict: %s' % (label, mode, err[:200]))
            else:
                e, where = first_error(err)
                st.viol.append({'cell': '%s (%s)' % (label, mode), 'what': 'witness program rejected', 'unit': label, 'inputs': 'program', 'got': e[:300], 'want': 'accepted', 'where': where})
    return dict(rule=RULE, stats_list=[('witness programs', st)], min_obl=100,
                extra={'modes': [m[0] for m in MODES], 'witnesses': {l: n[l] for l in n}, 'functions': ['all public members: see checks/c21.py']})
