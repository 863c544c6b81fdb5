"""Witness units: thin extern "C" functions over the public API, one unit per configuration.

They fix names and calling conventions for the analysis and contain no logic of their own
beyond mapping enumerators to fixed numbers."""

SPECS = ('WithNan', 'WithInf', 'WithNanInf')
REG, INF, NAN, ZERO = 0, 1, 2, 3


class Cfg:
    """posit configuration"""
    def __init__(self, H, N, es, F, spec='WithNan'):
        self.H, self.N, self.es, self.F, self.spec = H, N, es, F, spec
        self.E = 2 * H if N + es >= H else H
        self.name = 'p%d_%d_%d_%d_%s' % (H, N, es, F, spec)
        self.nan = spec != 'WithInf'
        self.inf = spec != 'WithNan'
        self.both = spec == 'WithNanInf'
        self.maxreg = N - 3 if self.both else N - 2
        self.minreg = -(N - 2)
        self.maxexp = self.maxreg << es
        self.minexp = -((N - 2) << es)

    @property
    def ctype(self):
        return 'Posit<int%d_t,%d,%d,uint%d_t,PositSpec::%s>' % (self.H, self.N, self.es, self.F, self.spec)

    def __repr__(self):
        return 'Posit<int%d_t,%d,%d,uint%d_t,%s>' % (self.H, self.N, self.es, self.F, self.spec)


HEAD = '''
#include "posit.h"
#include "positf.h"
#include "anyfloat.hpp"
#include <cstring>
typedef int64_t i64; typedef uint64_t u64;
template <class U> static int kind(const U & u) { return u.type == U::Regular ? 0 : u.type == U::Infinity ? 1 : u.type == U::NaN ? 2 : u.type == U::Zero ? 3 : 4; }
template <class U> static U mku(int t, int n, i64 e, u64 f)
{
	if(t == 0) return U(e, f, n != 0);
	if(t == 1) return U(U::Infinity, n != 0);
	if(t == 2) return U(U::NaN);
	return U(U::Zero);
}
template <class U> static void outu(const U & u, i64 *t, i64 *n, i64 *e, u64 *f)
{
	*t = kind(u);
	*n = u.type == U::NaN ? 0 : (u.negativeSign ? 1 : 0);
	*e = u.type == U::Regular ? (i64)u.exponent : 0;
	*f = u.type == U::Regular ? (u64)u.fraction : 0;
}
static inline float bf(uint32_t x) { float f; memcpy(&f,&x,4); return f; }
static inline double bd(uint64_t x) { double f; memcpy(&f,&x,8); return f; }
static inline uint32_t fb(float f) { uint32_t x; memcpy(&x,&f,4); return x; }
static inline uint64_t db(double f) { uint64_t x; memcpy(&x,&f,8); return x; }
'''

# functions of one posit type; %(P)s class, %(T)s storage
POSIT_BASE = '''
typedef %(P)s P;
typedef %(T)s T;
typedef P::UnpackedT U;
typedef P::UnpackedLow L;
#define D(x) P(P::DeepInit(),(T)(x))
extern "C" {
void w_dec(T v, i64 *t, i64 *n, i64 *e, u64 *f) { outu(D(v).unpack(), t, n, e, f); }
void w_declow(T v, i64 *t, i64 *n, i64 *r, u64 *x, u64 *f)
{
	L q = D(v).unpack_low();
	*t = q.type == U::Regular ? 0 : q.type == U::Infinity ? 1 : q.type == U::NaN ? 2 : q.type == U::Zero ? 3 : 4;
	*n = q.type == U::NaN ? 0 : (q.negativeSign ? 1 : 0);
	*r = q.type == U::Regular ? (i64)q.regime : 0; *x = q.type == U::Regular ? (u64)q.exp : 0; *f = q.type == U::Regular ? (u64)q.fraction : 0;
}
i64 w_enc(int t, int n, i64 e, u64 f) { return P(mku<U>(t,n,e,f)).v; }
i64 w_enclow(int t, int n, i64 r, u64 x, u64 f)
{
	if(t == 0) return P(L(n != 0, r, x, f)).v;
	return P(L(t == 1 ? U::Infinity : t == 2 ? U::NaN : U::Zero, n != 0)).v;
}
i64 w_rt(T v) { return P(D(v).unpack()).v; }
i64 w_rtlow(T v) { return P(D(v).unpack_low()).v; }
i64 w_neg(T v) { return (-D(v)).v; }
i64 w_mneg(T v) { return D(v).neg().v; }
i64 w_mabs(T v) { return D(v).abs().v; }
i64 w_sabs(T v) { return std::abs(D(v)).v; }
i64 w_fneg(T v) { P p = D(v); return ::neg(p).v; }
i64 w_negneg(T v) { return (-(-D(v))).v; }
i64 w_half(T v) { return D(v).half().v; }
i64 w_twice(T v) { return D(v).twice().v; }
i64 w_minv(T v) { return D(v).inv().v; }
i64 w_oinv(T v) { return (~D(v)).v; }
i64 w_finv(T v) { P p = D(v); return ::inv(p).v; }
i64 w_next(T v) { return D(v).next().v; }
i64 w_prev(T v) { return D(v).prev().v; }
i64 w_pred(T v) { P p = D(v); return (p.isNaN()?1:0)|(p.isinfinity()?2:0)|(p.iszero()?4:0)|(p.isone()?8:0)|(p.isnegative()?16:0)|(p.hasNaN()?32:0); }
i64 w_cmp(T v, T w) { P a = D(v), b = D(w); return (a==b?1:0)|(a!=b?2:0)|(a<b?4:0)|(a<=b?8:0)|(a>b?16:0)|(a>=b?32:0); }
i64 w_add(T v, T w) { return (D(v)+D(w)).v; }
i64 w_sub(T v, T w) { return (D(v)-D(w)).v; }
i64 w_mul(T v, T w) { P r = D(v)*D(w); return r.v; }
i64 w_dvd(T v, T w) { return (D(v)/D(w)).v; }
i64 w_addeq(T v, T w) { P a = D(v); a += D(w); return a.v; }
i64 w_muleq(T v, T w) { P a = D(v); a *= D(w); return a.v; }
i64 w_smin(T v, T w) { return std::min(D(v),D(w)).v; }
i64 w_smax(T v, T w) { return std::max(D(v),D(w)).v; }
i64 w_pfma(T v, T w, T x) { return fma(D(v),D(w),D(x)).v; }
u64 w_tof(T v) { return fb((float)D(v)); }
u64 w_tod(T v) { return db((double)D(v)); }
i64 w_toi(T v) { return (int)D(v); }
i64 w_fromf(uint32_t x) { return P(bf(x)).v; }
i64 w_fromd(uint64_t x) { return P(bd(x)).v; }
i64 w_fromi(int x) { return P(x).v; }
i64 w_unit(T v) { return D(v).isUnitRange() ? 1 : 0; }
i64 w_onem(T v) { return D(v).urOneMinus().v; }
i64 w_k_zero() { return P::zero().v; }
i64 w_k_one() { return P::one().v; }
i64 w_k_two() { return P::two().v; }
i64 w_k_mone() { return P::mone().v; }
i64 w_k_half() { return P::onehalf().v; }
i64 w_k_max() { return P::max().v; }
i64 w_k_min() { return P::min().v; }
i64 w_k_lowest() { return P::lowest().v; }
i64 w_k_nan() { return P::nan().v; }
i64 w_k_inf() { return P::inf().v; }
i64 w_k_pinf() { return P::pinf().v; }
i64 w_k_ninf() { return P::ninf().v; }
i64 w_k_infinity() { return P::infinity().v; }
i64 w_l_min() { return std::numeric_limits<P>::min().v; }
i64 w_l_max() { return std::numeric_limits<P>::max().v; }
i64 w_l_lowest() { return std::numeric_limits<P>::lowest().v; }
i64 w_l_eps() { return std::numeric_limits<P>::epsilon().v; }
i64 w_l_inf() { return std::numeric_limits<P>::infinity().v; }
i64 w_l_nan() { return std::numeric_limits<P>::quiet_NaN().v; }
i64 w_l_denmin() { return std::numeric_limits<P>::denorm_min().v; }
i64 w_l_flags() { typedef std::numeric_limits<P> N; return (N::has_infinity?1:0)|(N::has_quiet_NaN?2:0)|(N::is_signed?4:0)|(N::is_integer?8:0)|(N::is_exact?16:0)|(N::is_specialized?32:0)|(N::radix==2?64:0)|(N::has_signaling_NaN?128:0); }
i64 w_l_minexp() { return std::numeric_limits<P>::min_exponent; }
i64 w_l_maxexp() { return std::numeric_limits<P>::max_exponent; }
i64 w_dflt() { P p; return p.v; }
}
'''

POSIT_ONLY = '''
extern "C" {
i64 w_subu(T v, T w) { return P(D(v).unpack()-D(w).unpack()).v; }
i64 w_dvdeq(T v, T w) { P a = D(v); a /= D(w); return a.v; }
i64 w_bin(T v) { return D(v).as_float_bin(); }
void w_ana(T v, i64 *fl, i64 *k, i64 *rs, i64 *es, i64 *fs, i64 *x, i64 *e, u64 *f)
{
	P p = D(v); auto i = p.analyze();
	*fl = (i.infinity ? 1 : 0) | (i.nan ? 2 : 0) | (i.sign ? 4 : 0); *k = i.k; *rs = i.rs; *es = i.es; *fs = i.fs; *x = i.exp; *e = i.exponent; *f = i.ifraction;
}
i64 w_fromtag(uint32_t x) { return P(U::single_tag(),x).v; }
i64 w_delta(T v) { P r = D(v).urDeltaPs(); return r.v; }
void w_conv(T v, i64 *t, i64 *n, i64 *e, u64 *f) { U u = D(v); outu(u, t, n, e, f); }
i64 w_dot(const P *a, const P *b, int n) { return P::dot(a,b,n).v; }
i64 w_fmau(T v, T w, T x) { return P(D(v).unpack()*D(w).unpack()+D(x).unpack()).v; }
i64 w_addu(T v, T w) { return P(D(v).unpack()+D(w).unpack()).v; }
i64 w_mulu(T v, T w) { return P(D(v).unpack()*D(w).unpack()).v; }
i64 w_dvdu(T v, T w) { return P(D(v).unpack()/D(w).unpack()).v; }
i64 w_invu(T v) { return P(D(v).unpack().inv()).v; }
}
'''

# functions of one unpacked type
UNPACKED = '''
typedef Unpacked<uint%(F)d_t,int%(E)d_t> U;
#define A mku<U>(ta,na,ea,fa)
#define B mku<U>(tb,nb,eb,fb_)
extern "C" {
void w_uadd(int ta,int na,i64 ea,u64 fa,int tb,int nb,i64 eb,u64 fb_,i64 *t,i64 *n,i64 *e,u64 *f) { outu(A+B,t,n,e,f); }
void w_usub(int ta,int na,i64 ea,u64 fa,int tb,int nb,i64 eb,u64 fb_,i64 *t,i64 *n,i64 *e,u64 *f) { outu(A-B,t,n,e,f); }
void w_umul(int ta,int na,i64 ea,u64 fa,int tb,int nb,i64 eb,u64 fb_,i64 *t,i64 *n,i64 *e,u64 *f) { outu(A*B,t,n,e,f); }
void w_udvd(int ta,int na,i64 ea,u64 fa,int tb,int nb,i64 eb,u64 fb_,i64 *t,i64 *n,i64 *e,u64 *f) { outu(A/B,t,n,e,f); }
void w_uaddeq(int ta,int na,i64 ea,u64 fa,int tb,int nb,i64 eb,u64 fb_,i64 *t,i64 *n,i64 *e,u64 *f) { U a = A; a += B; outu(a,t,n,e,f); }
void w_usubeq(int ta,int na,i64 ea,u64 fa,int tb,int nb,i64 eb,u64 fb_,i64 *t,i64 *n,i64 *e,u64 *f) { U a = A; a -= B; outu(a,t,n,e,f); }
void w_uselfadd(int ta,int na,i64 ea,u64 fa,int tb,int nb,i64 eb,u64 fb_,i64 *t,i64 *n,i64 *e,u64 *f) { U a = A; a += a; outu(a,t,n,e,f); }
void w_uadd1(int ta,int na,i64 ea,u64 fa,int tb,int nb,i64 eb,u64 fb_,i64 *t,i64 *n,i64 *e,u64 *f) { outu(A+A,t,n,e,f); }
void w_uselfsub(int ta,int na,i64 ea,u64 fa,int tb,int nb,i64 eb,u64 fb_,i64 *t,i64 *n,i64 *e,u64 *f) { U a = A; a -= a; outu(a,t,n,e,f); }
void w_usub1(int ta,int na,i64 ea,u64 fa,int tb,int nb,i64 eb,u64 fb_,i64 *t,i64 *n,i64 *e,u64 *f) { outu(A-A,t,n,e,f); }
i64 w_ucmp(int ta,int na,i64 ea,u64 fa,int tb,int nb,i64 eb,u64 fb_) { U a = A, b = B; return (a==b?1:0)|(a!=b?2:0); }
void w_uneg(int ta,int na,i64 ea,u64 fa,i64 *t,i64 *n,i64 *e,u64 *f) { outu(-A,t,n,e,f); }
void w_uinv(int ta,int na,i64 ea,u64 fa,i64 *t,i64 *n,i64 *e,u64 *f) { outu(A.inv(),t,n,e,f); }
i64 w_upred(int ta,int na,i64 ea,u64 fa) { U a = A; return (a.isInfinity()?1:0)|(a.isRegular()?2:0)|(a.isNaN()?4:0)|(a.isZero()?8:0)|(a.isPositive()?16:0); }
void w_ukon(int k,i64 *t,i64 *n,i64 *e,u64 *f) { outu(k==0?U::zero():k==1?U::one():k==2?U::infinity():k==3?U::pinfinity():k==4?U::ninfinity():U::nan(),t,n,e,f); }
%(extra)s
}
'''


def posit_unit(cfg, extra=''):
    return HEAD + POSIT_BASE % {'P': cfg.ctype, 'T': 'int%d_t' % cfg.H} + POSIT_ONLY + extra


def positf_unit(cfg, fft):
    """float backed posit over float (F=32) or double (F=64)"""
    p = 'PositF<int%d_t,%d,%d,%s,PositSpec::%s>' % (cfg.H, cfg.N, cfg.es, fft, cfg.spec)
    src = POSIT_BASE % {'P': p, 'T': 'int%d_t' % cfg.H}
    return HEAD + src


TRAITS = {  # name -> (C++ trait, exponent bits, fraction bits, denormals)
    'half': ('half_trait', 5, 10, True),
    'single': ('single_trait', 8, 23, True),
    'double': ('double_trait', 11, 52, True),
    'micro': ('microfloat_trait', 5, 2, True),
    'halfalt': ('half_traitalt', 8, 7, True),
    'bfloat16': ('bfloat16_trait', 8, 7, False),
    'e4m3': ('any_floattrait<4,3,microfloat,uint8_t>', 4, 3, True),
    'e6m9': ('any_floattrait<6,9,halffloat,uint16_t>', 6, 9, True),
    'e5m2nd': ('any_floattrait<5,2,microfloat,uint8_t,false>', 5, 2, False),
}


def unpacked_unit(F, E, traits=(), fixed=()):
    ex = ''
    for t in traits:
        c, eb, fbits, _ = TRAITS[t]
        hb = 1 + eb + fbits
        ex += 'void w_from_%s(uint%d_t x,i64 *t,i64 *n,i64 *e,u64 *f) { outu(U::make_floati<%s>(x),t,n,e,f); }\n' % (t, hb, c)
        ex += 'u64 w_to_%s(int ta,int na,i64 ea,u64 fa) { return A.pack_xfloati<%s>(); }\n' % (t, c)
    for (T, N, Fb) in fixed:
        tr = 'fixedtrait<int%d_t,%d,%d>' % (T, N, Fb)
        nm = '%d_%d_%d' % (T, N, Fb)
        ex += 'void w_fromx_%s(int%d_t x,i64 *t,i64 *n,i64 *e,u64 *f) { outu(U::make_fixed<%s>(x),t,n,e,f); }\n' % (nm, T, tr)
        ex += 'i64 w_tox_%s(int ta,int na,i64 ea,u64 fa) { return A.pack_xfixed<%s>(); }\n' % (nm, tr)
    if traits:
        ex += '''void w_ctor_f(uint32_t x,i64 *t,i64 *n,i64 *e,u64 *f) { outu(U(bf(x)),t,n,e,f); }
void w_ctor_d(uint64_t x,i64 *t,i64 *n,i64 *e,u64 *f) { outu(U(bd(x)),t,n,e,f); }
void w_ctor_h(uint16_t x,i64 *t,i64 *n,i64 *e,u64 *f) { outu(U(halffloat(x)),t,n,e,f); }
void w_ctor_tag(uint32_t x,i64 *t,i64 *n,i64 *e,u64 *f) { outu(U(U::single_tag(),x),t,n,e,f); }
u64 w_cast_f(int ta,int na,i64 ea,u64 fa) { return fb((float)A); }
u64 w_cast_d(int ta,int na,i64 ea,u64 fa) { return db((double)A); }
u64 w_cast_h(int ta,int na,i64 ea,u64 fa) { return ((halffloat)A).what; }
u64 w_pack_f(int ta,int na,i64 ea,u64 fa) { return fb(A.pack_float<float>()); }
'''
    if fixed:
        ex += '''void w_ctor_i(int x,i64 *t,i64 *n,i64 *e,u64 *f) { outu(U(x),t,n,e,f); }
i64 w_cast_i(int ta,int na,i64 ea,u64 fa) { return (int)A; }
'''
    return HEAD + UNPACKED % {'F': F, 'E': E, 'extra': ex}


# the table-driven types: %(P)s class, %(T)s storage, %(N)s name space of the tables
TAB_BASE = '''
typedef %(P)s P;
typedef P::FPT G;
typedef %(T)s T;
#define D(x) P(P::DeepInit(),(T)(x))
#define GD(x) G(G::DeepInit(),(T)(x))
extern "C" {
i64 w_rt(T v) { return P(D(v).unpack()).v; }
i64 w_rtlow(T v) { return P(D(v).unpack_low()).v; }
i64 w_rtp(T v) { return P(D(v).as_posit()).v; }
i64 w_rtg(T v) { G g = D(v); return g.v; }
void w_dec(T v, i64 *t, i64 *n, i64 *e, u64 *f) { outu(D(v).unpack(), t, n, e, f); }
i64 w_neg(T v) { return (-D(v)).v; }
i64 w_fneg(T v) { return ::neg(D(v)).v; }
i64 w_negneg(T v) { return (-(-D(v))).v; }
i64 w_sabs(T v) { return std::abs(D(v)).v; }
i64 w_pred(T v) { P p = D(v); return (p.is_nan()?1:0)|(p.is_infinity()?2:0)|(p.is_negative()?16:0); }
i64 w_cmp(T v, T w) { P a = D(v), b = D(w); return (a==b?1:0)|(a!=b?2:0)|(a<b?4:0)|(a<=b?8:0)|(a>b?16:0)|(a>=b?32:0); }
i64 w_smin(T v, T w) { return std::min(D(v),D(w)).v; }
i64 w_smax(T v, T w) { return std::max(D(v),D(w)).v; }
i64 w_add(T v, T w) { return (D(v)+D(w)).v; }
i64 w_sub(T v, T w) { return (D(v)-D(w)).v; }
i64 w_subn(T v, T w) { return (D(v)+(-D(w))).v; }
i64 w_mul(T v, T w) { return (D(v)*D(w)).v; }
i64 w_dvd(T v, T w) { return (D(v)/D(w)).v; }
i64 w_addeq(T v, T w) { P a = D(v); a += D(w); return a.v; }
i64 w_muleq(T v, T w) { P a = D(v); a *= D(w); return a.v; }
i64 w_gadd(T v, T w) { return (GD(v)+GD(w)).v; }
i64 w_gmul(T v, T w) { return (GD(v)*GD(w)).v; }
i64 w_gdvd(T v, T w) { return (GD(v)/GD(w)).v; }
i64 w_inv(T v) { return D(v).inv().v; }
i64 w_finv(T v) { return ::inv(D(v)).v; }
i64 w_half(T v) { return D(v).half().v; }
i64 w_fhalf(T v) { return ::half(D(v)).v; }
i64 w_twice(T v) { return D(v).twice().v; }
i64 w_ftwice(T v) { return ::twice(D(v)).v; }
i64 w_square(T v) { return D(v).square().v; }
i64 w_fsquare(T v) { return ::square(D(v)).v; }
i64 w_exp2(T v) { return D(v).exp2().v; }
i64 w_fexp2(T v) { return ::exp2(D(v)).v; }
i64 w_ghalf(T v) { return (GD(v)/G(2)).v; }
i64 w_gtwice(T v) { return (GD(v)*G(2)).v; }
u64 w_tof(T v) { return fb((float)D(v)); }
u64 w_tod(T v) { return db((double)D(v)); }
i64 w_toi(T v) { return (int)D(v); }
i64 w_fromf(uint32_t x) { return P(bf(x)).v; }
i64 w_fromd(uint64_t x) { return P(bd(x)).v; }
i64 w_fromi(int x) { return P(x).v; }
i64 w_gfromf(uint32_t x) { return G(bf(x)).v; }
i64 w_gfromd(uint64_t x) { return G(bd(x)).v; }
i64 w_gfromi(int x) { return G(x).v; }
i64 w_k_one() { return P::one().v; }
i64 w_k_afterone() { return P::afterone().v; }
i64 w_k_half() { return P::onehalf().v; }
i64 w_k_max() { return P::max().v; }
i64 w_k_min() { return P::min().v; }
i64 w_k_nan() { return P::nan().v; }
i64 w_k_pinf() { return P::pinfinity().v; }
i64 w_k_ninf() { return P::ninfinity().v; }
i64 w_l_min() { return std::numeric_limits<P>::min().v; }
i64 w_l_max() { return std::numeric_limits<P>::max().v; }
i64 w_l_eps() { return std::numeric_limits<P>::epsilon().v; }
i64 w_l_epsref() { return (P::afterone()-P::one()).v; }
i64 w_dflt() { P p; return p.v; }
%(extra)s
}
'''

TABS = {
    'posit8': (8, 8, 0, 8), 'posit10': (16, 10, 2, 16), 'posit12': (16, 12, 2, 16),
}


def tab_unit(name, repo):
    H, N, es, F = TABS[name]
    ex = ''
    if name != 'posit12':
        ex = 'i64 w_k_zero() { return P::zero().v; }\ni64 w_k_two() { return P::two().v; }\n'
    return HEAD + '#include "%s.hpp"\n#include "%s/src/%s.cpp"\n' % (name, repo, name) + \
        TAB_BASE % {'P': name, 'T': 'int%d_t' % H, 'N': name + 'ns', 'extra': ex}
