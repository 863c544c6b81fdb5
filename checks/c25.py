"""C25 emulated small floats"""
import random
import re
from core import Cell, Obl
from wit import HEAD
from cells import *
import c09
import c10
import spec
from spec import Num

RULE = ('abstract interpretation of every conversion, sign operation, predicate and constant of the emulated floats over sign x exponent-field class with the fraction symbolic: each output bit must be the '
        'bit of the source the formats assign; arithmetic and comparisons are shown congruent to the operation of the backing float on the converted operands (conversions uninterpreted), '
        'and on concrete patterns when the congruence proof does not go through')

# name -> (type, exponent bits, fraction bits, denormals, holder bits, backing float)
EMU = {
    'binary8': ('binary8_emu', 5, 2, True, 8, 'float'),
    'e4m3': ('anyfloat_emu<4,3,microfloat,uint8_t,float>', 4, 3, True, 8, 'float'),
    'e3m4d': ('anyfloat_emu<3,4,microfloat,uint8_t,double>', 3, 4, True, 8, 'double'),
    'binary16': ('binary16_emu', 5, 10, True, 16, 'float'),
    'binary16alt': ('binary16alt_emu', 8, 7, True, 16, 'float'),
    'bfloat16': ('anyfloat_emu<8,7,halffloatalt,uint16_t,float,false>', 8, 7, False, 16, 'float'),
    'e6m9d': ('anyfloat_emu<6,9,halffloat,uint16_t,double>', 6, 9, True, 16, 'double'),
    'binary32': ('binary32_emu', 8, 23, True, 32, 'float'),
    'binary32d': ('anyfloat_emu<8,23,float,uint32_t,double>', 8, 23, True, 32, 'double'),
    'binary64': ('binary64_emu', 11, 52, True, 64, 'double'),
}
SRC = '''
typedef %(A)s X;
typedef %(F)s F;
typedef uint%(H)d_t T;
typedef X::UnpackedT U;
#define D(x) X(X::DeepInit(),(T)(x))
static inline u64 fbits(float f) { return fb(f); }
static inline u64 fbits(double f) { return db(f); }
extern "C" {
u64 w_tof(T v) { const X x = D(v); return fb((float)x); }
u64 w_tod(T v) { const X x = D(v); return db((double)x); }
u64 w_toff(T v) { X x = D(v); return fbits((F)x); }
i64 w_toi(T v) { const X x = D(v); return (int)x; }
void w_dec(T v, i64 *t, i64 *n, i64 *e, u64 *f) { outu(D(v).unpack(), t, n, e, f); }
void w_tou(T v, i64 *t, i64 *n, i64 *e, u64 *f) { const X x = D(v); U u = x; outu(u, t, n, e, f); }
u64 w_fromf(uint32_t x) { return X(bf(x)).v; }
u64 w_fromd(uint64_t x) { return X(bd(x)).v; }
u64 w_fromi(int x) { return X(x).v; }
u64 w_fromfu(uint32_t x) { return X(U(bf(x))).v; }
u64 w_fromdu(uint64_t x) { return X(U(bd(x))).v; }
u64 w_fromiu(int x) { return X(U(x)).v; }
u64 w_enc(int t, int n, i64 e, u64 f) { return X(mku<U>(t,n,e,f)).v; }
u64 w_rtd(T v) { const X x = D(v); return X((double)x).v; }
u64 w_rtu(T v) { return X(D(v).unpack()).v; }
u64 w_neg(T v) { return D(v).neg().v; }
u64 w_oneg(T v) { return (-D(v)).v; }
u64 w_abs(T v) { return D(v).abs().v; }
u64 w_pred(T v) { X x = D(v); return (x.isnegative()?1:0)|(x.iszero()?2:0); }
u64 w_dflt() { X x; return x.v; }
u64 w_k_zero() { return X::zero().v; }
u64 w_k_one() { return X::one().v; }
u64 w_k_two() { return X::two().v; }
u64 w_k_inf() { return X::inf().v; }
u64 w_k_pinf() { return X::pinf().v; }
u64 w_k_ninf() { return X::ninf().v; }
u64 w_k_infinity() { return X::infinity().v; }
u64 w_k_max() { return X::max().v; }
u64 w_k_min() { return X::min().v; }
u64 w_k_lowest() { return X::lowest().v; }
u64 w_k_nan() { return X::nan().v; }
u64 w_k_afterone() { return X::trait_t::afterone_h; }
#define FV(x) (F)(const X &)D(x)
u64 w_add(T a, T b) { return (D(a)+D(b)).v; }
u64 w_addr(T a, T b) { return D(a).iszero() ? D(b).v : D(b).iszero() ? D(a).v : X((FV(a))+(FV(b))).v; }
u64 w_sub(T a, T b) { return (D(a)-D(b)).v; }
u64 w_subr(T a, T b) { return (D(a)+(-D(b))).v; }
u64 w_mul(T a, T b) { return (D(a)*D(b)).v; }
u64 w_mulr(T a, T b) { return X((FV(a))*(FV(b))).v; }
u64 w_dvd(T a, T b) { return (D(a)/D(b)).v; }
u64 w_dvdr(T a, T b) { return X((FV(a))/(FV(b))).v; }
u64 w_addeq(T a, T b) { X x = D(a); x += D(b); return x.v; }
u64 w_muleq(T a, T b) { X x = D(a); x *= D(b); return x.v; }
u64 w_pfma(T a, T b, T c) { return fma(D(a),D(b),D(c)).v; }
u64 w_pfmar(T a, T b, T c) { return X((FV(a))*(FV(b))+(FV(c))).v; }
u64 w_inv(T a) { return D(a).inv().v; }
u64 w_oinv(T a) { return (~D(a)).v; }
u64 w_invr(T a) { return X(1/(FV(a))).v; }
u64 w_half(T a) { return D(a).half().v; }
u64 w_halfr(T a) { return X((F)(0.5*(FV(a)))).v; }
u64 w_twice(T a) { return D(a).twice().v; }
u64 w_twicer(T a) { return X((F)(2*(FV(a)))).v; }
u64 w_cmp(T a, T b) { X x = D(a), y = D(b); return (x==y?1:0)|(x!=y?2:0)|(x<y?4:0)|(x<=y?8:0)|(x>y?16:0)|(x>=y?32:0); }
u64 w_cmpr(T a, T b) { F x = FV(a), y = FV(b); return (x==y?1:0)|(x!=y?2:0)|(x<y?4:0)|(x<=y?8:0)|(x>y?16:0)|(x>=y?32:0); }
%(std)s
}
'''
STD = '''
u64 w_sabs(T v) { return std::abs(D(v)).v; }
u64 w_smin(T a, T b) { return std::min(D(a),D(b)).v; }
u64 w_sminr(T a, T b) { return D(a) <= D(b) ? a : b; }
u64 w_smax(T a, T b) { return std::max(D(a),D(b)).v; }
u64 w_smaxr(T a, T b) { return D(a) >= D(b) ? a : b; }
'''
N16 = '''
#include "float16native32.hpp"
typedef float16n32 X;
#define D(x) X(false,(uint16_t)(x))
#define T uint16_t
#define FV(x) (float)D(x)
extern "C" {
u64 w_tof(T v) { return fb((float)D(v)); }
u64 w_tod(T v) { return db((double)D(v)); }
u64 w_toh(T v) { return ((float16n_t)D(v)).what; }
u64 w_raw(T v) { return D(v).raw(); }
u64 w_fromf(uint32_t x) { return X(bf(x)).raw(); }
u64 w_fromh(T v) { return X(float16n_t(v)).raw(); }
u64 w_neg(T v) { return D(v).neg().raw(); }
u64 w_oneg(T v) { return (-D(v)).raw(); }
u64 w_abs(T v) { return D(v).abs().raw(); }
u64 w_sabs(T v) { return std::abs(D(v)).raw(); }
u64 w_dflt() { X x; return x.raw(); }
u64 w_k_zero() { return X::zero().raw(); }
u64 w_k_one() { return X::one().raw(); }
u64 w_k_two() { return X::two().raw(); }
u64 w_add(T a, T b) { return (D(a)+D(b)).raw(); }
u64 w_addr(T a, T b) { return X((FV(a))+(FV(b))).raw(); }
u64 w_sub(T a, T b) { return (D(a)-D(b)).raw(); }
u64 w_subr(T a, T b) { return X((FV(a))-(FV(b))).raw(); }
u64 w_mul(T a, T b) { return (D(a)*D(b)).raw(); }
u64 w_mulr(T a, T b) { return X((FV(a))*(FV(b))).raw(); }
u64 w_dvd(T a, T b) { return (D(a)/D(b)).raw(); }
u64 w_dvdr(T a, T b) { return X((FV(a))/(FV(b))).raw(); }
u64 w_addeq(T a, T b) { X x = D(a); x += D(b); return x.raw(); }
u64 w_muleq(T a, T b) { X x = D(a); x *= D(b); return x.raw(); }
u64 w_pfma(T a, T b, T c) { return mulAdd(D(a),D(b),D(c)).raw(); }
u64 w_pfmar(T a, T b, T c) { return X((FV(a))*(FV(b))+(FV(c))).raw(); }
u64 w_inv(T a) { return inv(D(a)).raw(); }
u64 w_invr(T a) { return (X::one()/D(a)).raw(); }
u64 w_half(T a) { return half(D(a)).raw(); }
u64 w_halfr(T a) { return (D(a)/X::two()).raw(); }
u64 w_square(T a) { return square(D(a)).raw(); }
u64 w_squarer(T a) { return (D(a)*D(a)).raw(); }
u64 w_root(T a) { return sqrt(D(a)).raw(); }
u64 w_rootr(T a) { return X(std::sqrt(FV(a))).raw(); }
u64 w_rem(T a, T b) { return rem(D(a),D(b)).raw(); }
u64 w_remr(T a, T b) { return X((float)std::remainder(FV(a),FV(b))).raw(); }
u64 w_cmp(T a, T b) { X x = D(a), y = D(b); return (x==y?1:0)|(x<y?4:0)|(x<=y?8:0)|(x>y?16:0)|(x>=y?32:0); }
u64 w_cmpr(T a, T b) { float x = FV(a), y = FV(b); return (x==y?1:0)|(x<y?4:0)|(x<=y?8:0)|(x>y?16:0)|(x>=y?32:0); }
}
'''
# named constants of the traits
TRAITS = {'half_trait': (5, 10), 'half_traitalt': (8, 7), 'bfloat16_trait': (8, 7), 'microfloat_trait': (5, 2), 'single_trait': (8, 23), 'double_trait': (11, 52)}
TK = [('one', 'one_h'), ('two', 'two_h'), ('pinf', 'pinfinity_h'), ('ninf', 'ninfinity_h'), ('nan', 'nan_h'), ('max', 'max_h'), ('min', 'min_h'), ('lowest', 'lowest_h'), ('signbit', 'signbit'),
      ('bias', 'exponent_bias'), ('emax', 'exponent_max'), ('emask', 'exponent_mask'), ('dbits', 'data_bits'), ('ebits', 'exponent_bits'), ('fbits', 'fraction_bits')]
TV = {'half_traitalt': [('afterone', 'afterone_h')], 'single_trait': [('denormmin', 'denorm_min_h'), ('epsilon', 'epsilon_h'), ('vzero', 'fb(%s::zero)'), ('vpinf', 'fb(%s::pinfinity)'), ('vninf', 'fb(%s::ninfinity)')],
      'double_trait': [('vzero', 'db(%s::zero)'), ('vpinf', 'db(%s::pinfinity)'), ('vninf', 'db(%s::ninfinity)')]}
OPQ = re.compile(r'@_ZNK8Unpacked.*E(12pack_xfloatiI|11pack_xfloatI)|@_ZN8Unpacked.*E(14unpack_xfloatiI|13unpack_xfloatI|11make_floatiI|10make_floatI)|@_ZN8Unpacked.*C2E[fdi]$|@_ZNK8Unpacked.*cv[fdi]Ev')


def z64(x, w):
    return x if w == 64 else dom.zext(x, w, 64)


def fclasses(eb):
    return ['zero', 'ones', (1, mask(eb) - 1)]


def unary_cells(u, fn, eb, fb, want, cls=None):
    n = 1 + eb + fb

    def gen():
        for s in (0, 1):
            for ec in cls or fclasses(eb):
                def setup(M, s=s, ec=ec):
                    x = c09.fword(eb, fb, s, ec)
                    return '@w_' + fn, [x], x

                def finish(M, ret, x):
                    w, k = want(x)
                    return [Obl(fn, ret, z64(w, k), 64)]
                yield Cell(u, '%s %s(%s exponent %s)' % (u, fn, '+-'[s], ec), setup, finish, 3000)
    return gen


def conv_want(seb, sfb, sden, eb, fb, den, F):
    """float -> float through an unpacked number with an F bit fraction and an int exponent"""
    return lambda x: (spec.pack_float(spec.unpack_float(x, seb, sfb, sden, F, 32), eb, fb, den), 1 + eb + fb)


def via(seb, eb):
    """exponent classes of the source so that the packing cases are decided"""
    b, t = mask(seb - 1), mask(eb - 1)
    if eb >= seb:
        return None
    lo, hi = 1 - t + b, t + b            # source fields in the target's normal range
    r = ['zero', 'ones', (hi + 1, mask(seb) - 1)] + list(range(lo, hi + 1))
    cut = max(1, lo - 66)
    r += list(range(cut, lo))
    if cut > 1:
        r.append((1, cut - 1))
    return r


def dec_cells(u, fn, eb, fb, den, F):
    def gen():
        for s in (0, 1):
            for ec in fclasses(eb):
                def setup(M, s=s, ec=ec):
                    x = c09.fword(eb, fb, s, ec)
                    o = outs(4)
                    return '@w_' + fn, [x] + o, (x, o)

                def finish(M, ret, xo):
                    return num_obls(xo[1], spec.unpack_float(xo[0], eb, fb, den, F, 32))
                yield Cell(u, '%s %s(%s exponent %s)' % (u, fn, '+-'[s], ec), setup, finish, 3000)
    return gen


def const_cells(u, eb, fb, names):
    bias, n = mask(eb - 1), 1 + eb + fb
    K = {'zero': 0, 'dflt': 0, 'k_zero': 0, 'k_one': bias << fb, 'k_two': (bias + 1) << fb, 'k_max': ((mask(eb) - 1) << fb) | mask(fb), 'k_min': 1 << fb,
         'k_afterone': (bias << fb) + 1}
    K.update(k_signbit=1 << (n - 1), k_bias=bias, k_emax=mask(eb) - 1, k_emask=mask(eb), k_dbits=n, k_ebits=eb, k_fbits=fb, k_denormmin=1, k_epsilon=(bias - fb) << fb, k_vzero=0)
    K['k_lowest'] = K['k_max'] | 1 << (n - 1)
    K['k_inf'] = K['k_pinf'] = K['k_infinity'] = K['k_vpinf'] = mask(eb) << fb
    K['k_ninf'] = K['k_vninf'] = K['k_inf'] | 1 << (n - 1)

    def gen():
        for k in names:
            def setup(M, k=k):
                return '@w_' + k, [], None

            def finish(M, ret, o, k=k):
                if n == 128:
                    want = mask(eb + 1) << (fb - 1) if k[2:] == 'nan' else K['k' + k[1:]]
                    return [Obl(k, ret, want >> (64 if k[0] == 'h' else 0) & M64, 64)]
                if k == 'k_nan':
                    b = bits_of(ret, 64)
                    return [Obl('exponent of NaN', mk(64, list(b[fb:fb + eb]) + [0] * (64 - eb)), mask(eb), 64),
                            Obl('fraction of NaN is not zero', 1 if any(x == 1 for x in b[:fb]) else 0, 1, 64), Obl('width of NaN', mk(64, list(b[n:]) + [0] * n), 0, 64)]
                return [Obl(k, ret, K[k], 64)]
            yield Cell(u, '%s %s' % (u, k), setup, finish)
    return gen


def rel_cells(u, n, f, g, k, seed=0):
    """w_f == w_g for all operands"""
    def full():
        rng = random.Random(seed + n * 31 + k)
        sp = [0, 1 << (n - 1), 1, mask(n), mask(n - 1)]
        pts = []
        for i in range(120):
            p = [rng.getrandbits(n) if rng.random() < .85 else rng.choice(sp) for _ in range(k)]
            if n > 8 and k > 1 and i % 2:
                # operands of similar size
                p = [(p[0] & ~mask(n // 2) & mask(n)) ^ rng.getrandbits(n // 2) ^ (rng.getrandbits(1) << (n - 1)) for _ in range(k)]
            pts.append(p)
        for p in pts:
            def setup(M, p=p):
                return '@w_' + f, list(p), p

            def finish(M, ret, p):
                return [Obl('%s == %s' % (f, g), ret, M.call('@w_' + g, list(p)), 64)]
            yield Cell(u, '%s %s == %s (%s)' % (u, f, g, ', '.join('0x%x' % x for x in p)), setup, finish, 50)

    def gen():
        def setup(M):
            a = [input_word('abc'[i], n) for i in range(k)]
            return '@w_' + f, a, a

        def finish(M, ret, a):
            return [Obl('%s == %s' % (f, g), ret, M.call('@w_' + g, a), 64)]
        c = Cell(u, '%s %s == %s (all operands)' % (u, f, g), setup, finish, 200)
        c.opaque, c.fallback = OPQ, full
        yield c
    return gen


def conv_cells(u, seb, sfb, eb, fb, fn, F, den):
    return unary_cells(u, fn, seb, sfb, conv_want(seb, sfb, True, eb, fb, den, F), via(seb, eb))


RELS = [('add', 'addr', 2), ('sub', 'subr', 2), ('mul', 'mulr', 2), ('dvd', 'dvdr', 2), ('addeq', 'add', 2), ('muleq', 'mul', 2), ('pfma', 'pfmar', 3), ('inv', 'invr', 1), ('half', 'halfr', 1), ('cmp', 'cmpr', 2)]


def plan(cfgs=None):
    units, tasks = {}, []
    kn = ['dflt', 'k_zero', 'k_one', 'k_two', 'k_inf', 'k_pinf', 'k_ninf', 'k_infinity', 'k_max', 'k_min', 'k_lowest', 'k_nan', 'k_afterone']
    for u, (A, eb, fb, den, H, F) in EMU.items():
        n = 1 + eb + fb
        units[u] = HEAD + SRC % {'A': A, 'F': F, 'H': H, 'std': STD if den else ''}
        tasks.append(const_cells(u, eb, fb, kn))
        tasks.append(dec_cells(u, 'dec', eb, fb, den, H))
        tasks.append(dec_cells(u, 'tou', eb, fb, den, H))
        sgl, dbl = (8, 23), (11, 52)
        for fn, (deb, dfb) in (('tof', sgl), ('tod', dbl), ('toff', sgl if F == 'float' else dbl)):
            tasks.append(unary_cells(u, fn, eb, fb, conv_want(eb, fb, den, deb, dfb, True, H), via(eb, deb)))
        tasks.append(conv_cells(u, 8, 23, eb, fb, 'fromf', H, den))
        tasks.append(conv_cells(u, 11, 52, eb, fb, 'fromd', H, den))

        def enc(u=u, eb=eb, fb=fb, den=den, H=H):
            return c10.ucells(u, H, 32, 'enc', eb, fb, den)
        tasks.append(enc())
        top = 1 << (n - 1)
        tasks += [unary_cells(u, f, eb, fb, lambda x, n=n, top=top: (dom.xor_(x, top, n), n)) for f in ('neg', 'oneg')]
        tasks += [unary_cells(u, f, eb, fb, lambda x, n=n, top=top: (dom.and_(x, top - 1, n), n)) for f in (('abs', 'sabs') if den else ('abs',))]

        def pred(x, n=n):
            b = bits_of(x, n)
            z = 1 if spec.lit(dom.eq(x, 0, n)) else 0
            return mk(64, [b[n - 1], z] + [0] * 62), 64
        tasks.append(unary_cells(u, 'pred', eb, fb, pred))

        def rt(x, eb=eb, fb=fb, den=den, n=n):
            # the identity on finite values and infinity (no negative zero, one NaN)
            b = bits_of(x, n)
            ex, f = mk(eb, b[fb:fb + eb]), mk(fb, b[:fb])
            if spec.lit(dom.eq(ex, mask(eb), eb)) and not spec.lit(dom.eq(f, 0, fb)):
                return mask(eb + 1) << (fb - 1), n
            if spec.lit(dom.eq(ex, 0, eb)) and (not den or spec.lit(dom.eq(f, 0, fb))):
                return 0, n
            return x, n
        for f in ('rtd', 'rtu'):
            tasks.append(unary_cells(u, f, eb, fb, rt))
        for f, g, k in RELS + [('oinv', 'inv', 1), ('twice', 'twicer', 1)] + ([('smin', 'sminr', 2), ('smax', 'smaxr', 2)] if den else []):
            tasks.append(rel_cells(u, n, f, g, k))
        for f, g, w in (('fromf', 'fromfu', 32), ('fromd', 'fromdu', 64), ('fromi', 'fromiu', 32)):
            tasks.append(rel_cells(u, w, f, g, 1))
    for u, (eb, fb) in TRAITS.items():
        ks = TK + TV.get(u, [])
        units[u] = HEAD + 'extern "C" {\n' + ''.join('u64 w_k_%s() { return (u64)%s; }\n' % (k, e % u if '%' in e else u + '::' + e) for k, e in ks) + '}\n'
        tasks.append(const_cells(u, eb, fb, ['k_' + k for k, e in ks]))
    # quad precision: declared when the compiler's header came first
    ks = [(k, 'float128_trait::' + e, '(float128_trait::holder_t)') for k, e in TK] + [(k, 'float128_trait::' + e, '(__float128)') for k, e in (('vzero', 'zero'), ('vpinf', 'pinfinity'), ('vninf', 'ninfinity'))]
    units['float128_trait'] = '#define FLT128_MAX 1\n' + HEAD + 'extern "C" {\n' + ''.join(
        'u64 w_%s_%s() { auto v = %s%s; unsigned __int128 x; __builtin_memcpy(&x, &v, 16); return (u64)(x >> %d); }\n' % (h, k, t, e, 64 if h == 'h' else 0) for k, e, t in ks for h in 'hk') + '}\n'
    tasks.append(const_cells('float128_trait', 15, 112, [h + '_' + k for k, e, t in ks for h in 'hk']))
    u = 'float16n32'
    units[u] = HEAD + N16
    tasks.append(const_cells(u, 5, 10, ['dflt', 'k_zero', 'k_one', 'k_two']))
    tasks.append(unary_cells(u, 'tof', 5, 10, conv_want(5, 10, True, 8, 23, True, 32)))
    tasks.append(unary_cells(u, 'tod', 5, 10, conv_want(5, 10, True, 11, 52, True, 32)))
    tasks.append(conv_cells(u, 8, 23, 5, 10, 'fromf', 32, True))
    for f in ('toh', 'raw', 'fromh'):
        tasks.append(unary_cells(u, f, 5, 10, lambda x: (x, 16)))
    for f in ('neg', 'oneg'):
        tasks.append(unary_cells(u, f, 5, 10, lambda x: (dom.xor_(x, 0x8000, 16), 16)))
    for f in ('abs', 'sabs'):
        tasks.append(unary_cells(u, f, 5, 10, lambda x: (dom.and_(x, 0x7fff, 16), 16)))
    for f, g, k in RELS + [('square', 'squarer', 1), ('root', 'rootr', 1), ('rem', 'remr', 2)]:
        tasks.append(rel_cells(u, 16, f, g, k))
    return dict(units=units, tasks=tasks, rule=RULE, min_obl=500)
