H, U, B, T = 'include/posit.h', 'include/unpacked.h', 'include/bithippop.hpp', 'include/typehelpers.hpp'
F = 'include/floattraits.hpp'
SEEDS = []

PRE = r'''
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <limits>
#include <sstream>
%s
static int bad = 0;
#define CHECK(c) do { if(!(c)) { printf("FAIL line %%d: %%s\n", __LINE__, #c); bad = 1; } } while(0)
%s
'''


def seed(id, prop, edits, needs, breaks, body, inc='#include "posit.h"\n#include "positf.h"', glob='', flags='', libs='', **kw):
    SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, flags=flags, libs=libs,
                      demo=PRE % (inc, glob) + 'int main()\n{\n' + body + '\n  return bad;\n}\n', **kw))


# exact value of a posit pattern as a long double, written from the format definition
VAL = r'''
static long double pval(long long v, int n, int es)
{
  if(v == 0) return 0;
  bool neg = v < 0;
  unsigned long long a = neg ? 0ULL - (unsigned long long)v : v;
  int i = n - 2; bool first = (a >> i) & 1; int run = 0;
  while(i >= 0 && (((a >> i) & 1) != 0) == first) { run++; i--; }
  i--; // terminator
  int reg = first ? run - 1 : -run;
  long e = 0;
  for(int k = 0; k < es; k++, i--) e = e * 2 + (i >= 0 ? (a >> i) & 1 : 0);
  long double m = 1, w = 0.5L;
  for(; i >= 0; i--, w /= 2) if((a >> i) & 1) m += w;
  m = ldexpl(m, (long)reg * (1L << es) + e);
  return neg ? -m : m;
}
template <class U> static long double uval(U const & u)
{
  if(u.type == U::Zero) return 0;
  if(u.type != U::Regular) return NAN;
  long double m = 1 + ldexpl((long double)u.fraction, -(int)(sizeof(u.fraction) * 8));
  m = ldexpl(m, (long)u.exponent);
  return u.negativeSign ? -m : m;
}
'''

seed('c01-exp-byte', 'C01',
     [(H, '\ttypename PT::POSIT_UTYPE exp;    // decoded\n', '\tuint8_t exp;    // decoded, small in every standard posit\n')],
     'a posit with nine or more exponent bits and a pattern whose exponent field is 256 or more',
     'the exponent field of the decoded form is cut to eight bits, so wide-exponent posits decode to a value that is 2^256 or more off',
     r'''
  using P = Posit<int32_t,32,10,uint32_t,PositSpec::WithNan>;
  for(long long v = 1; v < 0x7fffffffLL; v += 65521 * 3)
    CHECK(uval(P(P::DeepInit(), (int32_t)v).unpack()) == pval(v, 32, 10));
''', glob=VAL)

seed('c12-rs-overrun', 'C12',
     [(H, 'int rs =  (int)POSIT_MAXREGIME_BITS < index+1 ? POSIT_MAXREGIME_BITS : index+1;', 'int rs =  (int)POSIT_MAXREGIME_BITS < index ? POSIT_MAXREGIME_BITS : index+1;')],
     'the pattern with the longest regime (maxpos / lowest) of a posit that fills its storage type',
     'the regime length becomes the full storage width, and the fraction is then shifted by the width of its type: undefined behaviour, and with masked shifts a wrong exponent',
     r'''
  volatile int32_t x = 0x7fffffff;
  P p(P::DeepInit(), x);
  CHECK(uval(p.unpack()) == pval(x, 32, 2));
  volatile int32_t y = -0x7fffffff;
  CHECK(uval(P(P::DeepInit(), y).unpack()) == pval(y, 32, 2));
''', glob=VAL + 'using P = Posit<int32_t,32,2,uint32_t,PositSpec::WithNan>;\n', flags='-fsanitize=undefined -fno-sanitize-recover=undefined')

seed('c02-clamp-int', 'C02',
     [(H, 'auto eexponent = clamp<decltype(x.exponent)>(x.exponent,PT::minexponent(),PT::maxexponent()); // no overflow',
       'auto eexponent = clamp<int>(x.exponent,PT::minexponent(),PT::maxexponent()); // no overflow')],
     'an unpacked number whose 64-bit exponent lies outside the int range (products of products of 32-bit posits with a wide fraction type, or an explicit exponent)',
     'the exponent is narrowed to int before it is clamped, so a huge magnitude encodes as an ordinary or tiny one instead of saturating',
     r'''
  using P = Posit<int32_t,32,3,uint64_t,PositSpec::WithNan>;
  using UU = P::UnpackedT;
  CHECK(P(UU((1LL << 32), 0, false)).v == 0x7fffffff);
  CHECK(P(UU((1LL << 33) + 5, 0, true)).v == -0x7fffffff);
  CHECK(P(UU(-(1LL << 32), 0, false)).v == 1);
  CHECK(P(UU(3, 0, false)).v == P(8).v);
''')

seed('c02-regime-shift5', 'C02',
     [(H, 'MSVC issue\n    \n\n    POSIT_UTYPE regbits = reg < 0 ? (PT::POSIT_HOLDER_MSB >> -reg) :', 'MSVC issue\n    \n\n    POSIT_UTYPE regbits = reg < 0 ? (PT::POSIT_HOLDER_MSB >> (-reg & 31)) :')],
     'a 64-bit posit whose regime is -32 or less (tiny magnitudes)',
     'the regime run of tiny 64-bit posits is drawn modulo 32, so they encode as enormously larger numbers',
     r'''
  using P = Posit<int64_t,60,3,uint64_t,PositSpec::WithNan>;
  using UU = P::UnpackedT;
  for(int r = -57; r < 57; r++)
  {
    P p(UU(r * 8 + 5, 0, false));
    long double x = pval(p.v, 60, 3), y = ldexpl(1, r * 8 + 5);
    CHECK(x <= y && x > y / 4096);
  }
''', glob=VAL)

seed('c01-narrow-round', 'C01',
     [(B, '''		// #A > #B
		return value >> (abits - bbits);''', '''		// #A > #B, to nearest
		return (value + (A(1) << (abits - bbits - 1))) >> (abits - bbits);''')],
     'a fraction type narrower than the storage (or the conversion of a 64-bit double fraction to a 32-bit one) and a fraction whose upper bits are all ones and whose next bit is set',
     'the narrowed fraction rounds up and wraps to zero without carrying into the exponent, so decode/encode does not give the posit back',
     r'''
  using P = Posit<int32_t,18,0,uint16_t,PositSpec::WithNan>;
  using Q = Posit<int32_t,32,2,uint16_t,PositSpec::WithNan>;
  for(int v = -(1 << 17) + 1; v < (1 << 17); v++)
  {
    P p(P::DeepInit(), v);
    CHECK(P(p.unpack()).v == v);
    if(bad) break;
  }
  // top bits only: magnitude never grows and loses less than one unit of the narrow fraction
  for(long long v = 0x40000001; v < 0x47ffffff; v += 104729)
  {
    Q q(Q::DeepInit(), (int32_t)v);
    long double x = pval(v, 32, 2), y = uval(q.unpack());
    CHECK(y <= x && y > x * (1 - 0.0001L));
    if(bad) break;
  }
''', glob=VAL)

seed('c04-ninf', 'C04',
     [(H, 'constexpr bool isinfinity() const { return positspec != PositSpec::WithNan && (v == PT::POSIT_PINF || v == PT::POSIT_NINF); }',
       'constexpr bool isinfinity() const { return positspec != PositSpec::WithNan && v == PT::POSIT_PINF; }')],
     'the variant with two signed infinities and the negative one',
     'the predicate misses the negative infinity code, which then decodes as a finite number',
     r'''
  using P = Posit<int16_t,16,1,uint16_t,PositSpec::WithNanInf>;
  using Q = Posit<int16_t,16,1,uint16_t,PositSpec::WithInf>;
  int n = 0, m = 0;
  for(int v = -32768; v < 32768; v++)
  {
    n += P(P::DeepInit(), v).isinfinity();
    m += Q(Q::DeepInit(), v).isinfinity();
  }
  CHECK(n == 2 && m == 1);
  CHECK(P::ninf().isinfinity() && P::pinf().isinfinity() && Q::inf().isinfinity());
''')

seed('c05-inf-minus-inf', 'C05',
     [(U, 'return (a.negativeSign == b.negativeSign) ? a : nan();', 'return (a.negativeSign || !b.negativeSign) ? a : nan();')],
     'adding minus infinity and plus infinity in this order (a posit variant with signed infinities, or unpacked values)',
     '(-inf) + (+inf) gives -inf instead of NaN, while the mirrored sum is still NaN',
     r'''
  using P = Posit<int8_t,8,1,uint8_t,PositSpec::WithNanInf>;
  CHECK((P::ninf() + P::pinf()).isNaN());
  CHECK((P::pinf() + P::ninf()).isNaN());
  CHECK((P::ninf() - P::ninf()).isNaN());
  CHECK((P::pinf() + P::pinf()).v == P::pinf().v);
  CHECK((P::ninf() + P::ninf()).v == P::ninf().v);
''')

seed('c06-ge-nan', 'C06',
     [(H, 'friend constexpr bool operator >= (const Posit & a, const Posit & u)  { return withnan && (a.isNaN()||u.isNaN())?false :a.v >= u.v; }',
       'friend constexpr bool operator >= (const Posit & a, const Posit & u)  { return withnan && a.isNaN()?false :a.v >= u.v; }')],
     'a NaN on the right of >= (std::max with a NaN second operand)',
     'x >= NaN is true for every number, because NaN is the lowest pattern',
     r'''
  using P = Posit<int16_t,16,1,uint16_t,PositSpec::WithNan>;
  CHECK(!(P(2) >= P::nan()));
  CHECK(!(P::nan() >= P(2)));
  CHECK(P(2) >= P(2) && P(3) >= P(2) && !(P(1) >= P(2)));
''')

seed('c07-upneg', 'C07',
     [(H, 'constexpr Posit operator-() const { return neg(); } ', 'constexpr Posit operator-() const { return isNaN() || isinfinity() ? *this : neg(); } ')],
     'the variant with signed infinities and an infinite operand',
     'unary minus returns an infinity unchanged instead of the opposite one',
     r'''
  using P = Posit<int16_t,12,1,uint16_t,PositSpec::WithNanInf>;
  CHECK((-P::pinf()).v == P::ninf().v);
  CHECK((-P::ninf()).v == P::pinf().v);
  CHECK((-P::nan()).v == P::nan().v && (-P(3)).v == P(-3).v);
''')

seed('c08-half-floor', 'C08',
     [(H, '''			q.regime--; // will it undrflow?
			q.exp = PT::POSIT_REG_SCALE-1; // maximum exponent
''', '''			if(q.regime <= -(totalbits-3))
				return *this; // already at the bottom
			q.regime--;
			q.exp = PT::POSIT_REG_SCALE-1; // maximum exponent
''')],
     'halving the second smallest regime of a posit (exponent field zero)',
     'half() stops one step before the bottom of the range: the second smallest power of two is returned unchanged',
     r'''
  using P = Posit<int16_t,16,1,uint16_t,PositSpec::WithNan>;
  CHECK(P(P::DeepInit(), 2).half().v == 1);
  CHECK(P(P::DeepInit(), -2).half().v == -1);
  CHECK(P(P::DeepInit(), 1).half().v == 1);
  CHECK(P(6).half().v == P(3).v);
''')

seed('c09-single-denorm', 'C09',
     [(F, '''    static constexpr holder_t lowest_h = 0xff7fffff; // -max_h
	static constexpr int with_denorm = true;''', '''    static constexpr holder_t lowest_h = 0xff7fffff; // -max_h
	static constexpr int with_denorm = false; // below every posit of up to 32 bits''')],
     'a denormal float (below 1.18e-38)',
     'denormal floats are read as zero',
     r'''
  using UU = Unpacked<uint32_t,int>;
  for(int k = 127; k <= 149; k++)
  {
    UU u(ldexpf(1.0f, -k));
    CHECK(u.type == UU::Regular && u.exponent == -k && u.fraction == 0);
  }
''')

seed('c09-single-sign', 'C09',
     [(U, """    if (hfraction == 0)
    {
      type = Infinity;
    }""", """    if (hfraction == 0)
    {
      *this = infinity();
    }""")],
     'reading minus infinity',
     'the sign of an infinite float is lost when it is read',
     r"""
  using UU = Unpacked<uint32_t,int>;
  UU u(-std::numeric_limits<float>::infinity()), w(std::numeric_limits<float>::infinity());
  CHECK(u.type == UU::Infinity && u.negativeSign);
  CHECK(w.type == UU::Infinity && !w.negativeSign);
""")

seed('c10-denorm-or', 'C10',
     [(U, '''    // expand the fractiona part
    return (msb | (fraction >> 1)) >> (abits - bbits);''', '''    // expand the fractiona part
    return (msb >> (abits - bbits)) | (fraction >> (abits - bbits));''')],
     'a value below the normal range of the target float (a denormal result) with a non-zero fraction, converted from a wider fraction type',
     'the fraction of a denormal result is not moved right to make room for the leading one',
     r'''
  using UU = Unpacked<uint32_t,int>;
  CHECK((float)UU(-130, 0x40000000u, false) == ldexpf(1.25f, -130));
  CHECK((float)UU(-127, 0x80000000u, true) == -ldexpf(1.5f, -127));
  CHECK((float)UU(-20, 0x40000000u, false) == ldexpf(1.25f, -20));
''')

seed('c11-lowest', 'C11',
     [(U, 'return negativeSign ? std::numeric_limits<typename Trait::value_t>::lowest()', 'return negativeSign ? -std::numeric_limits<typename Trait::value_t>::max()')],
     'exactly the lowest integer, or any value below it',
     'the negative saturation value is one too high: the lowest integer does not survive a round trip',
     r'''
  using UU = Unpacked<uint32_t,int>;
  CHECK((int)UU(std::numeric_limits<int>::lowest()) == std::numeric_limits<int>::lowest());
  CHECK((int)UU(40, 5, true) == std::numeric_limits<int>::lowest());
  CHECK((int)UU(40, 5, false) == std::numeric_limits<int>::max());
  CHECK((int)UU(-77) == -77);
''')

seed('c13-memo', 'C13',
     [(H, 'Posit & operator/= (const Posit & a) { auto x = *this / a; v = x.v; return *this; }', '''Posit & operator/= (const Posit & a)
    {
    	// repeated divisions by the same number are common: keep its unpacked form
    	static Posit last;
    	static UnpackedT ulast(UnpackedT::Zero);
    	if(last.v != a.v)
    	{
    		last = a;
    		ulast = a.unpack();
    	}
    	v = pack_posit<T,totalbits,esbits,FT,positspec>(unpack()/ulast).v;
    	return *this;
    }''')],
     'two threads dividing posits of one type by different numbers at the same time',
     'the compound division caches its divisor in function statics without synchronisation: a thread can divide by the other thread\'s divisor',
     r'''
  std::thread t1(work, 3), t2(work, 7);
  t1.join(); t2.join();
  CHECK(wrong == 0);
  P x(5); x /= P(0); CHECK(x.isNaN());
  P z(6); z /= P(2); CHECK(z.v == P(3).v);
''', inc='#include <thread>\n#include <atomic>\n#include "posit.h"', glob=r'''
using P = Posit<int32_t,32,2,uint32_t,PositSpec::WithNan>;
static std::atomic<int> wrong(0);
static void work(int d)
{
  P q = P(105) / P(d);
  for(long i = 0; i < 4000000 && !wrong; i++)
  {
    P x(105);
    P b(i & 1 ? d : d + 1);
    P e = i & 1 ? q : P(105) / P(d + 1);
    x /= b;
    if(x.v != e.v) wrong++;
  }
}
''', flags='-O1 -pthread')

seed('c14-maxexp', 'C14',
     [(H, 'return positspec_ == PositSpec::WithNanInf ? POSIT_REG_SCALE * (totalbits - 3) : POSIT_REG_SCALE * (totalbits - 2); }', 'return POSIT_REG_SCALE * (totalbits - 2); }')],
     'the variant with signed infinities',
     'numeric_limits::max_exponent names the exponent of the infinity code rather than that of the largest finite posit',
     r'''
  using P = Posit<int16_t,16,1,uint16_t,PositSpec::WithNanInf>;
  CHECK(std::numeric_limits<P>::max_exponent == P::max().unpack().exponent);
  using Q = Posit<int16_t,16,1,uint16_t,PositSpec::WithNan>;
  CHECK(std::numeric_limits<Q>::max_exponent == Q::max().unpack().exponent);
''')

seed('c14-prev', 'C14',
     [(H, 'constexpr Posit prev() const { return Posit(DeepInit(),v > PT::POSIT_MAXPOS || v <= PT::POSIT_MINNEG ? v : v-1); }',
       'constexpr Posit prev() const { return Posit(DeepInit(),v > PT::POSIT_MAXPOS || v < PT::POSIT_MINNEG ? v : v-1); }')],
     'prev() of the lowest finite posit',
     'prev() of the lowest number steps into NaN or minus infinity instead of stopping',
     r'''
  using P = Posit<int16_t,16,1,uint16_t,PositSpec::WithNan>;
  CHECK(P::lowest().prev().v == P::lowest().v);
  CHECK(P::max().next().v == P::max().v);
  CHECK(P(1).prev().next().v == P(1).v);
''')

seed('c16-addassign', 'C16',
     [(H, 'Posit& operator+=(const Posit &a) { Posit r = *this+a; v = r.v; return *this; }',
       'Posit& operator+=(const Posit &a) { *this = pack_posit<T,totalbits,esbits,FT,positspec>(unpack()+a.unpack()); return *this; }')],
     'a fraction type narrower than the fraction of the posit, and a zero on one side',
     'a += 0 (and 0 += b) goes through the narrow fraction and loses low bits, while a + 0 returns a',
     r'''
  using P = Posit<int32_t,32,1,uint16_t,PositSpec::WithNan>;
  for(int v = 0x40000001; v < 0x4fffffff; v += 7919 * 131)
  {
    P a(P::DeepInit(), v), b(P::DeepInit(), 0), z(P::DeepInit(), 0);
    P s = a + z; P c = a; c += z;
    CHECK(s.v == c.v);
    P s2 = z + a; P d = z; d += a;
    CHECK(s2.v == d.v);
    if(bad) break;
  }
''')

seed('c17-dot-zero', 'C17',
     [(H, '''	    	for(int i = 1; i < N; i++)
		    	v0 += ''', '''	    	for(int i = 1; i < N && v0.type != UnpackedT::NaN; i++)
		    	v0 = v0.type == UnpackedT::Zero ? (Posit(*begin1++)).unpack()*(Posit(*begin2++)).unpack() : v0 + ''')],
     'a dot product whose running sum becomes NaN before the last element: the iterators are not advanced to the end',
     'dot stops reading at the first NaN, so with input iterators the remaining elements are left unread and a following dot over the same iterators pairs the wrong elements',
     r'''
  using P = Posit<int16_t,16,1,uint16_t,PositSpec::WithNan>;
  P a[4] = { P(1), P::nan(), P(3), P(4) }, b[4] = { P(1), P(1), P(1), P(1) };
  Count<P> x{a}, y{b};
  int n0 = reads;
  P r = P::dot(x, y, 4);
  CHECK(r.isNaN());
  CHECK(reads - n0 == 8);
  P c[3] = { P(1), P(0), P(3) };
  CHECK(P::dot(c, b, 3).v == P(4).v);
''', glob=r'''
static int reads = 0;
template <class P> struct Count
{
  P * p;
  P operator*() const { reads++; return *p; }
  Count operator++(int) { Count c = *this; ++p; return c; }
};
''')

seed('c18-mul-round', 'C18',
     [(U, '''      POSIT_LUTYPE afrac = FT_leftmost_bit | (a.fraction >> 1);
      POSIT_LUTYPE bfrac = FT_leftmost_bit | (b.fraction >> 1);
      auto frac = nextintop<FT>::extramul(afrac,bfrac) >> FT_bits;''', '''      // the lowest fraction bit has no room next to the hidden one: to nearest
      POSIT_LUTYPE afrac = FT_leftmost_bit + (a.fraction >> 1) + (a.fraction & 1);
      POSIT_LUTYPE bfrac = FT_leftmost_bit + (b.fraction >> 1) + (b.fraction & 1);
      auto frac = nextintop<FT>::extramul(afrac,bfrac) >> FT_bits;''')],
     'an operand whose fraction has every bit of the fraction type set',
     'the rounded significand exceeds its word and wraps to zero, so the product of a number just below two is tiny or zero',
     r'''
  using UU = Unpacked<uint8_t,int>;
  for(int f = 0; f < 256; f++)
    for(int g = 0; g < 256; g++)
    {
      double x = (1 + f / 256.0) * (1 + g / 256.0), y = (double)(UU(0, f, false) * UU(0, g, false));
      CHECK(y <= x && y > x * (1 - 4 / 128.0));
      if(bad) return 1;
    }
''')

seed('c19-align-char', 'C19',
     [(U, 'auto dir = a.exponent - b.exponent;', 'const signed char dir = a.exponent - b.exponent; // alignment distance')],
     'two operands whose exponents differ by 128 or more',
     'the alignment distance wraps modulo 256, so a negligible operand is added with full weight',
     r'''
  using UU = Unpacked<uint32_t,int>;
  for(int d = -600; d <= 600; d++)
  {
    UU s = UU(d, 0, false) + UU(0, 0, false);
    long double x = ldexpl(1, d) + 1, y = ldexpl(1 + ldexpl(s.fraction, -32), s.exponent);
    CHECK(y <= x && y > x * (1 - ldexpl(1, -28)));
    if(bad) break;
  }
''')

seed('c20-inv-float', 'C20',
     [('include/positf.h', 'PositF inv()  const { return PositF(1/(FFT)unpack());}', 'PositF inv()  const { return PositF((FFT)(1/(float)unpack()));}')],
     'a double-backed posit with more than 24 significant bits',
     'the reciprocal is computed in single precision even when the posit is backed by double',
     r'''
  using P = PositF<int32_t,32,2,double,PositSpec::WithNan>;
  for(int i = 3; i < 1000; i++)
  {
    P p(1.0 / i + i), e(1 / (double)p);
    CHECK(p.inv().v == e.v);
    if(bad) break;
  }
''')

seed('c21-max', 'C21',
     [('include/positf.h', 'inline CONSTEXPR14 PositF<T,totalbits,esbits,FFT,positspec> max(PositF<T,totalbits,esbits,FFT,positspec> a, PositF<T,totalbits,esbits,FFT,positspec> b)\n\t{\n\t\treturn a >= b ? a : b;',
       'inline CONSTEXPR14 PositF<T,totalbits,esbits,FFT,positspec> max(PositF<T,totalbits,esbits,FFT,positspec> a, PositF<T,totalbits,esbits,FFT,positspec> b)\n\t{\n\t\treturn a.ge(b) ? a : b;')],
     'any use of std::max with float-backed posits (no test instantiates it)',
     'std::max of float-backed posits does not compile any more',
     r'''
  using P = PositF<int16_t,16,1,float,PositSpec::WithNan>;
  CHECK(std::max(P(2.0f), P(3.0f)).v == P(3.0f).v);
''', sh='g++ -std=c++14 -w -I include "$d/demo.cpp" -o "$t/demo" || exit 1\n"$t/demo"\n')

seed('c22-esbits', 'C22',
     [(H, 'static_assert(esbits <= totalbits-3,', 'static_assert(esbits < totalbits-1,')],
     'instantiating a posit with totalbits-2 exponent bits',
     'an exponent field too wide for the format is accepted',
     '', inc='#include "posit.h"\n#ifdef WIDE\nusing P = Posit<int16_t,10,8,uint16_t,PositSpec::WithNan>;\n#else\nusing P = Posit<int16_t,10,7,uint16_t,PositSpec::WithNan>;\n#endif\nint v = P(3).v;',
     sh='g++ -std=c++14 -w -I include -c "$d/demo.cpp" -o "$t/a.o" || exit 1\n! g++ -std=c++14 -w -DWIDE -I include -c "$d/demo.cpp" -o "$t/b.o" 2>/dev/null\n')

seed('c23-hexflags', 'C23',
     [(H, '''		ons << typename printableinttype<T>::type(o.v);
	}''', '''		ons << typename printableinttype<T>::type(o.v);
		return ons;
	}'''),
      (H, '''	ons.setf(std::ios::dec, std::ios::basefield);
	if(f == std::ios::hex)
	{''', '''	if(f == std::ios::hex)
	{
		ons.setf(std::ios::dec, std::ios::basefield);''')],
     'printing a posit in hex mode and then anything else on the same stream',
     'the hex branch leaves the stream in decimal mode',
     r'''
  using P = Posit<int16_t,16,1,uint16_t,PositSpec::WithNan>;
  std::ostringstream o;
  o << std::hex << P(1) << " " << 255;
  CHECK(o.str() == "16384 ff");
  std::ostringstream q;
  q << P(3) << " " << 255;
  CHECK(q.str() == "3 255");
''')

seed('c24-unit', 'C24',
     [(H, 'constexpr Posit urOneMinus() const { return Posit(DeepInit(),PT::POSIT_INVERTBIT-v); }', 'constexpr Posit urOneMinus() const { return Posit(DeepInit(),PT::POSIT_INVERTBIT^(v & (PT::POSIT_INVERTBIT-1))); }')],
     'the argument one, or any interior point of the unit range',
     'one minus x is computed with an exclusive or, right at zero only',
     r'''
  using P = Posit<int16_t,16,0,uint16_t,PositSpec::WithNan>;
  for(int v = 0; v <= 0x4000; v += 16)
  {
    P p(P::DeepInit(), v);
    CHECK((double)p.urOneMinus() == 1 - (double)p);
    if(bad) break;
  }
''')

seed('c25-fma', 'C25',
     [('include/anyfloat.hpp', 'anyfloat_emu& operator+=(const anyfloat_emu &a) { anyfloat_emu r = *this+a; v = r.v; return *this; }',
       'anyfloat_emu& operator+=(const anyfloat_emu &a) { anyfloat_emu r = a.iszero() ? a : *this+a; v = r.v; return *this; }')],
     'accumulating a positive zero into an emulated small float',
     'x += 0 clears x',
     r'''
  binary16_emu a(1.5f), z(0.0f);
  a += z;
  CHECK((float)a == 1.5f);
  a += a;
  CHECK((float)a == 3.0f);
''', inc='#include "anyfloat.hpp"')

seed('c25-float16-div', 'C25',
     [('include/float16native32.hpp', 'constexpr float16n32 abs()  const { return float16n32(0,value.what & ~0x8000);  }', 'constexpr float16n32 abs()  const { return float16n32(0,value.what & 0x7bff);  }')],
     'the absolute value of a negative number of 16 or more in the top binade, an infinity or a NaN (exponent bit 10 set)',
     'one exponent bit is cleared together with the sign',
     r'''
  for(int i = 0; i < 0x7c00; i += 3)
  {
    float16n32 x(false, (uint16_t)(i | 0x8000));
    CHECK(x.abs().raw() == i);
    if(bad) break;
  }
''', inc='#include "float16native32.hpp"')

seed('c26-part', 'C26',
     [(B, '''	auto M = bitmask<T>(size);
	return (input >> offset) & M;''', '''	auto M = bitmask<T>(size & (sizeof(T) * 8 - 1));
	return (input >> offset) & M;''')],
     'reading a field as wide as the whole word',
     'the field width is taken modulo the word width, so the full-width field reads as zero',
     r'''
  volatile uint32_t x = 0xdeadbeefu;
  CHECK((bitset_get<uint32_t>)(x, 0, 32) == 0xdeadbeefu);
  CHECK((bitset_get<uint32_t>)(x, 8, 8) == 0xbeu);
  volatile uint8_t y = 0xa5;
  CHECK((bitset_get<uint8_t>)(y, 0, 8) == 0xa5);
''', inc='#include "bithippop.hpp"')
