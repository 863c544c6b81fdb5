import importlib.util, os
_s = importlib.util.spec_from_file_location('seeds_a', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'a.py'))
_a = importlib.util.module_from_spec(_s)
_s.loader.exec_module(_a)
VAL, PRE = _a.VAL, _a.PRE
H, U, B, F = _a.H, _a.U, _a.B, _a.F
_a.SEEDS = SEEDS = []
seed = _a.seed


def gen(n, extra=''):
    """builds the table with the generator of the tree, links the reader with it"""
    return ('g++ -std=c++14 -w -O1 -I include src/%s_gen.cpp -o "$t/gen" || exit 3\n' % n +
            'timeout 200 "$t/gen" "$t/tbl.cpp" || exit 3\n'
            'g++ -std=c++14 -w -I include "$d/demo.cpp" src/%s.cpp "$t/tbl.cpp" %s -o "$t/demo" || exit 3\n' % (n, extra) +
            'timeout 120 "$t/demo"\n')


seed('c15-gen10-negative', 'C15',
     [('src/posit10_gen.cpp', 'int32_t i2 = ((unsigned int)(uint16_t)s2) & 0x03FF;', 'int32_t i2 = ((unsigned int)(uint16_t)(s2 < 0 ? -s2 : s2)) & 0x03FF;')],
     'a table operation of posit10 whose second operand is negative',
     'the generator files negative second operands under their magnitude: those table entries are never written and positive ones depend on the order of the loop',
     r'''
  using X = posit10::FPT;
  for(int a = -500; a < 500; a += 37)
    for(int b = -500; b < 500; b += 23)
    {
      posit10 x(posit10::DeepInit(), a), y(posit10::DeepInit(), b);
      X gx(X::DeepInit(), a), gy(X::DeepInit(), b);
      CHECK((x * y).v == X((float)gx * (float)gy).v);
      CHECK((x + y).v == X((float)gx + (float)gy).v);
    }
''', inc='#include "posit10.hpp"', sh=gen('posit10'))

seed('c15-gen8-names', 'C15',
     [('src/binary8_gen.cpp', 'onf << "int8_t opexp2[] = {\\n";\n\tfor(int i  = 0; i < 256; i++)\n\t\tonf << (int)(opexp2[i]) << ",";', 'onf << "int8_t opexp2[] = {\\n";\n\tfor(int i  = 0; i < 256; i++)\n\t\tonf << (int)(opsquare[i]) << ",";')],
     'the exponential of the tabulated 8-bit float (the tests use no exp2)',
     'the table of 2^x is filled with the squares',
     r'''
  for(int a = 0; a < 256; a++)
  {
    binary8tab x(binary8tab::DeepInit(), (int8_t)a);
    float f = x;
    if(!(f == f)) continue;
    CHECK(exp2(x).v == G(exp2f(f)).v || (float)exp2(x) == (float)G(exp2f(f)));
  }
''', inc='#include "posit.h"\n#include "anyfloat.hpp"\n#include "binary8.hpp"', glob='using G = anyfloat_emu<5,2,microfloat,uint8_t,float>;', sh=gen('binary8'))

seed('c15-read12-scale', 'C15',
     [('include/posit12.hpp', 'posit12 square() const { return posit12(DeepInit(),posit12ns::opsquare[uu()]); }', 'posit12 square() const { return posit12(DeepInit(),posit12ns::opsquare[uu() & 0x7FF]); }')],
     'squaring a negative 12-bit posit',
     'the square of a negative number is looked up under the pattern without its sign bit, which is not its magnitude',
     r'''
  using X = posit12::FPT;
  for(int a = -2047; a < 2048; a += 11)
  {
    float f = X(X::DeepInit(), a);
    CHECK(posit12(posit12::DeepInit(), a).square().v == X(f * f).v);
  }
''', inc='#include "posit12.hpp"', sh=gen('posit12'))

seed('c03-positf-mask', 'C03',
     [('include/positf.h', 'return PositF(DeepInit(),(PPT::pack_low(u)).v);', 'return PositF(DeepInit(),(PPT::pack_low(u)).v & PT::POSIT_MASK);')],
     'a negative float-backed posit that is narrower than its storage',
     'packing leaves the unused high bits clear: unpack followed by pack turns a negative posit into a large positive word',
     r'''
  using P = PositF<int32_t,20,1,float,PositSpec::WithNan>;
  for(int v = -500000; v < 500000; v += 997)
  {
    P p(P::DeepInit(), v);
    CHECK(P(p.unpack_low()).v == v);
  }
''')

seed('c06-inf-equal', 'C06',
     [(U, '''               : negativeSign == u.negativeSign && type == u.type &&
                     (type == Regular
                          ? (exponent == u.exponent && fraction == u.fraction)
                          : true);''', '''               : type == u.type &&
                     (type == Regular
                          ? (negativeSign == u.negativeSign && exponent == u.exponent && fraction == u.fraction)
                          : true);''')],
     'comparing unpacked infinities of opposite signs',
     '+inf == -inf becomes true for unpacked numbers',
     r'''
  using UU = Unpacked<uint32_t,int>;
  CHECK(UU::pinfinity() != UU::ninfinity());
  CHECK(!(UU::pinfinity() == UU::ninfinity()));
  CHECK(UU::pinfinity() == UU::pinfinity());
  CHECK(UU(3) == UU(3) && !(UU(3) == UU(-3)));
''')

seed('c10-overflow-inf', 'C10',
     [(U, '    return negativeSign ? Trait::lowest_h : Trait::max_h;\n', '    return negativeSign ? Trait::ninfinity_h : Trait::pinfinity_h;\n')],
     'packing a finite number above the largest finite float',
     'a finite number becomes an infinity instead of the largest finite float',
     r'''
  using UU = Unpacked<uint32_t,int>;
  CHECK((float)UU(200, 0, false) == std::numeric_limits<float>::max());
  CHECK((float)UU(200, 0, true) == -std::numeric_limits<float>::max());
  CHECK((float)UU(3, 0, true) == -8);
''')

seed('c11-fixed-fraction', 'C11',
     [(U, '  else if (exponent < -Trait::fraction_bits)\n  {\n    return 0;', '  else if (exponent < 0)\n  {\n    return 0;')],
     'packing a magnitude below one into a fixed-point format with fraction bits',
     'values between one unit and one become zero',
     r'''
  using UU = Unpacked<uint32_t,int>;
  using FX = fixedtrait<int32_t,32,16>;
  CHECK(UU(0.5f).pack_xfixed<FX>() == 32768);
  CHECK(UU(-0.25f).pack_xfixed<FX>() == -16384);
  CHECK(UU(1.5f).pack_xfixed<FX>() == 98304);
  CHECK(UU(1e-9f).pack_xfixed<FX>() == 0);
''')

seed('c17-chunk', 'C17',
     [(H, '''	    	for(int i = 1; i < N; i++)
		    	v0 += (Posit(*begin1++)).unpack()*(Posit(*begin2++)).unpack();
''', '''	    	for(int i = 1; i < N; i++)
	    	{
		    	v0 += (Posit(*begin1++)).unpack()*(Posit(*begin2++)).unpack();
		    	if((i & 15) == 15) // keep the accumulator in the range of the format
		    		v0 = Posit(v0).unpack();
	    	}
''')],
     'a dot product of sixteen pairs or more whose running sum needs more fraction bits than the posit has',
     'the accumulator is rounded to the posit every sixteen elements instead of once at the end',
     r'''
  using P = Posit<int16_t,16,1,uint64_t,PositSpec::WithNan>;
  P a[24], b[24];
  for(int i = 0; i < 24; i++) { a[i] = P(1.0f + i / 64.0f); b[i] = P(0.7f + i / 128.0f); }
  auto s = a[0].unpack() * b[0].unpack();
  for(int n = 1; n < 24; n++)
  {
    s = s + a[n].unpack() * b[n].unpack();
    CHECK(P::dot(a, b, n + 1).v == P(s).v);
  }
  a[0] = P(4096); b[0] = P(1);
  for(int i = 1; i < 24; i++) { a[i] = P(0.25f); b[i] = P(1); }
  s = a[0].unpack() * b[0].unpack();
  for(int n = 1; n < 24; n++)
  {
    s = s + a[n].unpack() * b[n].unpack();
    CHECK(P::dot(a, b, n + 1).v == P(s).v);
  }
''')

seed('c17-prefetch', 'C17',
     [(H, '''	    	auto v0 = (Posit(*begin1++)).unpack()*(Posit(*begin2++)).unpack(); // first
	    	for(int i = 1; i < N; i++)
		    	v0 += (Posit(*begin1++)).unpack()*(Posit(*begin2++)).unpack();
''', '''	    	auto v0 = (Posit(*begin1++)).unpack()*(Posit(*begin2++)).unpack(); // first
	    	Posit a1(*begin1), a2(*begin2); // software pipelining
	    	for(int i = 1; i < N; i++)
	    	{
		    	v0 += a1.unpack()*a2.unpack();
		    	a1 = Posit(*++begin1);
		    	a2 = Posit(*++begin2);
	    	}
''')],
     'sequences that end exactly after N elements (the end of an allocation)',
     'dot reads one element beyond the end of each sequence',
     r'''
  using P = Posit<int32_t,32,2,uint32_t,PositSpec::WithNan>;
  for(int n = 1; n < 9; n++)
  {
    P * a = new P[n], * b = new P[n];
    for(int i = 0; i < n; i++) { a[i] = P(i + 1); b[i] = P(2); }
    CHECK((int)P::dot(a, b, n) == n * (n + 1));
    delete[] a;
    delete[] b;
  }
''', flags='-fsanitize=address')

seed('c18-div-short', 'C18',
     [(U, 'auto exp = a.exponent - b.exponent + (afrac < bfrac1 ? -1 : 0);', 'short exp = a.exponent - b.exponent + (afrac < bfrac1 ? -1 : 0);')],
     'the quotient of a huge and a tiny posit with ten or more exponent bits',
     'the exponent of the quotient wraps at sixteen bits: huge / tiny becomes a small number',
     r'''
  using P = Posit<int32_t,32,10,uint32_t,PositSpec::WithNan>;
  P big(P::DeepInit(), 0x7ffffff0), tiny(P::DeepInit(), 0x10);
  CHECK((big / tiny).v == P::max().v);
  CHECK((tiny / big).v == 1);
  CHECK((P(6) / P(3)).v == P(2).v);
''')

seed('c19-far', 'C19',
     [(U, '      auto dir = a.exponent - b.exponent;\n', '      auto dir = a.exponent - b.exponent;\n      if (dir >= FT_bits - 2 || dir <= 2 - FT_bits) // negligible operand\n        return dir > 0 ? a : b;\n'),
      (U, '      const ET exp = (dir < 0 ? b.exponent : a.exponent) + 1;\n', '      const ET exp = dir < 0 ? b.exponent + 1 : a.exponent + 1;\n')],
     'operands whose exponents differ by exactly two less than the fraction width (or one less)',
     'an operand that still reaches the lowest kept bit is dropped: subtracting it changes nothing',
     r'''
  using UU = Unpacked<uint32_t,int>;
  UU a(0, 0, false), b(-30, 0, true);
  CHECK(uval(a + b) == 1 - ldexpl(1, -30));
  CHECK(uval(b + a) == 1 - ldexpl(1, -30));
  UU c(5, 0, false), d(1, 0, false);
  CHECK(uval(c + d) == 34);
''', glob=VAL)

seed('c26-cast-mask', 'C26',
     [(B, '		return bitset_getT(value, 0, abits) >> (abits - bbits);', '		return value >> (abits - bbits);')],
     'a field narrower than the word that holds it, with other bits above it',
     'the narrowing cast of a right aligned field lets the bits above the field in',
     r'''
  volatile uint32_t x = 0xabcd1234;
  CHECK((cast_right_to_left<uint32_t,16,uint16_t,8>()(x)) == 0x12);
  CHECK((cast_right_to_left<uint32_t,24,uint16_t,16>()(x)) == 0xcd12);
  CHECK((cast_right_to_left<uint64_t,40,uint32_t,32>()(((uint64_t)x << 20) | 0x55)) == (uint32_t)(((((uint64_t)x << 20) | 0x55) & 0xffffffffffULL) >> 8));
''')

seed('c16-mul-add-twice', 'C16',
     [(H, '		return fma(b.a,b.b,a);\n', '		return a + b.asPosit();\n')],
     'the deferred-product mode (POSITMUL), adding a posit on the left of a product that needs more bits than the posit has',
     'a + b*c is rounded twice while b*c + a is rounded once',
     r'''
  for(int i = 3; i < 3000; i += 7)
  {
    P b(1.0f + i / 4096.0f), c(1.0f + i / 2048.0f), a(-1.0f - i / 1024.0f);
    CHECK((a + b * c).v == P(b.unpack() * c.unpack() + a.unpack()).v);
    CHECK((b * c + a).v == P(b.unpack() * c.unpack() + a.unpack()).v);
  }
''', inc='#define POSITMUL\n#include "posit.h"', glob='using P = Posit<int16_t,16,1,uint64_t,PositSpec::WithNan>;')

seed('c20-ulp', 'C20',
     [(U, '''        if (afrac < bfrac)
        {
          exp--;
          bfrac >>= 1;
        }
''', '''        // the fraction is not zero: 1/x is below one
        exp--;
        bfrac >>= 1;
''')],
     'the reciprocal of a number whose only fraction bit is the lowest one of the fraction type',
     'the dropped lowest bit makes the divisor equal to the dividend and the reciprocal comes out as half of the right value',
     r'''
  using UU = Unpacked<uint32_t,int>;
  UU x(0, 1, false), y(4, 1, true);
  CHECK(uval(x.inv()) == uval(UU::one() / x));
  CHECK(uval(y.inv()) == uval(UU::one() / y));
  CHECK(uval(UU(3).inv()) == uval(UU::one() / UU(3)));
''', glob=VAL)

seed('c14-epsilon', 'C14',
     [('include/positf.h', 'epsilon() noexcept { return T::one().next()-T::one(); }', 'epsilon() noexcept { return T::one()-T::one().prev(); }')],
     'numeric_limits<PositF<...>>::epsilon',
     'epsilon is the distance to the predecessor of one, half the documented value',
     r'''
  using P = PositF<int16_t,16,1,float,PositSpec::WithNan>;
  CHECK((double)std::numeric_limits<P>::epsilon() == ldexp(1, -12));
''')

seed('c08-positf-half', 'C08',
     [('include/positf.h', 'PositF twice() const { return PositF(2*(FFT)unpack()); }', 'PositF twice() const { return PositF(2*(float)unpack()); }')],
     'doubling a double-backed posit with more than 24 significant bits',
     'the low fraction bits are lost when the number is doubled',
     r'''
  using P = PositF<int32_t,32,2,double,PositSpec::WithNan>;
  for(int v = 0x40000001; v < 0x48000000; v += 104729)
    CHECK((double)P(P::DeepInit(), v).twice() == 2 * (double)P(P::DeepInit(), v));
''')

seed('c05-zero-inf', 'C05',
     [(U, '''    case UnpackedDualSel(Infinity, Zero):
    case UnpackedDualSel(Zero, Infinity):
      return nan();
    default: // case UnpackedDualSel(Infinity,Infinity):
      // inf inf''', '''    case UnpackedDualSel(Infinity, Zero):
      return nan();
    default: // case UnpackedDualSel(Infinity,Infinity):
      // inf inf''')],
     'zero times infinity with the zero on the left',
     '0 * inf gives infinity, inf * 0 still gives NaN',
     r'''
  using UU = Unpacked<uint32_t,int>;
  CHECK((UU::zero() * UU::pinfinity()).isNaN());
  CHECK((UU::pinfinity() * UU::zero()).isNaN());
  CHECK((UU(2) * UU::pinfinity()).isInfinity());
''')

seed('c21-fma-constexpr', 'C21',
     [(H, '	friend CONSTEXPR14 Posit fma(const Posit & a, const Posit & b, const Posit & c)', '	friend Posit fma(const Posit & a, const Posit & b, const Posit & c)')],
     'fma in a constant expression (no test does that)',
     'fma of posits is not a constant expression any more',
     r'''
  constexpr P r = fma(P(2), P(3), P(4));
  static_assert(r.v == P(10).v, "");
''', glob='using P = Posit<int32_t,32,2,uint32_t,PositSpec::WithNan>;', sh='g++ -std=c++14 -w -I include "$d/demo.cpp" -o "$t/demo" || exit 1\n"$t/demo"\n')

seed('c22-implicit-unpacked', 'C22',
     [(H, '	CONSTEXPR14 explicit Posit(UnpackedT u) :', '	CONSTEXPR14 Posit(UnpackedT u) :')],
     'passing an unpacked number where a posit is expected',
     'unpacked numbers are encoded silently',
     r'''
  static_assert(!std::is_convertible<P::UnpackedT, P>::value, "");
  static_assert(std::is_constructible<P, P::UnpackedT>::value, "");
''', glob='using P = Posit<int32_t,32,2,uint32_t,PositSpec::WithNan>;', sh='g++ -std=c++14 -w -I include "$d/demo.cpp" -o "$t/demo" || exit 1\n"$t/demo"\n')

seed('c24-one', 'C24',
     [('include/positf.h', 'constexpr bool isUnitRange() const { return v >= 0 && v <= PT::POSIT_ONE; };', 'constexpr bool isUnitRange() const { return (v & ~(PT::POSIT_ONE-1)) == 0; };')],
     'the float-backed posit one',
     'one is not inside the unit range any more',
     r'''
  using P = PositF<int16_t,16,0,float,PositSpec::WithNan>;
  CHECK(P::one().isUnitRange());
  CHECK(P::zero().isUnitRange());
  CHECK(!P::mone().isUnitRange());
  CHECK(!P::two().isUnitRange());
  CHECK(P::onehalf().isUnitRange());
''')

seed('c25-native-abs', 'C25',
     [('include/float16native32.hpp', 'return float16n32(0,value.what & ~0x8000);', 'return float16n32(0,value.what & 0x7C00 ? value.what & ~0x8000 : value.what & 0x7FFF & ~1);')],
     'the absolute value of a denormal half with an odd fraction',
     'the lowest bit of a denormal half is lost by abs',
     r'''
  for(int v = 0; v < 65536; v++)
    CHECK(float16n32(false, (uint16_t)v).abs().raw() == (v & 0x7fff));
''', inc='#include "float16native32.hpp"')

seed('c12-promote-mul', 'C12',
     [('include/typehelpers.hpp', '		return ((typename nextinttype<T>::type)a)*b;', '		return sizeof(T) < sizeof(int) ? a*b : ((typename nextinttype<T>::type)a)*b; // small types are promoted anyway')],
     'the product of two posits with a 16 bit fraction type whose fractions are large',
     'the 16 bit operands are promoted to signed int and their product overflows it: undefined behaviour',
     r'''
  using P = Posit<int16_t,16,1,uint16_t,PositSpec::WithNan>;
  volatile short x = 0x4fff, y = 0x4ffe;
  P p(P::DeepInit(), x), q(P::DeepInit(), y);
  CHECK((p * q).v == P((float)p * (float)q).v);
''', flags='-fsanitize=undefined -fno-sanitize-recover=undefined')

seed('c23-fraction-base', 'C23',
     [(U, '          << " fraction (hex) = " << std::hex\n', '          << " fraction (hex) = "\n')],
     'the unpacked description of a number with a fraction of ten or more',
     'the fraction announced as hexadecimal is printed in decimal',
     r'''
  std::ostringstream o;
  o << Unpacked<uint32_t,int>(0, 0xabcdef00u, false);
  CHECK(o.str().find("abcdef00") != std::string::npos);
''')



seed('c04-none', 'C04',
     [(H, '			return positspec != PositSpec::WithInf ? PP::nan() : PP::pinf();', '			return positspec == PositSpec::WithNan ? PP::nan() : PP::pinf();')],
     'encoding NaN in the variant with both NaN and infinities',
     'NaN becomes plus infinity in the variant that has both',
     r'''
  using P = Posit<int32_t,32,2,uint32_t,PositSpec::WithNanInf>;
  CHECK(P(P::UnpackedT::nan()).isNaN());
  CHECK(P(P::UnpackedT::pinfinity()).isinfinity());
  CHECK((P::pinf() - P::pinf()).isNaN());
''')

seed('c02-exp-modulo', 'C02',
     [(H, '		return exp << (hbits-ebits);', '		return (exp & (hbits-1)) << (hbits-ebits);')],
     'an exponent field of seven bits or more in a 64-bit posit (six in a 32-bit one), at exponents that need the upper bits',
     'the exponent field is reduced modulo the storage width before it is written',
     r'''
  using P = Posit<int32_t,32,10,uint32_t,PositSpec::WithNan>;
  for(int e = -2000; e < 2000; e += 17)
    CHECK(uval(P(P::UnpackedT(e, 0, false)).unpack()) == ldexpl(1, e));
''', glob=VAL)

seed('c13-flags', 'C13',
     [(H, '	CONSTEXPR14 Posit & operator*= (const Posit & b)\n	{\n		*this = pack_posit<T,totalbits,esbits,FT,positspec>(unpack()*b.unpack());',
          '	CONSTEXPR14 Posit & operator*= (const Posit & b)\n	{\n		if(isNaN())\n			const_cast<Posit&>(b).v = v; // both are NaN from here on\n		*this = pack_posit<T,totalbits,esbits,FT,positspec>(unpack()*b.unpack());')],
     'a compound multiplication of a NaN: the right operand is read again afterwards',
     'x *= y overwrites y when x is NaN',
     r'''
  P x = P::nan(), y(3);
  x *= y;
  CHECK(x.isNaN());
  CHECK(y.v == P(3).v);
''', glob='using P = Posit<int32_t,32,2,uint32_t,PositSpec::WithNan>;')
