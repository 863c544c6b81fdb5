F = 'include/positf.h'
A = 'include/anyfloat.hpp'
N = 'include/float16native32.hpp'
R = 'include/floattraits.hpp'
EDITS = [
 (F, "    friend constexpr bool operator != (const PositF & a, const PositF & u)  { return a.v != u.v; }", "    friend constexpr bool operator != (const PositF & a, const PositF & u)  { return !(a == u); }"),
 (F, "	PositF inv()  const { return PositF(1/(FFT)unpack());}", "	PositF inv()  const { const FFT x = unpack(); return PositF(FFT(1)/x);}"),
 (F, "		*this = PositF((FFT)*this *(FFT)b);\n		return *this;", "		return *this = *this * b;"),
 (F, "        return a.iszero() ? b : b.iszero() ? a: PositF((FFT)a+(FFT)b);", "        return b.iszero() ? a : a.iszero() ? b : PositF((FFT)a+(FFT)b);"),
 (F, "	friend constexpr PositF operator-(const PositF & a, const PositF & b)  { return a + (-b); }", "	friend constexpr PositF operator-(const PositF & a, const PositF & b)  { return a + b.neg(); }"),
 (F, "{ return pack_posit(UnpackedT((FFT)a/(FFT)b)); }", "{ return PositF((FFT)a/(FFT)b); }"),
 (F, "	constexpr bool isnegative() const { return v < 0; } //(v &POSIT_SIGNBIT) != 0; }", "	constexpr bool isnegative() const { return (v & PT::POSIT_SIGNBIT) != 0; }"),
 (F, "	constexpr PositF abs()  const { return v < 0 ? neg() : *this;  }", "	constexpr PositF abs()  const { return isnegative() ? -*this : *this;  }"),
 (A, "	constexpr anyfloat_emu neg()  const { return anyfloat_emu(DeepInit(),v ^ trait_t::signbit); }; ", "	constexpr anyfloat_emu neg()  const { return anyfloat_emu(DeepInit(),(v & trait_t::signbit) != 0 ? v & ~trait_t::signbit : v | trait_t::signbit); }; "),
 (A, "        return a.iszero() ? b : b.iszero() ? a: anyfloat_emu((FFT)a+(FFT)b);", "        return a.v == 0 ? b : b.v == 0 ? a : anyfloat_emu(static_cast<FFT>(a)+static_cast<FFT>(b));"),
 (A, "	anyfloat_emu& operator+=(const anyfloat_emu &a) { anyfloat_emu r = *this+a; v = r.v; return *this; }", "	anyfloat_emu& operator+=(const anyfloat_emu &a) { *this = *this+a; return *this; }"),
 (N, "    return float16n_t(Unpacked<uint32_t,int>::template make_float<single_trait>(x).template pack_xfloati<half_trait>());", "    using U = Unpacked<uint32_t,int>;\n    const U u(x);\n    return float16n_t(u.template pack_xfloati<half_trait>());"),
 (N, "	friend float16n32 operator- (float16n32 a, float16n32 b)  { return float16n32((impl_t)a-(impl_t)b); }", "	friend float16n32 operator- (float16n32 a, float16n32 b)  { return a + (-b); }"),
 (N, "	friend bool operator > (float16n32 a, float16n32 b)  { return ((impl_t)a>(impl_t)b); }", "	friend bool operator > (float16n32 a, float16n32 b)  { return b < a; }"),
 (R, "     nan_h = bitmask<holder_t>(exp_bits+1) << (frac_bits-1), // 0 1[e] 1 0[f-1]", "     nan_h = pinfinity_h | (((holder_t)(1)) << (frac_bits-1)), // 0 1[e] 1 0[f-1]"),
 (R, "     one_h = bitmask<holder_t>(exp_bits-1) << (frac_bits), // 0 0 1[e-1] 0[f]", "     one_h = ((holder_t)exponent_bias) << (frac_bits), // 0 0 1[e-1] 0[f]"),
]
