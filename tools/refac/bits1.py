P = 'include/bithippop.hpp'
A = 'include/anyfloat.hpp'
F = 'include/positf.h'
EDITS = [
 (P, "	return __builtin_clz((uint32_t)input) - 16;", "	int n = 0;\n	for(uint16_t m = 0x8000; m != 0 && (input & m) == 0; m >>= 1)\n		n++;\n	return n;"),
 (P, "	return __builtin_clz((uint32_t)input) - 24;", "	return findbitleftmostC((uint32_t)(((uint32_t)input) << 24));"),
 (P, "	return (v >> 32 != 0 ? __builtin_clz(v >> 32) : 32 + __builtin_clz(v));", "	return __builtin_clzll(v);"),
 (P, "	return onecount == 0 ? static_cast<R>(0) : static_cast<R>(static_cast<R>(-1) >> ((sizeof(R) * 8) - onecount));", "	return onecount >= sizeof(R)*8 ? static_cast<R>(-1) : static_cast<R>((static_cast<R>(1) << onecount) - 1);"),
 (A, "v & ~trait_t::signbit);  }", "(v | trait_t::signbit) ^ trait_t::signbit);  }"),
 (A, "{ return (FFT)a  > (FFT)u; }", "{ return u < a; }"),
 (A, "		*this = anyfloat_emu((FFT)*this *(FFT)b);\n		return *this;", "		return *this = *this * b;"),
 (F, "		*this = PositF((FFT)*this *(FFT)b);\n		return *this;", "		*this = *this * b;\n		return *this;"),
 (F, "{ return pack_posit(UnpackedT((FFT)a/(FFT)b)); }", "{ const FFT q = (FFT)a/(FFT)b; return PositF(q); }"),
 (F, "	PositF twice() const { return PositF(2*(FFT)unpack()); }", "	PositF twice() const { FFT x = unpack(); return PositF(x*2); }"),
]
