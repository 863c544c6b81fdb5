T8 = 'include/posit8.hpp'
T10 = 'include/posit10.hpp'
T12 = 'include/posit12.hpp'
B = 'include/binary8.hpp'
def cmpf(c):
    return [
 (T10, "	friend bool operator<(const posit10 &a, const posit10 & b) { return a.v < b.v; }\n", "	friend bool operator<(const posit10 &a, const posit10 & b) { return b.v > a.v; }\n"),
 (T10, "	friend bool operator!=(const posit10 &a, const posit10 & b) { return a.v !=b.v; }\n", "	friend bool operator!=(const posit10 &a, const posit10 & b) { return !(a == b); }\n"),
]
EDITS = cmpf(0) + [
 (T10, "	posit10& operator+=(const posit10 &a) { posit10 r = *this+a; v = r.v; return *this; }", "	posit10& operator+=(const posit10 &a) { v = (*this+a).v; return *this; }"),
 (T10, "	unsigned int uu() const { return ((unsigned int)(uint16_t)v) & 0x03FF;}", "	unsigned int uu() const { return (unsigned int)(v & ((1 << vtotalbits) - 1)); }\n	static unsigned int cell(const posit10 & a, const posit10 & b) { return (a.uu() << vtotalbits) + b.uu(); }"),
 (T10, """	friend posit10 operator+(const posit10 &a, const posit10 & b) { return posit10(DeepInit(),posit10ns::opadd[a.uu()*1024+b.uu()]); }
	friend posit10 operator*(const posit10 &a, const posit10 & b) { return posit10(DeepInit(),posit10ns::opmul[a.uu()*1024+b.uu()]); }
	friend posit10 operator-(const posit10 &a, const posit10 & b) { return a+(-b); }
	friend posit10 operator/(const posit10 &a, const posit10 & b) { return posit10(DeepInit(),posit10ns::opdiv[a.uu()*1024+b.uu()]); }
#endif""", """	friend posit10 operator+(const posit10 &a, const posit10 & b) { return posit10(DeepInit(),posit10ns::opadd[cell(a,b)]); }
	friend posit10 operator*(const posit10 &a, const posit10 & b) { return posit10(DeepInit(),posit10ns::opmul[cell(a,b)]); }
	friend posit10 operator-(const posit10 &a, const posit10 & b) { const posit10 n = -b; return posit10(DeepInit(),posit10ns::opadd[cell(a,n)]); }
	friend posit10 operator/(const posit10 &a, const posit10 & b) { return posit10(DeepInit(),posit10ns::opdiv[cell(a,b)]); }
#endif"""),
 ('src/posit10.cpp', """posit10::posit10(float a)
{
	if(a == 0)
		v = 0;
	else if(a == 1)
		v = 0x100;
	else 
		v = FPT(a).v;
}
""", """posit10::posit10(float a) : v(FPT(a).v)
{
}
"""),
 ('src/posit12.cpp', "	return (posit12)(as_posit()*(FPT)2);", "	const FPT two(2);\n	return posit12(FPT(two*as_posit()));"),
 ('src/binary8.cpp', "binary8tab::binary8tab(int a) : v(binary8tab_generic(a).v)\n{\n}\n", "binary8tab::binary8tab(int a)\n{\n	binary8tab_generic g(a);\n	v = g.v;\n}\n"),
 (B, "	friend bool operator!=(binary8tab a, binary8tab b) { return (float)a != (float)b; }", "	friend bool operator!=(binary8tab a, binary8tab b) { return !(a == b); }"),
 (B, "	binary8tab operator-() const { return binary8tab(DeepInit(),(int8_t)(v ^ 0x80));  }", "	binary8tab operator-() const { binary8tab r(*this); r.v = (int8_t)(uu() ^ 0x80u); return r; }"),
 (B, "		return binary8tab(binary8tab::DeepInit(),z.v & 0x7F);", "		return z.v < 0 ? -z : z;"),
 (B, '	ons << "binary8tab(" << p.uu() << ")" ;\n	return ons;', '	return ons << "binary8tab(" << (int)(uint8_t)p.v << \')\';'),
]
