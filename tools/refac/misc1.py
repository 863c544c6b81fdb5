P = 'include/posit.h'
EDITS = [
 (P, "{ return withnan && (a.isNaN()||u.isNaN())?false :a.v > u.v; }", "{ return u < a; }"),
 (P, "{ return withnan && (a.isNaN()||u.isNaN())?false :a.v >= u.v; }", "{ return u <= a; }"),
 (P, "{ return withnan && (a.isNaN()||u.isNaN())?false :a.v < u.v;; }", "{ return !(withnan && a.isNaN()) && !(withnan && u.isNaN()) && u.v > a.v; }"),
 (P, """	    	auto v0 = (Posit(*begin1++)).unpack()*(Posit(*begin2++)).unpack(); // first
	    	for(int i = 1; i < N; i++)
		    	v0 += (Posit(*begin1++)).unpack()*(Posit(*begin2++)).unpack();
	    	return Posit(v0);
""", """	    	UnpackedT acc = Posit(*begin1).unpack()*Posit(*begin2).unpack();
	    	++begin1;
	    	++begin2;
	    	while(--N > 0)
	    	{
	    		UnpackedT x = Posit(*begin1).unpack();
	    		UnpackedT y = Posit(*begin2).unpack();
	    		acc = acc + x*y;
	    		++begin1;
	    		++begin2;
	    	}
	    	return pack_posit<T,totalbits,esbits,FT,positspec>(acc);
"""),
 (P, "	constexpr Posit prev() const { return Posit(DeepInit(),v > PT::POSIT_MAXPOS || v <= PT::POSIT_MINNEG ? v : v-1); }\n",
     "	constexpr Posit prev() const { return v <= PT::POSIT_MAXPOS && v > PT::POSIT_MINNEG ? Posit(DeepInit(),v-1) : *this; }\n"),
 (P, "	constexpr Posit abs()  const { return v < 0 ? neg() : *this;  }", "	constexpr Posit abs()  const { return isnegative() ? -*this : *this;  }"),
 (P, "	constexpr Posit neg()  const { return Posit(DeepInit(),v == PT::_POSIT_TOP ? v : -v); }; ", "	constexpr Posit neg()  const { return v == PT::_POSIT_TOP ? *this : Posit(DeepInit(),T(~v)+1); }; "),
 (P, "	Posit& operator+=(const Posit &a) { Posit r = *this+a; v = r.v; return *this; }", "	Posit& operator+=(const Posit &a) { return *this = *this+a; }"),
 (P, "		*this = pack_posit<T,totalbits,esbits,FT,positspec>(unpack()*b.unpack());\n		return *this;", "		UnpackedT p = unpack();\n		p = p*b.unpack();\n		v = Posit(p).v;\n		return *this;"),
 (P, """	auto af = ons.flags();
	auto f = af & std::ios::basefield;
	ons.setf(std::ios::dec, std::ios::basefield);
	if(f == std::ios::hex)
	{
		ons << typename printableinttype<T>::type(o.v);
	}
	else if(f == std::ios::dec)
	{
		ons << (float)o;
	}
	else if(f == std::ios::oct)
	{
		ons << o.unpack();
	}	
	// reset
	ons.setf(af & std::ios::basefield, std::ios::basefield);
""", """	const std::ios_base::fmtflags before = ons.flags();
	ons << std::dec;
	switch(before & std::ios::basefield)
	{
		case std::ios::hex:
			ons << typename printableinttype<T>::type(o.v);
			break;
		case std::ios::dec:
		{
			float f = o;
			ons << f;
			break;
		}
		case std::ios::oct:
			ons << o.unpack();
			break;
		default:
			break;
	}
	ons.flags(before);
"""),
 (P, "        return a.iszero() ? b : b.iszero() ? a: pack_posit<T,totalbits,esbits,FT,positspec>(a.unpack()+b.unpack());",
     "        if(b.iszero()) return a;\n        if(a.iszero()) return b;\n        return Posit(a.unpack()+b.unpack());"),
 (P, """		if(u.exp == 0)
			u.regime = -u.regime;
		else
		{
			u.regime = -(u.regime+1);
			u.exp = PT::POSIT_REG_SCALE-u.exp; // NOP if esbits == 0
		}
		return pack_low(u);
	}
	else
	{
		return pack_posit< T,totalbits,esbits,FT,positspec> (unpacked_low2full(u).inv());
	}
""", """		u.regime = u.exp == 0 ? -u.regime : -u.regime-1;
		if(u.exp != 0)
			u.exp = PT::POSIT_REG_SCALE-u.exp;
		return pack_low(u);
	}
	return Posit(unpacked_low2full(u).inv());
"""),
]
