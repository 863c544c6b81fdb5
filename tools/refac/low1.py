P = 'include/posit.h'
EDITS = [
 (P, "        T pa = negativeSign ? -v : v;\n", "        T pa = magnitude(v);\n"),
 (P, "\tCONSTEXPR14 Posit half() const;\n\tCONSTEXPR14 Posit twice() const;\n", """\tCONSTEXPR14 Posit half() const;
\tCONSTEXPR14 Posit twice() const;
\tstatic CONSTEXPR14 T magnitude(T x) { return x < 0 ? T(-x) : x; }
\t/// code of a non regular value
\tstatic CONSTEXPR14 Posit special(typename UnpackedT::Type t, bool negative)
\t{
\t\tif(t == UnpackedT::Zero)
\t\t\treturn zero();
\t\tif(t == UnpackedT::NaN)
\t\t\treturn positspec == PositSpec::WithInf ? pinf() : nan();
\t\tif(positspec == PositSpec::WithNan)
\t\t\treturn nan();
\t\treturn negative ? ninf() : pinf();
\t}
"""),
 (P, """    switch(x.type)
	{
		case UnpackedT::Infinity:
			// if infinity is missing return nan
			return positspec != PositSpec::WithNan ? (x.negativeSign ? PP::ninf(): PP::pinf()): PP::nan();
		case UnpackedT::Zero:
			return PP(typename PP::DeepInit(),0);
		case UnpackedT::NaN:
			// if nan is missing return infinity
			return positspec != PositSpec::WithInf ? PP::nan() : PP::pinf();
		default:
			break;
	}
""", """    if(x.type != UnpackedT::Regular)
		return special(x.type, x.negativeSign);
"""),
 (P, """    auto rs = -reg+1 > reg+2 ? -reg+1:reg+2; //std::max(-reg + 1, reg + 2);  MSVC issue
    auto es = (totalbits-rs-1) < esbits ? (totalbits-rs-1): esbits; //std::min((int)(totalbits-rs-1),(int)esbits);  MSVC issue
    

    POSIT_UTYPE regbits = reg < 0 ? (PT::POSIT_HOLDER_MSB >> -reg) : (PT::POSIT_MASK << (PT::POSIT_HOLDER_SIZE-(reg+1))); // reg+1 bits on the left
""", """    int rs = reg < 0 ? 1-reg : 2+reg;
    int es = esbits;
    if(rs+1+es > totalbits)
    	es = totalbits-1-rs;
    POSIT_UTYPE regbits = 0;
    if(reg < 0)
    	regbits = PT::POSIT_HOLDER_MSB >> -reg;
    else
    	for(int i = 0; i <= reg; i++)
    		regbits |= POSIT_UTYPE(PT::POSIT_HOLDER_MSB >> i);
"""),
]
