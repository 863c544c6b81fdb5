P = 'include/posit.h'
EDITS = [
 (P, """        int aindex = x ? (~pars == 0 ? POSIT_MAXREGIME_BITS : findbitleftmostC((POSIT_UTYPE)~pars)) : (pars == 0 ? POSIT_MAXREGIME_BITS : findbitleftmostC((POSIT_UTYPE)pars)); // index is LAST with !x
        int index = aindex; // aindex > POSIT_SIZE  ? POSIT_SIZE : aindex;
        int reg = x ? index-1 : -index;
        int rs =  (int)POSIT_MAXREGIME_BITS < index+1 ? POSIT_MAXREGIME_BITS : index+1; //std::min((int)POSIT_MAXREGIME_BITS,index+1);
""", """        // length of the run of equal bits
        POSIT_UTYPE run = x ? POSIT_UTYPE(~pars) : POSIT_UTYPE(pars);
        int index = 0;
        while(index < (int)POSIT_HOLDER_SIZE && (run & POSIT_HOLDER_MSB) == 0)
        {
        	run <<= 1;
        	index++;
        }
        if(index == (int)POSIT_HOLDER_SIZE)
        	index = POSIT_MAXREGIME_BITS;
        int reg = x ? index-1 : -index;
        int rs = index+1;
        if(rs > (int)POSIT_MAXREGIME_BITS)
        	rs = POSIT_MAXREGIME_BITS;
"""),
 (P, """		if(q.exp == 0)
		{
			q.regime--; // will it undrflow?
			q.exp = PT::POSIT_REG_SCALE-1; // maximum exponent
		}
		else
		{
			q.exp--;
		}
		return pack_low(q);
""", """		UnpackedT u = unpacked_low2full(q);
		auto rr = PT::split_reg_exp(u.exponent-1);
		return pack_low(UnpackedLow(q.negativeSign,rr.first,rr.second,q.fraction));
"""),
 (P, """		if(q.exp == PT::POSIT_REG_SCALE-1)
		{
			q.regime++; // will it overflo??
			q.exp = 0; // maximum exponent
		}
		else
		{
			q.exp++;
		}
		return pack_low(q);
""", """		const bool carry = q.exp == PT::POSIT_REG_SCALE-1;
		q.regime = q.regime + (carry ? 1 : 0);
		q.exp = carry ? 0 : q.exp+1;
		return pack_low(q);
"""),
 (P, """    	return (((exponenttype)reg) * (1<<POSIT_ESP_SIZE))|exp;
""", """    	return ((exponenttype)reg) * POSIT_REG_SCALE + (exponenttype)exp;
"""),
 (P, """		auto eexponent = clamp<decltype(x.exponent)>(x.exponent,PT::minexponent(),PT::maxexponent()); // no overflow
""", """		auto eexponent = x.exponent;
		if(eexponent > PT::maxexponent())
			eexponent = PT::maxexponent();
		else if(eexponent < PT::minexponent())
			eexponent = PT::minexponent();
"""),
]
