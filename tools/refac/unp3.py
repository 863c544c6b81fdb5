P = 'include/unpacked.h'
EDITS = [
 (P, """      int k = findbitleftmostC(hfraction);
      unbiased -= k;
      hfraction <<= k;
      hfraction <<= 1;
""", """      while ((hfraction & Trait::signbit) == 0)
      {
        hfraction <<= 1;
        unbiased--;
      }
      hfraction <<= 1;
"""),
 (P, """  type = Regular;
  negativeSign =
      value & (((typename Trait::holder_t)1) << (Trait::data_bits - 1));
  int unbiased""", """  type = Regular;
  negativeSign = (value >> (Trait::data_bits - 1)) & 1;
  int unbiased"""),
 (P, """    negativeSign = nx < 0;
    UT x = nx < 0 ? UT(0) - UT(nx) : UT(nx);
    const int p = Trait::totalbits - findbitleftmostC(x) - 1; // 31->0,0->31
""", """    UT x = UT(nx);
    negativeSign = false;
    if (nx < 0)
    {
      negativeSign = true;
      x = UT(~x + 1);
    }
    int p = 0;
    for (UT y = x >> 1; y != 0; y >>= 1)
      p++;
"""),
 (P, """  largest_type<ET, int> fexp = exponent;
  // a magnitude beyond the largest float saturates before the bias is added
  // (the sum could overflow)
  if (fexp > Trait::exponent_max - Trait::exponent_bias)
    return negativeSign ? Trait::lowest_h : Trait::max_h;
  fexp += Trait::exponent_bias;
""", """  if (exponent > Trait::exponent_max - Trait::exponent_bias)
  {
    if (negativeSign)
      return Trait::lowest_h;
    return Trait::max_h;
  }
  const largest_type<ET, int> fexp = (largest_type<ET, int>)exponent + Trait::exponent_bias;
"""),
 (P, """  typename Trait::holder_t value =
      ffracbits | fexpbits | (negativeSign ? Trait::signbit : 0);

  // underflow gives the unsigned zero
  return (ffracbits | fexpbits) == 0 ? 0 : value;
""", """  typename Trait::holder_t value = fexpbits + ffracbits;
  if (value != 0 && negativeSign)
    value += Trait::signbit;
  return value;
"""),
 (P, """    ST r = (ST(1) << (exponent + Trait::fraction_bits)) |
           (exponent == -Trait::fraction_bits ? 0 : (ST)(f >> (intbits - exponent)));
    return negativeSign ? -r : r;
""", """    const int pos = exponent + Trait::fraction_bits;
    ST r = 0;
    if (pos > 0)
      r = (ST)(f >> (Trait::totalbits - pos));
    r = r | (ST)(ST(1) << pos);
    if (!negativeSign)
      return r;
    return -r;
"""),
]
