P = 'include/unpacked.h'
EDITS = [
 (P, """      auto frac = nextintop<FT>::extramul(afrac,bfrac) >> FT_bits;
#ifdef FPGAHLS
#pragma HLS RESOURCE variable = frac core = Mul_LUT
#endif
      bool q = (frac & FT_leftmost_bit) == 0;
      auto rfrac = q ? (frac << 1) : frac;
      auto exp = a.exponent + b.exponent + (q ? 0 : 1);
""", """      FT frac = nextintop<FT>::extramul(afrac,bfrac) >> FT_bits;
      FT rfrac = frac;
      ET exp = a.exponent + b.exponent;
      if ((frac & FT_leftmost_bit) != 0)
        exp++;
      else
        rfrac = FT(frac << 1);
"""),
 (P, """      POSIT_LUTYPE afrac = FT_leftmost_bit | (a.fraction >> 1);
      POSIT_LUTYPE bfrac1 = FT_leftmost_bit | (b.fraction >> 1);
      auto exp = a.exponent - b.exponent + (afrac < bfrac1 ? -1 : 0);
      POSIT_LUTYPE bfrac = afrac < bfrac1 ? (bfrac1 >> 1) : bfrac1;
""", """      POSIT_LUTYPE afrac = a.significand();
      POSIT_LUTYPE bfrac = b.significand();
      ET exp = a.exponent - b.exponent;
      if (bfrac > afrac)
      {
        exp -= 1;
        bfrac = bfrac / 2;
      }
"""),
 (P, """  // assume regular
  CONSTEXPR14 Unpacked normalized() const
""", """  // hidden one on top of the fraction
  constexpr FT significand() const { return FT(FT_leftmost_bit | (fraction >> 1)); }

  // assume regular
  CONSTEXPR14 Unpacked normalized() const
"""),
 (P, """        auto exp = -exponent;

        if (afrac < bfrac)
        {
          exp--;
          bfrac >>= 1;
        }

        return Unpacked(exp, nextintop<FT>::extradiv(((typename nextinttype<FT>::type)afrac) << FT_bits,bfrac),
            negativeSign);
""", """        (void)afrac;
        (void)bfrac;
        return one() / (*this);
"""),
 (P, """    // UnpackedDualSel(*,NaN)
    // UnpackedDualSel(NaN,*)
    if (a.isNaN() || b.isNaN())
      return nan();
    switch""", """    if (a.isNaN())
      return nan();
    if (b.isNaN())
      return nan();
    switch"""),
 (P, """    case UnpackedDualSel(Infinity, Zero):
    case UnpackedDualSel(Zero, Infinity):
      return nan();
    default: // case UnpackedDualSel(Infinity,Infinity):
      // inf inf or inf reg or reg inf
      return (a.negativeSign ^ b.negativeSign) ? ninfinity() : pinfinity();
    }
""", """    default:
      if (a.isZero() || b.isZero())
        return nan();
      return Unpacked(Infinity, a.negativeSign != b.negativeSign);
    }
"""),
 (P, """    return type == NaN || u.type == NaN
               ? false
               : negativeSign == u.negativeSign && type == u.type &&
                     (type == Regular
                          ? (exponent == u.exponent && fraction == u.fraction)
                          : true);
""", """    return type != NaN && type == u.type && negativeSign == u.negativeSign &&
           (type != Regular || (exponent == u.exponent && fraction == u.fraction));
"""),
]
