P = 'include/unpacked.h'
EDITS = [
 (P, """      auto dir = a.exponent - b.exponent;
      const ET exp = (dir < 0 ? b.exponent : a.exponent) + 1;
""", """      // the operand with the larger exponent first
      if (a.exponent < b.exponent)
      {
        Unpacked t = a;
        a = b;
        b = t;
      }
      auto dir = a.exponent - b.exponent;
      const ET exp = a.exponent + 1;
"""),
 (P, """      POSIT_LUTYPE afrac = dir < 0
                               ? (dir <= -FT_bits ? 0 : afrac1 >> -dir)
                               : afrac1; // denormalized and shifted right
      POSIT_LUTYPE bfrac = dir < 0 ? bfrac1 : (dir >= FT_bits ? 0 : bfrac1 >> dir);
""", """      POSIT_LUTYPE afrac = afrac1;
      POSIT_LUTYPE bfrac = 0;
      if (dir < FT_bits)
        bfrac = bfrac1 >> dir;
"""),
 (P, """      int mode =
          a.negativeSign == b.negativeSign ? 0 : afrac > bfrac ? 1 : -1;
      bool osign = mode >= 0 ? a.negativeSign : b.negativeSign;
      POSIT_LUTYPE frac = mode == 0
                              ? afrac + bfrac
                              : mode > 0 ? afrac - bfrac : bfrac - afrac;
      return Unpacked(exp, frac, osign).normalized(); // pass denormalized
""", """      if (a.negativeSign == b.negativeSign)
        return Unpacked(exp, afrac + bfrac, a.negativeSign).normalized();
      if (afrac > bfrac)
        return Unpacked(exp, afrac - bfrac, a.negativeSign).normalized();
      return Unpacked(exp, bfrac - afrac, b.negativeSign).normalized();
"""),
 (P, """      int k = findbitleftmostC(fraction);
      return Unpacked(exponent - k, (fraction << k) << 1, negativeSign);
""", """      FT f = fraction;
      ET e = exponent;
      while ((f & FT_leftmost_bit) == 0)
      {
        f <<= 1;
        e--;
      }
      return Unpacked(e, f << 1, negativeSign);
"""),
]
