"""Specification of the posit format and of the library's arithmetic, written over the
abstract domain (independent of the code: only the format definition is used)."""
import dom
from dom import mk, bits_of, mask, Fork
from wit import REG, INF, NAN, ZERO


def const_or_fork(x, w):
    """constant value of x in this partition; splits on an input bit if it is not one"""
    if type(x) is int:
        return x
    l = dom.to_lin(x, w)
    cand = []
    for k, c in l[1]:
        for b in reversed(k):
            if b >= 2:
                cand.append(b)
    for b in cand:
        if dom.is_input(b >> 1):
            raise Fork(b & ~1)
    for b in reversed(x.bits):
        if b >= 2:
            raise Fork(b & ~1)
    raise Fork(cand[0])


class Num:
    """kind, sign (0/1), exponent (64-bit word), fraction (word of W bits, left aligned, hidden one implicit)"""
    __slots__ = ('t', 'n', 'e', 'f', 'W')

    def __init__(self, t, n=0, e=0, f=0, W=64):
        self.t, self.n, self.e, self.f, self.W = t, n, e, f, W

    def recast(self, W2):
        """fraction left aligned in W2 bits (truncated when narrower)"""
        if self.t != REG or W2 == self.W:
            return Num(self.t, self.n, self.e, self.f, W2)
        b = bits_of(self.f, self.W)
        if W2 < self.W:
            nb = b[self.W - W2:]
        else:
            nb = (0,) * (W2 - self.W) + b
        return Num(self.t, self.n, self.e, mk(W2, nb), W2)


def lit(x):
    """0/1 of a truth literal, splitting when open"""
    if x >= 2:
        raise Fork(x)
    return x


# ---------------------------------------------------------------- posit patterns
class Pat:
    """a partition cell of patterns of configuration cfg"""
    def __init__(self, cfg, kind, neg=0, r=0, name='m', e=None, fz=False):
        self.cfg, self.kind, self.neg, self.r, self.name, self.e, self.fz = cfg, kind, neg, r, name, e, fz

    def __repr__(self):
        if self.kind == 'reg':
            return '%s%s regime %d%s' % (self.name, '-' if self.neg else '+', self.r, '' if self.e is None else ' exp %d' % self.e if type(self.e) is int else ' exp ...' + ''.join('x' if (self.e[1] >> i) & 1 else str((self.e[0] >> i) & 1) for i in range(self.cfg.es - 1, -1, -1)))
        return '%s %s' % (self.name, self.kind)

    def layout(self):
        c = self.cfg
        N = c.N
        k = self.r + 1 if self.r >= 0 else -self.r
        b = 1 if self.r >= 0 else 0
        body = ([b] * k + [1 - b])[:N - 1]
        rest = N - 1 - len(body)
        ne = min(c.es, rest)
        nf = rest - ne
        eb = [dom.inbit(self.name + 'e', i) for i in range(ne - 1, -1, -1)]
        if self.e is not None:
            v, sy = self.e if type(self.e) is tuple else (self.e, 0)
            eb = [eb[i] if (sy >> (c.es - 1 - i)) & 1 else (v >> (c.es - 1 - i)) & 1 for i in range(ne)]
        fb = [0 if self.fz else dom.inbit(self.name, i) for i in range(nf - 1, -1, -1)]
        return body, eb, fb

    def word(self):
        """H-bit storage word"""
        c = self.cfg
        if self.kind == 'zero':
            return 0
        if self.kind == 'top':
            return mask(c.H) ^ mask(c.N - 1)
        if self.kind == 'pinf':
            return mask(c.N - 1)
        if self.kind == 'ninf':
            return (-mask(c.N - 1)) & mask(c.H)
        if self.kind == 'any':
            return dom.sext(mk(c.N, [dom.inbit(self.name, i) for i in range(c.N)]), c.N, c.H)
        body, eb, fb = self.layout()
        bits = list(reversed(body + eb + fb)) + [0]
        m = mk(c.N, bits)
        m = dom.zext(m, c.N, c.H) if c.H > c.N else m
        return dom.neg(m, c.H) if self.neg else m

    def num(self):
        """the number the format assigns (fraction in H bits)"""
        c = self.cfg
        if self.kind == 'zero':
            return Num(ZERO, W=c.H)
        if self.kind == 'top':
            return Num(NAN, W=c.H) if c.nan else Num(INF, 1, W=c.H)
        if self.kind == 'pinf':
            return Num(INF, 0, W=c.H)
        if self.kind == 'ninf':
            return Num(INF, 1, W=c.H)
        body, eb, fb = self.layout()
        ebits = list(eb) + [0] * (c.es - len(eb))
        e = list(reversed(ebits))
        base = (self.r << c.es) & mask(64)
        ew = mk(64, [e[i] if i < c.es else (base >> i) & 1 for i in range(64)])
        f = list(reversed(fb))
        fw = mk(c.H, [0] * (c.H - len(f)) + f)
        return Num(REG, self.neg, ew, fw, c.H)

    def parts(self):
        """regime, exponent bits, fraction of the pattern"""
        c = self.cfg
        body, eb, fb = self.layout()
        ebits = list(eb) + [0] * (c.es - len(eb))
        e = list(reversed(ebits))
        f = list(reversed(fb))
        return self.r, mk(64, e + [0] * (64 - c.es)), mk(c.H, [0] * (c.H - len(f)) + f)


CACHE = {}


def patterns(cfg, name='m', exps=False, regs=None, fz=False):
    """partition of all patterns of cfg; exps='some': with wide exponent fields a choice of exponents only;
    exps=((a, b), ...): exponents in these ranges one by one, the others in aligned blocks"""
    k = (repr(cfg), cfg.F, name, exps, fz, tuple(regs) if regs is not None else None)
    if k not in CACHE:
        CACHE[k] = patterns_(cfg, name, exps, regs, fz)
    return list(CACHE[k])


def patterns_(cfg, name, exps, regs, fz):
    out = [Pat(cfg, 'zero', name=name), Pat(cfg, 'top', name=name)]
    if cfg.both:
        out += [Pat(cfg, 'pinf', name=name), Pat(cfg, 'ninf', name=name)]
    for r in range(cfg.minreg, cfg.maxreg + 1):
        if regs is not None and r not in regs:
            continue
        k = r + 1 if r >= 0 else -r
        rest = max(0, cfg.N - 1 - min(k + 1, cfg.N - 1))
        ne = min(cfg.es, rest)
        es = [None]
        if type(exps) is tuple:
            es = dyadic((r << cfg.es), cfg.es, cfg.es - ne, exps)
        elif exps:
            es = [x << (cfg.es - ne) for x in range(1 << ne)]
            if ne > 6 and exps == 'some':
                es = [x << (cfg.es - ne) for x in sorted({0, 1, 2, mask(ne), mask(ne) - 1, 1 << (ne - 1), mask(ne - 1), 0x55555555 & mask(ne)})]
            elif ne > 6:
                # by the lowest one and the lowest zero, which is where a step up or down stops; higher bits symbolic
                es = []
                for b in (0, 1):
                    full = mask(ne) if b else 0
                    es.append(full << (cfg.es - ne))
                    for k in range(1, ne):
                        low = mask(k) if b else 1 << k
                        es.append((low << (cfg.es - ne), (mask(ne) ^ mask(k + 1)) << (cfg.es - ne)))
        for e in es:
            for n in (0, 1):
                out.append(Pat(cfg, 'reg', n, r, name, e, fz))
    return out


def dyadic(base, es, zeros, singles):
    """exponents of a regime as aligned blocks (value, mask of symbolic low bits) that avoid the exponents to be taken one by one"""
    out = []

    def go(v, w):
        lo, hi = base + v, base + v + mask(w)
        if w == zeros or not any(a <= hi and lo <= b for a, b in singles):
            m = mask(w) ^ mask(zeros)
            out.append((v, m) if m else v)
        else:
            go(v, w - 1)
            go(v | 1 << (w - 1), w - 1)
    go(0, es)
    return out


def special_word(cfg, x):
    """storage word of a special number"""
    H, N = cfg.H, cfg.N
    top = mask(H) ^ mask(N - 1)
    if x.t == ZERO:
        return 0
    if x.t == NAN:
        return top
    if not cfg.both:
        return top
    return (-mask(N - 1)) & mask(H) if x.n else mask(N - 1)


def encode(cfg, x):
    """storage word (H bits): truncation of the bit string, saturation at both ends"""
    if x.t != REG:
        return special_word(cfg, x)
    H, N, es = cfg.H, cfg.N, cfg.es
    q = dom.ashr(x.e, es, 64)
    # saturation decided on the whole exponent
    if lit(dom.slt(x.e, cfg.minexp & mask(64), 64)):
        m = 1
    elif lit(dom.slt(cfg.maxexp & mask(64), x.e, 64)):
        m = encode_mag(cfg, cfg.maxexp, 0, None)
        m = mask(N - 1) - (1 if cfg.both else 0)
    else:
        if type(q) is not int:
            q = const_or_fork(q, 64)
        r = dom.sgn(q, 64)
        eb = list(reversed(bits_of(x.e, 64)[:es]))
        m = encode_bits(cfg, r, eb, list(reversed(bits_of(x.f, x.W))))
    m = dom.zext(m, N, H) if H > N else m
    if type(x.n) is not int:
        raise Fork(x.n.bits[0])
    return dom.neg(m, H) if x.n else m


def encode_mag(cfg, e, f, W):
    return None


def encode_bits(cfg, r, eb, fb):
    """N-bit magnitude of regime r, exponent bits (msb first), fraction bits (msb first)"""
    N = cfg.N
    k = r + 1 if r >= 0 else -r
    b = 1 if r >= 0 else 0
    s = [b] * k + [1 - b] + list(eb) + list(fb) + [0] * N
    s = s[:N - 1]
    return mk(N, list(reversed(s)) + [0])


def sext_word(x, cfg):
    """64-bit value of a storage word"""
    return dom.sext(x, cfg.H, 64) if cfg.H < 64 else x


# ---------------------------------------------------------------- arithmetic on numbers
def sig(x):
    """significand 1.f in W bits (last fraction bit dropped)"""
    b = bits_of(x.f, x.W)
    return mk(x.W, b[1:] + (1,))


def add64(a, b):
    return dom.add(a, b, 64)


def mul(a, b):
    W = a.W
    if a.t == NAN or b.t == NAN:
        return Num(NAN, W=W)
    s = a.n ^ b.n
    if a.t == REG and b.t == REG:
        p = dom.mul(dom.zext(sig(a), W, 2 * W), dom.zext(sig(b), W, 2 * W), 2 * W)
        hi = mk(W, bits_of(p, 2 * W)[W:])
        top = lit(bits_of(hi, W)[W - 1])
        e = add64(a.e, b.e)
        if top:
            return Num(REG, s, add64(e, 1), dom.shl(hi, 1, W), W)
        return Num(REG, s, e, dom.shl(hi, 2, W) if W > 2 else 0, W)
    if a.t == INF or b.t == INF:
        if a.t == ZERO or b.t == ZERO:
            return Num(NAN, W=W)
        return Num(INF, s, W=W)
    return Num(ZERO, W=W)


def quot(sa, sb, W):
    """floor(sa * 2^W / sb) modulo 2^W and whether sa < sb"""
    less = lit(dom.ult(sa, sb, W))
    d = dom.lshr(sb, 1, W) if less else sb
    n = dom.shl(dom.zext(sa, W, 2 * W), W, 2 * W)
    q = dom.udiv(n, dom.zext(d, W, 2 * W), 2 * W)
    return less, dom.trunc(q, 2 * W, W)


def div(a, b):
    W = a.W
    if a.t == NAN or b.t == NAN:
        return Num(NAN, W=W)
    s = a.n ^ b.n
    if a.t == REG and b.t == REG:
        less, q = quot(sig(a), sig(b), W)
        e = dom.sub(a.e, b.e, 64)
        return Num(REG, s, add64(e, mask(64)) if less else e, q, W)
    if a.t == b.t:
        return Num(NAN, W=W)
    if b.t == INF or a.t == ZERO:
        return Num(ZERO, W=W)
    if b.t == ZERO:
        return Num(INF, a.n, W=W)
    return Num(INF, s, W=W)


def inv(a):
    W = a.W
    if a.t == NAN:
        return Num(NAN, W=W)
    if a.t == INF:
        return Num(ZERO, W=W)
    if a.t == ZERO:
        return Num(INF, 0, W=W)
    if lit(dom.eq(a.f, 0, W)):
        return Num(REG, a.n, dom.neg(a.e, 64), 0, W)
    less, q = quot(1 << (W - 1), sig(a), W)
    e = dom.neg(a.e, 64)
    return Num(REG, a.n, add64(e, mask(64)) if less else e, q, W)


def neg(a):
    if a.t in (NAN, ZERO):
        return a
    return Num(a.t, a.n ^ 1, a.e, a.f, a.W)


def add(a, b):
    W = a.W
    if a.t == NAN or b.t == NAN:
        return Num(NAN, W=W)
    if a.t == INF or b.t == INF:
        if a.t == INF and b.t == INF:
            return Num(INF, a.n, W=W) if a.n == b.n else Num(NAN, W=W)
        return Num(INF, a.n if a.t == INF else b.n, W=W)
    if a.t == ZERO:
        return b
    if b.t == ZERO:
        return a
    d = dom.sub(a.e, b.e, 64)
    if type(d) is not int:
        d = const_or_fork(d, 64)
    d = dom.sgn(d, 64)
    return add_at(a, b, d)


def add_at(a, b, d):
    """sum of two regular numbers, a.e - b.e == d"""
    W = a.W
    pa = mk(W, bits_of(a.f, W)[2:] + (1, 0))
    pb = mk(W, bits_of(b.f, W)[2:] + (1, 0))
    e = a.e if d >= 0 else b.e
    if d > 0:
        pb = dom.lshr(pb, d, W) if d < W else 0
    elif d < 0:
        pa = dom.lshr(pa, -d, W) if -d < W else 0
    if a.n == b.n:
        s, n = dom.add(pa, pb, W), a.n
    elif lit(dom.eq(pa, pb, W)):
        return Num(ZERO, W=W)
    elif lit(dom.ult(pb, pa, W)):
        s, n = dom.sub(pa, pb, W), a.n
    else:
        s, n = dom.sub(pb, pa, W), b.n
    k = 0
    b = bits_of(s, W)
    while k < W:
        if lit(b[W - 1 - k]):
            break
        k += 1
    if k == W:
        return Num(ZERO, W=W)
    f = dom.shl(dom.shl(s, k, W), 1, W)
    return Num(REG, n, dom.add(add64(e, 1), -k & mask(64), 64), f, W)


# ---------------------------------------------------------------- IEEE style formats
def unpack_float(x, eb, fb, denorm, W, E):
    """x: word of 1+eb+fb bits -> Num with fraction in W bits, exponent saturated to E bits"""
    n = 1 + eb + fb
    b = bits_of(x, n)
    f = b[:fb]
    ex = mk(eb, b[fb:fb + eb])
    s = lit(b[n - 1]) if b[n - 1] >= 2 else b[n - 1]
    bias = (1 << (eb - 1)) - 1
    fw = mk(fb, f)
    if lit(dom.eq(ex, mask(eb), eb)):
        return Num(INF, s, W=W) if lit(dom.eq(fw, 0, fb)) else Num(NAN, W=W)
    lo, hi = -(1 << (E - 1)), (1 << (E - 1)) - 1
    if lit(dom.eq(ex, 0, eb)):
        if not denorm or lit(dom.eq(fw, 0, fb)):
            return Num(ZERO, W=W)
        k = 0
        while not lit(f[fb - 1 - k]):
            k += 1
        e = -bias - k
        frac = (0,) * (k + 1) + f[:fb - 1 - k]
        e = max(lo, min(hi, e)) & mask(64)
    else:
        e = dom.add(dom.zext(ex, eb, 64), -bias & mask(64), 64)
        if 1 - bias < lo and lit(dom.slt(e, lo & mask(64), 64)):
            e = lo & mask(64)
        elif bias > hi and lit(dom.slt(hi, e, 64)):
            e = hi
        frac = f
    num = Num(REG, s, e, mk(fb, frac), fb)
    return num.recast(W)


def pack_float(x, eb, fb, denorm):
    """word of 1+eb+fb bits"""
    n = 1 + eb + fb
    bias = (1 << (eb - 1)) - 1
    sign = 1 << (n - 1)
    if x.t == ZERO:
        return 0
    if x.t == INF:
        return (mask(eb) << fb) | (sign if x.n else 0)
    if x.t == NAN:
        return mask(eb + 1) << (fb - 1)
    sg = sign if x.n else 0
    maxe = mask(eb) - 1 - bias
    if lit(dom.slt(maxe, x.e, 64)):
        return sg | ((mask(eb) - 1) << fb) | mask(fb)
    f = bits_of(x.recast(fb).f, fb)
    if lit(dom.slt(x.e, (1 - bias) & mask(64), 64)):
        if not denorm:
            return 0
        # 0.f : significand 1.f shifted right by 1-bias-e
        if lit(dom.slt(x.e, (1 - bias - fb) & mask(64), 64)):
            return 0
        e = x.e
        if type(e) is not int:
            e = const_or_fork(e, 64)
        k = 1 - bias - dom.sgn(e, 64)      # >= 1, <= fb
        s = f + (1,)                        # fb+1 bits
        m = s[k:] + (0,) * k
        m = m[:fb]
        return dom.or_(mk(n, m + (0,) * (n - fb)), sg, n)
    ex = dom.add(x.e, bias, 64)
    e = bits_of(ex, 64)[:eb]
    return mk(n, f + e + ((1 if x.n else 0),))


def unpack_fixed(x, T, N, F, W):
    """fixed point word of T bits (N total, F fraction bits) -> Num"""
    if lit(dom.eq(x, 0, T)):
        return Num(ZERO, W=W)
    s = lit(bits_of(x, T)[T - 1])
    m = dom.neg(x, T) if s else x
    b = bits_of(m, T)
    k = T - 1
    while not lit(b[k]):
        k -= 1
    frac = b[:k]
    num = Num(REG, s, (k - F) & mask(64), mk(T, (0,) * (T - k) + frac), T)
    return num.recast(W)


def pack_fixed(x, T, N, F):
    """T-bit word"""
    if x.t != REG:
        return 0
    if lit(dom.slt(N - F - 2, x.e, 64)):
        return (1 << (T - 1)) if x.n else mask(T - 1)
    if lit(dom.slt(x.e, -F & mask(64), 64)):
        return 0
    e = x.e
    if type(e) is not int:
        e = const_or_fork(e, 64)
    k = dom.sgn(e, 64) + F     # bit position of the leading one
    fb = bits_of(x.f, x.W)
    top = fb[::-1][:k] + (0,) * (k - min(k, x.W))
    m = mk(T, tuple(reversed(top)) + (1,) + (0,) * (T - k - 1))
    return dom.neg(m, T) if x.n else m
