"""Abstract domain: bit provenance x intervals x linear value numbering.

A value is a python int (a constant) or a BV: a tuple of literals, LSB first.
Literal 0/1 = known bit, -1 = uninitialised bit, otherwise 2*var(+1 = negated).
A var stands for a named input bit or for a bit of a hash-consed abstract
operation (sum, product, quotient, comparison, conjunction, table load ...).
Equality of literals therefore implies equality of the bits they abstract, for
every concretisation.  Nothing is solved: a value that the domain cannot
resolve stays an atom, and a branch on an atom splits the trace partition.
"""

import zlib

UNDEF = -1


class Fork(Exception):
    def __init__(self, lit):
        self.lit = lit


class Infeasible(Exception):
    pass


class TooDeep(Exception):
    pass


# ------------------------------------------------------------------ variables
VARS = [None]          # var id -> descriptor
VKEY = {}              # descriptor -> var id
ALLOF = {}             # var id -> tuple(lits) for conjunction nodes
XOROF = {}             # var id -> (lit, lit)
ULTOF = {}             # var id -> (bitsA, bitsB)

KEYS = []              # interned operation keys
KID = {}
OPV = []               # key id -> var ids of its bits
SUPPORT = {}           # var id -> frozenset(input var ids)


class Ctx:
    """facts of the current partition cell"""
    def __init__(self):
        self.facts = {}        # var -> lit
        self.oplin = {}        # bits tuple -> lin (for non-trivial linear words)
        self.oprange = {}      # key id -> (lo, hi, width)
        self.ranges = {}       # bits tuple -> (lo, hi)
        self.falls = {}        # reduced tuple(lits) -> 0  (false conjunctions)
        self.events = []
        self.opaque_facts = 0  # facts on non-input vars
        self.constrained = set()


C = Ctx()


def reset_ctx():
    global C
    C = Ctx()
    return C


def save_ctx():
    return C


def restore_ctx(c):
    global C
    C = c


def newvar(desc):
    v = VKEY.get(desc)
    if v is None:
        v = len(VARS)
        VARS.append(desc)
        VKEY[desc] = v
    return v


def key_id(key):
    k = KID.get(key)
    if k is None:
        k = len(KEYS)
        KID[key] = k
        KEYS.append(key)
        OPV.append([])
    return k


def opbits(k, n):
    vs = OPV[k]
    while len(vs) < n:
        v = len(VARS)
        VARS.append(('op', k, len(vs)))
        vs.append(v)
    F = C.facts
    if F:
        out = []
        for v in vs[:n]:
            f = F.get(v)
            out.append(2 * v if f is None else f)
        return out
    return [2 * v for v in vs[:n]]


def is_input(v):
    return VARS[v][0] == 'in'


def lit_of(v):
    """literal of var v under the facts of the cell"""
    f = C.facts.get(v)
    if f is not None:
        return f
    return 2 * v


PIN = None      # point of the partition taken instead of the whole of it


class Pin(dict):
    def __init__(self, rng, mode):
        self.rng, self.mode = rng, mode

    def bit(self, name, i):
        k = (name, i)
        if k not in self:
            m = self.mode
            self[k] = m if m < 2 else self.rng.getrandbits(1) if m == 2 else int((self.rng.random() < .12) ^ (m == 4))
        return self[k]


def inbit(name, i):
    if PIN is not None:
        return PIN.bit(name, i)
    return lit_of(newvar(('in', name, i)))


def subst(l):
    if l < 2:
        return l
    f = C.facts.get(l >> 1)
    if f is None:
        return l
    return f ^ (l & 1)


def support(l):
    """input vars a literal depends on"""
    if l < 2:
        return frozenset()
    v = l >> 1
    s = SUPPORT.get(v)
    if s is not None:
        return s
    d = VARS[v]
    if d[0] == 'in':
        s = frozenset((v,))
    else:
        acc = set()
        stack = [KEYS[d[1]] if d[0] == 'op' else d]
        seen = set()
        while stack:
            x = stack.pop()
            if isinstance(x, tuple):
                if x and x[0] == 'BITS':
                    for b in x[1]:
                        if b >= 2 and (b >> 1) not in seen:
                            seen.add(b >> 1)
                            sv = SUPPORT.get(b >> 1)
                            if sv is not None:
                                acc |= sv
                            elif VARS[b >> 1][0] == 'in':
                                acc.add(b >> 1)
                            else:
                                dd = VARS[b >> 1]
                                stack.append(KEYS[dd[1]] if dd[0] == 'op' else dd)
                else:
                    stack.extend(y for y in x if isinstance(y, tuple))
        s = frozenset(acc)
    SUPPORT[v] = s
    return s


# ------------------------------------------------------------------ bit logic
def conj(lits):
    """literal of the conjunction of lits (n-ary, hash-consed)"""
    out = set()
    for l in lits:
        if l == 1:
            continue
        if l == 0:
            return 0
        if l == UNDEF:
            raise ValueError('undef in conj')
        if (l ^ 1) in out:
            return 0
        # flatten positive conjunctions
        if not (l & 1) and (l >> 1) in ALLOF:
            for k in ALLOF[l >> 1]:
                k = subst(k)
                if k == 1:
                    continue
                if k == 0 or (k ^ 1) in out:
                    return 0
                out.add(k)
            continue
        out.add(l)
    for l in out:
        if (l ^ 1) in out:
            return 0
    if not out:
        return 1
    if len(out) == 1:
        return next(iter(out))
    key = tuple(sorted(out))
    if key in C.falls:
        return 0
    v = newvar(('all', ('BITS', key)))
    ALLOF[v] = key
    return lit_of(v)


def land(a, b):
    if a == 0 or b == 0:
        return 0
    if a == 1:
        return b
    if b == 1:
        return a
    if a == b:
        return a
    if a == b ^ 1:
        return 0
    return conj((a, b))


def lor(a, b):
    return land(a ^ 1, b ^ 1) ^ 1


def lxor(a, b):
    if a < 2:
        return b ^ a
    if b < 2:
        return a ^ b
    if a == b:
        return 0
    if a == b ^ 1:
        return 1
    s = (a & 1) ^ (b & 1)
    a &= ~1
    b &= ~1
    if a > b:
        a, b = b, a
    v = newvar(('xor', ('BITS', (a, b))))
    XOROF[v] = (a, b)
    return lit_of(v) ^ s


# ------------------------------------------------------------------ words
class BV:
    __slots__ = ('w', 'bits', '_lin')

    def __init__(self, w, bits):
        self.w = w
        self.bits = bits
        self._lin = None

    def __repr__(self):
        return 'BV%d[%s]' % (self.w, ' '.join(show(b) for b in reversed(self.bits)))


def show(l):
    if l < 2:
        return {0: '0', 1: '1', -1: 'U'}[l]
    d = VARS[l >> 1]
    n = '~' if l & 1 else ''
    if d[0] == 'in':
        return '%s%s.%d' % (n, d[1], d[2])
    if d[0] == 'op':
        return '%s%s#%d.%d' % (n, KEYS[d[1]][0], d[1], d[2])
    return '%s%s#%d' % (n, d[0], (l >> 1))


def mk(w, bits):
    """bits: sequence of w literals"""
    for b in bits:
        if b != 0 and b != 1:
            return BV(w, tuple(bits))
    v = 0
    for i, b in enumerate(bits):
        if b:
            v |= 1 << i
    return v


def bits_of(x, w):
    if type(x) is int:
        return tuple([(x >> i) & 1 for i in range(w)])
    return x.bits


def has_undef(x):
    return type(x) is BV and UNDEF in x.bits


def mask(w):
    return (1 << w) - 1


def sgn(x, w):
    x &= mask(w)
    return x - (1 << w) if x >> (w - 1) else x


# -- linear forms: (const, ((atom, coef), ...)) ; atom = bits tuple w/o leading
#    zeros, interpreted as an unsigned integer; coefs centred modulo 2^w
def trim(bits):
    n = len(bits)
    while n and bits[n - 1] == 0:
        n -= 1
    return bits[:n]


def centre(c, w):
    c &= mask(w)
    return c - (1 << w) if c >> (w - 1) else c


def to_lin(x, w):
    if type(x) is int:
        return (centre(x, w), ())
    if x._lin is not None:
        return x._lin
    l = C.oplin.get(x.bits)
    if l is None:
        c = 0
        ub = []
        for i, b in enumerate(x.bits):
            if b == 1:
                c |= 1 << i
                ub.append(0)
            else:
                ub.append(b)
        # strip trailing zeros into the coefficient
        t = 0
        while ub[t] == 0:
            t += 1
        if ub[t] & 1:
            # complemented atom: one form for ~x and -x-1
            for i in range(t, w):
                if ub[i]:
                    c += 1 << i
                    ub[i] ^= 1
            k = trim(tuple(ub[t:]))
            l = norm_lin(c, {k: -1 << t}, w)
        else:
            l = (centre(c, w), ((trim(tuple(ub[t:])), centre(1 << t, w)),))
    x._lin = l
    return l


def lin_add(a, b, w, sb=1):
    d = dict(a[1])
    for k, c in b[1]:
        d[k] = d.get(k, 0) + sb * c
    return norm_lin(a[0] + sb * b[0], d, w)


def norm_lin(c, d, w):
    items = []
    for k, v in d.items():
        v = centre(v, w)
        if v:
            # atom bits beyond the ring are irrelevant
            tz = (v & -v).bit_length() - 1
            if len(k) > w - tz:
                k = trim(k[:w - tz])
                if not k:
                    continue
            items.append((k, v))
    items.sort(key=lambda kv: (kv[0], kv[1]))
    return (centre(c, w), tuple(items))


def word_range(bits):
    """unsigned range of a bits tuple"""
    lo = hi = 0
    top = -1
    for i, b in enumerate(bits):
        if b == 1:
            lo |= 1 << i
            hi |= 1 << i
        elif b != 0:
            hi |= 1 << i
            top = i
    r = C.ranges.get(bits)
    if r is None and C.ranges:
        t = trim(bits)
        if t != bits:
            r = C.ranges.get(t)
        if r is None and bits and bits[-1] >= 0 and bits[-1] & 1 and UNDEF not in bits:
            # complement of a ranged word
            r = C.ranges.get(trim(tuple([b ^ 1 for b in bits])))
            if r is not None:
                r = (mask(len(bits)) - r[1], mask(len(bits)) - r[0])
    if r is not None:
        lo = max(lo, r[0])
        hi = min(hi, r[1])
    if top >= 0:
        b = bits[top]
        if b >= 2 and not (b & 1):
            d = VARS[b >> 1]
            if d[0] == 'op':
                key = d[1]
                rng = C.oprange.get(key)
                if rng is not None:
                    # run downwards while consecutive bits of the same word
                    i = top
                    idx = d[2]
                    # bits of the word above idx must be known: recompute
                    if idx == rng[2] - 1 or (rng[1] >> (idx + 1)) == 0:
                        while i > 0:
                            nb = bits[i - 1]
                            if nb < 2 or nb & 1 or VARS[nb >> 1] != ('op', key, idx - 1):
                                break
                            i -= 1
                            idx -= 1
                        above_lo = (lo >> (top + 1)) << (top + 1)
                        above_hi = (hi >> (top + 1)) << (top + 1)
                        below_lo = lo & mask(i)
                        below_hi = hi & mask(i)
                        rlo = (rng[0] >> idx) << i
                        rhi = (rng[1] >> idx) << i
                        lo = max(lo, above_lo + rlo + below_lo)
                        hi = min(hi, above_hi + rhi + below_hi)
    if lo > hi:
        raise Infeasible()
    # linear information
    return lo, hi


def lin_range(l):
    lo = hi = l[0]
    for k, c in l[1]:
        a, b = word_range(k)
        if c > 0:
            lo += a * c
            hi += b * c
        else:
            lo += b * c
            hi += a * c
    r = C.ranges.get(('lin', l))
    if r:
        lo = max(lo, r[0])
        hi = min(hi, r[1])
        if lo > hi:
            raise Infeasible()
    return lo, hi


def urange(x, w):
    if type(x) is int:
        return x, x
    lo, hi = word_range(x.bits)
    l = to_lin(x, w)
    if len(l[1]) != 1 or l[1][0][1] < 0:
        a, b = lin_range(l)
        if a >= 0 and b < (1 << w):
            lo = max(lo, a)
            hi = min(hi, b)
        elif a >= -(1 << w) and b < 0:
            lo = max(lo, a + (1 << w))
            hi = min(hi, b + (1 << w))
    if lo > hi:
        raise Infeasible()
    return lo, hi


def srange(x, w):
    if type(x) is int:
        x = sgn(x, w)
        return x, x
    h = 1 << (w - 1)
    s = x.bits[w - 1]
    if s == 0:
        lo, hi = word_range(x.bits)
    elif s == 1:
        lo, hi = word_range(x.bits)
        lo -= 1 << w
        hi -= 1 << w
    else:
        # sign unknown: possibly a sign extended narrower field
        i = w - 1
        while i > 0 and x.bits[i - 1] == s:
            i -= 1
        lo, hi = -(1 << i), (1 << i) - 1
    r = C.ranges.get(('s', x.bits))
    if r is not None:
        lo = max(lo, r[0])
        hi = min(hi, r[1])
    a, b = lin_range(to_lin(x, w))
    if a >= -h and b < h:
        lo = max(lo, a)
        hi = min(hi, b)
    if lo > hi:
        raise Infeasible()
    return lo, hi


def opword(key, n, rng=None):
    """literals of the n-bit opaque word named key"""
    k = key_id(key)
    out = opbits(k, n)
    if rng is not None:
        C.oprange[k] = (rng[0], rng[1], n)
        set_prefix(out, rng[0], rng[1], n)
    return out


def set_prefix(bits, lo, hi, n):
    j = n
    while j > 0 and (lo >> (j - 1)) == (hi >> (j - 1)):
        bit = (lo >> (j - 1)) & 1
        if 0 <= bits[j - 1] < 2 and bits[j - 1] != bit:
            raise Infeasible()
        bits[j - 1] = bit
        j -= 1


def from_lin(l, w, again=False):
    c, items = l
    if not items:
        return c & mask(w)
    cu = c & mask(w)
    if len(items) == 1:
        k, v = items[0]
        if v > 0 and v & (v - 1) == 0:
            t = v.bit_length() - 1
            a = ((0,) * t + k + (0,) * w)[:w]
            # no overlap -> exact
            if all(b == 0 or not (cu >> i) & 1 for i, b in enumerate(a)):
                return mk(w, [1 if (cu >> i) & 1 else b for i, b in enumerate(a)])
        elif v < 0 and (-v) & (-v - 1) == 0:
            t = (-v).bit_length() - 1
            a = ((0,) * t + k + (0,) * w)[:w]
            if all(b == 0 or (cu >> i) & 1 for i, b in enumerate(a)):
                return mk(w, [((b ^ 1) if b != 0 else 1) if (cu >> i) & 1 else 0 for i, b in enumerate(a)])
    # opaque word
    kk = key_id(('lin', c, tuple((('BITS', k), v) for k, v in items)))
    lo, hi = lin_range(l)
    bits = opbits(kk, w)
    if (lo >> w) == (hi >> w):
        set_prefix(bits, lo & mask(w), hi & mask(w), w)
        if lo >= 0 and hi < (1 << w):
            C.oprange[kk] = (lo, hi, w)
    # low bits: ripple while determined
    low = ripple_low(l, w)
    for i, b in enumerate(low):
        if bits[i] < 2 and b < 2 and bits[i] != b:
            raise Infeasible()
        if bits[i] >= 2 or b < 2:
            bits[i] = b
    if C.facts and not again:
        nlo, nhi = narrow(l, w, lo, hi, bits)
        if (nlo, nhi) != (lo, hi):
            C.ranges[('lin', l)] = (nlo, nhi)
            if len(items) == 1:
                k, v = items[0]
                a, b = (nlo - c, nhi - c) if v > 0 else (c - nhi, c - nlo)
                v = abs(v)
                old = word_range(k)
                rng = (max(old[0], -(-a // v)), min(old[1], b // v))
                if rng[0] > rng[1]:
                    raise Infeasible()
                C.ranges[k] = rng
            if nlo == nhi:
                return nlo & mask(w)
            return from_lin(l, w, True)
    r = mk(w, bits)
    if type(r) is BV:
        C.oplin[r.bits] = l
        r._lin = l
    return r


def narrow(l, w, lo, hi, bits):
    """tighten the range of linear word l by what the cell knows about its bits"""
    bits = tuple(bits)
    r = C.ranges.get(bits)
    if r is not None:
        if lo >= 0 and hi < (1 << w):
            lo, hi = max(lo, r[0]), min(hi, r[1])
        elif lo >= -(1 << w) and hi < 0:
            lo, hi = max(lo, r[0] - (1 << w)), min(hi, r[1] - (1 << w))
    h = 1 << (w - 1)
    if lo >= -h and hi < h:
        n = w
        while n > 1 and bits[n - 2] == bits[n - 1]:
            n -= 1
        for m in {n, w}:
            r = C.ranges.get(('s', bits[:m]))
            if r is not None:
                lo, hi = max(lo, r[0]), min(hi, r[1])
    if lo > hi:
        raise Infeasible()
    if lo >= 0 and hi < (1 << w):
        # known leading bits
        j = w
        p = 0
        while j > 0 and (bits[j - 1] == 0 or bits[j - 1] == 1):
            p = 2 * p + bits[j - 1]
            j -= 1
        lo, hi = max(lo, p << j), min(hi, (p << j) | mask(j))
        if lo > hi:
            raise Infeasible()
    if hi - lo <= 300:
        km = kv = 0
        for i, b in enumerate(bits):
            if b == 0 or b == 1:
                km |= 1 << i
                kv |= b << i
        while lo <= hi and (lo & km) != kv:
            lo += 1
        while lo <= hi and (hi & km) != kv:
            hi -= 1
        if lo > hi:
            raise Infeasible()
    return lo, hi


def ripple_low(l, w):
    """exactly determined low bits of a linear word: sum modulo 2^t where only
    one operand bit is unknown below the cut"""
    c, items = l
    cu = c & mask(w)
    cols = []
    out = []
    carry = 0
    for i in range(w):
        known = (cu >> i) & 1
        unk = []
        for k, v in items:
            vv = v & mask(w)
            # contribution of atom bit j with weight bits of vv
            for j in range(min(i + 1, len(k))):
                if (vv >> (i - j)) & 1 and k[j] != 0:
                    unk.append(k[j])
                    if len(unk) > 1:
                        return out
        known += carry
        if not unk:
            out.append(known & 1)
            carry = known >> 1
        else:
            b = unk[0]
            if b == 1:
                known += 1
                out.append(known & 1)
                carry = known >> 1
            else:
                out.append(b ^ (known & 1))
                if known == 0:
                    carry = 0
                elif known == 2:
                    carry = 1
                else:
                    return out
    return out


def add(a, b, w):
    if type(a) is int and type(b) is int:
        return (a + b) & mask(w)
    return from_lin(lin_add(to_lin(a, w), to_lin(b, w), w), w)


def sub(a, b, w):
    if type(a) is int and type(b) is int:
        return (a - b) & mask(w)
    return from_lin(lin_add(to_lin(a, w), to_lin(b, w), w, -1), w)


def neg(a, w):
    return sub(0, a, w)


def tz(bits):
    t = 0
    while t < len(bits) and bits[t] == 0:
        t += 1
    return t


def mul(a, b, w):
    if type(a) is int and type(b) is int:
        return (a * b) & mask(w)
    if type(a) is int:
        a, b = b, a
    if type(b) is int:
        b = centre(b, w)
        if b == 0:
            return 0
        l = to_lin(a, w)
        return from_lin(norm_lin(l[0] * b, {k: v * b for k, v in l[1]}, w), w)
    # sign-extended operands: use magnitude words when sign known non-negative
    A, B = a.bits, b.bits
    ta, tb = tz(A), tz(B)
    A, B = trim(A[ta:]), trim(B[tb:])
    if len(A) == 1 or len(B) == 1:
        if len(A) == 1:
            A, B = B, A
        bits = [land(x, B[0]) for x in A]
        return mk(w, ([0] * (ta + tb) + bits + [0] * w)[:w])
    if A > B:
        A, B = B, A
    la, ha = word_range(A)
    lb, hb = word_range(B)
    key = ('mul', ('BITS', A), ('BITS', B))
    n = len(A) + len(B)
    bits = opword(key, n, (la * lb, ha * hb))
    t0 = 0
    return mk(w, ([0] * (ta + tb) + bits + [0] * w)[:w])


def udiv(a, b, w):
    if type(a) is int and type(b) is int:
        return a // b
    if type(b) is int and b & (b - 1) == 0 and b:
        return lshr(a, b.bit_length() - 1, w)
    A, B = bits_of(a, w), bits_of(b, w)
    t = min(tz(A), tz(B))
    A, B = trim(A[t:]), trim(B[t:])
    la, ha = word_range(A)
    lb, hb = word_range(B)
    if ha < lb:
        return 0
    key = ('udiv', ('BITS', A), ('BITS', B))
    n = len(A)
    bits = opword(key, n, (la // max(hb, 1), ha // max(lb, 1)))
    return mk(w, (bits + [0] * w)[:w])


def urem(a, b, w):
    if type(a) is int and type(b) is int:
        return a % b
    if type(b) is int and b & (b - 1) == 0 and b:
        k = b.bit_length() - 1
        return mk(w, bits_of(a, w)[:k] + (0,) * (w - k))
    A, B = trim(bits_of(a, w)), trim(bits_of(b, w))
    la, ha = word_range(A)
    lb, hb = word_range(B)
    if ha < lb:
        return a
    key = ('urem', ('BITS', A), ('BITS', B))
    bits = opword(key, min(len(A), len(B)), (0, min(ha, hb - 1)))
    return mk(w, (bits + [0] * w)[:w])


def shl(a, n, w):
    if n >= w:
        return 0
    if type(a) is int:
        return (a << n) & mask(w)
    l = C.oplin.get(a.bits)
    r = mk(w, ((0,) * n + a.bits)[:w])
    return r


def lshr(a, n, w):
    if n >= w:
        return 0
    if type(a) is int:
        return a >> n
    return mk(w, a.bits[n:] + (0,) * n)


def ashr(a, n, w):
    if type(a) is int:
        return (sgn(a, w) >> n) & mask(w)
    n = min(n, w - 1)
    return mk(w, a.bits[n:] + (a.bits[w - 1],) * n)


def and_(a, b, w):
    if type(a) is int and type(b) is int:
        return a & b
    if type(a) is int:
        a, b = b, a
    if type(b) is int:
        return mk(w, [x if (b >> i) & 1 else 0 for i, x in enumerate(a.bits)])
    return mk(w, [land(x, y) for x, y in zip(a.bits, b.bits)])


def or_(a, b, w):
    if type(a) is int and type(b) is int:
        return a | b
    if type(a) is int:
        a, b = b, a
    if type(b) is int:
        return mk(w, [1 if (b >> i) & 1 else x for i, x in enumerate(a.bits)])
    return mk(w, [lor(x, y) for x, y in zip(a.bits, b.bits)])


def xor_(a, b, w):
    if type(a) is int and type(b) is int:
        return a ^ b
    if type(a) is int:
        a, b = b, a
    if type(b) is int:
        r = mk(w, [x ^ ((b >> i) & 1) for i, x in enumerate(a.bits)])
        if b == mask(w) and type(r) is BV and r.bits not in C.oplin:
            # ~x = -x - 1
            l = to_lin(a, w)
            if a.bits in C.oplin:
                C.oplin[r.bits] = norm_lin(-l[0] - 1, {k: -v for k, v in l[1]}, w)
        return r
    return mk(w, [lxor(x, y) for x, y in zip(a.bits, b.bits)])


def trunc(a, w0, w1):
    if type(a) is int:
        return a & mask(w1)
    nb = a.bits[:w1]
    r = mk(w1, nb)
    if type(r) is BV and nb not in C.oplin:
        l = C.oplin.get(a.bits)
        if l is not None:
            n = norm_lin(l[0], dict(l[1]), w1)
            if n != l and n[1] == l[1] and lin_range(l)[0] >= 0 and lin_range(l)[1] <= mask(w1):
                # name the word by the form it has in the narrower ring
                return from_lin(n, w1)
            r._lin = n
            C.oplin[nb] = r._lin
    return r


def zext(a, w0, w1):
    if type(a) is int:
        return a
    nb = a.bits + (0,) * (w1 - w0)
    if nb not in C.oplin:
        l = C.oplin.get(a.bits)
        if l is not None:
            lo, hi = lin_range(l)
            t = lo >> w0
            if t == hi >> w0:
                # no wrap inside the range: the value is the linear form moved by a multiple of 2^w0
                C.oplin[nb] = norm_lin(l[0] - (t << w0), dict(l[1]), w1) if t else l
    return mk(w1, nb)


def sext(a, w0, w1):
    if type(a) is int:
        return sgn(a, w0) & mask(w1)
    nb = a.bits + (a.bits[w0 - 1],) * (w1 - w0)
    r = mk(w1, nb)
    if nb not in C.oplin:
        l = C.oplin.get(a.bits)
        if l is not None:
            lo, hi = lin_range(l)
            h = 1 << (w0 - 1)
            t = (lo + h) >> w0
            if t == (hi + h) >> w0:
                C.oplin[nb] = norm_lin(l[0] - (t << w0), dict(l[1]), w1) if t else l
    return r


# ------------------------------------------------------------------ compares
def eq(a, b, w):
    """literal of a == b"""
    if type(a) is int and type(b) is int:
        return 1 if a == b else 0
    A, B = bits_of(a, w), bits_of(b, w)
    lits = []
    for x, y in zip(A, B):
        if x == y:
            continue
        if x == y ^ 1:
            return 0
        lits.append((x, y))
    if not lits:
        return 1
    d = lin_add(to_lin(a, w), to_lin(b, w), w, -1)
    if not d[1]:
        return 1 if d[0] == 0 else 0
    lo, hi = lin_range(d)
    if lo > 0 and hi < (1 << w) or hi < 0 and lo > -(1 << w):
        return 0
    la, ha = urange(a, w)
    lb, hb = urange(b, w)
    if ha < lb or hb < la:
        return 0
    # canonical difference word when it is a plain word
    if len(d[1]) == 1:
        k, v = d[1][0]
        if abs(v) & (abs(v) - 1) == 0:
            t = abs(v).bit_length() - 1
            c = -d[0] if v > 0 else d[0]
            if c & mask(t):
                return 0
            c = (c & mask(w)) >> t
            n = min(len(k), w - t)
            if c >> n:
                return 0
            return conj([(k[i] if (c >> i) & 1 else k[i] ^ 1) for i in range(n)])
    return conj([lxor(x, y) ^ 1 for x, y in lits])


def ult(a, b, w):
    if type(a) is int and type(b) is int:
        return 1 if a < b else 0
    la, ha = urange(a, w)
    lb, hb = urange(b, w)
    if ha < lb:
        return 1
    if la >= hb:
        return 0
    A, B = bits_of(a, w), bits_of(b, w)
    if A == B:
        return 0
    # exact (non wrapping) linear difference
    lA, lB = to_lin(a, w), to_lin(b, w)
    ra, rb = lin_range(lA), lin_range(lB)
    if ra[0] >= 0 and ra[1] <= mask(w) and rb[0] >= 0 and rb[1] <= mask(w):
        lo, hi = lin_range(lin_add(lA, lB, w + 2, -1))
        if hi < 0:
            return 1
        if lo >= 0:
            return 0
    # strip equal leading bits
    n = w
    while n and A[n - 1] == B[n - 1]:
        n -= 1
    A, B = A[:n], B[:n]
    An, Bn = A, B
    if A[n - 1] == 0 and B[n - 1] == 1:
        return 1
    if A[n - 1] == 1 and B[n - 1] == 0:
        return 0
    # strip equal trailing bits
    t = 0
    while t < n and A[t] == B[t]:
        t += 1
    A, B = A[t:], B[t:]
    if len(A) == 1:
        return land(A[0] ^ 1, B[0])
    if all(x < 2 for x in B):
        bc = sum(x << i for i, x in enumerate(B))
        # a < 2^k  <=> high bits zero
        if bc & (bc - 1) == 0 and bc:
            k = bc.bit_length() - 1
            return conj([x ^ 1 for x in A[k:]])
    if all(x < 2 for x in A):
        ac = sum(x << i for i, x in enumerate(A)) + 1
        # a < b <=> b >= a+1 ; b >= 2^k (k) <=> not (b < 2^k)
        if ac & (ac - 1) == 0:
            k = ac.bit_length() - 1
            if k >= len(B):
                return 0
            return conj([x ^ 1 for x in B[k:]]) ^ 1
    v = newvar(('ult', ('BITS', A), ('BITS', B)))
    ULTOF[v] = (A, B)
    r = lit_of(v)
    if r < 2:
        # the comparison is a fact of the cell: so is the sign of the difference
        if not (ra[0] >= 0 and ra[1] <= mask(w) and rb[0] >= 0 and rb[1] <= mask(w)):
            lA, lB = to_lin(zext(mk(n, An), n, w + 2), w + 2), to_lin(zext(mk(n, Bn), n, w + 2), w + 2)
        d = lin_add(lA, lB, w + 2, -1)
        m = norm_lin(-d[0], {k: -c for k, c in d[1]}, w + 2)
        lo, hi = lin_range(d)
        if r:
            hi = min(hi, -1)
        else:
            lo = max(lo, 0)
        if lo > hi:
            raise Infeasible()
        C.ranges[('lin', d)] = (lo, hi)
        C.ranges[('lin', m)] = (-hi, -lo)
    return r


def slt(a, b, w):
    if type(a) is int and type(b) is int:
        return 1 if sgn(a, w) < sgn(b, w) else 0
    la, ha = srange(a, w)
    lb, hb = srange(b, w)
    if ha < lb:
        return 1
    if la >= hb:
        return 0
    lA, lB = to_lin(a, w), to_lin(b, w)
    h = 1 << (w - 1)
    ra, rb = lin_range(lA), lin_range(lB)
    if ra[0] >= -h and ra[1] < h and rb[0] >= -h and rb[1] < h:
        d = lin_add(lA, lB, w + 2, -1)
        lo, hi = lin_range(d)
        if hi < 0:
            return 1
        if lo >= 0:
            return 0
    A, B = bits_of(a, w), bits_of(b, w)
    if type(b) is int and b == 0:
        return A[w - 1]
    # drop common sign extension
    n = w
    while n > 1 and A[n - 2] == A[n - 1] and B[n - 2] == B[n - 1]:
        n -= 1
    if n < w:
        A, B, w = A[:n], B[:n], n
    A2 = mk(w, A[:w - 1] + (A[w - 1] ^ 1,))
    B2 = mk(w, B[:w - 1] + (B[w - 1] ^ 1,))
    l = ult_bits(A2, B2, w)
    return l


def ult_bits(a, b, w):
    return ult(a, b, w)


def ite(c, a, b, w):
    """merge of two values under literal c (bitwise)"""
    if c == 1:
        return a
    if c == 0:
        return b
    A, B = bits_of(a, w), bits_of(b, w)
    out = []
    for x, y in zip(A, B):
        if x == y:
            out.append(x)
        else:
            raise Fork(c)
    return mk(w, out)


# ------------------------------------------------------------------ facts
def install_facts(assume):
    """assume: list of (lit, ) literals that hold.  Performs unit propagation
    over conjunction / xor nodes and range narrowing over comparisons."""
    C.facts.clear()
    C.ranges = dict(C.ranges)
    C.falls = {}
    C.opaque_facts = 0
    C.constrained = set()
    work = list(assume)
    falses = []
    ults = []
    while True:
        while work:
            l = work.pop()
            l = subst(l)
            if l == 1:
                continue
            if l == 0:
                raise Infeasible()
            v = l >> 1
            val = 1 - (l & 1)
            d = VARS[v]
            C.facts[v] = val
            # re-normalise equivalences
            for k, f in list(C.facts.items()):
                if f >= 2 and (f >> 1) == v:
                    C.facts[k] = val ^ (f & 1)
            if d[0] != 'in':
                C.opaque_facts += 1
            if d[0] == 'all':
                if val:
                    work.extend(ALLOF[v])
                    C.opaque_facts -= 1
                else:
                    falses.append(ALLOF[v])
            elif d[0] == 'xor':
                a, b = XOROF[v]
                a, b = subst(a), subst(b)
                if a < 2 or b < 2:
                    if a < 2:
                        a, b = b, a
                    if a < 2:
                        if (a ^ b) != val:
                            raise Infeasible()
                    else:
                        work.append(a ^ b ^ val ^ 1)
                    C.opaque_facts -= 1
                else:
                    # a == b ^ val
                    if a < b:
                        a, b = b, a
                    if (a >> 1) == (b >> 1):
                        if ((a ^ b) & 1) != val:
                            raise Infeasible()
                    else:
                        C.facts[a >> 1] = b ^ val ^ (a & 1)
                        C.constrained.add(b >> 1)
            elif d[0] == 'ult':
                ults.append((v, val))
                A, B = ULTOF[v]
                rv = newvar(('ult', ('BITS', B), ('BITS', A)))
                ULTOF[rv] = (B, A)
                if val:
                    # a < b: not b < a, not equal
                    if C.facts.get(rv) is None:
                        C.facts[rv] = 0
                        C.opaque_facts += 1
                    elif C.facts[rv] == 1:
                        raise Infeasible()
                    falses.append(tuple(x for x in [lxor(subst(a), subst(b)) ^ 1 for a, b in zip(A, B)] if x != 1))
                elif C.facts.get(rv) == 0:
                    for a, b in zip(A, B):
                        work.append(lxor(subst(a), subst(b)) ^ 1)
        # unit propagation on false conjunctions
        again = False
        keep = []
        for f in falses:
            ls = []
            dead = False
            for l in f:
                l = subst(l)
                if l == 0:
                    dead = True
                    break
                if l != 1:
                    ls.append(l)
            if dead:
                continue
            if not ls:
                raise Infeasible()
            if len(ls) == 1:
                work.append(ls[0] ^ 1)
                again = True
                continue
            keep.append(tuple(sorted(ls)))
        falses = keep
        # range narrowing of comparisons against constants
        for (v, val) in ults:
            A, B = ULTOF[v]
            A = tuple(subst(x) for x in A)
            B = tuple(subst(x) for x in B)
            for (X, Y, sw) in ((A, B, 0), (B, A, 1)):
                if all(y < 2 for y in Y) and any(x >= 2 for x in X):
                    c = sum(y << i for i, y in enumerate(Y))
                    if not sw:
                        rng = (0, c - 1) if val else (c, mask(len(X)))
                    else:
                        rng = (c + 1, mask(len(X))) if val else (0, c)
                    old = C.ranges.get(X, (0, mask(len(X))))
                    rng = (max(rng[0], old[0]), min(rng[1], old[1]))
                    lo, hi = word_range(X)
                    rng = (max(rng[0], lo), min(rng[1], hi))
                    if rng[0] > rng[1]:
                        raise Infeasible()
                    C.ranges[X] = rng
                    C.ranges[trim(X)] = rng
                    # signed word x^msb was compared: also give the original
                    Xs = X[:-1] + (X[-1] ^ 1 if X[-1] >= 2 else X[-1] ^ 1,)
                    n = len(X)
                    C.ranges[('s', Xs)] = (rng[0] - (1 << (n - 1)), rng[1] - (1 << (n - 1)))
                    j = n
                    while j > 0 and (rng[0] >> (j - 1)) == (rng[1] >> (j - 1)):
                        bit = (rng[0] >> (j - 1)) & 1
                        if X[j - 1] >= 2:
                            work.append(X[j - 1] ^ (1 - bit))
                            again = True
                        j -= 1
        if not again and not work:
            break
    for f in falses:
        C.falls[f] = 0
        for l in f:
            C.constrained |= set(support(l))
    for v, f in C.facts.items():
        if not is_input(v):
            C.constrained |= set(support(2 * v))


# ------------------------------------------------------------------ verdicts
EQUAL, DIFF, MAYBE = 'equal', 'differs', 'undecided'


def free_input(l):
    return l >= 2 and is_input(l >> 1) and (l >> 1) not in C.constrained


def compare(a, b, w):
    """EQUAL: equal for every concretisation; DIFF: some (in fact constructible)
    concretisation of the cell differs; MAYBE otherwise"""
    A, B = bits_of(a, w), bits_of(b, w)
    if A == B:
        return EQUAL
    if UNDEF in A:
        return DIFF
    la, lb = to_lin(a, w), to_lin(b, w)
    d = lin_add(la, lb, w, -1)
    if not d[1]:
        return EQUAL if d[0] == 0 else DIFF
    for x, y in zip(A, B):
        if x == y:
            continue
        if x == y ^ 1:
            return DIFF
        # one free input bit vs constant / other literal that does not depend on it
        for p, q in ((x, y), (y, x)):
            if free_input(p) and (p >> 1) not in support(q):
                return DIFF
    lo, hi = lin_range(d)
    if lo > 0 and hi < (1 << w) or hi < 0 and lo > -(1 << w):
        return DIFF
    ra, rb = urange(a, w), urange(b, w)
    if ra[1] < rb[0] or rb[1] < ra[0]:
        return DIFF
    # same sign of a common linear atom: compare the atoms bitwise
    if len(la[1]) == 1 and len(lb[1]) == 1 and la[0] == lb[0] and la[1][0][1] == lb[1][0][1]:
        ka, kb = la[1][0][0], lb[1][0][0]
        n = max(len(ka), len(kb))
        ka = ka + (0,) * (n - len(ka))
        kb = kb + (0,) * (n - len(kb))
        for x, y in zip(ka, kb):
            if x == y:
                continue
            if x == y ^ 1:
                return DIFF
            for p, q in ((x, y), (y, x)):
                if free_input(p) and (p >> 1) not in support(q):
                    return DIFF
    return MAYBE


# ------------------------------------------------------------------ concretisation
class CantEval(Exception):
    pass


FPEVAL = {}


def eval_lit(l, env, memo):
    """value of a literal in the concretisation env (input var -> 0/1)"""
    if l < 2:
        if l < 0:
            raise CantEval()
        return l
    v = l >> 1
    r = memo.get(v)
    if r is None:
        d = VARS[v]
        k = d[0]
        if k == 'in':
            r = env.get(v)
            if r is None:
                r = env.default(v)
        elif k == 'op':
            r = (eval_key(d[1], env, memo) >> d[2]) & 1
        elif k == 'all':
            r = 1
            for x in ALLOF[v]:
                if not eval_lit(x, env, memo):
                    r = 0
                    break
        elif k == 'xor':
            a, b = XOROF[v]
            r = eval_lit(a, env, memo) ^ eval_lit(b, env, memo)
        elif k == 'ult':
            a, b = ULTOF[v]
            r = 1 if eval_bits(a, env, memo) < eval_bits(b, env, memo) else 0
        else:
            raise CantEval(k)
        memo[v] = r
    return r ^ (l & 1)


def eval_bits(bits, env, memo):
    n = 0
    for i, b in enumerate(bits):
        if b:
            if b == 1 or eval_lit(b, env, memo):
                n |= 1 << i
    return n


def eval_key(k, env, memo):
    mk_ = ('k', k)
    r = memo.get(mk_)
    if r is None:
        key = KEYS[k]
        kind = key[0]
        if kind == 'lin':
            r = key[1]
            for (_, bits), c in key[2]:
                r += c * eval_bits(bits, env, memo)
        elif kind == 'mul':
            r = eval_bits(key[1][1], env, memo) * eval_bits(key[2][1], env, memo)
        elif kind in ('udiv', 'urem'):
            a, b = eval_bits(key[1][1], env, memo), eval_bits(key[2][1], env, memo)
            if b == 0:
                raise CantEval('div0')
            r = a // b if kind == 'udiv' else a % b
        elif kind in FPEVAL:
            r = FPEVAL[kind](*[eval_bits(x[1], env, memo) for x in key[1:]])
        else:
            raise CantEval(kind)
        memo[mk_] = r
    return r


def eval_val(x, w, env, memo):
    if type(x) is int:
        return x & mask(w)
    return eval_bits(x.bits, env, memo)


class Env(dict):
    def __init__(self, rng, mode):
        self.rng = rng
        self.mode = mode

    def default(self, v):
        m = self.mode
        if m == 0:
            r = 0
        elif m == 1:
            r = 1
        elif m == 2:
            r = self.rng.getrandbits(1)
        elif m == 3:
            r = 1 if self.rng.random() < 0.12 else 0
        elif m == 4:
            r = 0 if self.rng.random() < 0.12 else 1
        elif m == 5:
            d = VARS[v]
            r = 1 if d[2] == 0 else 0
        else:
            d = VARS[v]
            h = zlib.crc32(repr((d[1], m)).encode()) & 1
            r = h if d[2] else self.rng.getrandbits(1)
        self[v] = r
        return r


def concretisations(assume, reqs, rng, tries=240):
    """sample points of the cell: input assignments that satisfy its facts"""
    forced = {v: f for v, f in C.facts.items() if is_input(v)}
    for t in range(tries):
        env = Env(rng, t % 7 if t < 28 else rng.choice((2, 2, 2, 3, 4, 6)))
        memo = {}
        pend = []
        for v, f in forced.items():
            if f < 2:
                env[v] = f
            else:
                pend.append((v, f))
        try:
            for v, f in pend:
                env[v] = eval_lit(f, env, memo)
            ok = True
            for l in assume:
                if not eval_lit(l, env, memo):
                    ok = False
                    break
            if ok:
                for bits, lo, hi in reqs:
                    x = eval_bits(bits, env, memo)
                    if not lo <= x <= hi:
                        ok = False
                        break
        except CantEval:
            continue
        if ok:
            yield env, memo
