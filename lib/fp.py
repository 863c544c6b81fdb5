"""Transfer functions of the IEEE operations on bit-provenance words."""
import math
import struct
import dom
from dom import mk, bits_of, mask, Fork

FMT = {32: (8, 23), 64: (11, 52)}


def to_py(x, n):
    if n == 32:
        return struct.unpack('>f', struct.pack('>I', x & mask(32)))[0]
    return struct.unpack('>d', struct.pack('>Q', x & mask(64)))[0]


def from_py(v, n):
    if n == 32:
        if v != v:
            return 0x7fc00000
        if math.isinf(v):
            return 0xff800000 if v < 0 else 0x7f800000
        try:
            return struct.unpack('>I', struct.pack('>f', v))[0]
        except OverflowError:
            return 0xff800000 if v < 0 else 0x7f800000
    if v != v:
        return 0x7ff8000000000000
    return struct.unpack('>Q', struct.pack('>d', v))[0]


def fold(op, x, y, n):
    a, b = to_py(x, n), to_py(y, n)
    if op == 'fadd':
        r = a + b
    elif op == 'fsub':
        r = a - b
    elif op == 'fmul':
        r = a * b
    elif op == 'fdiv':
        if b == 0:
            if a != a or a == 0:
                r = math.nan
            else:
                r = math.copysign(math.inf, math.copysign(1, a) * math.copysign(1, b))
        else:
            r = a / b
    else:
        return None
    return from_py(r, n)


def fields(x, n):
    eb, fb = FMT[n]
    b = bits_of(x, n)
    return b[n - 1], mk(eb, b[fb:fb + eb]), mk(fb, b[:fb])


def classify(x, n, fork=True):
    """'nan' 'inf' 'zero' 'den' 'norm', or None when open and fork is off"""
    eb, fb = FMT[n]
    s, e, f = fields(x, n)
    lo, hi = dom.urange(e, eb)
    if lo >= 1 and hi < mask(eb):
        return 'norm'
    for c, k in ((mask(eb), 'top'), (0, 'low')):
        q = dom.eq(e, c, eb)
        if q >= 2:
            if not fork:
                return None
            raise Fork(q)
        if q:
            z = dom.eq(f, 0, fb)
            if z >= 2:
                if not fork:
                    return None
                raise Fork(z)
            if k == 'top':
                return 'inf' if z else 'nan'
            return 'zero' if z else 'den'
    return 'norm'


def sign(x, n, fork=True):
    s = bits_of(x, n)[n - 1]
    if s >= 2:
        raise Fork(s)
    return s


def build(s, e, f, n):
    eb, fb = FMT[n]
    return mk(n, bits_of(f, fb) + bits_of(e, eb) + (s,))


def nan(M, n, *args):
    """some quiet NaN: exponent and quiet bit known, payload and sign open"""
    eb, fb = FMT[n]
    key = ('nanpayload%d' % n,) + tuple(('BITS', tuple(bits_of(a, n))) for a in args)
    p = dom.opword(key, fb)
    return mk(n, list(p[:fb - 1]) + [1] + [1] * eb + [p[fb - 1]])


def inf(s, n):
    eb, fb = FMT[n]
    return mk(n, (0,) * fb + (1,) * eb + (s,))


def zero(s, n):
    return (s << (n - 1))


def scale(x, k, s, n):
    """x * 2^k with sign s for normal x when the result stays normal"""
    eb, fb = FMT[n]
    _, e, f = fields(x, n)
    lo, hi = dom.urange(e, eb)
    if lo + k < 1 or hi + k >= mask(eb):
        return None
    w = dom.add(dom.zext(e, eb, 32), k & mask(32), 32)
    return mk(n, bits_of(f, fb) + bits_of(w, 32)[:eb] + (s,))


def pow2(x, n):
    """exponent k when the constant x is +-2^k"""
    if type(x) is not int:
        return None
    eb, fb = FMT[n]
    e = (x >> fb) & mask(eb)
    if x & mask(fb) or e == 0 or e == mask(eb):
        return None
    return e - ((1 << (eb - 1)) - 1)


def binary(M, op, x, y, n):
    if n not in FMT:
        return M.fpatom('%s%d' % (op, n), n, (x, n), (y, n))
    if type(x) is int and type(y) is int:
        r = fold(op, x, y, n)
        if r is not None:
            return r
    cx = classify(x, n, False)
    cy = classify(y, n, False)
    if cx == 'nan' or cy == 'nan':
        return nan(M, n, x, y)
    if cx in ('inf', 'zero') and cy is None:
        cy = classify(y, n)
    if cy in ('inf', 'zero') and cx is None:
        cx = classify(x, n)
    if cx == 'nan' or cy == 'nan':
        return nan(M, n, x, y)
    sp = ('inf', 'zero')
    if cx in sp or cy in sp:
        if op in ('fadd', 'fsub'):
            if op == 'fsub':
                y = dom.xor_(y, 1 << (n - 1), n)
            if cx == 'inf' and cy == 'inf':
                return x if sign(x, n) == sign(y, n) else nan(M, n, x, y)
            if cx == 'inf':
                return x
            if cy == 'inf':
                return y
            if cx == 'zero' and cy == 'zero':
                return x if sign(x, n) == sign(y, n) else 0
            return y if cx == 'zero' else x
        sx, sy = bits_of(x, n)[n - 1], bits_of(y, n)[n - 1]
        s = dom.lxor(sx, sy)
        if op == 'fmul':
            if 'inf' in (cx, cy):
                return nan(M, n, x, y) if 'zero' in (cx, cy) else inf(s, n)
            return mk(n, (0,) * (n - 1) + (s,))
        if op == 'fdiv':
            if cx == cy:
                return nan(M, n, x, y)
            if cx == 'inf' or cy == 'zero':
                return inf(s, n)
            return mk(n, (0,) * (n - 1) + (s,))
    for a, b, ca in ((x, y, cx), (y, x, cy)):
        if op == 'fdiv' and a is y and a is not x:
            break
        k = pow2(b, n)
        if k is not None and op in ('fmul', 'fdiv') and ca in ('norm', None):
            if ca is None:
                ca = classify(a, n)
            if ca == 'norm':
                s = bits_of(a, n)[n - 1]
                if b >> (n - 1):
                    s = s ^ 1
                r = scale(a, k if op == 'fmul' else -k, s, n)
                if r is not None:
                    return r
    if op in ('fadd', 'fmul') and bits_of(x, n) > bits_of(y, n):
        x, y = y, x
    return M.fpatom('%s%d' % (op, n), n, (x, n), (y, n))


def fcmp(M, pred, x, y, n):
    if n not in FMT:
        return M.fpatom('fcmp_%s%d' % (pred, n), 1, (x, n), (y, n))
    if type(x) is int and type(y) is int:
        a, b = to_py(x, n), to_py(y, n)
        un = a != a or b != b
        r = {'oeq': not un and a == b, 'one': not un and a != b, 'olt': a < b, 'ole': a <= b, 'ogt': a > b, 'oge': a >= b,
             'ueq': un or a == b, 'une': a != b, 'ult': un or a < b, 'ule': un or a <= b, 'ugt': un or a > b, 'uge': un or a >= b,
             'ord': not un, 'uno': un}.get(pred)
        if r is not None:
            return 1 if r else 0
    if type(x) is int:
        x, y = y, x
        pred = {'olt': 'ogt', 'ogt': 'olt', 'ole': 'oge', 'oge': 'ole', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}.get(pred, pred)
    if type(y) is int and pred in ('oeq', 'une', 'ueq', 'one'):
        cy = classify(y, n)
        if cy != 'nan' and pred in ('oeq', 'une'):
            if cy == 'zero':
                l = dom.eq(mk(n - 1, bits_of(x, n)[:n - 1]), 0, n - 1)
            else:
                l = dom.eq(x, y, n)
            if pred == 'une':
                l ^= 1
            return l if l < 2 else mk(1, (l,))
    if pred in ('uno', 'ord'):
        r = 0
        for v in (x, y):
            if classify(v, n) == 'nan':
                r = 1
        return r if pred == 'uno' else 1 - r
    if pred in ('olt', 'ole', 'ogt', 'oge', 'ult', 'ule', 'ugt', 'uge') and type(y) is int and classify(y, n) != 'nan':
        # order of the sign-magnitude words
        if classify(x, n) == 'nan':
            return 1 if pred[0] == 'u' else 0
        cx = classify(x, n)
        sx = sign(x, n)
        if cx == 'zero':
            sx = 0
        sy = y >> (n - 1)
        if classify(y, n) == 'zero':
            sy = 0
        mx, my = mk(n - 1, bits_of(x, n)[:n - 1]), y & mask(n - 1)
        if sx != sy:
            lt, eq = (1 if sx else 0), 0
        else:
            lt = dom.ult(my, mx, n - 1) if sx else dom.ult(mx, my, n - 1)
            if lt >= 2:
                raise Fork(lt)
            eq = dom.eq(mx, my, n - 1)
            if eq >= 2 and not lt and pred[1:] in ('le', 'gt'):
                raise Fork(eq)
        return {'lt': lt, 'le': lt or eq, 'gt': int(not lt and not eq), 'ge': int(not lt)}[pred[1:]]
    return M.fpatom('fcmp_%s%d' % (pred, n), 1, (x, n), (y, n))


def cast(M, op, x, n0, n1):
    if (op in ('fpext', 'fptrunc', 'fptosi', 'fptoui') and n0 not in FMT) or (op in ('fpext', 'fptrunc', 'sitofp', 'uitofp') and n1 not in FMT):
        return M.fpatom('%s%d_%d' % (op, n0, n1), n1, (x, n0))
    if op == 'fpext':
        if type(x) is int:
            return from_py(to_py(x, n0), n1)
        c = classify(x, n0)
        eb0, fb0 = FMT[n0]
        eb1, fb1 = FMT[n1]
        s, e, f = fields(x, n0)
        if c == 'nan':
            return nan(M, n1, dom.zext(x, n0, n1))
        if c == 'inf':
            return inf(s, n1)
        if c == 'zero':
            return mk(n1, (0,) * (n1 - 1) + (s,))
        if c == 'norm':
            w = dom.add(dom.zext(e, eb0, 32), ((1 << (eb1 - 1)) - (1 << (eb0 - 1))), 32)
            return mk(n1, (0,) * (fb1 - fb0) + bits_of(f, fb0) + bits_of(w, 32)[:eb1] + (s,))
        # denormal: leading one
        b = bits_of(f, fb0)
        k = 0
        while True:
            l = b[fb0 - 1 - k]
            if l >= 2:
                raise Fork(l)
            if l:
                break
            k += 1
        e = ((1 << (eb1 - 1)) - 1) - ((1 << (eb0 - 1)) - 1) - k
        fr = (0,) * (k + 1) + b[:fb0 - 1 - k]
        return mk(n1, (0,) * (fb1 - fb0) + fr + bits_of(e, eb1) + (s,))
    if op == 'fptrunc':
        if type(x) is int:
            return from_py(to_py(x, n0), n1)
        c = classify(x, n0, False)
        eb0, fb0 = FMT[n0]
        eb1, fb1 = FMT[n1]
        s, e, f = fields(x, n0)
        if c == 'nan':
            return nan(M, n1, dom.trunc(x, n0, n1))
        if c == 'inf':
            return inf(s, n1)
        if c == 'zero':
            return mk(n1, (0,) * (n1 - 1) + (s,))
        d = (1 << (eb0 - 1)) - (1 << (eb1 - 1))
        lo, hi = dom.urange(e, eb0)
        fbits = bits_of(f, fb0)
        if c == 'norm' and lo - d >= 1 and hi - d < mask(eb1) and not any(fbits[:fb0 - fb1]):
            w = dom.add(dom.zext(e, eb0, 32), -d & mask(32), 32)
            return mk(n1, fbits[fb0 - fb1:] + bits_of(w, 32)[:eb1] + (s,))
    if op in ('sitofp', 'uitofp'):
        if type(x) is int:
            return from_py(float(dom.sgn(x, n0) if op == 'sitofp' else x), n1)
        eb, fb = FMT[n1]
        if n0 - 1 <= fb:
            s = bits_of(x, n0)[n0 - 1] if op == 'sitofp' else 0
            if s >= 2:
                raise Fork(s)
            m = dom.neg(x, n0) if s else x
            b = bits_of(m, n0)
            k = n0 - 1
            while k >= 0:
                if b[k] >= 2:
                    raise Fork(b[k])
                if b[k]:
                    break
                k -= 1
            if k < 0:
                return 0
            fr = (0,) * (fb - k) + tuple(b[:k])
            return mk(n1, fr + bits_of(k + (1 << (eb - 1)) - 1, eb) + (s,))
    if op in ('fptosi', 'fptoui') and type(x) is int:
        v = to_py(x, n0)
        if v == v and abs(v) < 2 ** (n1 - 1):
            return int(v) & mask(n1)
    return M.fpatom('%s%d_%d' % (op, n0, n1), n1, (x, n0))


for _n in (32, 64):
    for _op in ('fadd', 'fsub', 'fmul', 'fdiv'):
        dom.FPEVAL['%s%d' % (_op, _n)] = (lambda a, b, _op=_op, _n=_n: fold(_op, a, b, _n))
    dom.FPEVAL['nanpayload%d' % _n] = lambda *a: 0
dom.FPEVAL['fptrunc64_32'] = lambda a: from_py(to_py(a, 64), 32)
dom.FPEVAL['fpext32_64'] = lambda a: from_py(to_py(a, 32), 64)

# functions of the C library whose result IEEE 754 determines
LIBM = {}
for _op, _k in (('sqrt', 1), ('remainder', 2), ('fmod', 2)):
    LIBM['@' + _op] = (_op, 64, _k)
    LIBM['@%sf' % _op] = (_op, 32, _k)


def libm_fold(op, n, *xs):
    v = [to_py(x, n) for x in xs]
    if any(x != x for x in v):
        return from_py(math.nan, n)
    if op == 'sqrt':
        return xs[0] if v[0] == 0 else from_py(math.nan if v[0] < 0 else v[0] if math.isinf(v[0]) else math.sqrt(v[0]), n)
    if math.isinf(v[0]) or v[1] == 0:
        return from_py(math.nan, n)
    if math.isinf(v[1]) or v[0] == 0:
        return xs[0]
    r = math.remainder(*v) if op == 'remainder' else math.fmod(*v)
    return from_py(math.copysign(r, v[0]) if r == 0 else r, n)


def libm(M, op, n, *xs):
    if all(type(x) is int for x in xs):
        return libm_fold(op, n, *xs)
    return M.fpatom('%s%d' % (op, n), n, *[(x, n) for x in xs])


for _n in (32, 64):
    for _op in ('sqrt', 'remainder', 'fmod'):
        dom.FPEVAL['%s%d' % (_op, _n)] = (lambda *a, _op=_op, _n=_n: libm_fold(_op, _n, *a))
