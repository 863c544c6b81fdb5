"""C26 bit-field and width-change helpers of bithippop.hpp / typehelpers.hpp"""
import dom
from core import Cell, Obl, require_range, input_word
from dom import mk, bits_of, mask
from wit import HEAD
from cells import *

RULE = ('abstract interpretation of every bit-field helper on a word of unknown bits, for every field position and length (all positions up to 16 bits, a grid at 32 and 64 bits), in the portable and in the '
        'intrinsic (bextr) implementation: the result must be the named bits of the operand, bit by bit, with the remaining bits zero (extraction) or untouched (insertion)')


def cn(T, k):
    return k


def build(bmi):
    """source, [(function, operand widths, expected)] ; expected(bits of operands) -> list of 64 bits, or (word -> value)"""
    src, fs = [], []
    for T in (8, 16, 32, 64):
        t = 'uint%d_t' % T
        pos = range(T) if T <= 16 else (0, 1, 3, 7, 8, 15, 16, 23, 30, 31, 32, 40, 47, 62, 63)
        lens = range(1, T + 1) if T <= 16 else (1, 2, 5, 8, 15, 16, 23, 31, 32, 33, 52, 63, 64)
        flds = [(o, n) for o in pos for n in lens if o + n <= T]
        if T == 16:
            flds = [f for i, f in enumerate(flds) if i % 3 == 0 or sum(f) == 16 or f[0] == 0]
        for o, n in flds:
            ext = lambda b, o=o, n=n: b[0][o:o + n]
            fn = 'w_get%d_%d_%d' % (T, o, n)
            src.append('u64 %s(%s x) { return bitset_get<%s,%d,%d>(x); }' % (fn, t, t, o, n))
            fs.append((fn, [T], ext))
            fn = 'w_getT%d_%d_%d' % (T, o, n)
            src.append('u64 %s(%s x) { return (%s)bitset_getT(x,%d,%d); }' % (fn, t, t, o, n))
            fs.append((fn, [T], ext))
            if bmi:
                fn = 'w_hwT%d_%d_%d' % (T, o, n)
                src.append('u64 %s(%s x) { return bitset_gethwT<%d,%d>(x); }' % (fn, t, o, n))
                fs.append((fn, [T], ext))
                if T in (16, 32):
                    fn = 'w_hw%d_%d_%d' % (T, o, n)
                    src.append('u64 %s(%s x) { return bitset_gethw(x,%d,%d); }' % (fn, t, o, n))
                    fs.append((fn, [T], ext))
            else:
                fn = 'w_rget%d_%d_%d' % (T, o, n)
                src.append('u64 %s(%s x) { return bitset_get(x,%d,%d); }' % (fn, t, o, n))
                fs.append((fn, [T], ext))
                for Y in ((T,) if o % 2 or T == 64 else (T, 64)):
                    ins = lambda b, o=o, n=n, T=T: b[0][:o] + b[1][:n] + b[0][o + n:T]
                    fn = 'w_part%d_%d_%d_%d' % (T, Y, o, n)
                    src.append('u64 %s(%s x, uint%d_t y) { return bitset_part<%s,uint%d_t,%d,%d>(x,y); }' % (fn, t, Y, t, Y, o, n))
                    fs.append((fn, [T, Y], ins))
                    fn = 'w_rpart%d_%d_%d_%d' % (T, Y, o, n)
                    src.append('u64 %s(%s x, uint%d_t y) { return bitset_part(x,y,%d,%d); }' % (fn, t, Y, o, n))
                    fs.append((fn, [T, Y], ins))
        for n in range(0, T + 1):
            if T > 16 and n not in (0, 1, 2, 3, 5, 8, 13, 23, 31, 32, 33, 52, 63, 64):
                continue
            top = lambda b, n=n, T=T: b[0][T - n:T]
            fn = 'w_lm%d_%d' % (T, n)
            src.append('u64 %s(%s x) { return bitset_leftmost_get_const<%s,%d>()(x); }' % (fn, t, t, n))
            fs.append((fn, [T], top))
            if n and not bmi:
                fn = 'w_lmT%d_%d' % (T, n)
                src.append('u64 %s(%s x) { return (%s)bitset_leftmost_getT(x,%d); }' % (fn, t, t, n))
                fs.append((fn, [T], top))
            if n:
                fn = 'w_msb%d_%d' % (T, n)
                src.append('u64 %s(%s x) { return bitset_msb<%s,%d>(x).to_ullong(); }' % (fn, t, t, n))
                fs.append((fn, [T], top))
                fn = 'w_lsb%d_%d' % (T, n)
                src.append('u64 %s(%s x) { return bitset_lsb<%s,%d>(x).to_ullong(); }' % (fn, t, t, n))
                fs.append((fn, [T], lambda b, n=n: b[0][:n]))
            fn = 'w_mask%d_%d' % (T, n)
            src.append('u64 %s() { return bitmask<%s>(%d); }' % (fn, t, n))
            fs.append((fn, [], lambda b, n=n: [1] * n))
        fn = 'w_all%d' % T
        src.append('u64 %s(%s x) { return bitset_all(x).to_ullong(); }' % (fn, t))
        fs.append((fn, [T], lambda b, T=T: b[0][:T]))
        # width changes, data aligned at the top
        for B in (8, 16, 32, 64):
            for ab, bb in sorted({(T, B), (T, B - 1), (max(T - 3, 1), B), (5, B), (T, 3), (T - 3, 3), (T - 1, B - 1), (T // 2, B // 2), (T // 2, 2), (5, 3), (3, 5), (T - 3, B - 1), (T - 1, B // 2)}
                                 | ({(i, j) for i in range(1, 9) for j in range(1, 9)} if T == 8 and B <= 16 else set())):
                b_ = 'uint%d_t' % B
                fn = 'w_cl%d_%d_%d_%d' % (T, ab, B, bb)
                src.append('u64 %s(%s x) { return cast_right_to_left<%s,%d,%s,%d>()(x); }' % (fn, t, t, ab, b_, bb))
                fs.append((fn, [T], lambda b, ab=ab, bb=bb: b[0][ab - bb:ab] if ab > bb else [0] * (bb - ab) + b[0][:ab]))
                fn = 'w_cm%d_%d_%d_%d' % (T, ab, B, bb)
                src.append('u64 %s(%s x) { return cast_msb<%s,%d,%s,%d>()(x); }' % (fn, t, t, ab, b_, bb))
                # operand has ab valid bits
                fs.append((fn, [(T, ab)], lambda b, ab=ab, bb=bb: b[0][ab - bb:ab] if ab > bb else [0] * (bb - ab) + b[0][:ab]))
        src.append('i64 w_clz%d(%s x) { return findbitleftmostC(x); }' % (T, t))
        src.append('i64 w_pcabs%d(int%d_t x) { return pcabs<int%d_t>(x); }' % (T, T, T))
        src.append('i64 w_pabs%d(int%d_t x) { return pabs<int%d_t>(x); }' % (T, T, T))
        if T < 64:
            src.append('u64 w_xmul%d(%s x, %s y) { return nextintop<%s>::extramul(x,y); }' % (T, t, t, t))
            src.append('u64 w_xdiv%d(uint%d_t x, %s y) { return nextintop<%s>::extradiv(x,y); }' % (T, 2 * T, t, t))
        else:
            src.append('u64 w_xmulh64(u64 x, u64 y) { return (u64)(nextintop<uint64_t>::extramul(x,y) >> 64); }')
            src.append('u64 w_xmull64(u64 x, u64 y) { return (u64)(nextintop<uint64_t>::extramul(x,y)); }')
            src.append('u64 w_xdiv64(u64 x, u64 z, u64 y) { return (u64)nextintop<uint64_t>::extradiv(((unsigned __int128)x << 64) | z,y); }')
    return HEAD + 'extern "C" {\n' + '\n'.join(src) + '\n}\n', fs


def field_cells(u, fs):
    def gen():
        for fn, ws, want in fs:
            def setup(M, fn=fn, ws=ws):
                a = [input_word('xyz'[i], w[0], w[1]) if type(w) is tuple else input_word('xyz'[i], w) for i, w in enumerate(ws)]
                return '@' + fn, a, a

            def finish(M, ret, a, ws=ws, want=want):
                bs = [list(bits_of(v, w[0] if type(w) is tuple else w)) for v, w in zip(a, ws)]
                b = want(bs)
                b = b + [0] * (64 - len(b))
                return [Obl('field', ret, mk(64, b), 64)]
            yield Cell(u, '%s %s' % (u, fn), setup, finish)
    return gen


def scalar_cells(u):
    def gen():
        for T in (8, 16, 32, 64):
            for k in range(T):
                def setup(M, T=T, k=k):
                    return '@w_clz%d' % T, [mk(T, [dom.inbit('x', i) for i in range(T - 1 - k)] + [1] + [0] * k)], None

                def finish(M, ret, o, k=k):
                    return [Obl('leading zeros', ret, k, 64)]
                yield Cell(u, '%s clz%d word with %d leading zeros' % (u, T, k), setup, finish)
            for f in ('pcabs', 'pabs'):
                for neg in (0, 1):
                    def setup(M, T=T, f=f, neg=neg):
                        x = mk(T, [dom.inbit('x', i) for i in range(T - 1)] + [neg])
                        if neg:
                            require_range(x, T, (1 << (T - 1)) + 1, mask(T))
                        return '@w_%s%d' % (f, T), [x], x

                    def finish(M, ret, x, T=T, neg=neg):
                        s = dom.sext(x, T, 64) if T < 64 else x
                        return [Obl('absolute value', ret, word64(dom.neg(x, T), T) if neg else s, 64)]
                    yield Cell(u, '%s %s%d %s' % (u, f, T, 'negative' if neg else 'non-negative'), setup, finish)
        for T in (8, 16, 32, 64):
            # products and quotients: one factor symbolic, the other from a set
            for y in sorted({0, 1, 2, 3, 5, mask(T), mask(T) >> 1, 1 << (T - 1), 0xA5A5A5A5A5A5A5A5 & mask(T), 0x0123456789ABCDEF & mask(T)}):
                def wide(x, T=T):
                    return dom.zext(x, T, 2 * T)
                for fn, part in ((('w_xmul%d' % T, 0),) if T < 64 else (('w_xmulh64', 1), ('w_xmull64', 0))):
                    def setup(M, fn=fn, y=y, T=T):
                        x = input_word('x', T)
                        return '@' + fn, [x, y], x

                    def finish(M, ret, x, y=y, T=T, part=part):
                        p = dom.mul(dom.zext(x, T, 2 * T), y, 2 * T)
                        if part:
                            p = dom.lshr(p, 64, 2 * T)
                        if T < 64:
                            p = dom.zext(dom.trunc(p, 2 * T, 64) if 2 * T > 64 else p, 2 * T, 64) if 2 * T < 64 else p
                        else:
                            p = dom.trunc(p, 128, 64)
                        return [Obl('full product', ret, p, 64)]
                    yield Cell(u, '%s %s(x, 0x%x)' % (u, fn, y), setup, finish)
            for q in (1, 2, 4, 1 << (T - 1)):
                if T == 64:
                    continue

                def setup(M, q=q, T=T):
                    x = input_word('x', 2 * T)
                    return '@w_xdiv%d' % T, [x, q], x

                def finish(M, ret, x, q=q, T=T):
                    b = list(bits_of(x, 2 * T))[q.bit_length() - 1:]
                    return [Obl('quotient', ret, mk(64, b + [0] * (64 - len(b))), 64)]
                yield Cell(u, '%s xdiv%d(x, 2^%d)' % (u, T, q.bit_length() - 1), setup, finish)
    return gen


def plan(cfgs=None):
    units, tasks = {}, []
    for u, fl, bmi in (('portable', (), 0), ('intrinsic', ('-mbmi',), 1)):
        src, fs = build(bmi)
        units[u] = (src, fl)
        for part in split(fs, 6):
            tasks.append(field_cells(u, part))
        if not bmi:
            tasks.append(scalar_cells(u))
    return dict(units=units, tasks=tasks, rule=RULE, min_obl=2500)
