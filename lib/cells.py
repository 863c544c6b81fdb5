"""Partition cells shared by the checks."""
import dom
import interp
import spec
from core import Cell, Obl, input_word, require_range
from dom import mk, bits_of, mask
from wit import Cfg, REG, INF, NAN, ZERO
from spec import Pat, Num, patterns

M64 = mask(64)


def outs(n):
    return [interp.Ptr(interp.Obj('out%d' % i, 8), 0) for i in range(n)]


def oval(p):
    return p.obj.load(p.off, 8)


def regbad(desc, w, what):
    return desc


def num_obls(o, x, what='', sign=True):
    """outputs (kind, sign, exponent, fraction) must describe number x"""
    r = [Obl(what + 'kind', oval(o[0]), x.t, 64)]
    if x.t != NAN and sign:
        r.append(Obl(what + 'sign', oval(o[1]), x.n, 64))
    if x.t == REG:
        r.append(Obl(what + 'exponent', oval(o[2]), x.e, 64))
        r.append(Obl(what + 'fraction', oval(o[3]), dom.zext(x.f, x.W, 64) if x.W < 64 else x.f, 64))
    return r


def word64(x, w):
    return x if w == 64 else dom.sext(x, w, 64)


# ------------------------------------------------ unary functions of a pattern
def unary(unit, cfg, fname, want, pats=None, label=None, max_cells=600, flt=None):
    """cells: fname(pattern) must return want(pat) (64-bit word); want may split"""
    def gen():
        for p in (pats if pats is not None else patterns(cfg)):
            if flt is not None and not flt(p):
                continue

            def setup(M, p=p):
                return '@w_' + fname, [p.word()], None

            def finish(M, ret, o, p=p):
                w = want(p)
                if w is None:
                    return []
                return [Obl(label or fname, ret, w, 64)]
            yield Cell(unit, '%r %s(%r)' % (cfg, label or fname, p), setup, finish, max_cells)
    return gen


def binary(unit, cfg, fname, want, pairs, label=None, max_cells=600):
    def gen():
        for p, q in pairs:
            def setup(M, p=p, q=q):
                return '@w_' + fname, [p.word(), q.word()], None

            def finish(M, ret, o, p=p, q=q):
                w = want(p, q)
                if w is None:
                    return []
                return [Obl(label or fname, ret, w, 64)]
            yield Cell(unit, '%r %s(%r, %r)' % (cfg, label or fname, p, q), setup, finish, max_cells)
    return gen


def enc64(cfg, x):
    """64-bit expected value of encoding number x in cfg"""
    return spec.sext_word(spec.encode(cfg, x), cfg)


def split(gen_items, n):
    """round robin split of a list into n lists"""
    items = list(gen_items)
    return [items[i::n] for i in range(n) if items[i::n]]


# ------------------------------------------------ exponent words
def exp_const(e):
    return e & M64


def exp_tail(name, n, base):
    """64-bit exponent base + u, u an n-bit input word"""
    u = input_word(name, 64, n)
    return dom.add(u, base & M64, 64)


def exp_neg_tail(name, n, base):
    """64-bit exponent base - u"""
    u = input_word(name, 64, n)
    return dom.sub(base & M64, u, 64)


def frac(name, W):
    return input_word(name, W)


def arg_num(x, W):
    """argument list (kind, sign, exponent, fraction) of a number"""
    return [x.t, x.n if type(x.n) is int else x.n, x.e if x.t == REG else 0,
            (dom.zext(x.f, x.W, 64) if x.W < 64 else x.f) if x.t == REG else 0]
