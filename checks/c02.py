"""C02 encoding"""
from core import Cell, Obl
from wit import posit_unit
from cells import *
import configs

RULE = ('abstract interpretation of encoding over a partition of (sign, exponent) by regime, with both saturating '
        'tails as ranges and the fraction and low exponent bits symbolic; every bit of the stored word must be the '
        'bit the truncated regime/exponent/fraction string assigns, sign extended to the storage width')


def exps(cfg, E):
    """(label, builder of the 64-bit exponent) covering every value of an E bit exponent type"""
    es = cfg.es
    out = []
    for r in range(cfg.minreg, cfg.maxreg + 1):
        def b(r=r):
            base = (r << es) & M64
            e = [dom.inbit('e', i) for i in range(es)]
            return mk(64, [e[i] if i < es else (base >> i) & 1 for i in range(64)])
        out.append(('regime %d' % r, b))
    lim = (1 << (E - 1)) - 1
    top = (cfg.maxreg << es) + (1 << es)
    if lim >= top:
        def hi():
            x = input_word('u', 64, E - 1)
            require_range(x, 64, top, lim)
            return x
        out.append(('above range', hi))
    bot = cfg.minreg << es
    if -lim - 1 < bot:
        def lo():
            x = input_word('u', 64, E - 1)
            require_range(x, 64, -bot, lim)
            return mk(64, [b ^ 1 for b in bits_of(x, 64)])    # -1-x < bot
        out.append(('below range', lo))
    return out


def full(u, cfg):
    def gen():
        for lab, eb in exps(cfg, cfg.E):
            for n in (0, 1):
                def setup(M, n=n, eb=eb):
                    x = Num(REG, n, eb(), frac('f', cfg.F), cfg.F)
                    return '@w_enc', arg_num(x, 64), x

                def finish(M, ret, x):
                    return [Obl('encoded word', ret, enc64(cfg, x), 64)]
                yield Cell(u, '%r encode(%s %s)' % (cfg, '-' if n else '+', lab), setup, finish)
    return gen


def low(u, cfg):
    def gen():
        for n in (0, 1):
            rs = [('regime %d' % r, r) for r in range(cfg.minreg, cfg.maxreg + 1)]
            lim = (1 << (cfg.H - 1)) - 1
            if lim > cfg.maxreg:
                rs.append(('regime above range', 'hi'))
                rs.append(('regime below range', 'lo'))
            for lab, r in rs:
                def setup(M, n=n, r=r):
                    if r == 'hi':
                        rw = input_word('r', 64, cfg.H - 1)
                        require_range(rw, 64, cfg.maxreg + 1, lim)
                    elif r == 'lo':
                        x = input_word('r', 64, cfg.H - 1)
                        require_range(x, 64, -cfg.minreg, lim)
                        rw = mk(64, [b ^ 1 for b in bits_of(x, 64)])
                    else:
                        rw = r & M64
                    e = mk(64, [dom.inbit('e', i) if i < cfg.es else 0 for i in range(64)])
                    f = frac('f', cfg.H)
                    return '@w_enclow', [0, n, rw, e, dom.zext(f, cfg.H, 64) if cfg.H < 64 else f], (e, f)

                def finish(M, ret, o, n=n, r=r):
                    e, f = o
                    if r == 'hi':
                        m = mask(cfg.N - 1) - (1 if cfg.both else 0)
                    elif r == 'lo':
                        m = 1
                    else:
                        m = spec.encode_bits(cfg, r, list(reversed(bits_of(e, 64)[:cfg.es])), list(reversed(bits_of(f, cfg.H))))
                    m = dom.zext(m, cfg.N, 64)
                    return [Obl('encoded word', ret, dom.neg(m, 64) if n else m, 64)]
                yield Cell(u, '%r pack_low(%s %s)' % (cfg, '-' if n else '+', lab), setup, finish)
    return gen


def plan(cfgs=None):
    units, tasks = {}, []
    for c in cfgs or configs.all_cfgs():
        units[c.name] = posit_unit(c)
        tasks += [full(c.name, c), low(c.name, c)]
    for u, c, src in configs.positf_units() if cfgs is None else ():
        units[u] = src
        tasks += [full(u, c), low(u, c)]
    return dict(units=units, tasks=tasks, rule=RULE, min_obl=1000)
