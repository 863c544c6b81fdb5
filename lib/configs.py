"""configurations analysed"""
from core import TIER
from wit import Cfg, SPECS

BASE = [
    (8, 8, 0, 8), (8, 8, 1, 8), (8, 8, 2, 16), (8, 8, 3, 32), (8, 6, 1, 8), (8, 5, 0, 16), (8, 5, 2, 8), (8, 7, 4, 8),
    (16, 16, 0, 16), (16, 16, 1, 16), (16, 16, 2, 32), (16, 16, 3, 64), (16, 12, 2, 16), (16, 10, 2, 16), (16, 9, 0, 32), (16, 14, 1, 8),
    (32, 32, 2, 32), (32, 32, 3, 64), (32, 28, 5, 32), (32, 20, 1, 32), (32, 31, 0, 64), (32, 32, 1, 16),
    (64, 60, 3, 64), (64, 40, 2, 64), (64, 62, 1, 64), (64, 50, 0, 32),
    (16, 16, 9, 16), (32, 32, 10, 32), (32, 24, 12, 64), (64, 48, 8, 64),
]
ROT = {}


def all_cfgs():
    out = []
    for i, b in enumerate(BASE):
        sp = SPECS if TIER == 'thorough' or b[0] <= 8 else ('WithNan', SPECS[1 + i % 2])
        for s in sp:
            out.append(Cfg(*b, s))
    return out


def decode_cfgs():
    return all_cfgs()


def fit_cfgs():
    """fraction type holds every fraction"""
    return [c for c in all_cfgs() if c.F >= c.H or c.F >= c.N - 2]


def small_cfgs():
    return [c for c in all_cfgs() if c.N <= 12]


def bmi_cfgs():
    return [Cfg(8, 8, 2, 8), Cfg(16, 16, 1, 32), Cfg(32, 32, 2, 32), Cfg(64, 60, 3, 64)]


PF = [(8, 8, 0, 32), (8, 8, 2, 64), (8, 6, 1, 32), (16, 16, 1, 32), (16, 12, 2, 64), (32, 32, 2, 64), (32, 20, 1, 32), (16, 16, 0, 64)]


def positf_units():
    """(unit, cfg, source) of the float backed posits"""
    from wit import positf_unit
    out = []
    for i, b in enumerate(PF):
        for s in (SPECS if TIER == 'thorough' or i < 2 else (SPECS[i % 3],)):
            c = Cfg(*b, s)
            c.flavor = 'PositF<%s>' % ('float' if b[3] == 32 else 'double')
            out.append(('f' + c.name, c, positf_unit(c, 'float' if b[3] == 32 else 'double')))
    return out


def tab_units():
    """(unit, cfg, source) of the table-driven posits"""
    from core import REPO
    from wit import tab_unit, TABS
    out = []
    for n, b in TABS.items():
        c = Cfg(*b, 'WithNan')
        c.tname = n
        out.append((n, c, tab_unit(n, REPO)))
    return out
