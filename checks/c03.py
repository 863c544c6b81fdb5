"""C03 round trip"""
from wit import posit_unit
from cells import *
import configs

RULE = ('abstract interpretation of unpack followed by pack (both unpacked forms) over a partition of all patterns; '
        'every bit of the result must be the corresponding bit of the operand')


def plan(cfgs=None):
    units, tasks = {}, []
    for c in cfgs or configs.fit_cfgs():
        units[c.name] = posit_unit(c)
        for f in ('rt', 'rtlow'):
            tasks.append(unary(c.name, c, f, lambda p: word64(p.word(), p.cfg.H), label={'rt': 'pack(unpack)', 'rtlow': 'pack_low(unpack_low)'}[f]))
    if cfgs is None:
        for u, c, src in configs.positf_units():
            units[u] = src
            for f in ('rt', 'rtlow'):
                tasks.append(unary(u, c, f, lambda p: word64(p.word(), p.cfg.H), label='PositF ' + f))
        for u, c, src in configs.tab_units():
            units[u] = src
            for f in ('rt', 'rtlow', 'rtp'):
                tasks.append(unary(u, c, f, lambda p: word64(p.word(), p.cfg.H), label=c.tname + ' ' + f))
    return dict(units=units, tasks=tasks, rule=RULE, min_obl=1000)
