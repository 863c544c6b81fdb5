"""C12 no undefined behaviour"""
import importlib
import time
import core
from core import TIER
from wit import Cfg

RULE = ('abstract interpretation of the witness functions of the other properties over the same partitions, with the values ignored: every shift, '
        'signed addition / subtraction / multiplication, division, leading zero count, float to integer conversion, load, store and array access '
        'executed on any path is an obligation to be defined (and to read only initialised data); unoptimised code is analysed, so nothing has been assumed away')

# module -> analyse every configuration (True) or the subset
PARTS = {'c01': False, 'c02': False, 'c03': True, 'c04': True, 'c06': False, 'c07': True, 'c08': False, 'c09': False,
         'c10': False, 'c11': False, 'c14': True, 'c16': False, 'c17': False, 'c18': False, 'c19': False, 'c20': False, 'c24': False}

CFGS = [Cfg(8, 8, 0, 8, 'WithNanInf'), Cfg(8, 5, 2, 8, 'WithInf'), Cfg(8, 8, 3, 32, 'WithNan'), Cfg(16, 12, 2, 16, 'WithNan'),
        Cfg(16, 16, 3, 64, 'WithInf'), Cfg(32, 32, 2, 32, 'WithNan'), Cfg(32, 32, 1, 16, 'WithNanInf'), Cfg(64, 40, 2, 64, 'WithNan')]


def wrap(task, prefix):
    def gen():
        for cell in task():
            cell.unit = prefix + cell.unit
            cell.finish = nothing
            yield cell
    return gen


def nothing(M, ret, o):
    return []


def plan_all():
    units, tasks = {}, []
    for m, every in PARTS.items():
        try:
            mod = importlib.import_module(m)
        except ImportError:
            continue
        pl = mod.plan() if every or TIER == 'thorough' else mod.plan(CFGS)
        for u, s in pl['units'].items():
            units[m + u] = s
        tasks += [wrap(t, m) for t in pl['tasks']]
    return units, tasks


def check(tmp):
    units, tasks = plan_all()
    st = core.run_tasks(units, tasks, tmp, ub='only', budget=600 if TIER != 'thorough' else 3000)
    return dict(rule=RULE, stats_list=[('ub', st)], min_obl=1000, extra={'possible_events': st.maybe_events})
