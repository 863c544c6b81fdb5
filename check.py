#!/usr/bin/env python3
"""python3 check.py <property id>: decide one property on /repo's current tree"""
import importlib
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
sys.path.insert(0, os.path.join(HERE, 'checks'))
sys.dont_write_bytecode = True
import core


def main():
    pid = sys.argv[1].upper()
    mod = importlib.import_module(pid.lower())
    if hasattr(mod, 'check'):
        core.main(pid, mod.check)
    else:
        def run(tmp):
            pl = mod.plan()
            st = core.run_tasks(pl['units'], pl['tasks'], tmp)
            return dict(rule=pl['rule'], stats_list=[(pl.get('label', 'all'), st)], extra=pl.get('extra'),
                        min_obl=pl.get('min_obl', 100), assumptions=pl.get('assumptions', ()))
        core.main(pid, run)


if __name__ == '__main__':
    main()
