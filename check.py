#!/usr/bin/env -S python3-vt
"""check.py PROPERTY [quick|thorough] -- see DESIGN.md"""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from irsym import runner        # noqa: E402
import registry                 # noqa: E402

if __name__ == '__main__':
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    only = sys.argv[3:] 
    units, meta = registry.get(prop)
    if only:
        sel = []
        for o in only:          # ENTRY, or ENTRY#k for the k-th unit of that entry
            e, _, k = o.partition('#')
            us = [u for u in units if u.entry == e]
            sel += [us[int(k)]] if k else us
        units = sel
    sys.exit(runner.run_property(prop, units, tier, meta))
