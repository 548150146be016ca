#!/usr/bin/env python3-vt
"""show.py MODULE UNIT NAMEPART [n]: print hypotheses and goal of undischarged obligations matching"""
import sys, os, threading
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(100000)
threading.stack_size(512 * 1024 * 1024)
def main():
    import importlib, z3
    z3.set_option(max_width=200, max_lines=400, max_depth=60, max_args=200)
    from vlib import proof
    mod = importlib.import_module('specs.' + sys.argv[1])
    for props, fac in mod.UNITS:
        u = fac()
        if u.name != sys.argv[2]: continue
        r = proof.run_unit(u, '/tmp/dev_' + u.name, timeout=int(os.environ.get('TMO', '3')))
        k = 0
        for f in r.funcs:
            for o in f.obls:
                if o.status != 'discharged' and sys.argv[3] in o.name:
                    print('#### ', o.name, o.kind, o.where, o.path, o.key)
                    for h in o.hyps: print('  H', ' '.join(str(h).split()))
                    print('  GOAL', ' '.join(str(o.goal).split()))
                    k += 1
                    if k >= int(sys.argv[4] if len(sys.argv) > 4 else 1): return
t = threading.Thread(target=main); t.start(); t.join()
