#!/usr/bin/env python3-vt
"""dev.py MODULE [UNIT ...]: run proof units and print what is not discharged"""
import sys, os, threading, time, shutil
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(100000)
threading.stack_size(512 * 1024 * 1024)
os.environ.setdefault('VERIF_TRACE', '1')
def main():
    import importlib
    from vlib import proof
    mod = importlib.import_module('specs.' + sys.argv[1])
    for props, fac in mod.UNITS:
        u = fac()
        if len(sys.argv) > 2 and not any(a == u.name for a in sys.argv[2:]):
            continue
        w = '/tmp/dev_' + u.name
        shutil.rmtree(w, ignore_errors=True)
        t = time.time()
        r = proof.run_unit(u, w, timeout=int(os.environ.get('TMO', '10')), log=print)
        n = sum(len(f.obls) for f in r.funcs); d = sum(1 for f in r.funcs for o in f.obls if o.status == 'discharged')
        print('== %s: %d/%d in %.1fs (solver %.1f) props %s' % (u.name, d, n, time.time() - t, r.solver_s, props))
        for f in r.funcs:
            for o in f.obls:
                if o.status != 'discharged':
                    print('  ', o.status, o.detail, '%.1f' % o.time, o.kind, '|', o.name, '|', o.where, o.path)
                elif o.time > 3: print('   slow %.1f %s %s' % (o.time, o.backend, o.name))
        print('   vacuous', r.vacuous, 'trusted', r.trusted, 'unmodelled', r.unmodelled)
t = threading.Thread(target=main); t.start(); t.join()
