#!/usr/bin/env python3-vt
"""check.py ID: decides property ID on /repo's current tree.

1. The contracts of the functions the property depends on are attached to the
   functions extracted from /repo (clang AST) and every obligation is
   discharged (z3, cvc5).
2. The real code is run against an executable oracle (the replay harness): it
   looks for a failing input, which confirms a failed obligation, and it is the
   bounded stand-in for what no contract covers."""
import sys, os, json, time, re, shutil, tempfile, threading
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(100000)
threading.stack_size(512 * 1024 * 1024)
from vlib import harness, proof, known
from cppvc import smt

ASAN = ('C19', 'C20')          # memory safety is part of the property
SECONDS = {'quick': 15, 'thorough': 200}

def props():
    return {p['id']: p for p in (json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl')) if l.strip())}

def main():
    prop = sys.argv[1]
    if prop == '--setup':
        # nothing to build: every check extracts and builds from /repo itself
        print('cppvc ready')
        return 0
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in SECONDS:
        tier = 'quick'
    if '--thorough' in sys.argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    P = props()[prop]
    bdir = os.path.join(HERE, 'build')
    os.makedirs(bdir, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix=prop + '.', dir=bdir)
    try:
        rc = run(prop, P, tier, seed, tmp, bdir, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return rc

def run(prop, P, tier, seed, tmp, bdir, t0):
    log = lambda s: print(s, flush=True)
    # ---------------------------------------------------------------- proof
    from specs import registry
    results = []
    budget = smt.Budget(t0 + (570 if tier == 'quick' else 2400), 16)
    skipped = []
    for fac in registry.units(prop):
        u = fac()
        try:
            r = proof.run_unit(u, os.path.join(tmp, 'smt_' + re.sub(r'\W', '_', u.name)), timeout=10 if tier == 'quick' else 40, log=log, retry=True, budget=budget)
        except Exception as e:                       # the machinery failed on this source: it proves nothing here
            if os.environ.get('VERIF_STRICT'):
                raise
            r = proof.UnitResult(u.name)
            f = proof.FuncResult(u.name)
            f.detached = 'internal: %s: %s' % (e.__class__.__name__, e)
            r.funcs.append(f)
        results.append(r)
    bad, detached, vac = [], [], []
    nobl = ndis = 0
    backends = {}
    for r in results:
        vac += r.vacuous
        for f in r.funcs:
            if f.detached:
                detached.append((f.name, f.detached))
            for o in f.obls:
                nobl += 1
                if o.status == 'discharged':
                    ndis += 1
                    backends[o.backend] = backends.get(o.backend, 0) + 1
                elif o.status == 'skipped':
                    skipped.append((f, o))
                else:
                    bad.append((f, o))
    for n, why in detached:
        log('NOT ATTACHED %s: %s' % (n, why))
    for v in vac:
        log('VACUOUS %s' % v)
    for f, o in bad[:40]:
        log('OBLIGATION %s: %s [%s] %s (%s)' % (o.status, o.name, o.kind, f.name, o.where))
    if skipped:
        log('%d obligations not tried: %s' % (len(skipped), 'enough others have failed' if bad else 'no time left; nothing is concluded from them'))
    log('%s: %d obligations, %d discharged' % (prop, nobl, ndis))
    # --------------------------------------------------------------- search
    secs = SECONDS[tier]
    if bad:
        secs = max(secs, 60)
    hits, trials, builds = [], 0, []
    modes = [True] if prop in ASAN else [False]
    if tier == 'thorough' and prop not in ASAN:
        modes = [False, True]
    for san in modes:
        b = os.path.join(tmp, 'bin%d' % san)
        try:
            exe, tool = harness.build(prop, b, sanitize=san)
        except harness.BuildError as e:
            # an interface the harness calls has changed: no verdict from it
            log('search not built: %s' % str(e)[:3000])
            builds.append('not built')
            continue
        builds.append('ASan+UBSan' if san else '-O1')
        rs = harness.search(prop, exe, tool, seed + (500 if san and len(modes) > 1 else 0), secs / len(modes), os.path.join(tmp, 'run%d' % san))
        for x in rs:
            trials += x['trials']
            if x['fail']:
                x['san'] = san
                hits.append(x)
        log('search (%s): %d trials, %d failing seeds' % (builds[-1], sum(x['trials'] for x in rs), sum(1 for x in rs if x['fail'])))
    kn = known.findings(prop)
    listed, new = [], []
    for x in hits:
        k = [w for rx, w in kn if rx.search(x['fail'])]
        (listed if k else new).append((x, k))
    for w in sorted(set(w for x, ks in listed for w in ks)):
        log('KNOWN-FINDING: property=%s %s' % (prop, w))
    # -------------------------------------------------------------- verdict
    line = None
    if new or bad:
        rp = os.path.join(bdir, 'replays')
        os.makedirs(rp, exist_ok=True)
        path = os.path.join(rp, '%s.%s.txt' % (prop, 'input' if new else 'obligation'))
        with open(path, 'w') as fo:
            fo.write('property %s: %s\n\n' % (prop, P['title']))
            for x, _ in new[:3]:
                t = re.search(r'trial (\d+)', x['fail'])
                fo.write('FAILING INPUT (real code, seed %d%s%s)\n%s\n%s\n' % (x['seed'], ', trial ' + t.group(1) if t else '', ', ASan+UBSan' if x['san'] else '', x['fail'], ('stderr:\n' + x['stderr']) if x.get('stderr') else ''))
                fo.write('rerun: build the harness (vlib/harness.py build) and run `replay %s %d 0 SCRATCH TOOL-OR-DASH %s`\n\n' % (prop, x['seed'], t.group(1) if t else '0'))
            for f, o in bad[:20]:
                fo.write('FAILED OBLIGATION %s\n  function %s\n  at %s\n  kind %s, solver answer %s after %.1fs\n' % (o.name, f.name, o.where, o.kind, o.detail, o.time))
                fo.write('  goal %s\n\n' % re.sub(r'\s+', ' ', str(o.goal))[:1500])
        line = 'VIOLATION property=%s replay=%s%s' % (prop, path, '' if new else ' no-failing-input-found')
    if detached and not line:
        log('%s: part of the proof could not be attached to the changed source; the bounded search decides it in this run' % prop)
    # ------------------------------------------------------------- evidence
    under = [dict(function=f.name, obligations=len(f.obls), discharged=sum(1 for o in f.obls if o.status == 'discharged'), paths=f.paths, attached=f.detached is None, **({'reason': f.detached} if f.detached else {})) for r in results for f in r.funcs]
    trusted = sorted(set(x for r in results for x in r.trusted))
    assume = list(P.get('assumptions', [])) + registry.assumptions(prop)
    level = registry.level(prop)
    if not results:
        level = 'other'
    cov = dict(obligations=nobl, discharged=ndis, not_tried=len(skipped),
               checker_cmd='python3-vt check.py %s (cppvc: clang AST -> verification conditions; z3, cvc5)' % prop,
               trusted_base=registry.trusted_base(prop) + ['assumed contract: ' + t for t in trusted],
               functions_under_contract=under,
               functions_inlined=sorted(set(x for r in results for x in r.inlined)),
               callee_contracts_used=sorted(set(x for r in results for x in r.used)),
               unmodelled=sorted(set(x for r in results for x in r.unmodelled)),
               back_ends=backends,
               solver_seconds=round(sum(r.solver_s for r in results), 1),
               vacuity_guards=dict(checked=sum(getattr(r, 'ncovers', 0) for r in results), contradictory=vac),
               bounded_search=dict(label='bounded, not counted as proved', trials=trials, seeds='%d..%d' % (seed * 1000, seed * 1000 + 6), seconds=secs, builds=builds, what=registry.bounded(prop)),
               evaluations=trials,
               explanation=registry.explanation(prop))
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=assume, wall_s=round(time.time() - t0, 2), violations=len(new) or (1 if bad else 0))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as fo:
        json.dump(ev, fo, indent=1)
    if vac and not line:
        # a contradictory contract proves nothing about the function it belongs to
        log('contradictory hypotheses: the bounded search decides those functions in this run')
        if os.environ.get('VERIF_STRICT'):
            return 2
    if line:
        print(line, flush=True)
        return 1
    log('%s: no violation (%.0fs)' % (prop, time.time() - t0))
    return 0

def guarded():
    global RC
    RC = 2
    RC = main()

if __name__ == '__main__':
    t = threading.Thread(target=guarded)
    t.start()
    t.join()
    sys.exit(RC)
