"""Builds /repo's current sources with the concrete search harness and runs it."""
import os, subprocess, glob, re, sys, time, shutil, json
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PSDD_REPO', '/repo')
NO_HTD = ('jointree_vtree.cpp', 'hypergraph_decomposition_vtree.cpp')   # need libhtd / libkahypar
PGM = ('pgm_compiler.cpp', 'minfill_vtree.cpp', 'uai_network.cpp')
NEEDS_PGM = ('C18', 'C24')

class BuildError(Exception):
    pass

def has_main(p):
    return re.search(r'^\s*int\s+main\s*\(', open(p, errors='replace').read(), re.M) is not None

def build(prop, outdir, sanitize=False, jobs=8):
    """-> (replay executable, tool executable or None)"""
    os.makedirs(outdir, exist_ok=True)
    fl = ['-g', '-O1', '-w', '-I' + os.path.join(VERIF, 'replay/stubs'), '-I' + os.path.join(REPO, 'include')]
    if sanitize:
        fl += ['-fsanitize=address,undefined', '-fno-sanitize=float-cast-overflow,vptr', '-fno-sanitize-recover=undefined']
    pgm = prop in NEEDS_PGM
    srcs = []
    for p in sorted(glob.glob(REPO + '/src/*.cpp') + glob.glob(REPO + '/src/*.c')):
        b = os.path.basename(p)
        if b in NO_HTD or has_main(p) or (b in PGM and not pgm):
            continue
        srcs.append(p)
    hs = [os.path.join(VERIF, 'replay', x) for x in ['common.cpp', 'trials.cpp', 'main.cpp'] + (['trials_pgm.cpp'] if pgm else [])]
    objs = []
    cmds = []
    for p in hs + srcs:
        o = os.path.join(outdir, ('h_' if p in hs else 's_') + os.path.basename(p) + '.o')
        objs.append(o)
        cmds.append((['gcc', '-std=gnu99'] if p.endswith('.c') else ['g++', '-std=c++17']) + fl + (['-DONLY_' + prop] if p in hs else []) + ['-c', p, '-o', o])
    tool = None
    if prop == 'C23':
        o = os.path.join(outdir, 'tool.o')
        cmds.append(['g++', '-std=c++17'] + fl + ['-c', REPO + '/psdd_inference_main.cpp', '-o', o])
        tool = o
    def run(c):
        p = subprocess.run(c, capture_output=True, text=True)
        return c, p.returncode, p.stderr
    with ThreadPoolExecutor(jobs) as ex:
        for c, rc, err in ex.map(run, cmds):
            if rc != 0:
                raise BuildError('%s\n%s' % (' '.join(c), err[-3000:]))
    exe = os.path.join(outdir, 'replay')
    lib = ['-L' + REPO + '/lib/linux', '-lsdd', '-lgmpxx', '-lgmp', '-lm']
    fs = [f for f in fl if f.startswith('-fsan') or f.startswith('-fno-san')]
    r = run(['g++', '-no-pie'] + fs + objs + lib + ['-o', exe])
    if r[1] != 0:
        raise BuildError(r[2][-3000:])
    if tool:
        t = os.path.join(outdir, 'psdd_inference')
        r = run(['g++', '-no-pie'] + fs + [tool] + [o for o in objs if os.path.basename(o).startswith('s_')] + lib + ['-o', t])
        if r[1] != 0:
            raise BuildError(r[2][-3000:])
        tool = t
    return exe, tool

def search(prop, exe, tool, seed, seconds, scratch, procs=7):
    """-> dict(trials, failures=[...])"""
    def one(k):
        d = os.path.join(scratch, 's%d' % k)
        os.makedirs(d, exist_ok=True)
        s = seed * 1000 + k
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=1', UBSAN_OPTIONS='halt_on_error=1:abort_on_error=1')
        out, err = os.path.join(d, 'out'), os.path.join(d, 'err')
        hung = False
        with open(out, 'wb') as fo, open(err, 'wb') as fe:
            p = subprocess.Popen([exe, prop, str(s), str(seconds), d] + ([tool] if tool else []), stdout=fo, stderr=fe, env=env, cwd=d)
            try:
                rc = p.wait(seconds + 120)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                rc, hung = -9, True
        o = open(out, 'rb').read().decode('utf8', 'replace')
        e = open(err, 'rb').read()[-4000:].decode('utf8', 'replace')
        m = re.search(r'OK (\d+) trials\s*$', o)
        if rc == 0 and m:
            return dict(seed=s, trials=int(m.group(1)), fail=None)
        i = max(o.rfind('\nFAIL '), 0 if o.startswith('FAIL ') else -1)
        msg = o[i:].strip() if i >= 0 else 'the search ended with status %s%s' % (rc, ' (no answer)' if hung else '')
        t = re.search(r'trial (\d+)', msg)
        return dict(seed=s, trials=0, fail=msg[:8000], rc=rc, stderr=e, hung=hung)
    with ThreadPoolExecutor(procs) as ex:
        rs = list(ex.map(one, range(procs)))
    return rs
