"""Discharging obligations: SMT-LIB files to z3, then cvc5, several at a time."""
import os, re, subprocess, tempfile, time, hashlib, shutil
from concurrent.futures import ThreadPoolExecutor
import z3

Z3 = shutil.which('z3-new') or shutil.which('z3')
Z3OLD = shutil.which('z3')
CVC5 = shutil.which('cvc5')

# A declared symbol with one of these names would be read as the solver's own
# function of that name, with its axioms: it is written under another name.
RESERVED = set('''exp sin cos tan csc sec cot arcsin arccos arctan arccsc arcsec arccot sqrt pi sinh cosh tanh
 asin acos atan asinh acosh atanh euler e abs mod div rem power pow pow2 iand select store map const is_int to_int to_real
 union intersection setminus member subset emptyset singleton card insert complement universe join product transpose
 tclosure tuple witness min max root length concat nil cons head tail if ite and or not implies iff distinct int2bv
 bv2int divisible partial_order linear_order lambda choice default array_ext'''.split())
OPS = set('''mod div abs store select const is_int to_int to_real ite and or not implies iff distinct if'''.split())
DECL = re.compile(r'^\(declare-fun (\S+) ', re.M)

def to_smt2(hyps, goal):
    s = z3.Solver()
    for h in hyps:
        s.add(h)
    s.add(z3.Not(goal))
    txt = s.to_smt2()
    for nm in DECL.findall(txt):
        if nm in RESERVED:
            if nm in OPS:
                raise RuntimeError('symbol %s would clash with a solver function' % nm)
            txt = re.sub(r'(?<![^\s()])%s(?![^\s()])' % re.escape(nm), nm + '!user', txt)
    return txt

Z3OPT = ['smt.auto_config=false', 'smt.mbqi=false', 'auto_config=false', 'smt.case_split=3', 'smt.relevancy=2',
         'smt.qi.eager_threshold=100', 'smt.arith.nl=true']

Z3PLAIN = ['smt.auto_config=false', 'smt.mbqi=false', 'auto_config=false']
def portfolio(timeout):
    return [('z3', 'z3', Z3PLAIN, min(4, timeout)),
            ('z3-eager', 'z3', Z3OPT, max(2, timeout // 3)),
            ('z3-4.8', 'old', [], min(4, timeout)),
            ('cvc5', 'cvc5', [], timeout),
            ('z3-default', 'z3', [], timeout),
            ('z3', 'z3', Z3PLAIN, timeout),
            ('z3-4.8', 'old', Z3PLAIN, timeout)]

def run_z3(path, timeout, opts=(), exe=None):
    t = time.time()
    try:
        p = subprocess.run([exe or Z3, '-T:%d' % timeout] + list(opts) + [path], capture_output=True, text=True, timeout=timeout + 5)
        out = p.stdout.strip().split('\n')[0] if p.stdout.strip() else 'unknown'
    except subprocess.TimeoutExpired:
        out = 'timeout'
    return out, time.time() - t

def run_cvc5(path, timeout):
    t = time.time()
    try:
        p = subprocess.run([CVC5, '--tlimit=%d' % (timeout * 1000), '--lang=smt2', path], capture_output=True, text=True, timeout=timeout + 5)
        out = p.stdout.strip().split('\n')[0] if p.stdout.strip() else 'unknown'
    except subprocess.TimeoutExpired:
        out = 'timeout'
    return out, time.time() - t

def fix_cvc5(txt):
    return '(set-logic ALL)\n' + txt.replace('(set-info :status unknown)', '')

class Budget:
    """when to stop: at a time, or once enough obligations have failed"""
    def __init__(self, deadline=None, enough=None):
        self.deadline, self.enough, self.failed = deadline, enough, 0
    def over(self):
        return self.deadline is not None and time.time() > self.deadline or self.enough is not None and self.failed >= self.enough

def discharge(obls, axioms, workdir, timeout=20, jobs=8, log=None, budget=None):
    """sets status of each obligation: discharged / refuted (sat) / undecided,
    or skipped when the budget was used up before it was tried"""
    budget = budget or Budget()
    os.makedirs(workdir, exist_ok=True)
    todo = []
    cache = {}
    for i, o in enumerate(obls):
        if o.status == 'discharged' or o.goal is None:
            continue
        txt = to_smt2(list(axioms) + o.hyps, o.goal)
        h = hashlib.sha256(txt.encode()).hexdigest()[:24]
        path = os.path.join(workdir, 'o%s.smt2' % h)
        o.path = path
        if h in cache:
            cache[h].append(o)
            continue
        cache[h] = [o]
        open(path, 'w').write(txt)
        todo.append((h, path))
    def one(job):
        h, path = job
        total = 0
        r, be = 'unknown', 'z3'
        if budget.over():
            return h, 'skipped', 0, be
        for name, kind, opts, tl in portfolio(timeout):
            if budget.over():
                # not tried in full: no answer
                return h, 'skipped', total, be
            if kind == 'cvc5':
                c5 = path[:-5] + '.c5.smt2'
                open(c5, 'w').write(fix_cvc5(open(path).read()))
                r1, t = run_cvc5(c5, tl)
            else:
                r1, t = run_z3(path, tl, opts, Z3OLD if kind == 'old' else None)
            total += t
            if r1 == 'unsat' or (r1 == 'sat' and name == 'z3-default'):
                r, be = r1, name
                break
            r = r1
        if r != 'unsat':
            budget.failed += 1
        return h, r, total, be
    with ThreadPoolExecutor(jobs) as ex:
        for h, r, t, be in ex.map(one, todo):
            for j, o in enumerate(cache[h]):
                o.time = t if j == 0 else 0.0
                o.backend = be
                o.status = 'discharged' if r == 'unsat' else 'refuted' if r == 'sat' else 'skipped' if r == 'skipped' else 'undecided'
                o.detail = r
    return obls

def not_unsat(hyps, axioms, workdir, timeout=5):
    """vacuity guard: the hypotheses must not be contradictory"""
    txt = to_smt2(list(axioms) + hyps, z3.BoolVal(False))
    h = hashlib.sha256(txt.encode()).hexdigest()[:24]
    path = os.path.join(workdir, 'v%s.smt2' % h)
    open(path, 'w').write(txt)
    r, t = run_z3(path, timeout, Z3OPT)
    return r != 'unsat', t

def covers_ok(covers, axioms, workdir, jobs=8, timeout=3):
    """vacuity guard.  Several paths may share the name of a cover; a name is
    fine when one of its paths is not contradictory."""
    names = []
    by = {}
    for nm, pc in covers:
        if nm not in by:
            by[nm] = []
            names.append(nm)
        by[nm].append(pc)
    texts = {nm: [to_smt2(list(axioms) + pc, z3.BoolVal(False)) for pc in by[nm][:40]] for nm in names}
    def one(nm):
        for i, txt in enumerate(texts[nm]):
            h = hashlib.sha256(txt.encode()).hexdigest()[:24]
            path = os.path.join(workdir, 'v%s.smt2' % h)
            open(path, 'w').write(txt)
            r, t = run_z3(path, timeout, Z3OPT)
            if r != 'unsat':
                return nm, True
        return nm, False
    with ThreadPoolExecutor(jobs) as ex:
        return list(ex.map(one, names))
