"""Runs verification units: extracts the functions from /repo, generates the
obligations of every function under contract and discharges them."""
import os, re, sys, time, traceback
from cppvc.astload import Program, ExtractError, dty, ty
from cppvc.ctypes_ import Unsupported, parse, param_as_class
from cppvc.calls import Executor
from cppvc.sym import Contract
from cppvc import smt

class Target:
    """one real function verified against one contract"""
    def __init__(self, contract, this_dtype=None, func=None, opts=None, need_cover=True):
        self.contract, self.this_dtype, self.func, self.opts = contract, this_dtype, func, opts
        self.need_cover = need_cover

class Unit:
    def __init__(self, name, sources, filters, theory, targets, contracts=(), opts=None, note=''):
        """theory: factory; targets: list of Target; contracts: further contracts
        callers may use (those of other units, or trusted)."""
        self.name, self.sources, self.filters = name, sources, filters
        self.theory, self.targets, self.contracts = theory, targets, list(contracts)
        self.opts = opts or {}
        self.note = note

class FuncResult:
    def __init__(self, name):
        self.name = name
        self.obls = []
        self.covers = []
        self.detached = None      # reason the contract could not be attached
        self.paths = 0
        self.gen_s = 0.0

class UnitResult:
    def __init__(self, unit):
        self.unit = unit
        self.funcs = []
        self.inlined, self.used, self.trusted, self.unmodelled = set(), set(), set(), set()
        self.solver_s = 0.0
        self.vacuous = []
        self.files = {}

def select(P, t):
    if t.func is not None:
        fs = t.func(P)
    else:
        fs = [f for f in P.funcs.get(t.contract.qname, []) if t.contract.matches(f)]
    if not fs:
        raise ExtractError('function %s not found' % t.contract.qname)
    if len(fs) > 1 and len(set(f.sig() for f in fs)) > 1:
        raise ExtractError('function %s is ambiguous' % t.contract.qname)
    return fs[0]

def run_unit(u, workdir, timeout=10, jobs=8, log=None, retry=False, budget=None):
    budget = budget or smt.Budget()
    res = UnitResult(u)
    param_as_class(u.opts.get('param_struct'))
    T = u.theory()
    res.theory = T
    allc = [t.contract for t in u.targets] + u.contracts
    obls = []
    try:
        P = Program(u.sources, u.filters)
        res.files = P.files
    except ExtractError as e:
        r = FuncResult(u.name)
        r.detached = str(e)
        res.funcs.append(r)
        return res
    for t in u.targets:
        r = FuncResult(t.contract.qname + (' [%s]' % t.this_dtype if t.this_dtype else ''))
        res.funcs.append(r)
        t0 = time.time()
        try:
            f = select(P, t)
            r.name = f.sig() + (' [%s]' % t.this_dtype if t.this_dtype else '')
            opts = dict(u.opts)
            opts.update(t.opts or {})
            # a contract is assumed at recursive calls, and that of every other function
            opts['deadline'] = min(time.time() + 150, budget.deadline or 1e12)
            ex = Executor(P, T, allc, opts)
            o = ex.verify(f, t.contract, this_dtype=t.this_dtype)
            extra = [k for k in ex.loops_seen if k not in t.contract.loops]
            if extra:
                r.detached = 'loops %s have no invariant' % sorted(extra)
            shape = [x for x in o if x.kind == 'shape']
            if shape:
                r.detached = shape[0].name
            if r.detached is None:
                r.obls = o
                r.covers = ex.covers
            r.paths = ex.npaths
            res.inlined |= ex.inlined
            res.used |= ex.used_contracts
            res.trusted |= ex.trusted_used
            res.unmodelled |= ex.unmodelled
        except (Unsupported, ExtractError) as e:
            r.detached = str(e) or e.__class__.__name__
        except Exception as e:                       # the extracted code does not fit the generator
            r.detached = 'internal: %s: %s' % (e.__class__.__name__, e)
            if os.environ.get('VERIF_TRACE'):
                traceback.print_exc()
        r.gen_s = time.time() - t0
        obls += r.obls
        if log:
            log('%s: %d obligations, %d paths, %.1fs%s' % (r.name, len(r.obls), r.paths, r.gen_s, ' DETACHED ' + r.detached if r.detached else ''))
    ax = T.axioms()
    from cppvc.sym import Obl
    lem = FuncResult('lemmas of ' + u.name)
    used = []
    for L in T.lemmas:
        for name, hyps, goal in L.obls:
            lem.obls.append(Obl('%s: %s' % (L.name, name), 'lemma', used + list(hyps), goal, 'lemma', ''))
        used = used + [L.formula]
    t0 = time.time()
    if lem.obls:
        res.funcs.append(lem)
        smt.discharge(lem.obls, ax, workdir, timeout=timeout, jobs=jobs, budget=budget)
    ax = ax + used
    smt.discharge(obls, ax, workdir, timeout=timeout, jobs=jobs, budget=budget)
    # a few unanswered ones may be due to a loaded machine: ask again, with more time
    again = [o for o in obls if o.status == 'undecided']
    if retry and 0 < len(again) <= 8 and not budget.over():
        failed = budget.failed
        smt.discharge(again, ax, workdir, timeout=4 * timeout, jobs=max(1, jobs // 2), budget=smt.Budget(budget.deadline))
        for o in again:
            if o.status == 'skipped':
                o.status = 'undecided'
        budget.failed = failed - sum(1 for o in again if o.status == 'discharged')
    # vacuity: no contract's hypotheses may be contradictory
    cov = []
    for r in res.funcs:
        if r.obls and r.name != lem.name:
            if not r.covers:
                res.vacuous.append('%s: no path reaches an exit or the end of a loop body' % r.name)
            for nm, pc in r.covers:
                cov.append((r.name + ' ' + nm, pc))
    for o in lem.obls:
        cov.append(('lemma ' + o.name, o.hyps))
    for (nm, ok) in smt.covers_ok(cov, ax, workdir, jobs=jobs):
        if not ok:
            res.vacuous.append(nm)
    res.solver_s = sum(o.time for o in obls + lem.obls)
    res.wall_solve = time.time() - t0
    res.ncovers = len(cov)
    return res
