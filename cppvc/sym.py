"""Verification-condition generator: symbolic execution of clang ASTs of the
real functions, loops cut by invariants, calls replaced by contracts (or inlined
when they have none), every path explored."""
import re
import time
import z3
from .astload import ExtractError, ty, dty
from .ctypes_ import *
from . import ctypes_ as CT

NULL = z3.IntVal(0)

class PathEnd(Exception):
    pass
class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v
class BreakEx(Exception):
    pass
class ContinueEx(Exception):
    pass
class NeedBranch(Exception):
    pass

class LV:
    """location: root ('var', key) | ('heap', cls, ref); path of ('f',n)/('i',k)"""
    __slots__ = ('root', 'path', 't')
    def __init__(self, root, path, t):
        self.root, self.path, self.t = root, path, t
    def f(self, name, t):
        return LV(self.root, self.path + (('f', name),), t)
    def i(self, k, t):
        return LV(self.root, self.path + (('i', k),), t)
    def __repr__(self):
        return 'LV(%s,%s)' % (self.root, self.path)

class Ref:
    """binding of a C++ reference variable"""
    def __init__(self, lv):
        self.lv = lv

class PyPtr:
    """pointer to a location that is not a heap object"""
    def __init__(self, lv):
        self.lv = lv

class PairRef:
    """*it of a map: key is a value, second is a location"""
    def __init__(self, first, second, t):
        self.first, self.second, self.t = first, second, t

class Snap:
    """enumeration of a map/set at the time begin() was called"""
    def __init__(self, n, en, inv, val=None):
        self.n, self.en, self.inv, self.val = n, en, inv, val

class It:
    __slots__ = ('lv', 'kind', 'pos', 'key', 'snap')
    def __init__(self, lv, kind, pos=None, key=None, snap=None):
        self.lv, self.kind, self.pos, self.key, self.snap = lv, kind, pos, key, snap

class Lambda:
    def __init__(self, node, frame, this):
        self.node, self.frame, self.this = node, frame, this

class Opaque:
    """I/O objects and other values no contract talks about"""
    def __init__(self, t=None):
        self.t = t

def counter_facts(c, k):
    """c(j) held for every 0 <= j < k.  For a disequality d0 + s*j != 0 with
    s = 1 or -1 this means that the counter has not passed the zero."""
    out = []
    todo = [c]
    while todo:
        e = todo.pop()
        if z3.is_and(e):
            todo += e.children()
            continue
        a = b = None
        if z3.is_not(e) and z3.is_eq(e.arg(0)):
            a, b = e.arg(0).children()
        elif z3.is_distinct(e) and e.num_args() == 2:
            a, b = e.children()
        if a is None or a.sort() != z3.IntSort():
            continue
        d = lambda j: z3.substitute(a - b, (k, j))
        d0 = d(z3.IntVal(0))
        s = z3.simplify(d(k + 1) - d(k))
        if not z3.is_int_value(s):
            continue
        s = s.as_long()
        if s == -1:
            out.append(z3.Or(d0 < 0, d0 >= k))
        elif s == 1:
            out.append(z3.Or(d0 > 0, d0 <= -k))
    return out

class Obl:
    __slots__ = ('name', 'kind', 'hyps', 'goal', 'func', 'where', 'key', 'status', 'backend', 'time', 'detail', 'lemmas', 'path')
    def __init__(self, name, kind, hyps, goal, func, where):
        self.name, self.kind, self.hyps, self.goal = name, kind, hyps, goal
        self.func, self.where = func, where
        self.status = None
        self.backend = None
        self.time = 0.0
        self.detail = ''

def is_qf(e):
    todo = [e]
    seen = set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return False
        todo.extend(x.children())
    return True

def consts_of(e, seen=None, acc=None):
    acc = set()
    todo = [e]
    seen = set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
            continue
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            acc.add(x)
        todo.extend(x.children())
    return acc

class State:
    def __init__(self):
        self.vars = {}
        self.types = {}
        self.names = {}
        self.heap = {}
        self.ghost = {}
        self.next = None
        self.begins = {}
    def copy(self):
        s = State()
        s.vars = dict(self.vars)
        s.types = dict(self.types)
        s.names = dict(self.names)
        s.heap = dict(self.heap)
        s.ghost = dict(self.ghost)
        s.next = self.next
        s.begins = dict(self.begins)
        return s

def flat(v, pre=()):
    """leaf path -> z3 expr"""
    if isinstance(v, SV):
        out = {}
        for n, x in v.f.items():
            out.update(flat(x, pre + (n,)))
        return out
    if isinstance(v, It):
        return {pre + ('@pos',): v.pos} if v.pos is not None else {}
    if z3.is_expr(v):
        return {pre: v}
    return {}

def setleaf(v, path, x):
    if not path:
        return x
    if path[0] == '@pos':
        return It(v.lv, v.kind, x, v.key, v.snap)
    f = dict(v.f)
    f[path[0]] = setleaf(f[path[0]], path[1:], x)
    return SV(v.tag, f)

def getleaf(v, path):
    if not path:
        return v
    if path[0] == '@pos':
        return v.pos
    return getleaf(v.f[path[0]], path[1:])

class LoopCtx:
    """what an invariant can see"""
    def __init__(self, ex, key, k, entry, outer):
        self.ex, self.key, self.k, self.entry, self.outer = ex, key, k, entry, outer
        self.roles = None
        self.visible = None
    # --- variables by name or by unique type
    def _cands(self, state):
        return [(k, state.names[k]) for k in self.visible if k in state.vars]
    def var(self, name=None, t=None, nth=None, entry=False):
        st = self.entry if entry else self.ex.st
        return self.ex.read_var(st, self.find(name, t, nth))
    def has(self, name):
        st = self.ex.st
        return any(n == name for k, n in self._cands(st))
    def enums(self):
        """iterators over a set or map, outermost first"""
        st = self.ex.st
        return [st.vars[k] for k in self.visible if k in st.vars and isinstance(st.vars[k], It) and st.vars[k].kind == 'enum']
    @property
    def snap(self):
        """the enumeration of the set or map the loop goes through"""
        r = self.ex.range_snaps.get(self.node['id'])
        return r if r is not None else self.enums()[-1].snap
    def find(self, name=None, t=None, nth=None):
        st = self.ex.st
        c = self._cands(st)
        if name is not None:
            names = name if isinstance(name, (tuple, list)) else (name,)
            for nm in names:
                x = [k for k, n in c if n == nm and (t is None or self.ex.vtype(st, k) == t)]
                if len(x) >= 1:
                    return x[-1]
        if t is not None:
            x = [k for k, n in c if self.ex.vtype(st, k) == t]
            if nth is not None and len(x) > nth:
                return x[nth]
            if len(x) == 1:
                return x[0]
            raise Unsupported('role %s of type %s: %d candidates %s' % (name, t, len(x), [st.names[k] for k in x]))
        raise Unsupported('no variable %s' % (name,))

class Contract:
    """specification of one function.

    requires(X), ensures(X): X is a CallCtx; return list of (label, formula)
    modifies: list of heap (cls, field), or 'arg:<i>' for reference/pointer
    arguments, or ('new', classes...) (allocation), or 'ghost:<n>'
    loops: dict loop key -> function(L, X) -> list of (label, formula)"""
    def __init__(self, qname, nparams=None, ptypes=None, requires=None, ensures=None, modifies=(), loops=None,
                 dispatch=None, extra=None, pure=False, trusted=False, axioms=None, ret=None, entry=None,
                 decreases=None, inline_always=False, hints=None, outs=None, wit=None, ghost=None):
        # ghost: assumed when the function is verified, not checked at calls
        # (definitions of ghost functions at the event the function performs)
        self.ghost = ghost or (lambda X: [])
        # outs: names (sorts) of values the postcondition asserts to exist; wit
        # gives them when the function itself is verified
        self.outs, self.wit = outs or {}, wit
        self.qname = qname
        self.nparams = nparams
        self.ptypes = ptypes
        self.requires = requires or (lambda X: [])
        self.ensures = ensures or (lambda X: [])
        self.modifies = modifies
        self.loops = loops or {}
        self.pure = pure
        self.trusted = trusted
        self.ret = ret
        self.dispatch = dispatch
        self.decreases = decreases
        self.hints = hints
    def matches(self, f):
        if f.qname != self.qname:
            return False
        if self.nparams is not None and len(f.params) != self.nparams:
            return False
        if self.ptypes is not None:
            for want, p in zip(self.ptypes, f.params):
                if want is not None and parse(dty(p)) != want and parse(ty(p)) != want:
                    return False
        return True

def forall_sel(r, f, b):
    """quantification triggered by b[r] where that is a possible trigger"""
    t = z3.Select(b, r)
    ok = b.decl().kind() in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_STORE, z3.Z3_OP_SELECT)
    try:
        return z3.ForAll([r], f, patterns=[t]) if ok else z3.ForAll([r], f)
    except z3.Z3Exception:
        return z3.ForAll([r], f)

class CallCtx:
    """argument/result/heap access for contracts.  `old` heap/args are at call
    entry; X.h reads the current heap."""
    def __init__(self, ex, args, this, old, new=None, res=None, argtypes=None):
        self.ex, self.args, self.this, self.old, self.new, self.res = ex, args, this, old, new, res
        self.argtypes = argtypes
        self.theory = ex.theory
        self.entry = old
    def a(self, i):
        """value of argument i at entry"""
        return self._val(self.args[i], self.old)
    def a1(self, i):
        """value (of the referenced object) of argument i now"""
        return self._val(self.args[i], self.new)
    def _val(self, v, st):
        if isinstance(v, LV):
            return self.ex.read(v, st)
        if isinstance(v, PyPtr):
            return self.ex.read(v.lv, st)
        return v
    def h(self, cls, field):
        return self.ex.heap_get(cls, field, self.new)
    def oh(self, cls, field):
        return self.ex.heap_get(cls, field, self.old)
    def g(self, name):
        return self.new.ghost[name]
    def og(self, name):
        return self.old.ghost[name]
    def fld(self, name, st=None):
        """field of *this now"""
        return self.ex.read(self.ex.this_field(self.this, name), self.new)
    def ofld(self, name):
        return self.ex.read(self.ex.this_field(self.this, name), self.old)

class Exec:
    def __init__(self, prog, theory, contracts, opts=None):
        self.prog = prog
        self.theory = theory
        self.contracts = contracts
        self.opts = opts or {}
        self.shapes = Shapes(prog, self.opts)
        self.range_snaps, self.last_snap = {}, None
        self.pair_types = set()
        self.inlined = set()
        self.used_contracts = set()
        self.trusted_used = set()
        self.unmodelled = set()
        self.allocated = set()

    # ------------------------------------------------------------ driver
    def verify(self, func, contract, this_dtype=None):
        """explore all paths of func; returns list of Obl"""
        self.func = func
        self.contract = contract
        self.this_dtype = this_dtype
        self.havoc = {}       # loop key -> set of leaf keys
        self.deltas = {}      # loop key -> {leaf key: int or None}
        self.loops_seen = {}
        for it in range(12):
            self.changed = False
            self.obls = []
            self.obl_keys = set()
            self.covers = []
            self.explore()
            if not self.changed:
                break
        else:
            raise Unsupported('loop analysis did not converge in %s' % func.qname)
        for k in contract.loops:
            if k not in self.loops_seen:
                self.obls.append(Obl('loop %s of the contract has no counterpart' % k, 'shape', [], None, func.qname, ''))
        return self.obls

    def explore(self):
        self.stack = []       # decisions
        self.feas = {}
        npaths = 0
        while True:
            npaths += 1
            if npaths > self.opts.get('max_paths', 1500):
                raise Unsupported('too many paths in %s' % self.func.qname)
            if time.time() > self.opts.get('deadline', 1e12):
                raise Unsupported('no time left to follow the paths of %s' % self.func.qname)
            self.run_path()
            # backtrack
            while self.stack and self.stack[-1][1]:
                self.stack.pop()
            if not self.stack:
                break
            d = self.stack[-1]
            self.stack[-1] = (not d[0], True)
        self.npaths = npaths

    def run_path(self):
        self.pc = []
        self.qsolver = z3.SolverFor('QF_AUFLIA') if False else z3.Solver()
        self.qsolver.set('rlimit', 400000)
        self.dpos = 0
        self.bseq = 0
        self.oseq = 0
        self.cnt = {}
        self.nobranch = 0
        self.under_keys = []
        self.ret_types = []
        self.lex_frames = []
        self.inline_stack = []
        self.st = State()
        self.st.next = z3.Int('next!init')
        self.all_calls = {}
        self.calls, self.last_ctor, self.last_outs, self.last_new = {}, None, None, None
        for g, sort in getattr(self.theory, 'ghosts', {}).items():
            self.st.ghost[g] = z3.Const(g + '!init', sort)
        self.loop_stack = []
        self.loop_counts = [0]
        self.call_stack = []
        self.frame = ('top',)
        self.this = None
        self.pathname = ''
        self.tempn = 0
        self.in_binder = False
        f, c = self.func, self.contract
        self.assume(self.st.next > 0)
        try:
            args = []
            this = None
            if f.cls and f.node['kind'] != 'CXXConstructorDecl' and 'static' not in f.node.get('storageClass', ''):
                this = z3.Int('this')
                root = self.root_class(f.cls)
                self.assume(this > 0)
                self.assume(this < self.st.next)
                if self.theory.is_dispatch(root):
                    if self.this_dtype:
                        self.assume(self.theory.dtype(this) == self.theory.class_id(self.this_dtype))
            elif f.cls and f.node['kind'] == 'CXXConstructorDecl':
                this = self.new_local(('cls', f.cls), 'self', fresh(self.shapes.shape(('cls', f.cls)), 'self!undef'))
            self.this = this
            for i, p in enumerate(f.params):
                args.append(self.bind_param_symbolic(p, i))
            old = self.st.copy()
            self.X = CallCtx(self, args, this, old, self.st, None)
            self.Xold = old
            for label, fm in c.requires(self.X) + c.ghost(self.X):
                self.assume(fm)
            for fm in self.theory.param_facts(self, f, args, this):
                self.assume(fm)
            self.entry_state = self.st.copy()
            self.X.old = self.entry_state
            res = None
            try:
                if f.inits:
                    self.ctor_inits(f, this)
                self.stmt(f.body)
            except ReturnEx as r:
                res = r.v
            self.finish(res)
        except PathEnd:
            pass

    def finish(self, res):
        f, c = self.func, self.contract
        rt = parse(f.rettype()) if f.node['kind'] not in ('CXXConstructorDecl', 'CXXDestructorDecl') else ('void',)
        if isinstance(res, (LV,)) and not is_ref(f.rettype()):
            res = self.read(res)
        X = CallCtx(self, self.X.args, self.X.this, self.entry_state, self.st, res)
        X.entry = self.entry_state
        if c.outs:
            X.outs = c.wit(X)
        if c.ret is not None:
            self.check(eqv(res, c.ret(X)), 'ensures', 'the value of the function')
        for label, fm in c.ensures(X):
            self.check(fm, 'ensures', label)
        # frame
        mods = set(m for m in c.modifies)
        for m in c.modifies:
            if m[0] == 'this' and not isinstance(X.this, LV):
                # only this object's field may change
                key = (self.root_class(f.cls), m[1])
                o, v = self.heap_get(key[0], key[1], self.entry_state), self.heap_get(key[0], key[1], self.st)
                r = z3.Int('fr!r')
                for (p, a), b in zip(flat(o).items(), flat(v).values()):
                    if not z3.eq(a, b):
                        self.check(forall_sel(r, z3.Implies(r != X.this, z3.Select(a, r) == z3.Select(b, r)), b), 'frame', 'other objects keep %s.%s' % key)
                mods.add(key)
        for key, v in self.st.heap.items():
            if key in mods or (key[0], '*') in mods:
                continue
            if key not in self.entry_state.heap:
                o = self.heap_get(key[0], key[1], self.entry_state)
            else:
                o = self.entry_state.heap[key]
            if v is o:
                continue
            r = z3.Int('fr!r')
            for (p, a), b in zip(flat(o).items(), flat(v).values()):
                if z3.eq(a, b):
                    continue
                self.check(z3.ForAll([r], z3.Implies(r < self.entry_state.next, z3.Select(a, r) == z3.Select(b, r)),
                                     patterns=[z3.Select(b, r)]), 'frame', 'unchanged %s.%s' % key)
        declared = set(x for m in mods if m[0] == 'new' for x in m[1:])
        if not z3.eq(self.st.next, self.entry_state.next) and not self.allocated <= declared:
            # allocation not declared: callers would assume refs stay fresh
            self.check(self.st.next == self.entry_state.next, 'frame', 'no allocation of other classes')
        for i, a in enumerate(self.X.args):
            if ('arg', i) in mods:
                continue
            lv = a.lv if isinstance(a, PyPtr) else a
            if isinstance(lv, LV) and lv.root[0] == 'var' and not lv.path:
                o, n = self.entry_state.vars[lv.root[1]], self.st.vars[lv.root[1]]
                for (p, x), y in zip(flat(o).items(), flat(n).values()):
                    if not z3.eq(x, y):
                        self.check(x == y, 'frame', 'argument %d unchanged %s' % (i, '.'.join(p)))
        self.covers.append(('exit', list(self.pc)))

    # ------------------------------------------------------------ logic
    def assume(self, fm):
        if isinstance(fm, bool):
            fm = z3.BoolVal(fm)
        if z3.is_true(fm):
            return
        if z3.is_and(fm):
            for c in fm.children():
                self.assume(c)
            return
        self.pc.append(fm)
        if is_qf(fm):
            self.qsolver.add(fm)

    def fresh_name(self, base):
        n = self.cnt.get(base, 0)
        self.cnt[base] = n + 1
        return '%s!%d' % (base, n)

    def fresh(self, sh, base):
        if self.in_binder:
            raise Unsupported('unknown value below a quantifier')
        v = fresh(sh, self.fresh_name(base))
        return v

    def check(self, fm, kind, label):
        if isinstance(fm, bool):
            fm = z3.BoolVal(fm)
        if self.nobranch:
            # obligations inside a speculative evaluation: keep them
            pass
        if z3.is_and(fm) and kind in ('ensures', 'inv-init', 'inv-step', 'pre'):
            for i, c in enumerate(fm.children()):
                self.check(c, kind, '%s/%d' % (label, i))
            return
        self.oseq += 1
        key = (tuple(d for d, _ in self.stack[:self.dpos]), self.oseq)
        where = '>'.join([self.func.qname] + [x for x in self.call_stack])
        if key not in self.obl_keys:
            self.obl_keys.add(key)
            s = z3.simplify(fm)
            o = Obl(label, kind, list(self.pc), fm, self.func.sig(), where)
            o.key = key
            if z3.is_true(s):
                o.status = 'discharged'
                o.backend = 'z3-simplify'
            self.obls.append(o)
        self.assume(fm)

    def branch(self, c):
        c = z3.simplify(c) if z3.is_expr(c) else z3.BoolVal(bool(c))
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        self.bseq += 1
        key = (tuple(d for d, _ in self.stack[:self.dpos]), self.bseq)
        if key not in self.feas:
            t = self.sat(c)
            f = self.sat(z3.Not(c)) if t else True
            self.feas[key] = (t, f)
        t, f = self.feas[key]
        if t and not f:
            return True
        if f and not t:
            self.assume_q(z3.Not(c))
            return False
        if self.nobranch:
            raise NeedBranch()
        if self.dpos < len(self.stack):
            d = self.stack[self.dpos][0]
        else:
            d = True
            self.stack.append((True, False))
        self.dpos += 1
        self.bseq = 0
        self.oseq = 0
        self.assume(c if d else z3.Not(c))
        return d

    def assume_q(self, c):
        pass

    def sat(self, c):
        self.qsolver.push()
        self.qsolver.add(c)
        r = self.qsolver.check()
        self.qsolver.pop()
        return r != z3.unsat

    def implied(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        return not self.sat(z3.Not(c))

    def speculate(self, fn):
        """run fn without branching; returns (ok, value); restores on failure"""
        save = (self.st.copy(), list(self.pc), self.oseq, self.bseq, dict(self.cnt), len(self.obls), set(self.obl_keys), self.tempn)
        self.nobranch += 1
        self.qsolver.push()
        ctx = (self.frame, self.this, list(self.call_stack), list(self.ret_types), list(self.lex_frames),
               list(self.inline_stack), list(self.loop_counts))
        n = len(self.pc)
        ok = False
        try:
            v = fn()
            ok = True
            return True, v
        except NeedBranch:
            st, self.pc, self.oseq, self.bseq, self.cnt, no, self.obl_keys, self.tempn = save
            self.restore(st)
            del self.obls[no:]
            (self.frame, self.this, self.call_stack, self.ret_types, self.lex_frames, self.inline_stack,
             self.loop_counts) = ctx
            return False, None
        finally:
            self.nobranch -= 1
            self.qsolver.pop()
            if ok:
                for fm in self.pc[n:]:
                    if is_qf(fm):
                        self.qsolver.add(fm)

    def restore(self, st):
        # keep the identity of self.st (contexts hold it)
        self.st.vars, self.st.types, self.st.names = st.vars, st.types, st.names
        self.st.heap, self.st.ghost, self.st.next = st.heap, st.ghost, st.next

    # ------------------------------------------------------------ memory
    def root_class(self, c):
        info = self.prog.classes.get(c)
        while info and info['bases'] and info['bases'][0] in self.prog.classes:
            c = info['bases'][0]
            info = self.prog.classes[c]
        return c

    def heap_shape(self, cls, field):
        sh = self.theory.heap_shape(self, cls, field)
        if sh is None:
            raise Unsupported('field %s.%s' % (cls, field))
        return sh

    def heap_get(self, cls, field, st=None):
        st = st or self.st
        key = (cls, field)
        if key not in st.heap:
            # untouched so far: the (deterministically named) initial heap
            st.heap[key] = fresh(lift(self.heap_shape(cls, field), [I]), 'H.%s.%s' % (cls, field))
        return st.heap[key]

    def read(self, lv, st=None):
        st = st or self.st
        if isinstance(lv, PairRef):
            return SV('pair', {'first': lv.first, 'second': self.read(lv.second, st)})
        if not isinstance(lv, LV):
            return lv
        if lv.root[0] == 'var':
            v = st.vars[lv.root[1]]
            path = lv.path
            if isinstance(v, Ref):
                return self.read(LV(v.lv.root, v.lv.path + path, lv.t), st)
        else:
            _, cls, ref = lv.root
            path = lv.path
            if not path:
                # whole object of a heap class (e.g. pair allocated with new)
                fs = self.theory.object_fields(self, cls)
                return SV(cls, {n: self.read(LV(lv.root, (('f', n),), None), st) for n in fs})
            f = path[0][1]
            imm = self.theory.immutable(self, cls, f, ref)
            if imm is not None:
                v = imm
            else:
                v = sel(self.heap_get(cls, f, st), ref)
            path = path[1:]
        for kind, x in path:
            if kind == 'f':
                if not isinstance(v, SV) or x not in v.f:
                    raise Unsupported('field %s of %s' % (x, v))
                v = v.f[x]
            else:
                v = self.index(v, x)
        return v

    def index(self, v, key):
        if isinstance(v, SV):
            if 'dom' in v.f:
                return sel(v.f['val'], key)
            if 'arr' in v.f:
                h = v.f.get('head')
                return sel(v.f['arr'], key if h is None else h + key)
            raise Unsupported('index into %s' % v)
        return sel(v, key)

    def write(self, lv, x):
        if isinstance(x, LV):
            x = self.read(x)
        if lv.root[0] == 'var':
            v = self.st.vars[lv.root[1]]
            if isinstance(v, Ref):
                return self.write(LV(v.lv.root, v.lv.path + lv.path, lv.t), x)
            self.st.vars[lv.root[1]] = self.upd(v, lv.path, x)
            if self.under_keys and lv.root[1] in self.under_keys[-1]:
                raise NeedBranch()      # conditional side effect
        else:
            if self.under_keys:
                raise NeedBranch()
            _, cls, ref = lv.root
            if not lv.path:
                for n in self.theory.object_fields(self, cls):
                    self.write(LV(lv.root, (('f', n),), None), x.f[n])
                return
            f = lv.path[0][1]
            if self.theory.immutable(self, cls, f, ref) is not None:
                raise Unsupported('write to field %s.%s which the contracts treat as fixed at construction' % (cls, f))
            arr = self.heap_get(cls, f)
            cur = sel(arr, ref)
            self.st.heap[(cls, f)] = sto(arr, ref, self.upd(cur, lv.path[1:], x))

    def upd(self, v, path, x):
        if not path:
            return x
        kind, k = path[0]
        if kind == 'f':
            f = dict(v.f)
            f[k] = self.upd(f[k], path[1:], x)
            return SV(v.tag, f)
        if isinstance(v, SV) and 'dom' in v.f:
            f = dict(v.f)
            cur = sel(f['val'], k)
            f['val'] = sto(f['val'], k, self.upd(cur, path[1:], x))
            return SV(v.tag, f)
        if isinstance(v, SV) and 'arr' in v.f:
            f = dict(v.f)
            idx = k if 'head' not in f else f['head'] + k
            f['arr'] = sto(f['arr'], idx, self.upd(sel(f['arr'], idx), path[1:], x))
            return SV(v.tag, f)
        return sto(v, k, self.upd(sel(v, k), path[1:], x))

    def new_local(self, t, name, v):
        self.tempn += 1
        key = ('tmp', self.frame, name, self.tempn)
        self.st.vars[key] = v
        self.st.types[key] = t
        self.st.names[key] = name
        return LV(('var', key), (), t)

    def vtype(self, st, key):
        v = st.vars.get(key)
        if isinstance(v, Ref):
            return v.lv.t
        if isinstance(v, PyPtr):
            return ('ptr', v.lv.t)
        return st.types[key]

    def read_var(self, st, key):
        v = st.vars[key]
        if isinstance(v, Ref):
            return self.read(v.lv, st)
        if isinstance(v, PyPtr):
            return self.read(v.lv, st)
        return v

    def alloc(self):
        if self.under_keys:
            raise NeedBranch()
        r = self.st.next
        self.st.next = r + 1
        return r

    def default(self, t):
        k = t[0]
        if k == 'string' and self.opts.get('text'):
            return self.theory.empty_text()
        if k in ('int', 'mpz', 'ptr', 'string', 'opaque', 'unknown'):
            return z3.IntVal(0)
        if k == 'bool':
            return z3.BoolVal(False)
        if k == 'real':
            return self.theory.real(0, self)
        if k == 'param':
            return self.theory.param_default(self)
        if k == 'bitset':
            return z3.K(I, z3.BoolVal(False))
        sh = self.shapes.shape(t)
        if k in ('vec', 'stack', 'queue', 'map', 'set'):
            v = self.fresh(sh, 'init')
            f = dict(v.f)
            for z in ('len', 'size', 'head'):
                if z in f:
                    f[z] = z3.IntVal(0)
            if 'dom' in f:
                ks = leaves(self.shapes.shape(t[1]))
                d = z3.BoolVal(False)
                for s in reversed(ks):
                    d = z3.K(s, d)
                f['dom'] = d
            return SV(v.tag, f)
        if k == 'pair':
            return SV(sh[0], {'first': self.default(t[1]), 'second': self.default(t[2])})
        if k == 'cls':
            if t[1] in self.prog.classes:
                return self.fresh(sh, 'uninit')
            return Opaque(t)
        return Opaque(t)

    def bind_param_symbolic(self, p, i):
        t = parse(dty(p)) if parse(dty(p))[0] not in ('unknown',) else parse(ty(p))
        t2 = parse(ty(p))
        if t2[0] in ('param',):
            t = t2
        name = p.get('name', 'arg%d' % i)
        key = (self.frame, p['id'])
        self.st.names[key] = name
        if t[0] == 'ptr' and not self.theory.is_heap(self, t[1]):
            if t[1][0] in ('int', 'unknown', 'void', 'iter') and 'char' in ty(p):
                v = self.sym_value(t, 'A%d' % i)
                self.st.vars[key] = v
                self.st.types[key] = t
                return v
            loc = self.new_local(t[1], name + '*', self.sym_value(t[1], 'P%d' % i))
            v = PyPtr(loc)
            self.st.vars[key] = v
            self.st.types[key] = t
            return v
        v = self.sym_value(t, 'A%d' % i)
        self.st.vars[key] = v
        self.st.types[key] = t
        if is_ref(ty(p)) or is_ref(dty(p)):
            return LV(('var', key), (), t)
        return v

    def sym_value(self, t, name):
        if t[0] == 'cls' and t[1] not in self.prog.classes:
            return Opaque(t)
        if t[0] in ('iter', 'lambda'):
            raise Unsupported('parameter type %s' % (t,))
        v = fresh(self.shapes.shape(t), name)
        self.type_facts(v, t)
        return v

    def type_facts(self, v, t):
        """facts every value of the type satisfies (sizes are nonnegative...)"""
        for fm in self.facts_of(v, t):
            self.assume(fm)

    def facts_of(self, v, t):
        k = t[0]
        out = []
        if k in ('vec', 'stack', 'queue'):
            out.append(v.f['len'] >= 0)
        if k in ('map', 'set'):
            out.append(v.f['size'] >= 0)
        if k == 'pair':
            out += self.facts_of(v.f['first'], t[1]) + self.facts_of(v.f['second'], t[2])
        if k == 'param' and not self.opts.get('param_struct'):
            out.append(v >= 0)
        return out

    # ------------------------------------------------------------ statements
    def stmt(self, n):
        k = n['kind']
        m = getattr(self, 's_' + k, None)
        if m:
            return m(n)
        self.ev(n)

    def s_CompoundStmt(self, n):
        for c in n.get('inner', []):
            self.stmt(c)

    def s_NullStmt(self, n):
        pass

    def s_DeclStmt(self, n):
        for d in n['inner']:
            if d['kind'] == 'VarDecl':
                self.decl(d)
            elif d['kind'] == 'DecompositionDecl':
                self.decomp(d)
            elif d['kind'] in ('TypedefDecl', 'TypeAliasDecl', 'UsingDecl', 'StaticAssertDecl', 'CXXRecordDecl', 'UsingDirectiveDecl'):
                pass
            else:
                raise Unsupported('declaration ' + d['kind'])

    def decomp(self, d):
        init = [c for c in d.get('inner', []) if c['kind'] not in ('BindingDecl',)]
        binds = [c for c in d.get('inner', []) if c['kind'] == 'BindingDecl']
        x = self.ev(init[0])
        if not is_ref(ty(d)):
            x = self.rv(x)
        self.bind_decomp(binds, x)

    def bind_decomp(self, binds, x):
        if isinstance(x, PairRef):
            parts = [x.first, x.second]
        elif isinstance(x, LV) and x.t and x.t[0] == 'pair':
            parts = [x.f('first', x.t[1]), x.f('second', x.t[2])]
        elif isinstance(x, SV) and 'first' in x.f:
            parts = [x.f['first'], x.f['second']]
        else:
            raise Unsupported('structured binding')
        for b, p in zip(binds, parts):
            key = (self.frame, b['id'])
            self.st.names[key] = b.get('name', '')
            self.st.types[key] = parse(dty(b))
            self.st.vars[key] = Ref(p) if isinstance(p, LV) else p

    def vdecl_type(self, d):
        t = parse(dty(d))
        t2 = parse(ty(d))
        if t2[0] == 'param' or t[0] == 'unknown':
            return t2
        return t

    def decl(self, d):
        key = (self.frame, d['id'])
        t = self.vdecl_type(d)
        self.st.names[key] = d.get('name', '')
        self.st.types[key] = t
        init = [c for c in d.get('inner', []) if 'Attr' not in c['kind']]
        if d.get('storageClass') == 'static':
            self.unmodelled.add('static local %s' % d.get('name'))
        if not init:
            if t[0] in ('int', 'bool', 'real', 'ptr'):
                v = self.fresh(self.shapes.shape(t), 'uninit')
            else:
                v = self.default(t)
            self.st.vars[key] = v
            return
        x = self.ev(init[0])
        isref = is_ref(ty(d)) or is_ref(dty(d))
        if isref:
            if isinstance(x, LV):
                self.st.vars[key] = Ref(x)
                self.st.types[key] = x.t or t
                return
            if isinstance(x, PairRef):
                self.st.vars[key] = x
                return
        x = self.rv(x)
        self.st.vars[key] = self.coerce(x, t)

    def coerce(self, x, t):
        if t[0] == 'real' and z3.is_expr(x) and x.sort() == I and self.shapes.shape(t) != I:
            return self.theory.to_real(x, self)
        if t[0] == 'bool' and z3.is_expr(x) and x.sort() == I:
            return x != 0
        if t[0] in ('int', 'mpz') and z3.is_expr(x) and x.sort() == B:
            return z3.If(x, z3.IntVal(1), z3.IntVal(0))
        return x

    def s_IfStmt(self, n):
        inner = n['inner']
        i = 0
        if n.get('hasInit'):
            self.stmt(inner[i]); i += 1
        if n.get('hasVar'):
            self.stmt(inner[i]); i += 1
        c = self.boolv(inner[i])
        if self.branch(c):
            self.stmt(inner[i + 1])
        elif n.get('hasElse'):
            self.stmt(inner[i + 2])

    def s_ReturnStmt(self, n):
        inner = n.get('inner', [])
        if not inner:
            raise ReturnEx(None)
        x = self.ev(inner[0])
        rt = self.cur_rettype()
        if not is_ref(rt):
            x = self.rv(x)
            if isinstance(x, PairRef):
                x = self.read(x)
            x = self.coerce(x, parse(rt))
        raise ReturnEx(x)

    def cur_rettype(self):
        if self.ret_types:
            return self.ret_types[-1]
        return self.func.rettype()
    ret_types = []

    def s_BreakStmt(self, n):
        raise BreakEx()

    def s_ContinueStmt(self, n):
        raise ContinueEx()

    def s_SwitchStmt(self, n):
        v = self.rv(self.ev(n['inner'][-2]))
        body = n['inner'][-1]
        # flatten: list of (labels, stmts)
        items = []
        def add(s):
            if s['kind'] == 'CaseStmt':
                items.append(('case', s['inner'][0]))
                add(s['inner'][-1])
            elif s['kind'] == 'DefaultStmt':
                items.append(('default', None))
                add(s['inner'][0])
            else:
                items.append(('stmt', s))
        for s in body.get('inner', []):
            add(s)
        start = None
        conds = []
        for idx, (k, x) in enumerate(items):
            if k == 'case':
                c = v == self.rv(self.ev(x))
                if self.branch(c):
                    start = idx
                    break
        if start is None:
            for idx, (k, x) in enumerate(items):
                if k == 'default':
                    start = idx
        if start is None:
            return
        try:
            for k, x in items[start:]:
                if k == 'stmt':
                    self.stmt(x)
        except BreakEx:
            pass

    # ------------------------------------------------------------ loops
    def s_WhileStmt(self, n):
        inner = n['inner']
        cond, body = inner[-2], inner[-1]
        self.loop(n, lambda: self.boolv(cond), lambda: self.stmt(body), None)

    def s_DoStmt(self, n):
        body, cond = n['inner'][0], n['inner'][1]
        # first iteration unrolled, then a while loop
        try:
            self.stmt(body)
        except ContinueEx:
            pass
        except BreakEx:
            return
        self.loop(n, lambda: self.boolv(cond), lambda: self.stmt(body), None)

    def s_ForStmt(self, n):
        init, _, cond, inc, body = n['inner']
        if init and init.get('kind'):
            self.stmt(init)
        self.loop(n, (lambda: self.boolv(cond)) if cond and cond.get('kind') else (lambda: z3.BoolVal(True)),
                  lambda: self.stmt(body), (lambda: self.ev(inc)) if inc and inc.get('kind') else None)

    def s_CXXForRangeStmt(self, n):
        inner = n['inner']
        rng, var, body = inner[1], inner[6], inner[7]
        rd = rng['inner'][0]
        x = self.ev([c for c in rd['inner'] if 'Attr' not in c['kind']][0])
        if isinstance(x, SV):
            x = self.new_local(parse(dty(rd)), 'range', x)
        if not isinstance(x, LV):
            raise Unsupported('range-for over %s' % (x,))
        v = self.read(x)
        vd = var['inner'][0]
        if isinstance(v, SV) and 'dom' in v.f:
            snap = self.snapshot(x)
            self.range_snaps[n['id']] = snap
            n_el = lambda: snap.n
            def elem(i):
                return self.enum_deref(x, snap, i)
        elif isinstance(v, SV) and 'arr' in v.f:
            n_el = lambda: self.read(x).f['len']
            def elem(i):
                return x.i(i, self.elem_type(x.t))
        elif isinstance(v, Opaque):
            raise Unsupported('range-for over opaque value')
        else:
            raise Unsupported('range-for over %s' % (x.t,))
        ik = (self.frame, n['id'])
        self.st.vars[ik] = z3.IntVal(0)
        self.st.types[ik] = ('int',)
        self.st.names[ik] = '@index'
        def bodyf():
            i = self.st.vars[ik]
            e = elem(i)
            if vd['kind'] == 'DecompositionDecl':
                self.bind_decomp([c for c in vd['inner'] if c['kind'] == 'BindingDecl'], e)
            else:
                key = (self.frame, vd['id'])
                t = self.vdecl_type(vd)
                self.st.names[key] = vd.get('name', '')
                self.st.types[key] = t
                if isinstance(e, LV):
                    if is_ref(ty(vd)) or is_ref(dty(vd)):
                        self.st.vars[key] = Ref(e)
                        self.st.types[key] = e.t or t
                    else:
                        self.st.vars[key] = self.read(e)
                elif isinstance(e, PairRef) and not is_ref(ty(vd)):
                    self.st.vars[key] = self.read(e)
                else:
                    self.st.vars[key] = e
            self.stmt(body)
        def inc():
            self.st.vars[ik] = self.st.vars[ik] + 1
        self.loop(n, lambda: self.st.vars[ik] < n_el(), bodyf, inc)

    def elem_type(self, t):
        return t[1] if t and t[0] in ('vec', 'queue', 'stack', 'set') else None

    def snapshot(self, lv):
        v = self.read(lv)
        kt = lv.t[1]
        ksh = self.shapes.shape(kt)
        n = v.f['size']
        en = self.fresh(lift(ksh, [I]), 'enum')
        nm = self.fresh_name('einv')
        ks = leaves(ksh)
        inv = z3.Function(nm, *(ks + [I]))
        i = z3.Int('i')
        kv = [z3.Const('k%d' % j, s) for j, s in enumerate(ks)]
        def keysel(i):
            return key_terms(sel(en, i))
        dom = v.f['dom']
        d = lambda ts: self.seln(dom, ts)
        pat = keysel(i)
        self.assume(n >= 0)
        self.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(d(keysel(i)), inv(*keysel(i)) == i)), patterns=[z3.MultiPattern(*pat)] if len(pat) > 1 else [pat[0]]))
        body = z3.And(0 <= inv(*kv), inv(*kv) < n, *[a == b for a, b in zip(keysel(inv(*kv)), kv)])
        dk = d(kv)
        self.assume(z3.ForAll(kv, z3.Implies(dk, body), patterns=[inv(*kv)] if not z3.is_select(dk) else [dk, inv(*kv)]))
        self.last_snap = Snap(n, en, inv)
        return self.last_snap

    def seln(self, a, ks):
        for k in ks:
            a = z3.Select(a, k)
        return a

    def enum_deref(self, lv, snap, i):
        key = sel(snap.en, i)
        if lv.t[0] == 'set':
            return key
        return PairRef(key, lv.i(key, lv.t[2]), lv.t)

    def loop_key(self):
        self.loop_counts[-1] += 1
        return '.'.join(str(c - 1) for c in self.loop_counts)

    def loop(self, node, cond, body, inc):
        if self.nobranch:
            raise NeedBranch()
        lk = self.loop_key()
        ident = (lk, node['id'])
        self.loops_seen[lk] = self.loops_seen.get(lk, 0) + 1
        spec = self.contract.loops.get(lk)
        entry = self.st.copy()
        entry_keys = set(entry.vars)
        outer = list(self.loop_stack)
        hv = self.havoc.setdefault(ident, set())
        dl = self.deltas.setdefault(ident, {})
        zero = z3.IntVal(0)
        L = LoopCtx(self, ident, zero, entry, outer)
        L.visible = [k for k in self.st.vars if k in entry_keys and not (isinstance(k, tuple) and k and k[0] == 'tmp' and self.st.names[k] in ('init', 'range'))]
        L.start = entry
        L.node = node
        def invs(L):
            if spec is None:
                return []
            return spec(L, self.X_at()) + frames()
        declared = set(x for m in self.contract.modifies if m[0] == 'new' for x in m[1:])
        mine = set() if isinstance(self.X.this, LV) or not self.func.cls else set((self.root_class(self.func.cls), m[1]) for m in self.contract.modifies if m[0] == 'this')
        def frames():
            # fields only new objects may have: those of the others are unchanged
            out = []
            r = z3.Int('fr!r')
            for leaf in sorted(hv, key=str):
                if leaf[0] == 'heap' and leaf[1] in mine:
                    a, b = self.leaf_get(self.entry_state, leaf), self.leaf_get(self.st, leaf)
                    if not z3.eq(a, b):
                        out.append(('other objects keep %s.%s (%s)' % (leaf[1] + ('.'.join(map(str, leaf[2])),)), forall_sel(r, z3.Implies(r != self.X.this, z3.Select(a, r) == z3.Select(b, r)), b)))
                if leaf[0] == 'heap' and leaf[1][0] in declared and leaf[1] not in self.contract.modifies:
                    a, b = self.leaf_get(self.entry_state, leaf), self.leaf_get(self.st, leaf)
                    if not z3.eq(a, b):
                        out.append(('objects that existed keep %s.%s' % leaf[1], z3.ForAll([r], z3.Implies(r < self.entry_state.next, z3.Select(b, r) == z3.Select(a, r)), patterns=[z3.Select(b, r)])))
            return out
        # initialisation
        npc = len(self.pc)
        L.phase = 'init'
        for label, fm in invs(L):
            self.check(fm, 'inv-init', 'loop %s: %s' % (lk, label))
        del self.pc[npc:]       # the invariant is assumed of an arbitrary iteration below
        # arbitrary iteration
        k = z3.Int(self.fresh_name('k%s' % lk))
        self.assume(k >= 0)
        havocked = set()
        for leaf in sorted(hv, key=str):
            if leaf in dl and dl[leaf] is not None:
                base = self.leaf_get(entry, leaf)
                self.leaf_set(leaf, base + dl[leaf] * k)
                continue
            cur = self.leaf_get(self.st, leaf)
            x = z3.Const(self.fresh_name('h%s_%s' % (lk, self.leafname(leaf))), cur.sort())
            havocked.add(x)
            self.leaf_set(leaf, x)
        if ('next',) in hv:
            self.assume(self.st.next >= entry.next)
        for leaf in sorted(hv, key=str):
            if leaf[0] == 'var':
                self.type_facts_leaf(leaf)
        L = LoopCtx(self, ident, k, entry, outer)
        L.visible = [x for x in self.st.vars if x in entry_keys]
        L.node = node
        L.start = self.st.copy()        # before the condition, which may have effects
        L.havocked = havocked
        L.phase = 'assume'
        for label, fm in invs(L):
            self.assume(fm)
        self.calls, self.last_ctor, self.last_outs, self.last_new = {}, None, None, None
        self.loop_stack.append(L)
        self.loop_counts.append(0)
        pc_before = len(self.pc)
        ok, c = self.speculate(cond)
        if ok:
            # the condition held at the previous iteration if it depends on the
            # state only through the iteration counter
            cs = consts_of(c)
            if not any(x in cs for x in havocked):
                self.assume(z3.Implies(k >= 1, z3.substitute(c, (k, k - 1))))
                for fact in counter_facts(c, k):
                    self.assume(fact)
            taken = self.branch(c)
        else:
            taken = self.branch(cond())
        self.loop_counts[-1] = 0
        if not taken:
            self.loop_counts.pop()
            self.loop_stack.pop()
            return
        try:
            try:
                body()
            except ContinueEx:
                pass
            if inc:
                inc()
        except BreakEx:
            self.loop_counts.pop()
            self.loop_stack.pop()
            self.prune(entry_keys, entry)
            return
        # end of an iteration
        self.loop_counts.pop()
        self.loop_stack.pop()
        self.loop_end(L, ident, hv, dl, entry)
        L.k = k + 1
        L.phase = 'step'
        for label, fm in invs(L):
            self.check(fm, 'inv-step', 'loop %s: %s' % (lk, label))
        self.covers.append(('loop ' + lk, list(self.pc)))
        raise PathEnd()

    def prune(self, keys, entry):
        pass

    def X_at(self):
        return CallCtx(self, self.X.args, self.X.this, self.entry_state, self.st, None)

    def leafname(self, leaf):
        if leaf[0] == 'var':
            return (self.st.names.get(leaf[1], '?') + ('.' + '.'.join(leaf[2]) if leaf[2] else '')).replace('@', '')
        if leaf[0] == 'heap':
            return '.'.join(leaf[1]) + ('.' + '.'.join(leaf[2]) if leaf[2] else '')
        return leaf[0]

    def leaf_get(self, st, leaf):
        if leaf[0] == 'var':
            return getleaf(st.vars[leaf[1]], leaf[2])
        if leaf[0] == 'heap':
            self.heap_get(leaf[1][0], leaf[1][1], st)
            return getleaf(st.heap[leaf[1]], leaf[2])
        if leaf[0] == 'next':
            return st.next
        return st.ghost[leaf[1]]

    def leaf_set(self, leaf, x):
        if leaf[0] == 'var':
            self.st.vars[leaf[1]] = setleaf(self.st.vars[leaf[1]], leaf[2], x)
        elif leaf[0] == 'heap':
            self.heap_get(*leaf[1])
            self.st.heap[leaf[1]] = setleaf(self.st.heap[leaf[1]], leaf[2], x)
        elif leaf[0] == 'next':
            self.st.next = x
        else:
            self.st.ghost[leaf[1]] = x

    def type_facts_leaf(self, leaf):
        v = self.leaf_get(self.st, leaf)
        if leaf[2] and leaf[2][-1] in ('len', 'size') and v.sort() == I:
            self.assume(v >= 0)
        t = self.st.types.get(leaf[1])
        if not leaf[2] and t and t[0] == 'param' and v.sort() == R:
            self.assume(v >= 0)

    def loop_end(self, L, ident, hv, dl, entry):
        st0, st1 = L.start, self.st
        def note(leaf, a, b):
            if z3.eq(a, b):
                if leaf in hv and dl.get(leaf) not in (None,):
                    # unchanged on this path but advanced on another
                    dl[leaf] = None
                    self.changed = True
                return
            d = None
            if a.sort() == I:
                s = z3.simplify(b - a)
                if z3.is_int_value(s):
                    d = s.as_long()
            if leaf not in hv:
                hv.add(leaf)
                dl.setdefault(leaf, d)
                if dl[leaf] != d:
                    dl[leaf] = None
                self.changed = True
            elif dl.get(leaf) != d and dl.get(leaf) is not None:
                dl[leaf] = None
                self.changed = True
        for key, a in st0.vars.items():
            if key not in entry.vars:
                continue
            b = st1.vars.get(key)
            if isinstance(a, PyPtr) or isinstance(a, Ref):
                if a is not b:
                    raise Unsupported('pointer variable reseated in a loop')
                continue
            if a is b:
                fa = flat(a)
                for p in fa:
                    note(('var', key, p), fa[p], fa[p])
                continue
            if type(a) is not type(b) and not (z3.is_expr(a) and z3.is_expr(b)):
                raise Unsupported('variable %s changes representation in a loop' % entry.names.get(key))
            if isinstance(a, It):
                if a.kind != b.kind or a.lv is None or a.snap is not b.snap:
                    raise Unsupported('iterator %s changes kind in a loop' % entry.names.get(key))
            fa, fb = flat(a), flat(b)
            for p in fa:
                note(('var', key, p), fa[p], fb[p])
        for key, b in st1.heap.items():
            a = self.heap_get(key[0], key[1], st0)
            if a is b:
                continue
            fa, fb = flat(a), flat(b)
            for p in fa:
                note(('heap', key, p), fa[p], fb[p])
        note(('next',), st0.next, st1.next)
        for g, b in st1.ghost.items():
            if g in st0.ghost:
                note(('ghost', g), st0.ghost[g], b)

    # ------------------------------------------------------------ expressions
    def rv(self, x):
        if isinstance(x, LV):
            return self.read(x)
        return x

    def val(self, n):
        return self.rv(self.ev(n))

    def boolv(self, n):
        v = self.val(n)
        if isinstance(v, Opaque):
            # e.g. the state of an I/O stream: unknown
            return z3.Bool(self.fresh_name('io'))
        if z3.is_expr(v) and v.sort() == I:
            return v != 0
        return v

    def ev(self, n):
        k = n['kind']
        m = getattr(self, 'e_' + k, None)
        if m is None:
            raise Unsupported('expression %s' % k)
        return m(n)

    def e_pass(self, n):
        return self.ev(n['inner'][0])
    e_ExprWithCleanups = e_pass
    e_CXXBindTemporaryExpr = e_pass
    e_ParenExpr = e_pass
    e_ConstantExpr = e_pass
    e_MaterializeTemporaryExpr = e_pass
    e_SubstNonTypeTemplateParmExpr = e_pass
    e_CXXStdInitializerListExpr = e_pass
    e_CXXRewrittenBinaryOperator = e_pass
    e_CXXDefaultArgExpr = lambda self, n: self.ev(n['inner'][0]) if n.get('inner') else self.default(parse(dty(n)))
    e_CXXDefaultInitExpr = e_CXXDefaultArgExpr

    def e_IntegerLiteral(self, n):
        return z3.IntVal(int(n['value']))
    def e_CharacterLiteral(self, n):
        return z3.IntVal(n['value'])
    def e_CXXBoolLiteralExpr(self, n):
        return z3.BoolVal(bool(n['value']))
    def e_FloatingLiteral(self, n):
        return self.theory.real(n['value'], self)
    def e_StringLiteral(self, n):
        return self.theory.string(n['value'], self)
    def e_CXXNullPtrLiteralExpr(self, n):
        return NULL
    e_GNUNullExpr = e_CXXNullPtrLiteralExpr
    def e_ImplicitValueInitExpr(self, n):
        return self.default(parse(dty(n)))
    e_CXXScalarValueInitExpr = e_ImplicitValueInitExpr
    def e_CXXThisExpr(self, n):
        if isinstance(self.this, LV):
            return PyPtr(self.this)
        return self.this
    def e_UnaryExprOrTypeTraitExpr(self, n):
        return z3.Int('sizeof!%s' % n['id'])

    def e_DeclRefExpr(self, n):
        d = n['referencedDecl']
        if d['kind'] == 'EnumConstantDecl':
            return self.theory.enum(d, self)
        if d['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
            return ('fn', d)
        key = (self.frame, d['id'])
        if key not in self.st.vars:
            # captured variable of an enclosing frame (lambda)
            for fr in reversed(self.frames_visible()):
                if (fr, d['id']) in self.st.vars:
                    key = (fr, d['id'])
                    break
            else:
                g = self.theory.global_var(self, d)
                if g is not None:
                    return g
                raise Unsupported('variable %s' % d.get('name'))
        v = self.st.vars[key]
        if isinstance(v, Ref):
            return v.lv
        if isinstance(v, PairRef):
            return v
        return LV(('var', key), (), self.st.types[key])

    lex_frames = []
    def frames_visible(self):
        return self.lex_frames

    def e_ImplicitCastExpr(self, n):
        ck = n.get('castKind')
        x = self.ev(n['inner'][0])
        return self.cast(ck, x, n)

    def cast(self, ck, x, n):
        if ck == 'LValueToRValue':
            return self.rv(x)
        if ck in ('NoOp', 'UncheckedDerivedToBase', 'DerivedToBase', 'BaseToDerived', 'FunctionToPointerDecay',
                  'BuiltinFnToFnPtr', 'ArrayToPointerDecay', 'ConstructorConversion', 'UserDefinedConversion', 'Dynamic'):
            return x
        if ck in ('IntegralCast', 'BitCast', 'PointerToIntegral', 'IntegralToPointer', 'NullToPointer', 'ToVoid',
                  'FloatingCast', 'AtomicToNonAtomic', 'LValueBitCast', 'ReinterpretMemberPointer'):
            x = self.rv(x)
            if z3.is_expr(x) and x.sort() == B and ck == 'IntegralCast':
                return z3.If(x, z3.IntVal(1), z3.IntVal(0))
            if ck == 'IntegralCast':
                return self.theory.int_cast(self, x, n)
            return x
        if ck in ('IntegralToBoolean', 'PointerToBoolean'):
            x = self.rv(x)
            if isinstance(x, PyPtr):
                return z3.BoolVal(True)
            if isinstance(x, Opaque):
                return x
            return x != 0 if x.sort() == I else x
        if ck == 'FloatingToBoolean':
            return self.rv(x) != 0
        if ck == 'IntegralToFloating':
            x = self.rv(x)
            if x.sort() == B:
                x = z3.If(x, z3.IntVal(1), z3.IntVal(0))
            return self.theory.to_real(x, self)
        if ck == 'FloatingToIntegral':
            return self.theory.real_to_int(self.rv(x), self)
        raise Unsupported('cast %s' % ck)

    def e_CStyleCastExpr(self, n):
        x = self.ev(n['inner'][0])
        return self.cast(n.get('castKind'), x, n)
    e_CXXStaticCastExpr = e_CStyleCastExpr
    e_CXXReinterpretCastExpr = e_CStyleCastExpr
    e_CXXConstCastExpr = e_CStyleCastExpr
    e_CXXDynamicCastExpr = e_CStyleCastExpr
    e_CXXFunctionalCastExpr = e_CStyleCastExpr

    def e_ConditionalOperator(self, n):
        c, a, b = n['inner']
        if self.is_assert(b):
            g = self.boolv(c)
            self.check(g, 'assert', 'assertion in %s' % self.where(n))
            return NULL
        cv = z3.simplify(self.boolv(c))
        if z3.is_true(cv):
            return self.ev(a)
        if z3.is_false(cv):
            return self.ev(b)
        if n.get('valueCategory') == 'lvalue':
            return self.ev(a) if self.branch(cv) else self.ev(b)
        def both():
            x = self.under(cv, lambda: self.val(a))
            y = self.under(z3.Not(cv), lambda: self.val(b))
            if not (z3.is_expr(x) or isinstance(x, SV)) or type(x) is not type(y) and not (z3.is_expr(x) and z3.is_expr(y)):
                raise NeedBranch()
            return ite(cv, x, y)
        ok, v = self.speculate(both)
        if ok:
            return v
        return self.val(a) if self.branch(cv) else self.val(b)

    def under(self, c, fn):
        """evaluate fn with c assumed only during the evaluation"""
        n = len(self.pc)
        self.qsolver.push()
        self.under_keys.append(set(self.st.vars) | (self.under_keys[-1] if self.under_keys else set()))
        self.pc.append(c)
        if is_qf(c):
            self.qsolver.add(c)
        try:
            v = fn()
            added = self.pc[n + 1:]
            return v
        finally:
            self.under_keys.pop()
            rest = self.pc[n + 1:]
            del self.pc[n:]
            self.qsolver.pop()
            for r in rest:
                self.assume(z3.Implies(c, r))

    def where(self, n):
        b = n.get('range', {}).get('begin', {})
        ln = b.get('line') or b.get('expansionLoc', {}).get('line') or ''
        return self.func.qname + (':%s' % ln if ln else '')

    def is_assert(self, n):
        s = n
        while s.get('kind') in ('ImplicitCastExpr', 'ParenExpr', 'CStyleCastExpr') and s.get('inner'):
            s = s['inner'][0]
        if s.get('kind') == 'CallExpr':
            f = s['inner'][0]
            while f.get('kind') in ('ImplicitCastExpr', 'ParenExpr'):
                f = f['inner'][0]
            return f.get('referencedDecl', {}).get('name') == '__assert_fail'
        return False

    def e_UnaryOperator(self, n):
        op = n['opcode']
        if op == '!':
            v = self.val(n['inner'][0])
            if isinstance(v, Opaque):
                return z3.Bool(self.fresh_name('io'))
            if z3.is_expr(v) and v.sort() == I:
                return v == 0
            return z3.Not(v)
        if op == '&':
            x = self.ev(n['inner'][0])
            if isinstance(x, LV):
                if x.root[0] == 'heap' and not x.path:
                    return x.root[2]
                return PyPtr(x)
            if isinstance(x, SV):
                return PyPtr(self.new_local(parse(dty(n['inner'][0])), 'addr', x))
            if isinstance(x, Opaque):
                return x
            return x
        if op == '*':
            p = self.val(n['inner'][0])
            return self.deref(p, parse(dty(n)), n)
        if op in ('++', '--'):
            x = self.ev(n['inner'][0])
            old = self.read(x)
            d = 1 if op == '++' else -1
            if isinstance(old, It):
                new = It(old.lv, old.kind, old.pos + d, old.key, old.snap)
            elif old.sort() == B:
                new = z3.BoolVal(True)
            else:
                new = old + d
            self.write(x, new)
            return old if n.get('isPostfix') else x
        v = self.val(n['inner'][0])
        if op == '-':
            return self.theory.neg(v, self) if z3.is_expr(v) else v
        if op == '+':
            return v
        if op == '~':
            return z3.Function('bitnot', I, I)(v)
        raise Unsupported('unary ' + op)

    def deref(self, p, t, n=None):
        if isinstance(p, PyPtr):
            return p.lv
        if isinstance(p, It):
            return self.it_deref(p)
        if z3.is_expr(p):
            if t and t[0] in ('cls', 'pair', 'vec'):
                self.nonnull(p)
                return LV(('heap', self.theory.heap_class(self, t), p), (), t)
            return self.theory.raw_deref(self, p, z3.IntVal(0), t)
        raise Unsupported('dereference of %s' % (p,))

    def nonnull(self, p):
        if self.opts.get('nullcheck', True):
            self.check(p != 0, 'null', 'dereferenced pointer is not null')

    def e_ArraySubscriptExpr(self, n):
        b = self.val(n['inner'][0])
        i = self.val(n['inner'][1])
        if isinstance(b, LV):
            return b.i(i, parse(dty(n)))
        return self.theory.raw_deref(self, b, i, parse(dty(n)))

    def arith(self, op, a, b, n=None):
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            if op in ('==', '!=', '<', '>', '<=', '>='):
                return z3.Bool(self.fresh_name('io'))
            return Opaque()
        if isinstance(a, PyPtr) or isinstance(b, PyPtr):
            if op in ('==', '!='):
                if z3.is_expr(a) or z3.is_expr(b):
                    return z3.BoolVal(op == '!=')
                return z3.BoolVal((a.lv.root == b.lv.root and a.lv.path == b.lv.path) == (op == '=='))
            raise Unsupported('pointer arithmetic')
        if isinstance(a, It) or isinstance(b, It):
            if op in ('==', '!='):
                e = self.it_eq(a, b)
                return e if op == '==' else z3.Not(e)
            if op in ('+', '-') and isinstance(a, It) and z3.is_expr(b):
                return It(a.lv, a.kind, a.pos + b if op == '+' else a.pos - b, a.key, a.snap)
            if op == '-' and isinstance(a, It) and isinstance(b, It):
                return a.pos - b.pos
            if op in ('<', '>', '<=', '>='):
                return self.arith(op, a.pos, b.pos)
            raise Unsupported('iterator arithmetic')
        if isinstance(a, SV) or isinstance(b, SV):
            if op in ('==', '!='):
                e = eqv(a, b)
                return e if op == '==' else z3.Not(e)
            raise Unsupported('operator %s on %s' % (op, a))
        if a.sort() == B and b.sort() == B and op in ('==', '!=', '^'):
            return a == b if op == '==' else a != b
        if a.sort() == B:
            a = z3.If(a, z3.IntVal(1), z3.IntVal(0))
        if b.sort() == B:
            b = z3.If(b, z3.IntVal(1), z3.IntVal(0))
        r = self.theory.arith(self, op, a, b)
        if r is not None:
            return r
        if a.sort() != b.sort():
            if a.sort() == I:
                a = self.theory.to_real(a, self)
            if b.sort() == I:
                b = self.theory.to_real(b, self)
        if op == '+':
            return a + b
        if op == '-':
            return a - b
        if op == '*':
            return a * b
        if op == '/':
            if a.sort() == I:
                return self.cdiv(a, b)
            self.check(b != 0, 'div', 'division by a nonzero value')
            return a / b
        if op == '%':
            return a % b
        if op == '<':
            return a < b
        if op == '>':
            return a > b
        if op == '<=':
            return a <= b
        if op == '>=':
            return a >= b
        if op == '==':
            return a == b
        if op == '!=':
            return a != b
        if op in ('^', '<<', '>>', '&', '|'):
            if op == '<<' and z3.is_int_value(a) and z3.is_int_value(b):
                return z3.IntVal(a.as_long() << b.as_long())
            if op == '<<' and z3.is_int_value(a) and a.as_long() == 1:
                return self.theory.pow2(b)
            nm = {'^': 'bxor', '<<': 'shl', '>>': 'shr', '&': 'band', '|': 'bor'}[op]
            return z3.Function(nm, I, I, I)(a, b)
        raise Unsupported('operator ' + op)

    def cdiv(self, a, b):
        return a / b

    def e_BinaryOperator(self, n):
        op = n['opcode']
        l, r = n['inner']
        if op == '=':
            x = self.ev(l)
            y = self.val(r)
            self.assign(x, y)
            return x
        if op == ',':
            self.ev(l)
            return self.ev(r)
        if op in ('&&', '||'):
            a = z3.simplify(self.boolv(l))
            if z3.is_true(a):
                return self.boolv(r) if op == '&&' else z3.BoolVal(True)
            if z3.is_false(a):
                return z3.BoolVal(False) if op == '&&' else self.boolv(r)
            ok, b = self.speculate(lambda: self.under(a if op == '&&' else z3.Not(a), lambda: self.boolv(r)))
            if ok:
                return z3.And(a, b) if op == '&&' else z3.Or(a, b)
            if self.branch(a):
                return self.boolv(r) if op == '&&' else z3.BoolVal(True)
            return z3.BoolVal(False) if op == '&&' else self.boolv(r)
        return self.arith(op, self.val(l), self.val(r), n)

    def assign(self, x, y):
        if isinstance(x, Opaque):
            return
        if not isinstance(x, LV):
            raise Unsupported('assignment to %s' % (x,))
        if x.t is not None:
            y = self.coerce(y, x.t)
        if isinstance(y, PairRef):
            y = self.read(y)
        self.write(x, y)

    def e_CompoundAssignOperator(self, n):
        op = n['opcode'][:-1]
        x = self.ev(n['inner'][0])
        r = self.val(n['inner'][1])
        v = self.arith(op, self.read(x), r, n)
        if x.t == ('int',) and z3.is_expr(v) and v.sort() == R:
            v = self.theory.real_to_int(v, self)
        self.write(x, v)
        return x

    def e_MemberExpr(self, n):
        b = n['inner'][0]
        name = n.get('name', '')
        if dty(n).startswith('<bound member') or ty(n).startswith('<bound member'):
            return ('method', b, name, n.get('isArrow'))
        x = self.ev(b)
        if n.get('isArrow'):
            x = self.rv(x)
            bt = parse(dty(b))
            if isinstance(x, It):
                x = self.it_deref(x)
            elif isinstance(x, PyPtr):
                x = x.lv
            elif isinstance(x, (LV, PairRef)):
                pass
            elif z3.is_expr(x):
                if bt[0] == 'ptr':
                    self.nonnull(x)
                    x = LV(('heap', self.theory.heap_class(self, bt[1]), x), (), bt[1])
                else:
                    raise Unsupported('-> on %s' % (bt,))
        return self.member(x, name, self.vdecl_type(n))

    def member(self, x, name, t):
        if isinstance(x, PairRef):
            return x.first if name == 'first' else x.second
        if isinstance(x, LV):
            return x.f(name, t)
        if isinstance(x, SV):
            return x.f[name]
        if isinstance(x, Opaque):
            return Opaque()
        raise Unsupported('member %s of %s' % (name, x))

    def this_field(self, this, name):
        if isinstance(this, LV):
            return this.f(name, None)
        for c in ([self.func.cls] if self.func.cls else []) + [c for c in self.prog.classes if any(n == name for n, t in self.shapes.allfields(c))]:
            if any(n == name for n, t in self.shapes.allfields(c)):
                return LV(('heap', self.root_class(c), this), (('f', name),), None)
        raise Unsupported('field %s' % name)

    # ------------------------------------------------------------ iterators
    def it_eq(self, a, b):
        if a.kind == 'end' and b.kind == 'end':
            return z3.BoolVal(True)
        if a.kind == 'end':
            a, b = b, a
        if b.kind == 'end':
            if a.kind == 'key':
                return z3.Not(self.seln(self.read(a.lv).f['dom'], key_terms(a.key)))
            if a.kind == 'enum':
                return a.pos == a.snap.n
            raise Unsupported('iterator comparison')
        if a.kind == b.kind and a.pos is not None:
            return a.pos == b.pos
        if a.kind == b.kind == 'key':
            return eqv(a.key, b.key)
        raise Unsupported('iterator comparison')

    def it_deref(self, it):
        if it.kind == 'fwd':
            self.check(z3.And(it.pos >= 0, it.pos < self.read(it.lv).f['len']), 'bounds', 'iterator dereferenced within its range')
            return it.lv.i(it.pos, self.elem_type(it.lv.t))
        if it.kind == 'rev':
            n = self.read(it.lv).f['len']
            self.check(z3.And(it.pos >= 0, it.pos < n), 'bounds', 'iterator dereferenced within its range')
            return it.lv.i(n - 1 - it.pos, self.elem_type(it.lv.t))
        if it.kind == 'key':
            self.check(self.seln(self.read(it.lv).f['dom'], key_terms(it.key)), 'bounds', 'iterator dereferenced is not end()')
            if it.lv.t[0] == 'set':
                return it.key
            return PairRef(it.key, it.lv.i(it.key, it.lv.t[2]), it.lv.t)
        if it.kind == 'enum':
            self.check(z3.And(it.pos >= 0, it.pos < it.snap.n), 'bounds', 'iterator dereferenced within its range')
            return self.enum_deref(it.lv, it.snap, it.pos)
        raise Unsupported('iterator dereference')
