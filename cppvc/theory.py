"""Theory the contracts are written in, and the (trusted) models of library
functions.  Class Theory is generic; PsddTheory adds PSDD nodes, vtrees, SDDs."""
import z3
from .ctypes_ import *
from .astload import ty, dty
from .sym import LV, PyPtr, It, Opaque, Ref, PairRef, NULL, NeedBranch, PathEnd, Lambda

A_IB = z3.ArraySort(I, B)
A_II = z3.ArraySort(I, I)
A_IR = z3.ArraySort(I, R)

def fn(name, *sorts):
    return z3.Function(name, *sorts)

def FA(vs, body, pats=None):
    if not isinstance(vs, (list, tuple)):
        vs = [vs]
    if pats is None:
        return z3.ForAll(vs, body)
    ps = []
    for p in (pats if isinstance(pats, list) else [pats]):
        # terms with logical connectives cannot be triggers
        if all(pattern_ok(t) for t in (p if isinstance(p, tuple) else (p,))):
            ps.append(z3.MultiPattern(*p) if isinstance(p, tuple) else p)
    if not ps:
        return z3.ForAll(vs, body)
    return z3.ForAll(vs, body, patterns=ps)

BADPAT = (z3.Z3_OP_ITE, z3.Z3_OP_NOT, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_IMPLIES, z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT)
def pattern_ok(t):
    todo, seen = [t], set()
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_quantifier(e) or (z3.is_app(e) and e.decl().kind() in BADPAT):
            return False
        todo += e.children()
    return True

And, Or, Not, Implies, If = z3.And, z3.Or, z3.Not, z3.Implies, z3.If

class Lemma:
    """a formula and the obligations (name, hyps, goal) that establish it"""
    def __init__(self, name, formula, obls):
        self.name, self.formula, self.obls = name, formula, obls

class Theory:
    classes = {}
    def __init__(self):
        self.extra_axioms = []     # definitions of specification functions
        self.lemmas = []           # Lemma: proved over the definitions and earlier lemmas
        self.trusted = set()
    def axioms(self, ex=None):
        return self.base_axioms() + list(self.extra_axioms)
    def base_axioms(self):
        a, b = z3.Reals('a b')
        return [FA([a, b], self.pm(a, b) == a * b, [self.pm(a, b)])]

    # ---------------- classes and heap
    def is_dispatch(self, root):
        return False
    def is_heap(self, ex, t):
        """pointers to t are heap references (not addresses of locals)"""
        return t[0] in ('cls', 'pair')
    def heap_class(self, ex, t):
        if t[0] == 'cls':
            return ex.root_class(t[1]) if t[1] in ex.prog.classes else t[1]
        return tstr(t)
    def heap_shape(self, ex, cls, field):
        if (cls, field) in self.fields:
            return self.fields[(cls, field)]
        for c in ex.prog.classes:
            if ex.root_class(c) == cls:
                for n, t, nd in ex.prog.classes[c]['fields']:
                    if n == field:
                        pt = parse(dty(nd))
                        if parse(t)[0] == 'param':
                            pt = parse(t)
                        return ex.shapes.shape(pt)
        if cls.startswith('pair<'):
            k = [t for t in ex.pair_types if tstr(t) == cls]
            if k:
                return ex.shapes.shape(k[0][1 if field == 'first' else 2])
        return None
    fields = {}
    def immutable(self, ex, cls, f, ref):
        return None
    def object_fields(self, ex, cls):
        if cls.startswith('pair<'):
            return ['first', 'second']
        return [n for n, t in ex.shapes.allfields(cls)]
    def on_new(self, ex, t, r, v):
        cls = self.heap_class(ex, t)
        if t[0] == 'pair':
            ex.pair_types.add(t)
        for f, x in v.f.items():
            if isinstance(x, Opaque):
                continue
            ex.write(LV(('heap', cls, r), (('f', f),), None), x)
    def on_delete(self, ex, p, t):
        pass
    def concrete(self, ex, cls):
        return []
    def param_facts(self, ex, f, args, this):
        return []

    # ---------------- numbers
    def real(self, v, ex):
        if ex.opts.get('double_sort') is not None:
            return self.double_const(v, ex)
        if isinstance(v, str):
            from fractions import Fraction
            fr = Fraction(v)
            return z3.RatVal(fr.numerator, fr.denominator)
        return z3.RealVal(v)
    def to_real(self, x, ex):
        if x.sort() == R:
            return x
        return z3.ToReal(x)
    def real_to_int(self, x, ex):
        return z3.Function('trunc', x.sort(), I)(x)
    def neg(self, v, ex):
        return -v
    def int_cast(self, ex, x, n):
        return x
    def arith(self, ex, op, a, b):
        return None
    def pow2(self, b):
        return z3.Function('pow2', I, I)(b)
    def bit_bound(self, ex, i):
        pass

    # ---------------- probabilities (client code): nonnegative reals
    # pm(a,b) is a*b (axiom); keeping it a function lets congruence do most of the work
    pm = z3.Function('pm', R, R, R)
    lnf = z3.Function('logarithm', R, R)
    expf = z3.Function('exponential', R, R)
    def param_default(self, ex):
        return z3.RealVal(0)
    def param_arith(self, ex, op, a, b):
        if op == '+':
            return a + b
        if op == '*':
            return self.pm(a, b)
        if op == '/':
            if ex.opts.get('allow_div0'):
                # x/0 is some unknown number
                return If(b == 1, a, If(b != 0, a / b, z3.Function('over_zero', R, R)(a)))
            ex.check(b != 0, 'div', 'probability divided by a nonzero probability')
            q = a / b
            return q
        if op == '==':
            return a == b
        if op == '!=':
            return a != b
        if op == '<':
            return a < b
        if op == '>':
            return a > b
        raise Unsupported('probability operator ' + op)
    def param_method(self, ex, v, name, args):
        if name == 'parameter':
            return self.lnf(v)
        if name == 'hash_value':
            return z3.Function('phash', R, I)(v)
        raise Unsupported('method %s of PsddParameter' % name)

    def c_CreateFromDecimal(self, ex, a, n):
        if ex.opts.get('param_struct'):
            return None
        v = self.to_real(ex.val(a[0]), ex)
        ex.check(v >= 0, 'pre', 'CreateFromDecimal: nonnegative decimal')
        return v
    def c_CreateFromLog(self, ex, a, n):
        if ex.opts.get('param_struct'):
            return None
        x = self.to_real(ex.val(a[0]), ex)
        ex.assume(self.expf(x) >= 0)
        return self.expf(x)

    def c_infinity(self, ex, a, n):
        # used as the logarithm of probability zero: exp(-infinity) is 0
        inf = z3.Real('infinity')
        ex.assume(And(inf > 0, self.expf(-inf) == 0))
        return inf

    # ---------------- strings, enums, globals
    def string(self, v, ex):
        return z3.Int('str!' + repr(v))
    def string_construct(self, ex, args):
        return args[0]
    def enum(self, d, ex):
        raise Unsupported('enum constant %s' % d.get('name'))
    def global_var(self, ex, d):
        t = d.get('type', {}).get('qualType', '')
        if d.get('name') in ('cout', 'cerr', 'clog', 'npos') or 'ostream' in t:
            return Opaque()
        return None

    # ---------------- calls
    def call(self, ex, name, n, args, d):
        m = getattr(self, 'c_' + name, None)
        if m:
            return m(ex, args, n)
        return None
    def lib_method(self, ex, x, bt, name, args, n):
        return None
    def lib_op(self, ex, op, x, t, args, n):
        return None
    def user_method(self, ex, x, cls, name, args, n):
        return None
    def opaque_method(self, ex, x, name, n):
        return None
    def opaque_op(self, ex, x, op, n, args):
        return None
    def functor(self, ex, f, t, args, n):
        """std::hash<T>{}(x)"""
        if 'hash' in str(t):
            v = ex.rvp(args[0])
            ks = key_terms(v)
            return z3.Function('hash_%s' % '_'.join(str(k.sort()) for k in ks), *([k.sort() for k in ks] + [I]))(*ks)
        return None
    def raw_deref(self, ex, p, i, t):
        raise Unsupported('raw pointer dereference')

    def c_move(self, ex, a, n):
        return ex.ev(a[0])
    c_forward = c_move
    def c_make_pair(self, ex, a, n):
        x, y = ex.rvp(ex.ev(a[0])), ex.rvp(ex.ev(a[1]))
        t = parse(dty(n))
        if t[0] == 'pair':
            x, y = ex.coerce(x, t[1]), ex.coerce(y, t[2])
        return SV(tstr(t), {'first': x, 'second': y})
    def c_abs(self, ex, a, n):
        v = ex.val(a[0])
        return If(v >= 0, v, -v)
    def c_max(self, ex, a, n):
        x, y = ex.val(a[0]), ex.val(a[1])
        return If(x < y, y, x)
    def c_min(self, ex, a, n):
        x, y = ex.val(a[0]), ex.val(a[1])
        return If(y < x, y, x)
    def c_swap(self, ex, a, n):
        x, y = ex.ev(a[0]), ex.ev(a[1])
        vx, vy = ex.rv(x), ex.rv(y)
        ex.write(x, vy)
        ex.write(y, vx)
        return Opaque()
    def c_exit(self, ex, a, n):
        raise PathEnd()
    c_abort = c_exit
    def c___assert_fail(self, ex, a, n):
        ex.check(z3.BoolVal(False), 'assert', 'assertion not reached')
        raise PathEnd()
    def c_free(self, ex, a, n):
        return Opaque()
    def c___mpz_struct(self, ex, a, n):
        return None
    def c___gmpz_mul(self, ex, a, n):
        x = ex.ev(a[0])
        ex.write(x, ex.val(a[1]) * ex.val(a[2]))
        return Opaque()
    def c___gmpz_add(self, ex, a, n):
        x = ex.ev(a[0])
        ex.write(x, ex.val(a[1]) + ex.val(a[2]))
        return Opaque()
    def c_mpz_mul(self, ex, a, n):
        return self.c___gmpz_mul(ex, a, n)
    def c_mpz_add(self, ex, a, n):
        return self.c___gmpz_add(ex, a, n)
    def c___gmpz_set(self, ex, a, n):
        ex.write(ex.ev(a[0]), ex.val(a[1]))
        return Opaque()
    def c___gmpz_sub(self, ex, a, n):
        ex.write(ex.ev(a[0]), ex.val(a[1]) - ex.val(a[2]))
        return Opaque()
    def c___gmpz_addmul(self, ex, a, n):
        x = ex.ev(a[0])
        ex.write(x, ex.read(x) + ex.val(a[1]) * ex.val(a[2]))
        return Opaque()
    def c_sort(self, ex, a, n):
        return self.do_sort(ex, a, n)
    def c_stable_sort(self, ex, a, n):
        return self.do_sort(ex, a, n, True)
    def do_sort(self, ex, a, n, stable=False):
        """trusted: the range becomes a permutation of itself, ordered by the
        comparator (a strict weak order); a stable sort keeps the order of
        equivalent elements, in particular an ordered range stays as it is"""
        b, e = ex.val(a[0]), ex.val(a[1])
        if b.kind != 'fwd':
            raise Unsupported('sort of a reversed range')
        v = ex.read(b.lv)
        if not z3.is_true(z3.simplify(b.pos == 0)):
            raise Unsupported('partial sort')
        ln = v.f['len']
        ex.check(e.pos == ln, 'pre', 'the whole range is sorted')
        nv = fresh(ex.shapes.shape(b.lv.t), ex.fresh_name('sorted'))
        nm = ex.fresh_name('perm')
        p, q = z3.Function(nm, I, I), z3.Function(nm + 'i', I, I)
        i, j = z3.Ints('srt!i srt!j')
        inr = lambda x: And(0 <= x, x < ln)
        at = lambda i: sel(nv.f['arr'], i)
        old = lambda i: sel(v.f['arr'], i)
        def less(x, y):
            if len(a) <= 2:
                if isinstance(x, SV):
                    raise Unsupported('sort of structures without comparator')
                return x < y
            lam = ex.val(a[2])
            if not isinstance(lam, Lambda):
                raise Unsupported('sort comparator')
            # obligations of the comparator are for any two elements
            pc = list(ex.pc)
            ex.qsolver.push()
            ex.in_binder = True
            try:
                ex.assume(And(inr(i), inr(j), key_eq(at(i), old(p(i))), key_eq(at(j), old(p(j)))))
                r = ex.call_lambda(lam, [x, y])
            finally:
                ex.in_binder = False
                ex.qsolver.pop()
            ex.pc = pc
            if r is None:
                raise Unsupported('sort comparator')
            return ex.rv(r)
        pat = lambda x: key_terms(x)[0]
        key_eq = lambda x, y: And(eqv(x, y), inr(p(i)), inr(p(j)))
        ex.assume(FA([i], Implies(inr(i), And(inr(p(i)), q(p(i)) == i, eqv(at(i), old(p(i))))), [pat(at(i)), p(i)]))
        ex.assume(FA([i], Implies(inr(i), And(inr(q(i)), p(q(i)) == i)), [q(i), pat(old(i))]))
        two = [(pat(at(i)), pat(at(j)))]
        ex.assume(FA([i, j], Implies(And(0 <= i, i < j, j < ln), Not(less(at(j), at(i)))), two))
        if stable:
            ex.assume(FA([i, j], Implies(And(0 <= i, i < j, j < ln, Not(less(at(i), at(j)))), p(i) < p(j)), two))
            ordered = FA([i, j], Implies(And(0 <= i, i < j, j < ln), Not(less(old(j), old(i)))), [(pat(old(i)), pat(old(j)))])
            ex.assume(Implies(ordered, FA([i], Implies(inr(i), p(i) == i), [p(i)])))
        f = dict(v.f)
        f['arr'] = nv.f['arr']
        if 'ix' in f:
            # ghost positions follow the elements
            f['ix'] = nv.f['ix']
            r = z3.Int('srt!r')
            o = z3.Select(v.f['ix'], r)
            ex.assume(FA([r], z3.Select(nv.f['ix'], r) == If(inr(o), q(o), o), [z3.Select(nv.f['ix'], r)]))
        ex.write(b.lv, SV(v.tag, f))
        ex.last_perm = (p, q)
        return Opaque()

LITERAL, DECISION, TOP = 1, 2, 3

class PsddTheory(Theory):
    ids = {'PsddLiteralNode': LITERAL, 'PsddDecisionNode': DECISION, 'PsddTopNode': TOP}
    fields = {('Vtree', 'data'): I, ('pair<param,int>', 'first'): R, ('pair<param,int>', 'second'): I}

    # node structure (fixed at construction)
    dt = fn('dtype', I, I)
    nidx = fn('node_index', I, I)
    vt = fn('vtree', I, I)
    flg = fn('flag_index', I, I)
    lit = fn('literal', I, I)
    tv = fn('top_variable', I, I)
    tpar = fn('true_parameter', I, R)
    fpar = fn('false_parameter', I, R)
    np = fn('nprimes', I, I)
    ns = fn('nsubs', I, I)
    npar = fn('nparams', I, I)
    prA = fn('primes', I, A_II)
    prX = fn('primes_ix', I, A_II)
    suA = fn('subs', I, A_II)
    suX = fn('subs_ix', I, A_II)
    paA = fn('params', I, A_IR)
    # well-formedness, manager of a node and canonical node of an index
    wf = fn('wf', I, B)
    mgr = fn('mgr', I, I)
    nodeOf = fn('nodeOf', I, I, I)
    # vtrees
    vleaf = fn('vleaf', I, B)
    vleft = fn('vleft', I, I)
    vright = fn('vright', I, I)
    vparent = fn('vparent', I, I)
    vvar = fn('vvar', I, I)
    vpos = fn('vpos', I, I)
    vdepth = fn('vdepth', I, I)

    def is_dispatch(self, root):
        return root == 'PsddNode'
    def dtype(self, x):
        return self.dt(x)
    def class_id(self, c):
        return self.ids[c]
    def concrete(self, ex, cls):
        return [c for c in self.ids if ex.prog.derives(c, cls)]
    def prime(self, n, i):
        return z3.Select(self.prA(n), i)
    def sub(self, n, i):
        return z3.Select(self.suA(n), i)
    def par(self, n, i):
        return z3.Select(self.paA(n), i)
    def var(self, n):
        """variable of a literal or top node"""
        return If(self.dt(n) == LITERAL, If(self.lit(n) > 0, self.lit(n), -self.lit(n)), self.tv(n))

    def immutable(self, ex, cls, f, r):
        if cls != 'PsddNode' or ex.opts.get('mutable_nodes'):
            return None
        if f == 'node_index_': return self.nidx(r)
        if f == 'vtree_node_': return self.vt(r)
        if f == 'flag_index_': return self.flg(r)
        if f == 'literal_': return self.lit(r)
        if f == 'variable_index_': return self.tv(r)
        if f == 'true_parameter_': return self.tpar(r)
        if f == 'false_parameter_': return self.fpar(r)
        if f == 'hash_value_': return fn('node_hash', I, I)(r)
        vt = 'vec<ptr<PsddNode>>'
        if f == 'primes_': return SV(vt, {'len': self.np(r), 'arr': self.prA(r), 'ix': self.prX(r)})
        if f == 'subs_': return SV(vt, {'len': self.ns(r), 'arr': self.suA(r), 'ix': self.suX(r)})
        if f == 'parameters_': return SV('vec<param>', {'len': self.npar(r), 'arr': self.paA(r)})
        return None

    def on_new(self, ex, t, r, v):
        cls = self.heap_class(ex, t)
        if cls != 'PsddNode':
            return Theory.on_new(self, ex, t, r, v)
        ex.assume(self.dt(r) == self.ids[t[1]])
        for f, x in v.f.items():
            imm = self.immutable(ex, cls, f, r)
            if imm is not None:
                ex.assume(eqv(imm, x))
            else:
                ex.write(LV(('heap', cls, r), (('f', f),), None), x)

    def param_facts(self, ex, f, args, this):
        return []

    # ------------------------------------------------ definitions
    def axioms(self, ex=None):
        n, m, i = z3.Ints('n m i')
        out = []
        T = self
        # wf(n): the shape every node of a manager has
        out.append(FA([n], Implies(T.wf(n), And(n > 0, T.vt(n) > 0, Or(T.dt(n) == 1, T.dt(n) == 2, T.dt(n) == 3),
                                                T.nodeOf(T.mgr(n), T.nidx(n)) == n)), [T.wf(n)]))
        out.append(FA([n], Implies(And(T.wf(n), T.dt(n) == 2),
                                   And(T.np(n) >= 1, T.ns(n) == T.np(n), T.npar(n) == T.np(n),
                                       Not(T.vleaf(T.vt(n))))), [T.wf(n)]))
        out.append(FA([n], Implies(And(T.wf(n), T.dt(n) == 1), And(T.lit(n) != 0, T.vleaf(T.vt(n)),
                                   T.vvar(T.vt(n)) == If(T.lit(n) > 0, T.lit(n), -T.lit(n)))), [T.wf(n)]))
        out.append(FA([n], Implies(And(T.wf(n), T.dt(n) == 3), And(T.tv(n) > 0, T.vleaf(T.vt(n)), T.vvar(T.vt(n)) == T.tv(n),
                                   T.tpar(n) >= 0, T.fpar(n) >= 0)), [T.wf(n)]))
        g = And(T.wf(n), T.dt(n) == 2, 0 <= i, i < T.np(n))
        out.append(FA([n, i], Implies(g, And(T.wf(T.prime(n, i)), T.mgr(T.prime(n, i)) == T.mgr(n),
                                             T.vt(T.prime(n, i)) == T.vleft(T.vt(n)))), [T.prime(n, i)]))
        out.append(FA([n, i], Implies(g, And(T.wf(T.sub(n, i)), T.mgr(T.sub(n, i)) == T.mgr(n),
                                             T.vt(T.sub(n, i)) == T.vright(T.vt(n)))), [T.sub(n, i)]))
        out.append(FA([n, i], Implies(g, T.par(n, i) >= 0), [T.par(n, i)]))
        # vtrees
        inner = And(n > 0, Not(T.vleaf(n)))
        out.append(FA([n], Implies(inner, And(T.vleft(n) > 0, T.vparent(T.vleft(n)) == n, T.vleft(n) != T.vright(n))), [T.vleft(n)]))
        out.append(FA([n], Implies(inner, And(T.vright(n) > 0, T.vparent(T.vright(n)) == n)), [T.vright(n)]))
        out.append(FA([n], Implies(n > 0, And(T.vdepth(n) == If(T.vparent(n) == 0, z3.IntVal(0), 1 + T.vdepth(T.vparent(n))), T.vdepth(n) >= 0, T.vparent(n) >= 0)), [T.vdepth(n)]))
        return self.base_axioms() + out + self.extra_axioms

    # ------------------------------------------------ specification helpers
    def ser(self, s, size=None):
        """what a serialised node list guarantees: every node once, closed under
        children, children after their parents.  ix is the (ghost) position."""
        T = self
        i, e = z3.Ints('i e')
        arr, ix, ln = s.f['arr'], s.f['ix'], s.f['len']
        a = z3.Select(arr, i)
        inr = And(0 <= i, i < ln)
        out = [('nonempty', ln >= 1)]
        out.append(('nodes distinct and well-formed', FA([i], Implies(inr, And(T.wf(a), T.mgr(a) == T.mgr(z3.Select(arr, 0)), z3.Select(ix, a) == i)), [a])))
        for nm, ch in (('primes', T.prime), ('subs', T.sub)):
            c = ch(a, e)
            out.append(('%s after their parents' % nm, FA([i, e], Implies(And(inr, T.dt(a) == 2, 0 <= e, e < T.np(a)),
                        And(i < z3.Select(ix, c), z3.Select(ix, c) < ln, z3.Select(arr, z3.Select(ix, c)) == c)), [c])))
        return out

    # ------------------------------------------------ libsdd vtrees (trusted)
    def c_sdd_vtree_is_leaf(self, ex, a, n):
        return If(self.vleaf(ex.val(a[0])), z3.IntVal(1), z3.IntVal(0))
    def c_sdd_vtree_left(self, ex, a, n):
        return self.vleft(ex.val(a[0]))
    def c_sdd_vtree_right(self, ex, a, n):
        return self.vright(ex.val(a[0]))
    def c_sdd_vtree_parent(self, ex, a, n):
        return self.vparent(ex.val(a[0]))
    def c_sdd_vtree_var(self, ex, a, n):
        return self.vvar(ex.val(a[0]))
    def c_sdd_vtree_position(self, ex, a, n):
        return self.vpos(ex.val(a[0]))
    def c_sdd_vtree_data(self, ex, a, n):
        v = ex.val(a[0])
        return z3.Select(ex.heap_get('Vtree', 'data'), v)
    def c_sdd_vtree_set_data(self, ex, a, n):
        d, v = ex.val(a[0]), ex.val(a[1])
        if ex.under_keys:
            raise NeedBranch()
        ex.st.heap[('Vtree', 'data')] = z3.Store(ex.heap_get('Vtree', 'data'), v, d)
        return Opaque()

    # ------------------------------------------------ libsdd nodes (trusted)
    # models: smod(x, s); the constructors are functions of their arguments
    smod = fn('sdd_models', A_IB, I, B)
    s_lit = fn('sdd_literal', I, I)
    s_and = fn('sdd_conjoin', I, I, I)
    s_or = fn('sdd_disjoin', I, I, I)
    s_true = z3.Int('sdd_true')
    s_false = z3.Int('sdd_false')
    def sdd_axioms(self):
        T = self
        x = z3.Const('x', A_IB)
        a, b, l = z3.Ints('a b l')
        return [FA([x, l], Implies(l != 0, T.smod(x, T.s_lit(l)) == (z3.Select(x, If(l > 0, l, -l)) == (l > 0))), [T.smod(x, T.s_lit(l))]),
                FA([x, a, b], T.smod(x, T.s_and(a, b)) == And(T.smod(x, a), T.smod(x, b)), [T.smod(x, T.s_and(a, b))]),
                FA([x, a, b], T.smod(x, T.s_or(a, b)) == Or(T.smod(x, a), T.smod(x, b)), [T.smod(x, T.s_or(a, b))]),
                FA([x], T.smod(x, T.s_true), [T.smod(x, T.s_true)]), FA([x], Not(T.smod(x, T.s_false)), [T.smod(x, T.s_false)]),
                FA([l], T.s_lit(l) > 0, [T.s_lit(l)]), FA([a, b], T.s_and(a, b) > 0, [T.s_and(a, b)]), FA([a, b], T.s_or(a, b) > 0, [T.s_or(a, b)]),
                T.s_true > 0, T.s_false > 0]
    def c_sdd_manager_literal(self, ex, a, n):
        l = ex.val(a[0])
        ex.val(a[1])
        ex.check(l != 0, 'pre', 'sdd_manager_literal: a literal')
        return self.s_lit(l)
    def c_sdd_manager_true(self, ex, a, n):
        return self.s_true
    def c_sdd_manager_false(self, ex, a, n):
        return self.s_false
    def c_sdd_conjoin(self, ex, a, n):
        return self.s_and(ex.val(a[0]), ex.val(a[1]))
    def c_sdd_disjoin(self, ex, a, n):
        return self.s_or(ex.val(a[0]), ex.val(a[1]))

    # ------------------------------------------------ random numbers (trusted)
    ghosts = {}
    draw = fn('draw', I, R)          # the values generators return, in the order of the calls
    umin = fn('generator_min', I, R)
    umax = fn('generator_max', I, R)
    def user_method(self, ex, x, cls, name, args, n):
        if cls.startswith('RandomDouble') and not ex.opts.get('real_generator'):
            if name == 'min':
                return self.umin(x)
            if name == 'max':
                return self.umax(x)
            if name == 'generate':
                c = ex.st.ghost['draws']
                v = self.draw(c)
                ex.st.ghost['draws'] = c + 1
                if cls == 'RandomDoubleFromUniformGenerator':
                    ex.assume(And(self.umin(x) <= v, v < self.umax(x)))
                else:
                    ex.assume(v > 0 if ex.opts.get('positive_draws') else v >= 0)
                return v
        return None
