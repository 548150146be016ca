"""The manager's operations (C02, C09-C14): nodes are requested from the unique
table; what a request denotes is what the node handed back denotes."""
from .core import *
from . import node_util as NU
from . import serialize as SER
from . import construct as CT
from . import unique as UQ
from .unique import Shape, Same, Anc, vroot, TInv, Sub, MEM
from cppvc.sym import eqv

MG = ('src/psdd_manager.cpp', 'src/psdd_node.cpp')
MFILT = ['Psdd', 'psdd_node_util', 'vtree_util', 'anonymous namespace', 'ComputationCache', 'MultiplyWithCache', 'ReadLogProbability', 'TagSddVtreeWithPsddVtree']
XX = z3.Const('AnyAssignment', A_IB)      # arbitrary: what is proved of it holds for every assignment
def VX(n):
    return V(ALLV, XX, n)

# ------------------------------------------------- sums over request arrays
PermOf = fn('PermutationOf', A_IR, A_IR, A_II, A_II, I, B)
El = fn('ElementValues', A_II, A_II, A_IR, A_IR)
ASum = fn('ArraySum', A_IR, I, R)
IsReq = fn('IsRequest', I, A_II, A_II, A_IR, I, A_II, A_II, B)
P_, Q_, p_, q_ = z3.Consts('P Q p q', A_II)
W_ = z3.Const('W', A_IR)
def ax_sum(T):
    a, k, n = z3.Const('a', A_IR), z3.Int('k'), n_
    i = i_
    e = El(P_, Q_, W_)
    inr = And(0 <= i, i < k)
    parts = lambda n: [T.dt(n) == 2, T.np(n) == k, T.ns(n) == k, T.npar(n) == k]
    r = IsReq(n, P_, Q_, W_, k, p_, q_)
    el = Implies(inr, And(T.prime(n, i) == S(P_, S(p_, i)), T.sub(n, i) == S(Q_, S(p_, i)), T.par(n, i) == S(W_, S(p_, i))))
    per = And(*CT.perm_facts(p_, q_, k))
    vs = [n, P_, Q_, W_, k, p_, q_]
    return [FA([P_, Q_, W_, i], S(e, i) == pm(pm(VX(S(P_, i)), VX(S(Q_, i))), S(W_, i)), [S(e, i)]),
            FA([a, k], And(Implies(k <= 0, ASum(a, k) == 0), Implies(k == 1, ASum(a, k) == S(a, iv(0)))), [ASum(a, k)]),
            FA([a, k], Implies(k >= 0, ASum(a, k + 1) == ASum(a, k) + S(a, k)), [(ASum(a, k), S(a, k))]),
            FA(vs, Implies(r, And(*(parts(n) + [per]))), [r]),
            FA(vs + [i], Implies(r, el), [(r, T.prime(n, i)), (r, T.sub(n, i)), (r, T.par(n, i))]),
            FA(vs, Implies(And(*(parts(n) + [per, FA([i], el, [T.prime(n, i)])])), r), [r])]
EqOn = fn('EqualUpTo', A_IR, A_IR, I, B)
def ax_eqon(T):
    a, b = z3.Consts('a b', A_IR)
    n, i = n_, i_
    e = EqOn(a, b, n)
    return [FA([a, b, n, i], Implies(And(e, 0 <= i, i < n), S(a, i) == S(b, i)), [(e, S(a, i)), (e, S(b, i))]),
            FA([a, b, n], Implies(FA([i], Implies(And(0 <= i, i < n), S(a, i) == S(b, i)), [S(a, i), S(b, i)]), e), [e])]
def own(T, n):
    return El(T.prA(n), T.suA(n), T.paA(n))
def lem_sum(T):
    a, b = z3.Consts('a b', A_IR)
    p, q = p_, q_
    k, j, n, i = z3.Int('k0'), z3.Int('j'), z3.Int('n0'), i_
    v = z3.Real('v')
    upd = lambda k: ASum(z3.Store(b, j, v), k) == ASum(b, k) + If(And(0 <= j, j < k), v - S(b, j), rv(0))
    T.lemmas.append(Lemma('changing one summand', FA([b, j, v, k], Implies(k >= 0, upd(k)), [ASum(z3.Store(b, j, v), k)]),
        [('none', [], upd(iv(0))), ('step', [k >= 0, upd(k), *touch(S(z3.Store(b, j, v), k)), *touch(S(b, k))], upd(k + 1))]))
    # sums do not depend on the order of the summands
    is_perm = lambda b, p, q, n: And(*(CT.perm_facts(p, q, n) + [FA([i], Implies(And(0 <= i, i < n), S(b, i) == S(a, S(p, i))), [S(b, i)])]))
    l = n
    jj = S(q, l)
    b2, p2, q2 = z3.Store(b, jj, S(b, l)), z3.Store(p, jj, S(p, l)), z3.Store(q, S(p, l), jj)
    ih = Implies(is_perm(b2, p2, q2, l), ASum(a, l) == ASum(b2, l))
    h = [n >= 0, is_perm(b, p, q, n + 1)]
    t = [*touch(S(q, l)), S(p, S(q, l)) == l, *touch(S(p, l)), *touch(S(a, l)), *touch(S(b, l)), *touch(S(b, jj)), *touch(ASum(a, l)), *touch(ASum(b, l))]
    T.extra_axioms.append(FA([a, b, p, q, n], PermOf(a, b, p, q, n), [PermOf(a, b, p, q, n)]))     # a trigger only
    T.lemmas.append(Lemma('sums do not depend on the order', z3.BoolVal(True),
        [('none', [], ASum(a, iv(0)) == ASum(b, iv(0))),
         ('last summand', h + t, And(S(p, jj) == l, 0 <= jj, jj <= l, S(b, jj) == S(a, l))),
         ('without it: permutation', h + t + [And(S(p, jj) == l, 0 <= jj, jj <= l)], And(*CT.perm_facts(p2, q2, l))),
         ('without it: summands', h + t + [And(S(p, jj) == l, 0 <= jj, jj <= l)], FA([i], Implies(And(0 <= i, i < l), S(b2, i) == S(a, S(p2, i))), [S(b2, i)])),
         ('step', [n >= 0, 0 <= jj, jj <= l, S(b, jj) == S(a, l), ASum(a, l) == ASum(b2, l)] + t, ASum(a, l + 1) == ASum(b, l + 1))]))
    order = FA([a, b, p, q, n], Implies(And(n >= 0, is_perm(b, p, q, n)), ASum(a, n) == ASum(b, n)), [(ASum(a, n), ASum(b, n), PermOf(a, b, p, q, n))])
    T.lemmas.append(Lemma('sums do not depend on the order (conclusion)', order, []))
    own_n = own(T, n)
    vs = lambda i: VS(ALLV, XX, n, i) == ASum(own_n, i)
    k = z3.Int('k1')
    T.lemmas.append(Lemma('a node\'s sum is the sum over its arrays', FA([n], Implies(And(T.dt(n) == 2, T.np(n) >= 0), VX(n) == ASum(own_n, T.np(n))), [own_n]),
        [('none', [T.dt(n) == 2, T.np(n) >= 0, *touch(VX(n))], vs(iv(0))),
         ('step', [T.dt(n) == 2, 0 <= k, k < T.np(n), vs(k), *touch(T.prime(n, k)), *touch(S(own_n, k))], vs(k + 1)),
         ('all', [T.dt(n) == 2, vs(T.np(n))], VX(n) == ASum(own_n, T.np(n)))]))
    k = z3.Int('k2')
    r = IsReq(n, P_, Q_, W_, k, p_, q_)
    e = El(P_, Q_, W_)
    T.lemmas.append(Lemma('a requested node denotes what was requested', FA([n, P_, Q_, W_, k, p_, q_], Implies(And(r, k >= 0), VX(n) == ASum(e, k)), [r]),
        [('sum', [r, k >= 0, PermOf(e, own_n, p_, q_, k), *touch(ASum(e, k)), *touch(ASum(own_n, k))], VX(n) == ASum(e, k))]))
    one = Implies(And(T.dt(n) == 2, T.np(n) == 1), VX(n) == pm(pm(VX(T.prime(n, iv(0))), VX(T.sub(n, iv(0)))), T.par(n, iv(0))))
    T.lemmas.append(Lemma('a node with one element', FA([n], one, [VX(n)]), [('one', touch(T.prime(n, iv(0))), one)]))
    a, b = z3.Consts('a b', A_IR)
    T.lemmas.append(Lemma('equal summands have equal sums', FA([a, b, n], Implies(And(n >= 0, EqOn(a, b, n)), ASum(a, n) == ASum(b, n)), [EqOn(a, b, n)]),
        [('none', [], ASum(a, iv(0)) == ASum(b, iv(0))),
         ('hereditary', [n >= 0, EqOn(a, b, n + 1)], EqOn(a, b, n)),
         ('step', [n >= 0, EqOn(a, b, n + 1), ASum(a, n) == ASum(b, n)] + touch(S(a, n), S(b, n)), ASum(a, n + 1) == ASum(b, n + 1))]))
    a, b = z3.Int('a'), z3.Int('b')
    vs = lambda i: VS(ALLV, XX, a, i) == VS(ALLV, XX, b, i)
    T.lemmas.append(Lemma('equal content denotes the same', FA([a, b], Implies(Same(a, b), VX(a) == VX(b)), [Same(a, b)]),
        [('first', [Same(a, b), T.dt(a) == 2, *touch(VX(a)), *touch(VX(b))], vs(iv(0))),
         ('step', [Same(a, b), T.dt(a) == 2, 0 <= k, k < T.np(a), vs(k), T.prime(a, k) == T.prime(b, k), T.sub(a, k) == T.sub(b, k), T.par(a, k) == T.par(b, k)], vs(k + 1)),
         ('decision', [Same(a, b), T.dt(a) == 2, vs(T.np(a)), *touch(VX(a)), *touch(VX(b))], VX(a) == VX(b)),
         ('leaf', [Same(a, b), Or(T.dt(a) == 1, T.dt(a) == 3), *touch(VX(a)), *touch(VX(b))], VX(a) == VX(b))]))
    return []

# ------------------------------------------------------- the manager's state
MGR = 'PsddManager'
lcaf = fn('lca', I, I, I)
def ax_vtree(T):
    """vtrees (libsdd): climbing, lowest common ancestors"""
    a, u, w, b = z3.Int('a'), z3.Int('u'), z3.Int('w'), z3.Int('b')
    p = T.vparent(u)
    inner = And(w > 0, Not(T.vleaf(w)))
    return [FA([a, u], Implies(And(Anc(a, u), a != u), And(p > 0, Not(T.vleaf(p)), Anc(a, p), Or(T.vleft(p) == u, T.vright(p) == u))), [(Anc(a, u), p)]),
            FA([a, u], Implies(And(a > 0, Anc(a, u)), u > 0), [Anc(a, u)]),
            FA([a, b, u], Implies(And(Anc(a, b), Anc(b, u)), Anc(a, u)), [(Anc(a, b), Anc(b, u))]),
            FA([w, u, b], Implies(And(inner, Anc(T.vleft(w), u), Anc(T.vright(w), b)), lcaf(u, b) == w), [(Anc(T.vleft(w), u), Anc(T.vright(w), b))]),
            FA([u, b], Implies(And(u > 0, b > 0, p > 0, Not(T.vleaf(p)), T.vleft(p) == u, T.vright(p) == b), lcaf(u, b) == p), [lcaf(u, b)])]
class MTheory(PsddTheory):
    fields = dict(PsddTheory.fields)
    fields[MEM] = A_IB
    def is_heap(self, ex, t):
        return t != ('cls', 'ComputationCache') and PsddTheory.is_heap(self, ex, t)
    def c_sdd_vtree_lca(self, ex, a, n):
        return lcaf(ex.val(a[0]), ex.val(a[1]))
def mtheory(*parts):
    T = MTheory()
    for p in parts:
        T.extra_axioms += p(T)
    return T
LEAFMAP = (MGR, 'leaf_vtree_map_')
class M:
    """the manager `this` in one state"""
    def __init__(self, X, old):
        obj = getattr(X, 'manager', None)      # a manager passed as an argument
        obj = X.this if obj is None else obj
        rd = lambda f: X.ex.read(X.ex.this_field(obj, f), X.old if old else X.new)
        self.t, self.k, self.vtree, self.leaf = rd('unique_table_'), rd('node_index_'), rd('vtree_'), rd('leaf_vtree_map_')
        self.mem = S(X.oh(*MEM) if old else X.h(*MEM), self.t)
        self.next = (X.old if old else X.new).next
def minv(X, old):
    T, m = X.theory, M(X, old)
    r, v, u = z3.Ints('r v u')
    leaf = S(m.leaf.f['val'], v)
    return [('the table\'s invariant', TInv(m.mem, m.k, m.t)), ('the vtree of the table', And(m.t > 0, m.vtree > 0, vroot(m.t) == m.vtree)),
            ('the leaves of the vtree', FA([v], Implies(S(m.leaf.f['dom'], v), And(v > 0, leaf > 0, T.vleaf(leaf), T.vvar(leaf) == v, Anc(m.vtree, leaf))), [leaf, S(m.leaf.f['dom'], v)])),
            ('every leaf of the vtree', FA([u], Implies(And(Anc(m.vtree, u), T.vleaf(u)), And(S(m.leaf.f['dom'], T.vvar(u)), S(m.leaf.f['val'], T.vvar(u)) == u)), [(Anc(m.vtree, u), T.vvar(u))])),
            ('the nodes exist', FA([r], Implies(S(m.mem, r), r < m.next), [S(m.mem, r)]))]
MODS = [MEM, (MGR, 'node_index_'), ('new', 'PsddNode')]
def grow(X):
    """what every operation that requests nodes does to the manager"""
    return minv(X, False) + [('nodes of the table stay', Sub(M(X, True).mem, M(X, False).mem))]
def node_of(X, res, *parts):
    T, m = X.theory, M(X, False)
    return [('a node of the table', S(m.mem, res))] + list(parts)

def c_unique():
    c = UQ.c_unique()
    c.modifies = [('arg', 1), MEM]
    return c
def c_literal():
    def req(X):
        T, m, l = X.theory, M(X, True), X.a(0)
        v = If(l >= 0, l, -l)
        return minv(X, True) + [('a literal of the vtree', And(l != 0, S(m.leaf.f['dom'], v)))]
    def ens(X):
        T, l, r = X.theory, X.a(0), X.res
        m = M(X, False)
        v = If(l >= 0, l, -l)
        return grow(X) + node_of(X, r, ('the literal', And(T.dt(r) == 1, T.lit(r) == l)), ('the flag', T.flg(r) == X.a(1)), ('at the leaf of its variable', T.vt(r) == S(m.leaf.f['val'], v)))
    return Contract('PsddManager::GetPsddLiteralNode', requires=req, ensures=ens, modifies=MODS)
def c_top():
    def req(X):
        m, v = M(X, True), X.a(0)
        return minv(X, True) + [('a variable of the vtree', S(m.leaf.f['dom'], v)), ('parameters', And(X.a(2) >= 0, X.a(3) >= 0))]
    def ens(X):
        T, v, r = X.theory, X.a(0), X.res
        m = M(X, False)
        return grow(X) + node_of(X, r, ('the variable', And(T.dt(r) == 3, T.tv(r) == v)), ('the parameters', And(T.tpar(r) == X.a(2), T.fpar(r) == X.a(3))), ('the flag', T.flg(r) == X.a(1)),
                                 ('at the leaf of its variable', T.vt(r) == S(m.leaf.f['val'], v)))
    return Contract('PsddManager::GetPsddTopNode', requires=req, ensures=ens, modifies=MODS)

# --------------------------------------------------------------- vtree lists
VVEC = ('vec', VT)
Inner = fn('InnerBefore', A_II, I, I)               # inner nodes among the first entries of a list
VSer = fn('BreadthFirst', A_II, A_II, I, I, B)      # the breadth-first list of the vtree below a node
def ax_inner(T):
    a, i, l, x = z3.Const('a', A_II), z3.Int('i'), z3.Int('l'), z3.Int('x')
    return [FA([a, i], Implies(i <= 0, Inner(a, i) == 0), [Inner(a, i)]),
            FA([a, i], Implies(i >= 0, Inner(a, i + 1) == Inner(a, i) + If(T.vleaf(S(a, i)), iv(0), iv(1))), [(Inner(a, i), T.vleaf(S(a, i)))])]
def lem_inner(T):
    a, i, l, x = z3.Const('a', A_II), z3.Int('i'), z3.Int('l'), z3.Int('x')
    st = z3.Store(a, l, x)
    f = lambda i: Inner(st, i) == Inner(a, i)
    T.lemmas.append(Lemma('inner nodes do not depend on later entries', FA([a, l, x, i], Implies(i <= l, f(i)), [Inner(st, i)]),
        [('none', [i <= 0], f(i)), ('step', [0 <= i, i < l, f(i), T.vleaf(S(a, i)) == T.vleaf(S(st, i))] + touch(Inner(st, i + 1), Inner(a, i + 1), If(T.vleaf(S(st, i)), iv(1), iv(0)), If(T.vleaf(S(a, i)), iv(1), iv(0))), f(i + 1))]))
    g = lambda i: Inner(a, i) >= Inner(a, l) + If(T.vleaf(S(a, l)), iv(0), iv(1))
    T.lemmas.append(Lemma('inner nodes add up', FA([a, l, i], Implies(And(0 <= l, l < i), g(i)), [(Inner(a, l), Inner(a, i))]),
        [('first', [0 <= l] + touch(Inner(a, l + 1), If(T.vleaf(S(a, l)), iv(1), iv(0))), g(l + 1)), ('step', [0 <= l, l < i, g(i)] + touch(Inner(a, i + 1), If(T.vleaf(S(a, i)), iv(1), iv(0))), g(i + 1))]))
    return []
def vser_facts(T, a, x, n, R):
    i, u = z3.Ints('i u')
    e = S(a, i)
    inr = And(0 <= i, i < n)
    mem = lambda c: And(0 <= S(x, c), S(x, c) < n, S(a, S(x, c)) == c)
    p = T.vparent(e)
    return [And(n >= 1, S(a, iv(0)) == R, n == 1 + 2 * Inner(a, n)),
            ([i], Implies(inr, And(e > 0, Anc(R, e), S(x, e) == i)), e),
            ([i], Implies(And(inr, Not(T.vleaf(e))), And(mem(T.vleft(e)), mem(T.vright(e)), S(x, T.vleft(e)) == 1 + 2 * Inner(a, i), S(x, T.vright(e)) == 2 + 2 * Inner(a, i))), e),
            ([i], Implies(And(inr, i > 0), And(p > 0, Not(T.vleaf(p)), mem(p), S(x, p) < i, Or(T.vleft(p) == e, T.vright(p) == e))), e)]
def ax_vser(T):
    a, x, n, R = z3.Const('a', A_II), z3.Const('x', A_II), z3.Int('n'), z3.Int('root')
    fs = vser_facts(T, a, x, n, R)
    p = VSer(a, x, n, R)
    vs = [a, x, n, R]
    return [FA(vs, Implies(And(fs[0], *[FA(v, f, [t]) for v, f, t in fs[1:]]), p), [p]), FA(vs, Implies(p, fs[0]), [p])] + [FA(vs + v, Implies(p, f), [(p, t)]) for v, f, t in fs[1:]]
Phi = fn('SameShapeAt', I, I)         # arbitrary: the corresponding position of another vtree
Iso = fn('SameShape', I, I, B)        # Phi maps the vtree below the one node to the vtree below the other
Alike = fn('ListedAlike', A_II, A_II, I, B)
def ax_iso(T):
    R, W, u = z3.Int('root'), z3.Int('w'), z3.Int('u')
    a, b, k, i = z3.Const('a', A_II), z3.Const('b', A_II), z3.Int('k'), z3.Int('i')
    f = Phi(u)
    al = Alike(a, b, k)
    return [FA([R, W], Implies(Iso(R, W), And(Phi(R) == W, R > 0, W > 0)), [Iso(R, W)]),
            FA([R, W, u], Implies(And(Iso(R, W), Anc(R, u)), And(f > 0, Anc(W, f), T.vleaf(f) == T.vleaf(u), Implies(Not(T.vleaf(u)), And(Phi(T.vleft(u)) == T.vleft(f), Phi(T.vright(u)) == T.vright(f))))), [(Iso(R, W), Anc(R, u), f)]),
            FA([a, b, k, i], Implies(And(al, 0 <= i, i < k), S(b, i) == Phi(S(a, i))), [(al, S(a, i)), (al, S(b, i))]),
            FA([a, b, k], Implies(FA([i], Implies(And(0 <= i, i < k), S(b, i) == Phi(S(a, i))), [S(a, i), S(b, i)]), al), [al])]
def lem_iso(T):
    a, x, b, y = z3.Const('a', A_II), z3.Const('x', A_II), z3.Const('b', A_II), z3.Const('y', A_II)
    n, m, R, W, k, j, u = z3.Int('n'), z3.Int('m'), z3.Int('root'), z3.Int('w'), z3.Int('k'), z3.Int('j'), z3.Int('u')
    p = VSer(a, x, n, R)
    mem = lambda c: And(0 <= S(x, c), S(x, c) < n, S(a, S(x, c)) == c)
    T.lemmas.append(Lemma('the list has every node below', FA([a, x, n, R, u], Implies(And(p, R > 0, Anc(R, u)), mem(u)), [(p, Anc(R, u))]),
        [('root', [p, R > 0, u == R, S(x, S(a, iv(0))) == 0] , mem(u)), ('depth decreases', [p, R > 0, Anc(R, u), u != R] + touch(T.vparent(u), T.vleft(T.vparent(u)), T.vright(T.vparent(u))), And(Anc(R, T.vparent(u)), T.vdepth(T.vparent(u)) < T.vdepth(u), T.vdepth(T.vparent(u)) >= T.vdepth(R))),
         ('step', [p, R > 0, Anc(R, u), u != R, mem(T.vparent(u))] + touch(T.vparent(u), T.vleft(T.vparent(u)), T.vright(T.vparent(u))), mem(u))]))
    q = VSer(b, y, m, W)
    eq = lambda j: Inner(a, j) == Inner(b, j)
    h = [p, q, Iso(R, W)]
    T.lemmas.append(Lemma('lists alike have as many inner nodes', FA([a, x, n, R, b, y, m, W, k, j], Implies(And(*h, Alike(a, b, k), k <= n, k <= m, 0 <= j, j <= k), eq(j)), [(p, q, Iso(R, W), Alike(a, b, k), Inner(a, j)), (p, q, Iso(R, W), Alike(a, b, k), Inner(b, j))]),
        [('none', [], eq(iv(0))), ('step', h + [Alike(a, b, k), k <= n, k <= m, 0 <= j, j < k, eq(j), T.vleaf(S(a, j)) == T.vleaf(S(b, j))] + touch(Inner(a, j + 1), Inner(b, j + 1)), eq(j + 1)),
         ('leaves alike', h + [Alike(a, b, k), k <= n, k <= m, 0 <= j, j < k] + touch(S(a, j), S(b, j), Phi(S(a, j))), T.vleaf(S(a, j)) == T.vleaf(S(b, j)))]))
    v = z3.Int('v')
    nest = lambda v: Anc(Phi(u), Phi(v))
    h2 = [Iso(R, W), Anc(R, u)]
    pv = T.vparent(v)
    T.lemmas.append(Lemma('nesting is kept', FA([R, W, u, v], Implies(And(*h2, Anc(u, v)), nest(v)), [(Iso(R, W), Anc(R, u), Anc(u, v), Phi(u))]),
        [('itself', h2 + touch(Phi(u)), nest(u)), ('depth decreases', h2 + [R > 0, Anc(u, v), u != v, v > 0, u > 0] + touch(pv, T.vleft(pv), T.vright(pv)), And(Anc(u, pv), T.vdepth(pv) < T.vdepth(v))),
         ('positions', h2 + [Anc(u, v), R > 0], And(u > 0, v > 0, Anc(R, v))),
         ('step', h2 + [Anc(u, v), u != v, v > 0, u > 0, Anc(R, u), Anc(R, pv), Anc(u, pv), nest(pv)] + touch(pv, T.vleft(pv), T.vright(pv), Phi(pv), T.vleft(Phi(pv)), T.vright(Phi(pv)), Phi(v)), nest(v))]))
    pk = T.vparent(S(a, k))
    jj = S(x, pk)
    cur = h + [Alike(a, b, k), 1 <= k, k < n, k < m] + touch(S(a, k), pk, Phi(pk), S(b, jj))
    par = [S(b, jj) == Phi(pk), Inner(a, jj) == Inner(b, jj), 0 <= jj, jj < k, S(a, jj) == pk, Not(T.vleaf(Phi(pk))), Phi(T.vleft(pk)) == T.vleft(Phi(pk)), Phi(T.vright(pk)) == T.vright(Phi(pk))]
    pb = T.vparent(S(b, n))
    T.lemmas.append(Lemma('vtrees of the same shape are listed alike', FA([a, x, n, R, b, y, m, W], Implies(And(*h), And(n == m, Alike(a, b, n))), [(p, q, Iso(R, W))]),
        [('first', h + [k == 1], Alike(a, b, k)),
         ('parents are alike', cur, And(*par[:5])), ('parents are inner nodes', cur + par[:5], And(*par[5:])),
         ('next', cur + par, S(b, k) == Phi(S(a, k))), ('longer', h + [Alike(a, b, k), 1 <= k, k < n, k < m, S(b, k) == Phi(S(a, k))], Alike(a, b, k + 1)),
         ('not longer', h + [Alike(a, b, n), n <= m] + touch(S(b, n), pb, S(y, pb), Inner(b, S(y, pb)), Inner(b, n)), n == m),
         ('not shorter', h + [Alike(a, b, m), m <= n] + touch(S(a, m), T.vparent(S(a, m)), S(x, T.vparent(S(a, m))), Inner(a, S(x, T.vparent(S(a, m)))), Inner(a, m)), n == m)]))
    return []
def vser(T, s, root):
    i, u = z3.Ints('i u')
    a = at(s, i)
    inr = And(0 <= i, i < ln(s))
    later = lambda c: And(ix(s, a) < ix(s, c), ix(s, c) < ln(s), at(s, ix(s, c)) == c)
    return [('starts with the root', And(ln(s) >= 1, at(s, iv(0)) == root)),
            ('nodes below the root, once', FA([i], Implies(inr, And(a > 0, Anc(root, a), ix(s, a) == i)), [a])),
            ('children after parents', FA([i], Implies(And(inr, Not(T.vleaf(a))), And(later(T.vleft(a)), later(T.vright(a)))), [T.vleft(a), T.vright(a)])),
            ('in breadth-first order', VSer(s.f['arr'], s.f['ix'], ln(s), root))]
def c_vser():
    return Contract('vtree_util::SerializeVtree', requires=lambda X: [('a vtree node', X.a(0) > 0)], ensures=lambda X: vser(X.theory, X.res, X.a(0)))

# --------------------------------------------- true nodes, lifting, conforming
TMAP = ('map', ('int',), NODE)
def tmap(X, mp, flag, old):
    T, m = X.theory, M(X, old)
    c = z3.Int('c')
    r = S(mp.f['val'], c)
    return [('true nodes', FA([c], Implies(S(mp.f['dom'], c), And(S(m.mem, r), VX(r) == 1, T.vpos(T.vt(r)) == c, T.flg(r) == flag)), [S(mp.f['dom'], c), r]))]
def is_true(X, r, target, flag):
    T = X.theory
    return node_of(X, r, ('at the requested position', T.vt(r) == target), ('weight one', VX(r) == 1), ('the flag', T.flg(r) == flag))
def c_true3():
    def req(X):
        return minv(X, True) + tmap(X, X.a(2), X.a(1), True) + [('a position of the vtree', And(X.a(0) > 0, Anc(M(X, True).vtree, X.a(0))))]
    def ens(X):
        return grow(X) + tmap(X, X.a1(2), X.a(1), False) + is_true(X, X.res, X.a(0), X.a(1))
    def loop(L, X):
        T = X.theory
        s, u = L.var('post_order_vtree_nodes', t=VVEC), z3.Int('u')
        mp = X.a1(2)
        return grow(X) + tmap(X, mp, X.a(1), False) + [('nodes so far have true nodes', FA([u], Implies(done_suffix(s, L.k, u), S(mp.f['dom'], T.vpos(u))), [S(mp.f['dom'], T.vpos(u))]))]
    return Contract('PsddManager::GetTrueNode', nparams=3, requires=req, ensures=ens, modifies=MODS + [('arg', 2)], loops={'0': loop})
def c_true2():
    return Contract('PsddManager::GetTrueNode', nparams=2, requires=lambda X: minv(X, True) + [('a position of the vtree', And(X.a(0) > 0, Anc(M(X, True).vtree, X.a(0))))],
                    ensures=lambda X: grow(X) + is_true(X, X.res, X.a(0), X.a(1)), modifies=MODS)
def lift_req(X):
    m, T = M(X, True), X.theory
    return [('a position of the vtree', And(X.a(0) > 0, Anc(m.vtree, X.a(0)))), ('a node of the table below the position', And(S(m.mem, X.a(1)), Anc(X.a(0), T.vt(X.a(1)))))]
def lift_ens(X):
    T, r, n = X.theory, X.res, X.a(1)
    return node_of(X, r, ('at the requested position', T.vt(r) == X.a(0)), ('denotes the same', VX(r) == VX(n)), ('nothing to do at the position', Implies(T.vt(n) == X.a(0), r == n)),
                   ('the flag', Or(r == n, T.flg(r) == X.a(2))))
def c_norm4():
    def loop(L, X):
        T = X.theory
        c = L.var('cur_node', t=NODE)
        return grow(X) + tmap(X, X.a1(3), X.a(2), False) + [('the node so far', And(S(M(X, False).mem, c), Anc(X.a(0), T.vt(c)), VX(c) == VX(X.a(1)))),
                     ('unchanged or lifted', Or(c == X.a(1), And(T.flg(c) == X.a(2), T.vt(X.a(1)) != X.a(0))))]
    return Contract('PsddManager::NormalizePsddNode', nparams=4, requires=lambda X: minv(X, True) + tmap(X, X.a(3), X.a(2), True) + lift_req(X),
                    ensures=lambda X: grow(X) + tmap(X, X.a1(3), X.a(2), False) + lift_ens(X), modifies=MODS + [('arg', 3)], loops={'0': loop})
def c_norm3():
    return Contract('PsddManager::NormalizePsddNode', nparams=3, requires=lambda X: minv(X, True) + lift_req(X), ensures=lambda X: grow(X) + lift_ens(X), modifies=MODS)

def c_conform():
    def args(X):
        return X.a(0), X.a(1), X.a(2)
    def lca(X):
        A, Bs, W = args(X)
        return lcaf(X.theory.vt(at(A, iv(0))), X.theory.vt(at(Bs, iv(0))))
    def req(X):
        T, m = X.theory, M(X, True)
        A, Bs, W = args(X)
        w, i = lca(X), z3.Int('i')
        inr = And(0 <= i, i < ln(A))
        return minv(X, True) + [('as many subs and parameters as primes', And(ln(A) >= 1, ln(Bs) == ln(A), ln(W) == ln(A))),
            ('a position of the vtree', And(w > 0, Not(T.vleaf(w)), Anc(m.vtree, w))),
            ('primes', FA([i], Implies(inr, And(S(m.mem, at(A, i)), Anc(T.vleft(w), T.vt(at(A, i))))), [at(A, i)])),
            ('subs', FA([i], Implies(inr, And(S(m.mem, at(Bs, i)), Anc(T.vright(w), T.vt(at(Bs, i))))), [at(Bs, i)])),
            ('parameters', FA([i], Implies(inr, at(W, i) >= 0), [at(W, i)]))]
    def ens(X):
        T, r = X.theory, X.res
        A, Bs, W = args(X)
        w, n, i = lca(X), ln(A), z3.Int('i')
        p, q = X.outs['p'], X.outs['q']
        inr = And(0 <= i, i < n)
        more = []
        if X.ex.func.qname == 'PsddManager::GetConformedPsddDecisionNode':
            nn = X.ex.last_new
            a, b = X.ex.last_ctor.a(3), X.ex.last_ctor.a(4)
            e0, e1 = El(A.f['arr'], Bs.f['arr'], W.f['arr']), El(a.f['arr'], b.f['arr'], W.f['arr'])
            more = [('the object built is what was requested', IsReq(nn, a.f['arr'], b.f['arr'], W.f['arr'], n, p, q)),
                    ('lifting keeps the summands', EqOn(e0, e1, n)), ('the same content', Same(r, nn))]
        return more + grow(X) + node_of(X, r, ('a decision node at the lowest position', And(T.dt(r) == 2, T.vt(r) == w, T.np(r) == n)), ('the flag', T.flg(r) == X.a(3)),
            ('denotes the weighted sum of the products', VX(r) == ASum(El(A.f['arr'], Bs.f['arr'], W.f['arr']), n)),
            ('the elements are listed once', And(*CT.perm_facts(p, q, n))),
            ('primes', FA([i], Implies(inr, And(VX(T.prime(r, i)) == VX(at(A, S(p, i))), Implies(T.vt(at(A, S(p, i))) == T.vleft(w), T.prime(r, i) == at(A, S(p, i))))), [T.prime(r, i)])),
            ('subs', FA([i], Implies(inr, And(VX(T.sub(r, i)) == VX(at(Bs, S(p, i))), Implies(T.vt(at(Bs, S(p, i))) == T.vright(w), T.sub(r, i) == at(Bs, S(p, i))))), [T.sub(r, i)])),
            ('parameters', FA([i], Implies(inr, T.par(r, i) == at(W, S(p, i))), [T.par(r, i)])))
    def loop(L, X):
        T, m = X.theory, M(X, False)
        A, Bs, W = args(X)
        w, j = lca(X), z3.Int('j')
        out = grow(X) + tmap(X, L.var('true_node_map', t=TMAP), X.a(3), False)
        for nm, src, side in (('conformed_primes', A, T.vleft(w)), ('conformed_subs', Bs, T.vright(w))):
            c = L.var(nm, t=VEC)
            x = at(c, j)
            out += [('%s so far' % nm, And(ln(c) == L.k, FA([j], Implies(And(0 <= j, j < L.k), And(S(m.mem, x), T.vt(x) == side, VX(x) == VX(at(src, j)), Implies(T.vt(at(src, j)) == side, x == at(src, j)))), [x, at(src, j)])))]
        return out
    return Contract('PsddManager::GetConformedPsddDecisionNode', requires=req, ensures=ens, modifies=MODS, loops={'0': loop}, outs={'p': A_II, 'q': A_II}, wit=lambda X: X.ex.last_outs)

# ------------------------------------------------------------------- loading
Emb = fn('Embedding', I, I)       # arbitrary: the position in the manager's vtree of a position of the source
QS = SER.QS                       # arbitrary set containing the source and closed under children
UD = NU.UDATA
def source(X, roots_in, exact=False):
    """QS: the nodes of the source, and where their positions lie in this manager's vtree"""
    T, m = X.theory, M(X, True)
    r, e = z3.Ints('r e')
    w = Emb(T.vt(r))
    return [roots_in,
            ('the source is closed under children', FA([r, e], Implies(And(S(QS, r), T.dt(r) == 2, 0 <= e, e < T.np(r)), And(S(QS, T.prime(r, e)), S(QS, T.sub(r, e)))), [(S(QS, r), T.prime(r, e)), (S(QS, r), T.sub(r, e)), T.prime(r, e), T.sub(r, e)])),
            ('source nodes exist and are clean', FA([r], Implies(S(QS, r), And(T.wf(r), r < m.next, S(X.oh(*UD), r) == 0)), [S(QS, r)])),
            ('positions of the source in the vtree', FA([r], Implies(S(QS, r), And(w > 0, Anc(m.vtree, w))), [(S(QS, r), w)])),
            ('leaves of the source', And(*[FA([r], Implies(And(S(QS, r), T.dt(r) == d), And(S(m.leaf.f['dom'], v(r)), w == S(m.leaf.f['val'], v(r)))), [v(r)]) for d, v in ((1, lambda r: If(T.lit(r) >= 0, T.lit(r), -T.lit(r))), (3, T.tv))])),
            ('elements of the source', FA([r, e], Implies(And(S(QS, r), T.dt(r) == 2, 0 <= e, e < T.np(r)), And(Not(T.vleaf(w)), Anc(T.vleft(w), Emb(T.vt(T.prime(r, e)))), Anc(T.vright(w), Emb(T.vt(T.sub(r, e)))))), [T.prime(r, e), T.sub(r, e)]))] + ([
            ('elements sit at the children', FA([r, e], Implies(And(S(QS, r), T.dt(r) == 2, 0 <= e, e < T.np(r)), And(T.vleft(w) == Emb(T.vt(T.prime(r, e))), T.vright(w) == Emb(T.vt(T.sub(r, e))))), [T.prime(r, e), T.sub(r, e)]))] if exact else [])
def copies(L, X, s, k, value=True):
    """nodes of the list from the end on have a copy in the table"""
    T, m, r = X.theory, M(X, False), z3.Int('r')
    u, u0 = X.h(*UD), X.oh(*UD)
    y = S(u, r)
    return [('nodes so far have a node in the table', FA([r], Implies(done_suffix(s, k, r), And(S(m.mem, y), T.vt(y) == Emb(T.vt(r)), *([VX(y) == VX(r)] if value else []))), [y])),
            ('other nodes are untouched', FA([r], Implies(And(r < M(X, True).next, Not(done_suffix(s, k, r))), S(u, r) == S(u0, r)), [S(u, r)]))]
def frame_ud(X):
    r = z3.Int('r')
    return ('no residue', FA([r], Implies(r < X.entry.next, S(X.h(*UD), r) == S(X.oh(*UD), r)), [S(X.h(*UD), r)]))
def built(L, X, n):
    """hint: the sum over the request is the sum of the node copied"""
    T = X.theory
    c = X.ex.calls.get('GetConformedPsddDecisionNode')
    if L.phase != 'step' or c is None:
        return []
    return [('the same summands', EqOn(El(c.a(0).f['arr'], c.a(1).f['arr'], c.a(2).f['arr']), own(T, n), T.np(n)))]
def src_list(s):
    i = z3.Int('i')
    return ('the list is within the source', FA([i], Implies(And(0 <= i, i < ln(s)), S(QS, at(s, i))), [at(s, i)]))
def kids_copied(L, X, s, names, n):
    T, j = X.theory, z3.Int('j')
    u = X.h(*UD)
    out = []
    for nm, ch in zip(names, (T.prime, T.sub)):
        c = L.var(nm, t=VEC)
        out.append(('%s so far' % nm, And(ln(c) == T.np(n), FA([j], Implies(And(0 <= j, j < L.k), at(c, j) == S(u, ch(n, j))), [at(c, j), ch(n, j)]))))
    return out
def clear_loop(s):
    def inv(L, X):
        ss, r, T = s(L, X), z3.Int('r'), X.theory
        u, u0 = X.h(*UD), X.oh(*UD)
        dn = And(0 <= ix(ss, r), ix(ss, r) < L.k, at(ss, ix(ss, r)) == r)
        return [('cleared so far', FA([r], Implies(r < X.entry.next, S(u, r) == If(member(ss, r), If(dn, iv(0), S(L.entry.heap[UD], r)), S(u0, r))), [S(u, r)]))]
    return inv
def c_load():
    def s(L, X):
        return L.var('serialized_nodes', t=VEC)
    def req(X):
        T, m = X.theory, M(X, True)
        return minv(X, True) + [('a node', X.theory.wf(X.a(1)))] + source(X, ('the root', S(QS, X.a(1)))) + [
            ('the requested position', And(X.a(0) > 0, Anc(m.vtree, X.a(0)), Anc(X.a(0), Emb(T.vt(X.a(1))))))]
    def outer(L, X):
        T = X.theory
        ss = s(L, X)
        n = at(ss, ln(ss) - L.k)
        return [('within the source', src_list(ss)[1])] + built(L, X, n) + grow(X) + copies(L, X, ss, L.k)
    def inner(L, X):
        T = X.theory
        ss = s(L, X)
        o = L.outer[-1]
        n = at(ss, ln(ss) - 1 - o.k)
        return [src_list(ss)] + grow(X) + copies(o, X, ss, o.k) + kids_copied(L, X, ss, ('new_primes', 'new_subs'), n) + [('a decision node', And(T.wf(n), T.dt(n) == 2))]
    def ens(X):
        T, r = X.theory, X.res
        return grow(X) + node_of(X, r, ('at the requested position', T.vt(r) == X.a(0)), ('denotes what the source denotes', VX(r) == VX(X.a(1)))) + [frame_ud(X)]
    return Contract('PsddManager::LoadPsddNode', requires=req, ensures=ens, modifies=MODS + [UD], loops={'0': outer, '0.0': inner, '1': clear_loop(s)})
def th(*more):
    return mtheory(ax_touch, UQ.ax_shape, UQ.ax_same, UQ.ax_table, UQ.ax_wf_intro, UQ.ax_anc, ax_vtree, *more)
def ths(*more):
    return th(ax_V, ax_sum, ax_eqon, lem_sum, *more)
UNITS = [
    (['C02', 'C11'], lambda: Unit('sums', list(MG), MFILT, lambda: theory(ax_touch, UQ.ax_same, ax_V, ax_sum, ax_eqon, lem_sum), [])),
    (['C02', 'C11'], lambda: Unit('leaf requests', list(MG), MFILT, th, [Target(c_literal()), Target(c_top())], [c_unique(), CT.c_ctor_literal(), CT.c_ctor_top()])),
    (['C11'], lambda: Unit('true nodes', list(MG), MFILT, ths, [Target(c_true3()), Target(c_true2())], [c_vser(), c_top(), c_conform()])),
    (['C11'], lambda: Unit('lifting', list(MG), MFILT, ths, [Target(c_norm4()), Target(c_norm3())], [c_true3(), c_unique(), CT.c_ctor_decision()])),
    (['C02', 'C11'], lambda: Unit('conforming', list(MG), MFILT, ths, [Target(c_conform())], [c_norm4(), c_unique(), CT.c_ctor_decision()])),
    (['C11', 'C22'], lambda: Unit('load', list(MG), MFILT, ths, [Target(c_load())], [SER.c_ser_root(), c_literal(), c_top(), c_conform(), c_norm4()])),
]
