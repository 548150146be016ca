"""Vtree utilities (C17)."""
from .core import *
from . import manager as MA
from .manager import VVEC, vser, Anc, Inner, VSer, Phi, Iso
from . import unique as UQ

VN = ('src/psdd_node.cpp',)
VFILT = ['vtree_util', 'anonymous namespace', 'SubVtreeByVariablesHelper', 'LeftToRightLeafTraverseHelper']
VDATA = ('Vtree', 'data')

def ax_tree(T):
    a, u = z3.Int('a'), z3.Int('u')
    return [FA([a, u], Implies(And(Anc(a, u), a > 0), T.vdepth(u) >= T.vdepth(a)), [(Anc(a, u), T.vdepth(u))]),
            FA([u], Implies(And(u > 0, Not(T.vleaf(u))), And(T.vdepth(T.vleft(u)) == 1 + T.vdepth(u), T.vdepth(T.vright(u)) == 1 + T.vdepth(u))), [T.vleft(u), T.vright(u)])]
def c_vser():
    QT = ('queue', VT)
    def loop(L, X):
        T, root = X.theory, X.a(0)
        s, w = L.var('serialized_vtree', t=VVEC), L.var('vtree_queue', t=QT)
        i, j, u = z3.Ints('i j u')
        a, b = at(s, i), S(w.f['arr'], j)
        inr = And(0 <= i, i < ln(s))
        wr = And(w.f['head'] <= j, j < w.f['head'] + w.f['len'])
        iq = S(w.f['ix'], u)
        waiting = lambda u: And(w.f['head'] <= S(w.f['ix'], u), S(w.f['ix'], u) < w.f['head'] + w.f['len'], S(w.f['arr'], S(w.f['ix'], u)) == u)
        listed = lambda u: member(s, u)
        last = ln(s) - 1
        hint = [('step', And(*touch(Inner(s.f['arr'], last), Inner(s.f['arr'], ln(s)), If(T.vleaf(at(s, last)), iv(1), iv(0)))))] if L.phase == 'step' else []
        pos = lambda c: If(listed(c), ix(s, c), ln(s) + S(w.f['ix'], c) - w.f['head'])
        return hint + [('listed nodes are below the root, once', FA([i], Implies(inr, And(a > 0, Anc(root, a), ix(s, a) == i, Not(waiting(a)))), [a])),
                ('waiting nodes are below the root, once', FA([j], Implies(wr, And(b > 0, Anc(root, b), S(w.f['ix'], b) == j)), [b])),
                ('parents of waiting nodes are listed', FA([j], Implies(wr, Or(b == root, listed(T.vparent(b)))), [b])),
                ('parents come first', FA([i], Implies(inr, Or(a == root, And(listed(T.vparent(a)), ix(s, T.vparent(a)) < i))), [a])),
                ('children of listed nodes are listed or wait', FA([i], Implies(And(inr, Not(T.vleaf(a))), And(*[Or(listed(c), waiting(c)) for c in (T.vleft(a), T.vright(a))])), [T.vleft(a), T.vright(a)])),
                ('inner nodes so far', And(ln(s) >= 0, w.f['len'] >= 0, ln(s) + w.f['len'] == 1 + 2 * Inner(s.f['arr'], ln(s)))),
                ('positions of children', FA([i], Implies(And(inr, Not(T.vleaf(a))), And(pos(T.vleft(a)) == 1 + 2 * Inner(s.f['arr'], i), pos(T.vright(a)) == 2 + 2 * Inner(s.f['arr'], i))), [(a, Inner(s.f['arr'], i)), T.vleft(a), T.vright(a)])),
                ('the root is first', And(w.f['len'] >= 0, If(ln(s) == 0, And(w.f['len'] == 1, S(w.f['arr'], w.f['head']) == root), at(s, iv(0)) == root)))]
    c = MA.c_vser()
    c.loops = {'0': loop}
    return c
# ------------------------------------------------------ copies, projections
VARS = z3.Const('AnyVariables', A_IB)             # arbitrary set of variables
USED = ('Vtree', 'used')                          # ghost: already the child of another node
Ren = z3.Const('Renaming', z3.ArraySort(I, I))    # what the copy calls a variable
Cp = fn('IsCopy', I, I, I, B)                     # the vtree below w, made of nodes from N on, is a renamed copy of that below u
Pj = fn('IsProjection', I, I, I, B)               # 0 when no variable below u is kept
Pl, Pr = fn('LeftPart', I, I, I, I), fn('RightPart', I, I, I, I)
class VTheory(MA.MTheory):
    fields = dict(MA.MTheory.fields)
    fields[USED] = B
    def fresh_vtree(self, ex):
        r = ex.alloc()
        u = ex.heap_get(*USED)
        ex.assume(Not(S(u, r)))
        return r
    def c_new_leaf_vtree(self, ex, a, n):
        v = ex.val(a[0])
        r = self.fresh_vtree(ex)
        ex.assume(And(self.vleaf(r), self.vvar(r) == v))
        return r
    def c_new_internal_vtree(self, ex, a, n):
        l, r = ex.val(a[0]), ex.val(a[1])
        u = ex.heap_get(*USED)
        ex.check(And(l > 0, r > 0, l != r), 'pre', 'new_internal_vtree: two vtrees')
        ex.check(And(Not(S(u, l)), Not(S(u, r))), 'pre', 'new_internal_vtree: not yet below another node')
        p = self.fresh_vtree(ex)
        ex.assume(And(Not(self.vleaf(p)), self.vleft(p) == l, self.vright(p) == r, self.vparent(l) == p, self.vparent(r) == p))
        ex.st.heap[USED] = z3.Store(z3.Store(ex.heap_get(*USED), l, True), r, True)
        return p
    def c_set_vtree_properties(self, ex, a, n):
        r = ex.val(a[0])
        ex.check(And(r > 0, Not(S(ex.heap_get(*USED), r))), 'pre', 'set_vtree_properties: the root of a vtree')
        return Opaque()
    def c_sdd_vtree_var_count(self, ex, a, n):
        return vcount(ex.val(a[0]))
def ax_copy(T):
    u, w, N, a, b = z3.Int('u'), z3.Int('w'), z3.Int('N'), z3.Int('a'), z3.Int('b')
    leafcp = And(T.vleaf(w), w >= N, T.vvar(w) == S(Ren, T.vvar(u)))
    incp = And(Not(T.vleaf(w)), w >= N, Cp(T.vleft(u), T.vleft(w), N), Cp(T.vright(u), T.vright(w), N))
    return [FA([u, w, N], Implies(T.vleaf(u), Cp(u, w, N) == leafcp), [Cp(u, w, N)]),
            FA([u, w, N], Implies(Not(T.vleaf(u)), Cp(u, w, N) == incp), [(Cp(u, w, N), T.vleft(u), T.vleft(w))])]
def ax_proj(T):
    """projection: a leaf is kept or not; an inner node joins what its children keep"""
    u, w, N, a, b = z3.Int('u'), z3.Int('w'), z3.Int('N'), z3.Int('a'), z3.Int('b')
    l, r = Pl(u, w, N), Pr(u, w, N)
    join = lambda w, a, b: If(And(a != 0, b != 0), And(Not(T.vleaf(w)), w >= N, T.vleft(w) == a, T.vright(w) == b), w == If(a != 0, a, b))
    return [FA([u, w, N], Implies(T.vleaf(u), Pj(u, w, N) == If(S(VARS, T.vvar(u)), And(w >= N, T.vleaf(w), T.vvar(w) == T.vvar(u)), w == 0)), [Pj(u, w, N)]),
            FA([u, w, N, a, b], Implies(And(Not(T.vleaf(u)), Pj(T.vleft(u), a, N), Pj(T.vright(u), b, N), join(w, a, b)), Pj(u, w, N)), [(Pj(u, w, N), Pj(T.vleft(u), a, N), Pj(T.vright(u), b, N))]),
            FA([u, w, N], Implies(And(Not(T.vleaf(u)), Pj(u, w, N)), And(Pj(T.vleft(u), l, N), Pj(T.vright(u), r, N), join(w, l, r))), [(Pj(u, w, N), T.vleft(u))])]
def lem_proj(T):
    """a projection has exactly the requested variables"""
    u, w, N, x = z3.Int('u0'), z3.Int('w0'), z3.Int('N0'), z3.Int('x0')
    l, r = Pl(u, w, N), Pr(u, w, N)
    some = lambda u, w: Implies(Pj(u, w, N), And(Or(w == 0, w >= N), If(w == 0, Not(And(InS(u, x), S(VARS, x))), InS(w, x) == And(InS(u, x), S(VARS, x)))))
    h = [u > 0, N > 0]
    T.lemmas.append(Lemma('a projection has exactly the requested variables', FA([u, w, N, x], Implies(And(u > 0, N > 0), some(u, w)), [(Pj(u, w, N), InS(w, x)), (Pj(u, w, N), InS(u, x))]),
        [('leaf', h + [T.vleaf(u)], some(u, w)),
         ('inner', h + [Not(T.vleaf(u)), Pj(u, w, N), some(T.vleft(u), l), some(T.vright(u), r)] + touch(T.vleft(u), T.vright(u)) + [InS(T.vleft(u), x) == InS(T.vleft(u), x), InS(w, x) == InS(w, x), InS(u, x) == InS(u, x)], some(u, w))]))
    return []
def marks(X):
    u = z3.Int('u')
    return ('no data is left below the root, other data is untouched', FA([u], S(X.h(*VDATA), u) == If(Anc(X.a(0), u), iv(0), S(X.oh(*VDATA), u)), [S(X.h(*VDATA), u)]))
def vexists(X):
    u = z3.Int('u')
    return ('the vtree exists', And(X.a(0) > 0, FA([u], Implies(Anc(X.a(0), u), And(u > 0, u < X.old.next)), [Anc(X.a(0), u)])))
def c_rebuild(qname, rel, may_be_none, req=None, more=None, **kw):
    """bottom-up construction; the nodes made so far hang on the originals as data"""
    def loop(L, X):
        T, root = X.theory, X.a(0)
        names = ('orig_vtrees', 'serialized_vtrees')
        s = L.var(names, t=VVEC)
        u, v = z3.Ints('u v')
        d, d0, us, N = X.h(*VDATA), X.oh(*VDATA), X.h(*USED), X.entry.next
        dn = lambda u: done_suffix(s, L.k, u)
        top = lambda u: Or(u == root, Not(dn(T.vparent(u))))
        now = X.new.next
        du, dv = S(d, u), S(d, v)
        made = And(rel(u, du, N), Or(du == 0, And(du >= N, du < now, Not(S(us, du)))))
        if not may_be_none:
            made = And(made, du != 0)
        hints = []
        if L.phase == 'step':
            n = at(s, ln(s) - L.k)
            h0 = L.start.heap[VDATA]
            l, r = T.vleft(n), T.vright(n)
            hints = [('step', And(*[rel(c, S(h0, c), N) == rel(c, S(h0, c), N) for c in (l, r)], *touch(T.vleft(S(d, n)), T.vright(S(d, n)))))]
        return hints + [('what is made so far', FA([u], Implies(And(dn(u), top(u)), made), [du])),
                ('made separately', FA([u, v], Implies(And(dn(u), top(u), dn(v), top(v), u != v, du != 0), du != dv), [(du, dv)])),
                ('used parts are unmarked', FA([u], Implies(And(dn(u), Not(top(u))), du == 0), [du])),
                ('other data', FA([u], Implies(Not(dn(u)), du == S(d0, u)), [du])), ('nodes exist', now >= N)] + (more(L, X) if more else [])
    def ens(X):
        return [('the vtree made', And(X.res > 0, rel(X.a(0), X.res, X.entry.next))), marks(X)]
    return Contract(qname, requires=lambda X: [vexists(X)] + (req(X) if req else []), ensures=ens, modifies=[VDATA, USED, ('new', 'Vtree')], **kw), loop
MLL = ('map', ('int',), ('int',))
def c_copy():
    u = z3.Int('u')
    c, loop = c_rebuild('vtree_util::CopyVtree', Cp, False, nparams=1, req=lambda X: [('names stay', FA([u], S(Ren, u) == u, [S(Ren, u)]))])
    c.loops = {'0': loop}
    return c
def c_copy_map():
    u = z3.Int('u')
    def req(X):
        T, mp = X.theory, X.a(1)
        return [('the map names the leaves', FA([u], Implies(And(Anc(X.a(0), u), T.vleaf(u)), And(S(mp.f['dom'], T.vvar(u)), S(mp.f['val'], T.vvar(u)) == S(Ren, T.vvar(u)))), [(Anc(X.a(0), u), T.vvar(u)), S(mp.f['val'], T.vvar(u))]))]
    c, loop = c_rebuild('vtree_util::CopyVtree', Cp, False, nparams=2, req=req)
    c.loops = {'0': loop}
    return c
def c_project():
    v, u = z3.Int('v'), z3.Int('u')
    def among(X, k, x):
        a, j = X.a(1), z3.Int('j')
        return z3.Exists([j], And(0 <= j, j < k, at(a, j) == x))
    def req(X):
        T, j = X.theory, z3.Int('j')
        return [('AnyVariables are those requested', And(FA([v], Implies(S(VARS, v), among(X, ln(X.a(1)), v)), [S(VARS, v)]), FA([j], Implies(And(0 <= j, j < ln(X.a(1))), S(VARS, at(X.a(1), j))), [at(X.a(1), j)]))),
                ('a requested variable is below the root', z3.Exists([v], And(S(VARS, v), InS(X.a(0), v)))), ('the variables requested are numbers', ln(X.a(1)) >= 0)]
    def fill(L, X):
        st, j = L.var('variable_set', t=('set', ('int',))), z3.Int('j')
        return [('variables so far', And(FA([v], Implies(S(st.f['dom'], v), S(VARS, v)), [S(st.f['dom'], v)]), FA([j], Implies(And(0 <= j, j < L.k), S(st.f['dom'], at(X.a(1), j))), [at(X.a(1), j)])))]
    def same(L, X):
        st = L.var('variable_set', t=('set', ('int',)))
        return [('the set', FA([v], S(st.f['dom'], v) == S(VARS, v), [S(st.f['dom'], v), S(VARS, v)]))]
    c, loop = c_rebuild('vtree_util::ProjectVtree', Pj, True, req=req, more=same)
    c.loops = {'0': fill, '1': loop}
    return c
# ------------------------------------------------------------ listing leaves
LSize = fn('Leaves', I, I)
LVar = fn('LeafVariable', I, I, I)                # the i-th leaf from the left
def ax_leaves(T):
    u, i = z3.Ints('u i')
    l, r = T.vleft(u), T.vright(u)
    return [FA([u], Implies(T.vleaf(u), And(LSize(u) == 1, LVar(u, iv(0)) == T.vvar(u))), [LSize(u)]),
            FA([u], Implies(And(u > 0, Not(T.vleaf(u))), LSize(u) == LSize(l) + LSize(r)), [(LSize(u), LSize(l), LSize(r))]),
            FA([u], LSize(u) >= 1, [LSize(u)]),
            FA([u, i], Implies(And(u > 0, Not(T.vleaf(u))), LVar(u, i) == If(i < LSize(l), LVar(l, i), LVar(r, i - LSize(l)))), [(LVar(u, i), LSize(l), LSize(r))])]
LLV = ('vec', ('int',))
def c_leaves_helper():
    def ens(X):
        v0, v1, u, i = X.a(0), X.a1(0), X.a(1), z3.Int('i')
        n = ln(v0)
        return [('the leaves are appended', And(ln(v1) == n + LSize(u), FA([i], Implies(And(0 <= i, i < n), at(v1, i) == at(v0, i)), [at(v1, i)]),
                 FA([i], Implies(And(n <= i, i < n + LSize(u)), at(v1, i) == LVar(u, i - n)), [at(v1, i)])))]
    return Contract('LeftToRightLeafTraverseHelper', requires=lambda X: [('a vtree node', X.a(1) > 0), ('a list', ln(X.a(0)) >= 0)], ensures=ens, modifies=[('arg', 0)])
def c_leaves():
    def ens(X):
        u, i = X.a(0), z3.Int('i')
        return [('the leaves from left to right', And(ln(X.res) == LSize(u), FA([i], Implies(And(0 <= i, i < LSize(u)), at(X.res, i) == LVar(u, i)), [at(X.res, i)])))]
    return Contract('vtree_util::LeftToRightLeafTraverse', requires=lambda X: [('a vtree node', X.a(0) > 0)], ensures=ens)
def c_variables():
    def upto(T, s, v, k):
        i = z3.Int('i')
        a = s.f['arr']
        place = i - Inner(a, i)
        return [('a variable per leaf', And(ln(v) == k - Inner(a, k), FA([i], Implies(And(0 <= i, i < k, T.vleaf(S(a, i))), And(0 <= place, place < ln(v), at(v, place) == T.vvar(S(a, i)))), [(S(a, i), Inner(a, i))])))]
    def loop(L, X):
        T = X.theory
        s, v = L.var('vtree_serialized', t=VVEC), L.var('variables', t=LLV)
        return upto(T, s, v, L.k) + [('step', And(*touch(Inner(s.f['arr'], L.k), If(T.vleaf(at(s, L.k)), iv(1), iv(0)))))]
    def ens(X):
        c = X.ex.calls.get('SerializeVtree')
        if c is not None:
            X.ex.vlist = c.res
        T, u, i = X.theory, X.a(0), z3.Int('i')
        a, x, n = X.outs['arr'], X.outs['ix'], X.outs['len']
        return [('listed breadth first', VSer(a, x, n, u)), ('a variable per leaf', upto(T, SV_(a, x, n), X.res, n)[0][1])]
    return Contract('vtree_util::VariablesUnderVtree', requires=lambda X: [('a vtree node', X.a(0) > 0)], ensures=ens, loops={'0': loop}, outs={'arr': A_II, 'ix': A_II, 'len': I},
                    wit=lambda X: {k: X.ex.all_calls['SerializeVtree'].res.f[k] for k in ('arr', 'ix', 'len')})
class SV_:
    def __init__(self, a, x, n):
        self.f = dict(arr=a, ix=x, len=n)
# ---------------------------------------------------------- subtrees by scope
vcount = fn('vtree_var_count', I, I)
C0 = z3.Int('AnyNode')                            # arbitrary
SomeVar = fn('SomeVariable', I, I)
Exact = fn('HasExactly', A_IB, I, I, B)           # c has exactly the variables of the set that are below the node
ExactW = fn('HasExactlyWitness', A_IB, I, I, I)
Within = fn('HasOnly', A_IB, I, B)                # all variables below the node are in the set
WithinW = fn('HasOnlyWitness', A_IB, I, I)
def ax_exact(T):
    A, c, u, x, a = z3.Const('A', A_IB), z3.Int('c'), z3.Int('u'), z3.Int('x'), z3.Int('a')
    ex = lambda x: InS(c, x) == And(S(A, x), InS(u, x))
    w = ExactW(A, c, u)
    wi = lambda x: Implies(InS(u, x), S(A, x))
    return [FA([A, c, u, x], Implies(Exact(A, c, u), ex(x)), [(Exact(A, c, u), InS(c, x)), (Exact(A, c, u), InS(u, x))]), FA([A, c, u], Implies(Not(Exact(A, c, u)), Not(ex(w))), [Exact(A, c, u)]),
            FA([A, u, x], Implies(Within(A, u), wi(x)), [(Within(A, u), InS(u, x))]), FA([A, u], Implies(Not(Within(A, u)), Not(wi(WithinW(A, u)))), [Within(A, u)]),
            FA([u], Implies(u > 0, And(InS(u, SomeVar(u)), Implies(T.vleaf(u), SomeVar(u) == T.vvar(u)))), [SomeVar(u)])]
def ax_scope_down(T):
    v, x = z3.Ints('v x')
    l, r = T.vleft(v), T.vright(v)
    return [FA([v, x], Implies(T.vleaf(v), InS(v, x) == (x == T.vvar(v))), [InS(v, x)]),
            FA([v, x], Implies(Not(T.vleaf(v)), And(InS(v, x) == Or(InS(l, x), InS(r, x)), Not(And(InS(l, x), InS(r, x))))), [(InS(v, x), l), (InS(v, x), r), InS(l, x), InS(r, x)])]
def lem_nested(T):
    a, c, x, p = z3.Int('a'), z3.Int('c'), z3.Int('x'), z3.Int('p')
    pc = T.vparent(c)
    sides = lambda c: Or(c == a, Anc(T.vleft(a), c), Anc(T.vright(a), c))
    h = [a > 0, Anc(a, c), c != a]
    T.lemmas.append(Lemma('below a node is at it or below a child', FA([a, c], Implies(And(a > 0, Not(T.vleaf(a)), Anc(a, c)), sides(c)), [(Anc(a, c), T.vleft(a))]),
        [('depth decreases', h + touch(pc, T.vleft(pc), T.vright(pc)), And(Anc(a, pc), T.vdepth(pc) < T.vdepth(c))), ('step', h + [Not(T.vleaf(a)), sides(pc)] + touch(pc, T.vleft(pc), T.vright(pc), T.vleft(a), T.vright(a)), sides(c))]))
    T.lemmas.append(Lemma('below a leaf is the leaf', FA([a, c], Implies(And(a > 0, T.vleaf(a), Anc(a, c)), c == a), [(Anc(a, c), T.vleaf(a))]),
        [('parents are inner', [a > 0, T.vleaf(a), Anc(a, c), Implies(c != a, pc == a)] + touch(pc), c == a)]))
    f = lambda c: Implies(InS(c, x), InS(a, x))
    T.lemmas.append(Lemma('scopes are nested', FA([a, c, x], Implies(And(a > 0, Anc(a, c)), f(c)), [(Anc(a, c), InS(c, x)), (Anc(a, c), InS(a, x))]),
        [('step', h + [f(pc)] + touch(pc, T.vleft(pc), T.vright(pc)) + [InS(c, x) == InS(c, x), InS(pc, x) == InS(pc, x)], f(c))]))
    return []
def c_sub_helper():
    def ens(X):
        T, u, A = X.theory, X.a(0), X.a(1).f['dom']
        r = X.res
        l, t = T.vleft(u), T.vright(u)
        hint = []
        if X.ex.func.qname == 'SubVtreeByVariablesHelper':
            hint = [('positions', And(Anc(u, u), Or(T.vleaf(u), And(Anc(u, l), Anc(u, t)))))] + [('scope %s' % k, And(InS(u, x) == InS(u, x), InS(l, x) == InS(l, x), InS(t, x) == InS(t, x), InS(C0, x) == InS(C0, x)))
                    for k, x in (('a', WithinW(A, u)), ('b', ExactW(A, C0, l)), ('c', ExactW(A, C0, t)), ('d', ExactW(A, l, l)), ('e', ExactW(A, t, t)), ('f', SomeVar(r)))]
            hint += [('parts of the exact node', Implies(And(Anc(u, C0), Exact(A, C0, u), Not(T.vleaf(u)), C0 != u), Or(And(Anc(l, C0), Exact(A, C0, l)), And(Anc(t, C0), Exact(A, C0, t))))),
                     ('the exact node itself', Implies(And(Exact(A, u, u), Not(T.vleaf(u))), And(Exact(A, l, l), Exact(A, t, t))))]
        return hint + [('a node below with requested variables only', Implies(r != 0, And(r > 0, Anc(u, r), Within(A, r), InS(r, SomeVar(r))))), ('the node itself if all its variables are requested', Implies(Exact(A, u, u), r == u)), ('the node with exactly the requested variables', Implies(And(Anc(u, C0), Exact(A, C0, u)), r == C0))]
    return Contract('SubVtreeByVariablesHelper', requires=lambda X: [('a vtree node', X.a(0) > 0)], ensures=ens)
def ax_card(T):
    return []
def c_sub():
    def req(X):
        T, A, u, x = X.theory, X.a(1), z3.Int('u'), z3.Int('x')
        return [('a vtree node', X.a(0) > 0),
                ('sizes of finite sets (assumption)', FA([u], Implies(And(u > 0, Within(A.f['dom'], u)), (vcount(u) == A.f['size']) == FA([x], Implies(S(A.f['dom'], x), InS(u, x)), [S(A.f['dom'], x)])), [Within(A.f['dom'], u)]))]
    def ens(X):
        T, u, A, x = X.theory, X.a(0), X.a(1).f['dom'], z3.Int('x')
        r = X.res
        return [('none or a node with exactly the requested variables', Or(r == 0, And(r > 0, Anc(u, r), FA([x], InS(r, x) == S(A, x), [InS(r, x)])))),
                ('found if there is one', Implies(And(Anc(u, C0), FA([x], InS(C0, x) == S(A, x), [InS(C0, x), S(A, x)])), r == C0))]
    return Contract('vtree_util::SubVtreeByVariables', requires=req, ensures=ens)
def th(*more):
    return MA.mtheory(ax_touch, UQ.ax_anc, MA.ax_vtree, ax_tree, *more)
def vth(*more):
    T = VTheory()
    for p in (ax_touch, UQ.ax_anc, MA.ax_vtree, ax_tree) + more:
        T.extra_axioms += p(T)
    return T
vlist = proved(MA.lem_iso, 'the list has every node below')
UNITS = [
    (['C10', 'C17'], lambda: Unit('vtrees of the same shape', list(VN), VFILT, lambda: th(MA.ax_inner, MA.lem_inner, MA.ax_vser, MA.ax_iso, MA.lem_iso), [])),
    (['C17', 'C11', 'C10'], lambda: Unit('vtree list', list(VN), VFILT, lambda: th(MA.ax_inner, MA.lem_inner, MA.ax_vser), [Target(c_vser())])),
    (['C17'], lambda: Unit('vtree copies', list(VN), VFILT, lambda: vth(ax_copy, vlist), [Target(c_copy()), Target(c_copy_map())], [MA.c_vser()])),
    (['C17'], lambda: Unit('vtree projection', list(VN), VFILT, lambda: vth(ax_proj, ax_scope, lem_proj, vlist), [Target(c_project())], [MA.c_vser()])),
    (['C17'], lambda: Unit('leaves left to right', list(VN), VFILT, lambda: vth(ax_leaves), [Target(c_leaves_helper()), Target(c_leaves())])),
    (['C17'], lambda: Unit('variables of a vtree', list(VN), VFILT, lambda: vth(MA.ax_inner, MA.lem_inner), [Target(c_variables())], [MA.c_vser()])),
    (['C17', 'C10'], lambda: Unit('vtree of variables', list(VN), VFILT, lambda: vth(ax_scope_down, ax_exact, lem_nested), [Target(c_sub_helper()), Target(c_sub())])),
]
