"""Conversion of SDDs (C10): an SDD over a vtree of the same shape becomes the
PSDD of its models."""
from .core import *
from . import manager as MA
from . import construct as CT
from . import unique as UQ
from .manager import *
from .vtrees import ax_tree, ax_exact, ax_scope_down, C0, Within, vcount
from . import vtrees as VTR

X0 = z3.Const('SddAssignment', A_IB)       # arbitrary; AnyAssignment gives corresponding variables the same values
sk = fn('sdd_kind', I, I)                  # 1 literal, 2 decision, 3 true, 4 false
sid = fn('sdd_id', I, I)
sinv = fn('sdd_of_id', I, I)
svt = fn('sdd_vtree_of', I, I)
slit = fn('sdd_literal_of', I, I)
ssz = fn('sdd_size', I, I)
sprime = fn('sdd_prime', I, I, I)
ssub = fn('sdd_sub', I, I, I)
spw = fn('sdd_true_prime', I, I)           # the prime true under X0
snw = fn('sdd_some_sub', I, I)             # an element with a sub that is not false
selems = fn('sdd_elements', I, I)
stopo = fn('sdd_sorted', I, I)
slen = fn('sdd_sorted_size', I, I)
spos = fn('sdd_sorted_position', I, I, I)
raw = fn('entry', I, I, I)                 # entries of libsdd's arrays
cap = fn('entries', I, I)
SSum = fn('SatisfiedElements', I, I, R)
class SddTheory(MTheory):
    def SM(self, s):
        return self.smod(X0, s)
    def kind(self, ex, a, k):
        return If(sk(ex.val(a[0])) == k, iv(1), iv(0))
    def c_sdd_node_is_literal(self, ex, a, n): return self.kind(ex, a, 1)
    def c_sdd_node_is_decision(self, ex, a, n): return self.kind(ex, a, 2)
    def c_sdd_node_is_true(self, ex, a, n): return self.kind(ex, a, 3)
    def c_sdd_node_is_false(self, ex, a, n): return self.kind(ex, a, 4)
    def c_sdd_vtree_of(self, ex, a, n):
        s = ex.val(a[0])
        ex.check(Or(sk(s) == 1, sk(s) == 2), 'pre', 'sdd_vtree_of: not a constant')
        return svt(s)
    def c_sdd_node_elements(self, ex, a, n):
        s = ex.val(a[0])
        ex.check(sk(s) == 2, 'pre', 'sdd_node_elements: a decision node')
        return selems(s)
    def c_sdd_node_size(self, ex, a, n):
        return ssz(ex.val(a[0]))
    def c_sdd_id(self, ex, a, n):
        return sid(ex.val(a[0]))
    def c_sdd_node_literal(self, ex, a, n):
        s = ex.val(a[0])
        ex.check(sk(s) == 1, 'pre', 'sdd_node_literal: a literal')
        return slit(s)
    def c_sdd_topological_sort(self, ex, a, n):
        s = ex.val(a[0])
        p = ex.val(a[1])
        ex.write(p.lv if isinstance(p, PyPtr) else p, slen(s))
        return stopo(s)
    def raw_deref(self, ex, p, i, t):
        i = iv(0) if i is None else i
        ex.check(And(0 <= i, i < cap(p)), 'bounds', 'array index')
        return raw(p, i)
def ax_sddnodes(T):
    s, j, r, i = z3.Ints('s j r i')
    dec = sk(s) == 2
    inr = And(dec, 0 <= j, j < ssz(s))
    p, u = sprime(s, j), ssub(s, j)
    w = spw(s)
    e = raw(stopo(r), i)
    ini = And(r > 0, 0 <= i, i < slen(r))
    there = lambda r, c: And(0 <= spos(r, c), spos(r, c) < slen(r), raw(stopo(r), spos(r, c)) == c)
    SM = T.SM
    return T.sdd_axioms() + [
        FA([s], sinv(sid(s)) == s, [sid(s)]),
        FA([s], Implies(sk(s) == 3, SM(s)), [SM(s)]), FA([s], Implies(sk(s) == 4, Not(SM(s))), [SM(s)]),
        FA([s], Implies(sk(s) == 1, SM(s) == (S(X0, If(slit(s) > 0, slit(s), -slit(s))) == (slit(s) > 0))), [SM(s)]),
        FA([s], Implies(sk(s) == 1, And(slit(s) != 0, T.vleaf(svt(s)), T.vvar(svt(s)) == If(slit(s) > 0, slit(s), -slit(s)))), [slit(s)]),
        FA([s], Implies(Or(dec, sk(s) == 1), svt(s) > 0), [svt(s)]),
        FA([s], Implies(dec, And(ssz(s) >= 1, Not(T.vleaf(svt(s))), 0 <= w, w < ssz(s), 0 <= snw(s), snw(s) < ssz(s), sk(ssub(s, snw(s))) != 4, cap(selems(s)) == 2 * ssz(s))), [ssz(s)]),
        FA([s, j], Implies(inr, SM(p) == (j == w)), [SM(p)]),
        FA([s, j], Implies(And(inr, j == w), SM(s) == SM(u)), [(u, SM(s))]),
        FA([s, j], Implies(inr, And(p > 0, u > 0, Or(sk(p) == 1, sk(p) == 2), 1 <= sk(u), sk(u) <= 4, Anc(T.vleft(svt(s)), svt(p)), Implies(sk(u) <= 2, Anc(T.vright(svt(s)), svt(u))))), [p, u]),
        FA([s, j], Implies(And(dec, j >= 0), And(raw(selems(s), 2 * j) == p, raw(selems(s), 2 * j + 1) == u)), [raw(selems(s), 2 * j), raw(selems(s), 2 * j + 1)]),
        FA([r], Implies(r > 0, And(slen(r) >= 1, cap(stopo(r)) == slen(r), there(r, r))), [stopo(r)]),
        FA([r, i], Implies(ini, And(e > 0, 1 <= sk(e), sk(e) <= 4, spos(r, e) == i, Implies(sk(e) <= 2, Anc(svt(r), svt(e))))), [e]),
        FA([r, i, j], Implies(And(ini, sk(e) == 2, 0 <= j, j < ssz(e)), And(there(r, sprime(e, j)), spos(r, sprime(e, j)) < i, there(r, ssub(e, j)), spos(r, ssub(e, j)) < i)), [(e, sprime(e, j)), (e, ssub(e, j))]),
        FA([s], SSum(s, iv(0)) == 0, [SSum(s, iv(0)), ssz(s)]),
        FA([s, j], Implies(j >= 0, SSum(s, j + 1) == SSum(s, j) + If(And(SM(p), SM(u)), rv(1), rv(0))), [(SSum(s, j), p)])]
def lem_sdd(T):
    s, j = z3.Int('s0'), z3.Int('j0')
    f = lambda j: SSum(s, j) == If(And(j > spw(s), T.SM(s)), rv(1), rv(0))
    h = [sk(s) == 2]
    T.lemmas.append(Lemma('one element is satisfied exactly in models', FA([s], Implies(sk(s) == 2, SSum(s, ssz(s)) == If(T.SM(s), rv(1), rv(0))), [SSum(s, ssz(s))]),
        [('none', h + touch(ssz(s)), f(iv(0))), ('step', h + [0 <= j, j < ssz(s), f(j)] + touch(If(T.SM(s), iv(1), iv(0)), sprime(s, j), ssub(s, j), ssz(s)), f(j + 1)), ('all', h + [f(ssz(s))] + touch(ssz(s)), SSum(s, ssz(s)) == If(T.SM(s), rv(1), rv(0)))]))
    return []
DATA = ('Vtree', 'data')
def c_tag():
    def req(X):
        s, i = X.a(0), z3.Int('i')
        return [('as many nodes', ln(X.a(1)) == ln(s)), ('each node once', FA([i], Implies(And(0 <= i, i < ln(s)), And(at(s, i) > 0, ix(s, at(s, i)) == i)), [at(s, i)]))]
    def upto(X, k):
        s, t, u = X.a(0), X.a(1), z3.Int('u')
        d, d0 = X.h(*DATA), X.oh(*DATA)
        return [('tagged', FA([u], S(d, u) == If(And(0 <= ix(s, u), ix(s, u) < k, at(s, ix(s, u)) == u), S(t.f['arr'], ix(s, u)), S(d0, u)), [S(d, u)]))]
    return Contract('TagSddVtreeWithPsddVtree', requires=req, ensures=lambda X: upto(X, ln(X.a(0))), modifies=[DATA], loops={'0': lambda L, X: upto(X, L.k)})
def tagged(X, root):
    u = z3.Int('u')
    d = X.h(*DATA)
    return ('positions are tagged', FA([u], Implies(And(u > 0, Anc(root, u)), S(d, u) == Phi(u)), [S(d, u), (Anc(root, u), Phi(u))]))
def is_copy(T, m, s, y, flag):
    return And(S(m.mem, y), T.vt(y) == Phi(svt(s)), VX(y) == If(T.SM(s), rv(1), rv(0)), T.flg(y) == flag)
NMAP = ('map', ('int',), NODE)
def c_convert(name, target, **kw):
    """target(X): the vtree position of the result"""
    def same(X):
        T, u = X.theory, z3.Int('u')
        return ('the two assignments are related by position', FA([u], Implies(And(Anc(X.a(1), u), T.vleaf(u)), S(XX, T.vvar(Phi(u))) == S(X0, T.vvar(u))), [S(XX, T.vvar(Phi(u)))]))
    def req(X):
        T, m = X.theory, M(X, True)
        s, v, w = X.a(0), X.a(1), target(X)
        return minv(X, True) + [('an SDD', And(s > 0, 1 <= sk(s), sk(s) <= 4)), ('over the vtree', Implies(sk(s) <= 2, Anc(v, svt(s)))),
                ('a position of the vtree', And(w > 0, Anc(m.vtree, w))), ('a vtree of the same shape', And(v > 0, Iso(v, w))), same(X)]
    def nodes(L, X, k, root):
        T, m, s = X.theory, M(X, False), z3.Int('s')
        nm = L.var('node_map', t=NMAP)
        here = And(0 <= spos(root, s), spos(root, s) < k, raw(stopo(root), spos(root, s)) == s, Or(sk(s) == 1, sk(s) == 2))
        y = S(nm.f['val'], sid(s))
        return [('nodes so far have a node', FA([s], Implies(here, And(S(nm.f['dom'], sid(s)), is_copy(T, m, s, y, X.a(2)))), [sid(s), spos(root, s)]))]
    def tm(L, X):
        return tmap(X, L.var('true_nodes_map', t=TMAP), X.a(2), False)
    def frame(X):
        u = z3.Int('u')
        return ('other data untouched', FA([u], Implies(Not(Anc(X.a(1), u)), S(X.h(*DATA), u) == S(X.oh(*DATA), u)), [S(X.h(*DATA), u)]))
    def outer(L, X):
        T, m = X.theory, M(X, False)
        more = []
        r = X.a(0)
        n = raw(stopo(r), L.k - 1)
        c, g = X.ex.last_ctor, X.ex.calls.get('GetUniqueNode')
        if L.phase == 'step' and c is not None and c.callee == 'PsddDecisionNode' and g is not None:
            nn, res = X.ex.last_new, g.res
            pa, qa, wa = c.a(3), c.a(4), c.a(5)
            o = c.outs
            k = ln(pa)
            E = El(pa.f['arr'], qa.f['arr'], wa.f['arr'])
            more = [('built', IsReq(nn, pa.f['arr'], qa.f['arr'], wa.f['arr'], k, o['p'], o['q'])),
                    ('its value', And(VX(res) == ASum(E, k), ASum(E, k) == SSum(n, ssz(n)), T.vt(res) == Phi(svt(n)), S(m.mem, res), T.flg(res) == X.a(2)))]
        return more + grow(X) + tm(L, X) + nodes(L, X, L.k, r)
    def inner(L, X):
        T, m = X.theory, M(X, False)
        o = L.outer[-1]
        r = X.a(0)
        n = raw(stopo(r), o.k)
        nv = Phi(svt(n))
        p, q, w = L.var('primes', t=VEC), L.var('subs', t=VEC), L.var('parameters', t=('vec', ('param',)))
        i = z3.Int('i')
        E = El(p.f['arr'], q.f['arr'], w.f['arr'])
        more = []
        if L.phase == 'step':
            p0, q0 = [X.ex.read_var(L.start, L.find(nm, VEC)) for nm in ('primes', 'subs')]
            E0 = El(p0.f['arr'], q0.f['arr'], w.f['arr'])
            more = [('step', And(EqOn(E0, E, ln(p0)), *touch(ASum(E, ln(p0)), S(E, ln(p0)), ASum(E0, ln(p0)), ASum(E, ln(p)), sprime(n, L.k - 1), ssub(n, L.k - 1), SSum(n, L.k - 1), SSum(n, L.k), snw(n))))]
        out = more + grow(X) + tm(L, X) + nodes(L, X, o.k, r) + [
            ('as many subs as primes', And(ln(p) >= 0, ln(p) == ln(q), ln(p) <= L.k)),
            ('parameters', And(ln(w) == ssz(n), FA([i], Implies(And(0 <= i, i < ln(w)), at(w, i) == 1), [at(w, i)]))),
            ('satisfied elements so far', ASum(E, ln(p)) == SSum(n, L.k)),
            ('a decision node', And(sk(n) == 2, *touch(ssz(n)))), ('an element to keep', And(0 <= snw(n), snw(n) < ssz(n))),
            ('an element is kept', Implies(L.k > snw(n), ln(p) >= 1))]
        for nm, c, side in (('primes', p, T.vleft(nv)), ('subs', q, T.vright(nv))):
            x = at(c, i)
            out.append(('%s so far' % nm, FA([i], Implies(And(0 <= i, i < ln(c)), And(x > 0, S(m.mem, x), T.vt(x) == side)), [x])))
        return out
    def clear(L, X):
        s, u = L.var('serialized_sdd_vtrees', t=VVEC), z3.Int('u')
        d, d0 = X.h(*DATA), L.entry.heap[DATA]
        return [('cleared so far', FA([u], S(d, u) == If(And(0 <= ix(s, u), ix(s, u) < L.k, at(s, ix(s, u)) == u), iv(0), S(d0, u)), [S(d, u)]))]
    def ens(X):
        T, s, y, w, u = X.theory, X.a(0), X.res, target(X), z3.Int('u')
        m = M(X, False)
        d, d0 = X.h(*DATA), X.oh(*DATA)
        return grow(X) + [('no node exactly for false', (y == 0) == (sk(s) == 4)),
                ('a node of the table at the position', Implies(y != 0, And(S(m.mem, y), T.vt(y) == w, T.flg(y) == X.a(2)))),
                ('weight one for models, zero for others', Implies(y != 0, VX(y) == If(T.SM(s), rv(1), rv(0)))),
                ('no data is left', FA([u], Or(S(d, u) == S(d0, u), And(Anc(X.a(1), u), S(d, u) == 0)), [S(d, u)]))]
    return Contract('PsddManager::' + name, requires=req, ensures=ens, modifies=MODS + [DATA], loops={'0': outer, '0.0': inner, '1': clear}, **kw)
def c_convert_root():
    return c_convert('ConvertSddToPsdd', lambda X: M(X, True).vtree)
def c_from_sdd():
    return c_convert('FromSdd', lambda X: X.a(3), ptypes=[('ptr', ('cls', 'SddNode')), VT, ('int',), VT])
def c_from_sdd_vars():
    ST = ('set', ('int',))
    c = c_convert('FromSdd', lambda X: C0, ptypes=[('ptr', ('cls', 'SddNode')), VT, ('int',), ST])
    base = c.requires
    def req(X):
        T, m, A, x, u = X.theory, M(X, True), X.a(3), z3.Int('x'), z3.Int('u')
        return base(X) + [('a node with exactly the used variables', FA([x], InS(C0, x) == S(A.f['dom'], x), [InS(C0, x), S(A.f['dom'], x)])),
                ('sizes of finite sets (assumption)', FA([u], Implies(And(u > 0, Within(A.f['dom'], u)), (vcount(u) == A.f['size']) == FA([x], Implies(S(A.f['dom'], x), InS(u, x)), [S(A.f['dom'], x)])), [Within(A.f['dom'], u)]))]
    c.requires = req
    c.loops = {}
    return c
def sth(*more):
    T = SddTheory()
    for p in (ax_touch, UQ.ax_shape, UQ.ax_same, UQ.ax_table, UQ.ax_wf_intro, UQ.ax_anc, MA.ax_vtree) + more:
        T.extra_axioms += p(T)
    return T
CALLEES = lambda: [c_tag(), MA.c_vser(), MA.c_norm4(), MA.c_true3(), MA.c_true2(), UQ and MA.c_unique(), CT.c_ctor_decision(), CT.c_ctor_literal()]
shapes = proved(MA.lem_iso, 'nesting is kept', 'the list has every node below', 'vtrees of the same shape are listed alike')
full = lambda: sth(ax_tree, ax_V, ax_sum, ax_eqon, lem_sum, MA.ax_iso, shapes, ax_sddnodes, proved(lem_sdd, 'one element is satisfied exactly in models'))
UNITS = [
    (['C10'], lambda: Unit('sdd elements', list(MG), MFILT, lambda: sth(ax_sddnodes, lem_sdd), [])),
    (['C10', 'C22'], lambda: Unit('tagging', list(MG), MFILT, lambda: sth(), [Target(c_tag())])),
    (['C10', 'C15', 'C22'], lambda: Unit('convert sdd', list(MG), MFILT, full, [Target(c_convert_root())], CALLEES())),
    (['C10', 'C18'], lambda: Unit('from sdd', list(MG), MFILT, full, [Target(c_from_sdd())], CALLEES())),
    (['C10', 'C18'], lambda: Unit('from sdd variables', list(MG), MFILT, lambda: sth(ax_tree, MA.ax_iso), [Target(c_from_sdd_vars())], [c_from_sdd(), VTR.c_sub()])),
]
