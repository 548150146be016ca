"""Compiling a CNF (C15): the clauses become an SDD over a renamed copy of the
vtree, which is converted to a PSDD."""
from .core import *
from . import manager as MA
from . import unique as UQ
from . import vtrees as VTR
from . import convert as CV
from .manager import *
from .vtrees import Ren, Cp, USED, ax_tree, ax_copy, ax_scope_down
from .convert import X0, sk, svt, DATA
from cppvc.theory import Opaque
from cppvc.streams import StreamTheory

CF = ('src/cnf.cpp', 'src/psdd_manager.cpp', 'src/psdd_node.cpp')
CFILT = MFILT + ['CNF']
A3 = z3.ArraySort(I, A_II)
# clauses: their literals, their lengths; a map of variables; an assignment
CS = fn('ClauseHolds', A_II, A3, A_II, A_IB, I, B)
CSW = fn('ClauseHoldsWitness', A_II, A3, A_II, A_IB, I, I)
AS = fn('ClausesHold', A_II, A3, A_II, I, A_IB, B)
ASW = fn('ClausesHoldWitness', A_II, A3, A_II, I, A_IB, I)
ID = z3.Const('Identity', A_II)
mvt = fn('manager_vtree', I, I)
OfM = fn('NodeOfSddManager', I, I, B)
ssat = fn('some_model', I, A_IB)
def lit_true(mp, x, l):
    v = If(l >= 0, l, -l)
    return S(x, S(mp, v)) == (l > 0)
def ax_clauses(T):
    mp, A, L, x, c, n, j = z3.Const('mp', A_II), z3.Const('A', A3), z3.Const('L', A_II), z3.Const('x', A_IB), z3.Int('c'), z3.Int('n'), z3.Int('j')
    h = CS(mp, A, L, x, c)
    w = CSW(mp, A, L, x, c)
    lit = lambda j: S(S(A, c), j)
    a = AS(mp, A, L, n, x)
    u = ASW(mp, A, L, n, x)
    return [FA([mp, A, L, x, c], Implies(h, And(0 <= w, w < S(L, c), lit_true(mp, x, lit(w)))), [h]),
            FA([mp, A, L, x, c, j], Implies(And(0 <= j, j < S(L, c), lit_true(mp, x, lit(j))), h), [(h, lit(j))]),
            FA([mp, A, L, n, x, c], Implies(And(a, 0 <= c, c < n), CS(mp, A, L, x, c)), [(a, CS(mp, A, L, x, c)), (a, S(L, c))]),
            FA([mp, A, L, n, x], Implies(Not(a), And(0 <= u, u < n, Not(CS(mp, A, L, x, u)))), [a]),
            FA([j], S(ID, j) == j, [S(ID, j)])]
def ax_cnf_sdd(T):
    m, s, x = z3.Int('m'), z3.Int('s'), z3.Const('x', A_IB)
    return T.sdd_axioms() + [
        FA([m, s], Implies(OfM(m, s), And(s > 0, 1 <= sk(s), sk(s) <= 4, Implies(sk(s) <= 2, Anc(mvt(m), svt(s))))), [OfM(m, s)]),
        FA([s], Implies(And(s > 0, sk(s) != 4), T.smod(ssat(s), s)), [sk(s)]), FA([s, x], Implies(sk(s) == 4, Not(T.smod(x, s))), [(T.smod(x, s), sk(s))])]
class CnfTheory(CV.SddTheory, VTR.VTheory):
    fields = dict(CV.SddTheory.fields)
    fields.update(VTR.VTheory.fields)
    def made(self, ex, m, r):
        ex.assume(OfM(m, r))
        return r
    def c_sdd_manager_new(self, ex, a, n):
        v = ex.val(a[0])
        m, w = ex.alloc(), ex.alloc()
        u, N = z3.Int('u'), z3.Int('N')
        ex.check(v > 0, 'pre', 'sdd_manager_new: a vtree')
        ex.assume(And(mvt(m) == w, FA([u, N], Implies(Cp(u, v, N), Cp(u, w, N)), [Cp(u, v, N)])))
        return m
    def c_sdd_manager_vtree(self, ex, a, n):
        return mvt(ex.val(a[0]))
    def c_sdd_manager_auto_gc_and_minimize_off(self, ex, a, n):
        ex.val(a[0])
        return Opaque()
    c_sdd_manager_free = c_sdd_manager_auto_gc_and_minimize_off
    c_sdd_vtree_free = c_sdd_manager_auto_gc_and_minimize_off
    def c_sdd_manager_literal(self, ex, a, n):
        l, m = ex.val(a[0]), ex.val(a[1])
        ex.check(And(l != 0, InS(mvt(m), If(l > 0, l, -l))), 'pre', 'sdd_manager_literal: a literal of the manager')
        return self.made(ex, m, self.s_lit(l))
    def c_sdd_manager_true(self, ex, a, n):
        return self.made(ex, ex.val(a[0]), self.s_true)
    def c_sdd_manager_false(self, ex, a, n):
        return self.made(ex, ex.val(a[0]), self.s_false)
    def two(self, ex, a, f):
        p, q, m = [ex.val(x) for x in a[:3]]
        ex.check(And(OfM(m, p), OfM(m, q)), 'pre', 'operands of the manager')
        return self.made(ex, m, f(p, q))
    def c_sdd_conjoin(self, ex, a, n): return self.two(ex, a, self.s_and)
    def c_sdd_disjoin(self, ex, a, n): return self.two(ex, a, self.s_or)
def parts(cl):
    return cl.f['arr'].f['arr'], cl.f['arr'].f['len'], cl.f['len']
def lits_in(cl, dom):
    A, L, n = parts(cl)
    c, j = z3.Ints('c j')
    l = S(S(A, c), j)
    return FA([c, j], Implies(And(0 <= c, c < n, 0 <= j, j < S(L, c)), And(l != 0, S(dom, If(l >= 0, l, -l)))), [l])
def c_construct():
    def req(X):
        cl, mp, m, v = X.a(0), X.a(1), X.a(2), z3.Int('v')
        return [('a list of clauses', ln(cl) >= 0), ('literals of mapped variables', lits_in(cl, mp.f['dom'])),
                ('mapped to variables of the manager', FA([v], Implies(S(mp.f['dom'], v), And(S(mp.f['val'], v) > 0, InS(mvt(m), S(mp.f['val'], v)))), [S(mp.f['val'], v), S(mp.f['dom'], v)]))]
    SN = ('ptr', ('cls', 'SddNode'))
    def tot(L, X):
        T, cl, mp, m = X.theory, X.a(0), X.a(1).f['val'], X.a(2)
        A, Ls, n = parts(cl)
        x = z3.Const('x', A_IB)
        t = L.var('total_logic', t=SN)
        out = [('of the manager', OfM(m, t)), ('the clauses so far', FA([x], T.smod(x, t) == AS(mp, A, Ls, L.k, x), [T.smod(x, t), AS(mp, A, Ls, L.k, x)]))]
        if L.phase == 'step':
            k = L.k - 1
            c = X.ex.inner_last
            t0 = X.ex.read_var(L.start, L.find('total_logic', SN))
            out = [('the clause', FA([x], T.smod(x, c) == CS(mp, A, Ls, x, k), [T.smod(x, c), CS(mp, A, Ls, x, k)])),
                   ('one more clause', FA([x], AS(mp, A, Ls, L.k, x) == And(AS(mp, A, Ls, k, x), CS(mp, A, Ls, x, k)), [AS(mp, A, Ls, L.k, x)]))] + out
        return out
    def clause(L, X):
        T, cl, mp, m = X.theory, X.a(0), X.a(1).f['val'], X.a(2)
        A, Ls, n = parts(cl)
        o = L.outer[-1]
        x, j = z3.Const('x', A_IB), z3.Int('j')
        t = L.var('cur_clause_sdd', t=SN)
        X.ex.inner_last = t
        A1 = S(A, o.k)
        some = z3.Exists([j], And(0 <= j, j < L.k, lit_true(mp, x, S(A1, j))))
        holds = FA([x], T.smod(x, t) == some, [T.smod(x, t)])
        return [('of the manager', And(OfM(m, t), *touch(S(A1, L.k - 1)))), ('the literals so far', holds)]
    def ens(X):
        T, cl, mp = X.theory, X.a(0), X.a(1).f['val']
        A, Ls, n = parts(cl)
        x = z3.Const('x', A_IB)
        return [('of the manager', OfM(X.a(2), X.res)), ('models are the assignments that satisfy every clause', FA([x], T.smod(x, X.res) == AS(mp, A, Ls, n, x), [T.smod(x, X.res), AS(mp, A, Ls, n, x)]))]
    return Contract('ConstructSddFromCnf', requires=req, ensures=ens, loops={'0': tot, '0.0': clause})
LeafAt = fn('LeafAt', A_II, I, I)                  # position of the j-th leaf of a list
def ax_leafat(T):
    a, i = z3.Const('a', A_II), z3.Int('i')
    return [FA([a, i], Implies(And(i >= 0, T.vleaf(S(a, i))), LeafAt(a, i - Inner(a, i)) == i), [(Inner(a, i), S(a, i))])]
def leaf_at(T, a, k, j):
    p = LeafAt(a, j)
    return Implies(And(0 <= j, j < k - Inner(a, k)), And(0 <= p, p < k, T.vleaf(S(a, p)), p - Inner(a, p) == j))
def lem_leafat(T):
    a, k, j = z3.Const('a', A_II), z3.Int('k0'), z3.Int('j0')
    f = lambda k: leaf_at(T, a, k, j)
    T.lemmas.append(Lemma('leaves are numbered', FA([a, k, j], Implies(k >= 0, f(k)), [(LeafAt(a, j), Inner(a, k))]),
        [('none', touch(Inner(a, iv(0))), f(iv(0))), ('step', [k >= 0, f(k)] + touch(Inner(a, k), Inner(a, k + 1), S(a, k), LeafAt(a, j), Inner(a, LeafAt(a, j)), If(T.vleaf(S(a, k)), iv(1), iv(0))), f(k + 1))]))
    u, v, w, N, x = z3.Int('u0'), z3.Int('v0'), z3.Int('w0'), z3.Int('N0'), z3.Int('x0')
    g = lambda v: InS(v, T.vvar(u))
    pw = T.vparent(w)
    # a leaf's variable is in the scope of every node above: climbing from the leaf
    h = [u > 0, T.vleaf(u), v > 0, Anc(v, u)]
    T.lemmas.append(Lemma('leaves below are in scope', FA([u, v], Implies(And(*h), g(v)), [(Anc(v, u), T.vvar(u))]),
        [('itself', h, g(u)), ('climbing', h + [w > 0, Anc(v, w), w != v, g(w)] + touch(pw, T.vleft(pw), T.vright(pw)), And(g(pw), Anc(v, pw), pw > 0, T.vdepth(pw) < T.vdepth(w)))]))
    c = lambda u, w: Implies(And(Cp(u, w, N), InS(u, x)), InS(w, S(Ren, x)))
    h = [u > 0, N > 0]
    T.lemmas.append(Lemma('a copy has the renamed variables', FA([u, w, N, x], Implies(And(*h), c(u, w)), [(Cp(u, w, N), InS(u, x))]),
        [('leaf', h + [T.vleaf(u)], c(u, w)), ('inner', h + [Not(T.vleaf(u)), c(T.vleft(u), T.vleft(w)), c(T.vright(u), T.vright(w)), Cp(u, w, N)] + touch(T.vleft(u), T.vleft(w)), c(u, w))]))
    return []
MLL = ('map', ('int',), ('int',))
VLL = ('vec', ('int',))
def c_compile():
    def cls(X):
        return X.ofld('clauses_')
    def req(X):
        X.manager = X.args[0]
        T, m, u = X.theory, M(X, True), z3.Int('u')
        N = X.old.next
        return minv(X, True) + [('a manager', X.a(0) > 0), ('a list of clauses', ln(cls(X)) >= 0), ('literals of the manager\'s variables', lits_in(cls(X), m.leaf.f['dom'])),
                ('the vtree exists', FA([u], Implies(Anc(m.vtree, u), And(u > 0, u < N)), [Anc(m.vtree, u)]))]
    def ghost(X):
        X.manager = X.args[0]
        T, m, i, x, w, N = X.theory, M(X, True), z3.Int('i'), z3.Int('x'), z3.Int('w'), X.old.next
        a, ixs, n, u = z3.Const('a', A_II), z3.Const('ixs', A_II), z3.Int('n'), z3.Int('u')
        e = S(a, i)
        return [('Renaming: the variables are numbered breadth first', FA([a, ixs, n, i], Implies(And(VSer(a, ixs, n, m.vtree), 0 <= i, i < n, T.vleaf(e)), S(Ren, T.vvar(e)) == 1 + i - Inner(a, i)), [(VSer(a, ixs, n, m.vtree), T.vvar(e))])),
                ('SddAssignment: the assignment renamed', FA([x], Implies(S(m.leaf.f['dom'], x), S(X0, S(Ren, x)) == S(XX, x)), [S(XX, x)])),
                ('SameShapeAt: positions of copies correspond', FA([w], Implies(And(w >= N, Cp(m.vtree, w, N)), And(Iso(w, m.vtree), FA([u], Implies(And(Anc(w, u), T.vleaf(u)), T.vvar(u) == S(Ren, T.vvar(Phi(u)))), [(Anc(w, u), Phi(u))]))), [Cp(m.vtree, w, N)]))]
    def loop(L, X):
        X.manager = X.args[0]
        T, m, i, x = X.theory, M(X, True), z3.Int('i'), z3.Int('x')
        o = X.ex.all_calls['VariablesUnderVtree'].outs
        a = o['arr']
        mp = L.var('psdd_variable_to_sdd_variable', t=MLL)
        e = S(a, i)
        place = i - Inner(a, i)
        idx = L.var('sdd_index', t=('int',))
        h = []
        if L.phase == 'step':
            p = LeafAt(a, L.k - 1)
            h = [('the leaf', And(0 <= p, p < o['len'], T.vleaf(S(a, p)), p - Inner(a, p) == L.k - 1, *touch(T.vvar(S(a, p)), Inner(a, o['len']))))]
        return h + [('the next number', idx == L.k + 1),
                ('variables so far are numbered', FA([i], Implies(And(0 <= i, i < o['len'], T.vleaf(e), place < L.k), And(S(mp.f['dom'], T.vvar(e)), S(mp.f['val'], T.vvar(e)) == 1 + place)), [T.vvar(e)])),
                ('only variables of the vtree', FA([x], Implies(S(mp.f['dom'], x), S(m.leaf.f['dom'], x)), [S(mp.f['dom'], x)]))]
    def ens(X):
        X.manager = X.args[0]
        T, c, x, y = X.theory, z3.Int('c'), z3.Int('x'), X.res
        m = M(X, False)
        A, Ls, n = parts(cls(X))
        cc = X.ex.calls.get('ConstructSddFromCnf')
        hint = []
        if cc is not None and X.ex.func.qname == 'CNF::Compile':
            mp = cc.a(1)
            mv = mp.f['val']
            inr = And(0 <= c, c < n)
            xx = z3.Const('xx', A_IB)
            same = [S(mp.f['dom'], x), S(mv, x) == S(Ren, x)]
            hint = [('the numbers', FA([x], Implies(S(m.leaf.f['dom'], x), And(S(mp.f['dom'], x), S(mv, x) == S(Ren, x))), [S(mv, x)])),
                    ('clauses of the numbered variables', FA([c], Implies(inr, CS(mv, A, Ls, X0, c) == CS(ID, A, Ls, XX, c)), [CS(mv, A, Ls, X0, c), CS(ID, A, Ls, XX, c)])),
                    ('all clauses', AS(mv, A, Ls, n, X0) == AS(ID, A, Ls, n, XX)),
                    ('clauses under the map', FA([c, xx], Implies(inr, CS(mv, A, Ls, xx, c) == CS(Ren, A, Ls, xx, c)), [CS(mv, A, Ls, xx, c), CS(Ren, A, Ls, xx, c)])),
                    ('all clauses under the map', FA([xx], AS(mv, A, Ls, n, xx) == AS(Ren, A, Ls, n, xx), [AS(mv, A, Ls, n, xx), AS(Ren, A, Ls, n, xx)]))]
        return grow(X) + hint + [('a node at the root with the flag', Implies(y != 0, And(S(m.mem, y), T.vt(y) == m.vtree, T.flg(y) == X.a(1)))),
            ('weight one for models, zero for others', Implies(y != 0, VX(y) == If(AS(ID, A, Ls, n, XX), rv(1), rv(0)))),
            ('without models there is no node', (y == 0) == Not(AS(Ren, A, Ls, n, X.outs['model']))), ('no node: no models', Implies(y == 0, Not(AS(ID, A, Ls, n, XX))))]
    def wit(X):
        c = X.ex.all_calls['ConstructSddFromCnf']
        return {'model': ssat(c.res)}
    return Contract('CNF::Compile', requires=req, ghost=ghost, ensures=ens, modifies=MODS + [DATA, USED, ('new', 'Vtree')], loops={'0': loop}, outs={'model': A_IB}, wit=wit)
vlist = proved(MA.lem_iso, 'the list has every node below')
ax_leafat_use = proved(lem_leafat, 'leaves are numbered', 'leaves below are in scope', 'a copy has the renamed variables')
def ax_iso_shape(T):
    return MA.ax_iso(T)[:2]
def ax_scope_root(T):
    return []
# ----------------------------------------------------------- reading a file
# the i-th line starts at the cursor LineAt(f, i); the j-th number of a line at
# NumAt(s, j); a clause ends at zero or at what is no number
LineAt = fn('LineAt', I, I, I)
NumAt = fn('NumAt', I, I, I)
CLen = fn('ClauseLength', I, I)
Before = fn('ClausesBefore', I, I, I)
Lines = fn('Lines', I, I)
class ReadTheory(StreamTheory, CnfTheory):
    def line(self, f, i):
        return self.lineof(f, LineAt(f, i))
    def is_clause(self, s):
        c = self.char(s, iv(0))
        return And(c != ord('p'), c != ord('c'), self.intok(s, NumAt(s, iv(0))))
def ax_lines(T):
    f, i, s, j = z3.Ints('f i s j')
    num = T.intof(s, NumAt(s, j))
    ok = And(T.intok(s, NumAt(s, j)), num != 0)
    return [FA([f], And(LineAt(f, iv(0)) == 0, Before(f, iv(0)) == 0, Lines(f) >= 0), [Lines(f)]),
            FA([f, i], LineAt(f, i + 1) == T.linenext(f, LineAt(f, i)), [T.linenext(f, LineAt(f, i))]),
            FA([f, i], Implies(And(0 <= i, i <= Lines(f)), T.lineok(f, LineAt(f, i)) == (i < Lines(f))), [LineAt(f, i)]),
            FA([f, i], Implies(i >= 0, And(Before(f, i) >= 0, Before(f, i + 1) == Before(f, i) + If(T.is_clause(T.line(f, i)), 1, 0))), [(Before(f, i), T.line(f, i))]),
            FA([s], And(NumAt(s, iv(0)) == 0, CLen(s) >= 0), [CLen(s)]),
            FA([s, j], NumAt(s, j + 1) == T.intnext(s, NumAt(s, j)), [T.intnext(s, NumAt(s, j))]),
            FA([s, j], Implies(And(0 <= j, j <= CLen(s)), ok == (j < CLen(s))), [NumAt(s, j)])]
def c_read():
    VV = ('vec', VLL)
    def upto(T, f, cl, k):
        i, j = z3.Ints('i j')
        s = T.line(f, i)
        w = Before(f, i)
        A, Ls, n = parts(cl)
        here = And(0 <= i, i < k, T.is_clause(s))
        return [('as many clauses as lines that are clauses', n == Before(f, k)),
                ('clauses so far', FA([i], Implies(here, And(0 <= w, w < n, S(Ls, w) == CLen(s))), [(Before(f, i), CLen(s))])),
                ('their literals', FA([i, j], Implies(And(here, 0 <= j, j < CLen(s)), S(S(A, w), j) == T.intof(s, NumAt(s, j))), [(Before(f, i), NumAt(s, j))]))]
    def lines(L, X):
        T = X.theory
        f = T.file(X.a(0))
        st = L.var('cnf_file', t=('stream',))
        return [('reads the file', And(st.f['src'] == f, Implies(st.f['ok'], And(st.f['cur'] == LineAt(f, L.k), L.k <= Lines(f))), st.f['ok'] == T.opens(X.a(0)), Implies(L.k > 0, st.f['ok']), *touch(Lines(f), LineAt(f, L.k))))] + upto(T, f, X.fld('clauses_'), L.k)
    def nums(L, X):
        T = X.theory
        f = T.file(X.a(0))
        o = L.outer[-1]
        s = T.line(f, o.k)
        ss, c = L.var('ss', t=('stream',)), L.var('clause', t=VLL)
        flag = L.var('is_clause', t=('bool',))
        j = z3.Int('j')
        return lines(o, X)[1:] + [('reads the line', And(ss.f['src'] == s, ss.f['cur'] == NumAt(s, L.k), ss.f['ok'], L.k <= CLen(s), *touch(CLen(s), NumAt(s, L.k)))),
                ('numbers so far', And(ln(c) == L.k, FA([j], Implies(And(0 <= j, j < L.k), at(c, j) == T.intof(s, NumAt(s, j))), [at(c, j)]))), ('numbers were read', flag == (L.k > 0))]
    def ens(X):
        T = X.theory
        f = T.file(X.a(0))
        return upto(T, f, X.fld('clauses_'), If(T.opens(X.a(0)), Lines(f), iv(0)))
    return Contract('CNF::CNF', ptypes=[('ptr', ('int',))], requires=lambda X: [], ensures=ens, modifies=[('this', 'clauses_')], loops={'0': lines, '0.0': nums})
def read_theory(*more):
    T = ReadTheory()
    for p in (ax_touch, ax_lines) + more:
        T.extra_axioms += p(T)
    return T
def cnf_theory(*more):
    T = CnfTheory()
    for p in (ax_touch, ax_clauses, ax_cnf_sdd) + more:
        T.extra_axioms += p(T)
    return T
UNITS = [
    (['C15'], lambda: Unit('read clauses', list(CF), CFILT, read_theory, [Target(c_read())])),
    (['C15'], lambda: Unit('clauses', list(CF), CFILT, lambda: cnf_theory(), [Target(c_construct())])),
    (['C15'], lambda: Unit('numbered leaves', list(CF), CFILT, lambda: cnf_theory(UQ.ax_anc, MA.ax_vtree, ax_tree, MA.ax_inner, MA.lem_inner, ax_copy, ax_scope_down, ax_leafat, lem_leafat), [])),
    (['C15'], lambda: Unit('compile', list(CF), CFILT, lambda: cnf_theory(UQ.ax_table, UQ.ax_anc, MA.ax_vtree, MA.ax_vser, ax_iso_shape, vlist, ax_scope_root, ax_leafat_use), [Target(c_compile())], [c_construct(), VTR.c_variables(), VTR.c_copy_map(), CV.c_convert_root()])),
]
