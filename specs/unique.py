"""The unique table (C02, C21): canonical nodes and their collection."""
from .core import *
from . import node_util as NU
from . import serialize as SER
from cppvc.sym import eqv

UT = ('src/psdd_unique_table.cpp', 'src/psdd_node.cpp')
UFILT = ['psdd_node_util', 'anonymous namespace', 'Psdd', 'UniqueTable']

Shape = fn('Shape', I, B)          # what every request to the table looks like
Same = fn('SameContent', I, I, B)  # equal kind, position, flag, elements, parameters
SameKey = fn('SameKey', I, I, B)   # the same, elements compared by identifier
LTD = fn('LessFrom', I, I, I, B)   # order of two decision nodes from element i on
Anc = fn('Below', I, I, B)         # Anc(a,u): u is a or below a
vroot = fn('vroot', I, I)          # root of the vtree of a table's manager

def ax_shape(T):
    n, i = n_, i_
    dec = And(T.dt(n) == 2, 0 <= i, i < T.np(n))
    parts = [(n > 0), (T.vt(n) > 0), Or(T.dt(n) == 1, T.dt(n) == 2, T.dt(n) == 3),
             Implies(T.dt(n) == 1, And(T.lit(n) != 0, T.vleaf(T.vt(n)), T.vvar(T.vt(n)) == If(T.lit(n) > 0, T.lit(n), -T.lit(n)))),
             Implies(T.dt(n) == 3, And(T.tv(n) > 0, T.vleaf(T.vt(n)), T.vvar(T.vt(n)) == T.tv(n), T.tpar(n) >= 0, T.fpar(n) >= 0)),
             Implies(T.dt(n) == 2, And(T.np(n) >= 1, T.ns(n) == T.np(n), T.npar(n) == T.np(n), Not(T.vleaf(T.vt(n)))))]
    el = And(T.prime(n, i) > 0, T.sub(n, i) > 0, T.vt(T.prime(n, i)) == T.vleft(T.vt(n)), T.vt(T.sub(n, i)) == T.vright(T.vt(n)), T.par(n, i) >= 0)
    order = lambda i, j: T.nidx(T.prime(n, i)) <= T.nidx(T.prime(n, j))
    return [FA([n], Implies(Shape(n), And(*parts)), [Shape(n)]),
            FA([n, i], Implies(And(Shape(n), dec), el), [(Shape(n), T.prime(n, i)), (Shape(n), T.sub(n, i)), (Shape(n), T.par(n, i))]),
            FA([n], Implies(And(*(parts + [FA([i], Implies(dec, el), [T.prime(n, i)])])), Shape(n)), [Shape(n)])]

def eqkey(T, a, b, i):
    return And(T.nidx(T.prime(a, i)) == T.nidx(T.prime(b, i)), T.nidx(T.sub(a, i)) == T.nidx(T.sub(b, i)), T.par(a, i) == T.par(b, i))
def eqel(T, a, b, i):
    return And(T.prime(a, i) == T.prime(b, i), T.sub(a, i) == T.sub(b, i), T.par(a, i) == T.par(b, i))
def content(T, a, b, el):
    i = i_
    head = [T.dt(a) == T.dt(b), T.flg(a) == T.flg(b),
            Implies(T.dt(a) == 1, T.lit(a) == T.lit(b)),
            Implies(T.dt(a) == 3, And(T.tv(a) == T.tv(b), T.tpar(a) == T.tpar(b), T.fpar(a) == T.fpar(b))),
            Implies(T.dt(a) == 2, T.np(a) == T.np(b))]
    return head, Implies(And(T.dt(a) == 2, 0 <= i, i < T.np(a)), el(T, a, b, i))
def ax_same(T):
    a, b, i = z3.Int('a'), z3.Int('b'), i_
    out = []
    for P, el, more in ((Same, eqel, [T.vt(a) == T.vt(b)]), (SameKey, eqkey, [])):
        head, e = content(T, a, b, el)
        head = head + more
        out.append(FA([a, b], Implies(P(a, b), And(*head)), [P(a, b)]))
        out.append(FA([a, b, i], Implies(P(a, b), e), [(P(a, b), T.prime(a, i)), (P(a, b), T.sub(a, i)), (P(a, b), T.par(a, i)), (P(a, b), T.prime(b, i)), (P(a, b), T.sub(b, i)), (P(a, b), T.par(b, i))]))
        out.append(FA([a, b], Implies(And(*(head + [FA([i], e, [T.prime(a, i), T.prime(b, i)])])), P(a, b)), [P(a, b)]))
    return out

def less(T, a, b):
    return If(T.flg(a) != T.flg(b), T.flg(a) < T.flg(b),
           If(T.dt(a) == 1, If(T.dt(b) != 1, z3.BoolVal(True), T.lit(a) < T.lit(b)),
           If(T.dt(a) == 3, If(T.dt(b) == 1, z3.BoolVal(False), If(T.dt(b) == 2, z3.BoolVal(True),
                If(T.tv(a) != T.tv(b), T.tv(a) < T.tv(b), If(T.tpar(a) != T.tpar(b), T.tpar(a) < T.tpar(b), T.fpar(a) < T.fpar(b))))),
           If(T.dt(b) != 2, z3.BoolVal(False), LTD(a, b, iv(0))))))
def ax_less(T):
    a, b, i = z3.Int('a'), z3.Int('b'), i_
    ida, idb = T.nidx(T.prime(a, i)), T.nidx(T.prime(b, i))
    isa, isb = T.nidx(T.sub(a, i)), T.nidx(T.sub(b, i))
    pa, pb = T.par(a, i), T.par(b, i)
    return [FA([a, b, i], LTD(a, b, i) == If(i >= T.np(a), T.np(b) > T.np(a), If(i >= T.np(b), z3.BoolVal(False),
               If(ida != idb, ida < idb, If(isa != isb, isa < isb, If(pa != pb, pa < pb, LTD(a, b, i + 1)))))), [LTD(a, b, i)])]
def lem_order(T):
    """the comparator is a strict weak order whose equivalence is equality of content"""
    a, b, c, i = z3.Int('a'), z3.Int('b'), z3.Int('c'), z3.Int('i0')
    L = LTD
    def induct(name, vs, P, hyps, pats):
        # descending over i
        T.lemmas.append(Lemma(name, FA(vs + [i], Implies(And(hyps(i)), P(i)), pats),
            [('past the end', [hyps(i), i >= T.np(a)], P(i)), ('step', [hyps(i), 0 <= i, i < T.np(a), Implies(hyps(i + 1), P(i + 1))], P(i))]))
    h1 = lambda i: And(0 <= i, i <= T.np(a), i <= T.np(b))
    h2 = lambda i: And(h1(i), i <= T.np(c))
    induct('irreflexive from an element on', [a], lambda i: Not(L(a, a, i)), lambda i: And(0 <= i, i <= T.np(a)), [L(a, a, i)])
    induct('transitive from an element on', [a, b, c], lambda i: Implies(And(L(a, b, i), L(b, c, i)), L(a, c, i)), h2, [(L(a, b, i), L(b, c, i))])
    j = z3.Int('j')
    same = lambda a, b, i: And(T.np(a) == T.np(b), FA([j], Implies(And(i <= j, j < T.np(a)), eqkey(T, a, b, j)), [T.prime(a, j), T.prime(b, j), T.sub(a, j), T.sub(b, j), T.par(a, j), T.par(b, j)]))
    induct('incomparable from an element on', [a, b], lambda i: Implies(And(Not(L(a, b, i)), Not(L(b, a, i))), same(a, b, i)), h1, [(L(a, b, i), L(b, a, i))])
    induct('equal elements are incomparable', [a, b], lambda i: Implies(same(a, b, i), And(Not(L(a, b, i)), Not(L(b, a, i)))), h1, [(L(a, b, i), L(b, a, i))])
    sh = [Shape(a), Shape(b)]
    lt = lambda a, b: less(T, a, b)
    eqv = lambda a, b: And(Not(lt(a, b)), Not(lt(b, a)))
    tt = [L(a, b, iv(0)) == L(a, b, iv(0)), L(b, a, iv(0)) == L(b, a, iv(0))]
    T.lemmas.append(Lemma('incomparable nodes have the same content', FA([a, b], Implies(And(sh), eqv(a, b) == SameKey(a, b)), [SameKey(a, b)]),
        [('same', sh + tt + [eqv(a, b)], SameKey(a, b)), ('incomparable', sh + tt + [SameKey(a, b)], eqv(a, b))]))
    T.lemmas.append(Lemma('the comparator is a strict weak order', z3.BoolVal(True),
        [('irreflexive', [Shape(a)], Not(lt(a, a))), ('transitive', sh + [Shape(c), lt(a, b), lt(b, c)], lt(a, c)),
         ('equivalence is transitive', sh + [Shape(c), SameKey(a, b), SameKey(b, c)], SameKey(a, c))]))
    return []

def c_compare():
    def loop(L, X):
        T = X.theory
        a, b = X.a(0), X.a(1)
        return [('decided by the rest', LTD(a, b, iv(0)) == LTD(a, b, L.k))]
    return Contract('PsddUniqueTableSetFunctional::operator()', requires=lambda X: [('requests', And(Shape(X.a(0)), Shape(X.a(1))))],
                    ret=lambda X: less(X.theory, X.a(0), X.a(1)), loops={'0': loop})


# ------------------------------------------------------- the table as a set
MEM = ('PsddUniqueTable', 'members')     # ghost: the nodes of a table
TInv = fn('TableInvariant', A_IB, I, I, B)   # members, next identifier, table
Sub = fn('Subset', A_IB, A_IB, B)
def ax_table(T):
    mem, k, t = z3.Const('mem', A_IB), z3.Int('k'), z3.Int('t')
    r, s, i = z3.Ints('r s i')
    kid = And(TInv(mem, k, t), S(mem, r), T.dt(r) == 2, 0 <= i, i < T.np(r))
    one = Implies(S(mem, r), And(T.wf(r), Shape(r), T.mgr(r) == t, T.nidx(r) < k, Anc(vroot(t), T.vt(r))))
    two = Implies(And(S(mem, r), S(mem, s)), And(Implies(T.nidx(r) == T.nidx(s), r == s), Implies(Same(r, s), r == s)))
    kids = Implies(And(S(mem, r), T.dt(r) == 2, 0 <= i, i < T.np(r)), And(S(mem, T.prime(r, i)), S(mem, T.sub(r, i))))
    m2 = z3.Const('mem2', A_IB)
    m3 = z3.Const('mem3', A_IB)
    return [FA([mem, k, t, r], Implies(TInv(mem, k, t), one), [(TInv(mem, k, t), S(mem, r))]),
            FA([mem, k, t, r, s], Implies(TInv(mem, k, t), two), [(TInv(mem, k, t), S(mem, r), S(mem, s))]),
            FA([mem, k, t, r, i], Implies(TInv(mem, k, t), kids), [(TInv(mem, k, t), S(mem, r), T.prime(r, i)), (TInv(mem, k, t), S(mem, r), T.sub(r, i))]),
            FA([mem, k, t], Implies(And(FA([r], one, [S(mem, r)]), FA([r, s], two, [(S(mem, r), S(mem, s))]), FA([r, i], kids, [(S(mem, r), T.prime(r, i))])), TInv(mem, k, t)), [TInv(mem, k, t)]),
            FA([mem, m2, r], Implies(And(Sub(mem, m2), S(mem, r)), S(m2, r)), [(Sub(mem, m2), S(mem, r)), (Sub(mem, m2), S(m2, r))]),
            FA([mem, m2], Implies(FA([r], Implies(S(mem, r), S(m2, r)), [S(mem, r)]), Sub(mem, m2)), [Sub(mem, m2)]),
            FA([mem], Sub(mem, mem), [Sub(mem, mem)]),
            FA([mem, m2, m3], Implies(And(Sub(mem, m2), Sub(m2, m3)), Sub(mem, m3)), [(Sub(mem, m2), Sub(m2, m3))])]
def ax_wf_intro(T):
    """wf is the least predicate with this property (definition)"""
    n, i = n_, i_
    dec = And(T.dt(n) == 2, 0 <= i, i < T.np(n))
    ok = lambda c: And(T.wf(c), T.mgr(c) == T.mgr(n))
    return [FA([n], Implies(And(Shape(n), T.nodeOf(T.mgr(n), T.nidx(n)) == n, FA([i], Implies(dec, And(ok(T.prime(n, i)), ok(T.sub(n, i)))), [T.prime(n, i)])), T.wf(n)), [T.wf(n)])]
def ax_anc(T):
    """vtree nodes below a vtree node; positions within one vtree are distinct (libsdd)"""
    a, u, v, t = z3.Int('a'), z3.Int('u'), z3.Int('v'), z3.Int('t')
    return [FA([a], Anc(a, a), [Anc(a, a)]),
            FA([a, u], Implies(And(Anc(a, u), u > 0, Not(T.vleaf(u))), And(Anc(a, T.vleft(u)), Anc(a, T.vright(u)))), [(Anc(a, u), T.vleft(u)), (Anc(a, u), T.vright(u))]),
            FA([t, u, v], Implies(And(Anc(vroot(t), u), Anc(vroot(t), v), T.vpos(u) == T.vpos(v)), u == v), [(Anc(vroot(t), u), Anc(vroot(t), v))])]

KINDS = [('literal_node_table_', 1), ('decision_node_table_', 2), ('top_node_table_', 3)]
def In(m, u, r):
    return And(S(m.f['dom'], u), S(S(m.f['val'].f['dom'], u), r))
def tables(X, old):
    rd = X.ofld if old else X.fld
    return [(rd(f), k) for f, k in KINDS]
def memf(T, tabs, r):
    return Or(*[And(T.dt(r) == k, In(m, T.vpos(T.vt(r)), r)) for m, k in tabs])
def members(X, old, t=None):
    """the set of nodes of the table: ghost state for clients; within the
    implementation the union of its maps"""
    f = X.ex.func
    if f.cls and f.cls.endswith('Imp') or t is None and f.name == 'GetPsddUniqueTable':
        T = X.theory
        tabs = tables(X, old)
        m = X.ex.fresh(A_IB, 'members')
        r = z3.Int('r')
        X.ex.assume(FA([r], S(m, r) == memf(T, tabs, r), [S(m, r)]))
        for tb, k in tabs:
            u = z3.Int('u')
            e = S(S(tb.f['val'].f['dom'], u), r)
            X.ex.assume(FA([u, r], Implies(And(S(tb.f['dom'], u), e, T.dt(r) == k, T.vpos(T.vt(r)) == u), S(m, r)), [e]))
        return m
    return S(X.oh(*MEM) if old else X.h(*MEM), t if t is not None else X.this)
def coupling(X, old):
    """every map holds nodes of its kind at their positions"""
    if not X.ex.func.cls.endswith('Imp'):
        return []
    T = X.theory
    u, r = z3.Ints('u r')
    out = []
    for m, k in tables(X, old):
        e = S(S(m.f['val'].f['dom'], u), r)
        out.append(('nodes of kind %d are kept at their positions' % k, FA([u, r], Implies(And(S(m.f['dom'], u), e), And(T.dt(r) == k, T.vpos(T.vt(r)) == u)), [e])))
    return out

def c_unique():
    def tab(X):
        return X.this
    def node(X):
        return X.a(0)
    def requires(X):
        T, n, t = X.theory, node(X), tab(X)
        mem = members(X, True)
        X.ex.mem0 = mem
        i = i_
        return coupling(X, True) + [('the table\'s invariant', TInv(mem, X.a(1), t)),
                ('a request', And(Shape(n), T.nidx(n) == X.a(1), Anc(vroot(t), T.vt(n)))), ('a new object', Not(S(mem, n))),
                ('its elements are in the table', FA([i], Implies(And(T.dt(n) == 2, 0 <= i, i < T.np(n)), And(S(mem, T.prime(n, i)), S(mem, T.sub(n, i)))), [T.prime(n, i), T.sub(n, i)]))]
    def ghost(X):
        # a node is given its manager and its identifier when it enters the table
        T, n, t, mem = X.theory, node(X), tab(X), X.ex.mem0
        r = z3.Int('r')
        return [('accepted nodes', Or(z3.Exists([r], And(S(mem, r), Same(r, n))), And(T.mgr(n) == t, T.nodeOf(t, X.a(1)) == n)))]
    def ensures(X):
        T, n, t = X.theory, node(X), tab(X)
        impl = X.ex.func.cls and X.ex.func.cls.endswith('Imp')
        m0 = X.ex.mem0 if impl else members(X, True)
        m1 = members(X, False)
        r = z3.Int('r')
        k0, k1 = X.a(1), X.a1(1)
        return coupling(X, False) + [('the requested content', Same(X.res, n)), ('in the table', S(m1, X.res)),
                ('nodes of the table stay', Sub(m0, m1)),
                ('no other node enters the table', FA([r], Implies(S(m1, r), Or(S(m0, r), r == X.res)), [S(m1, r)])),
                ('an equal node is shared', FA([r], Implies(And(S(m0, r), Same(r, n)), And(X.res == r)), [Same(r, n)])),
                ('a new node only for new content', Or(And(S(m0, X.res), k1 == k0), And(X.res == n, k1 == k0 + 1))),
                ('a well-formed node', And(T.wf(X.res), T.mgr(X.res) == t)), ('its identifier', T.nidx(X.res) < k1), ('its position', Anc(vroot(t), T.vt(X.res))),
                ('identifiers are distinct', FA([r], Implies(And(S(m1, r), T.nidx(r) == T.nidx(X.res)), r == X.res), [S(m1, r)])),
                ('contents are distinct', FA([r], Implies(And(S(m1, r), Or(Same(r, X.res), Same(X.res, r))), r == X.res), [S(m1, r)])),
                ('the table\'s invariant', TInv(m1, k1, t))]
    return Contract('PsddUniqueTable::GetUniqueNode', requires=requires, ensures=ensures, ghost=ghost,
                    modifies=[('arg', 1), MEM] + [('PsddUniqueTable', f) for f, k in KINDS])

# ------------------------------------------------------------- collection
def c_collect(name, kept_of, requires_more, ensures_more, hyp):
    """deletion of the members that are not kept"""
    def state(X, L, which):
        return X.fld(KINDS[which][0]), KINDS[which]
    FIELD = {0: 'decision_node_table_', 1: 'literal_node_table_', 2: 'top_node_table_'}
    def sides(L, X, idx):
        # maps not yet treated / finished
        return [(FIELD[j], j < idx) for j in range(3) if j != idx]
    def whole(X, L, f, done):
        now, old = X.fld(f), X.ofld(f)
        u, r = z3.Ints('u r')
        if not done:
            return ('%s is untouched' % f, eqv(now, old))
        e, e0 = S(S(now.f['val'].f['dom'], u), r), S(S(old.f['val'].f['dom'], u), r)
        return ('%s is finished' % f, FA([u, r], And(S(now.f['dom'], u), e) == And(S(old.f['dom'], u), e0, kept_of(X, L, r)), [e, e0]))
    def outer(idx):
        def inv(L, X):
            f = FIELD[idx]
            it = L.enums()[-1]
            now, old = X.fld(f), X.ofld(f)
            u, r = z3.Ints('u r')
            pos = it.snap.inv(u)
            e, e0 = S(S(now.f['val'].f['dom'], u), r), S(S(old.f['val'].f['dom'], u), r)
            return hyp(X, L) + [whole(X, L, g, done) for g, done in sides(L, X, idx)] + [
                ('only old positions', FA([u], Implies(S(now.f['dom'], u), S(old.f['dom'], u)), [S(now.f['dom'], u)])),
                ('positions not reached are untouched', FA([u], Implies(And(S(old.f['dom'], u), pos >= L.k), And(S(now.f['dom'], u), S(now.f['val'].f['dom'], u) == S(old.f['val'].f['dom'], u),
                     S(now.f['val'].f['size'], u) == S(old.f['val'].f['size'], u))), [S(now.f['dom'], u), S(now.f['val'].f['dom'], u)])),
                ('positions so far', FA([u, r], Implies(And(S(old.f['dom'], u), pos < L.k), And(S(now.f['dom'], u), e) == And(e0, kept_of(X, L, r))), [e, e0]))]
        return inv
    def inner(idx):
        def inv(L, X):
            f = FIELD[idx]
            o = L.outer[-1]
            its = L.enums()
            it2, it = its[-1], its[-2]
            st = o.start
            now = X.fld(f)
            old = X.ex.read(X.ex.this_field(X.this, f), st)
            c = S(it.snap.en, o.k)
            u, r = z3.Ints('u r')
            e = S(S(now.f['val'].f['dom'], c), r)
            e0 = S(S(old.f['val'].f['dom'], c), r)
            vd, vs = now.f['val'].f['dom'], now.f['val'].f['size']
            return hyp(X, L) + [whole(X, L, g, done) for g, done in sides(L, X, idx)] + [
                ('the positions', And(now.f['dom'] == old.f['dom'], now.f['size'] == old.f['size'])),
                ('other positions', FA([u], Implies(u != c, And(S(vd, u) == S(old.f['val'].f['dom'], u), S(vs, u) == S(old.f['val'].f['size'], u))), [S(vd, u), S(vs, u)])),
                ('nodes so far', FA([r], e == And(e0, Or(it2.snap.inv(r) >= L.k, kept_of(X, L, r))), [e, e0]))]
        return inv
    def requires(X):
        t, mem = X.this, members(X, True)
        X.ex.mem0 = mem
        return coupling(X, True) + requires_more(X, mem, t)
    def ensures(X):
        T, t = X.theory, X.this
        impl = X.ex.func.cls and X.ex.func.cls.endswith('Imp')
        m0 = X.ex.mem0 if impl else members(X, True)
        m1 = members(X, False)
        return coupling(X, False) + ensures_more(X, m0, m1)
    return Contract('PsddUniqueTable::' + name, requires=requires, ensures=ensures, modifies=[MEM] + [('PsddUniqueTable', f) for f, k in KINDS],
                    loops={'0': outer(0), '0.0': inner(0), '1': outer(1), '1.0': inner(1), '2': outer(2), '2.0': inner(2)})

def c_delete_flags():
    def kept(X, L, r):
        return S(X.a(0).f['dom'], X.theory.flg(r))
    def ens(X, m0, m1):
        T, r = X.theory, z3.Int('r')
        return [('exactly the nodes with a listed flag stay', FA([r], S(m1, r) == And(S(m0, r), kept(X, None, r)), [S(m1, r), S(m0, r)]))]
    def req(X, mem, t):
        r = z3.Int('r')
        return [('members are nodes', FA([r], Implies(S(mem, r), r > 0), [S(mem, r)]))]
    return c_collect('DeletePsddNodesWithoutFlagIndexes', kept, req, ens, lambda X, L: [])

TABNEXT = z3.Int('tab_next')      # the next identifier of the table's manager
CMAP = ('map', ('int',), NODE)
def c_delete_unused():
    def cov(X, L):
        if L is not None:
            X.ex.cov = L.var('covered_nodes', t=CMAP)
        return X.ex.cov
    def kept(X, L, r):
        return S(cov(X, L).f['dom'], X.theory.nidx(r))
    def req(X, mem, t):
        i, k = z3.Ints('i k')
        us = X.a(0)
        return [('the table\'s invariant', TInv(mem, TABNEXT, t)), ('used nodes are in the table', FA([i], Implies(And(0 <= i, i < ln(us)), S(mem, at(us, i))), [at(us, i)]))]
    def ens(X, m0, m1):
        T, r, i, e = X.theory, *z3.Ints('r i e')
        us, t = X.a(0), X.this
        more = []
        if X.ex.func.cls and X.ex.func.cls.endswith('Imp'):
            c = cov(X, None)
            more = [('kept nodes are covered', FA([r], S(m1, r) == And(S(m0, r), S(c.f['dom'], T.nidx(r)), S(c.f['val'], T.nidx(r)) == r), [S(m1, r), S(m0, r)])),
                    ('there are roots if a node is kept', FA([r], Implies(S(m1, r), ln(us) > 0), [S(m1, r)]))]
        return more + [('only nodes of the table', Sub(m1, m0)),
                ('used nodes stay', FA([i], Implies(And(0 <= i, i < ln(us)), S(m1, at(us, i))), [at(us, i)])),
                ('what a kept node consists of stays', FA([r, e], Implies(And(S(m1, r), T.dt(r) == 2, 0 <= e, e < T.np(r)), And(S(m1, T.prime(r, e)), S(m1, T.sub(r, e)))), [(S(m1, r), T.prime(r, e)), (S(m1, r), T.sub(r, e))])),
                ('nothing else stays', Implies(SER.closed(X, us), FA([r], Implies(S(m1, r), S(SER.QS, r)), [S(m1, r)]))),
                ('the table\'s invariant', TInv(m1, TABNEXT, t))]
    return c_collect('DeleteUnusedPsddNodes', kept, req, ens, lambda X, L: [])

def th(*more):
    return theory(ax_touch, ax_shape, ax_same, ax_less, lem_order, *more)
def tht(*more):
    return th(ax_table, ax_wf_intro, ax_anc, *more)
def imp(c, name):
    return Target(c, func=lambda P: P.funcs.get('PsddUniqueTableImp::' + name, []))
UNITS = [
    (['C02', 'C21'], lambda: Unit('unique node', list(UT), UFILT, lambda: th(ax_table, ax_wf_intro, ax_anc), [imp(c_unique(), 'GetUniqueNode')], [c_compare()])),
    (['C21'], lambda: Unit('delete by flag', list(UT), UFILT, tht, [imp(c_delete_flags(), 'DeletePsddNodesWithoutFlagIndexes')], [c_compare()])),
    (['C21'], lambda: Unit('delete unused', list(UT), UFILT, tht, [imp(c_delete_unused(), 'DeleteUnusedPsddNodes')], [c_compare(), SER.c_covered()])),
    (['C02', 'C21'], lambda: Unit('comparator', list(UT), UFILT, th, [Target(c_compare())])),
]
