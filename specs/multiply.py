"""Multiplication (C09)."""
from .manager import *
from . import manager as MA

NormP = fn('NormalisedNode', I, B)      # local parameters sum to one, hereditarily
def ax_norm(T):
    n, i = n_, i_
    kids = lambda i: And(NormP(T.prime(n, i)), NormP(T.sub(n, i)))
    inr = And(0 <= i, i < T.np(n))
    return [FA([n], Implies(T.dt(n) == 1, NormP(n)), [NormP(n)]),
            FA([n], Implies(T.dt(n) == 3, NormP(n) == (T.tpar(n) + T.fpar(n) == 1)), [NormP(n)]),
            FA([n], Implies(And(NormP(n), T.dt(n) == 2), ASum(T.paA(n), T.np(n)) == 1), [NormP(n)]),
            FA([n, i], Implies(And(NormP(n), T.dt(n) == 2, inr), kids(i)), [(NormP(n), T.prime(n, i)), (NormP(n), T.sub(n, i))]),
            FA([n], Implies(And(T.dt(n) == 2, ASum(T.paA(n), T.np(n)) == 1, FA([i], Implies(inr, kids(i)), [T.prime(n, i), T.sub(n, i)])), NormP(n)), [NormP(n)])]
Scal = fn('ScaledBy', A_IR, A_IR, R, I, B)     # b is a times z, up to n
def ax_scal(T):
    a, b = z3.Consts('a b', A_IR)
    z = z3.Real('z')
    n, i = n_, i_
    e = Scal(a, b, z, n)
    sc = lambda i: pm(S(a, i), z) == S(b, i)
    inr = And(0 <= i, i < n)
    return [FA([a, b, z, n, i], Implies(And(e, inr), sc(i)), [(e, S(a, i)), (e, S(b, i))]),
            FA([a, b, z, n], Implies(FA([i], Implies(inr, sc(i)), [S(a, i), S(b, i)]), e), [e])]
def lem_scal(T):
    a, b = z3.Consts('a b', A_IR)
    z, u, v, w = z3.Reals('z u v w')
    n = z3.Int('n0')
    fin = lambda n: pm(ASum(a, n), z) == ASum(b, n)
    T.lemmas.append(Lemma('sums of scaled summands', FA([a, b, z, n], Implies(And(n >= 0, Scal(a, b, z, n)), fin(n)), [Scal(a, b, z, n)]),
        [('none', [], fin(iv(0))), ('hereditary', [n >= 0, Scal(a, b, z, n + 1)], Scal(a, b, z, n)),
         ('step', [n >= 0, Scal(a, b, z, n + 1), fin(n)] + touch(S(a, n), S(b, n)), fin(n + 1))]))
    f = lambda p, q: Scal(El(P_, Q_, p), El(P_, Q_, q), z, n)
    T.lemmas.append(Lemma('summands with scaled parameters', FA([P_, Q_, a, b, z, n], Implies(Scal(a, b, z, n), f(a, b)), [f(a, b)]),
        [('all', [Scal(a, b, z, n)], f(a, b))]))
    return []
Elem = fn('ElementValue', I, I, R)
Prod = fn('ProductSoFar', I, I, I, I, R)       # elements before i, with all of the other node; element i with elements before j
def ax_prod(T):
    n, i, a, b, j = n_, i_, z3.Int('a'), z3.Int('b'), j_
    return [FA([n, i], Elem(n, i) == pm(pm(VX(T.prime(n, i)), VX(T.sub(n, i))), T.par(n, i)), [Elem(n, i)]),
            FA([a, b, i, j], Prod(a, b, i, j) == pm(VS(ALLV, XX, a, i), VX(b)) + pm(Elem(a, i), VS(ALLV, XX, b, j)), [Prod(a, b, i, j)])]
def lem_prod(T):
    a, b, i, j = z3.Int('a'), z3.Int('b'), i_, j_
    da, db = And(T.dt(a) == 2, 0 <= i, i < T.np(a)), And(T.dt(b) == 2, 0 <= j, j < T.np(b))
    t = touch(T.prime(a, i), T.prime(b, j), VX(a), VX(b))
    T.lemmas.append(Lemma('products of sums', z3.And(
        FA([a, b], Implies(And(T.dt(a) == 2, T.dt(b) == 2), Prod(a, b, iv(0), iv(0)) == 0), [Prod(a, b, iv(0), iv(0))]),
        FA([a, b, i, j], Implies(And(da, db), Prod(a, b, i, j + 1) == Prod(a, b, i, j) + pm(Elem(a, i), Elem(b, j))), [(Prod(a, b, i, j), T.prime(b, j))]),
        FA([a, b, i], Implies(And(da, T.dt(b) == 2), Prod(a, b, i + 1, iv(0)) == Prod(a, b, i, T.np(b))), [Prod(a, b, i, T.np(b))]),
        FA([a, b], Implies(And(T.dt(a) == 2, T.dt(b) == 2), Prod(a, b, T.np(a), iv(0)) == pm(VX(a), VX(b))), [Prod(a, b, T.np(a), iv(0))])),
        [('none', [T.dt(a) == 2, T.dt(b) == 2] + touch(VX(a), VX(b)), Prod(a, b, iv(0), iv(0)) == 0),
         ('one more', [da, db] + t, Prod(a, b, i, j + 1) == Prod(a, b, i, j) + pm(Elem(a, i), Elem(b, j))),
         ('next', [da, T.dt(b) == 2] + t, Prod(a, b, i + 1, iv(0)) == Prod(a, b, i, T.np(b))),
         ('all', [T.dt(a) == 2, T.dt(b) == 2] + touch(VX(a), VX(b)), Prod(a, b, T.np(a), iv(0)) == pm(VX(a), VX(b)))]))
    # the arithmetic of one pair of elements: (x1 y1 u1)(x2 y2 u2) with x1 x2 = p x and y1 y2 = q y
    x1, x2, y1, y2, u1, u2, p, q, x, y = z3.Reals('x1 x2 y1 y2 u1 u2 p q x y')
    lhs = pm(pm(pm(x1, y1), u1), pm(pm(x2, y2), u2))
    par = pm(pm(pm(u2, u1), p), q)
    rhs = pm(pm(x, y), par)
    h = [pm(x1, x2) == pm(p, x), pm(y1, y2) == pm(q, y)]
    a1, b1 = x1 * y1 * u1, x2 * y2 * u2
    xx, yy, uu = z3.Reals('xx yy uu')
    flat = [('left', touch(pm(x1, y1)), pm(pm(x1, y1), u1) == a1), ('right', touch(pm(x2, y2)), pm(pm(x2, y2), u2) == b1),
            ('together', [pm(pm(x1, y1), u1) == a1, pm(pm(x2, y2), u2) == b1] + touch(pm(a1, b1)), lhs == pm(a1, b1)),
            ('flat', [lhs == pm(a1, b1)], lhs == a1 * b1), ('regroup', [lhs == a1 * b1], lhs == (x1 * x2) * (y1 * y2) * (u1 * u2))]
    c1, d1 = x * y, u2 * u1 * p * q
    T.lemmas.append(Lemma('the product of two elements', FA([x1, x2, y1, y2, u1, u2, p, q, x, y], Implies(And(*h), lhs == rhs), [(lhs, rhs)]),
        flat + [('exchange', [x1 * x2 == xx, y1 * y2 == yy, u1 * u2 == uu], (x1 * x2) * (y1 * y2) * (u1 * u2) == xx * yy * uu),
         ('exchange 2', [p * x == xx, q * y == yy, u1 * u2 == uu], (p * x) * (q * y) * (u1 * u2) == xx * yy * uu),
         ('parameters', touch(pm(u2, u1), pm(pm(u2, u1), p)), par == d1), ('values', [], pm(x, y) == c1),
         ('together 2', [par == d1, pm(x, y) == c1] + touch(pm(c1, d1)), rhs == pm(c1, d1)), ('flat 2', [rhs == pm(c1, d1)], rhs == c1 * d1),
         ('regroup 2', [rhs == c1 * d1], rhs == (p * x) * (q * y) * (u1 * u2))]))
    T.lemmas.append(Lemma('elements without weight', FA([x1, x2, y1, y2, u1, u2, p, q, x, y], Implies(And(*(h + [par == 0])), lhs == 0), [(lhs, par, pm(p, x), pm(q, y))]),
        [('zero', h + [par == 0, lhs == rhs], lhs == 0)]))
    T.lemmas.append(Lemma('elements that exclude each other', FA([x1, x2, y1, y2, u1, u2], Implies(Or(pm(x1, x2) == 0, pm(y1, y2) == 0), lhs == 0), [lhs]),
        [('first', [x1 * x2 == 0], (x1 * x2) * ((y1 * y2) * (u1 * u2)) == 0), ('second', [y1 * y2 == 0], (y1 * y2) * ((x1 * x2) * (u1 * u2)) == 0)]))
    k, l, c, d = z3.Int('k0'), z3.Int('l0'), z3.Int('c'), z3.Int('d')
    e = El(z3.Store(P_, k, c), z3.Store(Q_, k, d), z3.Store(W_, k, x))
    more = ASum(e, l) == ASum(El(P_, Q_, W_), k) + pm(pm(VX(c), VX(d)), x)
    T.lemmas.append(Lemma('one more summand', FA([P_, Q_, W_, k, l, c, d, x], Implies(And(k >= 0, l == k + 1), more), [ASum(e, l)]),
        [('before', [k >= 0], EqOn(e, El(P_, Q_, W_), k)), ('last', [k >= 0] + touch(S(e, k)), S(e, k) == pm(pm(VX(c), VX(d)), x)),
         ('all', [k >= 0, l == k + 1, EqOn(e, El(P_, Q_, W_), k), S(e, k) == pm(pm(VX(c), VX(d)), x)] + touch(ASum(e, k), ASum(e, k + 1)), more)]))
    T.lemmas.append(Lemma('products with zero', FA([x, y], And(Implies(x == 0, pm(x, y) == 0), Implies(y == 0, pm(x, y) == 0), Implies(And(x >= 0, y >= 0), pm(x, y) >= 0)), [pm(x, y)]),
        [('zero', [Or(x == 0, y == 0)], pm(x, y) == 0), ('sign', [x >= 0, y >= 0], pm(x, y) >= 0)]))
    return []

# ----------------------------------------------------------------- the cache
CC = 'ComputationCache'
def cells(c):
    """entries of the cache by vtree position and the two nodes"""
    a = c.f['arr']
    g = lambda x: (lambda k, f, s: S(S(S(x, k), f), s))
    return g(a.f['dom']), g(a.f['val'].f['first']), g(a.f['val'].f['second'])
def product(T, mem, f, s, r, w):
    """what multiplying f and s yields"""
    return And(Implies(r == 0, And(w == 0, pm(VX(f), VX(s)) == 0)),
               Implies(r != 0, And(r > 0, S(mem, r), T.vt(r) == T.vt(f), w > 0, pm(VX(f), VX(s)) == pm(w, VX(r)), NormP(r))))
def cvalid(X, c, old):
    T, m = X.theory, M(X, old)
    k, f, s = z3.Ints('k f s')
    dom, fst, snd = cells(c)
    n = ln(c)
    u = z3.Int('u')
    return [('cached results', FA([k, f, s], Implies(dom(k, f, s), product(T, m.mem, f, s, fst(k, f, s), snd(k, f, s))), [dom(k, f, s), fst(k, f, s), snd(k, f, s)])),
            ('room for every position', FA([u], Implies(Anc(m.vtree, u), And(0 <= T.vpos(u), T.vpos(u) < n)), [T.vpos(u)]))]
CCV = ('cls', CC)
def cthis(X, old):
    return X.ofld('cache_') if old else X.fld('cache_')
def room(X, c, n):
    T = X.theory
    p = T.vpos(T.vt(n))
    return ('room for the position', And(0 <= p, p < ln(c)))
def c_lookup():
    def ens(X):
        c = cthis(X, True)
        dom, fst, snd = cells(c)
        k, f, s = X.theory.vpos(X.theory.vt(X.a(0))), X.a(0), X.a(1)
        fd = X.a1(2)
        return [('found if there is an entry', fd == dom(k, f, s)), ('the entry', Implies(fd, And(X.res.f['first'] == fst(k, f, s), X.res.f['second'] == snd(k, f, s))))]
    return Contract('ComputationCache::Lookup', requires=lambda X: [('a node', X.a(0) > 0), room(X, cthis(X, True), X.a(0))], ensures=ens, modifies=[('arg', 2)])
def c_update():
    def ens(X):
        c, c1 = cthis(X, True), cthis(X, False)
        d0, f0, s0 = cells(c)
        d1, f1, s1 = cells(c1)
        k, f, s = z3.Ints('k f s')
        here = And(k == X.theory.vpos(X.theory.vt(X.a(0))), f == X.a(0), s == X.a(1))
        res = X.a(2)
        return [('entries', FA([k, f, s], And(d1(k, f, s) == Or(here, d0(k, f, s)), f1(k, f, s) == If(here, res.f['first'], f0(k, f, s)), s1(k, f, s) == If(here, res.f['second'], s0(k, f, s))), [d1(k, f, s), f1(k, f, s), s1(k, f, s)])),
                ('same room', ln(c1) == ln(c))]
    return Contract('ComputationCache::Update', requires=lambda X: [('a node', X.a(0) > 0), room(X, cthis(X, True), X.a(0))], ensures=ens, modifies=[('this', 'cache_')])
def c_equal():
    return Contract('MultiplyFunctional::operator()', nparams=2, ensures=lambda X: [('equal keys', X.res == And(X.a(0).f['first'] == X.a(1).f['first'], X.a(0).f['second'] == X.a(1).f['second']))])

# ------------------------------------------------------------ multiplication
PV = ('vec', ('param',))
def operands(X, f, s):
    T, m = X.theory, M(X, True)
    return [('nodes at one position of the vtree', And(T.wf(f), T.wf(s), T.vt(f) == T.vt(s), Anc(m.vtree, T.vt(f))))]
def c_mwc():
    def mx(X):
        X.manager = X.args[2]
        return X
    def req(X):
        mx(X)
        return [('a manager', X.args[2] > 0)] + minv(X, True) + operands(X, X.a(0), X.a(1)) + cvalid(X, X.a(4).f['cache_'], True)
    def ens(X):
        mx(X)
        T, m = X.theory, M(X, False)
        r, w = X.res.f['first'], X.res.f['second']
        hints = []
        c = X.ex.calls.get('GetConformedPsddDecisionNode')
        if X.ex.func.qname == 'MultiplyWithCache' and c is not None and X.ex.last_outs:
            n = ln(c.a(0))
            p, q = c.outs['p'], c.outs['q']
            hints = [('order of the elements', PermOf(c.a(2).f['arr'], T.paA(c.res), p, q, n))]
        return hints + grow(X) + cvalid(X, X.a1(4).f['cache_'], False) + [('the product', product(T, m.mem, X.a(0), X.a(1), r, w))]
    def facts(L, X, total):
        T, m = X.theory, M(mx(X), False)
        A, Bs, W = L.var('next_primes', t=VEC), L.var('next_subs', t=VEC), L.var('next_parameters', t=PV)
        part = L.var('partition', t=('param',))
        i = z3.Int('i')
        n = ln(A)
        f = X.a(0)
        inr = And(0 <= i, i < n)
        return grow(X) + cvalid(X, X.a1(4).f['cache_'], False) + [('as many subs and parameters as primes', And(n >= 0, ln(Bs) == n, ln(W) == n)),
            ('primes', FA([i], Implies(inr, And(S(m.mem, at(A, i)), at(A, i) > 0, T.vt(at(A, i)) == T.vleft(T.vt(f)), NormP(at(A, i)))), [at(A, i)])),
            ('subs', FA([i], Implies(inr, And(S(m.mem, at(Bs, i)), at(Bs, i) > 0, T.vt(at(Bs, i)) == T.vright(T.vt(f)), NormP(at(Bs, i)))), [at(Bs, i)])),
            ('parameters', FA([i], Implies(inr, at(W, i) > 0), [at(W, i)])),
            ('partition', And(part == ASum(W.f['arr'], n), Or(n == 0, part > 0), part >= 0)),
            ('products so far', ASum(El(A.f['arr'], Bs.f['arr'], W.f['arr']), n) == total)]
    def outer(L, X):
        return facts(L, X, Prod(X.a(0), X.a(1), L.k, iv(0)))
    def inner(L, X):
        return facts(L, X, Prod(X.a(0), X.a(1), L.outer[-1].k, L.k))
    def norm(L, X):
        W, W0 = L.var('next_parameters', t=PV), L.var('next_parameters', t=PV, entry=True)
        part = L.var('partition', t=('param',))
        i = z3.Int('i')
        A, Bs = L.var('next_primes', t=VEC), L.var('next_subs', t=VEC)
        n = ln(W)
        sc = lambda a, b: Implies(L.k == n, Scal(a, b, part, n))
        return [('normalised', sc(W.f['arr'], W0.f['arr'])), ('summands', sc(El(A.f['arr'], Bs.f['arr'], W.f['arr']), El(A.f['arr'], Bs.f['arr'], W0.f['arr']))), ('normalised so far', And(ln(W) == ln(W0), FA([i], Implies(And(0 <= i, i < ln(W)), And(at(W, i) > 0, If(i < L.k, pm(at(W, i), part) == at(W0, i), at(W, i) == at(W0, i)))), [at(W, i), at(W0, i)])))]
    return Contract('MultiplyWithCache', requires=req, ensures=ens, modifies=MODS + [('arg', 4)], loops={'0': outer, '0.0': inner, '1': norm})
def c_multiply():
    def req(X):
        T, m = X.theory, M(X, True)
        u = z3.Int('u')
        both = And(X.a(0) != 0, X.a(1) != 0)
        n = m.leaf.f['size']
        return minv(X, True) + [(l, Implies(both, f)) for l, f in operands(X, X.a(0), X.a(1))] + [
            ('positions of the vtree (libsdd)', And(n >= 1, FA([u], Implies(Anc(m.vtree, u), And(0 <= T.vpos(u), T.vpos(u) < 2 * n - 1)), [T.vpos(u)])))]
    def ens(X):
        T, m = X.theory, M(X, False)
        r, w = X.res.f['first'], X.res.f['second']
        return grow(X) + [('the product with false is false', Implies(Or(X.a(0) == 0, X.a(1) == 0), And(r == 0, w == 0))),
                          ('the product', Implies(And(X.a(0) != 0, X.a(1) != 0), product(T, m.mem, X.a(0), X.a(1), r, w)))]
    return Contract('PsddManager::Multiply', requires=req, ensures=ens, modifies=MODS)

# ------------------------------------------- a normalised node is not zero
Pos = fn('PositiveAssignment', I, A_IB)
PosW = fn('PositiveElement', I, I)
def ax_pos(T):
    n, i, v = n_, i_, z3.Int('v')
    w = PosW(n)
    return [FA([n], Implies(T.dt(n) == 1, S(Pos(n), T.var(n)) == (T.lit(n) > 0)), [Pos(n)]),
            FA([n], Implies(T.dt(n) == 3, S(Pos(n), T.tv(n)) == (T.tpar(n) > 0)), [Pos(n)]),
            FA([n, v], Implies(T.dt(n) == 2, S(Pos(n), v) == If(InS(T.vleft(T.vt(n)), v), S(Pos(T.prime(n, w)), v), S(Pos(T.sub(n, w)), v))), [S(Pos(n), v)]),
            FA([n, i], Implies(And(T.dt(n) == 2, 0 <= i, i < T.np(n), T.par(n, i) > 0), And(0 <= w, w < T.np(n), T.par(n, w) > 0)), [T.par(n, i)])]
def lem_pos(T):
    n, k = z3.Int('n0'), z3.Int('k0')
    w = PosW(n)
    ok = And(0 <= w, w < T.np(n), T.par(n, w) > 0)
    dec = And(T.wf(n), T.dt(n) == 2, NormP(n))
    T.lemmas.append(Lemma('some parameter is positive', FA([n], Implies(dec, ok), [NormP(n)]),
        [('none', [], Implies(ASum(T.paA(n), iv(0)) > 0, ok)),
         ('step', [dec, 0 <= k, k < T.np(n), Implies(ASum(T.paA(n), k) > 0, ok)] + touch(T.par(n, k)), Implies(ASum(T.paA(n), k + 1) > 0, ok)),
         ('all', [dec, Implies(ASum(T.paA(n), T.np(n)) > 0, ok)], ok)]))
    def hints(n):
        w = PosW(n)
        p, s, e = T.prime(n, w), T.sub(n, w), Pos(n)
        ag = lambda k: And(AgreeOn(T.vt(k), e, Pos(k)) == AgreeOn(T.vt(k), e, Pos(k)), *touch(V(ALLV, e, k), V(ALLV, Pos(k), k)))
        return [Implies(T.dt(n) == 2, And(ag(p), ag(s), *touch(T.vt(p), T.vt(s), T.par(n, w))))] + [NormP(n)]
    T.lemmas.append(node_lemma(T, 'a normalised node is positive somewhere', [], lambda n: V(ALLV, Pos(n), n) > 0, guard=NormP, pats=lambda n: [V(ALLV, Pos(n), n)], hyps=hints))
    return []
def thp():
    from . import sampling as SA
    return theory(ax_touch, ax_V, ax_scope, lem_scope, ax_agreeon, SA.lem_value, ax_sum, ax_norm, ax_pos, lem_pos)
def thm(*more):
    return ths(ax_norm, ax_scal, lem_scal, ax_prod, lem_prod, *more)
UNITS = [
    (['C09'], lambda: Unit('product lemmas', list(MG), MFILT, thm, [])),
    (['C09', 'C22'], lambda: Unit('product cache', list(MG), MFILT, th, [Target(c_equal()), Target(c_lookup()), Target(c_update())])),
    (['C09', 'C22'], lambda: Unit('product', list(MG), MFILT, thm, [Target(c_mwc())], [c_lookup(), c_update(), c_literal(), c_top(), c_conform()])),
    (['C09', 'C22'], lambda: Unit('multiply', list(MG), MFILT, thm, [Target(c_multiply())], [c_mwc()])),
    (['C09'], lambda: Unit('positivity', list(MG), MFILT, thp, [])),
]
