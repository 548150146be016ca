"""Drawing assignments (C13)."""
from .core import *
from . import node_util as NU
from .marginals import Norm, PS

PN, FILT = NU.PN, NU.FILT

def ax_norm(T):
    n, i = n_, i_
    return [FA([n], Implies(T.dt(n) == 3, Norm(n) == (T.tpar(n) + T.fpar(n) == 1)), [Norm(n)]),
            FA([n, i], Implies(And(Norm(n), T.dt(n) == 2, 0 <= i, i < T.np(n)), And(Norm(T.prime(n, i)), Norm(T.sub(n, i)))), [(Norm(n), T.prime(n, i)), (Norm(n), T.sub(n, i))]),
            FA([n], Implies(And(Norm(n), T.dt(n) == 2), PS(n, T.np(n)) == 1), [Norm(n)]),
            FA([n], PS(n, 0) == 0, [PS(n, 0)]),
            FA([n, i], Implies(And(0 <= i, i < T.np(n)), PS(n, i + 1) == PS(n, i) + T.par(n, i)), [(PS(n, i), T.prime(n, i)), (PS(n, i), T.par(n, i))])]
def lem_value(T):
    """the value of a full assignment depends on the scope only; it is not
    negative and at least the contribution of any element"""
    x, y = x_, y_
    n, i, j = z3.Int('n0'), z3.Int('i0'), j_
    u = z3.Int('u')
    T.lemmas.append(Lemma('agreement on a scope is agreement on its parts',
        FA([u, x, y], Implies(And(Not(T.vleaf(u)), AgreeOn(u, x, y)), And(AgreeOn(T.vleft(u), x, y), AgreeOn(T.vright(u), x, y))), [(AgreeOn(u, x, y), T.vleft(u)), (AgreeOn(u, x, y), T.vright(u))]),
        [('left', [Not(T.vleaf(u)), AgreeOn(u, x, y)], AgreeOn(T.vleft(u), x, y)), ('right', [Not(T.vleaf(u)), AgreeOn(u, x, y)], AgreeOn(T.vright(u), x, y))]))
    T.lemmas.append(node_lemma(T, 'the value depends on the scope only', [x, y], lambda n: Implies(AgreeOn(T.vt(n), x, y), V(ALLV, x, n) == V(ALLV, y, n)),
        Q=lambda n, i: Implies(AgreeOn(T.vt(n), x, y), VS(ALLV, x, n, i) == VS(ALLV, y, n, i)),
        pats=lambda n: [(V(ALLV, x, n), V(ALLV, y, n))], hyps=lambda n: touch(V(ALLV, x, n), V(ALLV, y, n)), inst=lambda n, i: touch(V(ALLV, x, T.prime(n, i)), V(ALLV, y, T.prime(n, i)), V(ALLV, x, T.sub(n, i)), V(ALLV, y, T.sub(n, i)), T.vleft(T.vt(n)), T.vright(T.vt(n)))))
    T.lemmas.append(node_lemma(T, 'values are not negative', [x], lambda n: V(ALLV, x, n) >= 0, Q=lambda n, i: VS(ALLV, x, n, i) >= 0, pats=lambda n: [V(ALLV, x, n)],
        inst=lambda n, i: touch(V(ALLV, x, T.prime(n, i)), V(ALLV, x, T.sub(n, i)))))
    el = lambda j: pm(pm(V(ALLV, x, T.prime(n, j)), V(ALLV, x, T.sub(n, j))), T.par(n, j))
    inr = And(T.wf(n), T.dt(n) == 2, 0 <= j, j < T.np(n))
    t = lambda i: touch(V(ALLV, x, T.prime(n, i)), V(ALLV, x, T.sub(n, i)), T.par(n, i))
    T.lemmas.append(Lemma('a value is at least the contribution of one element', FA([n, j, x], Implies(inr, V(ALLV, x, n) >= el(j)), [(V(ALLV, x, n), V(ALLV, x, T.prime(n, j)))]),
        [('contributions are not negative', [inr] + t(j), el(j) >= 0),
         ('at', [inr, VS(ALLV, x, n, j) >= 0] + t(j), VS(ALLV, x, n, j + 1) >= el(j)),
         ('after', [inr, j < i, i < T.np(n), VS(ALLV, x, n, i) >= el(j)] + t(i) + t(j), VS(ALLV, x, n, i + 1) >= el(j)),
         ('before', [inr, 0 <= i, i < T.np(n), VS(ALLV, x, n, i) >= 0] + t(i), VS(ALLV, x, n, i + 1) >= 0),
         ('whole', [inr, VS(ALLV, x, n, T.np(n)) >= el(j)] + touch(V(ALLV, x, n)), V(ALLV, x, n) >= el(j))]))
    a, b, c = z3.Reals('a b c')
    T.lemmas.append(Lemma('products of positive numbers', FA([a, b, c], Implies(And(a > 0, b > 0, c > 0), pm(pm(a, b), c) > 0), [pm(pm(a, b), c)]), [('product', [a > 0, b > 0, c > 0, a * b > 0], pm(pm(a, b), c) > 0), ('factor', [a > 0, b > 0], a * b > 0)]))
    return []

def uniform(X, k):
    T, g = X.theory, X.args[1]
    return (T.draw(k) - T.umin(g)) / (T.umax(g) - T.umin(g))

def c_sample():
    def requires(X):
        T, n = X.theory, X.this
        v = z3.Int('v')
        return [('a node', T.wf(n)), ('normalised', Norm(n)), ('the generator has a range', And(X.args[1] > 0, T.umin(X.args[1]) < T.umax(X.args[1]))),
                ('its variables are unset', FA([v], Implies(InS(T.vt(n), v), Not(S(X.a(0), v))), [S(X.a(0), v), InS(T.vt(n), v)]))]
    def chosen(X, n, i):
        T = X.theory
        u = uniform(X, X.og('draws'))
        return And(0 <= i, i < T.np(n), PS(n, i) <= u, u < PS(n, i + 1), V(ALLV, X.a1(0), T.prime(n, i)) > 0, V(ALLV, X.a1(0), T.sub(n, i)) > 0)
    def ensures(X):
        T, n = X.theory, X.this
        v, i = z3.Ints('v i')
        x, y = X.a(0), X.a1(0)
        u = uniform(X, X.og('draws'))
        return [('other variables keep their values', FA([v], Implies(Not(InS(T.vt(n), v)), S(y, v) == S(x, v)), [S(y, v)])),
                ('the assignment has positive probability', V(ALLV, y, n) > 0),
                ('draws advance', X.g('draws') >= X.og('draws')),
                ('a true node is set exactly below its parameter', Implies(T.dt(n) == 3, S(y, T.tv(n)) == (u < T.tpar(n)))),
                ('the branch taken spans the draw', Implies(T.dt(n) == 2, z3.Exists([i], chosen(X, n, i))))]
    def pick(L, X):
        T, n = X.theory, X.this
        e = z3.Int('e')
        u = uniform(X, X.og('draws'))
        sel, acc = L.var('selected'), L.var('acc', t=('param',))
        return [('sum so far', And(acc == PS(n, L.k), u >= acc, acc >= 0)),
                ('the last positive parameter', Or(And(sel == T.np(n), FA([e], Implies(And(0 <= e, e < L.k), T.par(n, e) == 0), [T.par(n, e)])), And(0 <= sel, sel < L.k)))]
    return Contract('PsddNode::DirectSample', requires=requires, ensures=ensures, modifies=[('arg', 0), ('ghost', 'draws')], loops={'0': pick})
def one(cls):
    c = c_sample()
    if cls != 'PsddDecisionNode':
        c.loops = {}
    return Target(c, this_dtype=cls, func=lambda P: P.funcs.get(cls + '::DirectSample', []))
def th():
    T = theory(ax_touch, ax_V, ax_scope, lem_scope, ax_agreeon, ax_norm, lem_value)
    T.ghosts = {'draws': I}
    return T
UNITS = [
    (['C13', 'C22'], lambda: Unit('direct sample', list(PN), FILT, th, [one('PsddLiteralNode'), one('PsddTopNode'), one('PsddDecisionNode')])),
]
