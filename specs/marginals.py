"""Marginals (C08)."""
from .core import *
from . import node_util as NU
from . import serialize as SE

PN, FILT = NU.PN, NU.FILT
UD = NU.UDATA
# an arbitrary variable, its mask, and an arbitrary assignment
V0 = z3.Int('AnyVariable')
M1 = z3.Const('MaskOfVariable', A_IB)
XT, XF = z3.Consts('VariableTrue VariableFalse', A_IB)
Norm = fn('Normalised', I, B)          # local parameters sum to one, hereditarily
PS = fn('ParamSum', I, I, R)
Wt = fn('WeightInScope', A_IB, I, R)   # value on the single-variable evidence when the variable is in the scope, else 0
Rest = fn('RemainingElements', A_IB, I, I, R, R)
SUM = fn('WeightedSum', A_IB, A_IR, A_II, I, I, R)
D_ = z3.Const('D', A_IR)
A_ = z3.Const('A', A_II)
k_, l_ = z3.Ints('k l')
z_ = z3.Real('z')

def ax_marg(T):
    n, i, x, v = n_, i_, x_, v_
    return [FA([v], S(M1, v) == (v == V0), [S(M1, v)]), S(XT, V0), Not(S(XF, V0)),
            FA([n], Implies(T.dt(n) == 3, Norm(n) == (T.tpar(n) + T.fpar(n) == 1)), [Norm(n)]),
            FA([n, i], Implies(And(Norm(n), T.dt(n) == 2, 0 <= i, i < T.np(n)), And(Norm(T.prime(n, i)), Norm(T.sub(n, i)))), [(Norm(n), T.prime(n, i)), (Norm(n), T.sub(n, i))]),
            FA([n], Implies(And(Norm(n), T.dt(n) == 2), PS(n, T.np(n)) == 1), [Norm(n)]),
            FA([n], PS(n, 0) == 0, [PS(n, 0)]),
            FA([n, i], Implies(And(0 <= i, i < T.np(n)), PS(n, i + 1) == PS(n, i) + T.par(n, i)), [(PS(n, i), T.prime(n, i))]),
            FA([x, n], Wt(x, n) == If(InS(T.vt(n), V0), V(M1, x, n), rv(0)), [Wt(x, n)]),
            FA([x, n, i, z_], Rest(x, n, i, z_) == If(InS(T.vt(n), V0), z_ * (V(M1, x, n) - VS(M1, x, n, i)), rv(0)), [Rest(x, n, i, z_)]),
            FA([x, D_, A_, k_, l_], SUM(x, D_, A_, k_, l_) == If(k_ >= l_, rv(0), pm(S(D_, k_), Wt(x, S(A_, k_))) + SUM(x, D_, A_, k_ + 1, l_)), [(SUM(x, D_, A_, k_, l_), Touch(k_))])]

def lem_marg(T):
    n, i, x, j = n_, i_, x_, j_
    upd = z3.Store(D_, j, z_)
    t = touch(k_)
    base = lambda D, k: SUM(x, D, A_, k, l_)
    T.lemmas.append(Lemma('sums ignore earlier entries', FA([x, D_, A_, k_, l_, j, z_], Implies(j < k_, base(upd, k_) == base(D_, k_)), [base(upd, k_)]),
        [('end', t + [j < k_, k_ >= l_], base(upd, k_) == base(D_, k_)),
         ('step', t + [j < k_, k_ < l_, base(upd, k_ + 1) == base(D_, k_ + 1)], base(upd, k_) == base(D_, k_))]))
    g = lambda k: base(upd, k) == base(D_, k) + pm(z_ - S(D_, j), Wt(x, S(A_, j)))
    T.lemmas.append(Lemma('an update changes a sum by one term', FA([x, D_, A_, k_, l_, j, z_], Implies(And(k_ <= j, j < l_), g(k_)), [base(upd, k_)]),
        [('at', t + [k_ == j, j < l_, base(upd, k_ + 1) == base(D_, k_ + 1)], g(k_)),
         ('before', t + [k_ < j, j < l_, g(k_ + 1)], g(k_))]))
    zero = z3.K(I, rv(0))
    T.lemmas.append(Lemma('sums of nothing', FA([x, A_, k_, l_], SUM(x, zero, A_, k_, l_) == 0, [SUM(x, zero, A_, k_, l_)]),
        [('end', t + [k_ >= l_], SUM(x, zero, A_, k_, l_) == 0), ('step', t + [k_ < l_, SUM(x, zero, A_, k_ + 1, l_) == 0], SUM(x, zero, A_, k_, l_) == 0)]))
    a, b, c = z3.Reals('a b c')
    T.lemmas.append(Lemma('products with one', FA([a], And(pm(a, rv(1)) == a, pm(rv(1), a) == a), [pm(a, rv(1)), pm(rv(1), a)]), [('unit', [], And(pm(a, rv(1)) == a, pm(rv(1), a) == a))]))
    T.lemmas.append(Lemma('shares of one', FA([a, b, c], Implies(a + b == 1, pm(a, c) + pm(b, c) == c), [(pm(a, c), pm(b, c))]), [('share', [a + b == 1], pm(a, c) + pm(b, c) == c)]))
    T.lemmas.append(node_lemma(T, 'values outside the evidence are one', [x], lambda n: Implies(Not(InS(T.vt(n), V0)), V(M1, x, n) == 1),
        Q=lambda n, i: Implies(Not(InS(T.vt(n), V0)), VS(M1, x, n, i) == PS(n, i)),
        guard=Norm, pats=lambda n: [V(M1, x, n)], hyps=lambda n: [InS(T.vleft(T.vt(n)), V0) == InS(T.vleft(T.vt(n)), V0)]))
    T.lemmas.append(node_lemma(T, 'true and false values sum to one', [], lambda n: Implies(InS(T.vt(n), V0), V(M1, XT, n) + V(M1, XF, n) == 1),
        Q=lambda n, i: Implies(InS(T.vt(n), V0), VS(M1, XT, n, i) + VS(M1, XF, n, i) == PS(n, i)),
        guard=Norm, pats=lambda n: [V(M1, XT, n), V(M1, XF, n)],
        inst=lambda n, i: touch(V(M1, XT, T.prime(n, i)), V(M1, XT, T.sub(n, i)), V(M1, XF, T.prime(n, i)), V(M1, XF, T.sub(n, i)))))
    inr = And(T.wf(n), Norm(n), T.dt(n) == 2, 0 <= i, i < T.np(n))
    p, q, e = T.prime(n, i), T.sub(n, i), T.par(n, i)
    W = lambda k: pm(pm(c, e), Wt(x, k))
    less = Rest(x, n, i + 1, c) == Rest(x, n, i, c) - W(p) - W(q)
    T.lemmas.append(Lemma('an element passes its share on', FA([x, n, i, c], Implies(inr, less), [Rest(x, n, i + 1, c), (Rest(x, n, i, c), T.prime(n, i))]),
        [('left', [inr, InS(T.vleft(T.vt(n)), V0), V(M1, x, q) == 1], less), ('right', [inr, InS(T.vright(T.vt(n)), V0), V(M1, x, p) == 1], less),
         ('outside', [inr, Not(InS(T.vt(n), V0))], less), ('sub is one', [inr, InS(T.vleft(T.vt(n)), V0)] + touch(V(M1, x, q)), V(M1, x, q) == 1), ('prime is one', [inr, InS(T.vright(T.vt(n)), V0)] + touch(V(M1, x, p)), V(M1, x, p) == 1),
         ('cases', [inr], Or(Not(InS(T.vt(n), V0)), InS(T.vleft(T.vt(n)), V0), InS(T.vright(T.vt(n)), V0)))]))
    T.lemmas.append(Lemma('all elements together', FA([x, n, c], Implies(And(T.wf(n), T.dt(n) == 2), And(Rest(x, n, T.np(n), c) == 0, Rest(x, n, 0, c) == pm(c, Wt(x, n)))), [Rest(x, n, T.np(n), c), Rest(x, n, 0, c)]),
        [('all', [T.wf(n), T.dt(n) == 2] + touch(V(M1, x, n)), And(Rest(x, n, T.np(n), c) == 0, Rest(x, n, 0, c) == pm(c, Wt(x, n))))]))
    return []

def c_marginals():
    MT = ('map', ('int',), ('pair', ('param',), ('param',)))
    DT = ('vec', ('param',))
    def acc(mp, which):
        return If(S(mp.f['dom'], V0), S(mp.f['val'].f[which], V0), rv(0))
    def mark(L, X):
        s, u, u0 = X.a(0), X.h(*UD), X.oh(*UD)
        r = z3.Int('r')
        return [('numbered so far', FA([r], S(u, r) == If(And(member(s, r), ix(s, r) < L.k), ix(s, r), S(u0, r)), [S(u, r)])),
                ('index', L.var('index') == L.k)]
    def facts(L, X, k, rest):
        T, s = X.theory, X.a(0)
        mp, d = L.var('marginals', t=MT), L.var('derivatives', t=DT)
        out = [('one derivative per node', ln(d) == ln(s)), ('hint', And(*touch(k)))]
        for x, w in ((XT, 'second'), (XF, 'first')):
            out.append(('mass of the variable, %s' % w, Implies(InS(T.vt(at(s, 0)), V0), acc(mp, w) + SUM(x, d.f['arr'], s.f['arr'], k, ln(s)) + rest(x) == V(M1, x, at(s, 0)))))
        return out
    def outer(L, X):
        return facts(L, X, L.k, lambda x: rv(0))
    def inner(L, X):
        T, s = X.theory, X.a(0)
        o = L.outer[-1]
        n = at(s, o.k)
        d = L.var('derivatives', t=DT)
        c = S(d.f['arr'], o.k)
        out = facts(L, X, o.k + 1, lambda x: Rest(x, n, L.k, c))
        d0 = L.var('derivatives', t=DT, entry=True)
        out += [('own derivative', S(d.f['arr'], o.k) == S(d0.f['arr'], o.k)), ('hint', And(Wt(XT, n) == Wt(XT, n), *touch(T.prime(n, L.k), T.sub(n, L.k))))]
        return out
    def clean(L, X):
        s, u = X.a(0), X.h(*UD)
        r = z3.Int('r')
        return [('cleared so far', FA([r], S(u, r) == If(And(member(s, r), ix(s, r) < L.k), iv(0), S(L.entry.heap[UD], r)), [S(u, r)]))]
    def final(L, X):
        mp = L.var('marginals', t=MT)
        m0 = L.var('marginals', t=MT, entry=True)
        return [('the two sum to one', Implies(InS(X.theory.vt(at(X.a(0), 0)), V0), And(S(m0.f['dom'], V0), S(m0.f['val'].f['first'], V0) + S(m0.f['val'].f['second'], V0) == 1))), ('the variable keeps its marginals', And(S(mp.f['dom'], V0) == S(m0.f['dom'], V0), Implies(InS(X.theory.vt(at(X.a(0), 0)), V0), And(S(mp.f['val'].f['first'], V0) == S(m0.f['val'].f['first'], V0), S(mp.f['val'].f['second'], V0) == S(m0.f['val'].f['second'], V0)))))]
    def ens(X):
        T, s, u, u0 = X.theory, X.a(0), X.h(*UD), X.oh(*UD)
        v = X.res.f['val']
        ok = InS(T.vt(at(s, 0)), V0)
        return [('every variable of the PSDD is reported', Implies(ok, S(X.res.f['dom'], V0))),
                ('probability of true', Implies(ok, S(v.f['second'], V0) == V(M1, XT, at(s, 0)))),
                ('probability of false', Implies(ok, S(v.f['first'], V0) == V(M1, XF, at(s, 0)))),
                ('the two sum to one', Implies(ok, S(v.f['first'], V0) + S(v.f['second'], V0) == 1)),
                ('no cached value is left', heap_forall(lambda r: S(u, r) == If(member(s, r), iv(0), S(u0, r)), lambda r: S(u, r)))]
    return Contract('psdd_node_util::GetMarginals', ptypes=[VEC], requires=lambda X: X.theory.ser(X.a(0)) + [('normalised', Norm(at(X.a(0), 0)))] + norm_all(X),
                    ensures=ens, modifies=[UD], loops={'0': mark, '1': outer, '1.0': inner, '2': clean, '3': final})
def norm_all(X):
    s, j = X.a(0), z3.Int('j')
    return [('all nodes normalised', FA([j], Implies(And(0 <= j, j < ln(s)), Norm(at(s, j))), [at(s, j)]))]

PARTS = [ax_touch, ax_V, ax_scope, lem_scope, ax_marg, lem_marg]
UNITS = [
    (['C08', 'C22', 'C23'], lambda: Unit('marginals', list(PN), FILT, lambda: theory(*PARTS), [Target(c_marginals())], opts={'allow_div0': True})),
]
