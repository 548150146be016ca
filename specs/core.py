"""Specification functions over PSDD structures (uninterpreted, with defining
axioms) shared by the contracts.

m is a set of variables (bitset), x an assignment (bitset), n a node.
  V(m,x,n)   value of node n when the variables of m are set as in x and the
             others are summed out (the probability of the evidence)
  C(m,x,n)   n has an element/literal compatible with x on m (support)
  MC(n)      number of supported assignments
  MP(n)      maximal probability of an assignment
"""
from cppvc.theory import *
from cppvc.theory import Lemma
from cppvc.sym import Contract
from vlib.proof import Unit, Target

S = z3.Select
NODE = ('ptr', ('cls', 'PsddNode'))
DECN = ('ptr', ('cls', 'PsddDecisionNode'))
VEC = ('vec', NODE)
VT = ('ptr', ('cls', 'Vtree'))
FLAG = ('PsddNode', 'activation_flag_')
UDATA = ('PsddNode', 'user_data_')
rv = z3.RealVal
pm = Theory.pm
iv = z3.IntVal

V = fn('V', A_IB, A_IB, I, R)
VS = fn('VS', A_IB, A_IB, I, I, R)
C = fn('Cons', A_IB, A_IB, I, B)
Cw = fn('ConsWitness', A_IB, A_IB, I, I)
MC = fn('MC', I, I)
MCS = fn('MCS', I, I, I)
MP = fn('MP', I, R)

m_, x_, y_ = z3.Consts('m x y', A_IB)
n_, i_, j_, e_, r_, v_, s_ = z3.Ints('n i j e r v s')

def ax_V(T):
    m, x, n, i = m_, x_, n_, i_
    return [
        FA([m, x, n], Implies(T.dt(n) == 1, V(m, x, n) == If(And(S(m, T.var(n)), S(x, T.var(n)) != (T.lit(n) > 0)), rv(0), rv(1))), [V(m, x, n)]),
        FA([m, x, n], Implies(T.dt(n) == 3, V(m, x, n) == If(S(m, T.tv(n)), If(S(x, T.tv(n)), T.tpar(n), T.fpar(n)), rv(1))), [V(m, x, n)]),
        FA([m, x, n], Implies(T.dt(n) == 2, And(V(m, x, n) == VS(m, x, n, T.np(n)), VS(m, x, n, 0) == 0)), [V(m, x, n)]),
        FA([m, x, n, i], Implies(And(0 <= i, i < T.np(n)), VS(m, x, n, i + 1) == VS(m, x, n, i) + pm(pm(V(m, x, T.prime(n, i)), V(m, x, T.sub(n, i))), T.par(n, i))), [(VS(m, x, n, i), T.prime(n, i))]),
    ]

def ax_C(T):
    m, x, n, i = m_, x_, n_, i_
    w = Cw(m, x, n)
    return [
        FA([m, x, n], Implies(T.dt(n) == 1, C(m, x, n) == Or(Not(S(m, T.var(n))), S(x, T.var(n)) == (T.lit(n) > 0))), [C(m, x, n)]),
        FA([m, x, n], Implies(T.dt(n) == 3, C(m, x, n)), [C(m, x, n)]),
        FA([m, x, n], Implies(And(T.dt(n) == 2, C(m, x, n)), And(0 <= w, w < T.np(n), C(m, x, T.prime(n, w)), C(m, x, T.sub(n, w)))), [C(m, x, n)]),
        FA([m, x, n, i], Implies(And(T.dt(n) == 2, 0 <= i, i < T.np(n), C(m, x, T.prime(n, i)), C(m, x, T.sub(n, i))), C(m, x, n)), [(C(m, x, n), T.prime(n, i)), (C(m, x, n), T.sub(n, i))]),
    ]

def ax_MC(T):
    n, i = n_, i_
    return [
        FA([n], Implies(T.dt(n) == 1, MC(n) == 1), [MC(n)]),
        FA([n], Implies(T.dt(n) == 3, MC(n) == 2), [MC(n)]),
        FA([n], Implies(T.dt(n) == 2, And(MC(n) == MCS(n, T.np(n)), MCS(n, 0) == 0)), [MC(n)]),
        FA([n, i], Implies(And(0 <= i, i < T.np(n)), MCS(n, i + 1) == MCS(n, i) + MC(T.prime(n, i)) * MC(T.sub(n, i))), [(MCS(n, i), T.prime(n, i))]),
    ]

InS = fn('InScope', I, I, B)       # InS(v, var): var is the label of a leaf under v
def ax_scope(T):
    v, x = v_, z3.Int('x')
    return [
        FA([v, x], Implies(T.vleaf(v), InS(v, x) == (x == T.vvar(v))), [InS(v, x)]),
        FA([v, x], Implies(Not(T.vleaf(v)), And(InS(v, x) == Or(InS(T.vleft(v), x), InS(T.vright(v), x)),
                                               Not(And(InS(T.vleft(v), x), InS(T.vright(v), x))))), [InS(v, x)]),
        FA([v, x], Implies(And(Not(T.vleaf(v)), InS(T.vleft(v), x)), InS(v, x)), [(InS(T.vleft(v), x))]),
        FA([v, x], Implies(And(Not(T.vleaf(v)), InS(T.vright(v), x)), InS(v, x)), [(InS(T.vright(v), x))]),
    ]

def lem_scope(T):
    n = n_
    nv = If(T.dt(n) == 1, If(T.lit(n) > 0, T.lit(n), -T.lit(n)), T.tv(n))
    f = Implies(And(T.wf(n), T.dt(n) != 2), InS(T.vt(n), nv))
    T.lemmas.append(Lemma('leaves are in their scope', FA([n], f, [T.wf(n)]), [('leaf', [], f)]))
    return []

MPw = fn('MPWitness', I, I)
PR = fn('ElementProduct', I, I, R)   # MP(prime)*MP(sub)*parameter of an element
Opt = fn('Optimal', A_IB, I, B)      # the assignment follows maximal elements below n
OptW = fn('OptimalWitness', A_IB, I, I)
Det = fn('Deterministic', I, B)      # hereditarily, primes exclude one another
ALLV = z3.K(I, z3.BoolVal(True))
def ax_MP(T):
    n, i, y = n_, i_, y_
    opt = lambda y, n, i: And(0 <= i, i < T.np(n), Opt(y, T.prime(n, i)), Opt(y, T.sub(n, i)), PR(n, i) == MP(n))
    return [
        FA([n], Implies(T.dt(n) == 1, MP(n) == 1), [MP(n)]),
        FA([n], Implies(T.dt(n) == 3, MP(n) == If(T.tpar(n) > T.fpar(n), T.tpar(n), T.fpar(n))), [MP(n)]),
        FA([n, i], PR(n, i) == pm(pm(MP(T.prime(n, i)), MP(T.sub(n, i))), T.par(n, i)), [PR(n, i)]),
        FA([n, i], Implies(And(T.dt(n) == 2, 0 <= i, i < T.np(n)), PR(n, i) <= MP(n)), [(MP(n), PR(n, i))]),
        FA([n], Implies(And(T.dt(n) == 2, T.wf(n)), And(0 <= MPw(n), MPw(n) < T.np(n), MP(n) == PR(n, MPw(n)))), [MP(n)]),
        FA([y, n], Implies(T.dt(n) == 1, Opt(y, n) == (S(y, T.var(n)) == (T.lit(n) > 0))), [Opt(y, n)]),
        FA([y, n], Implies(T.dt(n) == 3, Opt(y, n) == (If(S(y, T.tv(n)), T.tpar(n), T.fpar(n)) == MP(n))), [Opt(y, n)]),
        FA([y, n, i], Implies(And(T.dt(n) == 2, opt(y, n, i)), Opt(y, n)), [(Opt(y, n), T.prime(n, i))]),
        FA([y, n], Implies(And(T.dt(n) == 2, Opt(y, n)), opt(y, n, OptW(y, n))), [Opt(y, n)]),
    ]
def lem_MP(T):
    n = z3.Int('n0')
    i = z3.Int('i0')
    T.lemmas.append(node_lemma(T, 'maximal probabilities are not negative', [], lambda n: MP(n) >= 0, pats=lambda n: [MP(n)],
                               hyps=lambda n: []))
    T.lemmas.append(Lemma('element products are not negative', FA([n, i], Implies(And(T.wf(n), T.dt(n) == 2, 0 <= i, i < T.np(n)), PR(n, i) >= 0), [PR(n, i)]),
        [('product', [T.wf(n), T.dt(n) == 2, 0 <= i, i < T.np(n), MP(T.prime(n, i)) >= 0, MP(T.sub(n, i)) >= 0], PR(n, i) >= 0),
         ('prime', [T.wf(n), T.dt(n) == 2, 0 <= i, i < T.np(n)], MP(T.prime(n, i)) >= 0),
         ('sub', [T.wf(n), T.dt(n) == 2, 0 <= i, i < T.np(n)], MP(T.sub(n, i)) >= 0)]))
    return []

def ax_Det(T):
    n, i, j, x = n_, i_, j_, x_
    return [
        FA([n, i], Implies(And(Det(n), T.dt(n) == 2, 0 <= i, i < T.np(n)), And(Det(T.prime(n, i)), Det(T.sub(n, i)))), [(Det(n), T.prime(n, i)), (Det(n), T.sub(n, i))]),
        FA([n, i, j, x], Implies(And(Det(n), T.dt(n) == 2, 0 <= i, i < j, j < T.np(n)), Not(And(C(ALLV, x, T.prime(n, i)), C(ALLV, x, T.prime(n, j))))), [(Det(n), C(ALLV, x, T.prime(n, i)), C(ALLV, x, T.prime(n, j)))]),
    ]

def theory(*parts):
    T = PsddTheory()
    for p in parts:
        T.extra_axioms += p(T)
    return T

def at(v, i):
    return S(v.f['arr'], i)
def ix(v, n):
    return S(v.f['ix'], n)
def ln(v):
    return v.f['len']
def member(s, r):
    """r occurs in the serialised list s"""
    return And(0 <= ix(s, r), ix(s, r) < ln(s), at(s, ix(s, r)) == r)
def done_suffix(s, k, r):
    """r is among the last k elements of s"""
    return And(ln(s) - k <= ix(s, r), ix(s, r) < ln(s), at(s, ix(s, r)) == r)
def heap_forall(f, new, pats=None):
    r = z3.Int('r')
    return FA([r], f(r), pats or [new(r)])

# ------------------------------------------------------------------ induction
Touch = fn('Touch', I, B)         # uninterpreted, assumed of terms to make them available to triggers
TouchR = fn('TouchR', R, B)
def ax_touch(T):
    r = z3.Real('t')
    return [FA([n_], Touch(n_), [Touch(n_)]), FA([r], TouchR(r), [TouchR(r)])]
def touch(*ts):
    return [Touch(t) if t.sort() == I else TouchR(t) for t in ts]

def mono(a, b, c, d, p):
    return Implies(And(0 <= a, a <= c, 0 <= b, b <= d, p >= 0), And(a * b * p >= 0, a * b * p <= c * d * p))
def lem_mono(T):
    a, b, c, d, p = z3.Reals('a b c d p')
    h = [0 <= a, a <= c, 0 <= b, b <= d, p >= 0]
    T.lemmas.append(Lemma('products are monotone', z3.BoolVal(True),
        [('nonnegative', h + [a * b >= 0], a * b * p >= 0), ('nonnegative 2', h, a * b >= 0), ('first', h, a * b <= c * b), ('second', h, c * b <= c * d),
         ('third', h + [a * b <= c * d], (a * b) * p <= (c * d) * p)]))
    return []

def node_lemma(T, name, vs, P, Q=None, hyps=None, pats=None, guard=None, inst=None):
    """Lemma: for all vs and all well-formed n (with guard(n)): P(n), by
    induction over the node structure.  Q(n,i): invariant of the partial sums
    over the elements of a decision node (inner induction over i)."""
    n, i, k = z3.Ints('n0 i0 e')
    g = guard if guard is not None else (lambda n: z3.BoolVal(True))
    full = FA(list(vs) + [n_], Implies(And(T.wf(n_), g(n_)), P(n_)), pats(n_) if pats else None)
    base = [T.wf(n), g(n)] + (touch(*[t for t in pats(n) if not isinstance(t, tuple) and t.sort() in (I, R)]) if pats else [])
    ih = []          # for the same vs (constants in the obligations)
    for ch in (T.prime, T.sub):
        c = ch(n, k)
        ih.append(FA([k], Implies(And(0 <= k, k < T.np(n)), And(g(c), P(c))), [c]))
    kids = touch(T.prime(n, i), T.sub(n, i), T.par(n, i))
    if pats:
        for ch in (T.prime, T.sub):
            for t in pats(ch(n, i)):
                if not isinstance(t, tuple) and t.sort() in (I, R):
                    kids += touch(t)
    obls = []
    extra = hyps(n) if hyps else []
    if Q is None:
        obls.append(('decision', base + extra + [T.dt(n) == 2] + ih, P(n)))
    else:
        obls.append(('first', base + extra + [T.dt(n) == 2] + ih, Q(n, iv(0))))
        obls.append(('step', base + extra + [T.dt(n) == 2, 0 <= i, i < T.np(n), Q(n, i)] + ih + kids + (inst(n, i) if inst else []), Q(n, i + 1)))
        obls.append(('last', base + extra + [T.dt(n) == 2, Q(n, T.np(n))] + ih, P(n)))
    obls.append(('leaf', base + extra + [T.dt(n) != 2], P(n)))
    if guard is not None:
        obls.append(('guard is hereditary', base + [T.dt(n) == 2, 0 <= i, i < T.np(n)], And(g(T.prime(n, i)), g(T.sub(n, i)))))
    return Lemma(name, full, obls)

def lemmas(*fs):
    def part(T):
        for f in fs:
            T.lemmas.append(f(T))
        return []
    return part

def proved(lem, *names):
    """the conclusions of lemmas that another unit proves"""
    def part(T):
        T2 = T.__class__()
        lem(T2)
        by = {L.name: L.formula for L in T2.lemmas}
        return [by[n] for n in names]
    return part

# ------------------------------------------------- what support depends on
Agree = fn('Agree', A_IB, A_IB, A_IB, A_IB, B)   # two partial assignments (mask, values) are the same
AgreeW = fn('AgreeWitness', A_IB, A_IB, A_IB, A_IB, I)
def ax_agree(T):
    m, x, w, y = z3.Consts('m x w y', A_IB)
    v = z3.Int('v')
    d = AgreeW(m, x, w, y)
    same = lambda v: And(S(m, v) == S(w, v), Implies(S(m, v), S(x, v) == S(y, v)))
    return [FA([m, x, w, y, v], Implies(Agree(m, x, w, y), same(v)), [(Agree(m, x, w, y), S(m, v)), (Agree(m, x, w, y), S(w, v))]),
            FA([m, x, w, y], Implies(Not(Agree(m, x, w, y)), Not(same(d))), [Agree(m, x, w, y)])]
def lem_agree(T):
    m, x, w, y = z3.Consts('m x w y', A_IB)
    T.lemmas.append(node_lemma(T, 'support depends on the partial assignment only', [m, x, w, y], lambda n: Implies(Agree(m, x, w, y), C(m, x, n) == C(w, y, n)),
        hyps=lambda n: [S(m, T.var(n)) == S(m, T.var(n)), C(m, x, n) == C(m, x, n), C(w, y, n) == C(w, y, n)],
        pats=lambda n: [(C(m, x, n), C(w, y, n))]))
    return []

AgreeOn = fn('AgreeOn', I, A_IB, A_IB, B)      # two assignments are the same on the variables of a vtree node
AgreeOnW = fn('AgreeOnWitness', I, A_IB, A_IB, I)
def ax_agreeon(T):
    u, v = z3.Ints('u v')
    x, y = x_, y_
    w = AgreeOnW(u, x, y)
    return [FA([u, x, y, v], Implies(And(AgreeOn(u, x, y), InS(u, v)), S(x, v) == S(y, v)), [(AgreeOn(u, x, y), InS(u, v))]),
            FA([u, x, y], Implies(Not(AgreeOn(u, x, y)), And(InS(u, w), S(x, w) != S(y, w))), [AgreeOn(u, x, y)])]
def scope_hints(T, n):
    e = i_
    p, q = T.prime(n, e), T.sub(n, e)
    return []
def lem_agreeon(T):
    """a node's support depends on the variables of its vtree node only"""
    x, y = x_, y_
    u = z3.Int('u')
    T.lemmas.append(Lemma('agreement on a scope is agreement on its parts',
        FA([u, x, y], Implies(And(Not(T.vleaf(u)), AgreeOn(u, x, y)), And(AgreeOn(T.vleft(u), x, y), AgreeOn(T.vright(u), x, y))), [(AgreeOn(u, x, y), T.vleft(u)), (AgreeOn(u, x, y), T.vright(u))]),
        [('left', [Not(T.vleaf(u)), AgreeOn(u, x, y)], AgreeOn(T.vleft(u), x, y)), ('right', [Not(T.vleaf(u)), AgreeOn(u, x, y)], AgreeOn(T.vright(u), x, y))]))
    T.lemmas.append(node_lemma(T, 'support depends on the scope only', [x, y], lambda n: Implies(AgreeOn(T.vt(n), x, y), C(ALLV, x, n) == C(ALLV, y, n)),
        hyps=lambda n: [AgreeOn(T.vt(n), x, y) == AgreeOn(T.vt(n), x, y), T.vleft(T.vt(n)) == T.vleft(T.vt(n)), C(ALLV, x, n) == C(ALLV, x, n), C(ALLV, y, n) == C(ALLV, y, n)],
        pats=lambda n: [(C(ALLV, x, n), C(ALLV, y, n))]))
    return []

Ext = fn('Extension', A_IB, A_IB, I, A_IB)     # an assignment of the support that extends the partial assignment (m,x)
def ax_ext(T):
    m, x, n = m_, x_, n_
    v = z3.Int('v')
    e = Ext(m, x, n)
    w = Cw(m, x, n)
    return [FA([m, x, n], Implies(T.dt(n) == 1, S(e, T.var(n)) == (T.lit(n) > 0)), [e]),
            FA([m, x, n], Implies(T.dt(n) == 3, S(e, T.tv(n)) == S(x, T.tv(n))), [e]),
            FA([m, x, n, v], Implies(T.dt(n) == 2, S(e, v) == If(InS(T.vleft(T.vt(n)), v), S(Ext(m, x, T.prime(n, w)), v), S(Ext(m, x, T.sub(n, w)), v))), [S(e, v)])]
def lem_support(T):
    """C(m,x,n) holds exactly if some assignment that agrees with x on m is in the support of n"""
    m, x, y = m_, x_, y_
    v = z3.Int('v')
    P = lambda n: Implies(C(m, x, n), And(C(ALLV, Ext(m, x, n), n), FA([v], Implies(And(InS(T.vt(n), v), S(m, v)), S(Ext(m, x, n), v) == S(x, v)), [S(Ext(m, x, n), v)])))
    def hints(n):
        w = Cw(m, x, n)
        p, s, e = T.prime(n, w), T.sub(n, w), Ext(m, x, n)
        ag = lambda k: And(AgreeOn(T.vt(k), e, Ext(m, x, k)) == AgreeOn(T.vt(k), e, Ext(m, x, k)), C(ALLV, e, k) == C(ALLV, e, k))
        return [C(m, x, n) == C(m, x, n), C(ALLV, e, n) == C(ALLV, e, n), Implies(T.dt(n) == 2, And(ag(p), ag(s), T.vt(p) == T.vt(p), C(m, x, p) == C(m, x, p), C(m, x, s) == C(m, x, s)))]
    T.lemmas.append(node_lemma(T, 'a compatible partial assignment extends to the support', [m, x], P, hyps=hints, pats=lambda n: [C(m, x, n)]))
    sub = FA([v], Implies(S(m, v), S(x, v) == S(y, v)))
    T.lemmas.append(node_lemma(T, 'what the support contains is compatible', [m, x, y], lambda n: Implies(And(C(ALLV, y, n), sub), C(m, x, n)),
        hyps=lambda n: [C(m, x, n) == C(m, x, n), C(ALLV, y, n) == C(ALLV, y, n)],
        pats=lambda n: [(C(m, x, n), C(ALLV, y, n))]))
    return []
