"""Consistency queries on single nodes (C05)."""
from .core import *
from . import node_util as NU

PN, FILT = NU.PN, NU.FILT
EV = ('map', ('int',), ('bool',))

def c_virtual():
    def elems(L, X):
        T, e = X.theory, z3.Int('e')
        m, x, n = X.a(0).f['dom'], X.a(0).f['val'], X.this
        return [('no element so far is compatible', FA([e], Implies(And(0 <= e, e < L.k), Not(And(C(m, x, T.prime(n, e)), C(m, x, T.sub(n, e))))), [T.prime(n, e)]))]
    return Contract('PsddNode::IsConsistent', ptypes=[EV], nparams=1, requires=lambda X: [('a node', X.theory.wf(X.this))],
                    ensures=lambda X: [('decides compatibility', X.res == C(X.a(0).f['dom'], X.a(0).f['val'], X.this))],
                    loops={'0': elems})
def one(cls):
    c = c_virtual()
    if cls != 'PsddDecisionNode':
        c.loops = {}
    return Target(c, this_dtype=cls, func=lambda P: [f for f in P.funcs.get(cls + '::IsConsistent', []) if len(f.params) == 1])

def c_full():
    MSK = z3.Const('FullMask', A_IB)
    def fill(L, X):
        i = z3.Int('i')
        e = L.var('evid', t=EV)
        return [('filled so far', FA([i], And(S(e.f['dom'], i) == And(1 <= i, i < L.k + 1), Implies(And(1 <= i, i < L.k + 1), S(e.f['val'], i) == S(X.a(0), i))), [S(e.f['dom'], i)]))]
    def ens(X):
        i = z3.Int('i')
        full = FA([i], S(MSK, i) == And(1 <= i, i <= X.a(1)), [S(MSK, i)])
        return [('decides compatibility with the assignment of variables 1..size', Implies(full, X.res == C(MSK, X.a(0), X.this)))]
    return Contract('PsddNode::IsConsistent', nparams=2, requires=lambda X: [('a node', X.theory.wf(X.this)), ('size', X.a(1) >= 0)], ensures=ens, loops={'0': fill})

# ---------------------------------------------------------- conversion to SDD
def ax_sdd(T):
    return T.sdd_axioms()
X0, Y0 = z3.Consts('SddAssignment PsddAssignment', A_IB)    # arbitrary, Y0 the renaming of X0
UD = NU.UDATA
def c_tosdd():
    MT = ('map', ('int',), ('int',))
    def req(X):
        T, s, mp = X.theory, X.a(0), X.a(1)
        i, v = z3.Ints('i v')
        a = at(s, i)
        return T.ser(s) + [('the map covers the literals', FA([i], Implies(And(0 <= i, i < ln(s), T.dt(a) == 1), S(mp.f['dom'], T.var(a))), [a])),
                           ('the map gives variables', FA([v], Implies(S(mp.f['dom'], v), S(mp.f['val'], v) > 0), [S(mp.f['val'], v)])),
                           ('the two assignments are related by the map', FA([v], Implies(S(mp.f['dom'], v), S(Y0, v) == S(X0, S(mp.f['val'], v))), [S(mp.f['val'], v), S(Y0, v)]))]
    def good(X, r):
        T = X.theory
        u = S(X.h(*UD), r)
        return And(u > 0, T.smod(X0, u) == C(ALLV, Y0, r))
    def outer(L, X):
        s, r = X.a(0), z3.Int('r')
        u, u0 = X.h(*UD), X.oh(*UD)
        return [('converted nodes have their support', FA([r], Implies(done_suffix(s, L.k, r), good(X, r)), [S(u, r)])),
                ('other nodes untouched', FA([r], Implies(Not(done_suffix(s, L.k, r)), S(u, r) == S(u0, r)), [S(u, r)]))]
    def inner(L, X):
        T, s = X.theory, X.a(0)
        o = L.outer[-1]
        n = at(s, ln(s) - 1 - o.k)
        e, w = z3.Int('e'), Cw(ALLV, Y0, n)
        cur = L.var('cur_logic')
        some = z3.Exists([e], And(0 <= e, e < L.k, C(ALLV, Y0, T.prime(n, e)), C(ALLV, Y0, T.sub(n, e))))
        return outer(o, X) + [('hint', And(*touch(T.prime(n, w), T.sub(n, w)))), ('disjunction so far', And(cur > 0, T.smod(X0, cur) == some))]
    def clean(L, X):
        s, u = X.a(0), X.h(*UD)
        r = z3.Int('r')
        return [('cleared so far', FA([r], S(u, r) == If(And(member(s, r), ix(s, r) < L.k), iv(0), S(L.entry.heap[UD], r)), [S(u, r)]))]
    def ens(X):
        T, s = X.theory, X.a(0)
        u, u0 = X.h(*UD), X.oh(*UD)
        return [('models are the support after renaming', T.smod(X0, X.res) == C(ALLV, Y0, at(s, 0))),
                ('no cached value is left', heap_forall(lambda r: S(u, r) == If(member(s, r), iv(0), S(u0, r)), lambda r: S(u, r)))]
    return Contract('psdd_node_util::ConvertPsddNodeToSddNode', requires=req, ensures=ens, modifies=[UD], loops={'0': outer, '0.0': inner, '1': clean})

UNITS = [
    (['C16', 'C22'], lambda: Unit('to sdd', list(PN), FILT, lambda: theory(ax_touch, ax_C, ax_sdd), [Target(c_tosdd())])),
    (['C05', 'C16'], lambda: Unit('support lemmas', list(PN), FILT, lambda: theory(ax_C, ax_scope, lem_scope, ax_agreeon, lem_agreeon, ax_ext, lem_support), [])),
    (['C05'], lambda: Unit('virtual consistency', list(PN), FILT, lambda: theory(ax_C), [one('PsddLiteralNode'), one('PsddTopNode'), one('PsddDecisionNode')])),
    (['C05'], lambda: Unit('full assignment', list(PN), FILT, lambda: theory(ax_C, ax_agree, lem_agree), [Target(c_full())], [c_virtual()])),
]
