"""Sampling and learning parameters (C13, C12): the structure is kept."""
from .manager import *
from . import multiply as MU
from .multiply import NormP, Scal

Struct = fn('SameStructure', I, I, B)      # the least relation with the introductions below
StructBy = fn('SameStructureBy', I, I, A_II, A_II, B)
def ax_struct(T):
    r, n, i, p, q = r_, n_, i_, p_, q_
    inr = And(0 <= i, i < T.np(r))
    body = And(T.dt(r) == 2, T.dt(n) == 2, T.np(r) == T.np(n), *CT.perm_facts(p, q, T.np(n)))
    kids = FA([i], Implies(inr, And(Struct(T.prime(r, i), T.prime(n, S(p, i))), Struct(T.sub(r, i), T.sub(n, S(p, i))))), [T.prime(r, i), T.sub(r, i)])
    return [FA([r, n], Implies(And(T.dt(r) == 1, T.dt(n) == 1, T.lit(r) == T.lit(n)), Struct(r, n)), [Struct(r, n)]),
            FA([r, n], Implies(And(T.dt(r) == 3, T.dt(n) == 3, T.tv(r) == T.tv(n)), Struct(r, n)), [Struct(r, n)]),
            FA([r, n, p, q], StructBy(r, n, p, q), [StructBy(r, n, p, q)]),
            FA([r, n, p, q], Implies(And(body, kids), Struct(r, n)), [StructBy(r, n, p, q)])]
def ax_ln(T):
    return [T.lnf(rv(1)) == 0]
PV = MU.PV
def copy_of(X, y, r):
    T, m = X.theory, M(X, False)
    return And(S(m.mem, y), y > 0, T.vt(y) == Emb(T.vt(r)), Struct(y, r), NormP(y))
def copied(X, s, k):
    T, r = X.theory, z3.Int('r')
    u, u0 = X.h(*UD), X.oh(*UD)
    return [('nodes so far have a node in the table', FA([r], Implies(done_suffix(s, k, r), copy_of(X, S(u, r), r)), [S(u, r)])),
            ('other nodes are untouched', FA([r], Implies(And(r < M(X, True).next, Not(done_suffix(s, k, r))), S(u, r) == S(u0, r)), [S(u, r)]))]
def hint(L, X, n):
    c = X.ex.calls.get('GetConformedPsddDecisionNode')
    if L.phase != 'step' or c is None:
        return []
    p, q = c.outs['p'], c.outs['q']
    T, i, r = X.theory, z3.Int('i'), c.res
    u = X.h(*UD)
    inr = And(0 <= i, i < T.np(r))
    st = []
    for nm, ch, a, side in (('primes', T.prime, c.a(0), T.vleft), ('subs', T.sub, c.a(1), T.vright)):
        st.append(('%s are the requested ones' % nm, FA([i], Implies(inr, And(ch(r, i) == at(a, S(p, i)), at(a, S(p, i)) == S(u, ch(n, S(p, i))))), [ch(r, i)])))
        st.append(('%s have the same structure' % nm, FA([i], Implies(inr, Struct(ch(r, i), ch(n, S(p, i)))), [ch(r, i)])))
    return st + [('order of the elements', And(PermOf(c.a(2).f['arr'], T.paA(c.res), p, q, ln(c.a(0))), StructBy(c.res, n, p, q))), ('same structure', Struct(c.res, n)), ('parameters sum to one', ASum(T.paA(c.res), T.np(c.res)) == 1), ('normalised', NormP(c.res))]
def roots_in(X, rs):
    i = z3.Int('i')
    return ('the roots', FA([i], Implies(And(0 <= i, i < ln(rs)), S(QS, at(rs, i))), [at(rs, i)]))
def c_sample():
    def s(L, X):
        return L.var('serialized_psdd_nodes', t=VEC)
    def req(X):
        return minv(X, True) + [('a generator', X.args[0] > 0)] + SER.roots_ok(X, X.a(1)) + source(X, roots_in(X, X.a(1)), True)
    def outer(L, X):
        ss = s(L, X)
        return [('within the source', src_list(ss)[1])] + hint(L, X, at(ss, ln(ss) - L.k)) + grow(X) + copied(X, ss, L.k)
    def both(L, X):
        T = X.theory
        ss = s(L, X)
        o = L.outer[-1]
        n = at(ss, ln(ss) - 1 - o.k)
        return [src_list(ss)] + grow(X) + copied(X, ss, o.k), n
    def draws(L, X):
        T, j = X.theory, z3.Int('j')
        out, n = both(L, X)
        num, tot = L.var('sampled_number', t=PV), L.var('sum', t=('param',))
        return out + kids_copied(L, X, s(L, X), ('next_primes', 'next_subs'), n) + [('a decision node', And(T.wf(n), T.dt(n) == 2)),
            ('numbers so far', And(ln(num) == T.np(n), FA([j], Implies(And(0 <= j, j < L.k), at(num, j) > 0), [at(num, j)]))),
            ('their sum', And(tot == ASum(num.f['arr'], L.k), Implies(L.k >= 1, tot > 0)))]
    def share(L, X):
        T, j = X.theory, z3.Int('j')
        out, n = both(L, X)
        num, tot, par = L.var('sampled_number', t=PV), L.var('sum', t=('param',)), L.var('next_parameters', t=PV)
        return out + [('one per element', ln(par) == T.np(n)), ('shares so far', FA([j], Implies(And(0 <= j, j < L.k), And(at(par, j) >= 0, pm(at(par, j), tot) == at(num, j))), [at(par, j), at(num, j)])),
                      ('all shares', Implies(L.k == ln(par), Scal(par.f['arr'], num.f['arr'], tot, L.k))),
                      ('they sum to one', Implies(L.k == ln(par), ASum(par.f['arr'], L.k) == 1))]
    def roots(L, X):
        j = z3.Int('j')
        out, u, rs = L.var('new_root_nodes', t=VEC), X.h(*UD), X.a(1)
        return [('roots so far', And(ln(out) == ln(rs), FA([j], Implies(And(0 <= j, j < L.k), at(out, j) == S(u, at(rs, j))), [at(out, j)])))]
    def ens(X):
        j, rs = z3.Int('j'), X.a(1)
        return grow(X) + [('one node per root', ln(X.res) == ln(rs)),
                          ('same structure, normalised', FA([j], Implies(And(0 <= j, j < ln(rs)), copy_of(X, at(X.res, j), at(rs, j))), [at(X.res, j)])), frame_ud(X)]
    return Contract('PsddManager::SampleParametersForMultiplePsdds', requires=req, ensures=ens, modifies=MODS + [UD, ('ghost', 'draws')],
                    loops={'0': outer, '0.0': draws, '0.1': share, '1': roots, '2': clear_loop(s)})
def c_sample_one():
    return Contract('PsddManager::SampleParameters', requires=lambda X: minv(X, True) + [('a generator', X.args[0] > 0), ('a node', X.theory.wf(X.a(1)))] + source(X, ('the root', S(QS, X.a(1))), True),
                    ensures=lambda X: grow(X) + [('same structure, normalised', copy_of(X, X.res, X.a(1))), frame_ud(X)], modifies=MODS + [UD, ('ghost', 'draws')])
def thn(*more):
    T = ths(MU.ax_norm, MU.ax_scal, MU.lem_scal, ax_struct, ax_ln, *more)
    T.ghosts = {'draws': I}
    return T
OPT = {'positive_draws': True}
UNITS = [
    (['C13', 'C22'], lambda: Unit('sample parameters', list(MG), MFILT, thn, [Target(c_sample())], [SER.c_ser_vec(), c_literal(), c_top(), c_conform()], opts=OPT)),
    (['C13'], lambda: Unit('sample one', list(MG), MFILT, thn, [Target(c_sample_one())], [c_sample()], opts=OPT)),
]
