"""Learning parameters (C12)."""
from .manager import *
from . import sample_params as SP
from . import multiply as MU
from .multiply import Scal
from .sample_params import PV

A_IAB = z3.ArraySort(I, A_IB)
DataX = fn('Example', A_IAB, I, A_IB)                   # the assignment of one example
Ctx = fn('Reaches', A_IAB, I, I, I, B)                  # the example reaches the context of the node
CtxP = fn('ReachesFrom', A_IAB, I, I, I, I)
CtxI = fn('ReachesBy', A_IAB, I, I, I, I)
Cnt = fn('BranchCount', A_IAB, I, I, I, I, I)           # examples before k that reach the node and choose element i
TCn = fn('ValueCount', A_IAB, I, I, B, I, I)            # ... reach the true node and have that value
Smo = fn('SmoothedCounts', A_IAB, I, R, I, I, A_IR)
SerL = fn('SerialisedFrom', A_II, A_II, I, I, B)
Learned = fn('Learned', A_IAB, I, R, I, I, I, B)        # the least relation with the introductions below
LearnedBy = fn('LearnedBy', A_IAB, I, R, I, I, I, A_II, A_II, B)
E_ = z3.Const('E', A_IAB)
R0, d_, N_ = z3.Int('root'), z3.Int('d'), z3.Int('N')
al_ = z3.Real('alpha')
def Sat(E, d, n):
    return C(ALLV, DataX(E, d), n)
def Sel(T, E, R0, n, i, d):
    return And(Ctx(E, R0, n, d), Sat(E, d, T.prime(n, i)), Sat(E, d, T.sub(n, i)))
def ax_ctx(T):
    E, n, i, d, k, v = E_, n_, i_, d_, z3.Int('k'), z3.Int('v')
    b = z3.Const('b', B)
    c = Ctx(E, R0, n, d)
    p, e = CtxP(E, R0, n, d), CtxI(E, R0, n, d)
    inr = And(T.dt(n) == 2, 0 <= i, i < T.np(n))
    cnt = lambda k: Cnt(E, R0, n, i, k)
    tc = lambda k: TCn(E, R0, n, b, k)
    val = S(S(E, T.tv(n)), d)
    return [FA([E, d, v], S(DataX(E, d), v) == S(S(E, v), d), [S(DataX(E, d), v)]),
            FA([E, R0, d], Ctx(E, R0, R0, d), [Ctx(E, R0, R0, d)]),
            FA([E, R0, n, i, d], Implies(And(inr, Sel(T, E, R0, n, i, d)), And(Ctx(E, R0, T.prime(n, i), d), Ctx(E, R0, T.sub(n, i), d))), [(c, T.prime(n, i)), (c, T.sub(n, i))]),
            FA([E, R0, n, d], Implies(And(c, n != R0, T.wf(n)), And(T.wf(p), T.dt(p) == 2, 0 <= e, e < T.np(p), Sel(T, E, R0, p, e, d), Or(T.prime(p, e) == n, T.sub(p, e) == n))), [c]),
            FA([E, R0, n, i, k], Implies(k <= 0, cnt(k) == 0), [cnt(k)]),
            FA([E, R0, n, i, k], Implies(k >= 0, cnt(k + 1) == cnt(k) + If(Sel(T, E, R0, n, i, k), iv(1), iv(0))), [(cnt(k), Ctx(E, R0, n, k))]),
            FA([E, R0, n, b, k], Implies(k <= 0, tc(k) == 0), [tc(k)]),
            FA([E, R0, n, b, k], Implies(k >= 0, tc(k + 1) == tc(k) + If(And(Ctx(E, R0, n, k), S(S(E, T.tv(n)), k) == b), iv(1), iv(0))), [(tc(k), Ctx(E, R0, n, k))])]
def ax_learned(T):
    E, n, i, al, N, y, p, q = E_, n_, i_, al_, N_, z3.Int('y'), p_, q_
    sm = Smo(E, R0, al, N, n)
    L = lambda y, n: Learned(E, R0, al, N, y, n)
    tot = ASum(sm, T.np(n))
    inr = And(0 <= i, i < T.np(y))
    tt, ff = smooth2(T, E, R0, al, N, n)
    body = And(T.dt(y) == 2, T.dt(n) == 2, T.np(y) == T.np(n), *CT.perm_facts(p, q, T.np(n)))
    kids = FA([i], Implies(inr, And(L(T.prime(y, i), T.prime(n, S(p, i))), L(T.sub(y, i), T.sub(n, S(p, i))), pm(T.par(y, i), tot) == S(sm, S(p, i)))), [T.prime(y, i), T.sub(y, i), T.par(y, i)])
    by = LearnedBy(E, R0, al, N, y, n, p, q)
    return [FA([E, R0, al, N, n, i], S(sm, i) == z3.ToReal(Cnt(E, R0, n, i, N)) + al, [S(sm, i)]),
            FA([E, R0, al, N, y, n], Implies(And(T.dt(y) == 1, T.dt(n) == 1, T.lit(y) == T.lit(n)), L(y, n)), [L(y, n)]),
            FA([E, R0, al, N, y, n], Implies(And(T.dt(y) == 3, T.dt(n) == 3, T.tv(y) == T.tv(n), pm(T.tpar(y), tt + ff) == tt, pm(T.fpar(y), tt + ff) == ff), L(y, n)), [L(y, n)]),
            FA([E, R0, al, N, y, n, p, q], by, [by]),
            FA([E, R0, al, N, y, n, p, q], Implies(And(body, kids), L(y, n)), [by])]
def lem_counts(T):
    E, n, i, k, b = E_, n_, i_, z3.Int('k'), z3.Const('b', B)
    for nm, c, vs in (('of branches', lambda k: Cnt(E, R0, n, i, k), [E, R0, n, i, k]), ('of values', lambda k: TCn(E, R0, n, b, k), [E, R0, n, b, k])):
        T.lemmas.append(Lemma('counts %s are not negative' % nm, FA(vs, c(k) >= 0, [c(k)]),
            [('none', [k <= 0], c(k) >= 0), ('one more', [k >= 0, c(k) >= 0] + touch(c(k + 1), If(Ctx(E, R0, n, k), iv(1), iv(0))), c(k + 1) >= 0)]))
    return []
def smooth2(T, E, R0, al, N, n):
    return tuple(z3.ToReal(TCn(E, R0, n, z3.BoolVal(b), N)) + al for b in (True, False))
def ax_serl(T):
    a, x, n, R = z3.Const('a', A_II), z3.Const('x', A_II), z3.Int('n'), z3.Int('root')
    i, e = i_, z3.Int('e')
    mem = lambda c: And(0 <= S(x, c), S(x, c) < n, S(a, S(x, c)) == c)
    ai = S(a, i)
    inr = And(0 <= i, i < n)
    p = SerL(a, x, n, R)
    r = r_
    kids = FA([r, e], Implies(And(mem(r), T.dt(r) == 2, 0 <= e, e < T.np(r)), And(mem(T.prime(r, e)), mem(T.sub(r, e)), S(x, r) < S(x, T.prime(r, e)), S(x, r) < S(x, T.sub(r, e)))), [(S(x, r), T.prime(r, e)), (S(x, r), T.sub(r, e))])
    return [FA([a, x, n, R], Implies(And(n >= 1, S(a, iv(0)) == R, S(x, R) == 0, kids), p), [p]),
            FA([a, x, n, R], Implies(p, And(n >= 1, S(a, iv(0)) == R, S(x, R) == 0)), [p]),
            FA([a, x, n, R, r, e], Implies(And(p, mem(r), T.dt(r) == 2, 0 <= e, e < T.np(r)), And(mem(T.prime(r, e)), mem(T.sub(r, e)), S(x, r) < S(x, T.prime(r, e)), S(x, r) < S(x, T.sub(r, e)))), [(p, T.prime(r, e)), (p, T.sub(r, e))])]
def lem_serl(T):
    a, x, n, R = z3.Const('a', A_II), z3.Const('x', A_II), z3.Int('n'), z3.Int('root')
    E, d, r = E_, d_, z3.Int('r0')
    p = SerL(a, x, n, R)
    mem = lambda c: And(0 <= S(x, c), S(x, c) < n, S(a, S(x, c)) == c)
    c = Ctx(E, R, r, d)
    P = CtxP(E, R, r, d)
    h = [p, T.wf(r), c]
    f = Implies(And(p, c, T.wf(r)), And(mem(r), Or(r == R, S(x, P) < S(x, r))))
    dep = lambda n: T.vdepth(T.vt(n))
    T.lemmas.append(Lemma('contexts are reached from listed nodes', FA([a, x, n, R, E, r, d], f, [(p, c)]),
        [('root', h + [r == R], mem(r)), ('step', h + [r != R, mem(P)] + touch(T.prime(P, CtxI(E, R, r, d)), T.sub(P, CtxI(E, R, r, d))), And(mem(r), S(x, P) < S(x, r))),
         ('parents are higher', h + [r != R] + touch(T.vleft(T.vt(P)), T.vright(T.vt(P)), dep(P), dep(r)), And(dep(P) < dep(r), dep(P) >= 0))]))
    return []
BV = ('PsddNode', 'batched_psdd_value_')
BC = ('PsddNode', 'batched_psdd_context_value_')
DC = ('PsddNode', 'data_counts_')
TD = ('PsddNode', 'true_data_count_')
FD = ('PsddNode', 'false_data_count_')
def vlen(h, r):
    return S(h.f['len'], r)
def vat(h, r, d):
    return S(S(h.f['arr'], r), d)
def c_reset():
    def ens(X):
        n, d0, d1, i = X.this, X.oh(*DC), X.h(*DC), z3.Int('i')
        return [('no counts', FA([i], Implies(And(0 <= i, i < vlen(d1, n)), vat(d1, n, i) == 0), [vat(d1, n, i)])), ('one per element', vlen(d1, n) == vlen(d0, n))]
    def loop(L, X):
        n, d0, d1, i, r = X.this, X.oh(*DC), X.h(*DC), z3.Int('i'), z3.Int('r')
        return [('cleared so far', And(vlen(d1, n) == vlen(d0, n), FA([i], Implies(And(0 <= i, i < L.k), vat(d1, n, i) == 0), [vat(d1, n, i)]))),
                ('other nodes', FA([r], Implies(r != n, And(vlen(d1, r) == vlen(d0, r), S(d1.f['arr'], r) == S(d0.f['arr'], r))), [vlen(d1, r), S(d1.f['arr'], r)]))]
    return Contract('PsddDecisionNode::ResetDataCount', requires=lambda X: [('a node', X.theory.wf(X.this)), ('one count per element', vlen(X.oh(*DC), X.this) == X.theory.np(X.this))], ensures=ens, modifies=[('this', 'data_counts_')], loops={'0': loop})

def c_learn():
    def s(L, X):
        return L.var('serialized_psdd_nodes', t=VEC)
    def EX(X):
        return X.a(1).f['val'].f['arr']
    def spec(X):
        return EX(X), X.a(0), X.a(3), X.a(2)
    def clean_data(X, h):
        """no counts and no per-example state at source nodes"""
        T, r, i = X.theory, z3.Int('r'), z3.Int('i')
        bv, bc, dc, td, fd = (h(*f) for f in (BV, BC, DC, TD, FD))
        return [('no per-example state', FA([r], Implies(S(QS, r), And(vlen(bv, r) == 0, vlen(bc, r) == 0)), [vlen(bv, r), vlen(bc, r)])),
                ('one count per element', FA([r], Implies(And(S(QS, r), T.dt(r) == 2), vlen(dc, r) == T.np(r)), [vlen(dc, r)])),
                ('no counts', FA([r, i], Implies(And(S(QS, r), T.dt(r) == 2, 0 <= i, i < T.np(r)), vat(dc, r, i) == 0), [vat(dc, r, i)])),
                ('no counts of values', FA([r], Implies(And(S(QS, r), T.dt(r) == 3), And(S(td, r) == 0, S(fd, r) == 0)), [S(td, r), S(fd, r)]))]
    def req(X):
        T, r = X.theory, z3.Int('r')
        ex = X.a(1)
        E, R, al, N = spec(X)
        has = lambda v: And(S(ex.f['dom'], v), S(ex.f['val'].f['len'], v) == N)
        v = If(T.lit(r) >= 0, T.lit(r), -T.lit(r))
        tt, ff = smooth2(T, E, R, al, N, r)
        return minv(X, True) + [('a node', T.wf(R)), ('data', And(N >= 0, al >= 0))] + source(X, ('the root', S(QS, R)), True) + clean_data(X, X.oh) + [
            ('a value of every variable in every example', And(FA([r], Implies(And(S(QS, r), T.dt(r) == 1), has(v)), [(S(QS, r), T.lit(r))]), FA([r], Implies(And(S(QS, r), T.dt(r) == 3), has(T.tv(r))), [(S(QS, r), T.tv(r))]))),
            ('smoothed counts are not all zero', And(FA([r], Implies(And(S(QS, r), T.dt(r) == 2), ASum(Smo(E, R, al, N, r), T.np(r)) > 0), [ASum(Smo(E, R, al, N, r), T.np(r))]),
                                                     FA([r], Implies(And(S(QS, r), T.dt(r) == 3), tt + ff > 0), [TCn(E, R, r, z3.BoolVal(True), N)])))]
    def base(L, X, ss):
        return [src_list(ss)]
    def untouched(X, ss, *flds):
        r = z3.Int('r')
        out = []
        for f in flds:
            h, h0 = X.h(*f), X.oh(*f)
            if hasattr(h, 'f'):
                same, pat = And(vlen(h, r) == vlen(h0, r), S(h.f['arr'], r) == S(h0.f['arr'], r)), [vlen(h, r), S(h.f['arr'], r)]
            else:
                same, pat = S(h, r) == S(h0, r), [S(h, r)]
            out.append(('%s of other nodes' % f[1], FA([r], Implies(And(r < X.entry.next, Not(member(ss, r))), same), pat)))
        return out
    def values(X, dn):
        T, r, d = X.theory, z3.Int('r'), z3.Int('d')
        E, R, al, N = spec(X)
        bv, bc = X.h(*BV), X.h(*BC)
        return [('values of nodes', FA([r], Implies(dn(r), vlen(bv, r) == N), [vlen(bv, r)])), ('contexts of nodes', FA([r], Implies(dn(r), vlen(bc, r) == N), [vlen(bc, r)])),
                ('values decide the support', FA([r, d], Implies(And(dn(r), 0 <= d, d < N), vat(bv, r, d) == Sat(E, d, r)), [vat(bv, r, d)]))]
    def up(L, X):
        T, r, d = X.theory, z3.Int('r'), z3.Int('d')
        E, R, al, N = spec(X)
        ss = s(L, X)
        bc = X.h(*BC)
        dn = lambda r: done_suffix(ss, L.k, r)
        return base(L, X, ss) + values(X, dn) + [('no contexts yet', FA([r, d], Implies(And(dn(r), 0 <= d, d < N), Not(vat(bc, r, d))), [vat(bc, r, d)]))] + untouched(X, ss, BV, BC)
    def flip(L, X):
        T, d = X.theory, z3.Int('d')
        c, c0 = L.var('cur_batched_value', t=('vec', ('bool',))), L.var('cur_batched_value', t=('vec', ('bool',)), entry=True)
        return [('flipped so far', And(ln(c) == ln(c0), FA([d], Implies(And(0 <= d, d < ln(c)), at(c, d) == If(d < L.k, Not(at(c0, d)), at(c0, d))), [at(c, d)])))]
    def dec(L, X, k_el, k_d):
        T, d, i = X.theory, z3.Int('d'), z3.Int('i')
        E, R, al, N = spec(X)
        ss = s(L, X)
        n = at(ss, ln(ss) - 1 - L.outer[0].k)
        c = L.var('cur_batched_value', t=('vec', ('bool',)))
        w = Cw(ALLV, DataX(E, d), n)
        el = lambda i: And(Sat(E, d, T.prime(n, i)), Sat(E, d, T.sub(n, i)))
        done = lambda i, d: Or(And(0 <= i, i < k_el), And(i == k_el, d < k_d))
        inr = And(0 <= d, d < N)
        return [('a decision node', And(T.wf(n), T.dt(n) == 2)), ('one value per example', ln(c) == N),
                ('only if an element holds', FA([d], Implies(And(inr, at(c, d)), Sat(E, d, n)), [at(c, d)])),
                ('if an element so far holds', FA([d, i], Implies(And(inr, done(i, d), i < T.np(n), el(i)), at(c, d)), [(at(c, d), T.prime(n, i))]))]
    def elements(L, X):
        return dec(L, X, L.k, iv(0))
    def bits(L, X):
        return dec(L, X, L.outer[-1].k, L.k)
    # second pass: contexts and counts
    def down(L, X, k=None, part=None):
        """nodes from position k on still have values and contexts; earlier ones are counted"""
        T, r, d, i = X.theory, z3.Int('r'), z3.Int('d'), z3.Int('i')
        E, R, al, N = spec(X)
        ss = s(L, X)
        bv, bc, dc, td, fd = (X.h(*f) for f in (BV, BC, DC, TD, FD))
        todo = lambda r: And(member(ss, r), ix(ss, r) >= k)
        past = lambda r: And(member(ss, r), ix(ss, r) < k)
        P = CtxP(E, R, r, d)
        out = base(L, X, ss) + [('serialised', SerL(ss.f['arr'], ss.f['ix'], ln(ss), R))] + values(X, todo)
        out += [('contexts are reached', FA([r, d], Implies(And(todo(r), 0 <= d, d < N, vat(bc, r, d)), Ctx(E, R, r, d)), [vat(bc, r, d)])),
                ('reached contexts', FA([r, d], Implies(And(todo(r), 0 <= d, d < N, Ctx(E, R, r, d), Or(r == R, ix(ss, P) < k)), vat(bc, r, d)), [vat(bc, r, d)])),
                ('no state at earlier nodes', FA([r], Implies(past(r), And(vlen(bv, r) == 0, vlen(bc, r) == 0)), [vlen(bv, r), vlen(bc, r)]))]
        out += untouched(X, ss, BV, BC, DC, TD, FD)
        return out
    def counted(X, ss, k, cur=None):
        T, r, i = X.theory, z3.Int('r'), z3.Int('i')
        E, R, al, N = spec(X)
        dc, td, fd = (X.h(*f) for f in (DC, TD, FD))
        past = And(member(ss, r), ix(ss, r) < k)
        todo = And(member(ss, r), ix(ss, r) >= k, *([r != cur] if cur is not None else []))
        return [('one count per element', FA([r], Implies(And(member(ss, r), T.dt(r) == 2), vlen(dc, r) == T.np(r)), [vlen(dc, r)])),
                ('counts of earlier nodes', FA([r, i], Implies(And(past, T.dt(r) == 2, 0 <= i, i < T.np(r)), vat(dc, r, i) == Cnt(E, R, r, i, N)), [vat(dc, r, i)])),
                ('counts of values of earlier nodes', FA([r], Implies(And(past, T.dt(r) == 3), And(S(td, r) == TCn(E, R, r, z3.BoolVal(True), N), S(fd, r) == TCn(E, R, r, z3.BoolVal(False), N))), [S(td, r), S(fd, r)])),
                ('no counts of later nodes', FA([r, i], Implies(And(todo, T.dt(r) == 2, 0 <= i, i < T.np(r)), vat(dc, r, i) == 0), [vat(dc, r, i)])),
                ('no counts of values of later nodes', FA([r], Implies(And(todo, T.dt(r) == 3), And(S(td, r) == 0, S(fd, r) == 0)), [S(td, r), S(fd, r)]))]
    def contexts(L, X):
        ss = s(L, X)
        return down(L, X, L.k) + counted(X, ss, L.k)
    def top(L, X):
        T = X.theory
        E, R, al, N = spec(X)
        n = at(s(L, X), L.outer[0].k)
        return [('a true node', And(T.wf(n), T.dt(n) == 3)), ('hint', And(*[Ctx(E, R, n, k) == Ctx(E, R, n, k) for k in (L.k,)] + touch(TCn(E, R, n, z3.BoolVal(True), L.k)))),
                ('counts so far', And(L.var('pos_data_count') == TCn(E, R, n, z3.BoolVal(True), L.k), L.var('neg_data_count') == TCn(E, R, n, z3.BoolVal(False), L.k)))]
    def spread(L, X, k_el, k_d):
        T, d, i = X.theory, z3.Int('d'), z3.Int('i')
        E, R, al, N = spec(X)
        ss = s(L, X)
        o = L.outer[0]
        n = at(ss, o.k)
        dc, bc = X.h(*DC), X.h(*BC)
        sel = Sel(T, E, R, n, i, d)
        done = Or(And(0 <= i, i < k_el), And(i == k_el, d < k_d))
        return down(L, X, o.k) + counted(X, ss, o.k, n) + [('a decision node', And(T.wf(n), T.dt(n) == 2)),
            ('counts so far', FA([i], Implies(And(0 <= i, i < T.np(n)), vat(dc, n, i) == If(i < k_el, Cnt(E, R, n, i, N), If(i == k_el, Cnt(E, R, n, i, k_d), iv(0)))), [vat(dc, n, i)])),
            ('primes reached so far', FA([i, d], Implies(And(0 <= d, d < N, done, i < T.np(n), sel), And(vat(bc, T.prime(n, i), d), vat(bc, T.sub(n, i), d))), [vat(bc, T.prime(n, i), d), vat(bc, T.sub(n, i), d)]))]
    def spread_el(L, X):
        return spread(L, X, L.k, iv(0))
    def spread_d(L, X):
        return spread(L, X, L.outer[-1].k, L.k)
    # third pass: the new nodes
    def copy_of(X, y, r):
        T, m = X.theory, M(X, False)
        E, R, al, N = spec(X)
        return And(S(m.mem, y), y > 0, T.vt(y) == Emb(T.vt(r)), Learned(E, R, al, N, y, r))
    def final(X, ss):
        return counted(X, ss, ln(ss))[:3] + untouched(X, ss, BV, BC, DC, TD, FD) + [('no per-example state', FA([r_], Implies(member(ss, r_), And(vlen(X.h(*BV), r_) == 0, vlen(X.h(*BC), r_) == 0)), [vlen(X.h(*BV), r_), vlen(X.h(*BC), r_)]))]
    def copied(X, ss, k):
        T, r = X.theory, z3.Int('r')
        u, u0 = X.h(*UD), X.oh(*UD)
        return final(X, ss) + [('nodes so far have a node in the table', FA([r], Implies(done_suffix(ss, k, r), copy_of(X, S(u, r), r)), [S(u, r)])),
                ('other nodes are untouched', FA([r], Implies(And(r < M(X, True).next, Not(done_suffix(ss, k, r))), S(u, r) == S(u0, r)), [S(u, r)]))]
    def hint(L, X, n):
        if L.phase != 'step':
            return []
        c = X.ex.calls.get('GetPsddTopNode')
        if c is not None:
            E, R, al, N = spec(X)
            tt, ff = smooth2(X.theory, E, R, al, N, n)
            return [('parameters are relative frequencies', And(pm(X.theory.tpar(c.res), tt + ff) == tt, pm(X.theory.fpar(c.res), tt + ff) == ff)), ('learned', Learned(E, R, al, N, c.res, n)), ('this node', copy_of(X, S(X.h(*UD), n), n))]
        c = X.ex.calls.get('GetConformedPsddDecisionNode')
        if c is None:
            return [('this node', copy_of(X, S(X.h(*UD), n), n))]
        p, q = c.outs['p'], c.outs['q']
        T, i, r = X.theory, z3.Int('i'), c.res
        E, R, al, N = spec(X)
        u = X.h(*UD)
        inr = And(0 <= i, i < T.np(r))
        st = []
        for nm, ch, a in (('primes', T.prime, c.a(0)), ('subs', T.sub, c.a(1))):
            st.append(('%s are the requested ones' % nm, FA([i], Implies(inr, And(ch(r, i) == at(a, S(p, i)), at(a, S(p, i)) == S(u, ch(n, S(p, i))))), [ch(r, i)])))
            st.append(('%s are learned' % nm, FA([i], Implies(inr, Learned(E, R, al, N, ch(r, i), ch(n, S(p, i)))), [ch(r, i)])))
        sm = Smo(E, R, al, N, n)
        st.append(('parameters are relative frequencies', FA([i], Implies(inr, pm(T.par(r, i), ASum(sm, T.np(n))) == S(sm, S(p, i))), [T.par(r, i)])))
        return st + [('order of the elements', LearnedBy(E, R, al, N, c.res, n, p, q)), ('learned', Learned(E, R, al, N, c.res, n)), ('this node', copy_of(X, S(u, n), n))]
    def rebuild(L, X):
        ss = s(L, X)
        return base(L, X, ss) + hint(L, X, at(ss, ln(ss) - L.k)) + grow(X) + copied(X, ss, L.k)
    def inner(L, X):
        T = X.theory
        ss = s(L, X)
        o = L.outer[-1]
        n = at(ss, ln(ss) - 1 - o.k)
        return base(L, X, ss) + grow(X) + copied(X, ss, o.k) + [('a decision node', And(T.wf(n), T.dt(n) == 2))], n
    def gather(L, X):
        T, j = X.theory, z3.Int('j')
        E, R, al, N = spec(X)
        out, n = inner(L, X)
        par, tot = L.var('parameters', t=PV), L.var('total_data_counts', t=('param',))
        u = X.h(*UD)
        sm = Smo(E, R, al, N, n)
        for nm, ch in (('new_primes', T.prime), ('new_subs', T.sub)):
            c = L.var(nm, t=VEC)
            out.append(('%s so far' % nm, And(ln(c) == L.k, FA([j], Implies(And(0 <= j, j < L.k), at(c, j) == S(u, ch(n, j))), [at(c, j), ch(n, j)]))))
        return out + [('smoothed counts so far', And(ln(par) == L.k, FA([j], Implies(And(0 <= j, j < L.k), And(at(par, j) == S(sm, j), at(par, j) >= 0)), [at(par, j)]))), ('their sum', tot == ASum(sm, L.k))]
    def share(L, X):
        T, j = X.theory, z3.Int('j')
        E, R, al, N = spec(X)
        out, n = inner(L, X)
        par, tot = L.var('parameters', t=PV), L.var('total_data_counts', t=('param',))
        sm = Smo(E, R, al, N, n)
        return out + [('one per element', And(ln(par) == T.np(n), tot > 0)), ('frequencies so far', FA([j], Implies(And(0 <= j, j < T.np(n)), And(at(par, j) >= 0, If(j < L.k, pm(at(par, j), tot), at(par, j)) == S(sm, j))), [at(par, j)]))]
    def clear(L, X):
        T, r, i = X.theory, z3.Int('r'), z3.Int('i')
        ss = s(L, X)
        dn = And(0 <= ix(ss, r), ix(ss, r) < L.k, at(ss, ix(ss, r)) == r)
        dc, td, fd = (X.h(*f) for f in (DC, TD, FD))
        return clear_loop(s)(L, X) + [('lengths stay', FA([r], Implies(And(member(ss, r), T.dt(r) == 2), vlen(dc, r) == T.np(r)), [vlen(dc, r)])),
            ('no per-example state', FA([r], Implies(member(ss, r), And(vlen(X.h(*BV), r) == 0, vlen(X.h(*BC), r) == 0)), [vlen(X.h(*BV), r), vlen(X.h(*BC), r)])),
            ('counts cleared so far', FA([r, i], Implies(And(dn, T.dt(r) == 2, 0 <= i, i < T.np(r)), vat(dc, r, i) == 0), [vat(dc, r, i)])),
            ('counts of values cleared so far', FA([r], Implies(And(dn, T.dt(r) == 3), And(S(td, r) == 0, S(fd, r) == 0)), [S(td, r), S(fd, r)]))] + untouched(X, ss, BV, BC, DC, TD, FD)
    def ens(X):
        T, r, i = X.theory, z3.Int('r'), z3.Int('i')
        return grow(X) + [('same structure, smoothed relative frequencies', copy_of(X, X.res, X.a(0))), frame_ud(X)] + clean_data(X, X.h)
    # which loop is met first depends on the path: without data the passes over
    # the examples are skipped, and inside one pass the kind of node decides
    def no_data(L, X):
        return L.ex.implied(X.a(2) == 0)
    def by_path(with_data, without):
        return lambda L, X: (without if no_data(L, X) else with_data)(L, X)
    def first_up(L, X):
        T = X.theory
        ss = s(L, X)
        n = at(ss, ln(ss) - 1 - L.outer[0].k)
        return (flip if L.ex.implied(T.dt(n) == 1) else elements)(L, X)
    def first_down(L, X):
        return (top if L.has('pos_data_count') else spread_el)(L, X)
    loops = {'0': by_path(up, rebuild), '0.0': by_path(first_up, gather), '0.0.0': bits, '0.1': share,
             '1': by_path(contexts, clear), '1.0': first_down, '1.0.0': spread_d, '2': rebuild, '2.0': gather, '2.1': share, '3': clear}
    return Contract('PsddManager::LearnPsddParameters', requires=req, ensures=ens, modifies=MODS + [UD, BV, BC, DC, TD, FD],
        loops=loops)
def thl(*more):
    return ths(ax_C, ax_ctx, lem_counts, ax_learned, ax_serl, lem_serl, *more)
UNITS = [
    (['C12', 'C22'], lambda: Unit('reset counts', list(MG), MFILT, th, [Target(c_reset())])),
    (['C12', 'C22'], lambda: Unit('learn', list(MG), MFILT, thl, [Target(c_learn())], [SER.c_ser_root(), c_literal(), c_top(), c_conform(), c_reset()])),
]
