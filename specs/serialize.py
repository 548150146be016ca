"""Traversals (C03) and the entry points that start from a root node."""
from .core import *
from . import node_util as NU

PN = NU.PN
FILT = NU.FILT
QS = z3.Const('AnyClosedSet', A_IB)     # arbitrary: what is proved of it holds for every set
RS = z3.Const('AnySetWithRoots', A_IB)
def rooted(rs):
    i = z3.Int('i')
    return FA([i], Implies(And(0 <= i, i < ln(rs)), S(RS, at(rs, i))), [at(rs, i)])
def level(X, rs):
    """all roots at one depth"""
    i = z3.Int('i')
    d = lambda x: X.theory.vdepth(X.theory.vt(at(rs, x)))
    return Or(ln(rs) == 1, FA([i], Implies(And(0 <= i, i < ln(rs)), d(i) == d(0)), [at(rs, i)]))

def vdepth_contract():
    def walk(L, X):
        T = X.theory
        cur = L.var('cur', t=VT)
        return [('depth so far', And(cur >= 0, L.var('depth') + If(cur == 0, iv(0), 1 + T.vdepth(cur)) == T.vdepth(X.a(0)), L.var('depth') >= 0))]
    return Contract('VtreeDepth', requires=lambda X: [('a vtree node', X.a(0) > 0)], ret=lambda X: X.theory.vdepth(X.a(0)), loops={'0': walk})

def roots_ok(X, rs):
    T = X.theory
    i = z3.Int('i')
    a = at(rs, i)
    return [('roots are nodes of one manager', FA([i], Implies(And(0 <= i, i < ln(rs)), And(T.wf(a), T.mgr(a) == T.mgr(at(rs, 0)))), [a]))]

def closed(X, rs):
    """QS holds of the roots and, with a node, of its children"""
    T = X.theory
    i, n = z3.Ints('i n')
    return And(FA([i], Implies(And(0 <= i, i < ln(rs)), S(QS, at(rs, i))), [at(rs, i)]),
               FA([n, i], Implies(And(S(QS, n), T.dt(n) == 2, 0 <= i, i < T.np(n)), And(S(QS, T.prime(n, i)), S(QS, T.sub(n, i)))), [T.prime(n, i), T.sub(n, i)]))

def ser_ensures(X, rs, res):
    T = X.theory
    i, j = z3.Ints('i j')
    out = [(n, Implies(ln(rs) >= 1, f)) for n, f in T.ser(res)]
    out += [('every root is listed', FA([i], Implies(And(0 <= i, i < ln(rs)), member(res, at(rs, i))), [at(rs, i)])),
            ('of one manager', Implies(ln(rs) >= 1, T.mgr(at(res, 0)) == T.mgr(at(rs, 0)))),
            ('only reachable nodes are listed', Implies(closed(X, rs), FA([i], Implies(And(0 <= i, i < ln(res)), S(QS, at(res, i))), [at(res, i)]))),
            ('starts with the root', Implies(ln(rs) == 1, at(res, 0) == at(rs, 0))),
            ('roots at one depth come first', Implies(And(level(X, rs), rooted(rs)), FA([i, j], Implies(And(0 <= i, i < ln(rs), 0 <= j, j <= ix(res, at(rs, i))), S(RS, at(res, j))), [(at(rs, i), at(res, j))]))),
            ('nothing from nothing', Implies(ln(rs) == 0, ln(res) == 0))]
    return out

def c_ser_vec():
    RT = VEC
    UT = ('set', ('int',))
    def common(L, X, rs, k_roots):
        T = X.theory
        res, ex = L.var('result', t=RT), L.var('node_explored', t=UT)
        i, j, r, q = z3.Ints('i j r q')
        a = at(res, i)
        inr = lambda i: And(0 <= i, i < ln(res))
        out = [('listed nodes are distinct nodes of the manager', FA([i], Implies(inr(i), And(T.wf(a), T.mgr(a) == T.mgr(at(rs, 0)), ix(res, a) == i, S(ex.f['dom'], T.nidx(a)))), [a])),
               ('explored indices are listed', FA([q], Implies(S(ex.f['dom'], q), And(member(res, T.nodeOf(T.mgr(at(rs, 0)), q)), T.nidx(T.nodeOf(T.mgr(at(rs, 0)), q)) == q)), [S(ex.f['dom'], q)])),
               ('roots are listed', FA([i], Implies(And(0 <= i, i < k_roots), member(res, at(rs, i))), [at(rs, i)])),
               ('only reachable nodes', Implies(closed(X, rs), FA([i], Implies(inr(i), S(QS, a)), [a]))),
               ('some node', And(Implies(k_roots >= 1, ln(res) >= 1), ln(res) >= 0, Implies(k_roots == 0, ln(res) == 0))),
               ('first root first', Implies(k_roots >= 1, at(res, 0) == at(rs, 0))),
               ('roots only', Implies(z3.BoolVal(k_roots is L.k), And(Implies(rooted(rs), FA([i], Implies(inr(i), S(RS, a)), [a])), Implies(level(X, rs), FA([i], Implies(inr(i), T.vdepth(T.vt(a)) == T.vdepth(T.vt(at(rs, 0)))), [a]))))),
               ('at most one per root', Implies(z3.BoolVal(k_roots is L.k), ln(res) <= k_roots))]
        return out
    def roots(L, X):
        return common(L, X, X.a(0), L.k)
    def bfs(L, X, extra=None, k=None):
        T, rs = X.theory, X.a(0)
        res, e = L.var('result', t=RT), L.var('explore_index')
        i, j, c = z3.Ints('i j c')
        a = at(res, i)
        out = common(L, X, rs, ln(rs))
        done = lambda i: And(0 <= i, i < e)
        out += [('exploration index in range', And(0 <= e, e <= ln(res)))]
        for nm, ch in (('primes', T.prime), ('subs', T.sub)):
            x = ch(a, c)
            out.append(('%s of explored nodes are listed' % nm, FA([i, c], Implies(And(done(i), T.dt(a) == 2, 0 <= c, c < T.np(a)), member(res, x)), [x])))
        dep = lambda i: T.vdepth(T.vt(at(res, i)))
        one = level(X, rs)
        r0 = (L.outer[0] if L.outer else L).var('result', t=RT, entry=True)
        m = ln(r0)
        out.append(('roots stay in front', And(m <= ln(res), FA([i], Implies(And(0 <= i, i < m), at(res, i) == at(r0, i)), [at(res, i)]),
                                               FA([i], Implies(And(0 <= i, i < ln(rs)), ix(res, at(rs, i)) < m), [at(rs, i)]),
                                               Implies(rooted(rs), FA([i], Implies(And(0 <= i, i < m), S(RS, at(res, i))), [at(res, i)])))))
        out.append(('depths grow', Implies(one, FA([i, j], Implies(And(0 <= i, i < j, j < ln(res)), dep(i) <= dep(j)), [(at(res, i), at(res, j))]))))
        slack = 1
        out.append(('depths within one of the front', Implies(one, FA([j], Implies(And(0 <= j, j < ln(res), e < ln(res)), dep(j) <= dep(e) + 1), [at(res, j)]))))
        return out
    def front(L, X):
        return L.var('cur_psdd_node', t=NODE)
    def inner(which):
        def inv(L, X):
            T = X.theory
            res, e = L.var('result', t=RT), L.var('explore_index')
            out = bfs(L, X)
            c = z3.Int('c')
            n = at(res, e)
            res0 = L.var('result', t=RT, entry=True)
            out.append(('front node', And(e < ln(res), T.dt(n) == 2, e < ln(res0), n == at(res0, e))))
            out.append(('primes so far are listed', FA([c], Implies(And(0 <= c, c < (L.k if which == 0 else T.np(n))), member(res, T.prime(n, c))), [T.prime(n, c)])))
            if which == 1:
                out.append(('subs so far are listed', FA([c], Implies(And(0 <= c, c < L.k), member(res, T.sub(n, c))), [T.sub(n, c)])))
            return out
        return inv
    return Contract('psdd_node_util::SerializePsddNodes', ptypes=[VEC],
                    requires=lambda X: roots_ok(X, X.a(0)),
                    ensures=lambda X: ser_ensures(X, X.a(0), X.res),
                    loops={'0': roots, '1': bfs, '1.0': inner(0), '1.1': inner(1)})

# ------------------------------------------------- entry points taking a root
def root_ok(X, n):
    return [('a node', X.theory.wf(n))]
def c_ser_root():
    return Contract('psdd_node_util::SerializePsddNodes', ptypes=[NODE], requires=lambda X: root_ok(X, X.a(0)),
                    ensures=lambda X: X.theory.ser(X.res) + [('starts with the root', at(X.res, 0) == X.a(0)), ('only reachable nodes are listed', Implies(closed1(X, X.a(0)), listed_in(X, X.res)))])
def closed1(X, r):
    T, i, n = X.theory, *z3.Ints('i n')
    return And(S(QS, r), FA([n, i], Implies(And(S(QS, n), T.dt(n) == 2, 0 <= i, i < T.np(n)), And(S(QS, T.prime(n, i)), S(QS, T.sub(n, i)))), [T.prime(n, i), T.sub(n, i)]))
def listed_in(X, s):
    i = z3.Int('i')
    return FA([i], Implies(And(0 <= i, i < ln(s)), S(QS, at(s, i))), [at(s, i)])
def all_clear(X, fld, zero):
    r = z3.Int('r')
    f = X.oh(*fld)
    return [('scratch state is clear', FA([r], Implies(X.theory.wf(r), S(f, r) == zero), [S(f, r)]))]
def kept(X, fld):
    return ('scratch state as before', heap_forall(lambda r: Implies(r < X.entry.next, S(X.h(*fld), r) == S(X.oh(*fld), r)), lambda r: S(X.h(*fld), r)))
def c_evaluate_root():
    return Contract('psdd_node_util::Evaluate', ptypes=[None, None, NODE], requires=lambda X: root_ok(X, X.a(2)),
                    ensures=lambda X: [('the value of the root', X.res == V(X.a(0), X.a(1), X.a(2)))])
def c_isconsistent_root():
    return Contract('psdd_node_util::IsConsistent', ptypes=[NODE, None, None], requires=lambda X: root_ok(X, X.a(0)) + all_clear(X, FLAG, z3.BoolVal(False)),
                    ensures=lambda X: [('decides compatibility', X.res == C(X.a(1), X.a(2), X.a(0))), kept(X, FLAG)], modifies=[FLAG])
def c_mpe_root():
    return Contract('psdd_node_util::GetMPESolution', ptypes=[NODE], requires=lambda X: root_ok(X, X.a(0)) + all_clear(X, NU.UDATA, iv(0)),
                    ensures=lambda X: [('the maximal probability', X.res.f['second'] == MP(X.a(0))),
                        # YY is an arbitrary constant
                        ('the assignment follows maximal elements', Implies(X.res.f['first'] == NU.YY, Opt(NU.YY, X.a(0)))),
                        ('the probability of the assignment', Implies(And(X.res.f['first'] == NU.YY, Det(X.a(0))), V(ALLV, NU.YY, X.a(0)) == X.res.f['second'])),
                        ('no assignment has a larger probability', Implies(Det(X.a(0)), V(ALLV, x_, X.a(0)) <= X.res.f['second'])),
                        ('scratch state as before', heap_forall(lambda r: Implies(X.theory.wf(r), S(X.h(*UDATA), r) == S(X.oh(*UDATA), r)), lambda r: S(X.h(*UDATA), r)))],
                    modifies=[NU.UDATA, NU.PF, NU.PS, ('new', NU.PAIR)])

Size = fn('SizeOfFirst', A_II, I, I)
def ax_size(T):
    A, k = z3.Const('A', A_II), z3.Int('k')
    a = S(A, k)
    return [FA([A], Size(A, 0) == 0, [Size(A, 0)]), FA([A, k], Implies(k >= 0, Size(A, k + 1) == Size(A, k) + If(T.dt(a) == 2, T.np(a) - 1, If(T.dt(a) == 3, 1, 0))), [(Size(A, k), a)])]
def c_size():
    def loop(L, X):
        s = L.var('serialized_psdds', t=VEC)
        return [('size so far', L.var('psdd_size', t=('int',)) == Size(s.f['arr'], L.k))]
    def ens(X):
        s = X.ex.all_calls['SerializePsddNodes'].res
        return [('the size of the nodes below the root', X.res == Size(s.f['arr'], ln(s)))]
    return Contract('psdd_node_util::GetPsddSize', requires=lambda X: root_ok(X, X.a(0)), ensures=ens, loops={'0': loop})

# --------------------------------------------------------------- coverage query
def c_covered():
    MT = ('map', ('int',), NODE)
    QT = ('queue', NODE)
    def parts(L, X):
        T, rs = X.theory, X.a(0)
        return T, rs, L.var('covered_nodes', t=MT), L.var('front_nodes', t=QT)
    def wait(q, j, h=None):
        h = q.f['head'] if h is None else h
        return And(h <= j, j < q.f['head'] + q.f['len'])
    def covered(c, T, n):
        return And(S(c.f['dom'], T.nidx(n)), S(c.f['val'], T.nidx(n)) == n)
    def entries(X, c):
        """every entry is a node of the manager under its own index"""
        T, rs, q = X.theory, X.a(0), z3.Int('q')
        v = S(c.f['val'], q)
        return FA([q], Implies(S(c.f['dom'], q), And(T.wf(v), T.mgr(v) == T.mgr(at(rs, 0)), T.nidx(v) == q)), [S(c.f['dom'], q)])
    def reach(X, c):
        q = z3.Int('q')
        return Implies(closed(X, X.a(0)), FA([q], Implies(S(c.f['dom'], q), S(QS, S(c.f['val'], q))), [S(c.f['dom'], q)]))
    def nothing(X, c):
        q = z3.Int('q')
        return Implies(ln(X.a(0)) == 0, FA([q], Not(S(c.f['dom'], q)), [S(c.f['dom'], q)]))
    def waiting(w, n):
        return And(wait(w, S(w.f['ix'], n)), S(w.f['arr'], S(w.f['ix'], n)) == n)
    def common(L, X, k, cur=None):
        T, rs, c, w = parts(L, X)
        i, j, q, e = z3.Ints('i j q e')
        a = S(w.f['arr'], j)
        v = q
        out = [('entries are nodes', entries(X, c)), ('only reachable nodes', reach(X, c)), ('nothing from nothing', nothing(X, c)),
               ('queue', And(w.f['len'] >= 0, FA([j], Implies(wait(w, j), And(T.wf(a), T.mgr(a) == T.mgr(at(rs, 0)), covered(c, T, a), S(w.f['ix'], a) == j)), [a]))),
               ('roots are covered', FA([i], Implies(And(0 <= i, i < k), covered(c, T, at(rs, i))), [at(rs, i)]))]
        for nm, ch in (('primes', T.prime), ('subs', T.sub)):
            x = ch(v, e)
            g = And(covered(c, T, v), T.dt(v) == 2, Not(waiting(w, v)), 0 <= e, e < T.np(v))
            if cur is not None:
                g = And(g, v != cur)
            out.append(('%s of visited nodes are covered' % nm, FA([q, e], Implies(g, covered(c, T, x)), [x])))
        return out
    def roots(L, X):
        return common(L, X, L.k)
    def bfs(L, X):
        return common(L, X, ln(X.a(0)))
    def inner(which):
        def inv(L, X):
            T, rs, c, w = parts(L, X)
            n = L.var('cur_psdd_node', t=NODE, entry=True)
            e = z3.Int('e')
            out = common(L, X, ln(rs), n)
            out.append(('current node', And(T.wf(n), T.dt(n) == 2, T.mgr(n) == T.mgr(at(rs, 0)), covered(c, T, n), Not(waiting(w, n)), 
                         Implies(closed(X, rs), S(QS, n)))))
            out.append(('primes so far', FA([e], Implies(And(0 <= e, e < (L.k if which == 0 else T.np(n))), covered(c, T, T.prime(n, e))), [T.prime(n, e)])))
            if which == 1:
                out.append(('subs so far', FA([e], Implies(And(0 <= e, e < L.k), covered(c, T, T.sub(n, e))), [T.sub(n, e)])))
            return out
        return inv
    def ens(X):
        T, rs, c = X.theory, X.a(0), X.res
        i, q, e = z3.Ints('i q e')
        v = q
        out = [('entries are nodes', entries(X, c)), ('only reachable nodes', reach(X, c)), ('nothing from nothing', nothing(X, c)),
               ('roots are covered', FA([i], Implies(And(0 <= i, i < ln(rs)), covered(c, T, at(rs, i))), [at(rs, i)]))]
        for nm, ch in (('primes', T.prime), ('subs', T.sub)):
            x = ch(v, e)
            out.append(('%s of covered nodes are covered' % nm, FA([q, e], Implies(And(covered(c, T, v), T.dt(v) == 2, 0 <= e, e < T.np(v)), covered(c, T, x)), [x])))
        return out
    return Contract('psdd_node_util::GetCoveredPsddNodes', ptypes=[VEC], requires=lambda X: roots_ok(X, X.a(0)), ensures=ens,
                    loops={'0': roots, '1': bfs, '1.0': inner(0), '1.1': inner(1)})

UNITS = [
    (['C03', 'C21'], lambda: Unit('covered', list(PN), FILT, lambda: theory(), [Target(c_covered())])),
    (['C03'], lambda: Unit('vtree depth', list(PN), FILT, lambda: theory(), [Target(vdepth_contract())])),
    (['C03'], lambda: Unit('serialize', list(PN), FILT, lambda: theory(), [Target(c_ser_vec())], [vdepth_contract()])),
    (['C03'], lambda: Unit('serialize root', list(PN), FILT, lambda: theory(), [Target(c_ser_root())], [c_ser_vec()])),
    (['C04', 'C11', 'C22', 'C23'], lambda: Unit('evaluate root', list(PN), FILT, lambda: theory(ax_V), [Target(c_evaluate_root())], [c_ser_root(), NU.c_evaluate()])),
    (['C05', 'C22'], lambda: Unit('isconsistent root', list(PN), FILT, lambda: theory(ax_C), [Target(c_isconsistent_root())], [c_ser_root(), NU.c_isconsistent()])),
    (['C22'], lambda: Unit('psdd size', list(PN), FILT, lambda: theory(ax_size), [Target(c_size())], [c_ser_root()])),
    (['C07', 'C22'], lambda: Unit('mpe root', list(PN), FILT, lambda: theory(ax_MP, ax_V, ax_Det, proved(NU.lem_mpe, 'no assignment beats the maximum', 'an optimal assignment reaches the maximum')), [Target(c_mpe_root())], [c_ser_root(), NU.c_mpe()])),
]
