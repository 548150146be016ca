"""Vtrees from interaction graphs (C24)."""
from .core import *
from . import manager as MA
from . import unique as UQ
from .vtrees import VTheory, USED, ax_tree
from cppvc.theory import Opaque
MF = ('src/minfill_vtree.cpp', 'src/uai_network.cpp')
MFF = ['ConnectedGraph', 'RemoveNode', 'VtreeFromGraph', 'MinFillVtree', 'UaiNetwork', 'anonymous namespace']
A_IAB = z3.ArraySort(I, A_IB)
ADJ = ('map', ('int',), ('set', ('int',)))
ED = z3.Const('Edges', A_IAB)                     # the interaction graph
Card = fn('Cardinality', A_IB, I)
Cn = fn('Connected', A_IB, B)                     # every closed part that is not empty is everything
CnZ = fn('ConnectedPart', A_IB, A_IB)
CnA, CnB = fn('ConnectedInside', A_IB, I), fn('ConnectedOutside', A_IB, I)
Good = fn('SplitsTheGraph', I, B)
CnV = fn('ConnectedBelow', I, B)
GdW = fn('SameScope', A_IB, I, I)
Dj = fn('DisjointBelow', I, I, B)
DjW = fn('DisjointBelowWitness', I, I, I)
Sp = fn('NoEdgeBetween', I, I, B)
SpX, SpY = fn('EdgeFrom', I, I, I), fn('EdgeTo', I, I, I)
def ax_card(T):
    """cardinality of finite sets"""
    d, e, k, x = z3.Const('d', A_IB), z3.Const('e', A_IB), z3.Int('k'), z3.Int('x')
    w = z3.Function('SubsetWitness', A_IB, A_IB, I)(d, e)
    b = z3.Const('b', B)
    st = z3.Store(d, k, b)
    some = z3.Function('Element', A_IB, I)(d)
    return [FA([d, k, b], Card(st) == Card(d) + If(S(d, k), If(b, iv(0), iv(-1)), If(b, iv(1), iv(0))), [Card(st)]),
            FA([d], And(Card(d) >= 0, Implies(Card(d) > 0, S(d, some))), [Card(d)]), FA([d, x], Implies(S(d, x), Card(d) > 0), [(Card(d), S(d, x))]),
            Card(z3.K(I, z3.BoolVal(False))) == 0,
            # finite sets are determined by their size and inclusion
            FA([d, e, x], Implies(And(Card(d) == Card(e), Implies(S(d, w), S(e, w)), S(e, x)), S(d, x)), [(Card(d), Card(e), S(e, x))])]
def ax_graph(T):
    D, x, y, v, l, r = z3.Const('D', A_IB), z3.Int('x'), z3.Int('y'), z3.Int('v'), z3.Int('l'), z3.Int('r')
    Z, a, b = CnZ(D), CnA(D), CnB(D)
    g = GdW(D, v)
    p, q = T.vleft(v), T.vright(v)
    return [FA([D], Implies(Not(Cn(D)), And(S(D, a), S(Z, a), S(D, b), Not(S(Z, b)))), [Cn(D)]),
            FA([D, x, y], Implies(And(Not(Cn(D)), S(D, x), S(D, y), S(Z, x), S(S(ED, x), y)), S(Z, y)), [(S(Z, x), S(S(ED, x), y)), (S(Z, y), S(S(ED, x), y))]),
            FA([v, x], Implies(And(v > 0, T.vleaf(v)), InS(v, x) == (x == T.vvar(v))), [InS(v, x)]),
            FA([v, x], Implies(And(v > 0, Not(T.vleaf(v))), InS(v, x) == Or(InS(p, x), InS(q, x))), [(InS(v, x), p), (InS(v, x), q)]),
            FA([v], Implies(And(v > 0, T.vleaf(v)), Good(v)), [Good(v)]),
            FA([v], Implies(And(v > 0, Not(T.vleaf(v)), Good(p), Good(q), Dj(p, q), Or(Sp(p, q), And(T.vleaf(p), CnV(v)))), Good(v)), [(Good(v), p)]),
            FA([l, r], Or(Dj(l, r), And(InS(l, DjW(l, r)), InS(r, DjW(l, r)))), [Dj(l, r)]),
            FA([l, r], Or(Sp(l, r), And(InS(l, SpX(l, r)), InS(r, SpY(l, r)), S(S(ED, SpX(l, r)), SpY(l, r)))), [Sp(l, r)]),
            FA([D, v], Implies(And(Cn(D), InS(v, g) == S(D, g)), CnV(v)), [(Cn(D), CnV(v))])]
class GTheory(VTheory):
    ghosts = {'vertices': I}
    def c_createManagementInstance(self, ex, a, n):
        return Opaque()
    def lib_method(self, ex, x, bt, name, args, n):
        if bt[0] == 'unknown' and 'htd' in str(bt[1]) or bt[0] == 'cls' and bt[1] in ('MultiHypergraph', 'MinFillOrderingAlgorithm', 'IVertexOrdering', 'VertexOrdering'):
            for a in args:
                ex.ev(a)
            r = self.opaque_method(ex, x, name, n)
            return r if r is not None else Opaque()
        return super().lib_method(ex, x, bt, name, args, n)
    def opaque_method(self, ex, x, name, n):
        if name == 'addVertex':
            ex.st.ghost['vertices'] = ex.st.ghost['vertices'] + 1
            return ex.st.ghost['vertices'] - ex.entry_state.ghost['vertices']
        if name == 'sequence':
            # htd: an ordering is a permutation of the vertices, which are
            # numbered from one
            t = ('vec', ('int',))
            v = ex.fresh(ex.shapes.shape(t), 'ordering')
            N, i, j, w = ex.st.ghost['vertices'] - ex.entry_state.ghost['vertices'], z3.Int('i'), z3.Int('j'), z3.Function(ex.fresh_name('place'), I, I)
            e = S(v.f['arr'], i)
            ex.assume(And(v.f['len'] == N, FA([i], Implies(And(0 <= i, i < N), And(1 <= e, e <= N, w(e) == i)), [e]), FA([j], Implies(And(1 <= j, j <= N), And(0 <= w(j), w(j) < N, S(v.f['arr'], w(j)) == j)), [w(j)])))
            ex.place, ex.sequence = w, v
            return ex.new_local(t, 'ordering', v)
        return None
def dom(g):
    return g.f['dom']
def nb(g, x, y):
    return S(S(g.f['val'].f['dom'], x), y)
def graph(g):
    """g is the part of the interaction graph on its domain"""
    x, y = z3.Ints('x y')
    return [('the graph on its vertices', FA([x, y], Implies(S(dom(g), x), nb(g, x, y) == And(S(dom(g), y), S(S(ED, x), y))), [nb(g, x, y), (S(dom(g), x), S(S(ED, x), y))])), ('its size', g.f['size'] == Card(dom(g)))]
def undirected():
    x, y = z3.Ints('x y')
    return [('edges', FA([x, y], And(S(S(ED, x), y) == S(S(ED, y), x), Implies(S(S(ED, x), y), x != y)), [S(S(ED, x), y)]))]
def c_connected():
    ST, SE = ('stack', ('int',)), ('set', ('int',))
    def req(X):
        g = X.a(0)
        return undirected() + graph(g) + [('there is a vertex', g.f['size'] > 0)]
    def state(X, L, cur=None, snap=None, k=None):
        g = X.a(0)
        D = dom(g)
        e, st = L.var('explored_nodes', t=SE), L.var('nodes_to_explore', t=ST)
        x, y, j = z3.Ints('x y j')
        E = dom(e)
        on = z3.Exists([j], And(0 <= j, j < ln(st), at(st, j) == x))
        closed = FA([y], Implies(nb(g, x, y), S(E, y)), [nb(g, x, y)])
        v0 = X.ex.start_vertex
        Z = CnZ(D)
        out = [('explored vertices', FA([x], Implies(S(E, x), S(D, x)), [S(E, x)])), ('the first vertex', And(S(D, v0), S(E, v0))), ('their number', e.f['size'] == Card(E)),
               ('vertices to explore are explored', And(ln(st) >= 0, FA([j], Implies(And(0 <= j, j < ln(st)), S(E, at(st, j))), [at(st, j)]))),
               ('neighbours of explored vertices', FA([x], Implies(And(S(E, x), *([x != cur] if cur is not None else [])), Or(on, closed)), [S(E, x)])),
               ('one side of a closed part', Implies(Not(Cn(D)), FA([x], Implies(S(E, x), S(Z, x) == S(Z, v0)), [S(E, x)])))]
        return out
    def start(L, X):
        if L.phase == 'init':
            st = L.var('nodes_to_explore', t=ST)
            X.ex.start_vertex = at(st, iv(0))
    def explore(L, X):
        start(L, X)
        return state(X, L)
    def nbrs(L, X):
        g = X.a(0)
        cur = L.var('cur_node', t=('int',))
        y = z3.Int('y')
        E = dom(L.var('explored_nodes', t=SE))
        out = state(X, L, cur) + [('the vertex', And(S(E, cur), S(dom(g), cur)))]
        sn = X.ex.range_snaps.get(L.node['id']) if L.phase != 'init' else None
        if sn is not None:
            out.append(('neighbours so far', FA([y], Implies(And(nb(g, cur, y), 0 <= sn.inv(y), sn.inv(y) < L.k), S(E, y)), [sn.inv(y), nb(g, cur, y)])))
        return out
    def split(L, X):
        g = X.a(0)
        x, y = z3.Ints('x y')
        a, b = L.var('explored_graph', t=ADJ), L.var('remaining_graph', t=ADJ)
        E = dom(L.var('explored_nodes', t=SE))
        sn = X.ex.range_snaps.get(L.node['id'])
        dn = And(S(dom(g), x), 0 <= sn.inv(x), sn.inv(x) < L.k)
        same = lambda h: FA([x, y], Implies(S(dom(h), x), nb(h, x, y) == nb(g, x, y)), [nb(h, x, y)])
        return [('explored part so far', FA([x], S(dom(a), x) == And(dn, S(E, x)), [S(dom(a), x), sn.inv(x)])), ('the rest so far', FA([x], S(dom(b), x) == And(dn, Not(S(E, x))), [S(dom(b), x), sn.inv(x)])),
                ('their neighbours', And(same(a), same(b))), ('their sizes', And(a.f['size'] == Card(dom(a)), b.f['size'] == Card(dom(b))))]
    def ens(X):
        g, r, x, y = X.a(0), X.res, z3.Int('x'), z3.Int('y')
        if hasattr(X, 'ex') and False:
            pass
        g = g if not hasattr(g, 't') else g
        a, b = r.f['first'], r.f['second']
        D = dom(g)
        return [('a vertex is in one part', FA([x], And(S(D, x) == Or(S(dom(a), x), S(dom(b), x)), Not(And(S(dom(a), x), S(dom(b), x)))), [S(D, x), S(dom(a), x), S(dom(b), x)]))] + graph(a) + graph(b) + [
                ('no edge between the parts', FA([x, y], Implies(And(S(dom(a), x), S(dom(b), y)), Not(S(S(ED, x), y))), [(S(dom(a), x), S(dom(b), y))])),
                ('the first is not empty', a.f['size'] > 0), ('connected if there is no second part', Implies(b.f['size'] == 0, Cn(D)))]
    return Contract('ConnectedGraph', requires=req, ensures=ens, loops={'0': explore, '0.0': nbrs, '1': split})
def c_remove():
    def loop(L, X):
        g0 = X.a(0)
        v = X.a(1)
        g = L.var('graph_adj', t=ADJ)
        x, y = z3.Ints('x y')
        out = [('vertices', And(g.f['size'] == g0.f['size'], FA([x], S(dom(g), x) == S(dom(g0), x), [S(dom(g), x)]))), ('the vertex itself', FA([y], nb(g, v, y) == nb(g0, v, y), [nb(g, v, y)]))]
        sn = X.ex.range_snaps.get(L.node['id']) if L.phase != 'init' else None
        if sn is not None:
            dn = And(nb(g0, v, x), 0 <= sn.inv(x), sn.inv(x) < L.k)
            out.append(('removed so far', FA([x, y], Implies(And(S(dom(g0), x), x != v), nb(g, x, y) == And(nb(g0, x, y), Not(And(dn, y == v)))), [nb(g, x, y)])))
        else:
            out.append(('nothing is removed yet', FA([x, y], nb(g, x, y) == nb(g0, x, y), [nb(g, x, y)])))
        return out
    def ens(X):
        g, v, r, x = X.a(0), X.a(1), X.res, z3.Int('x')
        return [('without the vertex', FA([x], S(dom(r), x) == And(S(dom(g), x), x != v), [S(dom(r), x), S(dom(g), x)]))] + graph(r)
    return Contract('RemoveNode', requires=lambda X: undirected() + graph(X.a(0)) + [('a vertex', S(dom(X.a(0)), X.a(1)))], ensures=ens, loops={'0': loop})
QL = ('queue', ('int',))
def el(q, j):
    return S(q.f['arr'], q.f['head'] + j)
def c_build():
    def perm(g, o, inside=None):
        x, i, j = z3.Ints('x i j')
        D = dom(g)
        n = o.f['len']
        return [('the order lists vertices', FA([i], Implies(And(o.f['head'] <= i, i < o.f['head'] + n), S(D, S(o.f['arr'], i))), [S(o.f['arr'], i)])), ('each once', FA([i, j], Implies(And(o.f['head'] <= i, i < j, j < o.f['head'] + n), S(o.f['arr'], i) != S(o.f['arr'], j)), [(S(o.f['arr'], i), S(o.f['arr'], j))])),
                ('and all of them', FA([x], Implies(S(D, x), z3.Exists([j], And(o.f['head'] <= j, j < o.f['head'] + n, S(o.f['arr'], j) == x))), [S(D, x)]))]
    def req(X):
        g, o, x = X.a(0), X.a(1), z3.Int('x')
        return undirected() + graph(g) + [('there is a vertex', o.f['len'] >= 1)] + perm(g, o)
    def split(L, X):
        cg = X.ex.all_calls['ConnectedGraph'].res
        A = dom(cg.f['first'])
        o = L.var('var_order', t=QL)
        i, j, jj = z3.Ints('i j jj')
        out = []
        h = o.f['head']
        for nm, ins in (('var_order_left', lambda x: S(A, x)), ('var_order_right', lambda x: Not(S(A, x)))):
            q = L.var(nm, t=QL)
            src = lambda j: z3.Exists([i], And(h <= i, i < h + L.k, S(o.f['arr'], i) == S(q.f['arr'], j)))
            inr = And(q.f['head'] <= j, j < q.f['head'] + q.f['len'])
            out += [('%s: from the order' % nm, And(q.f['head'] == 0, q.f['len'] >= 0, FA([j], Implies(inr, And(ins(S(q.f['arr'], j)), src(j))), [S(q.f['arr'], j)]))),
                    ('%s: each once' % nm, FA([j, jj], Implies(And(inr, j < jj, jj < q.f['head'] + q.f['len']), S(q.f['arr'], j) != S(q.f['arr'], jj)), [(S(q.f['arr'], j), S(q.f['arr'], jj))])),
                    ('%s: all so far' % nm, FA([i], Implies(And(h <= i, i < h + L.k, ins(S(o.f['arr'], i))), z3.Exists([j], And(inr, S(q.f['arr'], j) == S(o.f['arr'], i)))), [S(o.f['arr'], i)]))]
        return out
    def ens(X):
        T, g, r, x, u = X.theory, X.a(0), X.res, z3.Int('x'), z3.Int('u')
        us, us0, N = X.h(*USED), X.oh(*USED), X.entry.next
        p, q = T.vleft(r), T.vright(r)
        hint = []
        if X.ex.func.qname == 'VtreeFromGraph':
            hint = [('parts', And(*touch(p, q), Implies(Not(T.vleaf(r)), And(Dj(p, q), Or(Sp(p, q), T.vleaf(p))))))]
        out = [('a new vtree', And(r >= N, r > 0, r < X.new.next, Not(S(us, r)))), ('other vtrees are untouched', FA([u], Implies(u < N, S(us, u) == S(us0, u)), [S(us, u)])), ('its variables are the vertices', FA([x], InS(r, x) == S(dom(g), x), [InS(r, x), S(dom(g), x)]))]
        if hint:
            out += hint + [('connected where a variable is split off', Or(T.vleaf(r), Sp(p, q), CnV(r)))]
        return out + [('each variable once, components in different subtrees', Good(r))]
    return Contract('VtreeFromGraph', requires=req, ensures=ens, modifies=[USED, ('new', 'Vtree')], loops={'0': split})
# ------------------------------------------------------------ ConstructVtree
A_II2 = z3.ArraySort(I, I)
A_III = z3.ArraySort(I, A_II2)
InSc = fn('InScope', A_II2, A_III, I, I, B)
ScW = fn('PlaceInScope', A_II2, A_III, I, I, I)
Tog = fn('TogetherBefore', A_II2, A_III, I, I, I, B)
def ax_scopes(T):
    L_, R_ = z3.Const('lens', A_II2), z3.Const('rows', A_III)
    f, x, y, a = z3.Ints('f x y a')
    w = ScW(L_, R_, f, x)
    at2 = S(S(R_, f), a)
    ins = lambda x: InSc(L_, R_, f, x)
    return [FA([L_, R_, f, x], Implies(ins(x), And(0 <= w, w < S(L_, f), S(S(R_, f), w) == x)), [ins(x)]),
            FA([L_, R_, f, a], Implies(And(0 <= a, a < S(L_, f)), ins(at2)), [(at2, S(L_, f))]),
            FA([L_, R_, x, y], Not(Tog(L_, R_, iv(0), x, y)), [Tog(L_, R_, iv(0), x, y)]),
            FA([L_, R_, f, x, y], Implies(f >= 0, Tog(L_, R_, f + 1, x, y) == Or(Tog(L_, R_, f, x, y), And(x != y, ins(x), ins(y)))), [(Tog(L_, R_, f + 1, x, y))])]
def lem_scopes(T):
    L_, R_ = z3.Const('lens', A_II2), z3.Const('rows', A_III)
    k, x, y = z3.Ints('k x y')
    t = lambda k: Tog(L_, R_, k, x, y)
    s_ = lambda k: Tog(L_, R_, k, y, x)
    both = lambda f: And(InSc(L_, R_, f, x), InSc(L_, R_, f, y))
    f = z3.Int('f')
    T.lemmas.append(Lemma('interaction is symmetric', FA([L_, R_, k, x, y], Implies(And(k >= 0, t(k)), And(x != y, s_(k))), [t(k)]),
        [('no scope', [k == 0], Not(t(k))), ('one more scope', [k >= 0, Implies(t(k), And(x != y, s_(k))), t(k + 1), *touch(If(s_(k + 1), iv(1), iv(0)))], And(x != y, s_(k + 1)))]))
    ex = lambda k: z3.Exists([f], And(0 <= f, f < k, both(f)))
    T.lemmas.append(Lemma('interacting variables have a common scope', FA([L_, R_, k, x, y], Implies(And(k >= 0, t(k)), ex(k)), [t(k)]),
        [('no scope', [k == 0], Not(t(k))), ('one more scope', [k >= 0, Implies(t(k), ex(k)), t(k + 1)], ex(k + 1))]))
    return []
def c_minfill():
    def scopes(X):
        net = X.ofld('network_')
        return net, sel(X.oh('UaiNetwork', 'm_clusters'), net), S(X.oh('UaiNetwork', 'm_var_size'), net)
    def req(X):
        net, sc, n = scopes(X)
        K, L_, R_ = sc.f['len'], sc.f['arr'].f['len'], sc.f['arr'].f['arr']
        f, a, x, y = z3.Ints('f a x y')
        return [('a network', And(net > 0, n >= 1, K >= 0)), ('scopes', FA([f], S(L_, f) >= 0, [S(L_, f)])),
                ('scopes are made of variables of the network', FA([f, a], Implies(And(0 <= f, f < K, 0 <= a, a < S(L_, f)), And(1 <= S(S(R_, f), a), S(S(R_, f), a) <= n)), [S(S(R_, f), a)])),
                # definition of the interaction graph
                ('variables of one scope interact', FA([x, y], S(S(ED, x), y) == Tog(L_, R_, K, x, y), [S(S(ED, x), y)]))]
    def inrange(x, lo, hi):
        return And(lo <= x, x < hi)
    def placed(X, L):
        q, g, w, x = L.var('minfill_order', t=QL), L.var('graph', t=ADJ), X.ex.place, z3.Int('x')
        return [('places in the order', FA([x], Implies(S(dom(g), x), And(0 <= w(x), w(x) < q.f['len'], S(q.f['arr'], q.f['head'] + q.f['len'] - 1 - w(x)) == x)), [S(dom(g), x)]))]
    def verts(X, L):
        net, sc, n = scopes(X)
        g = L.var('graph', t=ADJ)
        x = z3.Int('x')
        return net, sc, n, g, placed(X, L) + [('vertices', FA([x], S(dom(g), x) == And(1 <= x, x <= n), [S(dom(g), x)])), ('their number', g.f['size'] == Card(dom(g)))]
    def order(L, X):
        q = L.var('minfill_order', t=QL)
        v = L.rng if hasattr(L, 'rng') else None
        o = X.ex.sequence
        j, w = z3.Int('j'), X.ex.place
        n = o.f['len']
        return [('the order so far, in reverse', And(q.f['len'] == L.k, FA([j], Implies(And(q.f['head'] <= j, j < q.f['head'] + q.f['len']), S(q.f['arr'], j) == S(o.f['arr'], q.f['head'] + q.f['len'] - 1 - j)), [S(q.f['arr'], j)])))]
    def adds(L, X):
        net, sc, n = scopes(X)
        i = L.var('i', t=('int',))
        return [('vertices so far', And(i >= 0, X.ex.st.ghost['vertices'] - X.ex.entry_state.ghost['vertices'] == i, i <= n))]
    def empty(L, X):
        net, sc, n = scopes(X)
        g = L.var('graph', t=ADJ)
        i = L.var('i', t=('int',))
        x, y = z3.Ints('x y')
        return placed(X, L) + [('vertices so far', And(1 <= i, i <= n + 1, FA([x], S(dom(g), x) == And(1 <= x, x < i), [S(dom(g), x)]))), ('their number', g.f['size'] == Card(dom(g))), ('no edge', FA([x, y], Implies(S(dom(g), x), Not(nb(g, x, y))), [nb(g, x, y)]))]
    def edges(L, X):
        net, sc, n, g, out = verts(X, L)
        x, y = z3.Ints('x y')
        t = lambda k: Tog(sc.f['arr'].f['len'], sc.f['arr'].f['arr'], k, x, y)
        return out + [('edges of the scopes so far', FA([x, y], Implies(S(dom(g), x), nb(g, x, y) == t(L.k)), [nb(g, x, y), t(L.k)]))]
    def edges1(L, X):
        net, sc, n, g, out = verts(X, L)
        x, y, a = z3.Ints('x y a')
        k = L.outer[-1].k
        R_, L_ = sc.f['arr'].f['arr'], sc.f['arr'].f['len']
        t = Tog(L_, R_, k, x, y)
        bef = z3.Exists([a], And(0 <= a, a < L.k, S(S(R_, k), a) == x))
        return out + [('edges of the scopes and of this one so far', FA([x, y], Implies(S(dom(g), x), nb(g, x, y) == Or(t, And(bef, x != y, InSc(L_, R_, k, y)))), [nb(g, x, y)]))]
    def edges2(L, X):
        net, sc, n, g, out = verts(X, L)
        x, y, a, b = z3.Ints('x y a b')
        k, ka = L.outer[-2].k, L.outer[-1].k
        R_, L_ = sc.f['arr'].f['arr'], sc.f['arr'].f['len']
        t = Tog(L_, R_, k, x, y)
        bef = z3.Exists([a], And(0 <= a, a < ka, S(S(R_, k), a) == x))
        befy = z3.Exists([b], And(0 <= b, b < L.k, S(S(R_, k), b) == y))
        vi = S(S(R_, k), ka)
        return out + [('edges of the scopes and of this one so far', FA([x, y], Implies(S(dom(g), x), nb(g, x, y) == Or(t, And(bef, x != y, InSc(L_, R_, k, y)), And(x == vi, x != y, befy))), [nb(g, x, y)]))]
    def ens(X):
        net, sc, n = scopes(X)
        x = z3.Int('x')
        return [('a vtree', X.res > 0), ('each variable once, components in different subtrees', Good(X.res)), ('its variables are those of the network', FA([x], InS(X.res, x) == And(1 <= x, x <= n), [InS(X.res, x)]))]
    return Contract('MinFillVtree::ConstructVtree', requires=req, ensures=ens, modifies=[USED, ('new', 'Vtree'), ('ghost', 'vertices')],
                    loops={'0': adds, '1': lambda L, X: [], '1.0': lambda L, X: [], '2': order, '3': empty, '4': edges, '4.0': edges1, '4.0.0': edges2})
def theory_(*more):
    T = GTheory()
    for p in (ax_touch, ax_card, ax_graph) + more:
        T.extra_axioms += p(T)
    return T
UNITS = [
    (['C24'], lambda: Unit('connected component', list(MF), MFF, theory_, [Target(c_connected())])),
    (['C24'], lambda: Unit('remove vertex', list(MF), MFF, theory_, [Target(c_remove())])),
    (['C24'], lambda: Unit('vtree of a graph', list(MF), MFF, theory_, [Target(c_build())], [c_connected(), c_remove()])),
    (['C24'], lambda: Unit('network graph', list(MF), MFF, lambda: theory_(ax_scopes, lem_scopes), [Target(c_minfill())], [c_build()])),
]
