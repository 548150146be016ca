"""psdd_node_util: queries over serialised nodes."""
from .core import *

PN = ('src/psdd_node.cpp',)
FILT = ['psdd_node_util', 'vtree_util', 'anonymous namespace', 'Psdd']

# ---------------------------------------------------------------- Evaluate
def c_evaluate():
    def outer(L, X):
        s, m, x = X.a(2), X.a(0), X.a(1)
        T = X.theory
        c = L.var('evaluation_cache', t=('map', ('int',), ('param',)))
        j = z3.Int('j')
        a = at(s, j)
        return [('processed nodes hold their value', FA([j], Implies(And(ln(s) - L.k <= j, j < ln(s)),
                 And(S(c.f['dom'], T.nidx(a)), S(c.f['val'], T.nidx(a)) == V(m, x, a))), [a]))]
    def inner(L, X):
        n = L.var('cur_decn_node', t=DECN)
        return outer(L.outer[-1], X) + [('partial sum', L.var('cur_prob', t=('param',)) == VS(X.a(0), X.a(1), n, L.k))]
    return Contract('psdd_node_util::Evaluate', ptypes=[None, None, VEC],
                    requires=lambda X: X.theory.ser(X.a(2)),
                    ensures=lambda X: [('the value of the root', X.res == V(X.a(0), X.a(1), at(X.a(2), 0)))],
                    loops={'0': outer, '0.0': inner})

# ------------------------------------------------------------ IsConsistent
def flags_clear(X, s):
    f = X.oh(*FLAG)
    j = z3.Int('j')
    return [('activation marks are clear', FA([j], Implies(And(0 <= j, j < ln(s)), Not(S(f, at(s, j)))), [at(s, j)]))]

def mark_inv(CC):
    """after k nodes from the end: exactly the compatible ones are marked"""
    def inv(L, X):
        s, f, f0 = X.a(0), X.h(*FLAG), X.oh(*FLAG)
        r = z3.Int('r')
        return [('marks so far', FA([r], S(f, r) == If(done_suffix(s, L.k, r), CC(X, r), S(f0, r)), [S(f, r)]))]
    return inv
def elem_inv(CC, outer, NAME=('cur_node', 'cur_decn_node')):
    def inv(L, X):
        T = X.theory
        o = L.outer[-1]
        s = X.a(0) if X.ex.func.name == 'IsConsistent' else X.a(1)
        n = at(s, ln(s) - 1 - o.k)
        e = z3.Int('e')
        return outer(o, X) + [('no element so far is compatible', FA([e], Implies(And(0 <= e, e < L.k),
                 Not(And(CC(X, T.prime(n, e)), CC(X, T.sub(n, e))))), [T.prime(n, e)]))]
    return inv

def c_isconsistent():
    CC = lambda X, r: C(X.a(1), X.a(2), r)
    outer = mark_inv(CC)
    def reset(L, X):
        s, f, f0 = X.a(0), X.h(*FLAG), X.oh(*FLAG)
        r = z3.Int('r')
        return [('marks reset', FA([r], S(f, r) == If(And(member(s, r), ix(s, r) >= L.k), CC(X, r), S(f0, r)), [S(f, r)]))]
    return Contract('psdd_node_util::IsConsistent', ptypes=[VEC, None, None],
                    requires=lambda X: X.theory.ser(X.a(0)) + flags_clear(X, X.a(0)),
                    ensures=lambda X: [('decides compatibility', X.res == CC(X, at(X.a(0), 0))),
                                       ('no mark is left', heap_forall(lambda r: S(X.h(*FLAG), r) == S(X.oh(*FLAG), r), lambda r: S(X.h(*FLAG), r)))],
                    modifies=[FLAG],
                    loops={'0': outer, '0.0': elem_inv(CC, outer), '1': reset})

# --------------------------------------------------------------- ModelCount
def c_modelcount():
    def outer(L, X):
        s = X.a(0)
        T = X.theory
        c = L.var('count_cache', t=('map', ('int',), ('mpz',)))
        j = z3.Int('j')
        a = at(s, j)
        return [('processed nodes hold their count', FA([j], Implies(And(ln(s) - L.k <= j, j < ln(s)),
                 And(S(c.f['dom'], T.nidx(a)), S(c.f['val'], T.nidx(a)) == MC(a))), [a]))]
    def inner(L, X):
        n = L.var('cur_decn_node', t=DECN)
        return outer(L.outer[-1], X) + [('partial sum', L.var('total_count', t=('mpz',)) == MCS(n, L.k))]
    return Contract('psdd_node_util::ModelCount', ptypes=[VEC],
                    requires=lambda X: X.theory.ser(X.a(0)),
                    ensures=lambda X: [('the count of the root', X.res == MC(at(X.a(0), 0)))],
                    loops={'0': outer, '0.0': inner})

# --------------------------------------------------------- SetActivationFlag
def c_setactivation():
    ALL = z3.K(I, z3.BoolVal(True))
    CC = lambda X, r: C(ALL, X.a(0), r)
    def outer(L, X):
        s, f, f0 = X.a(1), X.h(*FLAG), X.oh(*FLAG)
        r = z3.Int('r')
        return [('marks so far', FA([r], S(f, r) == If(done_suffix(s, L.k, r), CC(X, r), S(f0, r)), [S(f, r)]))]
    return Contract('psdd_node_util::SetActivationFlag', ptypes=[None, VEC],
                    requires=lambda X: X.theory.ser(X.a(1)) + flags_clear(X, X.a(1)),
                    ensures=lambda X: [('exactly the compatible nodes are marked', heap_forall(
                        lambda r: S(X.h(*FLAG), r) == If(member(X.a(1), r), CC(X, r), S(X.oh(*FLAG), r)), lambda r: S(X.h(*FLAG), r)))],
                    modifies=[FLAG],
                    loops={'0': outer, '0.0': elem_inv(CC, outer)})

# --------------------------------------------------------------------- MPE
PAIR = 'pair<param,int>'
PF, PS = (PAIR, 'first'), (PAIR, 'second')
# the queue (positions h..h+l-1 of A) of the second pass
Pend = fn('Pending', A_II, I, I, I, B)          # a variable in the scope of a queued node
PendW = fn('PendingW', A_II, I, I, I, I)
Compl = fn('Completion', A_II, I, I, A_IB, A_IB, B)  # y differs from inst on pending variables only
ComplW = fn('CompletionW', A_II, I, I, A_IB, A_IB, I)
AllOpt = fn('AllOptimal', A_II, I, I, A_IB, B)  # y is optimal below every queued node
AllOptW = fn('AllOptimalW', A_II, I, I, A_IB, I)
def ax_queue(T):
    A = z3.Const('A', A_II)
    h, l, x, p = z3.Ints('h l x p')
    y, t = z3.Consts('y t', A_IB)
    w, cw, ow = PendW(A, h, l, x), ComplW(A, h, l, t, y), AllOptW(A, h, l, y)
    inq = lambda p: And(h <= p, p < h + l)
    return [
        FA([A, h, l, x, p], Implies(And(inq(p), InS(T.vt(S(A, p)), x)), Pend(A, h, l, x)), [(Pend(A, h, l, x), S(A, p))]),
        FA([A, h, l, x], Implies(Pend(A, h, l, x), And(inq(w), InS(T.vt(S(A, w)), x))), [Pend(A, h, l, x)]),
        FA([A, h, l, t, y, x], Implies(And(Compl(A, h, l, t, y), S(y, x) != S(t, x)), Pend(A, h, l, x)), [(Compl(A, h, l, t, y), S(y, x))]),
        FA([A, h, l, t, y], Implies(Not(Compl(A, h, l, t, y)), And(S(y, cw) != S(t, cw), Not(Pend(A, h, l, cw)))), [Compl(A, h, l, t, y)]),
        FA([A, h, l, y, p], Implies(And(AllOpt(A, h, l, y), inq(p)), Opt(y, S(A, p))), [(AllOpt(A, h, l, y), S(A, p))]),
        FA([A, h, l, y], Implies(Not(AllOpt(A, h, l, y)), And(inq(ow), Not(Opt(y, S(A, ow))))), [AllOpt(A, h, l, y)]),
    ]
YY = z3.Const('AnyAnswer', A_IB)
def c_mpe():
    QT = ('queue', NODE)
    def cached(X, r):
        """node r holds its maximal probability and where it is reached"""
        T = X.theory
        p = S(X.h(*UDATA), r)
        sec = S(X.h(*PS), p)
        return And(p > 0, p >= X.entry.next, p < X.new.next, S(X.h(*PF), p) == MP(r),
                   Implies(T.dt(r) == 3, And(Implies(sec != 0, T.tpar(r) == MP(r)), Implies(sec == 0, T.fpar(r) == MP(r)))),
                   Implies(T.dt(r) == 2, And(0 <= sec, sec < T.np(r), PR(r, sec) == MP(r))))
    def outer(L, X):
        s = X.a(0)
        r, q = z3.Ints('r q')
        u, u0 = X.h(*UDATA), X.oh(*UDATA)
        return [('processed nodes hold their maximum', FA([r], Implies(done_suffix(s, L.k, r), cached(X, r)), [S(u, r)])),
                ('other nodes untouched', FA([r], Implies(Not(done_suffix(s, L.k, r)), S(u, r) == S(u0, r)), [S(u, r)])),
                ('old pairs untouched', FA([q], Implies(q < X.entry.next, And(S(X.h(*PF), q) == S(X.oh(*PF), q), S(X.h(*PS), q) == S(X.oh(*PS), q))), [S(X.h(*PF), q)]))]
    def inner(L, X):
        T = X.theory
        n = L.var('cur_decn_node', t=DECN)
        mp, mi = L.var('max_product', t=('param',)), L.var('max_index')
        e = z3.Int('e')
        return outer(L.outer[-1], X) + [
            ('maximum so far', FA([e], Implies(And(0 <= e, e < L.k), PR(n, e) <= mp), [PR(n, e), T.prime(n, e)])),
            ('hint', And(*touch(PR(n, L.k), PR(n, mi)))),
            ('reached by an element', Or(And(mp == 0, mi == 0), And(0 <= mi, mi < L.k, PR(n, mi) == mp)))]
    def extract(L, X):
        T, s = X.theory, X.a(0)
        q = L.var('node_queue', t=QT)
        inst = L.var('max_instantiation', t=('bitset',))
        A, h, l = q.f['arr'], q.f['head'], q.f['len']
        p, p2, x = z3.Ints('p p2 x')
        y = z3.Const('y', A_IB)
        inq = lambda p: And(h <= p, p < h + l)
        return [('hint', And(*touch(S(A, h + l - 1), S(A, h + l - 2)))),
                ('queued nodes are listed', FA([p], Implies(inq(p), And(T.wf(S(A, p)), member(s, S(A, p)))), [S(A, p)])),
                ('queued scopes are disjoint', FA([p, p2, x], Implies(And(inq(p), inq(p2), p < p2), Not(And(InS(T.vt(S(A, p)), x), InS(T.vt(S(A, p2)), x)))),
                    [(InS(T.vt(S(A, p)), x), InS(T.vt(S(A, p2)), x))])),
                ('queued scopes are unset', FA([p, x], Implies(And(inq(p), InS(T.vt(S(A, p)), x)), Not(S(inst, x))), [InS(T.vt(S(A, p)), x)])),
                ] + steps(L, X, A, h, l, inst) + [('any completion below the queue is optimal', Implies(And(Compl(A, h, l, inst, YY), AllOpt(A, h, l, YY)), Opt(YY, at(s, 0))))]
    def steps(L, X, A, h, l, inst):
        if L.phase != 'step':
            return []
        T = X.theory
        q0 = X.ex.read_var(L.start, L.find('node_queue', QT))
        i0 = X.ex.read_var(L.start, L.find('max_instantiation', ('bitset',)))
        A0, h0, l0 = q0.f['arr'], q0.f['head'], q0.f['len']
        n = S(A0, h0)
        sec = S(X.h(*PS), S(X.h(*UDATA), n))
        cw, ow = ComplW(A0, h0, l0, i0, YY), AllOptW(A0, h0, l0, YY)
        w = PendW(A, h, l, cw)
        c0, c1 = Compl(A0, h0, l0, i0, YY), Compl(A, h, l, inst, YY)
        o0, o1 = AllOpt(A0, h0, l0, YY), AllOpt(A, h, l, YY)
        b = lambda x: If(x, iv(1), iv(0))
        own = If(T.dt(n) == 1, T.var(n), T.tv(n))
        # the goals of one iteration, in small steps
        out = [('step: pending variables', And(*touch(b(S(YY, cw)), b(Pend(A, h, l, cw)), b(Pend(A0, h0, l0, cw)), S(A0, w), S(A, w), n, S(A, ow), S(A, h + l - 1), S(A, h + l - 2)))),
               ('step: completion', Implies(c1, c0)),
               ('step: the choice at the node', And(*touch(b(S(YY, own)), b(Pend(A, h, l, own))), Implies(And(c1, o1), Opt(YY, n)))),
               ('step: optimal', Implies(And(c1, o1), o0))]
        return out
    def clean(L, X):
        s, u, u0 = X.a(0), X.h(*UDATA), X.oh(*UDATA)
        r = z3.Int('r')
        done = lambda r: And(member(s, r), ix(s, r) < L.k)
        return [('cleared so far', FA([r], S(u, r) == If(done(r), iv(0), S(L.entry.heap[UDATA], r)), [S(u, r)]))]
    def ens(X):
        u, u0, s = X.h(*UDATA), X.oh(*UDATA), X.a(0)
        return [('the maximal probability', X.res.f['second'] == MP(at(s, 0))),
                # YY is an arbitrary constant
                ('reached by the assignment', Implies(X.res.f['first'] == YY, Opt(YY, at(s, 0)))),
                ('no cached value is left', heap_forall(lambda r: S(u, r) == If(member(s, r), iv(0), S(u0, r)), lambda r: S(u, r)))]
    return Contract('psdd_node_util::GetMPESolution', ptypes=[VEC],
                    requires=lambda X: X.theory.ser(X.a(0)), ensures=ens, modifies=[UDATA, PF, PS, ('new', PAIR)],
                    loops={'0': outer, '0.0': inner, '1': extract, '2': clean})

def lem_mpe(T):
    """maximality: no assignment has a larger probability"""
    n, i, y, x = z3.Int('n0'), z3.Int('i0'), y_, x_
    j = z3.Int('j')
    T.lemmas.append(node_lemma(T, 'incompatible assignments have probability zero', [x_], lambda n: And(V(ALLV, x_, n) >= 0, Implies(Not(C(ALLV, x_, n)), V(ALLV, x_, n) == 0)),
        Q=lambda n, i: And(VS(ALLV, x_, n, i) >= 0, Implies(Not(C(ALLV, x_, n)), VS(ALLV, x_, n, i) == 0)),
        hyps=lambda n: [T.prime(n, z3.Int('i0')) == T.prime(n, z3.Int('i0')), FA([i_], Implies(And(0 <= i_, i_ < T.np(n)), T.par(n, i_) >= 0), [T.prime(n, i_)])],
        pats=lambda n: [V(ALLV, x_, n)]))
    T.lemmas.append(node_lemma(T, 'no assignment beats the maximum', [x_], lambda n: V(ALLV, x_, n) <= MP(n),
        Q=lambda n, i: And(VS(ALLV, x_, n, i) <= MP(n), VS(ALLV, x_, n, i) >= 0,
                           Or(VS(ALLV, x_, n, i) == 0, z3.Exists([j], And(0 <= j, j < i, C(ALLV, x_, T.prime(n, j)))))),
        guard=Det, pats=lambda n: [V(ALLV, x_, n)],
        inst=lambda n, i: [mono(V(ALLV, x_, T.prime(n, i)), V(ALLV, x_, T.sub(n, i)), MP(T.prime(n, i)), MP(T.sub(n, i)), T.par(n, i)), TouchR(PR(n, i)), C(ALLV, x_, T.prime(n, i)) == C(ALLV, x_, T.prime(n, i))]))
    T.lemmas.append(node_lemma(T, 'an optimal assignment reaches the maximum', [y_], lambda n: Implies(Opt(y_, n), V(ALLV, y_, n) >= MP(n)),
        Q=lambda n, i: And(VS(ALLV, y_, n, i) >= 0, Implies(And(Opt(y_, n), i > OptW(y_, n)), VS(ALLV, y_, n, i) >= MP(n))),
        pats=lambda n: [V(ALLV, y_, n)]))
    return []

def unit(name, parts, contracts, more=(), **kw):
    return lambda: Unit(name, list(PN), FILT, lambda: theory(*parts), [Target(c()) for c in contracts], [c() for c in more], **kw)

UNITS = [
    (['C04', 'C11', 'C22', 'C23'], unit('evaluate', [ax_V], [c_evaluate])),
    (['C05', 'C22'], unit('isconsistent', [ax_C], [c_isconsistent])),
    (['C05', 'C12'], unit('setactivation', [ax_C], [c_setactivation])),
    (['C07', 'C22'], unit('mpe', [ax_touch, ax_scope, lem_scope, ax_MP, lem_MP, ax_queue], [c_mpe])),
    (['C07'], unit('mpe lemmas', [lem_mono, ax_V, ax_C, ax_MP, ax_Det, lem_MP, lem_mpe], [])),
    (['C06', 'C22'], unit('modelcount', [ax_MC], [c_modelcount])),
]
