"""Node constructors (C02): what a requested node consists of."""
from .core import *
from . import node_util as NU

PN, FILT = NU.PN, NU.FILT
IDX = ('int',)

def hash_contract(cls):
    def requires(X):
        pr, su, pa = X.fld('primes_'), X.fld('subs_'), X.fld('parameters_')
        i = z3.Int('i')
        return [('elements', And(ln(su) == ln(pr), ln(pa) == ln(pr)))] + [('nodes', FA([i], Implies(And(0 <= i, i < ln(pr)), at(v, i) > 0), [at(v, i)])) for v in (pr, su)]
    return Contract(cls + '::CalculateHashValue', requires=requires if cls == 'PsddDecisionNode' else None, modifies=[('this', 'hash_value_')],
                    loops={'0': lambda L, X: []} if cls == 'PsddDecisionNode' else {})

def base_fields(X):
    return [('the identifier', X.fld('node_index_') == X.a(0)), ('the vtree node', X.fld('vtree_node_') == X.a(1)), ('the flag', X.fld('flag_index_') == X.a(2)),
            ('no user data', X.fld('user_data_') == 0), ('not activated', Not(X.fld('activation_flag_')))]

def c_ctor_literal():
    return Contract('PsddLiteralNode::PsddLiteralNode', ptypes=[IDX, VT, IDX, ('int',)], modifies=[('this', '*')],
                    ensures=lambda X: base_fields(X) + [('the literal', X.fld('literal_') == X.a(3))])
def c_ctor_top():
    return Contract('PsddTopNode::PsddTopNode', ptypes=[IDX, VT, IDX, ('int',), ('param',), ('param',)], modifies=[('this', '*')],
                    ensures=lambda X: base_fields(X) + [('the variable', X.fld('variable_index_') == X.a(3)), ('the true parameter', X.fld('true_parameter_') == X.a(4)), ('the false parameter', X.fld('false_parameter_') == X.a(5)),
                                                         ('no counts', And(X.fld('true_data_count_') == 0, X.fld('false_data_count_') == 0))])
def perm_facts(p, q, n):
    i = z3.Int('i')
    inr = lambda k: And(0 <= k, k < n)
    return [FA([i], Implies(inr(i), And(inr(S(p, i)), S(q, S(p, i)) == i)), [S(p, i)]), FA([i], Implies(inr(i), And(inr(S(q, i)), S(p, S(q, i)) == i)), [S(q, i)])]

def c_ctor_decision():
    def requires(X):
        A, Bs, P = X.a(3), X.a(4), X.a(5)
        i = z3.Int('i')
        return [('primes are nodes', FA([i], Implies(And(0 <= i, i < ln(A)), at(A, i) > 0), [at(A, i)])), ('subs are nodes', FA([i], Implies(And(0 <= i, i < ln(Bs)), at(Bs, i) > 0), [at(Bs, i)])), ('as many subs as primes', ln(Bs) == ln(A)), ('parameters for the primes, or none', Or(ln(P) >= ln(A), ln(P) == 0))]
    def ensures(X):
        T = X.theory
        A, Bs, P = X.a(3), X.a(4), X.a(5)
        n = ln(A)
        p, q = X.outs['p'], X.outs['q']
        i, j = z3.Ints('i j')
        inr = And(0 <= i, i < n)
        pr, su, pa, dc = X.fld('primes_'), X.fld('subs_'), X.fld('parameters_'), X.fld('data_counts_')
        return base_fields(X) + [('the elements are listed once', And(*perm_facts(p, q, n))),
                ('numbers of elements', And(ln(pr) == n, ln(su) == n, ln(pa) == n, ln(dc) == n)),
                ('primes', FA([i], Implies(inr, at(pr, i) == at(A, S(p, i))), [at(pr, i)])),
                ('subs go with their primes', FA([i], Implies(inr, at(su, i) == at(Bs, S(p, i))), [at(su, i)])),
                ('parameters go with their primes', FA([i], Implies(inr, at(pa, i) == If(ln(P) == 0, rv(0), at(P, S(p, i)))), [at(pa, i)])),
                ('in the order of the primes\' identifiers', FA([i, j], Implies(And(0 <= i, i < j, j < n), T.nidx(at(pr, i)) <= T.nidx(at(pr, j))), [(at(pr, i), at(pr, j))])),
                ('no counts', FA([i], Implies(inr, at(dc, i) == 0), [at(dc, i)]))]
    def collect(L, X):
        T = X.theory
        A, ind = X.a(3), L.var('indexes')
        j = z3.Int('j')
        e = S(ind.f['arr'].f['first'], j) if not z3.is_expr(ind.f['arr']) else None
        s = S(ind.f['arr'].f['second'], j)
        return [('indexes so far', And(ln(ind) == L.k, FA([j], Implies(And(0 <= j, j < L.k), And(e == j, s == T.nidx(at(A, j)))), [e, s, at(A, j)])))]
    def fill(L, X):
        A, Bs, P = X.a(3), X.a(4), X.a(5)
        n = ln(A)
        p, q = X.ex.last_perm
        j = z3.Int('j')
        pr, su, pa = X.fld('primes_'), X.fld('subs_'), X.fld('parameters_')
        inr = And(0 <= j, j < L.k)
        return [('sizes', And(ln(pr) == n, ln(su) == n, ln(pa) == n)),
                ('primes so far', FA([j], Implies(inr, at(pr, j) == at(A, p(j))), [at(pr, j)])),
                ('subs so far', FA([j], Implies(inr, at(su, j) == at(Bs, p(j))), [at(su, j)])),
                ('parameters so far', FA([j], Implies(And(0 <= j, j < n), at(pa, j) == If(Or(ln(P) == 0, j >= L.k), rv(0), at(P, p(j)))), [at(pa, j)]))]
    def wit(X):
        i = z3.Int('i')
        p, q = X.ex.last_perm
        return {'p': z3.Lambda([i], p(i)), 'q': z3.Lambda([i], q(i))}
    return Contract('PsddDecisionNode::PsddDecisionNode', ptypes=[IDX, VT, IDX, VEC, VEC, ('vec', ('param',))], modifies=[('this', '*')], requires=requires, ensures=ensures,
                    loops={'0': collect, '1': fill}, outs={'p': A_II, 'q': A_II}, wit=wit)

CTORS = [c_ctor_literal, c_ctor_top, c_ctor_decision]
HASHES = [lambda c=c: hash_contract(c) for c in ('PsddLiteralNode', 'PsddTopNode', 'PsddDecisionNode')]
UNITS = [
    (['C02', 'C21'], lambda: Unit('constructors', list(PN), FILT, lambda: theory(), [Target(c()) for c in CTORS] + [Target(h(), opts=dict(mutable_nodes=True)) for h in HASHES])),
]
