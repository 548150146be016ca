"""Probability arithmetic (C01): the class PsddParameter over extended reals.

A double is an extended real: a finite real, plus or minus infinity, or not a
number; log, exp and log1p obey the usual laws; rounding is not modelled."""
import z3
from z3 import And, Or, Not, Implies, If
from cppvc.theory import *
from cppvc.sym import Contract
from vlib.proof import Unit, Target
from .core import fn, S

I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
_X = z3.Datatype('Double')
_X.declare('fin', ('val', R))
for c in ('ninf', 'pinf', 'nan'):
    _X.declare(c)
XR = _X.create()
fin, val, ninf, pinf, nan = XR.fin, XR.val, XR.ninf, XR.pinf, XR.nan
isf = XR.is_fin
rv = z3.RealVal
lnf, expf = z3.Function('logarithm', R, R), z3.Function('exponential', R, R)
U64 = z3.Function('ToUnsigned64', I, I)       # conversion of an integral double to an unsigned 64-bit number
def add(a, b):
    return If(And(isf(a), isf(b)), fin(val(a) + val(b)), If(Or(a == nan, b == nan, And(a == pinf, b == ninf), And(a == ninf, b == pinf)), nan, If(isf(a), b, a)))
def neg(a):
    return If(isf(a), fin(-val(a)), If(a == pinf, ninf, If(a == ninf, pinf, nan)))
def sgn(a):
    return If(isf(a), If(val(a) > 0, 1, If(val(a) < 0, -1, 0)), If(a == pinf, z3.IntVal(1), z3.IntVal(-1)))
def mul(a, b):
    s = sgn(a) * sgn(b)
    return If(And(isf(a), isf(b)), fin(val(a) * val(b)), If(Or(a == nan, b == nan, s == 0), nan, If(s > 0, pinf, ninf)))
def div(a, b):
    return If(And(isf(a), isf(b), val(b) != 0), fin(val(a) / val(b)), If(And(isf(a), Or(b == pinf, b == ninf)), fin(rv(0)), If(Or(a == nan, b == nan, isf(b)), nan, nan)))
def lt(a, b):
    return And(a != nan, b != nan, Or(And(isf(a), isf(b), val(a) < val(b)), And(a == ninf, b != ninf), And(b == pinf, a != pinf)))
def dlog(a):
    return If(isf(a), If(val(a) > 0, fin(lnf(val(a))), If(val(a) == 0, ninf, nan)), If(a == pinf, pinf, nan))
def dexp(a):
    return If(isf(a), fin(expf(val(a))), If(a == ninf, fin(rv(0)), a))
def trunc(x):
    return If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))
def tou(a):
    return If(isf(a), U64(trunc(val(a))), z3.Int('ConvertedNonFinite'))
def Dec(p):
    """the decimal value a log value stands for"""
    return If(p == ninf, rv(0), expf(val(p)))
def ok(p):
    return Or(isf(p), p == ninf)
Hash = fn('BucketOf', XR, I)
def ax_exp():
    x, y = z3.Reals('x y')
    return [z3.ForAll([x], expf(x) > 0, patterns=[expf(x)]), z3.ForAll([x], lnf(expf(x)) == x, patterns=[expf(x)]),
            z3.ForAll([x], Implies(x > 0, expf(lnf(x)) == x), patterns=[lnf(x)]), expf(rv(0)) == 1,
            z3.ForAll([x, y], Implies(x < y, expf(x) < expf(y)), patterns=[z3.MultiPattern(expf(x), expf(y))])]
Law = fn('SumOfExponents', R, R, B)     # true; makes exp(x+y) = exp(x)exp(y) available at x, y
def ax_sum():
    x, y = z3.Reals('x y')
    return [z3.ForAll([x, y], And(Law(x, y), expf(x + y) == expf(x) * expf(y)), patterns=[Law(x, y)])]
def laws(X):
    a, b = val(me(X)), val(P(X.a(0)))
    return [('law of exponents', And(Law(a, b), Law(a - b, b), Law(b - a, a), Law(a, lnf(1 + expf(b - a))), Law(b, lnf(1 + expf(a - b)))))]

class PTheory(Theory):
    def real(self, v, ex):
        from fractions import Fraction
        f = Fraction(str(v))
        return fin(z3.RatVal(f.numerator, f.denominator))
    def to_real(self, x, ex):
        return x if x.sort() == XR else fin(z3.ToReal(x))
    def real_to_int(self, x, ex):
        return tou(x)
    def neg(self, v, ex):
        return neg(v) if v.sort() == XR else -v
    def arith(self, ex, op, a, b):
        if a.sort() != XR and b.sort() != XR:
            return None
        a, b = self.to_real(a, ex), self.to_real(b, ex)
        eq = And(a == b, a != nan)
        return {'+': lambda: add(a, b), '-': lambda: add(a, neg(b)), '*': lambda: mul(a, b), '/': lambda: div(a, b), '<': lambda: lt(a, b), '>': lambda: lt(b, a),
                '==': lambda: eq, '!=': lambda: Not(eq), '<=': lambda: Or(lt(a, b), eq), '>=': lambda: Or(lt(b, a), eq)}[op]()
    def _un(self, ex, a, f):
        return f(self.to_real(ex.val(a[0]), ex))
    def c_log(self, ex, a, n): return self._un(ex, a, dlog)
    def c_exp(self, ex, a, n): return self._un(ex, a, dexp)
    def c_log1p(self, ex, a, n): return self._un(ex, a, lambda x: dlog(add(fin(rv(1)), x)))
    def c_expm1(self, ex, a, n): return self._un(ex, a, lambda x: add(dexp(x), fin(rv(-1))))
    def c_infinity(self, ex, a, n): return pinf
    def c_isinf(self, ex, a, n): return self._un(ex, a, lambda x: Or(x == pinf, x == ninf))
    def c_isnan(self, ex, a, n): return self._un(ex, a, lambda x: x == nan)
    def c_pow(self, ex, a, n):
        x, y = (z3.simplify(self.to_real(ex.val(v), ex)) for v in a[:2])
        if z3.is_app_of(x, z3.Z3_OP_DT_CONSTRUCTOR) and x.num_args() and y.num_args() and z3.is_rational_value(x.arg(0)) and z3.is_rational_value(y.arg(0)) and y.arg(0).denominator_as_long() == 1:
            from fractions import Fraction
            v = Fraction(x.arg(0).numerator_as_long(), x.arg(0).denominator_as_long()) ** y.arg(0).numerator_as_long()
            return fin(z3.RatVal(v.numerator, v.denominator))
        raise Unsupported('pow of unknown values')
    def c_max(self, ex, a, n):
        x, y = ex.val(a[0]), ex.val(a[1])
        return If(self.arith(ex, '<', x, y), y, x)
    def c_min(self, ex, a, n):
        x, y = ex.val(a[0]), ex.val(a[1])
        return If(self.arith(ex, '<', y, x), y, x)
    c_fmax, c_fmin = c_max, c_min
def ax_hash(T):
    p = z3.Const('p', XR)
    return [z3.ForAll([p], Hash(p) == tou(mul(p, fin(rv(10000000)))), patterns=[Hash(p)])]
def P(v):
    return v.f['parameter_']
def inv(v):
    return v.f['hash_value_'] == Hash(P(v))
def th(*axs):
    def f():
        T = PTheory()
        T.extra_axioms = [x for a in axs for x in (a() if a in (ax_exp, ax_sum) else a(T))]
        return T
    return f
PP = ('src/psdd_parameter.cpp',)
PF = ['PsddParameter']
def me(X, old=False):
    return X.ofld('parameter_') if old else X.fld('parameter_')
def inv_this(X, old=True):
    f = X.ofld if old else X.fld
    return f('hash_value_') == Hash(f('parameter_'))
def made(X, p):
    return [('the value', P(X.res) == p), ('its bucket', inv(X.res))]
def c_ctor():
    return Contract('PsddParameter::PsddParameter', nparams=1, modifies=[('this', '*')], ensures=lambda X: [('the value', me(X) == X.a(0)), ('its bucket', inv_this(X, False))])
def c_zero():
    return Contract('PsddParameter::PsddParameter', nparams=0, modifies=[('this', '*')], ensures=lambda X: [('the value is zero', me(X) == ninf), ('its bucket', inv_this(X, False))])
def c_decimal():
    def ens(X):
        d = val(X.a(0))
        return [('the decimal value', And(ok(P(X.res)), Dec(P(X.res)) == d)), ('its bucket', inv(X.res))]
    return Contract('PsddParameter::CreateFromDecimal', requires=lambda X: [('not negative', And(isf(X.a(0)), val(X.a(0)) >= 0))], ensures=ens)
def c_log():
    return Contract('PsddParameter::CreateFromLog', ensures=lambda X: [('the log value', P(X.res) == X.a(0)), ('its bucket', inv(X.res))])
def operands(X, extra=()):
    return [('operands are probabilities', And(ok(me(X)), ok(P(X.a(0))), inv_this(X), inv(X.a(0))))] + list(extra)
def both(X):
    return Dec(me(X, True)), Dec(P(X.a(0)))
def c_bin(op, f, extra=lambda X: []):
    def ens(X):
        a, b = both(X)
        r = P(X.res)
        return [('a probability', ok(r)), ('the decimal value', f(Dec(r), a, b)), ('its bucket', inv(X.res))]
    return Contract('PsddParameter::operator' + op, requires=lambda X: operands(X, extra(X)), ensures=ens, ghost=laws)
def c_asg(op, f, extra=lambda X: []):
    def ens(X):
        a, b = both(X)
        r = me(X)
        return [('a probability', ok(r)), ('the decimal value', f(Dec(r), a, b)), ('its bucket', inv_this(X, False))]
    return Contract('PsddParameter::operator' + op + '=', requires=lambda X: operands(X, extra(X)), ensures=ens, modifies=[('this', 'parameter_'), ('this', 'hash_value_')])
def nonzero(X):
    return [('the divisor is not zero', P(X.a(0)) != ninf)]
def c_cmp(op, f):
    return Contract('PsddParameter::operator' + op, requires=operands, ensures=lambda X: [('decided by the values', X.res == f(me(X, True), P(X.a(0))))])
def c_get():
    return Contract('PsddParameter::parameter', ensures=lambda X: [('the log value', X.res == me(X, True))])
def c_hash():
    return Contract('PsddParameter::hash_value', requires=lambda X: [('its bucket', inv_this(X))], ensures=lambda X: [('decided by the value', X.res == Hash(me(X, True)))])
EQ = lambda a, b: Hash(a) == Hash(b)
LT = lambda a, b: And(Hash(a) != Hash(b), lt(a, b))
ADD = lambda r, a, b: r == a + b
MUL = lambda r, a, b: r == a * b
DIV = lambda r, a, b: r * b == a
def thc():
    T = th(ax_exp, ax_hash)()
    a, b, c = z3.Consts('a b c', XR)
    h = [ok(a), ok(b), ok(c)]
    x, y = z3.Ints('x y')
    big = z3.IntVal(2) ** 63
    inj = z3.ForAll([x, y], Implies(And(U64(x) == U64(y), x > -2 ** 63, x < 2 ** 63, y > -2 ** 63, y < 2 ** 63), x == y), patterns=[z3.MultiPattern(U64(x), U64(y))])
    ran = [And(Implies(isf(p), And(val(p) * 10000000 < 2 ** 63 - 1, val(p) * 10000000 > -(2 ** 63) + 1))) for p in (a, b, c)]
    nf = z3.ForAll([x], Implies(And(x > -2 ** 63, x < 2 ** 63), U64(x) != z3.Int('ConvertedNonFinite')), patterns=[U64(x)])
    k = h + ran + [inj, nf]
    t = lambda *f: Lemma(f[0], z3.BoolVal(True), [(f[0], k + f[1], f[2])])
    T.lemmas += [t('equality is an equivalence', [EQ(a, b), EQ(b, c)], And(EQ(a, a), EQ(b, a), EQ(a, c))),
                 t('one of less, equal, greater', [], Or(And(EQ(a, b), Not(LT(a, b)), Not(LT(b, a))), And(Not(EQ(a, b)), LT(a, b), Not(LT(b, a))), And(Not(EQ(a, b)), Not(LT(a, b)), LT(b, a)))),
                 t('equal probabilities are close', [EQ(a, b), a != ninf, b != ninf], And((val(a) - val(b)) * 10000000 < 2, (val(b) - val(a)) * 10000000 < 2)),
                 t('only zero equals zero', [EQ(a, b), a == ninf], b == ninf),
                 t('between equal probabilities all are equal', [EQ(a, c), lt(a, b), lt(b, c)], EQ(a, b)),
                 t('less is transitive', [LT(a, b), LT(b, c)], LT(a, c)),
                 t('equal probabilities compare alike', [EQ(a, b), LT(b, c)], LT(a, c)),
                 t('less agrees with the decimal values', [LT(a, b)], Dec(a) < Dec(b))]
    return T
OPT = {'param_struct': True, 'double_sort': XR}
tg = lambda *cs: [Target(c) for c in cs]
BIN = [('+', ADD, lambda X: []), ('*', MUL, lambda X: []), ('/', DIV, nonzero)]
UNITS = [
    (['C01'], lambda: Unit('making probabilities', list(PP), PF, th(ax_exp, ax_hash), tg(c_ctor(), c_zero(), c_decimal(), c_log()), opts=OPT)),
    (['C01'], lambda: Unit('probability operators', list(PP), PF, th(ax_exp, ax_sum, ax_hash), tg(*[c_bin(*b) for b in BIN]), [c_ctor(), c_log()], opts=OPT)),
    (['C01'], lambda: Unit('compound operators', list(PP), PF, th(ax_exp, ax_hash), tg(*[c_asg(*b) for b in BIN]), [c_bin(*b) for b in BIN], opts=OPT)),
    (['C01'], lambda: Unit('probability comparison', list(PP), PF, thc, tg(c_cmp('==', EQ), c_cmp('!=', lambda a, b: Not(EQ(a, b))), c_cmp('<', LT), c_cmp('>', lambda a, b: LT(b, a)), c_get(), c_hash()), opts=OPT)),
]
