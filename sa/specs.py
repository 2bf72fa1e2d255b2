"""Contracts (textbook formulas) for the methods of the life-contingency family.

A contract gives the value a method must return as an element of the domain of
algebra.py.  Bodies are checked against their contract (obligations), calls are
replaced by it (assume/guarantee).
"""
import ast
from fractions import Fraction as Q
from . import algebra as al
from .algebra import Rat, rat, sign, R0, R1, L, F, Sum, Int, exp
from . import interp as ip
from .interp import Undecided, SubjectRaise, Obj, Maybe
from .builtins_ import integral, derivative, solve, fun1, solve_atom
from .model import Func, params

WHOLE = rat(-999)
VAR = rat(-2)


def neg(t):
    """is a term negative (whole life sentinel)?"""
    s = sign(t)
    if s == '-':
        return True
    if s in ('+', '0', '>='):
        return False
    return ask('<', t, R0, f"{t} < 0", f"sign of term {t}")


def ask(op, a, b, text, why):
    """decide a case of a contract as the interpreter decides a condition of the subject"""
    it = ip.CURRENT[0]
    if it is None:
        raise Undecided(why)
    return it.decide_cmp(op, a, b, f"contract: {text}")


def zero(t):
    s = sign(t)
    if s == '0':
        return True
    if s in ('+', '-'):
        return False
    return ask('==', t, R0, f"{t} == 0", f"is term {t} zero")


def flag(it, v):
    if isinstance(v, bool):
        return v
    return it.truth(v, 'flag')


def moment_of(m):
    c = ip.const_int(m)
    if c is None:
        # an argument of the scenario in the place of the moment: look at the instance where it is 3
        it = ip.CURRENT[0]
        m = ip.num(it.force(m)) if it is not None else m
        if it is None or not isinstance(m, al.Rat) or it.generic or len(m.syms()) != 1 or m.d is not al.PONE:
            raise Undecided("symbolic moment")
        name, = m.syms()
        if name.startswith('$') or not al.req(m, al.sym(name)) or any(n == name for n, _ in it.trace.subs) \
                or al.feasible((m - 3).n, False, eq=True) is not True:
            raise Undecided("symbolic moment")
        it.trace.subs.append((name, rat(3)))
        it.add_fact(m - 3, False)
        it.add_fact(rat(3) - m, False)
        return 3
    return c


class Interest:
    """force of interest: symbol (regime pos) or zero"""
    def __init__(self, regime='pos', name='delta'):
        self.regime = regime
        self.delta = al.sym(name, 'pos') if regime == 'pos' else (rat(0) if regime == 'zero' else regime)

    def v(self, t):
        return exp(-(self.delta * t))

    @property
    def d(self):
        return R1 - exp(-self.delta)

    @property
    def i(self):
        return exp(self.delta) - 1


class Contracts:
    """family of contracts bound to objects through Obj.family"""
    pass


class LifeF:
    """the survival / insurance / annuity family with survival atoms L"""
    kind = 'life'

    def __init__(self, interest, maxage=None, minage=None, names=None, extra_attrs=None):
        self.I = interest
        self.maxage = maxage
        self.minage = minage if minage is not None else R0
        self.off = set()         # contracts disabled (inlined instead)
        self.names = names       # restrict to these contracts (None = all)
        self.L = L
        self.extra = {}
        self.udd = None
        self.hide = set()        # attributes that fall through to the source

    # -- basic probabilities -------------------------------------------------
    def p(self, x, s, t):
        return L(x, s + t) / L(x, s)

    def q(self, x, s, t, u):
        return (L(x, s + u) - L(x, s + u + t)) / L(x, s)

    def top(self, x, s, u=R0):
        """number of years to the limiting age"""
        if self.maxage is None:
            raise Undecided("no limiting age")
        return self.maxage - (x + s + u)

    def term(self, x, s, t, u=R0):
        if neg(t):
            return self.top(x, s, u)
        g = sign(x + s + u + t - self.maxage) if self.maxage is not None else '-'
        if g in ('+', '0', '>='):
            return self.top(x, s, u)
        if g == '?' and ask('<=', self.maxage, x + s + u + t, "term reaches limiting age", "term relative to limiting age"):
            return self.top(x, s, u)
        return t

    # -- EPVs -------------------------------------------------------------
    def E(self, x, s, t, e=R1, m=1):
        if neg(t):
            return R0
        if m == -2:
            p = self.p(x, s, t)
            return al.ipow(e * self.I.v(t), 2) * p * (R1 - p)
        return al.ipow(e * self.I.v(t), m) * self.p(x, s, t)

    def newk(self, name='$k'):
        nm = f"$c{self._n}"
        self._n += 1
        return nm, al.sym(nm, 'int', 'nonneg')
    _n = 0

    def A(self, x, s, t, u, m, discrete, ben):
        """EPV of ben(k+1) at end of year of death (or moment of death) in (u, u+t]"""
        nm = f"$c{LifeF._n}"
        LifeF._n += 1
        if self.term(x, s, t, u).is_zero():
            return R0
        if discrete:
            k = al.sym(nm, 'int', 'nonneg')
            n = self.term(x, s, t, u)
            body = al.ipow(ben(k + 1) * self.I.v(k + 1), m) * (L(x, s + k) - L(x, s + k + 1)) / L(x, s)
            return Sum(body, nm, u, u + n)
        k = al.sym(nm, 'nonneg')
        n = self.term(x, s, t, u)
        body = al.ipow(ben(k) * self.I.v(k), m) * F(x, s + k) / L(x, s)
        return Int(body, nm, u, u + n)

    def a(self, x, s, t, u, discrete, ben):
        nm = f"$c{LifeF._n}"
        LifeF._n += 1
        n = self.term(x, s, t, u)
        if n.is_zero():
            return R0
        if discrete:
            k = al.sym(nm, 'int', 'nonneg')
            return Sum(ben(k) * self.I.v(k) * L(x, s + k) / L(x, s), nm, u, u + n)
        k = al.sym(nm, 'nonneg')
        return Int(ben(k) * self.I.v(k) * L(x, s + k) / L(x, s), nm, u, u + n)

    def variance(self, A2, A1):
        return A2 - A1 * A1

    def ins(self, x, s, t, u, b, m, discrete, e=None):
        """term/deferred/whole life insurance with optional endowment; m=-2 variance"""
        if m == -2:
            return self.ins(x, s, t, u, b, 2, discrete, e) - al.ipow(self.ins(x, s, t, u, b, 1, discrete, e), 2)
        out = self.A(x, s, t, u, m, discrete, lambda k: b)
        if e is not None and not neg(t):
            out = out + self.E(x, s, u + t, e, m)
        return out

    def ann(self, x, s, t, u, b, discrete, variance=False):
        if variance:
            # present value of a life annuity is a linear function of the endowment insurance
            A2 = self.ins(x, s, t, R0, R1, 2, discrete, R1)
            A1 = self.ins(x, s, t, R0, R1, 1, discrete, R1)
            r = self.I.d if discrete else self.I.delta
            return b * b * (A2 - A1 * A1) / (r * r)
        return self.a(x, s, t, u, discrete, lambda k: b)


# ---------------------------------------------------------------------------
# contract table for the life family: name -> (function(it, F, a), defaults)
# `a` is a dict of bound arguments

def arg(a, name, default=None):
    v = a.get(name, default)
    if v is None and default is None:
        return None
    return v


def N(it, a, name, default=None):
    v = a.get(name, default)
    return ip.num(it.force(v, name))


def _ben(it, a, age):
    f = a.get('benefit')
    return lambda k: ip.num(it.call(f, [age, k], {}))


def c_p_x(it, f, a):
    return f.p(N(it, a, 'x'), N(it, a, 's', R0), N(it, a, 't', R1))


def c_q_x(it, f, a):
    return f.q(N(it, a, 'x'), N(it, a, 's', R0), N(it, a, 't', R1), N(it, a, 'u', R0))


def c_l_x(it, f, a):
    return al.sym('radix', 'pos') * L(N(it, a, 'x'), N(it, a, 's', R0))


def c_d_x(it, f, a):
    x, s = N(it, a, 'x'), N(it, a, 's', R0)
    t = N(it, a, 't', R1)
    return al.sym('radix', 'pos') * (L(x, s) - L(x, s + t))


def c_f_x(it, f, a):
    x, s, t = N(it, a, 'x'), N(it, a, 's', R0), N(it, a, 't', R0)
    return F(x, s + t) / L(x, s)


def c_mu_x(it, f, a):
    x, s, t = N(it, a, 'x'), N(it, a, 's', R0), N(it, a, 't', R0)
    return F(x, s + t) / L(x, s + t)


def e_value(f, x, s, n, curtate, m):
    nm = f"$c{LifeF._n}"
    LifeF._n += 1
    if m == -2:
        return e_value(f, x, s, n, curtate, 2) - al.ipow(e_value(f, x, s, n, curtate, 1), 2)
    if curtate:
        k = al.sym(nm, 'int', 'nonneg')
        w = R1 if m == 1 else (2 * k - 1)
        return Sum(w * L(x, s + k) / L(x, s), nm, R1, n + 1)
    k = al.sym(nm, 'nonneg')
    w = R1 if m == 1 else 2 * k
    return Int(w * L(x, s + k) / L(x, s), nm, R0, n)


def c_e_x(it, f, a):
    x, s = N(it, a, 'x'), N(it, a, 's', R0)
    t = a.get('t', a.get('n', WHOLE))
    n = f.term(x, s, ip.num(t))
    return e_value(f, x, s, n, flag(it, a.get('curtate', True)), moment_of(a.get('moment', R1)))


def c_E_x(it, f, a):
    return f.E(N(it, a, 'x'), N(it, a, 's', R0), N(it, a, 't', R1), N(it, a, 'endowment', R1),
               moment_of(a.get('moment', R1)))


def c_A_x(it, f, a):
    x, s, t, u = N(it, a, 'x'), N(it, a, 's', R0), N(it, a, 't', WHOLE), N(it, a, 'u', R0)
    m = moment_of(a.get('moment', R1))
    e = N(it, a, 'endowment', R0)
    out = f.A(x, s, t, u, m, flag(it, a.get('discrete', True)), _ben(it, a, x + s))
    if not neg(t) and not e.is_zero():
        out = out + f.E(x, s, t + u, e, m)
    return out


def c_insurance_variance(it, f, a):
    b = N(it, a, 'b', R1)
    A1 = N(it, a, 'A1')
    return b * b * (N(it, a, 'A2') - A1 * A1)


def _insargs(it, a):
    return (N(it, a, 'x'), N(it, a, 's', R0), N(it, a, 'b', R1), moment_of(a.get('moment', R1)),
            flag(it, a.get('discrete', True)))


def c_whole_life_insurance(it, f, a):
    x, s, b, m, d = _insargs(it, a)
    return f.ins(x, s, WHOLE, R0, b, m, d)


def c_term_insurance(it, f, a):
    x, s, b, m, d = _insargs(it, a)
    return f.ins(x, s, N(it, a, 't', R1), R0, b, m, d)


def c_deferred_insurance(it, f, a):
    x, s, b, m, d = _insargs(it, a)
    return f.ins(x, s, N(it, a, 't', WHOLE), N(it, a, 'u', R0), b, m, d)


def c_endowment_insurance(it, f, a):
    x, s, b, m, d = _insargs(it, a)
    e = N(it, a, 'endowment', rat(-1))
    if neg(e):
        e = b
    return f.ins(x, s, N(it, a, 't', R1), R0, b, m, d, e)


def c_increasing_insurance(it, f, a):
    x, s, b, m, d = _insargs(it, a)
    return f.A(x, s, N(it, a, 't', WHOLE), R0, 1, d, lambda k: b * k)


def c_decreasing_insurance(it, f, a):
    x, s, b, m, d = _insargs(it, a)
    t = N(it, a, 't', R1)
    n = f.term(x, s, t)
    top = n + 1 if d else n
    return f.A(x, s, t, R0, 1, d, lambda k: b * (top - k))


def c_a_x(it, f, a):
    x, s, t, u = N(it, a, 'x'), N(it, a, 's', R0), N(it, a, 't', WHOLE), N(it, a, 'u', R0)
    return f.a(x, s, t, u, flag(it, a.get('discrete', True)), _ben(it, a, x + s))


def _annargs(it, a):
    return (N(it, a, 'x'), N(it, a, 's', R0), N(it, a, 'b', R1), flag(it, a.get('variance', False)),
            flag(it, a.get('discrete', True)))


def c_whole_life_annuity(it, f, a):
    x, s, b, v, d = _annargs(it, a)
    return f.ann(x, s, WHOLE, R0, b, d, v)


def c_temporary_annuity(it, f, a):
    x, s, b, v, d = _annargs(it, a)
    return f.ann(x, s, N(it, a, 't', WHOLE), R0, b, d, v)


def c_deferred_annuity(it, f, a):
    x, s, b, v, d = _annargs(it, a)
    if v:
        raise Undecided("variance of deferred annuity")
    return f.ann(x, s, N(it, a, 't', WHOLE), N(it, a, 'u', R0), b, d)


def c_certain_life_annuity(it, f, a):
    x, s, b, v, d = _annargs(it, a)
    t, u = N(it, a, 't', WHOLE), N(it, a, 'u', R0)
    return b * annuity_certain(f.I, u, 1 if d else 0) + f.ann(x, s, t, u, b, d)


def annuity_certain(I, t, m, due=True):
    """level annuity-certain of 1 per year for t years, m-thly (0: continuous)"""
    if I.delta.is_zero():
        return t
    mm = rat(m)
    vt = R0 if neg(t) else I.v(t)
    if m == 0:
        return (R1 - vt) / I.delta
    per = exp(-(I.delta / mm))
    if due:
        return (R1 - vt) / (mm * (R1 - per))
    return (R1 - vt) / (mm * (exp(I.delta / mm) - 1))


def c_immediate_annuity(it, f, a):
    x, s, b, v, d = _annargs(it, a)
    t = N(it, a, 't', WHOLE)
    if v:
        n = t if neg(t) else t + 1
        return f.ann(x, s, n, R0, b, True, True)
    n = f.term(x, s, t)
    nm = f"$c{LifeF._n}"
    LifeF._n += 1
    k = al.sym(nm, 'int', 'nonneg')
    return Sum(b * f.I.v(k) * L(x, s + k) / L(x, s), nm, R1, n + 1)


def c_increasing_annuity(it, f, a):
    x, s, b, v, d = _annargs(it, a)
    return f.a(x, s, N(it, a, 't', WHOLE), R0, d, lambda k: b * (k + 1))


def c_decreasing_annuity(it, f, a):
    x, s, b, v, d = _annargs(it, a)
    t = N(it, a, 't', R0)
    n = f.term(x, s, t)
    return f.a(x, s, t, R0, d, lambda k: b * (n - k))


def rate(f, it, a):
    return f.I.d if flag(it, a.get('discrete', True)) else f.I.delta


def c_annuity_twin(it, f, a):
    r = rate(f, it, a)
    if r.is_zero():
        raise Undecided("annuity twin at zero interest")
    return (R1 - N(it, a, 'A')) / r


def c_insurance_twin(it, f, a):
    return R1 - rate(f, it, a) * N(it, a, 'a')


def c_annuity_variance(it, f, a):
    r = rate(f, it, a)
    b, A1, A2 = N(it, a, 'b', R1), N(it, a, 'A1'), N(it, a, 'A2')
    if r.is_zero():
        raise Undecided("annuity variance at zero interest")
    return b * b * (A2 - A1 * A1) / (r * r)


# fractional ages: value in terms of L at fractional durations
def c_l_r(it, f, a):
    return al.sym('radix', 'pos') * L(N(it, a, 'x'), N(it, a, 's', R0) + N(it, a, 'r', R0))


def c_p_r(it, f, a):
    return f.p(N(it, a, 'x'), N(it, a, 's', R0) + N(it, a, 'r', R0), N(it, a, 't', R1))


def c_q_r(it, f, a):
    return f.q(N(it, a, 'x'), N(it, a, 's', R0) + N(it, a, 'r', R0), N(it, a, 't', R1), N(it, a, 'u', R0))


def c_mu_r(it, f, a):
    y = N(it, a, 's', R0) + N(it, a, 'r', R0)
    return F(N(it, a, 'x'), y) / L(N(it, a, 'x'), y)


def c_f_r(it, f, a):
    y = N(it, a, 's', R0) + N(it, a, 'r', R0)
    return F(N(it, a, 'x'), y + N(it, a, 't', R0)) / L(N(it, a, 'x'), y)


def c_E_r(it, f, a):
    t = N(it, a, 't', R1)
    return f.p(N(it, a, 'x'), N(it, a, 's', R0) + N(it, a, 'r', R0), t) * f.I.v(t)


def c_e_r(it, f, a):
    x, s = N(it, a, 'x'), N(it, a, 's', R0) + N(it, a, 'r', R0)
    t = N(it, a, 't', WHOLE)
    n = f.term(x, s, t)
    return e_value(f, x, s, n, False, 1)


def c_Z_from_t(it, f, a):
    t = N(it, a, 't')
    return f.I.v(al.floor(t) + 1 if flag(it, a.get('discrete', True)) else t)


def c_Z_t(it, f, a):
    x, pr = N(it, a, 'x'), N(it, a, 'prob')
    z = al.sym('$root', 'nonneg')
    r = solve_atom(L(x, z) / L(x, R0) - pr, '$root')
    return al.floor(r) if flag(it, a.get('discrete', True)) else r


def c_Y_t(it, f, a):
    x, pr = N(it, a, 'x'), N(it, a, 'prob')
    z = al.sym('$root', 'nonneg')
    r = solve_atom(L(x, z) / L(x, R0) - (R1 - pr), '$root')
    return al.ceil(r) if flag(it, a.get('discrete', True)) else r


def c_Z_from_prob(it, f, a):
    d = flag(it, a.get('discrete', True))
    return c_Z_from_t(it, f, {'t': c_Z_t(it, f, a), 'discrete': d})


def c_Z_to_t(it, f, a):
    return -al.log(N(it, a, 'Z')) / f.I.delta


def c_Z_to_prob(it, f, a):
    x = N(it, a, 'x')
    return f.p(x, R0, c_Z_to_t(it, f, a))


def c_Z_x(it, f, a):
    x, s, t = N(it, a, 'x'), N(it, a, 's', R0), N(it, a, 't', R0)
    if flag(it, a.get('discrete', True)):
        k = al.floor(t)
        return f.q(x, s, R1, k) * f.I.v(k + 1)
    return F(x, s + t) / L(x, s) * f.I.v(t)


def c_Y_x(it, f, a):
    x, s, t = N(it, a, 'x'), N(it, a, 's', R0), N(it, a, 't', R1)
    if flag(it, a.get('discrete', True)):
        k = al.floor(t)
        return f.p(x, s, k) * f.I.v(k)
    return f.p(x, s, t) * f.I.v(t)


def c_Y_from_t(it, f, a):
    t = N(it, a, 't')
    if flag(it, a.get('discrete', True)):
        return annuity_certain(f.I, al.floor(t) + 1, 1)
    return annuity_certain(f.I, t, 0)


def c_Y_from_prob(it, f, a):
    d = flag(it, a.get('discrete', True))
    return c_Y_from_t(it, f, {'t': c_Y_t(it, f, a), 'discrete': d})


def c_Y_to_t(it, f, a):
    Y = N(it, a, 'Y')
    if f.I.delta.is_zero():
        return Y
    return -al.log(R1 - f.I.delta * Y) / f.I.delta


def c_Y_to_prob(it, f, a):
    return R1 - f.p(N(it, a, 'x'), R0, c_Y_to_t(it, f, a))


def c_max_term(it, f, a):
    x, t, u = N(it, a, 'x'), N(it, a, 't'), N(it, a, 'u', R0)
    if neg(t):
        return f.maxage - (x + u)
    g = sign(x + t + u - f.maxage)
    if g == '+':
        return f.maxage - (x + u)
    if g in ('-', '0', '<='):
        return t
    if ask('<', f.maxage, x + t + u, "term passes limiting age", "max_term"):
        return f.maxage - (x + u)
    return t


LIFE = {k[2:]: v for k, v in list(globals().items()) if k.startswith('c_')}

# functions supplied by the user / derived by set_survival
def s_S(it, f, a, n):
    x, s, t = (ip.num(z) for z in a)
    return L(x, s + t) / L(x, s)


def s_f(it, f, a, n):
    x, s, t = (ip.num(z) for z in a)
    return F(x, s + t) / L(x, s)


def s_l(it, f, a, n):
    x, s = (ip.num(z) for z in a)
    return al.sym('radix', 'pos') * L(x, s)


def s_mu(it, f, a, n):
    x, t = (ip.num(z) for z in a)
    return F(x, t) / L(x, t)


def lifefn(name, fn, names):
    """positional/keyword user function"""
    def g(it, a, k, n):
        vals = list(a)
        for nm in names[len(vals):]:
            if nm not in k:
                raise SubjectRaise('TypeError', f"{name}() missing argument {nm}", n)
            vals.append(k.pop(nm)) if False else vals.append(k[nm])
        if len(vals) != len(names) or set(k) - set(names):
            raise SubjectRaise('TypeError', f"{name}() wrong arguments", n)
        vals = [it.force(z, f'argument of {name}') for z in vals]
        return fn(it, None, vals, n)
    return ip.Builtin(name, g)


SURV_ATTRS = {
    'S': lambda: lifefn('S', s_S, ['x', 's', 't']),
    'f': lambda: lifefn('f', s_f, ['x', 's', 't']),
    'l': lambda: lifefn('l', s_l, ['x', 's']),
    'mu': lambda: lifefn('mu', s_mu, ['x', 't']),
}


def interest_attr(I, name):
    if name in ('i', '_i'):
        return I.i
    if name in ('d', '_d'):
        return I.d
    if name in ('v', '_v'):
        return I.v(R1)
    if name in ('delta', '_delta'):
        return I.delta
    if name in ('v_t', '_v_t'):
        return ip.Builtin('v_t', lambda it, a, k, n: I.v(ip.num(it.force(a[0] if a else k.get('t'), 't'))))
    return NotImplemented


class InterestF:
    kind = 'interest'

    def __init__(self, I):
        self.I = I
        self.off = set()


def ci_annuity(it, f, a):
    t, m = N(it, a, 't', rat(-1)), ip.const_int(a.get('m', R1))
    if m is None:
        mm = N(it, a, 'm')
        if sign(mm) != '+':
            raise Undecided("symbolic frequency")
        return annuity_certain_m(f.I, t, mm, flag(it, a.get('due', True)))
    return annuity_certain(f.I, t, m, flag(it, a.get('due', True)))


def annuity_certain_m(I, t, m, due):
    if I.delta.is_zero():
        return t
    vt = R0 if neg(t) else I.v(t)
    if due:
        return (R1 - vt) / (m * (R1 - exp(-(I.delta / m))))
    return (R1 - vt) / (m * (exp(I.delta / m) - 1))


def _given(v):
    """is an optional rate given (not the negative 'unset' default)?"""
    return sign(v) != '-'


def ci_mthly(it, f, a):
    m = N(it, a, 'm', R0)
    vals = {k: N(it, a, k, rat(-1)) for k in ('i', 'd', 'i_m', 'd_m')}
    given = [k for k in ('i', 'd', 'i_m', 'd_m') if _given(vals[k])]
    if not given:
        raise SubjectRaise('Exception', 'no interest rate given')
    k = given[0]
    r = vals[k]
    cont = m.is_zero()
    if not cont and sign(m) != '+':
        raise Undecided("symbolic frequency")
    if k == 'i':
        return al.log(R1 + r) if cont else m * (al.power(R1 + r, R1 / m) - 1)
    if k == 'd':
        return -al.log(R1 - r) if cont else m * (R1 - al.power(R1 - r, R1 / m))
    if k == 'i_m':
        return exp(r) - 1 if cont else al.power(R1 + r / m, m) - 1
    return R1 - exp(-r) if cont else R1 - al.power(R1 - r / m, m)


def ci_double_force(it, f, a):
    vals = {k: N(it, a, k, rat(-1)) for k in ('i', 'delta', 'd', 'v')}
    if _given(vals['delta']):
        return 2 * vals['delta']
    if _given(vals['v']):
        return al.ipow(vals['v'], 2)
    if _given(vals['d']):
        return R1 - al.ipow(R1 - vals['d'], 2)
    if _given(vals['i']):
        return al.ipow(R1 + vals['i'], 2) - 1
    raise SubjectRaise('Exception', 'no interest rate')


INTEREST = {'annuity': ci_annuity, 'mthly': ci_mthly, 'double_force': ci_double_force}


OPS = {ast.Lt: (('-',), ('+', '0', '>=')), ast.LtE: (('-', '0', '<='), ('+',)), ast.Gt: (('+',), ('-', '0', '<=')),
       ast.GtE: (('+', '0', '>='), ('-',)), ast.Eq: (('0',), ('+', '-')), ast.NotEq: (('+', '-'), ('0',))}
MIRROR = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}


def tests_of(e, names, model, func, depth=0):
    """('cmp', name, op, number) | ('not'|'and'|'or', parts) | None (not a comparison of an argument with a number)"""
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        z = tests_of(e.operand, names, model, func, depth)
        return z and ('not', [z])
    if isinstance(e, ast.BoolOp):
        return ('and' if isinstance(e.op, ast.And) else 'or', [tests_of(v, names, model, func, depth) for v in e.values])
    if isinstance(e, ast.Compare):
        parts, left = [], e.left
        for op, right in zip(e.ops, e.comparators):
            l, r = _operand(left, names), _operand(right, names)
            t = type(op)
            if t not in OPS or l is None or r is None or isinstance(l, str) == isinstance(r, str):
                parts.append(None)
            elif isinstance(l, str):
                parts.append(('cmp', l, t, r))
            else:
                parts.append(('cmp', r, MIRROR[t], l))
            left = right
        return parts[0] if len(parts) == 1 else ('and', parts)
    if isinstance(e, ast.Call) and not e.keywords and depth < 3:
        # a predicate written out as a function of its own
        f = None
        if isinstance(e.func, ast.Name):
            f = model.resolve_name(func.module, e.func.id)
        elif isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and e.func.value.id == 'self' and func.cls:
            z = func.cls.find(e.func.attr)
            f = z[1] if z else None
        if not isinstance(f, Func) or not isinstance(f.node, ast.FunctionDef):
            return None
        ps = list(params(f.node)[0])
        if f.cls is not None and not f.static:
            ps = ps[1:]
        body = [b for b in f.node.body if not (isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant))]
        if len(ps) != len(e.args) or len(body) != 1 or not isinstance(body[0], ast.Return) or body[0].value is None:
            return None
        m = {}
        for q, v in zip(ps, e.args):
            if isinstance(v, ast.Name) and v.id in names:
                m[q] = names[v.id]
        return tests_of(body[0].value, m, model, f, depth + 1)
    return None


def _operand(e, names):
    if isinstance(e, ast.Name):
        return names.get(e.id)
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub) and isinstance(e.operand, ast.Constant):
        e, k = e.operand, -1
    else:
        k = 1
    if isinstance(e, ast.Constant) and type(e.value) in (int, float):
        return rat(e.value) * k if type(e.value) is int else rat(Q(str(e.value))) * k
    return None


def holds(t, bound):
    """True | False | None: is the test true of the arguments, whatever the symbols stand for?"""
    if t is None:
        return None
    if t[0] == 'cmp':
        v = bound.get(t[1])
        if not isinstance(v, Rat):
            return None
        s = al.sign(v - t[3])
        yes, no = OPS[t[2]]
        return True if s in yes else False if s in no else None
    vs = [holds(z, bound) for z in t[1]]
    if t[0] == 'not':
        return None if vs[0] is None else not vs[0]
    if t[0] == 'and':
        return False if False in vs else None if None in vs else True
    return True if True in vs else None if None in vs else False


CHECKS = {}


def _callee(e, names, model, func):
    """(function, its parameters in terms of the caller's) of a call handed on, when which function it is is certain"""
    if not isinstance(e, ast.Call) or any(k.arg is None for k in e.keywords) or any(isinstance(v, ast.Starred) for v in e.args):
        return None
    f = None
    if isinstance(e.func, ast.Name):
        f = model.resolve_name(func.module, e.func.id)
    elif isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and e.func.value.id == 'self' and func.cls:
        z = func.cls.find(e.func.attr)
        f = z[1] if z else None
        if f is not None and any(e.func.attr in c.methods and c.find(e.func.attr)[1] is not f for c in model.classes.values()
                                 if func.cls in c.mro()):
            return None
    if not isinstance(f, Func) or not isinstance(f.node, ast.FunctionDef) or f.node.args.vararg or f.node.args.kwarg \
            or any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(f.node)):
        return None
    ps = list(params(f.node)[0])
    if f.cls is not None and not f.static:
        ps = ps[1:]
    given = list(zip(ps, e.args)) + [(k.arg, k.value) for k in e.keywords]
    if len(e.args) > len(ps):
        return None
    return f, {q: names[v.id] for q, v in given if isinstance(v, ast.Name) and v.id in names}


def _checks(func, names, model, depth=0):
    out = []
    for st in func.node.body:
        if isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant) or isinstance(st, ast.Pass):
            continue
        if isinstance(st, ast.Assign) and isinstance(st.value, ast.Constant) and len(st.targets) == 1 and \
                isinstance(st.targets[0], ast.Name) and st.targets[0].id not in names:
            continue
        tg = st.body[0] if isinstance(st, ast.If) and not st.orelse and len(st.body) == 1 else st
        if isinstance(tg, ast.Assign) and len(tg.targets) == 1 and isinstance(tg.targets[0], ast.Name) and \
                stand_in(func, tg.targets[0].id, st) is not None:
            continue                              # an argument left out is given its value
        if isinstance(st, ast.Assert):
            out.append((tests_of(st.test, names, model, func), True, ast.unparse(st.test)))
        elif isinstance(st, ast.If) and st.body and isinstance(st.body[-1], ast.Raise) and len(st.body) == 1:
            out.append((tests_of(st.test, names, model, func), False, ast.unparse(st.test)))
            if st.orelse:
                break
        elif isinstance(st, (ast.Expr, ast.Return, ast.Assign)) and depth < 3:
            # the work, or the checks, handed on to a function of their own
            z = _callee(st.value, names, model, func)
            if z:
                out.extend(_checks(z[0], z[1], model, depth + 1))
            if not z or not isinstance(st, ast.Expr):
                break
        else:
            break
    return out


def leading_checks(func, model):
    """[(test, must hold?, text)] a function makes of its own arguments before doing anything else, and fails on"""
    if func not in CHECKS:
        CHECKS[func] = _checks(func, {n: n for n in params(func.node)[0]}, model)
    return CHECKS[func]


WHOLE_YEARS = {'l_r', 'p_r', 'q_r', 'mu_r', 'f_r', 'E_r'}      # of a table; a law is a function of any age


def broken(s):
    """certainly not a whole number: a whole number plus a fraction strictly between 0 and 1"""
    k = al.floor(s)
    return al.is_int(k) and not al.is_int(s) and al.sign(s - k) == '+'


def refused(bound, func, node, model):
    """a call whose arguments certainly break what the callee asserts of them fails"""
    for t, want, text in leading_checks(func, model):
        if holds(t, bound) is (not want):
            raise SubjectRaise('AssertionError' if want else 'Exception',
                               f"{func.qual}() refuses its arguments ({'asserts' if want else 'raises if'} {text})", node)


def stand_in(f, p, at=None):
    """the expression that replaces an argument left out as None, where the body starts with that"""
    names = {a.arg for a in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs}

    def isnone(t, want):
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return isnone(t.operand, not want)
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Is, ast.IsNot)):
            a, b = t.left, t.comparators[0]
            if isinstance(a, ast.Constant):
                a, b = b, a
            return isinstance(a, ast.Name) and a.id == p and isinstance(b, ast.Constant) and b.value is None and \
                isinstance(t.ops[0], ast.Is) == want
        return False
    for st in f.node.body if at is None else [at]:
        if isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant):
            continue
        v = None
        if isinstance(st, ast.If) and not st.orelse and len(st.body) == 1 and isinstance(st.body[0], ast.Assign):
            v, tg = st.body[0].value, st.body[0].targets
            if isnone(st.test, True) and len(tg) == 1 and isinstance(tg[0], ast.Name) and tg[0].id == p:
                return None if any(isinstance(z, ast.Name) and z.id in names for z in ast.walk(v)) else v
        elif isinstance(st, ast.Assign) and isinstance(st.value, ast.IfExp) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) and st.targets[0].id == p:
            t = st.value
            for want, got, keep in ((True, t.body, t.orelse), (False, t.orelse, t.body)):
                if isnone(t.test, want) and isinstance(keep, ast.Name) and keep.id == p:
                    return None if any(isinstance(z, ast.Name) and z.id in names for z in ast.walk(got)) else got
        if any(isinstance(z, ast.Name) and z.id == p for z in ast.walk(st)):
            return None
    return None


class Specs:
    """dispatches contracts; one instance per analysis run"""
    on_call = None               # observer of contract applications
    solver = None                # scenario in which the root is a given symbol
    topbound = None
    def __init__(self, model):
        self.model = model
        self.top = None          # (obj id or None, name, key)
        self.extra = []          # additional providers
        self.prims = True

    # -- methods --------------------------------------------------------------
    def contract(self, obj, name):
        fam = obj.family if isinstance(obj, Obj) else None
        if fam is None:
            return None
        t = getattr(fam, 'table', None)
        if t is None:
            t = {'life': LIFE, 'interest': INTEREST}.get(fam.kind, {})
        fn = t.get(name)
        if fn is None or name in fam.off:
            return None
        names = getattr(fam, 'names', None)
        if names is not None and name not in names:
            return None
        return fn

    def handler(self, it, obj, name):
        if name in PRIMS and (isinstance(obj, Obj) or obj is None) and self.prims:
            return PRIMS[name]
        fn = self.contract(obj, name)
        if fn is None:
            return None

        def h(it, obj, func, args, kwargs, node):
            if func is not None:
                if func.prop:
                    args, kwargs = [], {}
                full = list(args) if func.static else [obj] + list(args)
                where = f"{func.module.name}.{func.qual}()"
                bound, omitted, defaults = it.bind(func.node, full, kwargs, where)
                for k in omitted:
                    bound[k] = it.eval_default(defaults[k], func)
                for k in defaults:
                    if bound.get(k, k) is None:
                        z = stand_in(func, k)
                        if z is not None and not any(isinstance(n, ast.Name) and n.id == 'self' for n in ast.walk(z)):
                            bound[k] = it.eval_default(z, func)
                if not func.static:
                    bound.pop(params(func.node)[0][0], None)
                va, kw = params(func.node)[2:4]
                if va:
                    extra = bound.pop(va)
                    if extra:
                        raise Undecided("extra positional arguments")
                if kw:
                    more = bound.pop(kw)
                    bound.update(more)
            else:
                if args:
                    raise Undecided("positional call without signature")
                bound = dict(kwargs)
            if self.top is not None and self.top[0] == obj.id and self.top[1] == name:
                if self.top[2] == self.key(bound) and self.top[3] is func:
                    raise SubjectRaise('RecursionError', f"{name} calls itself with identical arguments", node)
            known = getattr(obj.family, 'known', KNOWN_PARAMS).get(name)
            if known is not None and func is not None:
                for k, v in bound.items():
                    if k not in known:
                        if k in omitted:
                            continue
                        raise Undecided(f"argument {k} of {name} has no contract")
            it.calls.append((obj, name, bound, node))
            if name in WHOLE_YEARS and not obj.cls.isa('MortalityLaws') and ip.is_num(bound.get('s')) and broken(ip.num(bound['s'])):
                raise SubjectRaise('ValueError', f"{name} is asked at a fraction of a year in s, which counts whole years (r carries the fraction)", node)
            if func is not None:
                refused(bound, func, node, self.model)
            if Specs.on_call is not None and func is not None:
                Specs.on_call(self, it, obj, func, bound, node)
            return fn(it, obj.family, bound)
        return h

    @staticmethod
    def key(bound):
        return tuple(sorted((k, ip.hkey(v)) for k, v in bound.items()))

    def constructor(self, it, cls):
        if cls.isa('Interest'):
            def h(it, cls, args, kwargs, node):
                return make_interest(it, cls, args, kwargs)
            return h
        return None

    # -- attributes -------------------------------------------------------------
    def attr(self, it, o, name):
        fam = o.family
        if fam is None:
            return NotImplemented
        if hasattr(fam, 'hide') and name in fam.hide:
            return NotImplemented
        ex = getattr(fam, 'extra', None)
        if ex and name in ex:
            v = ex[name]
            return v(it) if callable(v) and not isinstance(v, (ip.Builtin,)) else v
        if fam.kind == 'interest':
            return interest_attr(fam.I, name)
        if fam.kind == 'life':
            if name == 'interest':
                io = o.attrs.get('$interest')
                if io is None:
                    io = Obj(self.model.classes.get('Interest'), family=InterestF(fam.I), name='Interest')
                    o.attrs['$interest'] = io
                return io
            if name in SURV_ATTRS:
                return SURV_ATTRS[name]()
            if name == '_MAXAGE' and fam.maxage is not None:
                return fam.maxage
            if name == '_MINAGE':
                return fam.minage
            if name == 'udd_' and fam.udd is not None:
                return fam.udd
            if name == '_verbose':
                return R0
        return NotImplemented

    def setattr(self, it, o, name, v, node):
        return False

    def setitem(self, it, o, k, v, node):
        f = getattr(o, 'table_set', None)
        if f is not None:
            f(it, k, v, node)
            return True
        return False

    def getitem(self, it, o, k, node):
        f = getattr(o, 'table_get', None)
        if f is not None:
            return f(it, k, node)
        return NotImplemented

    def contains(self, it, o, k):
        f = getattr(o, 'table_has', None)
        if f is not None:
            return f(it, k)
        return NotImplemented

    def is_table(self, o):
        return hasattr(o, 'table_get')

    def delitem(self, it, o, k):
        return False

    def iterate(self, it, o):
        return None

    def method(self, it, o, name, a):
        f = getattr(o, 'table_' + name, None)
        return f(it, a) if f is not None else None


def make_interest(it, cls, args, kwargs):
    """contract of the Interest constructor: force of interest from the given rate"""
    z = cls.find('__init__')
    bound, omitted, defaults = it.bind(z[1].node, [None] + list(args), kwargs, 'Interest()')
    vals = {}
    for k in ('i', 'delta', 'd', 'v', 'i_m', 'd_m'):
        v = bound.get(k)
        if v is not None:
            v = ip.num(it.force(v))
            if _given(v):
                vals[k] = v
    if bound.get('v_t') is None and not vals:
        raise SubjectRaise('Exception', 'no interest rate given')
    if bound.get('v_t') is not None:
        raise Undecided("Interest with discount function")
    k, r = next(iter(vals.items()))
    m = ip.num(bound.get('m', R0))
    if k == 'delta':
        d = r
    elif k == 'i':
        d = al.log(R1 + r)
    elif k == 'd':
        d = -al.log(R1 - r)
    elif k == 'v':
        d = -al.log(r)
    elif k == 'i_m':
        d = m * al.log(R1 + r / m)
    else:
        d = -(m * al.log(R1 - r / m))
    return Obj(cls, family=InterestF(Interest(d)), name='Interest')


def _prim(names, fn):
    def h(it, obj, func, args, kwargs, node):
        if func is not None:
            full = list(args) if func.static else [obj] + list(args)
            bound, omitted, defaults = it.bind(func.node, full, kwargs, func.name)
            for k in omitted:
                bound[k] = it.eval_default(defaults[k], func)
        else:
            raise Undecided("primitive")
        return fn(it, bound, node)
    return h


def _isclose(it, b, node):
    r, t = it.force(b['r']), it.force(b['target'])
    if isinstance(r, ip.Unknown) or isinstance(t, ip.Unknown):
        return ip.Unknown('isclose')
    return it.close(ip.num(r), ip.num(t), ast.unparse(node) if node is not None else 'isclose')


def _solve(it, b, node):
    mad = b.get('mad', False)
    if it.specs.solver is not None:
        return it.specs.solver(it, b, node)
    if not (isinstance(mad, bool) and not mad):
        raise Undecided("least absolute deviation solve")
    return solve(it, b['fun'], b['target'], node)


PRIMS = {
    'isclose': _prim(None, _isclose),
    'integral': _prim(None, lambda it, b, n: integral(it, b['fun'], b['lower'], b['upper'], n)),
    'derivative': _prim(None, lambda it, b, n: derivative(it, b['fun'], b['x'], n)),
    'solve': _prim(None, _solve),
}

KNOWN_PARAMS = {}
for _n, _ps in {
    'p_x': 'x s t', 'q_x': 'x s t u', 'l_x': 'x s', 'd_x': 'x s t', 'f_x': 'x s t', 'mu_x': 'x s t',
    'e_x': 'x s t n curtate moment', 'E_x': 'x s t endowment moment',
    'A_x': 'x s t u benefit endowment moment discrete', 'insurance_variance': 'A2 A1 b',
    'whole_life_insurance': 'x s moment b discrete', 'term_insurance': 'x s t b moment discrete',
    'deferred_insurance': 'x s u t b moment discrete', 'endowment_insurance': 'x s t b endowment moment discrete',
    'increasing_insurance': 'x s t b discrete', 'decreasing_insurance': 'x s t b discrete',
    'a_x': 'x s t u benefit discrete', 'whole_life_annuity': 'x s b variance discrete',
    'temporary_annuity': 'x s t b variance discrete', 'deferred_annuity': 'x s u t b discrete variance',
    'certain_life_annuity': 'x s u t b discrete', 'immediate_annuity': 'x s t b variance',
    'increasing_annuity': 'x s t b discrete', 'decreasing_annuity': 'x s t b discrete',
    'annuity_twin': 'A discrete', 'insurance_twin': 'a moment discrete', 'annuity_variance': 'A2 A1 b discrete',
    'l_r': 'x s r', 'p_r': 'x s r t', 'q_r': 'x s r t u', 'mu_r': 'x s r', 'f_r': 'x s r t', 'E_r': 'x s r t',
    'e_r': 'x s r t', 'max_term': 'x t u',
}.items():
    KNOWN_PARAMS[_n] = set(_ps.split())
