"""Obligations of parametric mortality laws (C13) and constant force shortcuts (C14)."""
from . import algebra as al
from .algebra import rat, R0, R1, sym, L, F, B, T, exp, log
from . import interp as ip
from .interp import Obj
from .obl import Case, Raises, compare
from . import specs as sp
from . import laws
from .specs import LifeF, WHOLE
from .life_obl import World, case, xs, pint, insurance_cases, annuity_cases
from .surv_obl import neg_arg_cases


def named(Lf, Ff, Bf=None, Tf=None):
    """law given by explicit survival curve Lf(x, y), density Ff and tail integrals/sums"""
    def f(k, a):
        if k == 'L':
            return Lf(*a)
        if k == 'F':
            return Ff(*a)
        if k == 'B' and Bf is not None:
            return Bf(*a)
        if k == 'T' and Tf is not None:
            return Tf(*a)
        return None
    return laws.law(f)


# parameters are symbols with fixed names so that laws and subjects agree
def MU():
    return sym('mu', 'pos')


def ALPHA():
    return sym('alpha', 'pos')


def constant_force():
    """infinite horizon: S = exp(-mu t)"""
    def Bf(rho, p, x, y):
        k = rho + MU()
        e = exp(-(k * y))
        if p == 0:
            return e / k
        if p == 1:
            return e * (y / k + R1 / (k * k))
        return None

    def Tf(h, rho, p, x, y):
        k = rho + MU()
        r = exp(-(k * h))
        e = exp(-(k * y))
        if p == 0:
            return e / (R1 - r)
        if p == 1:
            return e * (y / (R1 - r) + h * r / ((R1 - r) * (R1 - r)))
        return None
    return named(lambda x, y: exp(-(MU() * y)), lambda x, y: MU() * exp(-(MU() * y)), Bf, Tf)


def uniform(om):
    """L = omega - x - y; om: thunk giving the limiting age of the world"""
    def Bf(rho, p, x, y):
        D = om() - x - y
        if rho.is_zero():
            if p == 0:
                return D * D / 2
            if p == 1:
                w = om() - x
                return w * D * D / 2 - D * D * D / 3
            return None
        if p == 0:
            return exp(-(rho * y)) * (D / rho - (R1 - exp(-(rho * D))) / (rho * rho))
        return None
    return named(lambda x, y: om() - x - y, lambda x, y: R1, Bf)


def beta(om):
    pw = lambda r, k: al.power(r, k)

    def Bf(rho, p, x, y):
        D = om() - x - y
        a = ALPHA()
        if rho.is_zero() and p == 0:
            return pw(D, a) * D / (a + 1)
        if rho.is_zero() and p == 1:
            return pw(D, a) * ((om() - x) * D / (a + 1) - D * D / (a + 2))
        return None
    return named(lambda x, y: pw(om() - x - y, ALPHA()), lambda x, y: ALPHA() * pw(om() - x - y, ALPHA()) / (om() - x - y), Bf)


def makeham(A):
    c = lambda: sym('c', 'pos')
    b = lambda: sym('B', 'pos')

    def Lf(x, y):
        return exp(-(A() * y) - b() * exp((x + y) * log(c())) / log(c()))

    def Ff(x, y):
        return (A() + b() * exp((x + y) * log(c()))) * Lf(x, y)
    return named(Lf, Ff)


OM = lambda: al.CTX.omega


def lazy(mk):
    """a law that needs the limiting age of the current world: built at comparison time"""
    def f(r):
        return mk(OM)(r)
    return f


# --- forms installed by the constructors --------------------------------------------
def form_case(cls, scen, args, law, maxage=None, minage=None, known=('S', 'mu', 'f'), radix=None, setup=None):
    """args() -> (positional, keyword) arguments of the constructor"""
    def build(it, c):
        o = Obj(c)
        a, k = args()
        x, s, t = sym('x', 'int', 'nonneg'), sym('s', 'int', 'nonneg'), sym('t', 'pos')
        om = maxage() if maxage else None
        if om is not None:
            al.CTX.omega = None
            al.CTX.facts.append(((om - x - s - t).n, True))
        lw = law(lambda: om) if om is not None else law(None)

        def chk(it, r, obj):
            und = None
            want = {'S': (L(x, s + t) / L(x, s), [x, s, t]), 'mu': (F(x, t) / L(x, t), [x, t]),
                    'f': (F(x, s + t) / L(x, s), [x, s, t]), 'l': ((radix() if radix else R1) * L(x, s), [x, s])}
            for nm in known:
                w, ar = want[nm]
                try:
                    got = it.call(it.getattr(obj, nm), ar, {})
                except ip.SubjectRaise as e:
                    return False, f"form {nm} raises {e.name}: {e.msg}"
                except ip.Undecided as e:
                    und = und or f"form {nm}: {e}"
                    continue
                co = compare(got, w, lw, it.trace.subs)
                if co == 'ne':
                    return False, f"form {nm} computes {got!r}; contract {lw(w)!r}"
                if co != 'eq':
                    und = und or f"form {nm}: {co}"
            for nm, w in (('_MAXAGE', om), ('_MINAGE', minage() if minage else None)):
                if w is not None and compare(it.getattr(obj, nm), w) == 'ne':
                    return False, f"{nm} is {it.getattr(obj, nm)!r}; must be {w!r}"
            return (None, und) if und else (True, '')
        return o, a, k, chk
    return Case(f"{cls}.__init__", scen, build, cls=cls, name='__init__')


def om_sym():
    return sym('om', 'int', 'pos')


def law_form_cases():
    out = []
    out.append(form_case('Beta', "beta law", lambda: ([], {'omega': om_sym(), 'alpha': ALPHA()}), beta, om_sym, lambda: R0, known=('S', 'mu', 'f')))
    out.append(form_case('Beta', "beta law, lives", lambda: ([], {'omega': om_sym(), 'alpha': ALPHA(), 'radix': sym('radix', 'pos')}), beta,
                         om_sym, known=('l',), radix=lambda: sym('radix', 'pos')))
    out.append(form_case('Uniform', "uniform law", lambda: ([om_sym()], {}), uniform, om_sym, lambda: R0, known=('S', 'mu', 'f')))
    out.append(form_case('Uniform', "uniform law, lives", lambda: ([om_sym()], {'radix': sym('radix', 'pos')}), uniform, om_sym,
                         known=('l',), radix=lambda: sym('radix', 'pos')))

    def cc():
        c = sym('c', 'pos')
        al.CTX.facts.append(((c - 1).n, True))
        return c
    out.append(form_case('Makeham', "Makeham's law", lambda: ([], {'A': sym('A', 'pos'), 'B': sym('B', 'pos'), 'c': cc()}),
                         lambda om: makeham(lambda: sym('A', 'pos'))))
    out.append(form_case('Gompertz', "Gompertz's law", lambda: ([], {'B': sym('B', 'pos'), 'c': cc()}), lambda om: makeham(lambda: R0)))
    for nm, bad in (('c not above one', {'c': R1}), ('B not positive', {'B': R0}), ('A below -B', {'A': -sym('B', 'pos') - 1})):
        def build(it, c, bad=bad):
            kw = {'A': sym('A', 'pos'), 'B': sym('B', 'pos'), 'c': cc()}
            kw.update(bad)
            return Obj(c), [], kw, Raises()
        out.append(Case('Makeham.__init__', f"{nm} rejected", build, cls='Makeham', name='__init__', rule='validation'))
    for cls, kw in (('Beta', lambda: {'omega': om_sym(), 'alpha': ALPHA()}), ('Uniform', lambda: {'omega': om_sym()}),
                    ('Gompertz', lambda: {'B': sym('B', 'pos'), 'c': cc()}), ('ConstantForce', lambda: {'mu': MU()}), ('MortalityLaws', lambda: {})):
        def build(it, c, kw=kw):
            return Obj(c), [], dict(kw(), udd=True), Raises()
        out.append(Case(f'{cls}.__init__', "fractional age assumption rejected", build, cls=cls, name='__init__', rule='validation'))
    return out


# --- fractional ages follow the law itself --------------------------------------------
def exact_fraction_cases(cls='MortalityLaws'):
    out = []

    def add(nm, scen, argf, **k):
        out.append(case(cls, nm, scen, argf, **k))
    R = lambda: sym('r', 'nonneg')
    for nm in ('l_r', 'mu_r'):
        add(nm, "fractional start", lambda w: xs(w, r=R()), tmode='real')
        add(nm, "start omitted", lambda w: xs(w), tmode='real')
    for nm in ('p_r', 'f_r', 'q_r', 'E_r'):
        for tm in ('real', 'in', 'one'):
            add(nm, f"fractional start, t {tm}", lambda w: xs(w, r=R(), t=w.t), tmode=tm)
    add('q_r', "deferred", lambda w: xs(w, r=R(), t=w.t, u=sym('u', 'pos')), tmode='real')
    add('p_r', "arguments omitted", lambda w: xs(w), tmode='one')
    add('q_r', "arguments omitted", lambda w: xs(w), tmode='one')
    add('e_r', "limited", lambda w: xs(w, t=w.t), tmode='real')
    add('e_r', "whole life", lambda w: xs(w), tmode='whole')
    return out


def built(it, cls, kwargs):
    """the parameters an object carries after its own constructor (survival forms, rate and ages aside)"""
    o = Obj(cls)
    f = cls.find('__init__')
    it.call_method(o, f[1], f[0], [], kwargs)
    return {k: v for k, v in o.attrs.items()
            if isinstance(v, (al.Rat, str, bool, type(None))) and k not in ('_MAXAGE', '_MINAGE', '_RADIX', 'interest')}


def with_attrs(c, given):
    """wrap a case so that the model object carries the law's parameters, as its constructor stores them"""
    b = c.build

    def build(it, k):
        r = b(it, k)
        fam = r[0].family
        for nm, v in built(it, k, given(fam)).items():
            fam.extra[nm] = v
        return r
    return Case(c.construct, c.scenario, build, law=c.law, rule=c.rule, cls=c.cls, name=c.name)


def beta_cases():
    out = []
    at = lambda F_: {'omega': F_.maxage, 'alpha': ALPHA()}
    lw = lazy(beta)
    for tm in ('in', 'edge', 'beyond', 'real', 'whole', 'zero', 'one'):
        out.append(with_attrs(case('Beta', 'e_r', f"t {tm}", lambda w: xs(w, t=w.t), law=lw, tmode=tm), at))
        if tm in ('in', 'whole', 'real'):
            out.append(with_attrs(case('Beta', 'e_r', f"t {tm}, fractional start", lambda w: xs(w, r=frac_start(w), t=w.t), law=lw, tmode=tm), at))
    for tm in ('in', 'edge', 'beyond', 'whole', 'zero', 'one'):
        for m in (1, 2, -2):
            out.append(with_attrs(case('Beta', 'e_x', f"complete, t {tm}, moment {m}",
                                       lambda w, m=m: xs(w, t=w.t, curtate=False, moment=rat(m)), law=lw, tmode=tm), at))
            out.append(with_attrs(case('Beta', 'e_x', f"curtate, t {tm}, moment {m}",
                                       lambda w, m=m: xs(w, t=w.t, curtate=True, moment=rat(m)), law=None, tmode=tm), at))
    return out


def frac_start(w):
    r = sym('r', 'frac')
    al.CTX.facts.append(((w.omega - w.x - w.s - (w.t if al.sign(w.t) != '-' else R0) - r).n, True))
    return r


def uniform_cases():
    out = []
    at = lambda F_: {'omega': F_.maxage}
    lw = lazy(uniform)
    for tm in ('in', 'edge', 'beyond', 'whole', 'zero', 'one'):
        for m in (1, 2, -2):
            out.append(with_attrs(case('Uniform', 'e_x', f"complete, t {tm}, moment {m}",
                                       lambda w, m=m: xs(w, t=w.t, curtate=False, moment=rat(m)), law=lw, tmode=tm), at))
            out.append(with_attrs(case('Uniform', 'e_x', f"curtate, t {tm}, moment {m}",
                                       lambda w, m=m: xs(w, t=w.t, curtate=True, moment=rat(m)), law=None, tmode=tm), at))
    for c in insurance_cases('Uniform', own={'E_x', 'whole_life_insurance', 'term_insurance'}):
        c.law = lw
        out.append(with_attrs(c, at))
    return out


def law_cases(tier='quick'):
    return law_form_cases() + exact_fraction_cases() + beta_cases() + uniform_cases()


# --- constant force ----------------------------------------------------------------------
def force_cases(tier='quick'):
    out = []
    at = lambda F_: {'mu': MU()}
    lw = constant_force()
    cf = 'ConstantForce'
    out.append(form_case(cf, "constant force", lambda: ([], {'mu': MU()}), lambda om: constant_force()))
    for tm in ('in', 'whole', 'zero', 'one', 'real'):
        for cur in (False, True):
            for m in (1, 2, -2):
                if tm == 'real' and cur:
                    continue
                out.append(with_attrs(case(cf, 'e_x', f"{'curtate' if cur else 'complete'}, t {tm}, moment {m}",
                                           lambda w, m=m, cur=cur: xs(w, t=w.t, curtate=cur, moment=rat(m)), law=lw, tmode=tm), at))
    own = {'E_x', 'whole_life_insurance', 'term_insurance', 'whole_life_annuity', 'temporary_annuity'}
    for c in insurance_cases(cf, own=own) + annuity_cases(cf, own=own):
        if any(z in c.scenario for z in ('t edge', 't beyond')):
            continue
        c.law = lw
        out.append(with_attrs(c, at))
    pr = lambda: sym('prob', 'frac')
    for d in (True, False):
        for nm, f, rnd in (('Z_t', lambda p: -al.log(p) / MU(), al.floor), ('Y_t', lambda p: -al.log(R1 - p) / MU(), al.ceil)):
            out.append(with_attrs(case(cf, nm, f"{'discrete' if d else 'continuous'}", lambda w, d=d: {'x': w.x, 'prob': pr(), 'discrete': d},
                                       lambda it, w, kw, f=f, rnd=rnd, d=d: (rnd(f(pr())) if d else f(pr())), tmode='whole'), at))
    return out
