"""Obligations of m-thly payments (C19: exact m-thly, UDD and Woolhouse) and extra risks (C20)."""
from . import algebra as al
from .algebra import rat, R0, R1, sym, L, F, Sum, Int, exp, T, B
from . import interp as ip
from .interp import Obj, Undecided
from .obl import Case, Raises, compare
from . import specs as sp
from . import laws
from .specs import LifeF, N, neg, WHOLE, moment_of, flag
from .life_obl import World, pint, xs, tmodes, user_benefit, const_benefit


class MthlyF:
    """contracts of a payment-frequency model over the life family"""
    kind = 'mthly'
    known = {}

    def __init__(self, life, m, table):
        self.life, self.m, self.table = life, m, table
        self.off, self.hide, self.extra, self.names = set(), set(), {}, None
        self.I = life.I
        self.three = False
        self.mu = None

    def rate_d(self):
        """nominal discount rate payable m-thly (the force when continuous)"""
        return self.m * (R1 - exp(-self.I.delta / self.m)) if not self.m.is_zero() else self.I.delta

    def A(self, x, s, t, u, mom, ben):
        f = self.life
        n = f.term(x, s, t, u)
        if n.is_zero():
            return R0
        if self.m.is_zero():
            return f.A(x, s, t, u, mom, False, ben)
        nm = f"$c{LifeF._n}"
        LifeF._n += 1
        k = sym(nm, 'int', 'nonneg')
        h = R1 / self.m
        body = al.ipow(ben(k * h) * self.I.v((k + 1) * h), mom) * (L(x, s + k * h) - L(x, s + (k + 1) * h)) / L(x, s)
        return Sum(body, nm, u * self.m, (u + n) * self.m)

    def E(self, x, s, t, e=R1, mom=1):
        return self.life.E(x, s, t, e, mom)

    def ins(self, x, s, t, u, b, mom, e=None):
        if mom == -2:
            return self.ins(x, s, t, u, b, 2, e) - al.ipow(self.ins(x, s, t, u, b, 1, e), 2)
        out = self.A(x, s, t, u, mom, lambda k: b)
        if e is not None and not neg(t):
            out = out + self.E(x, s, u + t, e, mom)
        return out

    def ann(self, x, s, t, u, b, variance=False):
        f = self.life
        if variance:
            A2, A1 = self.ins(x, s, t, R0, R1, 2, R1), self.ins(x, s, t, R0, R1, 1, R1)
            d = self.rate_d()
            v0 = b * b * (A2 - A1 * A1) / (d * d)
            if u.is_zero():
                return v0
            raise Undecided("variance of a deferred annuity")
        n = f.term(x, s, t, u)
        if n.is_zero():
            return R0
        if self.m.is_zero():
            return b * f.a(x, s, t, u, False, lambda k: R1)
        nm = f"$c{LifeF._n}"
        LifeF._n += 1
        k = sym(nm, 'int', 'nonneg')
        h = R1 / self.m
        return b * h * Sum(self.I.v(k * h) * L(x, s + k * h) / L(x, s), nm, u * self.m, (u + n) * self.m)


def mm(f, k):
    return k / f.m


def m_v_m(it, f, a):
    return f.I.v(mm(f, N(it, a, 'k')))


def m_q_m(it, f, a):
    x, s, t, u = N(it, a, 'x'), mm(f, N(it, a, 's_m', R0)), mm(f, N(it, a, 't_m', R1)), mm(f, N(it, a, 'u_m', R0))
    return f.life.q(x, s, t, u)


def m_p_m(it, f, a):
    return f.life.p(N(it, a, 'x'), mm(f, N(it, a, 's_m', R0)), mm(f, N(it, a, 't_m', R1)))


def m_E_x(it, f, a):
    return f.E(N(it, a, 'x'), N(it, a, 's', R0), N(it, a, 't', R1), N(it, a, 'endowment', R1), moment_of(a.get('moment', R1)))


def m_A_x(it, f, a):
    x, s = N(it, a, 'x'), N(it, a, 's', R0)
    return f.A(x, s, N(it, a, 't', R1), N(it, a, 'u', R0), moment_of(a.get('moment', R1)), sp._ben(it, a, x + s))


def _ins(it, a):
    return N(it, a, 'x'), N(it, a, 's', R0), N(it, a, 'b', R1), moment_of(a.get('moment', R1))


def m_whole(it, f, a):
    x, s, b, m = _ins(it, a)
    return f.ins(x, s, WHOLE, R0, b, m)


def m_term(it, f, a):
    x, s, b, m = _ins(it, a)
    return f.ins(x, s, N(it, a, 't', R1), R0, b, m)


def m_deferred(it, f, a):
    x, s, b, m = _ins(it, a)
    return f.ins(x, s, N(it, a, 't', WHOLE), N(it, a, 'u', R0), b, m)


def m_endow(it, f, a):
    x, s, b, m = _ins(it, a)
    e = N(it, a, 'endowment', rat(-1))
    return f.ins(x, s, N(it, a, 't', R1), R0, b, m, b if neg(e) else e)


def m_insurance_twin(it, f, a):
    return R1 - f.rate_d() * N(it, a, 'a')


def m_annuity_twin(it, f, a):
    return (R1 - N(it, a, 'A')) / f.rate_d()


def m_annuity_variance(it, f, a):
    b, A1, d = N(it, a, 'b', R1), N(it, a, 'A1'), f.rate_d()
    return b * b * (N(it, a, 'A2') - A1 * A1) / (d * d)


def m_wla(it, f, a):
    return f.ann(N(it, a, 'x'), N(it, a, 's', R0), WHOLE, R0, N(it, a, 'b', R1), flag(it, a.get('variance', False)))


def m_tla(it, f, a):
    return f.ann(N(it, a, 'x'), N(it, a, 's', R0), N(it, a, 't', WHOLE), R0, N(it, a, 'b', R1), flag(it, a.get('variance', False)))


def m_dla(it, f, a):
    return f.ann(N(it, a, 'x'), N(it, a, 's', R0), N(it, a, 't', WHOLE), N(it, a, 'u', R0), N(it, a, 'b', R1),
                 flag(it, a.get('variance', False)))


def m_imm(it, f, a):
    x, s, t, b = N(it, a, 'x'), N(it, a, 's', R0), N(it, a, 't', WHOLE), N(it, a, 'b', R1)
    due = f.ann(x, s, t, R0, b)
    if f.m.is_zero():
        return due
    return due - b * (R1 - f.E(x, s, t)) / f.m


MTHLY = {'v_m': m_v_m, 'q_m': m_q_m, 'p_m': m_p_m, 'E_x': m_E_x, 'A_x': m_A_x, 'whole_life_insurance': m_whole,
         'term_insurance': m_term, 'deferred_insurance': m_deferred, 'endowment_insurance': m_endow,
         'insurance_twin': m_insurance_twin, 'annuity_twin': m_annuity_twin, 'annuity_variance': m_annuity_variance,
         'whole_life_annuity': m_wla, 'temporary_annuity': m_tla, 'deferred_annuity': m_dla, 'immediate_annuity': m_imm}


def living(mu):
    """the force of mortality has no value at an age nobody reaches: no model answers such a call"""
    def g(x, s):
        if al.CTX.omega is not None and al._beyond(x, s):
            raise ip.SubjectRaise('ZeroDivisionError', "force of mortality asked for at the limiting age")
        return mu(x, s)
    return g


# --- Woolhouse: the annuity is the annual one less correction terms -------------------
def w_mu(it, f, x, s, a, nm):
    mu = a.get(nm)
    return ip.num(it.force(mu)) if mu is not None else f.mu(x, s)


def w_whole(it, f, x, s, mu=None):
    v = f.life.a(x, s, WHOLE, R0, True, lambda k: R1) - (f.m - 1) / (2 * f.m)
    if f.three:
        v = v - ((mu if mu is not None else f.mu(x, s)) + f.I.delta) * (f.m * f.m - 1) / (12 * f.m * f.m)
    return v


def _mu(it, a, nm):
    v = a.get(nm)
    return None if v is None else ip.num(it.force(v))


def w_ann(it, f, x, s, t, u, b, mu, mu1):
    n = f.life.term(x, s, t, u)
    if n.is_zero():
        return R0
    out = w_whole(it, f, x, s + u, mu)
    if not neg(t) and al.sign(f.life.top(x, s, u) - t) == '+':
        out = out - f.E(x, s + u, t) * w_whole(it, f, x, s + u + t, mu1)
    return b * out * (f.E(x, s, u) if not u.is_zero() else R1)


def w_wla(it, f, a):
    return N(it, a, 'b', R1) * w_whole(it, f, N(it, a, 'x'), N(it, a, 's', R0), _mu(it, a, 'mu'))


def w_tla(it, f, a):
    return w_ann(it, f, N(it, a, 'x'), N(it, a, 's', R0), N(it, a, 't', WHOLE), R0, N(it, a, 'b', R1), _mu(it, a, 'mu'), _mu(it, a, 'mu1'))


def w_dla(it, f, a):
    return w_ann(it, f, N(it, a, 'x'), N(it, a, 's', R0), N(it, a, 't', WHOLE), N(it, a, 'u', R0), N(it, a, 'b', R1),
                 _mu(it, a, 'mu'), _mu(it, a, 'mu1'))


def w_wli(it, f, a):
    return N(it, a, 'b', R1) * (R1 - f.rate_d() * w_whole(it, f, N(it, a, 'x'), N(it, a, 's', R0), _mu(it, a, 'mu')))


def _w_term(it, f, x, s, t, b, mu, mu1):
    out = R1 - f.rate_d() * w_whole(it, f, x, s, mu)
    if not neg(t) and al.sign(f.life.top(x, s) - t) == '+':
        out = out - f.E(x, s, t) * (R1 - f.rate_d() * w_whole(it, f, x, s + t, mu1))
    return b * out


def w_ti(it, f, a):
    return _w_term(it, f, N(it, a, 'x'), N(it, a, 's', R0), N(it, a, 't', WHOLE), N(it, a, 'b', R1), _mu(it, a, 'mu'), _mu(it, a, 'mu1'))


def w_ei(it, f, a):
    t, e, b = N(it, a, 't', WHOLE), N(it, a, 'endowment', rat(-1)), N(it, a, 'b', R1)
    x, s = N(it, a, 'x'), N(it, a, 's', R0)
    e = b if neg(e) else e
    return _w_term(it, f, x, s, t, b, _mu(it, a, 'mu'), None) + f.E(x, s, t, e)


def w_di(it, f, a):
    x, s, u = N(it, a, 'x'), N(it, a, 's', R0), N(it, a, 'u', R0)
    return f.E(x, s, u) * _w_term(it, f, x, s + u, N(it, a, 't', WHOLE), N(it, a, 'b', R1), _mu(it, a, 'mu'), _mu(it, a, 'mu1'))


def w_mu_x(it, f, a):
    return f.mu(N(it, a, 'x'), N(it, a, 's', R0))


WOOL = dict(MTHLY)
WOOL.update({'whole_life_annuity': w_wla, 'temporary_annuity': w_tla, 'deferred_annuity': w_dla, 'whole_life_insurance': w_wli,
             'term_insurance': w_ti, 'endowment_insurance': w_ei, 'deferred_insurance': w_di, 'mu_x': w_mu_x})


# --- UDD as a law: m-thly tails are combinations of annual tails -----------------------
def udd_law(m):
    base = laws.udd()

    def weights(rho):
        if m.is_zero():
            if rho.is_zero():
                return R1 / 2, R1 / 2
            e = exp(-rho)
            return R1 / rho - (R1 - e) / (rho * rho), (R1 - e) / (rho * rho) - e / rho
        j = sym('$j', 'int', 'nonneg')
        w = Sum(exp(-(rho * j / m)), '$j', R0, m)
        w1 = Sum(exp(-(rho * j / m)) * j / m, '$j', R0, m)
        return w - w1, w1

    def f(k, a):
        if k == 'T' and not a[0].const() and a[2] == 0:
            h, rho, p, x, y = a
            if not al.req(h * m, R1):
                return None
        elif k == 'B' and m.is_zero() and a[1] == 0:
            rho, p, x, y = a
        else:
            return None
        z = laws._split(y)
        if z is None or not z[1].is_zero():
            return None
        c0, c1 = weights(rho)
        t1 = T(R1, rho, 0, x, y)
        return c0 * t1 + c1 * exp(rho) * (t1 - exp(-(rho * y)) * L(x, y))
    lw = laws.law(f)
    return lambda r: base(lw(r))


# --- scenarios ---------------------------------------------------------------------------
LATE = False        # the underlying model has another rate of interest while the adjustment is made (C31)


def mcase(cls, name, scen, argf, wantf=None, mode='sym', table=MTHLY, rule='contract', law=None, three=False, approx=None, **world):
    late = LATE

    def build(it, c):
        w = World(it, it.model.classes['Annuity'], **world)
        rate, age = w.F.I, w.F.maxage
        m = pint('m') if mode == 'sym' else rat(mode)
        f = MthlyF(w.F, m, table)
        o = Obj(c, family=f)
        given = {'m': m, 'life': w.obj}
        if table is WOOL:
            f.three = three
            if approx == 'fn':
                ap = ip.Builtin('mu', lambda it, a, k, n: rat(al.Atom('mu', (ip.num(a[0]), ip.num(a[1])))))
                f.mu = lambda x, s: rat(al.Atom('mu', (x, s)))
            elif approx:
                ap = True
                f.mu = living(lambda x, s: -(al.log(w.F.p(x, s, R1)) + al.log(w.F.p(x, s - 1, R1))) / 2)
            else:
                ap = False
                f.mu = living(lambda x, s: F(x, s) / L(x, s))
            given.update(three_term=three, approximate_mu=ap)
        z = c.find('__init__')
        if late:
            w.F.I, w.F.maxage = sp.Interest('pos', 'delta0'), sym('om0', 'int', 'pos')
        it.call_method(o, z[1], z[0], [], given)
        w.F.I, w.F.maxage = rate, age
        w.obj.attrs.pop('$interest', None)
        o.writes.clear()
        w.m, w.mf = m, f
        kw = argf(w)
        want = table[name](it, f, dict(kw)) if wantf is None else wantf(it, w, kw)
        return o, [], kw, want
    z = None
    if law == 'udd':
        z = lambda r: udd_law(sym('m') if mode == 'sym' else rat(mode))(r)
    return Case(None, scen, build, law=z, cls=cls, name=name, rule=rule, interp=law)


def frequency_cases(cls, own=None, law=None):
    out = []

    def add(name, scen, argf, wantf=None, **k):
        if own is None or name in own:
            for mode in (('sym', 0) if name not in ('v_m', 'q_m', 'p_m', 'Z_m') else ('sym',)):
                out.append(mcase(cls, name, f"{scen}, m {'any' if mode == 'sym' else mode}", argf, wantf, mode=mode, law=law, **k))
    K = lambda n='k': sym(n, 'int', 'nonneg')
    add('v_m', "periods", lambda w: {'k': K()})
    for nm in ('q_m', 'p_m'):
        add(nm, "defaults", lambda w: {'x': w.x})
        add(nm, "durations", lambda w: {'x': w.x, 's_m': K('sm'), 't_m': K('tm')})
    add('q_m', "deferred", lambda w: {'x': w.x, 's_m': K('sm'), 't_m': K('tm'), 'u_m': K('um')})
    for tm in tmodes():
        for mo in (1, 2):
            add('E_x', f"t {tm}, moment {mo}, endowment", lambda w, mo=mo: xs(w, t=w.t, moment=rat(mo), endowment=w.e), tmode=tm)
    for tm in ('in', 'edge', 'beyond', 'whole'):
        for um in (None, 'in'):
            for mo in (1, 2):
                add('A_x', f"t {tm}, u {um or 'omitted'}, moment {mo}",
                    lambda w, mo=mo, um=um: xs(w, t=w.t, moment=rat(mo), benefit=user_benefit(), **({'u': w.u} if um else {})),
                    tmode=tm, umode=um)
    mts = {1: 'mean', 2: 'second moment', -2: 'variance'}
    for mo in (1, 2, -2):
        add('whole_life_insurance', mts[mo], lambda w, mo=mo: xs(w, b=w.b, moment=rat(mo)), tmode='whole')
        for tm in tmodes():
            add('term_insurance', f"t {tm}, {mts[mo]}", lambda w, mo=mo: xs(w, t=w.t, b=w.b, moment=rat(mo)), tmode=tm)
            add('endowment_insurance', f"t {tm}, {mts[mo]}, endowment",
                lambda w, mo=mo: xs(w, t=w.t, b=w.b, endowment=w.e, moment=rat(mo)), tmode=tm)
            add('endowment_insurance', f"t {tm}, {mts[mo]}, default endowment",
                lambda w, mo=mo: xs(w, t=w.t, b=w.b, moment=rat(mo)), tmode=tm)
            for um in ('in', 'zero'):
                add('deferred_insurance', f"t {tm}, u {um}, {mts[mo]}",
                    lambda w, mo=mo: xs(w, u=w.u, t=w.t, b=w.b, moment=rat(mo)), tmode=tm, umode=um)
        add('deferred_insurance', f"u beyond, {mts[mo]}", lambda w, mo=mo: xs(w, u=w.u, t=w.t, b=w.b, moment=rat(mo)),
            lambda it, w, kw: R0, tmode='in', umode='beyond')
    for tm in ('in', 'one'):
        for mo in (1, 2):
            for own_b in (True, False):
                def zq(it, w, kw):
                    f, h = w.mf, R1 / w.m

                    def chk(it, r, obj):
                        if not isinstance(r, Obj) or 'data' not in r.attrs:
                            return None, "result is not a table"
                        d, ix = r.attrs['data'], r.attrs.get('index')
                        if set(d) != {'m', 'Z', 'q'} or ix != 'm':
                            return False, f"columns {sorted(map(str, d))} index {ix}"
                        k = sym('$w', 'int', 'nonneg')
                        ben = (lambda z: ip.num(it.call(kw['benefit'], [w.x + w.s, z], {}))) if 'benefit' in kw else (lambda z: R1)
                        mo_ = moment_of(kw.get('moment', R1))
                        n = w.t * w.m
                        und = None
                        for nm, body in (('Z', al.ipow(ben(k * h) * f.I.v((k + 1) * h), mo_)), ('q', f.life.q(w.x, w.s, h, k * h))):
                            c = compare(d[nm], ip.SymList(body, '$w', R0, n), None, it.trace.subs)
                            if c == 'ne':
                                return False, f"column {nm} computes {d[nm].body!r}; contract {body!r}"
                            if c != 'eq':
                                und = c
                        if isinstance(d['m'], ip.RangeV) and (compare(d['m'].lo, R1) == 'ne' or compare(d['m'].hi, n + 1) == 'ne'):
                            return False, "index does not number the periods"
                        return (None, und) if und else (True, '')
                    return chk
                add('Z_m', f"t {tm}, moment {mo}{', benefit' if own_b else ''}",
                    lambda w, mo=mo, own_b=own_b: xs(w, t=w.t, moment=rat(mo), **({'benefit': user_benefit()} if own_b else {})), zq, tmode=tm)
    add('insurance_twin', "twin", lambda w: {'a': sym('a', 'pos')})
    add('annuity_twin', "twin", lambda w: {'A': sym('A', 'pos')})
    add('annuity_variance', "moments", lambda w: {'A2': sym('A2', 'pos'), 'A1': sym('A1', 'pos'), 'b': w.b})
    for var in (False, True):
        vt = 'variance' if var else 'mean'
        add('whole_life_annuity', vt, lambda w, var=var: xs(w, b=w.b, variance=var), tmode='whole')
        for tm in tmodes():
            if var and tm == 'zero':
                continue
            add('temporary_annuity', f"t {tm}, {vt}", lambda w, var=var: xs(w, t=w.t, b=w.b, variance=var), tmode=tm)
    for tm in tmodes():
        for um in ('in', 'zero'):
            add('deferred_annuity', f"t {tm}, u {um}", lambda w: xs(w, u=w.u, t=w.t, b=w.b), tmode=tm, umode=um)
        add('immediate_annuity', f"t {tm}", lambda w: xs(w, t=w.t, b=w.b), tmode=tm)
    add('deferred_annuity', "u beyond", lambda w: xs(w, u=w.u, t=w.t, b=w.b), lambda it, w, kw: R0, tmode='in', umode='beyond')
    for nm, tm in (('whole_life_insurance', 'whole'), ('term_insurance', 'one'), ('endowment_insurance', 'one'), ('E_x', 'one'),
                   ('deferred_insurance', 'whole'), ('whole_life_annuity', 'whole'), ('temporary_annuity', 'whole'),
                   ('deferred_annuity', 'whole'), ('immediate_annuity', 'whole')):
        add(nm, "arguments omitted", lambda w: xs(w), tmode=tm)
    add('A_x', "arguments omitted", lambda w: xs(w), lambda it, w, kw: w.mf.A(w.x, w.s, R1, R0, 1, lambda k: R1), tmode='one')
    return out


def udd_extra_cases():
    out = []

    def dla_var(it, w, kw):
        f = w.mf
        x, s, u, t, b = w.x, w.s, w.u, w.t, w.b
        d = f.rate_d()
        A2, A1 = f.ins(x, s + u, t, R0, R1, 2, R1), f.ins(x, s + u, t, R0, R1, 1, R1)
        v = b * b * (A2 - A1 * A1) / (d * d)
        a = f.ann(x, s + u, t, R0, b)
        return f.E(x, s, u, R1, 2) * (v + a * a) - al.ipow(f.E(x, s, u) * a, 2)
    for tm in ('in', 'whole', 'edge'):
        out.append(mcase('UDD', 'deferred_annuity', f"variance, t {tm}, u in, m any", lambda w: xs(w, u=w.u, t=w.t, b=w.b, variance=True),
                         dla_var, tmode=tm, umode='in', law='udd'))

    # factors: alpha, beta of the rate
    def stat(nm, wf, mode):
        def build(it, c):
            al.CTX.omega = None
            m = pint('m') if mode == 'sym' else rat(mode)
            de = sym('delta', 'pos')
            i = exp(de) - 1
            im = m * (exp(de / m) - 1) if not m.is_zero() else de
            dm = m * (R1 - exp(-(de / m))) if not m.is_zero() else de
            return Obj(c), [], {'m': m, 'i': i}, wf(i, R1 - exp(-de), im, dm)
        return Case(f'UDD.{nm}', f"m {'any' if mode == 'sym' else mode}", build, cls='UDD', name=nm)
    for mode in ('sym', 0, 1, 12):
        out.append(stat('alpha', lambda i, d, im, dm: i * d / (im * dm), mode))
        out.append(stat('beta', lambda i, d, im, dm: (i - im) / (im * dm), mode))
    return out


def init_cases():
    out = []

    def ctor(cls, scen, kwf, want):
        def build(it, c):
            w = World(it, it.model.classes['Annuity'], tmode='whole')
            kw = kwf(w)

            def chk(it, r, obj):
                for nm, v in want(w).items():
                    got = it.getattr(obj, nm)
                    if isinstance(v, (Obj, bool, ip.Builtin)) or not isinstance(v, al.Rat):
                        if got is not v:
                            return False, f"{nm} is {got!r}; must be the value given"
                    elif compare(got, v) == 'ne':
                        return False, f"{nm} is {got!r}; must be {v!r}"
                return True, ''
            return Obj(c), [], dict(kw, life=w.obj), chk
        out.append(Case(f'{cls}.__init__', scen, build, cls=cls, name='__init__'))
    M = lambda: pint('m')
    for cls in ('Mthly', 'UDD', 'Woolhouse'):
        ctor(cls, "frequency", lambda w: {'m': M()}, lambda w: {'m': sym('m'), 'life': w.obj})
        ctor(cls, "continuous", lambda w: {'m': R0}, lambda w: {'m': R0, 'life': w.obj})
    ctor('Mthly', "negative frequency", lambda w: {'m': rat(-1)}, lambda w: {'m': R0})
    return out


def woolhouse_cases():
    out = []
    MU, MU1 = (lambda: sym('mu', 'pos')), (lambda: sym('mu1', 'pos'))

    def add(name, scen, argf, wantf=None, **k):
        opts = ((False, None, 'two terms'), (True, 'approx', 'three terms, approximated force'), (True, None, 'three terms, exact force'),
                (True, 'fn', 'three terms, custom force'))
        for three, ap, txt in opts:
            out.append(mcase('Woolhouse', name, f"{scen}, {txt}", argf, wantf, table=WOOL, three=three, approx=ap, **k))
    for ap in (None, 'approx', 'fn'):
        out.append(mcase('Woolhouse', 'mu_x', f"{ap or 'exact'}", lambda w: xs(w), table=WOOL, approx=ap, tmode='whole',
                         setup=None) if False else mcase('Woolhouse', 'mu_x', f"{ap or 'exact'}", lambda w: xs(w), table=WOOL, approx=ap, tmode='whole'))
    for given in (False, True, 'zero'):
        g = {False: {}, True: {'mu': MU}, 'zero': {'mu': lambda: R0}}[given]
        g1 = {False: {}, True: {'mu': MU, 'mu1': MU1}, 'zero': {'mu': lambda: R0, 'mu1': lambda: R0}}[given]
        tag = {False: 'force not given', True: 'force given', 'zero': 'zero force given'}[given]
        ev = lambda d: {k: v() for k, v in d.items()}
        add('whole_life_annuity', tag, lambda w, g=g: xs(w, b=w.b, **ev(g)), tmode='whole')
        add('whole_life_insurance', tag, lambda w, g=g: xs(w, b=w.b, **ev(g)), tmode='whole')
        for tm in ('in', 'edge', 'beyond', 'whole', 'one') + (('zero',) if not given else ()):
            add('temporary_annuity', f"t {tm}, {tag}", lambda w, g=g1: xs(w, t=w.t, b=w.b, **ev(g)), tmode=tm)
            add('term_insurance', f"t {tm}, {tag}", lambda w, g=g1: xs(w, t=w.t, b=w.b, **ev(g)), tmode=tm)
            add('endowment_insurance', f"t {tm}, {tag}", lambda w, g=g: xs(w, t=w.t, b=w.b, endowment=w.e, **ev(g)), tmode=tm)
            add('endowment_insurance', f"t {tm}, {tag}, default endowment", lambda w, g=g: xs(w, t=w.t, b=w.b, **ev(g)), tmode=tm)
            add('deferred_annuity', f"t {tm}, u in, {tag}", lambda w, g=g1: xs(w, t=w.t, u=w.u, b=w.b, **ev(g)), tmode=tm, umode='in')
            add('deferred_insurance', f"t {tm}, u in, {tag}", lambda w, g=g1: xs(w, t=w.t, u=w.u, b=w.b, **ev(g)), tmode=tm, umode='in')
    add('deferred_annuity', "u beyond", lambda w: xs(w, u=w.u, t=w.t, b=w.b), lambda it, w, kw: R0, tmode='in', umode='beyond')
    add('deferred_insurance', "u beyond", lambda w: xs(w, u=w.u, t=w.t, b=w.b), lambda it, w, kw: R0, tmode='in', umode='beyond')
    for nm in ('whole_life_annuity', 'temporary_annuity', 'deferred_annuity', 'whole_life_insurance', 'term_insurance',
               'endowment_insurance', 'deferred_insurance'):
        add(nm, "arguments omitted", lambda w: xs(w), tmode='whole')
    return out


def mthly_cases(tier='quick'):
    own_udd = {'whole_life_insurance', 'term_insurance', 'endowment_insurance', 'whole_life_annuity', 'temporary_annuity', 'deferred_annuity',
               'immediate_annuity', 'deferred_insurance'}
    return (init_cases() + frequency_cases('Mthly') + frequency_cases('UDD', own=own_udd, law='udd') + udd_extra_cases() + woolhouse_cases())


def late_source():
    global LATE
    LATE = True
    try:
        return [c for c in mthly_cases() if c.name not in ('__init__', 'alpha', 'beta')]
    finally:
        LATE = False


# --- extra risks -----------------------------------------------------------------------------
def risk_cases(tier='quick'):
    out = []
    X = lambda: sym('extra', 'pos')
    risks = {'': lambda p, g: p, 'ADD_FORCE': lambda p, g: p * exp(-X()), 'MULTIPLY_FORCE': lambda p, g: al.power(p, X()),
             'ADD_AGE': lambda p, g: g, 'MULTIPLY_RATE': lambda p, g: R1 - X() * (R1 - p)}

    def world(it, risk):
        w = World(it, it.model.classes['Survival'], tmode='whole')
        o = Obj(it.model.classes['ExtraRisk'])
        z = o.cls.find('__init__')
        it.call_method(o, z[1], z[0], [], {'life': w.obj, 'extra': X() if risk != 'ADD_AGE' else sym('extra', 'int', 'pos'), 'risk': risk})
        o.writes.clear()
        if risk == 'ADD_AGE':
            al.CTX.omega = None
        return w, o

    def val(w, risk, x, s):
        p = w.F.p(x, s, R1)
        g = w.F.p(x + sym('extra'), s, R1)
        return risks[risk](p, g)
    for risk in risks:
        for nm in ('p_x', 'q_x'):
            for om in (False, True):
                def build(it, c, risk=risk, nm=nm, om=om):
                    w, o = world(it, risk)
                    s = R0 if om else w.s
                    p = val(w, risk, w.x, s)
                    kw = {'x': w.x} if om else {'x': w.x, 's': w.s}
                    return o, [], kw, (p if nm == 'p_x' else R1 - p)
                out.append(Case(None, f"{risk or 'no risk'}{', issue' if om else ''}", build, cls='ExtraRisk', name=nm))
        for col in ('p', 'q'):
            def build(it, c, risk=risk, col=col):
                w, o = world(it, risk)
                lo, n = sym('minage', 'int', 'nonneg'), pint('n')
                w.F.minage, w.F.maxage = lo, lo + n
                al.CTX.omega = None
                nm = '$w'
                k = sym(nm, 'int', 'nonneg')
                p = val(w, risk, k, R0)
                return o, [col], {}, ip.SymDict(k, p if col == 'p' else R1 - p, nm, lo, lo + n + 1)
            out.append(Case('ExtraRisk.__getitem__', f"{col}, {risk or 'no risk'}", build, cls='ExtraRisk', name='__getitem__'))
    for nm, kw in (("negative amount", lambda: {'risk': 'ADD_FORCE', 'extra': -X()}), ("unknown risk", lambda: {'risk': 'NONSENSE', 'extra': X()})):
        def build(it, c, kw=kw):
            w = World(it, it.model.classes['Survival'], tmode='whole')
            return Obj(c), [], dict(kw(), life=w.obj), Raises('AssertionError', 'ValueError')
        out.append(Case('ExtraRisk.__init__', f"{nm} rejected", build, cls='ExtraRisk', name='__init__', rule='validation'))
    return out
