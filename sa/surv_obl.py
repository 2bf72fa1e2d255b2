"""Obligations: survival forms (C02), fractional ages (C03), probability formulas of the Life class."""
from . import algebra as al
from .algebra import rat, R0, R1, sym, L, F, exp
from . import interp as ip
from .interp import Obj
from .obl import Case, Raises, compare
from . import specs as sp
from . import laws
from .specs import LifeF, Interest, WHOLE
from .life_obl import World, case, xs, pint


def world(it, cls, names=None, **k):
    w = World(it, cls, **k)
    return w


# --- set_survival -----------------------------------------------------------
def user(name, names, fn):
    return sp.lifefn(name, fn, names)


def u_S():
    return user('S', ['x', 's', 't'], sp.s_S)


def u_f():
    return user('f', ['x', 's', 't'], sp.s_f)


def u_l():
    return user('l', ['x', 's'], sp.s_l)


def u_mu():
    return user('mu', ['x', 't'], sp.s_mu)


def forms_check(given, maxage=None, minage=None):
    def chk(it, r, obj):
        x, s, t = sym('x', 'int', 'nonneg'), sym('s', 'nonneg'), sym('t', 'nonneg')
        want = {'S': (L(x, s + t) / L(x, s), [x, s, t]), 'f': (F(x, s + t) / L(x, s), [x, s, t]),
                'mu': (F(x, t) / L(x, t), [x, t]), 'l': (al.sym('radix', 'pos') * L(x, s), [x, s])}
        und = None
        for nm, (w, args) in want.items():
            if nm == 'l' and 'l' not in given:
                continue
            try:
                fn = it.getattr(obj, nm)
                if fn is None:
                    return False, f"form {nm} is not set"
                got = it.call(fn, args, {})
            except ip.SubjectRaise as e:
                return False, f"form {nm} raises {e.name}: {e.msg}"
            except ip.Undecided as e:
                und = und or f"form {nm}: {e}"
                continue
            c = compare(got, w, None, it.trace.subs)
            if c == 'ne':
                return False, f"form {nm} computes {got!r}; contract {w!r}"
            if c != 'eq':
                und = und or f"form {nm}: {c}"
        if r is not obj:
            return False, "does not return the model"
        for nm, w in (('_MAXAGE', maxage), ('_MINAGE', minage)):
            if w is not None:
                c = compare(it.getattr(obj, nm), w)
                if c == 'ne':
                    return False, f"{nm} not set"
        return (None, und) if und else (True, '')
    return chk


def set_survival_cases(cls='Survival'):
    out = []
    mk = {'S': u_S, 'f': u_f, 'l': u_l, 'mu': u_mu}

    def add(scen, kwf, want):
        out.append(Case(None, scen, lambda it, c: (Obj(c), [], kwf(), want() if not isinstance(want, Raises) else want),
                        cls=cls, name='set_survival'))
    for k in mk:
        add(f"from {k}", lambda k=k: {k: mk[k](), 'maxage': sym('om', 'int', 'pos'), 'minage': sym('mn', 'int', 'nonneg')},
            lambda k=k: forms_check({k}, sym('om', 'int', 'pos'), sym('mn', 'int', 'nonneg')))
    for a in mk:
        for b in mk:
            if a < b:
                add(f"from {a} and {b}", lambda a=a, b=b: {a: mk[a](), b: mk[b]()}, lambda a=a, b=b: forms_check({a, b}))
    def extinct(it, c):
        """nobody alive at [x]+s: survival from there is zero"""
        x, s, t = sym('x', 'int', 'nonneg'), sym('s', 'nonneg'), sym('t', 'nonneg')

        def chk(it, r, obj):
            f = it.getattr(obj, 'S')
            try:
                got = it.call(f, [x, s, t], {})
            except ip.SubjectRaise as e:
                return False, f"form S raises {e.name}: {e.msg}"
            c = compare(got, R0, None, it.trace.subs)
            return (True, '') if c == 'eq' else (False if c == 'ne' else None, f"form S computes {got!r} where nobody is alive")
        dead = ip.Builtin('l', lambda it, a, k, n: R0 if al.req(a[0], x) and not al.req(a[1], x) else al.sym('alive', 'pos'))
        return Obj(c), [], {'l': dead}, chk
    out.append(Case(None, "from l, nobody alive", extinct, cls=cls, name='set_survival'))
    add("no form", lambda: {}, Raises())
    for k in mk:
        add(f"{k} not callable", lambda k=k: {k: rat(1) / 2}, Raises())
    return out


# --- survival at integer ages ----------------------------------------------
SURV = {'l_x': 'x s', 'd_x': 'x s', 'p_x': 'x s t', 'q_x': 'x s t u', 'f_x': 'x s t', 'mu_x': 'x s t'}


def neg_arg_cases(cls, names, out, extra=()):
    for nm, params in names.items():
        for bad in [p for p in params.split() if p in ('x', 's') or p in extra]:
            def build(it, c, nm=nm, bad=bad):
                w = World(it, c, tmode='one')
                kw = {'x': w.x, 's': w.s}
                kw[bad] = -w.h
                return w.obj, [], kw, Raises()
            out.append(Case(None, f"negative {bad} rejected", build, cls=cls, name=nm, rule='validation'))


def survival_cases(cls='Survival'):
    out = []

    def add(nm, scen, argf, wantf=None, law=None, setup=None, **k):
        out.append(case(cls, nm, scen, argf, wantf, law=law, setup=setup, **k))
    for nm, ps in SURV.items():
        for tm in (('in', 'one', 'real', 'zero', 'edge') if 't' in ps.split() else ('one',)):
            for um in ((None, 'in', 'zero') if 'u' in ps.split() else (None,)):
                if tm == 'edge' and nm == 'mu_x':
                    continue
                add(nm, f"t {tm}{', u ' + um if um else ''}",
                    lambda w, ps=ps, um=um: {**xs(w), **({'t': w.t} if 't' in ps.split() else {}), **({'u': w.u} if um else {})},
                    tmode=tm, umode=um)
        add(nm, "arguments omitted", lambda w: {'x': w.x}, tmode='one')

    def no(*names):
        def setup(w):
            for n in names:
                w.F.extra[n] = None
                w.F.hide.discard(n)
            w.F.extra['_MINAGE'] = sym('mn', 'int', 'nonneg')
            w.F.extra['_RADIX'] = sym('radix', 'pos')
        return setup
    # fallbacks when a form is not available
    def lwant(it, w, kw):
        mn = sym('mn', 'int', 'nonneg')
        al.CTX.facts.append(((w.x - mn).n, False))
        return sym('radix', 'pos') * L(R0, w.x + w.s) / L(R0, mn)
    add('l_x', "number of lives from survival function", lambda w: xs(w), lwant, law=laws.ultimate(), setup=no('l'))
    add('f_x', "density without density function", lambda w: xs(w, t=w.t), setup=no('f'), tmode='in')
    add('mu_x', "force without force function", lambda w: xs(w, t=w.t), setup=no('mu'), tmode='in')
    add('p_x', "no survival function", lambda w: xs(w, t=w.t), lambda it, w, kw: Raises(), setup=no('S'), tmode='in')
    neg_arg_cases(cls, SURV, out)
    return out


def lifetime_cases(cls='Lifetime'):
    out = []
    for cur in (True, False):
        ct = 'curtate' if cur else 'complete'
        for tm in ('in', 'edge', 'beyond', 'one', 'whole', 'zero'):
            for m in (1, 2, -2):
                out.append(case(cls, 'e_x', f"{ct}, t {tm}, moment {m}",
                                lambda w, cur=cur, m=m: xs(w, t=w.t, curtate=cur, moment=rat(m)), tmode=tm,
                                wantf=(lambda it, w, kw: sp.c_e_x(it, w.F, dict(kw)))))
    for cur in (True, False):
        for tm in ('beyond', 'whole', 'in'):
            for m in (1, 2, -2):
                out.append(case(cls, 'e_x', f"{'curtate' if cur else 'complete'}, t {tm}, moment {m}, survivors past the limiting age",
                                lambda w, cur=cur, m=m: xs(w, t=w.t, curtate=cur, moment=rat(m)), tmode=tm, open_curve=True,
                                wantf=(lambda it, w, kw: sp.c_e_x(it, w.F, dict(kw)))))
    out.append(case(cls, 'e_x', "arguments omitted", lambda w: {'x': w.x}, tmode='whole'))
    for m in (0, 3, -1):
        out.append(case(cls, 'e_x', f"moment {m} rejected", lambda w, m=m: xs(w, moment=rat(m)), lambda it, w, kw: Raises(),
                        tmode='whole', rule='validation'))
    neg_arg_cases(cls, {'e_x': 'x s'}, out)
    return out


# --- fractional ages -------------------------------------------------------------
class FW(World):
    def __init__(self, it, cls, udd, mode):
        """mode: how the fractional start r and the durations t, u fall relative to integer ages"""
        super().__init__(it, cls, tmode='in')
        self.F.udd = udd
        r = sym('r', 'frac')
        w1, w2 = sym('w1', 'frac'), sym('w2', 'frac')
        n1, n2 = pint('n1'), pint('n2')
        f = al.CTX.facts
        m = mode.split()
        d = dict(z.split('=') for z in m)
        self.r = {'0': R0, 'r': r, 'k': pint('k'), 'k+r': pint('k') + r}[d['r']]
        rr = r if 'r' in d['r'] else R0
        self.F.maxage = self.x + self.s + n1 + n2 + pint('k') + 5
        al.CTX.omega = None
        # end points of the durations, as positions relative to floor(r)
        def pos(code, prev):
            if code == 'w1':
                f.append(((w1 - prev).n, True)) if not prev.is_zero() else None
                return w1
            if code == 'w2':
                f.append(((w2 - prev).n, True))
                return w2
            if code == '0':
                return prev
            if code == '1':
                return R1
            if code == 'n':
                return n1
            if code == 'n+w1':
                return n1 + w1
            if code == 'n+w2':
                return prev + n2 + (w2 - w1) if not prev.is_zero() else n2 + w2
            if code in ('1+lo', '1+hi'):       # in the next year of age, less or more than a year on
                lo = sym('w1', 'frac')
                f.append((((prev - lo) if code == '1+lo' else (lo - prev)).n, True))
                return R1 + lo
            if code == 'n+n':
                return prev + n2
            raise ValueError(code)
        self.uu = R0
        start = rr
        if 'u' in d:
            end = pos(d['u'], start)
            self.uu = end - start
            start = end
        self.tt = R0
        if 't' in d:
            end = pos(d['t'], start)
            self.tt = end - start


def option_cases():
    """the rule of interpolation a model is built with is the one it uses"""
    out = []
    for cls in ('Fractional', 'Insurance', 'Annuity', 'Premiums', 'PolicyValues', 'Reserves', 'Recursion', 'LifeTable', 'SelectLife'):
        for scen, kw, want in (("uniform deaths asked for", {'udd': True}, True), ("constant force asked for", {'udd': False}, False), ("no rule asked for", {}, True)):
            def build(it, c, kw=kw, want=want):
                o = Obj(c)

                def chk(it, r, obj):
                    udd = it.truth(it.getattr(obj, 'udd_'), 'udd')
                    if udd is not want:
                        return False, f"interpolates by {'uniform deaths' if udd else 'constant force'}"
                    return True, ''
                return o, [], dict(kw), chk
            out.append(Case(f"{cls}.__init__", scen, build, cls=cls, name='__init__'))
    return out


def fractional_cases(cls='Fractional'):
    out = option_cases()

    def add(nm, udd, mode, argf, rule='contract', want=None):
        lw = laws.udd() if udd else laws.cfm()

        def build(it, c):
            w = FW(it, c, udd, mode)
            kw = argf(w)
            wv = want(it, w, kw) if want else sp.LIFE[nm](it, w.F, dict(kw))
            return w.obj, [], kw, wv
        out.append(Case(None, f"{'UDD' if udd else 'constant force'}, {mode}", build, law=lw, cls=cls, name=nm, rule=rule))
    for udd in (True, False):
        for r in ('0', 'r', 'k', 'k+r'):
            add('l_r', udd, f"r={r}", lambda w: xs(w, r=w.r))
            if r not in ('0', 'k'):
                add('mu_r', udd, f"r={r}", lambda w: xs(w, r=w.r))
            for t in ('w1', '1', 'n', 'n+w1') + (('1+lo', '1+hi') if 'r' in r else ()):
                md = f"r={r} t={t}"
                for nm in ('p_r', 'q_r', 'E_r'):
                    add(nm, udd, md, lambda w: xs(w, r=w.r, t=w.tt))
                if t not in ('1', 'n'):
                    add('f_r', udd, md, lambda w: xs(w, r=w.r, t=w.tt))
            ent = None
            if r in ('0', 'k'):         # at an exact age: the density of the year about to begin
                def ent(it, w, kw, udd=udd):
                    p = L(w.x, w.s + w.r + 1) / L(w.x, w.s + w.r)
                    return R1 - p if udd else -al.log(p)
            add('f_r', udd, f"r={r}", lambda w: xs(w, r=w.r), want=ent)
            add('f_r', udd, f"r={r} t=0", lambda w: xs(w, r=w.r, t=R0), want=ent)
            for u, t in (('w1', 'w2'), ('w1', '1'), ('w1', 'n+w2'), ('n+w1', 'n+w2'), ('1', 'n+w1')) + ((('1+lo', 'n+w2'), ('1+hi', 'n+w2')) if 'r' in r else ()):
                add('q_r', udd, f"r={r} u={u} t={t}", lambda w: xs(w, r=w.r, t=w.tt, u=w.uu))
        for t in ('w1', '1', 'n+n', 'n+w1'):
            add('e_r', udd, f"r=0 t={t}", lambda w: xs(w, t=w.tt))
        add('e_r', udd, "r=0", lambda w: xs(w, t=R0), want=lambda it, w, kw: R0)

        def wl(it, c, udd=udd):
            w = World(it, c, tmode='whole')
            w.F.udd = udd
            return w.obj, [], xs(w), sp.c_e_r(it, w.F, xs(w))
        out.append(Case(None, f"{'UDD' if udd else 'constant force'}, whole life", wl, law=laws.udd() if udd else laws.cfm(), cls=cls, name='e_r'))
    # the rule is uniform deaths unless constant force is asked for
    for tag, kw, udd, cls_, md in [(tag, kw, udd, cls_, md) for cls_ in ('Fractional', 'Insurance', 'Annuity', 'Premiums', 'PolicyValues', 'Reserves', 'Recursion', 'LifeTable', 'SelectLife')
                                   for tag, kw, udd in (('default', {}, True), ('udd=True', {'udd': True}, True), ('udd=False', {'udd': False}, False))
                                   for md in ('r=r', 'r=k+r')]:
        if True:
            def rule(it, c, kw=kw, udd=udd, md=md):
                w = FW(it, c, udd, md)
                w.F.udd = None

                def chk(it, r, obj):
                    got = it.call_func(obj.cls.find('l_r')[1], obj, [], xs(w, r=w.r))
                    w.F.udd = udd
                    want = sp.LIFE['l_r'](it, w.F, xs(w, r=w.r))
                    c = compare(got, want, laws.udd() if udd else laws.cfm(), it.trace.subs)
                    return (True, '') if c == 'eq' else (False if c == 'ne' else None, f"lives at a fractional age are {got!r}, must be {want!r}")
                w.obj.born = True
                return w.obj, [], dict(kw), chk
            out.append(Case(None, f"rule of interpolation: {tag}, {md}", rule, cls=cls_, name='__init__', rule='constructor'))
    # approximations
    for e in ('e_complete', 'e_curtate'):
        for v in (False, True):
            sg = -1 if e == 'e_complete' else 1
            out.append(Case(None, f"{e}, variance={v}",
                            lambda it, c, e=e, v=v, sg=sg: (Obj(c), [], {e: sym('e', 'pos'), 'variance': v},
                                                            sym('e', 'pos') + sg * (rat(1) / 12 if v else rat(1) / 2)),
                            cls=cls, name='e_approximate'))
    out.append(Case(None, "neither given", lambda it, c: (Obj(c), [], {}, Raises()), cls=cls, name='e_approximate', rule='validation'))
    neg_arg_cases(cls, {n: 'x s r t' if n in ('p_r', 'q_r', 'f_r', 'E_r') else 'x s r' for n in ('l_r', 'p_r', 'q_r', 'mu_r', 'f_r', 'E_r')} | {'e_r': 'x s'},
                  out, extra=('r', 't'))
    return out


# --- probability formulas ----------------------------------------------------
def life_cases(cls='Life'):
    out = []
    p, p1, p2 = (lambda: sym('p', 'frac')), (lambda: sym('p1', 'frac')), (lambda: sym('p2', 'frac'))
    N = lambda: pint('N')
    S = lambda n: sym(n, 'pos')

    def add(nm, scen, kwf, wantf, rule='contract'):
        def build(it, c):
            kw = kwf()
            return Obj(c), [], kw, (wantf if isinstance(wantf, Raises) else wantf(kw))
        out.append(Case(f"{cls}.{nm}", scen, build, cls=cls, name=nm, rule=rule))
    add('variance', 'general', lambda: {k: S(k) for k in ('a', 'b', 'var_a', 'var_b', 'cov_ab')},
        lambda k: k['a'] ** 2 * k['var_a'] + k['b'] ** 2 * k['var_b'] + 2 * k['a'] * k['b'] * k['cov_ab'])
    add('covariance', 'general', lambda: {k: S(k) for k in ('a', 'b', 'ab')}, lambda k: k['ab'] - k['a'] * k['b'])
    bern = lambda q, a, b, v: (a - b) ** 2 * q * (1 - q) if v else q * a + (1 - q) * b
    for v in (False, True):
        add('bernoulli', f'variance={v}', lambda v=v: {'p': p(), 'a': S('a'), 'b': S('b'), 'variance': v},
            lambda k: bern(k['p'], k['a'], k['b'], k['variance']))
        add('bernoulli', f'variance={v}, values omitted', lambda v=v: {'p': p(), 'variance': v}, lambda k: bern(k['p'], R1, R0, k['variance']))
        for q in (0, 1):
            add('bernoulli', f'variance={v}, p={q}', lambda v=v, q=q: {'p': rat(q), 'a': S('a'), 'b': S('b'), 'variance': v},
                lambda k: bern(k['p'], k['a'], k['b'], k['variance']))
        add('binomial', f'variance={v}', lambda v=v: {'p': p(), 'N': N(), 'variance': v},
            lambda k: k['N'] * k['p'] * ((1 - k['p']) if k['variance'] else 1))

        def mix(k):
            n = k.get('N', R1)
            m = k['p'] * n * k['p1'] + (1 - k['p']) * n * k['p2']
            if not k.get('variance', False):
                return m
            e2 = lambda q: (n * q) ** 2 + n * q * (1 - q)
            return k['p'] * e2(k['p1']) + (1 - k['p']) * e2(k['p2']) - m ** 2
        add('mixture', f'variance={v}', lambda v=v: {'p': p(), 'p1': p1(), 'p2': p2(), 'N': N(), 'variance': v}, mix)
        add('mixture', f'variance={v}, one trial', lambda v=v: {'p': p(), 'p1': p1(), 'p2': p2(), 'variance': v}, mix)
    add('conditional_variance', 'general', lambda: {'p': p(), 'p1': p1(), 'p2': p2(), 'N': N()}, lambda k: mix({**k, 'variance': True}))
    add('conditional_variance', 'one trial', lambda: {'p': p(), 'p1': p1(), 'p2': p2()}, lambda k: mix({**k, 'variance': True}))
    sq = lambda r: al.power(r, rat(1) / 2)
    add('portfolio_percentile', 'general', lambda: {'mean': S('m'), 'variance': S('v'), 'prob': p(), 'N': N()},
        lambda k: k['mean'] * k['N'] + al.ndtri(k['prob']) * sq(k['variance'] * k['N']))
    add('portfolio_percentile', 'one policy', lambda: {'mean': S('m'), 'variance': S('v'), 'prob': p()},
        lambda k: k['mean'] + al.ndtri(k['prob']) * sq(k['variance']))
    add('portfolio_cdf', 'general', lambda: {'mean': S('m'), 'variance': S('v'), 'value': S('z'), 'N': N()},
        lambda k: al.ncdf((k['value'] - k['mean'] * k['N']) / sq(k['variance'] * k['N'])))
    add('portfolio_cdf', 'one policy', lambda: {'mean': S('m'), 'variance': S('v'), 'value': S('z')},
        lambda k: al.ncdf((k['value'] - k['mean']) / sq(k['variance'])))
    for nm, base in (('bernoulli', {'p'}), ('binomial', {'p', 'N'}), ('mixture', {'p', 'p1', 'p2', 'N'}),
                     ('conditional_variance', {'p', 'p1', 'p2', 'N'})):
        for bad in sorted(base):
            for val in ((-1, 2) if bad != 'N' else (0,)):
                def kwf(base=base, bad=bad, val=val):
                    d = {k: (N() if k == 'N' else sym(k, 'frac')) for k in base}
                    d[bad] = rat(val) / 1 if bad == 'N' or val == 2 else -sym('z', 'pos')
                    return d
                add(nm, f"{bad} out of range ({val})", kwf, Raises(), rule='validation')
    add('portfolio_percentile', 'prob not below one', lambda: {'mean': S('m'), 'variance': S('v'), 'prob': R1}, Raises(), rule='validation')
    return out
