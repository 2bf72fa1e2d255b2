"""C27: requests outside the documented domain are refused; requests at its edge are answered."""
from . import algebra as al
from .algebra import rat, R0, R1, sym, L
from . import interp as ip
from .interp import Obj
from .obl import Case, Raises
from . import specs as sp
from . import laws
from .specs import WHOLE
from .life_obl import World, case, xs, pint, const_benefit, user_benefit

HALF = rat(1) / 2
SURVIVAL = {'l_x': 'x s', 'd_x': 'x s', 'p_x': 'x s', 'q_x': 'x s', 'f_x': 'x s', 'mu_x': 'x s'}
FRACTIONAL = {'l_r': 'x s r', 'mu_r': 'x s r', 'p_r': 'x s r t', 'q_r': 'x s r t', 'f_r': 'x s r t', 'E_r': 'x s r t',
              'e_r': 'x s'}


def cases(tier='quick'):
    out = []

    def refuse(cls, nm, scen, argf, setup=None, **k):
        out.append(case(cls, nm, f"{scen} refused", argf, lambda it, w, kw: Raises(), rule='refusal', setup=setup, **k))

    def answer(cls, nm, scen, argf, want=None, **k):
        out.append(case(cls, nm, f"{scen} answered", argf, want, rule='edge', **k))

    # --- ages, years since selection, fractional starts, durations -------------
    small, big = (lambda w: -w.h), (lambda w: rat(-1))
    for owner, names in (('Survival', SURVIVAL), ('Lifetime', {'e_x': 'x s'}), ('Fractional', FRACTIONAL)):
        for nm, ps in names.items():
            ps = ps.split()
            base = lambda w, ps=ps: {**xs(w), **({'r': sym('r', 'frac')} if 'r' in ps else {}), **({'t': sym('w1', 'frac')} if 't' in ps else {})}
            for bad in ps:
                if bad in ('x', 's'):
                    oth = 's' if bad == 'x' else 'x'
                    # an attained age in range does not excuse a negative part
                    refuse(owner, nm, f"{bad} = -1 with {oth} larger", lambda w, bad=bad, oth=oth, base=base: {**base(w), bad: rat(-1), oth: (w.x if oth == 'x' else w.s) + 3},
                           tmode='real')
                    if 'r' in ps:
                        # nor does a start some years later
                        for udd in (True, False):
                            refuse(owner, nm, f"{'UDD' if udd else 'constant force'}, {bad} = -1 with a start over a year later",
                                   lambda w, bad=bad, oth=oth, base=base: {**base(w), bad: rat(-1), oth: (w.x if oth == 'x' else w.s) + 3, 'r': R1 + sym('r', 'frac')},
                                   tmode='real', setup=lambda w, udd=udd: setattr(w.F, 'udd', udd))
                    if nm[0] == 'e':
                        # nor does an empty period
                        for cur in ((True, False) if nm == 'e_x' else (None,)):
                            refuse(owner, nm, f"{bad} = -1 with no years{', curtate' if cur else ', complete' if cur is False else ''}",
                                   lambda w, bad=bad, oth=oth, cur=cur: {'x': w.x, 's': w.s, bad: rat(-1), oth: (w.x if oth == 'x' else w.s) + 3, 't': R0,
                                                                         **({} if cur is None else {'curtate': cur})}, tmode='real')
                    refuse(owner, nm, f"{bad} = -1 with {oth} = 0", lambda w, bad=bad, oth=oth, base=base: {**base(w), bad: rat(-1), oth: R0}, tmode='real')
                else:
                    for udd in (True, False):
                        tag = 'UDD' if udd else 'constant force'
                        rule = lambda w, udd=udd: setattr(w.F, 'udd', udd)
                        if bad == 'r':
                            for v, t in ((-HALF, '-1/2'), (rat(-1), '-1'), (-HALF / 2 - 1, '-5/4')):
                                refuse(owner, nm, f"{tag}, r = {t} with s larger", lambda w, v=v, base=base: {**base(w), 'r': v, 's': w.s + 3},
                                       tmode='real', setup=rule)
                            continue
                        for v, t in ((-HALF / 2, '-1/4'), (rat(-1), '-1')):
                            for r, rt in ((HALF, '1/2'), (R0, '0')):
                                refuse(owner, nm, f"{tag}, t = {t}, r = {rt}", lambda w, v=v, r=r, base=base: {**base(w), 't': v, 'r': r, 's': w.s + 3},
                                       tmode='real', setup=rule)
    zero = lambda w: xs(w, r=sym('r', 'frac'), t=R0)
    for udd in (True, False):
        tag = 'UDD' if udd else 'constant force'
        rule = lambda w, udd=udd: setattr(w.F, 'udd', udd)
        law = laws.udd() if udd else laws.cfm()
        for nm, v in (('p_r', R1), ('q_r', R0), ('E_r', R1)):
            answer('Fractional', nm, f"{tag}, zero duration from a fractional age", zero, lambda it, w, kw, v=v: v, tmode='real', setup=rule, law=law)
            answer('Fractional', nm, f"{tag}, zero duration from an exact age", lambda w: xs(w, r=R0, t=R0), lambda it, w, kw, v=v: v, tmode='real',
                   setup=rule, law=law)
        answer('Fractional', 'e_r', f"{tag}, zero limit", lambda w: xs(w, t=R0), lambda it, w, kw: R0, tmode='real', setup=rule, law=law)
        for nm in ('l_r', 'p_r', 'q_r', 'E_r'):
            answer('Fractional', nm, f"{tag}, newborn at selection", lambda w: {'x': R0, 's': R0}, lambda it, w, kw, nm=nm: sp.LIFE[nm](it, w.F, dict(kw)),
                   tmode='one', setup=rule, law=law)
    # age zero and the moment of selection are in the domain
    for nm in ('l_x', 'p_x', 'q_x', 'f_x', 'mu_x', 'd_x'):
        answer('Survival', nm, "newborn at selection", lambda w: {'x': R0, 's': R0}, lambda it, w, kw, nm=nm: sp.LIFE[nm](it, w.F, dict(kw)), tmode='one')

    # --- moments ----------------------------------------------------------------
    for m in (0, 3, -1):
        refuse('Lifetime', 'e_x', f"moment {m}", lambda w, m=m: xs(w, moment=rat(m)), tmode='whole')
        refuse('Lifetime', 'e_x', f"moment {m}, complete", lambda w, m=m: xs(w, moment=rat(m), curtate=False), tmode='whole')
    for d in (True, False):
        dt = 'discrete' if d else 'continuous'
        for m in (0, -1, -2):
            refuse('Insurance', 'A_x', f"{dt}, moment {m}", lambda w, m=m, d=d: xs(w, t=w.t, benefit=user_benefit(), moment=rat(m), discrete=d))
        for m in (0, 2, -2):
            refuse('Annuity', 'insurance_twin', f"{dt}, moment {m}", lambda w, m=m, d=d: {'a': sym('a', 'pos'), 'moment': rat(m), 'discrete': d})
    for m in (0, -1):
        refuse('Uniform', 'E_x', f"moment {m}", lambda w, m=m: xs(w, t=w.t, moment=rat(m)), setup=law_obj('Uniform', omega=sym('om', 'int', 'pos')))
    for nm, t in (('whole_life_insurance', None), ('term_insurance', 't'), ('endowment_insurance', 't')):
        for m in (0, 3, -1):
            for cls in ('UDD', 'Mthly'):
                if cls == 'Mthly' and nm == 'endowment_insurance':
                    continue
                out.append(mcase(cls, nm, f"moment {m}", lambda w, m=m, t=t: xs(w, moment=rat(m), **({'t': w.t} if t else {}))))
    for m in (0, -1, -2):
        out.append(mcase('Mthly', 'E_x', f"moment {m}", lambda w, m=m: xs(w, t=w.t, moment=rat(m))))
    for m in (0, 3, -2):
        out.append(mcase('Mthly', 'A_x', f"moment {m}", lambda w, m=m: xs(w, t=w.t, moment=rat(m))))
    for nm in ('A_x', 'a_x'):
        for m in (0, 2, -2):
            out.append(scase(nm, f"moment {m}", {'moment': rat(m)}))
        out.append(scase(nm, "continuous", {'discrete': False}))
    out.append(scase('e_x', "complete", {'curtate': False}))

    # --- terms ------------------------------------------------------------------
    for cls, nm in (('Insurance', 'decreasing_insurance'), ('Annuity', 'decreasing_annuity')):
        for d in (True, False):
            for v, t in ((WHOLE, 'whole life'), (rat(-3), 'negative term')):
                refuse(cls, nm, f"{'discrete' if d else 'continuous'}, {t}", lambda w, v=v, d=d: xs(w, t=v, b=w.b, discrete=d), tmode='whole')
    for nm in ('Z_x', 'Y_x'):
        cls = 'Insurance' if nm == 'Z_x' else 'Annuity'
        for v, t in ((-HALF, '-1/2'), (rat(-1), '-1')):
            for d in (True, False):
                refuse(cls, nm, f"time {t}, {'discrete' if d else 'continuous'}", lambda w, v=v, d=d: xs(w, t=v, discrete=d))
        for d in (True, False):
            answer(cls, nm, f"time 0, {'discrete' if d else 'continuous'}", lambda w, d=d: xs(w, t=R0, discrete=d),
                   lambda it, w, kw, nm=nm: sp.LIFE[nm](it, w.F, dict(kw)))
    for nm in ('Z_t', 'Y_t'):
        cls = 'Insurance' if nm == 'Z_t' else 'Annuity'
        for v in (1, 2):
            for d in (True, False):
                refuse(cls, nm, f"probability {v}, {'discrete' if d else 'continuous'}", lambda w, v=v, d=d: {'x': w.x, 'prob': rat(v), 'discrete': d})
    return out + interest_cases() + life_cases() + misc_cases()


def law_obj(law, **params):
    def setup(w):
        w.obj.attrs.update(params)
    return setup


def mcase(cls, nm, scen, argf):
    """payments m times a year on an annual model"""
    from . import mthly_obl as mo
    return mo.mcase(cls, nm, f"{scen} refused", argf, lambda it, w, kw: Raises(), rule='refusal')


def scase(nm, scen, kw):
    """select table lookups: neither a value in the table nor one computed from it answers the request"""
    from . import table_obl as tb

    def build(it, c):
        w = tb.SW(it, c, 2, rat(1), cols=('l', 'd', 'q', 'A', 'a', 'e'))
        return w.obj, [], xs(w, **kw), Raises()
    return Case(None, f"{scen} refused", build, cls='SelectLife', name=nm, rule='refusal')


def interest_cases():
    out = []
    I = 'Interest'

    def ctor(scen, kwf):
        out.append(Case(None, f"{scen} refused", lambda it, c: (Obj(c), [], kwf(), Raises()), cls=I, name='__init__', rule='refusal'))
    ctor("no rate", lambda: {})
    for k in ('i', 'd', 'v', 'delta', 'i_m', 'd_m'):
        for v, t in ((-HALF, '-1/2'), (rat(-1), '-1'), (rat(-2), '-2')):
            ctor(f"{k} = {t}", lambda k=k, v=v: {k: v, **({'m': rat(4)} if k.endswith('_m') else {})})
    for v in (0, 2):
        def start(v=v):
            return ip.Builtin('v_t', lambda it, a, k, n: rat(v) if ip.num(a[0] if a else k['t']).is_zero() else rat(al.Atom('disc', (ip.num(a[0] if a else k['t']),))))
        ctor(f"discount function equal to {v} at time zero", lambda start=start: {'v_t': start()})
    ctor("discount function that cannot be called", lambda: {'v_t': HALF})

    def meth(nm, scen, kwf, regime='pos', want=None):
        def build(it, c):
            fam = sp.InterestF(sp.Interest(regime))
            kw = kwf()
            return Obj(c, family=fam), [], kw, (want if want is not None else Raises())
        out.append(Case(None, scen, build, cls=I, name=nm, rule='refusal' if want is None else 'edge'))
    for regime in ('pos', 'zero'):
        tag = '' if regime == 'pos' else ' i=0'
        for due in (True, False):
            meth('annuity', f"frequency -1, due={due}{tag} refused", lambda due=due: {'t': sym('t', 'pos'), 'm': rat(-1), 'due': due}, regime)
    for k in ('i', 'd', 'i_m', 'd_m'):
        meth('mthly', f"frequency -4, {k} given refused", lambda k=k: {'m': rat(-4), k: sym('r', 'frac')})
        meth('mthly', f"{k} = -1/2 refused", lambda k=k: {'m': rat(4), k: -HALF})
        meth('mthly', f"{k} = 0 answered", lambda k=k: {'m': rat(4), k: R0}, want=R0)
    meth('mthly', "no rate refused", lambda: {'m': rat(4)})
    for k in ('i', 'd', 'v', 'delta'):
        meth('double_force', f"{k} = -1/2 refused", lambda k=k: {k: -HALF})
        meth('double_force', f"{k} = 0 answered", lambda k=k: {k: R0}, want=R0)
    meth('double_force', "no rate refused", lambda: {})
    return out


def life_cases():
    """probabilities and numbers of trials"""
    out = []
    names = {'bernoulli': ('p',), 'binomial': ('p', 'N'), 'mixture': ('p', 'p1', 'p2', 'N'), 'conditional_variance': ('p', 'p1', 'p2', 'N')}
    eps = R1 / 1024

    def args(ps, **k):
        d = {p: (pint('N') if p == 'N' else sym(p, 'frac')) for p in ps}
        d.update(k)
        return d

    def add(nm, scen, kwf, want=None):
        def build(it, c):
            kw = kwf()
            return Obj(c), [], kw, (Raises() if want is None else want(kw))
        out.append(Case(None, f"{scen} {'refused' if want is None else 'answered'}", build, cls='Life', name=nm, rule='refusal' if want is None else 'edge'))

    def mix(k):
        n = k.get('N', R1)
        m = k['p'] * n * k['p1'] + (1 - k['p']) * n * k['p2']
        if not k.get('variance', True):
            return m
        e2 = lambda q: (n * q) ** 2 + n * q * (1 - q)
        return k['p'] * e2(k['p1']) + (1 - k['p']) * e2(k['p2']) - m ** 2
    var = lambda k: k.get('variance', True)
    value = {'bernoulli': lambda k: k['p'] * (1 - k['p']) if var(k) else k['p'],
             'binomial': lambda k: k['N'] * k['p'] * ((1 - k['p']) if var(k) else 1), 'mixture': mix, 'conditional_variance': mix}
    for nm, ps in names.items():
        vs = [{}] if nm == 'conditional_variance' else [{'variance': True}, {'variance': False}]
        for v in vs:
            tag = f", variance={v['variance']}" if v else ''
            for p in ps:
                if p == 'N':
                    for n in (0, -1):
                        add(nm, f"N = {n}{tag}", lambda ps=ps, v=v, n=n: args(ps, N=rat(n), **v))
                    add(nm, f"one trial{tag}", lambda ps=ps, v=v: args(ps, N=R1, **v), value[nm])
                    continue
                for bad, t in ((-eps, 'just below 0'), (1 + eps, 'just above 1'), (rat(-1), '-1'), (rat(2), '2')):
                    add(nm, f"{p} {t}{tag}", lambda ps=ps, v=v, p=p, bad=bad: args(ps, **{p: bad}, **v))
                for e in (0, 1):
                    add(nm, f"{p} = {e}{tag}", lambda ps=ps, v=v, p=p, e=e: args(ps, **{p: rat(e)}, **v), value[nm])
    for pr in (1, 2):
        add('portfolio_percentile', f"probability {pr}", lambda pr=pr: {'mean': sym('m', 'pos'), 'variance': sym('v', 'pos'), 'prob': rat(pr), 'N': pint('N')})
    return out


def misc_cases():
    out = []

    def add(cls, nm, scen, build, rule='refusal'):
        out.append(Case(None, f"{scen} {'refused' if rule == 'refusal' else 'answered'}", build, cls=cls, name=nm, rule=rule))
    # contradictory or missing lifetimes to convert
    for v in (True, False):
        add('Fractional', 'e_approximate', f"both lifetimes, variance={v}",
            lambda it, c, v=v: (Obj(c), [], {'e_complete': sym('e', 'pos'), 'e_curtate': sym('f', 'pos'), 'variance': v}, Raises()))
        add('Fractional', 'e_approximate', f"no lifetime, variance={v}", lambda it, c, v=v: (Obj(c), [], {'variance': v}, Raises()))
        for k in ('e_complete', 'e_curtate'):
            sg = -1 if k == 'e_complete' else 1
            add('Fractional', 'e_approximate', f"{k} of zero, variance={v}",
                lambda it, c, v=v, k=k, sg=sg: (Obj(c), [], {k: R0, 'variance': v}, sg * (R1 / 12 if v else HALF)), rule='edge')
    # survival forms
    add('Survival', 'set_survival', "no form", lambda it, c: (Obj(c), [], {}, Raises()))
    for k in ('S', 'f', 'l', 'mu'):
        add('Survival', 'set_survival', f"{k} that cannot be called", lambda it, c, k=k: (Obj(c), [], {k: HALF}, Raises()))
    def none(w):
        w.F.extra.update({'S': None})
        w.F.hide.discard('S')
    for t in ('in', 'real'):
        out.append(case('Survival', 'p_x', f"no survival function, t {t} refused", lambda w: xs(w, t=w.t), lambda it, w, kw: Raises(), tmode=t, rule='refusal', setup=none))
    # decreasing benefits need a term
    from . import rec_obl as ro
    for d in (True, False):
        def build(it, c, d=d):
            w = ro.RWorld(it, c, 'whole')
            w.F.off = set(w.F.off) | {'_DA_x'}
            w.obj.attrs['_get_DA'] = ip.Builtin('_get_DA', lambda it, a, k, n: None)     # nothing stored
            w.obj.attrs.pop('blog', None)
            w.obj.absent = {'blog'}
            return w.obj, [], {'x': w.x, 's': w.s, 't': WHOLE, 'b': w.b, 'discrete': d}, Raises()
        add('Recursion', 'decreasing_insurance', f"{'discrete' if d else 'continuous'}, whole life", build)
    # extra risk
    for nm, kw, ok in (("negative amount", {'risk': 'ADD_FORCE', 'extra': -R1 / 100}, False), ("negative amount, no risk", {'extra': -R1}, False),
                       ("unknown risk", {'risk': 'NONSENSE', 'extra': R1}, False), ("unknown risk of amount zero", {'risk': 'NONSENSE', 'extra': R0}, False),
                       ("zero force added", {'risk': 'ADD_FORCE', 'extra': R0}, True), ("no age added", {'risk': 'ADD_AGE', 'extra': R0}, True)):
        def build(it, c, kw=kw, ok=ok):
            w = World(it, it.model.classes['Survival'], tmode='whole')

            def chk(it, r, obj):
                f = obj.cls.find('p_x')
                if f is None:
                    return None, "no p_x"
                got = it.call_method(obj, f[1], f[0], [], {'x': w.x, 's': w.s})
                from .obl import compare
                c = compare(got, w.F.p(w.x, w.s, R1), None, it.trace.subs)
                return (True, '') if c == 'eq' else (False if c == 'ne' else None, f"survival is {got!r}")
            return Obj(c), [], dict(kw, life=w.obj), (chk if ok else Raises())
        add('ExtraRisk', '__init__', nm, build, 'edge' if ok else 'refusal')
    # laws
    om = lambda: sym('om', 'int', 'pos')
    cc = lambda: sym('c', 'pos') + 1
    for nm, bad in (('c = 1', {'c': R1}), ('c = 1/2', {'c': HALF}), ('B = 0', {'B': R0}), ('B = -1', {'B': rat(-1)}),
                    ('A below -B', {'A': -HALF, 'B': HALF / 2})):
        add('Makeham', '__init__', nm, lambda it, c, bad=bad: (Obj(c), [], {'A': sym('A', 'pos'), 'B': sym('B', 'pos'), 'c': cc(), **bad}, Raises()))
    for nm, bad in (('c = 1', {'c': R1}), ('c = 1/2', {'c': HALF}), ('B = 0', {'B': R0}), ('B = -1', {'B': rat(-1)})):
        add('Gompertz', '__init__', nm, lambda it, c, bad=bad: (Obj(c), [], {'B': sym('B', 'pos'), 'c': cc(), **bad}, Raises()))
    add('Makeham', '__init__', "A at its lowest, -B", lambda it, c: (Obj(c), [], {'A': -HALF, 'B': HALF, 'c': cc()}, lambda it, r, o: (True, '')), 'edge')
    for cls, kw in (('Beta', lambda: {'omega': om(), 'alpha': sym('alpha', 'pos')}), ('Uniform', lambda: {'omega': om()}),
                    ('Makeham', lambda: {'A': sym('A', 'pos'), 'B': sym('B', 'pos'), 'c': cc()}),
                    ('Gompertz', lambda: {'B': sym('B', 'pos'), 'c': cc()}), ('ConstantForce', lambda: {'mu': sym('mu', 'pos')}), ('MortalityLaws', lambda: {})):
        for u in (True, False):
            add(cls, '__init__', f"fractional age assumption udd={u} beside the law", lambda it, c, kw=kw, u=u: (Obj(c), [], dict(kw(), udd=u), Raises()))
    # premiums and policy values
    out.append(case('Premiums', 'gross_premium', "endowment without its pure endowment factor refused",
                    lambda w: {'A': sym('A', 'frac'), 'a': sym('a', 'pos'), 'endowment': w.e}, lambda it, w, kw: Raises(), rule='refusal'))
    from . import pv_obl as pv
    for d in (True, False):
        dt = 'discrete' if d else 'continuous'
        for en, ef in (('no endowment', lambda b: R0), ('half the benefit', lambda b: b / 2), ('twice the benefit', lambda b: 2 * b)):
            for du in (0, 1):
                out.append(case('PolicyValues', 'net_policy_variance', f"{dt}, limited term, {en}, duration {du} refused",
                                lambda w, d=d, ef=ef, du=du: xs(w, t=rat(du), b=w.b, n=w.t + 2, discrete=d, endowment=ef(w.b)),
                                lambda it, w, kw: Raises(), rule='refusal', setup=room))

                def gross(it, c, d=d, ef=ef, du=du):
                    w = World(it, c)
                    room(w)
                    t = pv.contract_terms(d)
                    t['endowment'] = ef(pv.claims(t))
                    return w.obj, [], xs(w, t=rat(du), n=w.t + 2, contract=pv.mk_contract(it, t)), Raises()
                out.append(Case(None, f"{dt}, limited term, {en}, duration {du} refused", gross, cls='PolicyValues', name='gross_policy_variance', rule='refusal'))
    # --- options no class knows ---------------------------------------------------
    pos = lambda n: sym(n, 'pos')
    need = {'Beta': lambda: {'omega': sym('om', 'int', 'pos'), 'alpha': pos('alpha')}, 'Uniform': lambda: {'omega': sym('om', 'int', 'pos')},
            'Makeham': lambda: {'A': pos('A'), 'B': pos('B'), 'c': R1 + pos('c')}, 'Gompertz': lambda: {'B': pos('B'), 'c': R1 + pos('c')},
            'ConstantForce': lambda: {'mu': pos('mu')}}
    for cls in ('Life', 'Survival', 'Lifetime', 'Fractional', 'Insurance', 'Annuity', 'Premiums', 'PolicyValues', 'Reserves', 'Recursion', 'LifeTable',
                'SelectLife', 'SULT', 'MortalityLaws', 'Beta', 'Uniform', 'Makeham', 'Gompertz', 'ConstantForce'):
        def b(it, c, cls=cls):
            return Obj(c), [], dict(need.get(cls, dict)(), **{'no_such_option': R1}), Raises()
        out.append(Case(f"{cls}.__init__", "unknown option refused", b, cls=cls, name='__init__', rule='refusal'))
    return out


def room(w):
    w.F.maxage = w.F.maxage + 2
    al.CTX.omega = w.F.maxage
