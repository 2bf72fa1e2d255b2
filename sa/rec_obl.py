"""Recursion: every rule of every helper is an identity between facts of one model (C15), what is stored is what is
read back (C16), the recursion ends (C17) and tracing does not take part in it (C18)."""
from . import algebra as al
from .algebra import rat, R0, R1, sym
from . import interp as ip
from .interp import Obj, Maybe, Undecided, SubjectRaise
from .obl import Case, Raises, compare, short
from . import specs as sp
from .specs import LifeF, Interest, WHOLE, VAR, N, flag, moment_of, neg, zero
from . import laws
from .life_obl import pint

ULT = laws.ultimate()
ATT = laws.attained()
CLS = 'Recursion'


class Lazy(Maybe):
    """answer of a helper: unknown, or the value of the contract"""
    def __init__(self, fn, key):
        self._fn, self.key = fn, key

    @property
    def value(self):
        v = self.__dict__.get('_v')
        if v is None:
            v = self._v = self._fn()
        return v


def v_p(it, f, a):
    t = N(it, a, 't', R1)
    return R0 if neg(t) else f.p(N(it, a, 'x'), N(it, a, 's', R0), t)


def v_q(it, f, a):
    x, s, t, u = N(it, a, 'x'), N(it, a, 's', R0), N(it, a, 't', R1), N(it, a, 'u', R0)
    if neg(t):
        return f.p(x, s, u)
    return f.q(x, s, t, u)


def v_e(it, f, a):
    x, s, t = N(it, a, 'x'), N(it, a, 's', R0), N(it, a, 't', WHOLE)
    c, m = flag(it, a.get('curtate', False)), moment_of(a.get('moment', R1))
    if not ip.num(t - WHOLE).is_zero() and neg(t):
        # an expectation over a negative term is minus the one over the years before
        return -sp.e_value(f, x, s + t, -t, c, m) * f.p(x, s, t)
    return sp.e_value(f, x, s, f.term(x, s, t), c, m)


def v_E(it, f, a):
    return f.E(N(it, a, 'x'), N(it, a, 's', R0), N(it, a, 't', R1), N(it, a, 'endowment', R1), moment_of(a.get('moment', R1)))


def v_IA(it, f, a):
    b = N(it, a, 'b', R1)
    return f.A(N(it, a, 'x'), N(it, a, 's', R0), N(it, a, 't', WHOLE), R0, 1, flag(it, a.get('discrete', True)), lambda k: b * k)


def v_DA(it, f, a):
    b, t, d = N(it, a, 'b', R1), N(it, a, 't', WHOLE), flag(it, a.get('discrete', True))
    if neg(t):
        raise Undecided("decreasing whole life insurance")
    return f.A(N(it, a, 'x'), N(it, a, 's', R0), t, R0, 1, d, lambda k: b * ((t + 1 if d else t) - k))


def v_A(it, f, a):
    b, e, t = N(it, a, 'b', R1), N(it, a, 'endowment', R0), N(it, a, 't', WHOLE)
    if neg(e):
        e = b
    return f.ins(N(it, a, 'x'), N(it, a, 's', R0), t, N(it, a, 'u', R0), b, moment_of(a.get('moment', R1)),
                 flag(it, a.get('discrete', True)), None if e.is_zero() else e)


def v_a(it, f, a):
    return f.ann(N(it, a, 'x'), N(it, a, 's', R0), N(it, a, 't', WHOLE), N(it, a, 'u', R0), N(it, a, 'b', R1),
                 flag(it, a.get('discrete', True)), flag(it, a.get('variance', False)))


VAL = {'q': v_q, 'p': v_p, 'e': v_e, 'E': v_E, 'IA': v_IA, 'DA': v_DA, 'A': v_A, 'a': v_a}


def partial(lab, nm=None):
    def h(it, f, a):
        a = {k: v for k, v in a.items() if k != 'depth'}
        a = {k: it.force(v, k) for k, v in a.items()}
        x, s = ip.num(a['x']), ip.num(a.get('s', R0))
        key = f"{nm or lab}({x + s}" + ''.join(f", {k}={ip.num(v) if ip.is_num(v) else v}" for k, v in sorted(a.items()) if k not in 'xs') + ')'
        return Lazy(lambda: VAL[lab](it, f, a), key)
    return h


def stored(lab):
    """answer of a lookup: what it returns without anything stored, or else perhaps the stored value"""
    g = partial(lab, 'stored ' + lab)

    def h(it, f, a):
        z = it.obj.cls.find('_get_' + lab)
        keep = it.obj.attrs.get('db')
        it.obj.attrs['db'] = {}
        try:
            r = it.call_func(z[1], it.obj, [], dict(a))
        finally:
            it.obj.attrs['db'] = keep
        return r if r is not None else g(it, f, a)
    return h


HELPERS = {}
for _l in VAL:
    HELPERS[f'_{_l}_x'] = partial(_l)
    HELPERS[f'_get_{_l}'] = stored(_l)
PUBLIC = {'p_x': 'p', 'q_x': 'q', 'e_x': 'e', 'E_x': 'E'}


class RecF(LifeF):
    def __init__(self, I, maxage):
        super().__init__(I, maxage=maxage)
        self.table = {**sp.LIFE, **HELPERS}
        for k, l in PUBLIC.items():
            self.table[k] = partial(l)
        self.known = dict(sp.KNOWN_PARAMS)
        B = 'x s t u b moment endowment discrete variance curtate depth'.split()
        for k in HELPERS:
            self.known[k] = set(B)


def tbind(it, node, args, kw, where):
    try:
        it.bind(node, args, kw, where)
    except SubjectRaise as e:
        raise SubjectRaise(e.name, 'trace: ' + e.msg) from None


def tracer(it, obj, cls):
    """stand-ins of the trace objects: calls are bound to the real signatures, arguments must be text"""
    mod = cls.module

    def style(nm):
        return it.model.classes.get(nm)

    class TF:
        kind = 'trace'
        off = set()
        known = {}
    forms = [c for c in (style('_Blog'), style('PPrint')) if c is not None]
    if not forms:
        raise Undecided("no trace classes")
    base = forms[0]
    pp = Obj(base, name='pprint')

    def method(nm):
        def g(it, a, k, n):
            for c in forms:
                z = c.find(nm)
                if z is None:
                    raise SubjectRaise('AttributeError', f"trace: '{c.name}' has no attribute '{nm}'", n)
                tbind(it, z[1].node, ([] if z[1].static else [None]) + list(a), k, f"{c.name}.{nm}()")
            return '#'
        return ip.Builtin(nm, g)

    class PPF(TF):
        extra = {}
    f = PPF()
    for c in forms:
        for k in c.mro():
            for nm in k.methods:
                z = k.find(nm)
                if z and hasattr(z[1], 'node') and not nm.startswith('__'):
                    f.extra[nm] = method(nm)
    pp.family = f
    obj.attrs['pprint'] = pp
    blog = Obj(base, name='blog')

    def blogcall(it2, a, k, n):
        z = base.find('__call__')
        tbind(it2, z[1].node, [None] + list(a), k, '_Blog()')
        for v in a:
            if not isinstance(v, (str, ip.Unknown)):
                raise SubjectRaise('TypeError', f"trace: message of {type(v).__name__}", n)
        if k.get('depth') is None or not k.get('rule'):
            raise SubjectRaise('AssertionError', "trace: depth and rule must be specified", n)
        return None
    blog.callhook = blogcall

    def sink(nm):
        def g(it2, a, k, n):
            z = base.find(nm)
            tbind(it2, z[1].node, [None] + list(a), k, f"_Blog.{nm}()")
            return None
        return ip.Builtin(nm, g)
    blog.attrs.update({nm: sink(nm) for nm in ('pop', 'display') if base.find(nm)})
    obj.attrs['blog'] = blog

    def make(it2, a, k, n):
        for c in forms:
            tbind(it2, c.find('__init__')[1].node, [None] + list(a), k, f"{c.name}()")
        return blog
    obj.attrs['Blog'] = ip.Builtin('Blog', make)


class RWorld:
    def __init__(self, it, cls, tm, um=None, interest='pos'):
        self.it = it
        self.x, self.s = sym('x', 'int', 'nonneg'), sym('s', 'int', 'nonneg')
        self.h = pint('h')
        if tm == 'in':
            self.t = pint('t') + 1
        elif tm == 'far':
            self.t = pint('t') + 50
        elif tm == 'whole':
            self.t = WHOLE
        elif tm == 'real':
            self.t = sym('t', 'pos')
        else:
            self.t = rat(tm)
        self.u = R0 if um is None else (pint('u') if um == 'in' else rat(um))
        tt = R0 if tm == 'whole' else self.t
        om = self.x + self.s + tt + self.u + self.h + 200
        al.CTX.omega = om
        self.I = Interest(interest)
        self.F = RecF(self.I, om)
        self.b, self.e = sym('b', 'pos'), sym('endow', 'pos')
        self.obj = Obj(cls, family=self.F)
        self.obj.attrs['maxdepth'] = sym('maxdepth', 'int')
        tracer(it, self.obj, cls)


def sound(want, maybe=True, law=ULT):
    def chk(it, r, obj):
        if r is None and maybe:
            return True, ''
        if isinstance(r, Maybe):
            r = r.value
        if r is None:
            return False, "no value"
        try:
            w = want()
        except Undecided as e:
            return None, f"contract: {e}"
        c = compare(r, w, law, it.trace.subs)
        if c == 'eq':
            return True, ''
        if c == 'ne':
            return False, f"a rule gives {short(r)}; the contract gives {short(w)}"
        return None, c
    return chk


def _case(name, scen, tm, args, lab, um=None, interest='pos', rule='identity', maybe=True, cap=400, xs=True):
    def build(it, c):
        w = RWorld(it, c, tm, um, interest)
        kw = {'x': w.x, 's': w.s} if xs else {'x': w.x}
        kw.update(args(w))
        f = VAL[lab] if isinstance(lab, str) else lab
        akw = dict(kw)
        if name.startswith('_') and not name.startswith('_get'):
            kw['depth'] = sym('depth', 'int')
        if not name.startswith('_'):
            w.obj.attrs.pop('blog', None)
            w.obj.absent = {'blog'}               # a query on a new object opens its own trace
        return w.obj, [], kw, sound(lambda: f(it, w.F, akw), maybe)
    return Case(f"Recursion.{name}", scen, build, rule=rule, cls=CLS, name=name, cap=cap)


TM = {'in': 'a term over one year', 1: 'one year', 0: 'no years', 'whole': 'whole life'}
MOM = {1: 'mean', 2: 'second moment', -2: 'variance'}


def soundness_cases(tier='quick'):
    out = []

    def add(*a, **k):
        out.append(_case(*a, **k))
    for tm in ('in', 1, 0, 'whole'):
        T = TM[tm]
        tk = lambda w: {'t': w.t}
        for nm in ('_p_x', 'p_x'):
            add(nm, T, tm, tk, 'p')
        for um in (None, 'in', 1):
            U = {None: '', 'in': ', deferred', 1: ', deferred one year'}[um]
            for nm in ('_q_x', 'q_x'):
                add(nm, T + U, tm, lambda w: {'t': w.t, 'u': w.u}, 'q', um=um)
        for m in (1, 2, -2):
            for nm in ('_E_x', 'E_x'):
                if nm == '_E_x' and m == -2:
                    continue
                add(nm, f"{T}, {MOM[m]}, endowment amount", tm, lambda w, m=m: {'t': w.t, 'moment': rat(m), 'endowment': w.e}, 'E')
            add('E_x', f"{T}, {MOM[m]}", tm, lambda w, m=m: {'t': w.t, 'moment': rat(m)}, 'E')
        for d in (True, False):
            D = 'discrete' if d else 'continuous'
            for nm, lab in (('_IA_x', 'IA'), ('_DA_x', 'DA'), ('increasing_insurance', 'IA'), ('decreasing_insurance', 'DA')):
                if lab == 'DA' and tm == 'whole':
                    continue
                add(nm, f"{D}, {T}", tm, lambda w, d=d: {'t': w.t, 'b': w.b, 'discrete': d}, lab)
            for m in (1, 2, -2):
                for end in (None, 'e', 'b'):
                    for um in (None, 'in', 1):
                        if um is not None and end is not None:
                            continue
                        E = {None: '', 'e': ', endowment', 'b': ', endowment equal to benefit'}[end]
                        U = {None: '', 'in': ', deferred', 1: ', deferred one year'}[um]

                        def args(w, d=d, m=m, end=end, um=um):
                            k = {'t': w.t, 'b': w.b, 'discrete': d, 'moment': rat(m)}
                            if end:
                                k['endowment'] = w.e if end == 'e' else w.b
                            if um is not None:
                                k['u'] = w.u
                            return k
                        add('_A_x', f"{D}, {T}, {MOM[m]}{E}{U}", tm, args, 'A', um=um)
                        if end and tm != 'whole':
                            add('endowment_insurance', f"{D}, {T}, {MOM[m]}{E}", tm, args, 'A')
                        if not end and um is not None:
                            add('deferred_insurance', f"{D}, {T}, {MOM[m]}{U}", tm, args, 'A', um=um)
                        if not end and um is None:
                            add('term_insurance', f"{D}, {T}, {MOM[m]}", tm, args, 'A')
                if tm != 'whole':
                    add('endowment_insurance', f"{D}, {T}, {MOM[m]}, default endowment", tm,
                        lambda w, d=d, m=m: {'t': w.t, 'b': w.b, 'discrete': d, 'moment': rat(m)},
                        lambda it, f, a: v_A(it, f, dict(a, endowment=rat(-1))))
                else:
                    add('whole_life_insurance', f"{D}, {MOM[m]}", tm,
                        lambda w, d=d, m=m: {'b': w.b, 'discrete': d, 'moment': rat(m)}, 'A')
            for var in (False, True):
                V = ', variance' if var else ''
                ka = lambda w, d=d, var=var: {'t': w.t, 'b': w.b, 'discrete': d, **({'variance': True} if var else {})}
                add('_a_x', f"{D}, {T}{V}", tm, ka, 'a')
                add('temporary_annuity', f"{D}, {T}{V}", tm, ka, 'a')
                if tm == 'whole':
                    add('whole_life_annuity', f"{D}{V}", tm,
                        lambda w, d=d, var=var: {'b': w.b, 'discrete': d, **({'variance': True} if var else {})}, 'a')
            for um in ('in', 1):
                U = {'in': 'deferred', 1: 'deferred one year'}[um]
                ku = lambda w, d=d: {'t': w.t, 'b': w.b, 'discrete': d, 'u': w.u}
                add('_a_x', f"{D}, {T}, {U}", tm, ku, 'a', um=um)
                add('deferred_annuity', f"{D}, {T}, {U}", tm, ku, 'a', um=um)
    for tm in (0, 1, 2, 3, 'far', 'whole'):
        T = {2: 'two years', 3: 'three years', 'far': 'a long term'}.get(tm) or TM[tm]
        for c in (True, False):
            C = 'curtate' if c else 'complete'
            for m in (1, 2, -2):
                for nm in ('_e_x', 'e_x'):
                    add(nm, f"{C}, {T}, {MOM[m]}", tm, lambda w, c=c, m=m: {'t': w.t, 'curtate': c, 'moment': rat(m)}, 'e')
    # documented defaults
    for nm, lab in (('p_x', 'p'), ('q_x', 'q'), ('E_x', 'E')):
        add(nm, "arguments omitted", 1, lambda w: {}, lab, xs=False)
    for nm, lab in (('e_x', lambda it, f, a: v_e(it, f, dict(a, curtate=False))), ('increasing_insurance', 'IA'), ('whole_life_insurance', 'A'),
                    ('deferred_insurance', 'A'), ('whole_life_annuity', 'a'), ('temporary_annuity', 'a'), ('deferred_annuity', 'a')):
        add(nm, "arguments omitted", 'whole', lambda w: {}, lab, xs=False)
    add('term_insurance', "arguments omitted", 1, lambda w: {}, lambda it, f, a: v_A(it, f, dict(a, t=R1)), xs=False)
    add('endowment_insurance', "arguments omitted", 1, lambda w: {}, lambda it, f, a: v_A(it, f, dict(a, t=R1, endowment=R1)), xs=False)
    return out


# ---------------------------------------------------------------------------
# C16: what is stored is what is read back

class PlainF(RecF):
    """family whose rules are the source's own"""
    def __init__(self, I, maxage):
        super().__init__(I, maxage)
        self.table = dict(sp.LIFE)
        for k in PUBLIC:
            self.table.pop(k, None)


SETTERS = {'q': 'tu', 'p': 't', 'e': 'tcm', 'E': 'tnm', 'IA': 'tbd', 'DA': 'tbd', 'A': 'tubmed', 'a': 'tubvd'}
ASK = {'q': ['q_x'], 'p': ['p_x'], 'e': ['e_x'], 'E': ['E_x'], 'IA': ['increasing_insurance'], 'DA': ['decreasing_insurance']}


class Store(RWorld):
    def __init__(self, it, cls, tm, um=None):
        super().__init__(it, cls, tm, um)
        self.obj.family = self.F = PlainF(self.I, self.F.maxage)
        for k in ('db', '_t', 'maxdepth'):
            self.obj.attrs.pop(k, None)
        tr = {k: self.obj.attrs[k] for k in ('pprint', 'blog', 'Blog')}
        z = cls.find('__init__')
        it.call_func(z[1], self.obj, [], {'depth': R0, 'verbose': False})
        self.obj.attrs.pop('interest', None)
        self.obj.attrs.update(tr)

    def base(self, lab, m=1, var=False, d=True, end=False):
        k = {'x': self.x, 's': self.s, 't': self.t}
        for c in SETTERS[lab]:
            if c == 'u':
                k['u'] = self.u
            elif c == 'b':
                k['b'] = self.b
            elif c == 'n':
                k['endowment'] = self.e
            elif c == 'e':
                k['endowment'] = self.e if end else R0
            elif c == 'm':
                k['moment'] = rat(m)
            elif c == 'c' or c == 'd':
                k['curtate' if c == 'c' else 'discrete'] = d
            elif c == 'v':
                k['variance'] = var
        return k


def _trip(lab, scen, tm, first, second, must, um=None, via=None, twice=False, free=False):
    """set one fact and look up another (or the same)"""
    nm = 'set_' + lab

    def build(it, c):
        w = Store(it, c, tm, um)
        one = first(w)
        two = second(w, dict(one))
        f = VAL[lab]
        try:
            v1 = sym('given') if free else f(it, w.F, one)
        except Undecided as e:
            raise Undecided(f"contract: {e}")
        if twice:
            it.call_func(c.find(nm)[1], w.obj, [], {'val': sym('old'), **one})

        def want(it, r, obj):
            if r is not w.obj:
                return False, f"set_{lab} returns {short(r)}, not the object itself"
            asked = via or '_get_' + lab
            z = c.find(asked)
            if z is None:
                return None, f"no {asked}"
            pn = set(sp_params(z[1]))
            args = {k: v for k, v in two.items() if k in pn}
            if set(two) - pn - {'endowment', 'u', 't', 'variance'}:
                return None, f"{asked} has no {sorted(set(two) - pn)}"
            got = it.call_func(z[1], w.obj, [], args)
            if free:
                if got is None or compare(got, v1, ATT, it.trace.subs) == 'ne':
                    return False, f"{asked} answers {short(got)} though the value was given"
            if got is None:
                return (False, f"the fact set is not found by {asked}") if must else (True, '')
            return sound(lambda: v1 if free else f(it, w.F, two), False, ATT)(it, got, obj)
        return w.obj, [], {'val': v1, **one}, want
    return Case(f"Recursion.{nm}", scen, build, rule='round trip', cls=CLS, name=nm, cap=60)


def sp_params(fn):
    from .model import params
    a = params(fn.node)
    return [n for n in list(a[0]) + list(a[2] or [])]


def _gone(lab, scen, tm, present, um=None):
    nm = 'set_' + lab

    def build(it, c):
        w = Store(it, c, tm, um)
        one = w.base(lab)
        if present:
            it.call_func(c.find(nm)[1], w.obj, [], {'val': VAL[lab](it, w.F, one), **one})

        def want(it, r, obj):
            if r is not w.obj:
                return False, f"set_{lab} returns {short(r)}, not the object itself"
            z = c.find('_get_' + lab)
            if z is None:
                return None, 'no lookup'
            pn = set(sp_params(z[1]))
            got = it.call_func(z[1], w.obj, [], {k: v for k, v in one.items() if k in pn})
            return (got is None), f"a removed fact is still {short(got)}"
        return w.obj, [], {'val': None, **one}, want
    return Case(f"Recursion.{nm}", scen, build, rule='round trip', cls=CLS, name=nm, cap=60)


def _apart(lab, other, scen, tm):
    """setting another fact leaves this one as it is"""
    nm = 'set_' + lab

    def build(it, c):
        w = Store(it, c, tm)
        one, two = w.base(lab), w.base(other)
        it.call_func(c.find('set_' + other)[1], w.obj, [], {'val': VAL[other](it, w.F, two), **two})

        def want(it, r, obj):
            for l, k in ((lab, one), (other, two)):
                z = c.find('_get_' + l)
                if z is None:
                    return None, 'no lookup'
                pn = set(sp_params(z[1]))
                got = it.call_func(z[1], w.obj, [], {a: v for a, v in k.items() if a in pn})
                if got is None:
                    return False, f"fact {l} is lost"
                ok = sound(lambda: VAL[l](it, w.F, k), False, ATT)(it, got, obj)
                if ok[0] is not True:
                    return ok
            return True, ''
        return w.obj, [], {'val': VAL[lab](it, w.F, one), **one}, want
    return Case(f"Recursion.{nm}", scen, build, rule='round trip', cls=CLS, name=nm, cap=60)


def ask_A(tm, um, end, var):
    if um:
        return ['deferred_insurance']
    if end:
        return ['endowment_insurance']
    return ['term_insurance'] + (['whole_life_insurance'] if tm == 'whole' else [])


def ask_a(tm, um, end, var):
    if um:
        return [] if var else ['deferred_annuity']
    return ['temporary_annuity'] + (['whole_life_annuity'] if tm == 'whole' else [])


ASKB = {'A': ask_A, 'a': ask_a}
BARE = {'q': ['q_x'], 'p': ['p_x'], 'e': ['e_x'], 'E': ['E_x'], 'IA': ['increasing_insurance'], 'DA': ['decreasing_insurance'],
        'A': ['whole_life_insurance'], 'a': ['whole_life_annuity', 'temporary_annuity']}


def store_cases(tier='quick'):
    out = []
    for lab, qs in BARE.items():
        for q in qs:
            out.append(_trip(lab, f"arguments omitted; read back by {q}", 'in', lambda w: {'x': w.x}, lambda w, k: k, True, via=q, free=True))
            out.append(_trip(lab, f"arguments omitted; read back by {q} at the attained age", 'in', lambda w: {'x': w.x, 's': w.s},
                             lambda w, k: {'x': w.x + w.s}, True, via=q, free=True))
    for lab, opts in SETTERS.items():
        T3 = ['in', 1] + (['whole'] if lab in ('e', 'IA', 'A', 'a') else [])
        for tm in T3:
            T = TM[tm]
            for m in ((1, 2, -2) if 'm' in opts else (1,)):
                for var in ((False, True) if 'v' in opts else (False,)):
                    for d in ((True, False) if set('cd') & set(opts) else (True,)):
                        for end in ((False, True) if 'e' in opts and tm != 'whole' else (False,)):
                            for um in ((None, 'in') if 'u' in opts and not end and not (var) else (None,)):
                                S = ', '.join([T] + ([MOM[m]] if 'm' in opts else []) + (['variance'] if var else [])
                                              + (['discrete' if d else 'continuous'] if set('cd') & set(opts) else [])
                                              + (['endowment'] if end else []) + (['deferred'] if um else []))
                                one = lambda w, lab=lab, m=m, var=var, d=d, end=end: w.base(lab, m, var, d, end)
                                _trips(out, lab, opts, tm, one, S, um)
        out.append(_gone(lab, 'removed', 'in', True))
        out.append(_gone(lab, 'removed without having been set', 'in', False))
        for other in SETTERS:
            if other != lab:
                out.append(_apart(lab, other, f"beside {other}", 'in'))
    return out


def _trips(out, lab, opts, tm, one, S, um):
    def add(what, second, must, first=one, **k):
        out.append(_trip(lab, f"{S}; {what}", tm, first, second, must, um=um, **k))
    same = lambda w, k: k
    add('read back', same, True)
    add('set again', same, True, twice=True)
    for q in ASK.get(lab, []):
        add(f'read back by {q}', same, True, via=q, free=True)
    if lab in 'Aa':
        d, m = 'continuous' not in S, 'variance' not in S
        for q in ASKB[lab](tm, um, 'endowment' in S, 'variance' in S):
            forced = tm == 1 and d and m and not um and (lab == 'a' or 'endowment' in S)   # known whatever is given
            add(f'read back by {q}', same, True, via=q, free=not forced)
    add('read at the same attained age', lambda w, k: dict(k, x=w.x + w.s, s=R0), True)
    add('set at the attained age', same, True, first=lambda w: dict(one(w), x=w.x + w.s, s=R0))
    add('read one year later', lambda w, k: dict(k, s=w.s + 1), False)
    if tm != 'whole':
        add('read for a longer term', lambda w, k: dict(k, t=w.t + 1), False)
        if lab in ('e', 'IA', 'A', 'a'):
            add('read for whole life', lambda w, k: dict(k, t=WHOLE), False)
    else:
        add('read for a term', lambda w, k: dict(k, t=pint('n')), False)
    if 'u' in opts:
        add('read with more deferral', lambda w, k: dict(k, u=w.u + 1), False)
    if 'b' in opts:
        add('read for another benefit', lambda w, k: dict(k, b=k['b'] * sym('g', 'pos'),
                                                         **({'endowment': k['endowment'] * sym('g', 'pos')} if 'endowment' in k else {})), True)
        add('read for unit benefit', lambda w, k: dict(k, b=R1, **({'endowment': k['endowment'] / k['b']} if 'endowment' in k else {})), True)
    if 'n' in opts:
        add('read for another amount', lambda w, k: dict(k, endowment=k['endowment'] * sym('g', 'pos')), True)
    if 'e' in opts and tm != 'whole':
        add('read for another endowment', lambda w, k: dict(k, endowment=k['endowment'] + 1), False)
        add('read for endowment equal to the benefit', lambda w, k: dict(k, endowment=k['b']), False)
        add('read for a benefit alone', lambda w, k: dict(k, b=k['b'] * 2), False)
        add('set with the endowment implied', lambda w, k: dict(k, endowment=w.b), True,
            first=lambda w: dict(one(w), endowment=rat(-1)))
        add('read with the endowment implied', lambda w, k: dict(k, endowment=rat(-1)), True,
            first=lambda w: dict(one(w), endowment=w.b))
        add('endowment without death benefit', same, True, first=lambda w: dict(one(w), b=R0, endowment=w.e))
        add('endowment without death benefit read for another amount', lambda w, k: dict(k, endowment=w.e * 3), True,
            first=lambda w: dict(one(w), b=R0, endowment=w.e))
    if 'm' in opts:
        for m in (1, 2, -2):
            add(f'read for the {MOM[m]}', lambda w, k, m=m: dict(k, moment=rat(m)), False)
    if 'v' in opts:
        for v in (True, False):
            add('read for the variance' if v else 'read for the mean', lambda w, k, v=v: dict(k, variance=v), False)
    for c, nm in (('c', 'curtate'), ('d', 'discrete')):
        if c in opts:
            add(f'read for the other kind of payment' if c == 'd' else 'read for the other expectation', lambda w, k, nm=nm: dict(k, **{nm: not k[nm]}), False)


# ---------------------------------------------------------------------------
# C29: one step of a documented identity is found

def _sums(it, f, a):
    raise SubjectRaise('NotFound', "the known facts are not put together: it sums over survival probabilities nobody gave", None)


class OwnF(RecF):
    """family all of whose queries are the source's own, but which has no probabilities to sum over when its rules give up"""
    def __init__(self, I, maxage):
        super().__init__(I, maxage)
        self.table = {'A_x': _sums, 'a_x': _sums}


class Facts(Store):
    def __init__(self, it, cls, tm, um, depth, interest='pos'):
        RWorld.__init__(self, it, cls, tm, um, interest)
        self.obj.family = self.F = OwnF(self.I, self.F.maxage)
        for k in ('db', '_t', 'maxdepth'):
            self.obj.attrs.pop(k, None)
        tr = {k: self.obj.attrs[k] for k in ('pprint', 'blog', 'Blog')}
        z = cls.find('__init__')
        it.call_func(z[1], self.obj, [], {**({} if depth is None else {'depth': rat(depth)}), 'verbose': False})
        self.obj.attrs.pop('interest', None)
        self.obj.attrs.update(tr)


def _step(name, scen, tm, facts, args, lab, um=None, depth=None, interest='pos'):
    def build(it, c):
        w = Facts(it, c, tm, um, depth, interest)
        for l, k in facts(w):
            k = dict({'x': w.x, 's': w.s}, **k)
            it.call_func(c.find('set_' + l)[1], w.obj, [], {'val': VAL[l](it, w.F, k), **k})
        w.obj.attrs.pop('blog', None)
        w.obj.absent = {'blog'}
        kw = dict({'x': w.x, 's': w.s}, **args(w))
        f = VAL[lab] if isinstance(lab, str) else lab
        return w.obj, [], kw, sound(lambda: f(it, w.F, kw), False)
    return Case(f"Recursion.{name}", scen, build, rule='one step', cls=CLS, name=name, cap=60)


ONE = lambda w: R1
NXT = lambda w, k=1: {'s': w.s + k}


def less(w, k=1):
    return WHOLE if w.t is WHOLE or (w.t - WHOLE).is_zero() else w.t - k


def step_cases(tier='quick'):
    out = []

    def add(name, scen, tm, facts, args, lab, **k):
        out.append(_step(name, scen, tm, facts, args, lab, **k))
    T = lambda w: {'t': w.t}
    # mortality and survival
    for tm in ('in', 1):
        tn = TM[tm]
        add('q_x', f"{tn}, from survival", tm, lambda w: [('p', T(w))], T, 'q')
        add('p_x', f"{tn}, from mortality", tm, lambda w: [('q', T(w))], T, 'p')
        for um in ('in', 1):
            un = {'in': 'deferred', 1: 'deferred one year'}[um]
            U = lambda w: {'t': w.t, 'u': w.u}
            add('q_x', f"{tn}, {un}, from survival and the mortality that follows", tm,
                lambda w: [('p', {'t': w.u}), ('q', {'s': w.s + w.u, 't': w.t})], U, 'q', um=um)
            add('q_x', f"{tn}, {un}, from mortality over both terms", tm,
                lambda w: [('q', {'t': w.u}), ('q', {'t': w.u + w.t})], U, 'q', um=um)
            add('q_x', f"{tn}, {un}, from survival over both terms", tm,
                lambda w: [('p', {'t': w.u}), ('p', {'t': w.u + w.t})], U, 'q', um=um)
    add('q_x', "for life, deferred, from survival", 'whole', lambda w: [('p', {'t': w.u})], lambda w: {'t': w.t, 'u': w.u}, 'q', um='in')
    for tm in ('in', 1):
        tn = TM[tm]
        add('p_x', f"{tn}, from a term begun a year earlier", tm, lambda w: [('p', {'s': w.s - 1, 't': w.t + 1}), ('p', {'s': w.s - 1, 't': R1})], T, 'p')
        add('p_x', f"{tn}, from a term one year longer", tm, lambda w: [('p', {'t': w.t + 1}), ('p', {'s': w.s + w.t, 't': R1})], T, 'p')
    add('p_x', "chained with the first year", 'in', lambda w: [('p', {'t': R1}), ('p', {'s': w.s + 1, 't': w.t - 1})], T, 'p')
    add('p_x', "chained with the last year", 'in', lambda w: [('p', {'t': w.t - 1}), ('p', {'s': w.s + w.t - 1, 't': R1})], T, 'p', depth=2)
    for n in (2, 3, 4):
        add('p_x', f"{n} years from the mortality of every year", n, lambda w, n=n: [('q', {'s': w.s + k, 't': R1}) for k in range(n)], T, 'p')
    add('p_x', "one year from a pure endowment", 1, lambda w: [('E', {'t': R1})], T, 'p')
    for n in ('whole', 2, 3, 4):
        k = WHOLE if n == 'whole' else rat(n)
        k1 = WHOLE if n == 'whole' else rat(n - 1)
        nn = 'for life' if n == 'whole' else f'over {n} years'
        add('p_x', f"one year from annuities {nn}", 1, lambda w, k=k, k1=k1: [('a', {'t': k}), ('a', {'s': w.s + 1, 't': k1})], T, 'p')
        for e in ((0,) if n == 'whole' else (0, 1)):
            add('p_x', f"one year from {'endowment ' if e else ''}insurances {nn}", 1, lambda w, k=k, k1=k1, e=e: [
                ('A', {'t': k, 'endowment': rat(e)}), ('A', {'s': w.s + 1, 't': k1, 'endowment': rat(e)})], T, 'p')
    # expectations
    add('e_x', "one year, curtate, from survival", 1, lambda w: [('p', {'t': R1})], lambda w: {'t': R1, 'curtate': True}, 'e')
    for c in (True, False):
        C = 'curtate' if c else 'complete'
        cu = {'curtate': c}
        for n in (2, 5, 'in'):
            add('e_x', f"{C}, {n if n != 'in' else 'some'} years, from expectations for life", n, lambda w, cu=cu: [
                ('e', dict(cu, t=WHOLE)), ('e', dict(cu, s=w.s + w.t, t=WHOLE)), ('p', {'t': w.t})], lambda w, cu=cu: dict(cu, t=w.t), 'e', depth=1)
        for n in (1, 2, 7, 40):
            add('e_x', f"{C}, for life, from the expectation {n} years earlier", 'whole', lambda w, cu=cu, n=n: [
                ('e', dict(cu, s=w.s - n, t=WHOLE)), ('e', dict(cu, s=w.s - n, t=rat(n))), ('p', {'s': w.s - n, 't': rat(n)})],
                lambda w, cu=cu: dict(cu, t=w.t), 'e', depth=1)
            add('e_x', f"{C}, for life, from the expectation {n} years later", 'whole', lambda w, cu=cu, n=n: [
                ('e', dict(cu, t=rat(n))), ('e', dict(cu, s=w.s + n, t=WHOLE)), ('p', {'t': rat(n)})], lambda w, cu=cu: dict(cu, t=w.t), 'e', depth=1)
            add('e_x', f"{C}, some years, from the expectation {n} years later", 'far', lambda w, cu=cu, n=n: [
                ('e', dict(cu, t=rat(n))), ('e', dict(cu, s=w.s + n, t=w.t - n)), ('p', {'t': rat(n)})], lambda w, cu=cu: dict(cu, t=w.t), 'e', depth=1)
    # pure endowments
    for m in (1, 2):
        M = MOM[m]
        for tm in ('in', 1):
            E = lambda w, m=m: {'t': w.t, 'moment': rat(m), 'endowment': w.e}
            add('E_x', f"{M}, {TM[tm]}, from survival", tm, lambda w: [('p', {'t': w.t})], E, 'E')
            add('E_x', f"{M}, {TM[tm]}, from insurances", tm, lambda w, m=m: [
                ('A', {'t': w.t, 'moment': rat(m), 'b': w.e, 'endowment': w.e}), ('A', {'t': w.t, 'moment': rat(m), 'b': w.e})], E, 'E')
        add('E_x', f"{M}, chained with the first year", 'in', lambda w, m=m: [
            ('E', {'t': R1, 'moment': rat(m)}), ('E', {'s': w.s + 1, 't': w.t - 1, 'moment': rat(m)})], E, 'E')
    add('E_x', "second moment from the mean", 'in', lambda w: [('E', {'t': w.t})], E, 'E')
    add('E_x', "variance from survival", 'in', lambda w: [('p', {'t': w.t})], lambda w: {'t': w.t, 'moment': VAR, 'endowment': w.e}, 'E')
    # varying insurances
    for d in (True, False):
        D = 'discrete' if d else 'continuous'
        dd = {'discrete': d}
        TB = lambda w, d=d: {'t': w.t, 'b': w.b, 'discrete': d}
        for tm in ('in', 1):
            add('increasing_insurance', f"{D}, {TM[tm]}, from the decreasing one", tm, lambda w, dd=dd: [('A', dict(dd, t=w.t)), ('DA', dict(dd, t=w.t))], TB, 'IA')
            add('decreasing_insurance', f"{D}, {TM[tm]}, from the increasing one", tm, lambda w, dd=dd: [('A', dict(dd, t=w.t)), ('IA', dict(dd, t=w.t))], TB, 'DA')
    TB = lambda w: {'t': w.t, 'b': w.b}
    for tm in ('in', 'whole'):
        add('increasing_insurance', f"{TM[tm]}, from the one a year later", tm, lambda w: [
            ('A', {'t': R1}), ('IA', {'s': w.s + 1, 't': less(w)}), ('p', {'t': R1}), ('A', {'s': w.s + 1, 't': less(w)})], TB, 'IA')
    add('decreasing_insurance', "from the one a year later", 'in', lambda w: [('DA', {'s': w.s + 1, 't': less(w)}), ('p', {'t': R1})], TB, 'DA')
    # insurances
    for m in (1, 2):
        mm = {'moment': rat(m)}
        for d in (True, False):
            D = f"{'discrete' if d else 'continuous'}, {MOM[m]}"
            md = dict(mm, discrete=d)
            TBM = lambda w, md=md: dict(md, t=w.t, b=w.b)
            TBE = lambda w, md=md: dict(md, t=w.t, b=w.b, endowment=w.e)
            for tm in ('in', 1):
                S = f"{D}, {TM[tm]}"
                add('endowment_insurance', f"{S}, from the term insurance", tm, lambda w, md=md, mm=mm: [('A', dict(md, t=w.t)), ('E', dict(mm, t=w.t))], TBE, 'A')
                add('endowment_insurance', f"{S}, from the term insurance and survival", tm, lambda w, md=md: [('A', dict(md, t=w.t)), ('p', {'t': w.t})], TBE, 'A')
                add('term_insurance', f"{S}, from the endowment insurance", tm, lambda w, md=md, mm=mm: [
                    ('A', dict(md, t=w.t, endowment=R1)), ('E', dict(mm, t=w.t))], TBM, 'A')
            add('term_insurance', f"{D}, from insurances for life", 'in', lambda w, md=md, mm=mm: [
                ('A', dict(md, t=WHOLE)), ('A', dict(md, s=w.s + w.t, t=WHOLE)), ('E', dict(mm, t=w.t))], TBM, 'A')
            for um in ('in', 1):
                add('deferred_insurance', f"{D}, {'deferred' if um == 'in' else 'deferred one year'}, from the insurance that follows", 'in', lambda w, md=md, mm=mm: [
                    ('A', dict(md, s=w.s + w.u, t=w.t)), ('E', dict(mm, t=w.u))], lambda w, md=md: dict(md, t=w.t, u=w.u, b=w.b), 'A', um=um)
        M = MOM[m]
        TBM = lambda w, mm=mm: dict(mm, t=w.t, b=w.b)
        TBE = lambda w, mm=mm: dict(mm, t=w.t, b=w.b, endowment=w.e)
        add('term_insurance', f"{M}, one year, from survival", 1, lambda w: [('p', {'t': R1})], TBM, 'A')
        add('term_insurance', f"{M}, one year, from mortality", 1, lambda w: [('q', {'t': R1})], TBM, 'A')
        add('endowment_insurance', f"{M}, one year, from survival", 1, lambda w: [('p', {'t': R1})], TBE, 'A')
        add('endowment_insurance', f"{M}, one year, from nothing", 1, lambda w: [], lambda w, mm=mm: dict(mm, t=R1, b=w.b), lambda it, f, a: v_A(it, f, dict(a, endowment=a['b'])))
        for k, nm in ((1, 'later'), (-1, 'earlier')):
            pk = (lambda w: ('p', {'t': R1})) if k == 1 else (lambda w: ('p', {'s': w.s - 1, 't': R1}))
            add('whole_life_insurance', f"{M}, from the one a year {nm}", 'whole', lambda w, mm=mm, k=k, pk=pk: [
                ('A', dict(mm, s=w.s + k, t=WHOLE)), pk(w)], lambda w, mm=mm: dict(mm, b=w.b), 'A')
            add('term_insurance', f"{M}, from the one a year {nm}", 'in', lambda w, mm=mm, k=k, pk=pk: [
                ('A', dict(mm, s=w.s + k, t=w.t - k)), pk(w)], TBM, 'A')
            add('endowment_insurance', f"{M}, from the one a year {nm}", 'in', lambda w, mm=mm, k=k, pk=pk: [
                ('A', dict(mm, s=w.s + k, t=w.t - k, b=w.b, endowment=w.e)), pk(w)], TBE, 'A')
    for d in (True, False):
        D = 'discrete' if d else 'continuous'
        dd = {'discrete': d}
        V = dict(dd, moment=VAR)
        both = lambda w, dd=dd, **k: [('A', dict(dd, t=w.t, **k)), ('A', dict(dd, t=w.t, moment=rat(2), **k))]
        add('whole_life_insurance', f"{D}, variance from the moments", 'whole', both, lambda w, V=V: dict(V, b=w.b), 'A')
        add('term_insurance', f"{D}, variance from the moments", 'in', both, lambda w, V=V: dict(V, b=w.b, t=w.t), 'A')
        add('endowment_insurance', f"{D}, variance from the moments", 'in', lambda w, both=both: both(w, b=w.b, endowment=w.e),
            lambda w, V=V: dict(V, b=w.b, endowment=w.e, t=w.t), 'A')
        # insurances and annuities
        add('whole_life_insurance', f"{D}, from the annuity", 'whole', lambda w, dd=dd: [('a', dict(dd, t=WHOLE))], lambda w, dd=dd: dict(dd, b=w.b), 'A')
        add('whole_life_annuity', f"{D}, from the insurance", 'whole', lambda w, dd=dd: [('A', dict(dd, t=WHOLE))], lambda w, dd=dd: dict(dd, b=w.b), 'a')
        add('endowment_insurance', f"{D}, from the annuity", 'in', lambda w, dd=dd: [('a', dict(dd, t=w.t))], lambda w, dd=dd: dict(dd, b=w.b, t=w.t),
            lambda it, f, a: v_A(it, f, dict(a, endowment=a['b'])))
        add('temporary_annuity', f"{D}, from the endowment insurance", 'in', lambda w, dd=dd: [('A', dict(dd, t=w.t, endowment=R1))], lambda w, dd=dd: dict(dd, b=w.b, t=w.t), 'a')
        add('whole_life_annuity', f"{D}, variance from the insurance", 'whole', both, lambda w, dd=dd: dict(dd, b=w.b, variance=True), 'a')
        add('temporary_annuity', f"{D}, variance from the endowment insurance", 'in', lambda w, both=both: both(w, endowment=R1),
            lambda w, dd=dd: dict(dd, b=w.b, t=w.t, variance=True), 'a')
        # annuities
        add('temporary_annuity', f"{D}, from annuities for life", 'in', lambda w, dd=dd: [
            ('a', dict(dd, t=WHOLE)), ('a', dict(dd, s=w.s + w.t, t=WHOLE)), ('E', {'t': w.t})], lambda w, dd=dd: dict(dd, b=w.b, t=w.t), 'a')
        for tm in ('in', 'whole'):
            S = f"{D}, {TM[tm]}, deferred"
            ku = lambda w, dd=dd: dict(dd, b=w.b, t=w.t, u=w.u)
            add('deferred_annuity', f"{S}, from the annuity that follows", tm, lambda w, dd=dd: [
                ('a', dict(dd, s=w.s + w.u, t=w.t)), ('E', {'t': w.u})], ku, 'a', um='in')
            add('deferred_annuity', f"{S}, from the annuities over both terms", tm, lambda w, dd=dd: [
                ('a', dict(dd, t=WHOLE if tm_whole(w) else w.t + w.u)), ('a', dict(dd, t=w.u))], ku, 'a', um='in')
            add('deferred_annuity', f"{S}, from the one a year later", tm, lambda w, dd=dd: [
                ('a', dict(dd, s=w.s + 1, u=w.u - 1, t=w.t)), ('E', {'t': R1})], ku, 'a', um='in')
            add('deferred_annuity', f"{S}, from the one a year earlier", tm, lambda w, dd=dd: [
                ('a', dict(dd, s=w.s - 1, u=w.u + 1, t=w.t)), ('E', {'s': w.s - 1, 't': R1})], ku, 'a', um='in')
    for tm, q in (('in', 'temporary_annuity'), ('whole', 'whole_life_annuity'), ('whole', 'temporary_annuity')):
        kt = (lambda w: {'b': w.b}) if q == 'whole_life_annuity' else (lambda w: {'b': w.b, 't': w.t})
        add(q, f"{TM[tm]}, from the one a year later", tm, lambda w: [('a', {'s': w.s + 1, 't': less(w)}), ('E', {'t': R1})], kt, 'a')
        add(q, f"{TM[tm]}, from the one a year later and survival", tm, lambda w: [('a', {'s': w.s + 1, 't': less(w)}), ('p', {'t': R1})], kt, 'a')
        add(q, f"{TM[tm]}, from the one a year earlier", tm, lambda w: [('a', {'s': w.s - 1, 't': less(w, -1)}), ('E', {'s': w.s - 1, 't': R1})], kt, 'a')
    add('temporary_annuity', "one year, from nothing", 1, lambda w: [], lambda w: {'b': w.b, 't': R1}, 'a')
    for n in (2, 3):
        add('term_insurance', f"{n} years from the mortality of every year", n, lambda w, n=n: [('q', {'s': w.s + k, 't': R1}) for k in range(n)],
            lambda w: {'t': w.t, 'b': w.b}, 'A')
        add('temporary_annuity', f"{n} years from the mortality of every year", n, lambda w, n=n: [('q', {'s': w.s + k, 't': R1}) for k in range(n)],
            lambda w: {'t': w.t, 'b': w.b}, 'a')
    return out


def tm_whole(w):
    return (w.t - WHOLE).is_zero()
