"""Obligations: interest theory (C01) and the numerical primitives / term helpers of the base class."""
from . import algebra as al
from .algebra import rat, R0, R1, sym, exp
from . import interp as ip
from .interp import Obj
from .obl import Case, Raises, compare
from . import specs as sp
from .specs import Interest, InterestF


def rate(name, one=False):
    """a non-negative rate; discount-type rates are below one"""
    r = sym(name, 'frac') if one else sym(name, 'pos')
    return r


FORMS = {
    'i': lambda r: al.log(R1 + r), 'd': lambda r: -al.log(R1 - r), 'v': lambda r: -al.log(r),
    'delta': lambda r: r,
}


def attr_check(pairs):
    """pairs: name -> wanted value; compares public attributes of the constructed object"""
    def chk(it, r, obj):
        for name, want in pairs:
            try:
                got = name(it, obj) if callable(name) else it.getattr(obj, name)
            except ip.SubjectRaise as e:
                return False, f"{name} raises {e.name}: {e.msg}"
            nm = getattr(name, '__name__', name)
            if callable(want):
                continue
            c = compare(got, want, None, it.trace.subs)
            if c == 'ne':
                return False, f"{nm} is {got!r}, must be {want!r}"
            if c != 'eq':
                return None, f"{nm}: {c}"
        return True, ''
    return chk


def views(delta, t):
    def disc(it, obj):
        return it.call(it.getattr(obj, 'v_t'), [t], {})
    disc.__name__ = 'v_t(t)'
    return attr_check([('i', exp(delta) - 1), ('d', R1 - exp(-delta)), ('v', exp(-delta)), ('delta', delta),
                       (disc, exp(-(delta * t)))])


def interest_cases():
    out = []

    def ctor(scen, kwf, deltaf, want=None):
        def build(it, cls):
            obj = Obj(cls)
            kw = kwf()
            w = want if want is not None else views(deltaf(kw), rat(3) if 'm' in kw else sym('t', 'nonneg'))
            return obj, [], kw, w
        out.append(Case('Interest.__init__', scen, build, cls='Interest', name='__init__'))

    one = {'d', 'v'}
    for k, f in FORMS.items():
        ctor(f"rate given as {k}", lambda k=k: {k: rate('r', k in one)}, lambda kw, k=k, f=f: f(kw[k]))
        if k != 'v':
            ctor(f"zero rate given as {k}", lambda k=k: {k: R0}, lambda kw: R0)
    for k in ('i_m', 'd_m'):
        for m in (1, 2, 4, 12):
            ctor(f"{k} convertible {m} times", lambda k=k, m=m: {k: rate('r', k == 'd_m'), 'm': rat(m)},
                 lambda kw, k=k, m=m: (m * al.log(R1 + kw[k] / m)) if k == 'i_m' else -(m * al.log(R1 - kw[k] / m)))
        ctor(f"zero rate given as {k}", lambda k=k: {k: R0, 'm': rat(12)}, lambda kw: R0)
    ctor("no rate given", lambda: {}, None, Raises('Exception', 'AssertionError', 'ValueError'))
    ctor("negative rate", lambda: {'i': rat(-1) / 2}, None, Raises('Exception', 'AssertionError', 'ValueError'))

    for k in ('i_m', 'd_m'):
        ctor(f"{k} without its frequency", lambda k=k: {k: rate('r', k == 'd_m')}, None, Raises())

    # discount function
    def fn(at0):
        def f(it, a, k, n):
            t = ip.num(a[0] if a else k['t'])
            if t.is_zero():
                return at0
            return rat(al.Atom('disc', (t,)))
        return ip.Builtin('v_t', f)

    def b1(it, cls):
        obj = Obj(cls)
        t = sym('t', 'pos')

        def disc(it, obj):
            return it.call(it.getattr(obj, 'v_t'), [t], {})
        return obj, [], {'v_t': fn(R1)}, attr_check([(disc, rat(al.Atom('disc', (t,))))])
    out.append(Case('Interest.__init__', 'discount function given', b1, cls='Interest', name='__init__'))
    out.append(Case('Interest.__init__', 'discount function not one at zero',
                    lambda it, cls: (Obj(cls), [], {'v_t': fn(rat(1) / 2)}, Raises('AssertionError', 'Exception', 'ValueError')),
                    cls='Interest', name='__init__'))
    out.append(Case('Interest.__init__', 'discount function not callable',
                    lambda it, cls: (Obj(cls), [], {'v_t': rat(1) / 2}, Raises('AssertionError', 'Exception', 'ValueError', 'TypeError')),
                    cls='Interest', name='__init__'))

    # conversions
    def meth(name, scen, kwf, regime='pos', want=None):
        def build(it, cls):
            I = Interest(regime)
            fam = InterestF(I)
            obj = Obj(cls, family=fam)
            kw = kwf()
            w = want if want is not None else sp.INTEREST[name](it, fam, dict(kw))
            return obj, [], kw, w
        out.append(Case(f'Interest.{name}', scen, build, cls='Interest', name=name))
    for regime in ('pos', 'zero'):
        tag = '' if regime == 'pos' else ' i=0'
        for m in (0, 1, 2, 12):
            for due in (True, False):
                meth('annuity', f"t>0, m={m}, due={due}{tag}", lambda m=m, due=due: {'t': sym('t', 'pos'), 'm': rat(m), 'due': due}, regime)
                if regime == 'pos':
                    meth('annuity', f"perpetuity, m={m}, due={due}", lambda m=m, due=due: {'t': rat(-1), 'm': rat(m), 'due': due})
        meth('annuity', f"t=0{tag}", lambda: {'t': R0, 'm': R1, 'due': True}, regime)
        meth('annuity', f"symbolic m due{tag}", lambda: {'t': sym('t', 'pos'), 'm': sym('m', 'pos', 'int'), 'due': True}, regime)
        meth('annuity', f"symbolic m immediate{tag}", lambda: {'t': sym('t', 'pos'), 'm': sym('m', 'pos', 'int'), 'due': False}, regime)
        meth('annuity', f"defaults{tag}", lambda: {'t': sym('t', 'pos')}, regime)
    meth('annuity', "arguments omitted", lambda: {})
    for due in (True, False):
        meth('annuity', f"perpetuity without discount, due={due}", lambda due=due: {'t': rat(-1), 'due': due}, 'zero', want=Raises())
    for k in ('i', 'd'):
        meth('mthly', f"{k}, frequency omitted", lambda k=k: {k: rate('r', k == 'd')})
    meth('annuity', "negative m", lambda: {'t': sym('t', 'pos'), 'm': rat(-1)}, want=Raises('AssertionError', 'ValueError', 'Exception'))
    for k in ('i', 'd', 'i_m', 'd_m'):
        o = k[0] == 'd'
        for m in (('sym',) if k.endswith('_m') else (0, 'sym')):
            mm = (lambda m=m: sym('m', 'pos', 'int') if m == 'sym' else rat(m))
            meth('mthly', f"{k}>0, m={m}", lambda k=k, mm=mm, o=o: {k: rate('r', o), 'm': mm()})
            meth('mthly', f"{k}=0, m={m}", lambda k=k, mm=mm: {k: R0, 'm': mm()})
    meth('mthly', "no rate", lambda: {'m': rat(4)}, want=Raises())
    meth('mthly', "negative m", lambda: {'m': rat(-4), 'i': rate('r')}, want=Raises())
    for k in ('i', 'd', 'v', 'delta'):
        meth('double_force', f"{k}>0", lambda k=k: {k: rate('r', k in one)})
        if k != 'v':
            meth('double_force', f"{k}=0", lambda k=k: {k: R0})
    meth('double_force', "no rate", lambda: {}, want=Raises())
    return out


MODELS = ('Life', 'Fractional', 'Insurance', 'Annuity', 'Premiums', 'PolicyValues', 'Reserves', 'LifeTable', 'SelectLife', 'Recursion')


def model_cases():
    """a model discounts at the rate last set in any form; at zero until one is set"""
    out = []

    def rate_of(it, obj, delta, t):
        return views(delta, t)(it, None, it.getattr(obj, 'interest'))
    for cls in MODELS:
        def new(it, c):
            return Obj(c), [], {}, lambda it, r, obj: rate_of(it, obj, R0, sym('t', 'nonneg'))
        out.append(Case(None, f"rate before one is set ({cls})", new, cls=cls, name='__init__'))
    for cls in ('Life', 'LifeTable', 'SelectLife', 'Recursion'):
        for k, f in list(FORMS.items()) + [('i_m', lambda r: 12 * al.log(R1 + r / 12)), ('d_m', lambda r: -(12 * al.log(R1 - r / 12)))]:
            for twice in (False, True):
                def setr(it, c, k=k, f=f, twice=twice):
                    o = Obj(c)
                    kw = {k: rate('r', k in ('d', 'v', 'd_m')), **({'m': rat(12)} if k.endswith('_m') else {})}
                    if twice:
                        it.call(it.getattr(o, 'set_interest'), [], {'i': rat(1) / 5})

                    def chk(it, r, obj):
                        if r is not obj:
                            return False, "does not return the model"
                        return rate_of(it, obj, f(kw[k]), rat(3) if 'm' in kw else sym('t', 'nonneg'))
                    return o, [], kw, chk
                out.append(Case(None, f"rate {'changed to' if twice else 'given as'} {k} ({cls})", setr, cls=cls, name='set_interest'))
    return out
