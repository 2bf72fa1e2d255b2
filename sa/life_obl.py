"""Obligations of the insurance / annuity family (generic mortality)."""
from . import algebra as al
from .algebra import rat, R0, R1, sym
from . import interp as ip
from .interp import Obj
from .obl import Case, Raises
from . import specs as sp
from .specs import LifeF, Interest, WHOLE, VAR

OMIT = object()


class World:
    """symbols of one scenario"""
    def __init__(self, it, cls, interest='pos', tmode='in', umode=None, extra=None, order='x'):
        self.it = it
        self.x = sym('x', 'int', 'nonneg')
        self.s = sym('s', 'int', 'nonneg')
        h = pint('h')
        self.h = h
        u = R0
        base = self.x + self.s
        if umode in ('in',):
            u = pint('u')
        elif umode == 'zero':
            u = R0
        if umode == 'beyond':
            om = base + h
            u = h + pint('k')
            t = pint('t')
            if tmode == 'whole':
                t = WHOLE
        elif tmode == 'in':
            t = pint('t')
            om = base + u + t + h
        elif tmode == 'edge':
            t = pint('t')
            om = base + u + t
        elif tmode == 'beyond':
            om = base + u + h
            t = h + pint('k')
        elif tmode == 'whole':
            t = WHOLE
            om = base + u + h
        elif tmode == 'zero':
            t = R0
            om = base + u + h
        elif tmode == 'one':
            t = R1
            om = base + u + h + 1
        elif tmode == 'real':
            t = sym('t', 'pos')
            om = base + u + t + h
        else:
            raise ValueError(tmode)
        self.t, self.u, self.omega = t, u, om
        al.CTX.omega = om
        self.I = Interest(interest)
        self.F = LifeF(self.I, maxage=om)
        self.b = sym('b', 'pos')
        self.e = sym('endow', 'pos')
        self.obj = Obj(cls, family=self.F)


def pint(name):
    z = sym(name, 'int', 'pos')
    al.CTX.facts.append(((z - 1).n, False))
    return z


def user_benefit():
    """uninterpreted benefit function of age and time"""
    def f(it, a, k, n):
        vals = list(a) + list(k.values())
        if len(vals) != 2:
            raise ip.SubjectRaise('TypeError', 'benefit takes two arguments', n)
        return rat(al.Atom('ben', tuple(ip.num(it.force(v)) for v in vals)))
    return ip.Builtin('benefit', f)


def case(cls, name, scenario, argf, wantf=None, law=None, omit_t=False, rule='contract', **world):
    """argf(w) -> kwargs passed; wantf(it, w, kwargs) -> want (default: contract table)"""
    setup = world.pop('setup', None)
    open_curve = world.pop('open_curve', False)

    def build(it, c):
        w = World(it, c, **world)
        if open_curve:
            al.CTX.omega = None     # somebody may live past the limiting age: sums still stop there
        if setup:
            setup(w)
        kw = argf(w)
        if wantf is None:
            want = sp.LIFE[name](it, w.F, dict(kw))
        else:
            want = wantf(it, w, kw)
        return w.obj, [], kw, want
    return Case(None, scenario, build, law=law, cls=cls, name=name, rule=rule)


def xs(w, **k):
    d = {'x': w.x, 's': w.s}
    d.update(k)
    return d


def tmodes(with_whole=True, zero=True):
    m = ['in', 'edge', 'beyond', 'one']
    if with_whole:
        m.append('whole')
    if zero:
        m.append('zero')
    return m


def insurance_cases(cls, own=None):
    """obligations of the insurance methods of class `cls`; own: restrict to these names"""
    out = []

    def add(name, *a, **k):
        if own is None or name in own:
            out.append(case(cls, name, *a, **k))
    for interest in ('pos', 'zero'):
        tag = '' if interest == 'pos' else ' i=0'
        # pure endowment
        for tm in tmodes():
            for m in (1, 2, -2):
                add('E_x', f"t {tm}, moment {m}, endowment{tag}",
                    lambda w, m=m: xs(w, t=w.t, moment=rat(m), endowment=w.e), interest=interest, tmode=tm)
        for m in (1, 2, -2):
            add('E_x', f"t in, moment {m}{tag}", lambda w, m=m: xs(w, t=w.t, moment=rat(m)),
                interest=interest, tmode='in')
        for disc in (True, False):
            dt = 'discrete' if disc else 'continuous'
            # general EPV
            for tm in ('in', 'edge', 'beyond', 'whole'):
                for um in (None, 'in'):
                    for m in (1, 2):
                        for e in (False, True):
                            if e and m == 1 and interest == 'zero':
                                continue
                            add('A_x', f"{dt}, t {tm}, u {um or 'omitted'}, moment {m}{', endowment' if e else ''}{tag}",
                                lambda w, m=m, e=e, um=um, d=disc: xs(
                                    w, t=w.t, benefit=user_benefit(), moment=rat(m), discrete=d,
                                    **({'u': w.u} if um else {}), **({'endowment': w.e} if e else {})),
                                interest=interest, tmode=tm, umode=um)
            for m in (1, 2, -2):
                mt = {1: 'mean', 2: 'second moment', -2: 'variance'}[m]
                rule = 'contract' if m > 0 else 'variance'
                add('whole_life_insurance', f"{dt}, {mt}{tag}",
                    lambda w, m=m, d=disc: xs(w, b=w.b, moment=rat(m), discrete=d),
                    interest=interest, tmode='whole', rule=rule)
                for tm in tmodes():
                    add('term_insurance', f"{dt}, t {tm}, {mt}{tag}",
                        lambda w, m=m, d=disc: xs(w, t=w.t, b=w.b, moment=rat(m), discrete=d),
                        interest=interest, tmode=tm, rule=rule)
                    add('endowment_insurance', f"{dt}, t {tm}, {mt}, endowment{tag}",
                        lambda w, m=m, d=disc: xs(w, t=w.t, b=w.b, endowment=w.e, moment=rat(m), discrete=d),
                        interest=interest, tmode=tm, rule=rule)
                    add('endowment_insurance', f"{dt}, t {tm}, {mt}, default endowment{tag}",
                        lambda w, m=m, d=disc: xs(w, t=w.t, b=w.b, moment=rat(m), discrete=d),
                        interest=interest, tmode=tm, rule=rule)
                    for um in ('in', 'zero'):
                        add('deferred_insurance', f"{dt}, t {tm}, u {um}, {mt}{tag}",
                            lambda w, m=m, d=disc: xs(w, u=w.u, t=w.t, b=w.b, moment=rat(m), discrete=d),
                            interest=interest, tmode=tm, umode=um, rule=rule)
                add('deferred_insurance', f"{dt}, u beyond, {mt}{tag}",
                    lambda w, m=m, d=disc: xs(w, u=w.u, t=w.t, b=w.b, moment=rat(m), discrete=d),
                    lambda it, w, kw: R0, interest=interest, tmode='in', umode='beyond', rule=rule)
            for tm in ('in', 'edge', 'beyond', 'one', 'whole'):
                add('increasing_insurance', f"{dt}, t {tm}{tag}",
                    lambda w, d=disc: xs(w, t=w.t, b=w.b, discrete=d), interest=interest, tmode=tm)
                if tm in ('in', 'edge', 'one'):
                    add('decreasing_insurance', f"{dt}, t {tm}{tag}",
                        lambda w, d=disc: xs(w, t=w.t, b=w.b, discrete=d), interest=interest, tmode=tm)
        # documented defaults (omitted arguments)
        if interest == 'pos':
            dflt = {'whole_life_insurance': {}, 'term_insurance': {}, 'deferred_insurance': {},
                    'endowment_insurance': {}, 'increasing_insurance': {}, 'decreasing_insurance': {}, 'A_x': {}, 'E_x': {}}
            for nm in dflt:
                tm = 'one' if nm in ('term_insurance', 'endowment_insurance', 'decreasing_insurance', 'E_x') else 'whole'
                add(nm, "arguments omitted", lambda w, nm=nm: xs(w),
                    (lambda it, w, kw, nm=nm: sp.LIFE[nm](it, w.F, {**kw, **({'benefit': const_benefit(R1)} if nm == 'A_x' else {})})),
                    interest=interest, tmode=tm)
    for disc in (True, False) if own is None else ():      # a curve that does not vanish at the limiting age: benefits still stop there
        dt, tag = 'discrete' if disc else 'continuous', ', survivors past the limiting age'
        for tm in ('beyond', 'whole', 'in'):
            for um in (None, 'in'):
                add('A_x', f"{dt}, t {tm}, u {um or 'omitted'}{tag}",
                    lambda w, um=um, d=disc: xs(w, t=w.t, benefit=user_benefit(), discrete=d, **({'u': w.u} if um else {})),
                    tmode=tm, umode=um, open_curve=True)
            for nm in ('term_insurance', 'deferred_insurance', 'increasing_insurance', 'whole_life_insurance'):
                if nm != 'whole_life_insurance' or tm == 'whole':
                    um = 'in' if nm == 'deferred_insurance' else None
                    add(nm, f"{dt}, t {tm}{tag}",
                        lambda w, d=disc, nm=nm, um=um: xs(w, b=w.b, discrete=d, **({'t': w.t} if nm != 'whole_life_insurance' else {}),
                                                           **({'u': w.u} if um else {})), tmode=tm, umode=um, open_curve=True)
    add('insurance_variance', "moments", lambda w: {'A2': sym('A2', 'pos'), 'A1': sym('A1', 'pos'), 'b': w.b}, rule='variance')
    return out


def const_benefit(b):
    return ip.Builtin('benefit', lambda it, a, k, n: b)


def annuity_cases(cls, own=None):
    out = []

    def add(name, *a, **k):
        if own is None or name in own:
            out.append(case(cls, name, *a, **k))
    for interest in ('pos', 'zero'):
        tag = '' if interest == 'pos' else ' i=0'
        for disc in (True, False):
            dt = 'discrete' if disc else 'continuous'
            for tm in ('in', 'edge', 'beyond', 'whole'):
                for um in (None, 'in'):
                    add('a_x', f"{dt}, t {tm}, u {um or 'omitted'}{tag}",
                        lambda w, um=um, d=disc: xs(w, t=w.t, benefit=user_benefit(), discrete=d,
                                                    **({'u': w.u} if um else {})),
                        interest=interest, tmode=tm, umode=um)
            add('whole_life_annuity', f"{dt}{tag}", lambda w, d=disc: xs(w, b=w.b, discrete=d),
                interest=interest, tmode='whole')
            for tm in tmodes():
                add('temporary_annuity', f"{dt}, t {tm}{tag}", lambda w, d=disc: xs(w, t=w.t, b=w.b, discrete=d),
                    interest=interest, tmode=tm)
                for um in ('in', 'zero'):
                    add('deferred_annuity', f"{dt}, t {tm}, u {um}{tag}",
                        lambda w, d=disc: xs(w, u=w.u, t=w.t, b=w.b, discrete=d), interest=interest, tmode=tm, umode=um)
                    if tm != 'zero':
                        add('certain_life_annuity', f"{dt}, t {tm}, u {um}{tag}",
                            lambda w, d=disc: xs(w, u=w.u, t=w.t, b=w.b, discrete=d), interest=interest, tmode=tm, umode=um)
            for tm in ('in', 'edge', 'beyond', 'one', 'whole'):
                add('increasing_annuity', f"{dt}, t {tm}{tag}", lambda w, d=disc: xs(w, t=w.t, b=w.b, discrete=d),
                    interest=interest, tmode=tm)
                if tm in ('in', 'edge', 'one'):
                    add('decreasing_annuity', f"{dt}, t {tm}{tag}", lambda w, d=disc: xs(w, t=w.t, b=w.b, discrete=d),
                        interest=interest, tmode=tm)
            if interest == 'pos':
                add('whole_life_annuity', f"{dt}, variance", lambda w, d=disc: xs(w, b=w.b, discrete=d, variance=True),
                    interest=interest, tmode='whole', rule='variance')
                for tm in ('in', 'edge', 'beyond', 'whole'):
                    add('temporary_annuity', f"{dt}, t {tm}, variance",
                        lambda w, d=disc: xs(w, t=w.t, b=w.b, discrete=d, variance=True),
                        interest=interest, tmode=tm, rule='variance')
                add('annuity_twin', dt, lambda w, d=disc: {'A': sym('A', 'pos'), 'discrete': d})
                add('annuity_variance', dt, lambda w, d=disc: {'A2': sym('A2', 'pos'), 'A1': sym('A1', 'pos'), 'b': w.b, 'discrete': d},
                    rule='variance')
            add('insurance_twin', dt + tag, lambda w, d=disc: {'a': sym('a', 'pos'), 'discrete': d}, interest=interest)
        for tm in tmodes():
            add('immediate_annuity', f"t {tm}{tag}", lambda w: xs(w, t=w.t, b=w.b), interest=interest, tmode=tm)
        if interest == 'pos':
            for tm in ('in', 'whole'):
                add('immediate_annuity', f"t {tm}, variance", lambda w: xs(w, t=w.t, b=w.b, variance=True),
                    interest=interest, tmode=tm, rule='variance')
            for disc in (True, False) if own is None else ():      # a curve that does not vanish at the limiting age: payments still stop there
                dt, tg = 'discrete' if disc else 'continuous', ', survivors past the limiting age'
                for tm in ('beyond', 'whole', 'in'):
                    for nm in ('a_x', 'temporary_annuity', 'deferred_annuity', 'certain_life_annuity', 'increasing_annuity'):
                        um = 'in' if nm in ('deferred_annuity', 'certain_life_annuity') else None
                        add(nm, f"{dt}, t {tm}{tg}",
                            lambda w, d=disc, nm=nm, um=um: xs(
                                w, t=w.t, discrete=d, **({'benefit': user_benefit()} if nm == 'a_x' else {'b': w.b}),
                                **({'u': w.u} if um else {})), tmode=tm, umode=um, open_curve=True)
            for nm in ('a_x', 'whole_life_annuity', 'temporary_annuity', 'deferred_annuity', 'certain_life_annuity',
                       'immediate_annuity', 'increasing_annuity'):
                add(nm, "arguments omitted", lambda w: xs(w),
                    (lambda it, w, kw, nm=nm: sp.LIFE[nm](it, w.F, {**kw, **({'benefit': const_benefit(R1)} if nm == 'a_x' else {})})),
                    interest=interest, tmode='whole')
    return out
