"""Obligations: present value random variables (C07), premiums (C08), policy values (C09), reserves (C10)."""
from . import algebra as al
from .algebra import rat, R0, R1, sym, L
from . import interp as ip
from .interp import Obj
from .obl import Case, Raises, compare
from . import specs as sp
from .specs import LifeF, Interest, WHOLE, neg, N, flag
from .life_obl import World, case, xs, pint
from .builtins_ import solve_atom


# --- present value random variables -----------------------------------------
def rv_cases():
    out = []

    def add(cls, nm, scen, argf, wantf=None, **k):
        out.append(case(cls, nm, scen, argf, wantf, **k))
    pr = lambda: sym('prob', 'frac')
    tr = lambda: sym('k', 'int', 'nonneg') + sym('r', 'frac')
    for d in (True, False):
        dt = 'discrete' if d else 'continuous'
        for r in ('pos', 'zero'):
            tag = '' if r == 'pos' else ' i=0'
            for tt, tf in (('t fractional', tr), ('t integer', lambda: sym('k', 'int', 'nonneg')), ('t 0', lambda: R0)):
                add('Insurance', 'Z_from_t', f"{dt}, {tt}{tag}", lambda w, d=d, tf=tf: {'t': tf(), 'discrete': d}, interest=r)
                add('Annuity', 'Y_from_t', f"{dt}, {tt}{tag}", lambda w, d=d, tf=tf: {'t': tf(), 'discrete': d}, interest=r)
            for nm, cls in (('Z_x', 'Insurance'), ('Y_x', 'Annuity')):
                add(cls, nm, f"{dt}{tag}", lambda w, d=d: xs(w, t=tr(), discrete=d), interest=r)
                add(cls, nm, f"{dt}, t integer{tag}", lambda w, d=d: xs(w, t=sym('k', 'int', 'nonneg'), discrete=d), interest=r)
            add('Insurance', 'Z_from_prob', f"{dt}{tag}", lambda w, d=d: {'x': w.x, 'prob': pr(), 'discrete': d}, interest=r)
            add('Annuity', 'Y_from_prob', f"{dt}{tag}", lambda w, d=d: {'x': w.x, 'prob': pr(), 'discrete': d}, interest=r)
        add('Insurance', 'Z_t', dt, lambda w, d=d: {'x': w.x, 'prob': pr(), 'discrete': d})
        add('Annuity', 'Y_t', dt, lambda w, d=d: {'x': w.x, 'prob': pr(), 'discrete': d})
    for nm, cls in (('Z_x', 'Insurance'), ('Y_x', 'Annuity')):
        add(cls, nm, 'negative time rejected', lambda w: xs(w, t=-w.h), lambda it, w, kw: Raises(), rule='validation')
    for nm, cls in (('Z_t', 'Insurance'), ('Y_t', 'Annuity')):
        add(cls, nm, 'probability one rejected', lambda w: {'x': w.x, 'prob': R1}, lambda it, w, kw: Raises(), rule='validation')
    # time from value, and inverse pairs
    add('Insurance', 'Z_to_t', 'value', lambda w: {'Z': sym('Z', 'frac')})
    add('Insurance', 'Z_to_t', 'inverts present value at time of death', lambda w: {'Z': w.I.v(sym('t', 'pos'))},
        lambda it, w, kw: sym('t', 'pos'))
    add('Insurance', 'Z_to_prob', 'value', lambda w: {'x': w.x, 'Z': w.I.v(sym('t', 'pos'))},
        lambda it, w, kw: L(w.x, sym('t', 'pos')) / L(w.x, R0))
    yv = lambda w, t: (R1 - w.I.v(t)) / w.I.delta if w.I.regime == 'pos' else t
    for r in ('pos', 'zero'):
        tag = '' if r == 'pos' else ' i=0'
        add('Annuity', 'Y_to_t', f'inverts present value at time of death{tag}', lambda w: {'Y': yv(w, sym('t', 'pos'))},
            lambda it, w, kw: sym('t', 'pos'), interest=r)
        add('Annuity', 'Y_to_prob', f'value{tag}', lambda w: {'x': w.x, 'Y': yv(w, sym('t', 'pos'))},
            lambda it, w, kw: R1 - L(w.x, sym('t', 'pos')) / L(w.x, R0), interest=r)
    # loss at issue
    for d in (True, False):
        dt = 'discrete' if d else 'continuous'
        for tt, tf in (('t fractional', tr), ('t integer', lambda: sym('k', 'int', 'nonneg'))):
            out.append(loss_case('L_from_t', f"{dt}, whole life, {tt}", d, None, lambda w, c, tf=tf: {'t': tf(), 'contract': c},
                                 lambda it, w, c, kw, d=d: loss(w, c, kw['t'], d)))
        for tt, tf in (('dies in term', lambda n: n - 1 - pint('j') + sym('r', 'frac')), ('dies in last year', lambda n: n - 1 + sym('r', 'frac')),
                       ('survives term', lambda n: n + sym('k', 'int', 'nonneg') + sym('r', 'frac')),
                       ('survives to end of term', lambda n: n)):
            def argf(w, c, tf=tf):
                n = c['T']
                t = tf(n)
                if 'j' in t.syms():
                    al.CTX.facts.append(((n - 1 - sym('j')).n, False))
                return {'t': t, 'contract': c}
            out.append(loss_case('L_from_t', f"{dt}, term policy, {tt}", d, 'T', argf,
                                 lambda it, w, c, kw, d=d, tt=tt: loss(w, c, kw['t'], d, term=c['T'], survives=tt.startswith('survives'))))
        out.append(loss_case('L_from_prob', f"{dt}, whole life", d, None, lambda w, c: {'x': w.x, 'prob': pr(), 'contract': c},
                             lambda it, w, c, kw, d=d: loss(w, c, sp.c_Z_t(it, w.F, {'x': w.x, 'prob': pr(), 'discrete': d}), d)))
    for d in (True, False):
        dt = 'discrete' if d else 'continuous'
        for gap in (('within', 'equal', 'above') if d else ('equal',)):
            for tt in ('fractional', 'integer'):
                for nm in ('L_to_t', 'L_to_prob'):
                    out.append(Case(None, f"{dt}, nearest loss {gap} the given loss, at a {tt} time", time_of_loss(nm, d, gap, tt), cls='PolicyValues', name=nm))
                    if gap != 'equal':
                        for prem in (10, 200):
                            out.append(Case(None, f"{dt}, nearest loss {gap} the given loss, at a {tt} time, benefit 1000, premium {prem}, no interest",
                                            time_of_loss(nm, d, gap, tt, prem), cls='PolicyValues', name=nm))
    return out


def time_of_loss(nm, d, gap, tt, prem=None):
    """the search for the time whose loss is nearest a given loss ends at a given point: what is made of it"""
    def build(it, klass):
        w = World(it, klass, tmode='whole', interest='pos' if prem is None else 'zero')
        al.CTX.omega = None
        c = contract_terms(d)
        k, r = sym('k', 'int', 'nonneg'), sym('r', 'frac')
        if prem is not None:
            c.update({z: R0 for z in TERMS}, benefit=rat(1000), premium=rat(prem))
            k, r = rat(6), rat(1) / 2
        T = k + r if tt == 'fractional' else k
        at = loss(w, c, T, d)
        target = at + {'within': 1, 'equal': 0, 'above': -1}[gap] * (sym('gap', 'pos') if prem is None else rat(2))
        seen = []

        def solver(it, b, node):
            f, goal = b['fun'], ip.num(it.force(b['target']))
            # where the loss is the given loss, the function solved must meet its target
            z = sym('z', 'int', 'nonneg') + sym('q', 'frac')
            keep, it.specs.solver = it.specs.solver, None
            try:
                val = ip.num(it.force(it.call(f, [z], {}, node)))
            finally:
                it.specs.solver = keep
            seen.append(True)
            gapz, got = loss(w, c, z, d) - target, val - goal
            for want in (gapz, -gapz, gapz * gapz):
                co = compare(got, want, None, it.trace.subs)
                if co == 'eq' or (co == 'ne' and not got.is_zero() and (got / want).const() is not None):
                    break
            else:
                if co != 'ne':
                    raise ip.Undecided(f"what is searched for: {co}")
                raise ip.SubjectRaise('WrongTarget', f"searches for where {got!r} vanishes; must be the loss less the given loss, {gapz!r}", node)
            if d and b.get('mad') in (False, None):
                raise ip.SubjectRaise('NoRoot', "searches for a root of the loss, which changes in steps when benefits are paid at the end of the year", node)
            return T
        it.specs.solver = solver

        def chk(it, res, obj):
            if not seen:
                return None, "no search for the time"
            t = T if not d else (k if gap != 'above' or tt == 'integer' else k + 1)
            want = t if nm == 'L_to_t' else w.F.p(w.x, R0, t)
            co = compare(res, want, None, it.trace.subs)
            return (True, '') if co == 'eq' else (False if co == 'ne' else None, f"answers {res!r}; must be {want!r}")
        kw = {'L': target, 'contract': mk_contract(it, c)}
        if nm == 'L_to_prob':
            kw['x'] = w.x
        return w.obj, [], kw, chk
    return build


TERMS = ('premium', 'initial_policy', 'initial_premium', 'renewal_policy', 'renewal_premium', 'settlement_policy',
         'benefit', 'endowment')


def contract_terms(d, T=None):
    c = {k: sym(k if k != 'endowment' else 'endow_c', 'pos') for k in TERMS}
    for k in ('initial_premium', 'renewal_premium'):
        c[k] = sym(k, 'frac')
    c['discrete'] = d
    c['T'] = WHOLE if T is None else pint('T')
    return c


def claims(c):
    return c['benefit'] + c['settlement_policy']


def profit(c):
    return c['premium'] * (1 - c['renewal_premium']) - c['renewal_policy']


def initial(c):
    return c['initial_policy'] - c['renewal_policy'] + c['premium'] * (c['initial_premium'] - c['renewal_premium'])


def loss(w, c, t, d, term=None, survives=False):
    I = w.I
    if survives:
        ben = c['endowment'] * I.v(term)
        Y = sp.annuity_certain(I, term, 1 if d else 0)
    else:
        k = al.floor(t) + 1 if d else t
        ben = claims(c) * I.v(k)
        Y = sp.annuity_certain(I, k, 1 if d else 0)
    return ben + initial(c) - profit(c) * Y


def mk_contract(it, c):
    cls = it.model.classes['Contract']
    return it.instantiate(cls, [], dict(c))


def loss_case(nm, scen, d, T, argf, wantf, rule='contract', cls='PolicyValues', **world):
    def build(it, klass):
        w = World(it, klass, **world)
        c = contract_terms(d, T)
        kw = argf(w, c)
        want = wantf(it, w, c, kw)
        if kw.get('contract') is c:
            kw = {**kw, 'contract': mk_contract(it, c)}
        return w.obj, [], kw, want
    return Case(None, scen, build, cls=cls, name=nm, rule=rule)


# --- premiums -------------------------------------------------------------------
def c_net_premium(it, f, a, w=None):
    x, s, t, u, n = (N(it, a, k, dv) for k, dv in (('x', None), ('s', R0), ('t', WHOLE), ('u', R0), ('n', R0)))
    b, e = N(it, a, 'b', R1), N(it, a, 'endowment', R0)
    d = a.get('discrete', True)
    d = True if d is None else d
    if flag(it, a.get('annuity', False)):
        A = f.ann(x, s, t, u, b, d)
    else:
        A = f.ins(x, s, t, u, b, 1, d)
        if not neg(t):
            A = A + e * f.E(x, s, t + u, R1, 1)
    if n.is_zero():
        n = t if u.is_zero() else u
    P = f.ann(x, s, n, R0, R1, d)
    if flag(it, a.get('return_premium', False)):
        P = P - f.A(x, s, n, R0, 1, d, lambda k: k)
    return (A + N(it, a, 'initial_cost', R0)) / P


def premium_cases(cls='Premiums'):
    out = []
    for d in (True, False, None):
        dt = {True: 'discrete', False: 'continuous', None: 'default'}[d]
        dd = lambda w, d=d: {'discrete': d}
        for r in ('pos', 'zero'):
            tag = '' if r == 'pos' else ' i=0'

            def add(scen, tm, argf, um=None):
                out.append(case(cls, 'net_premium', f"{dt}, {scen}{tag}", lambda w, d=d: {**xs(w, discrete=d), **argf(w)},
                                lambda it, w, kw: c_net_premium(it, w.F, dict(kw)), interest=r, tmode=tm, umode=um))
            add('whole life', 'whole', lambda w: {'b': w.b})
            add('whole life with initial cost', 'whole', lambda w: {'b': w.b, 'initial_cost': sym('IC', 'pos')})
            add('term', 'in', lambda w: {'b': w.b, 't': w.t})
            add('endowment insurance', 'in', lambda w: {'b': w.b, 't': w.t, 'endowment': w.e})
            add('endowment insurance to limiting age', 'edge', lambda w: {'b': w.b, 't': w.t, 'endowment': w.e})
            add('term with return of premium', 'in', lambda w: {'b': w.b, 't': w.t, 'return_premium': True})
            add('endowment with return of premium', 'in', lambda w: {'b': w.b, 't': w.t, 'endowment': w.e, 'return_premium': True})
            add('deferred whole life', 'whole', lambda w: {'b': w.b, 'u': w.u}, um='in')
            add('deferred term', 'in', lambda w: {'b': w.b, 'u': w.u, 't': w.t}, um='in')
            add('deferred endowment insurance', 'in', lambda w: {'b': w.b, 'u': w.u, 't': w.t, 'endowment': w.e}, um='in')
            add('deferred annuity', 'whole', lambda w: {'b': w.b, 'u': w.u, 'annuity': True}, um='in')
            add('deferred temporary annuity', 'in', lambda w: {'b': w.b, 'u': w.u, 't': w.t, 'annuity': True}, um='in')
            add('limited payment term', 'in', lambda w: {'b': w.b, 't': w.t, 'n': limited(w)})
            add('limited payment whole life', 'in', lambda w: {'b': w.b, 'n': limited(w)})
            add('limited payment deferred term', 'in', lambda w: {'b': w.b, 't': w.t, 'u': w.u, 'n': limited(w)}, um='in')
            add('one year term', 'one', lambda w: {'b': w.b, 't': R1})
    out.append(case(cls, 'net_premium', "arguments omitted", lambda w: {'x': w.x},
                    lambda it, w, kw: c_net_premium(it, w.F, dict(kw)), tmode='whole'))
    def per_rate(d):
        dt = 'discrete' if d else 'continuous'
        rate = lambda w, d=d: w.I.d if d else w.I.delta
        A, a, P = (lambda: sym('A', 'frac')), (lambda: sym('a', 'pos')), (lambda: sym('P', 'pos'))
        for r in ('pos', 'zero'):
            tag = '' if r == 'pos' else ' i=0'

            def add2(nm, scen, argf, wantf):
                out.append(case(cls, nm, f"{dt}, {scen}{tag}", lambda w, d=d: {**argf(w), 'discrete': d}, wantf, interest=r))
            if r == 'pos':
                add2('insurance_equivalence', 'factor', lambda w: {'premium': P(), 'b': w.b},
                     lambda it, w, kw: P() / (rate(w) * w.b + P()))
                add2('insurance_equivalence', 'inverts premium', lambda w: {'premium': w.b * rate(w) * A() / (1 - A()), 'b': w.b},
                     lambda it, w, kw: A())
                add2('annuity_equivalence', 'inverts premium', lambda w: {'premium': w.b * (1 / a() - rate(w)), 'b': w.b},
                     lambda it, w, kw: a())
                add2('premium_equivalence', 'insurance given', lambda w: {'A': A(), 'b': w.b},
                     lambda it, w, kw: w.b * rate(w) * A() / (1 - A()))
                add2('premium_equivalence', 'benefit omitted', lambda w: {'A': A()}, lambda it, w, kw: rate(w) * A() / (1 - A()))
            add2('annuity_equivalence', 'factor', lambda w: {'premium': P(), 'b': w.b},
                 lambda it, w, kw: w.b / (rate(w) * w.b + P()))
            add2('premium_equivalence', 'annuity given', lambda w: {'a': a(), 'b': w.b}, lambda it, w, kw: w.b * (1 / a() - rate(w)))
            add2('premium_equivalence', 'both given', lambda w: {'a': a(), 'A': A(), 'b': w.b}, lambda it, w, kw: w.b * A() / a())

            G = ('benefit', 'IA', 'E', 'endowment', 'settlement_policy', 'initial_policy', 'renewal_policy')
            for given in (('A',), ('a',), ('A', 'a')):
                if r == 'zero' and given != ('A', 'a'):
                    continue
                for full in (True, False):
                    def argf(w, given=given, full=full):
                        k = {}
                        if 'A' in given:
                            k['A'] = A()
                        if 'a' in given:
                            k['a'] = a()
                        if full:
                            k.update({n: sym('g_' + n, 'pos') for n in G})
                            k.update({n: sym('g_' + n, 'frac') for n in ('initial_premium', 'renewal_premium')})
                        return k

                    def wantf(it, w, kw):
                        g = lambda n, dv=R0: kw.get(n, dv)
                        Av, av = kw.get('A'), kw.get('a')
                        if av is None:
                            av = (1 - Av) / rate(w)
                        if Av is None:
                            Av = 1 - rate(w) * av
                        out = (Av * (g('benefit', R1) + g('settlement_policy')) + g('initial_policy') + g('renewal_policy') * (av - 1)
                               + g('E') * g('endowment'))
                        inc = av - g('initial_premium') - g('renewal_premium') * (av - 1) - g('IA')
                        return out / inc
                    add2('gross_premium', f"{' and '.join(given)} given{', all terms' if full else ''}", argf, wantf)
    for d in (True, False):
        per_rate(d)
    out.append(case(cls, 'gross_premium', "endowment without pure endowment factor rejected",
                    lambda w: {'A': sym('A', 'frac'), 'a': sym('a', 'pos'), 'endowment': w.e}, lambda it, w, kw: Raises(), rule='validation'))
    return out


def limited(w):
    n = pint('n')
    al.CTX.facts.append(((w.t - n - 1).n, False))
    return n


# --- policy values -----------------------------------------------------------------
def policy_cases(cls='PolicyValues'):
    out = []
    A, A1, A2, a = (lambda: sym('A', 'frac')), (lambda: sym('A1', 'frac')), (lambda: sym('A2', 'frac')), (lambda: sym('a', 'pos'))
    for r in ('pos', 'zero'):
        tag = '' if r == 'pos' else ' i=0'

        def add(nm, scen, argf, wantf, **k):
            out.append(case(cls, nm, scen + tag, argf, wantf, interest=r, **k))
        add('net_future_loss', 'factors', lambda w: {'A': A(), 'A1': A1(), 'b': w.b}, lambda it, w, kw: w.b * (A1() - A()) / (1 - A()))
        add('net_variance_loss', 'factors', lambda w: {'A': A(), 'A1': A1(), 'A2': A2(), 'b': w.b},
            lambda it, w, kw: w.b ** 2 * (A2() - A1() ** 2) / (1 - A()) ** 2)
        add('net_variance_loss', 'at issue', lambda w: {'A1': A1(), 'A2': A2(), 'b': w.b},
            lambda it, w, kw: w.b ** 2 * (A2() - A1() ** 2) / (1 - A1()) ** 2)
        for d in (True, False):
            dt = 'discrete' if d else 'continuous'
            for dur in ('issue', 'later'):
                for kind in ('whole life', 'endowment', 'term', 'other endowment', 'endowment to limiting age', 'term beyond limiting age'):
                    if kind in ('whole life', 'endowment', 'endowment to limiting age') and r == 'zero':
                        continue            # policy value undefined through insurance factors alone

                    def setup(w, dur=dur, kind=kind):
                        w.dur = R0
                        if dur == 'later':
                            w.dur = pint('m')
                            # duration within term and age
                            lim = w.t if kind != 'whole life' and 'beyond' not in kind else w.h
                            al.CTX.facts.append(((lim - w.dur - 1).n, False))
                        w.n = w.t
                    tm = {'whole life': 'whole', 'endowment': 'in', 'term': 'in', 'other endowment': 'in',
                          'endowment to limiting age': 'edge', 'term beyond limiting age': 'beyond'}[kind]
                    endow = {'whole life': None, 'endowment': 'b', 'term': None, 'other endowment': 'e',
                             'endowment to limiting age': 'b', 'term beyond limiting age': None}[kind]

                    def argf(w, d=d, endow=endow):
                        k = xs(w, t=w.dur, b=w.b, n=w.n, discrete=d)
                        if endow == 'b':
                            k['endowment'] = w.b
                        elif endow == 'e':
                            k['endowment'] = 2 * w.b
                        return k

                    def value(it, w, kw, d=d):
                        F, x, s, t, b, n = w.F, w.x, w.s, kw['t'], kw['b'], kw['n']
                        e = kw.get('endowment', R0)
                        if not neg(n):
                            n = F.term(x, s, n)
                        rem = n if neg(n) else n - t
                        ben = lambda s_, n_: F.ins(x, s_, n_, R0, b, 1, d) + (R0 if neg(n_) else F.E(x, s_, n_, e, 1))
                        P = ben(s, n) / F.ann(x, s, n, R0, R1, d)
                        return ben(s + t, rem) - P * F.ann(x, s + t, rem, R0, R1, d)
                    add('net_policy_value', f"{dt}, {kind}, {dur}", argf, value, tmode=tm, setup=setup)

                    def variance(it, w, kw, d=d):
                        F, x, s, t, b, n = w.F, w.x, w.s, kw['t'], kw['b'], kw['n']
                        rem = n if neg(n) else n - t
                        e = None if neg(n) else R1
                        v = F.ins(x, s + t, rem, R0, R1, 2, d, e) - F.ins(x, s + t, rem, R0, R1, 1, d, e) ** 2
                        return b ** 2 * v / (1 - F.ins(x, s, n, R0, R1, 1, d, e)) ** 2
                    if kind in ('whole life', 'endowment'):
                        add('net_policy_variance', f"{dt}, {kind}, {dur}", argf, variance, tmode=tm, setup=setup)
                    elif kind in ('term',):
                        add('net_policy_variance', f"{dt}, {kind} rejected, {dur}", argf, lambda it, w, kw: Raises(), tmode=tm, setup=setup,
                            rule='validation')

                    # gross
                    def gterms(w, kw, d=d, endow=endow):
                        c = contract_terms(d)
                        c['endowment'] = {None: R0, 'b': claims(c), 'e': 2 * claims(c)}[endow]
                        return c

                    def gbuild(it, klass, nm='gross_policy_value', setup=setup, tm=tm, d=d, gterms=gterms, r=r, kind=kind):
                        w = World(it, klass, interest=r, tmode=tm)
                        setup(w)
                        c = gterms(w, None)
                        kw = xs(w, t=w.dur, n=w.n)
                        F, x, s, t, n = w.F, w.x, w.s, w.dur, w.n
                        rem = n if neg(n) else F.term(x, s, n) - t
                        if nm == 'gross_policy_value':
                            want = (F.ins(x, s + t, rem, R0, claims(c), 1, d) + (R0 if neg(rem) else F.E(x, s + t, rem, c['endowment'], 1))
                                    + (initial(c) if t.is_zero() else R0) - profit(c) * F.ann(x, s + t, rem, R0, R1, d))
                        elif kind in ('term',):
                            want = Raises()
                        else:
                            e = None if neg(rem) else R1
                            rate = w.I.d if d else w.I.delta
                            want = (claims(c) + profit(c) / rate) ** 2 * (F.ins(x, s + t, rem, R0, R1, 2, d, e)
                                                                          - F.ins(x, s + t, rem, R0, R1, 1, d, e) ** 2)
                        kw['contract'] = mk_contract(it, c)
                        return w.obj, [], kw, want
                    out.append(Case(None, f"{dt}, {kind}, {dur}{tag}", gbuild, cls=cls, name='gross_policy_value'))
                    if kind in ('whole life', 'endowment', 'term'):
                        out.append(Case(None, f"{dt}, {kind}, {dur}{tag}",
                                        lambda it, c, g=gbuild: g(it, c, nm='gross_policy_variance'), cls=cls, name='gross_policy_variance',
                                        rule='validation' if kind == 'term' else 'contract'))
            for given in (('A',), ('a',), ('A', 'a')):
                if r == 'zero' and given != ('A', 'a'):
                    continue

                def gl(it, klass, given=given, d=d, r=r):
                    w = World(it, klass, interest=r)
                    c = contract_terms(d)
                    kw = {k: {'A': A(), 'a': a()}[k] for k in given}
                    rate = w.I.d if d else w.I.delta
                    Av = kw.get('A') if 'A' in kw else 1 - rate * a()
                    av = kw.get('a') if 'a' in kw else (1 - A()) / rate
                    want = Av * claims(c) + initial(c) - profit(c) * av
                    kw['contract'] = mk_contract(it, c)
                    return w.obj, [], kw, want
                out.append(Case(None, f"{dt}, {' and '.join(given)} given{tag}", gl, cls=cls, name='gross_future_loss'))
            if r == 'pos':
                def gv(it, klass, d=d):
                    w = World(it, klass)
                    c = contract_terms(d)
                    rate = w.I.d if d else w.I.delta
                    return w.obj, [], {'A1': A1(), 'A2': A2(), 'contract': mk_contract(it, c)}, \
                        (claims(c) + profit(c) / rate) ** 2 * (A2() - A1() ** 2)
                out.append(Case(None, dt, gv, cls=cls, name='gross_variance_loss'))
    return out


def contract_cases():
    out = []

    def views(c, t=None):
        def chk(it, r, obj):
            o = r if t is not None else obj
            und = None
            c2 = dict(c)
            if t is not None:
                c2['initial_policy'], c2['initial_premium'] = c['renewal_policy'], c['renewal_premium']
                if not neg(c['T']):
                    c2['T'] = c['T'] - t
            items = [(k, v) for k, v in c2.items() if not (k == 'T' and neg(v))]
            items += [('claims_cost', claims(c2)), ('renewal_profit', profit(c2)), ('initial_cost', initial(c2)),
                      ('premium_terms', {k: c2[k] for k in ('benefit', 'initial_policy', 'initial_premium', 'renewal_policy',
                                                            'renewal_premium', 'settlement_policy')})]
            for nm, want in items:
                try:
                    got = it.getattr(o, nm)
                except ip.SubjectRaise as e:
                    return False, f"{nm} raises {e.name}: {e.msg}"
                z = compare(got, want, None, it.trace.subs)
                if z == 'ne':
                    return False, f"{nm} is {got!r}, must be {want!r}"
                if z != 'eq':
                    und = und or f"{nm}: {z}"
            if neg(c2['T']):
                tv = it.getattr(o, 'T')
                if al.sign(ip.num(tv)) not in ('-',):
                    return (None if al.sign(ip.num(tv)) == '?' else False), f"term is {tv!r}: no longer whole life"
            if t is not None:
                for k, v in c.items():
                    got = it.getattr(obj, k)
                    if compare(got, v, None, it.trace.subs) == 'ne':
                        return False, f"original contract's {k} changed to {got!r}"
            return (None, und) if und else (True, '')
        return chk
    for d in (True, False):
        for T in (None, 'T'):
            def b1(it, cls, d=d, T=T):
                c = contract_terms(d, T)
                return Obj(cls), [], dict(c), views(c)
            out.append(Case('Contract.__init__', f"discrete={d}, {'whole life' if T is None else 'term'}", b1, cls='Contract', name='__init__'))

            def b2(it, cls, d=d, T=T):
                c = contract_terms(d, T)
                o = mk_contract(it, c)
                t = pint('t')
                if T is not None:
                    al.CTX.facts.append(((c['T'] - t - 1).n, False))
                return o, [], {'t': t}, views(c, t)
            out.append(Case('Contract.renewals', f"discrete={d}, {'whole life' if T is None else 'term'}", b2, cls='Contract', name='renewals'))

            def b3(it, cls, d=d, T=T):
                c = contract_terms(d, T)
                o = it.instantiate(cls, [], {})
                return o, [], dict(c), (lambda it, r, obj, c=c: views(c)(it, r, obj) if r is obj else (False, "does not return the contract"))
            out.append(Case('Contract.set_contract', f"discrete={d}, {'whole life' if T is None else 'term'}", b3, cls='Contract', name='set_contract'))
    for k in TERMS:
        def b4(it, cls, k=k):
            c = contract_terms(True)
            o = mk_contract(it, c)
            new = sym('new', 'pos')
            return o, [], {k: new}, views({**c, k: new})
        out.append(Case('Contract.set_contract', f"only {k}", b4, cls='Contract', name='set_contract'))

    def b5(it, cls):
        dflt = {'premium': R1, 'initial_policy': R0, 'initial_premium': R0, 'renewal_policy': R0, 'renewal_premium': R0,
                'settlement_policy': R0, 'benefit': R1, 'endowment': R0, 'T': WHOLE, 'discrete': True}
        return Obj(cls), [], {}, views(dflt)
    out.append(Case('Contract.__init__', "terms omitted", b5, cls='Contract', name='__init__'))
    return out


# --- reserves -------------------------------------------------------------------------
def setup_reserves(it, w, **k):
    it.call_method(w.obj, w.obj.cls.find('__init__')[1], w.obj.cls.find('__init__')[0], [], {}) if False else None
    res = it.getattr(w.obj, 'set_reserves')
    it.call(res, [], k)


def init_life(it, w):
    """run the class's own constructor on the symbolic model object"""
    f = w.obj.cls.find('__init__')
    it.call_method(w.obj, f[1], f[0], [], {})
    for nm in ('interest', '_MAXAGE', '_MINAGE', '_RADIX'):
        w.obj.attrs.pop(nm, None)
    w.obj.writes.clear()


def reserve_cases(cls='Reserves'):
    out = []
    V = lambda n='V': sym(n)

    def annual(nm, t, rb, vzero=False, bzero=False, terms=True):
        back = nm == 't_V_backward'

        def build(it, c):
            w = World(it, c)
            init_life(it, w)
            v = R0 if vzero else V()
            key = t + 1 if back else t - 1
            setup_reserves(it, w, T=rat(40), V={key: v} if key else {})
            if key == 0:
                v = R0
            ben = sym('ben', 'pos')
            bf = ip.Builtin('benefit', lambda it, a, k, n: (R0 if bzero else rat(al.Atom('benefit', (ip.num(a[0]),)))))
            P, pp, pol = sym('P', 'pos'), sym('pp', 'frac'), sym('pol', 'pos')
            kw = xs(w, t=rat(t), premium=P, benefit=bf, reserve_benefit=rb)
            net = P
            if terms:
                kw.update(per_premium=pp, per_policy=pol)
                net = P * (1 - pp) - pol
            bt = R0 if bzero else rat(al.Atom('benefit', (rat(t + 1 if back else t),)))
            if back:
                p, q = w.F.p(w.x, w.s + t, R1), w.F.q(w.x, w.s + t, R1, R0)
                want = (p * v + q * (bt + (v if rb else R0))) * w.I.v(R1) - net
            else:
                p, q = w.F.p(w.x, w.s + t - 1, R1), w.F.q(w.x, w.s + t - 1, R1, R0)
                want = (v + net) / w.I.v(R1) - q * bt
                if not rb:
                    want = want / p
            return w.obj, [], kw, want
        out.append(Case(None, f"t={t}, reserve benefit={rb}{', reserve 0' if vzero else ''}{', benefit 0' if bzero else ''}{'' if terms else ', no expenses'}",
                        build, cls=cls, name=nm))
    for nm in ('t_V_backward', 't_V_forward'):
        for t in ((0, 3, 10) if nm == 't_V_backward' else (1, 3, 11)):
            for rb in (True, False):
                annual(nm, t, rb)
        for rb in (True, False):
            annual(nm, 3, rb, terms=False)
            annual(nm, 3, rb, vzero=True)
            annual(nm, 3, rb, bzero=True)

        def none(it, c):
            w = World(it, c)
            init_life(it, w)
            setup_reserves(it, w, T=rat(40), V={20: V()})
            return w.obj, [], xs(w, t=rat(10), premium=sym('P', 'pos')), None
        out.append(Case(None, "adjacent reserve not known", none, cls=cls, name=nm))

    # t_V: known value, else forward, else backward, else nothing
    def tv(scen, keys, want, rb=None):
        def build(it, c):
            w = World(it, c)
            init_life(it, w)
            setup_reserves(it, w, T=rat(40), V={k: sym(f"V{k}") for k in keys})
            bf = ip.Builtin('benefit', lambda it, a, k, n: rat(al.Atom('benefit', (ip.num(a[0]),))))
            P = sym('P', 'pos')
            kw = xs(w, t=rat(10), premium=P, benefit=bf)
            b = lambda t: rat(al.Atom('benefit', (rat(t),)))
            F = w.F
            if rb is not None:
                pp, pol = sym('pp', 'frac'), sym('pol', 'pos')
                kw.update(per_premium=pp, per_policy=pol, reserve_benefit=rb)
                P = P * (1 - pp) - pol
            p9 = R1 if rb else F.p(w.x, w.s + 9, R1)
            wv = {'known': lambda: sym('V10'),
                  'forward': lambda: ((sym('V9') + P) / w.I.v(R1) - F.q(w.x, w.s + 9, R1, R0) * b(10)) / p9,
                  'backward': lambda: (F.p(w.x, w.s + 10, R1) * sym('V11') + F.q(w.x, w.s + 10, R1, R0) * (b(11) + (sym('V11') if rb else R0))) * w.I.v(R1) - P,
                  None: lambda: None}[want]()
            return w.obj, [], kw, wv
        out.append(Case(None, scen, build, cls=cls, name='t_V'))
    tv("already known", (9, 10, 11), 'known')
    tv("from previous year", (9,), 'forward')
    tv("from next year", (11,), 'backward')
    tv("not determined", (20,), None)
    for rb in (True, False):
        z = f", expenses, reserve benefit={rb}"
        tv("already known" + z, (9, 10, 11), 'known', rb)
        tv("from previous year" + z, (9,), 'forward', rb)
        tv("from next year" + z, (11,), 'backward', rb)
        tv("not determined" + z, (20,), None, rb)

    # fractional durations
    for nm in ('r_V_backward', 'r_V_forward'):
        for bz in (False, True):
            for whole in (0, 2):
                def frac(it, c, nm=nm, bz=bz, whole=whole):
                    w = World(it, c)
                    w.F.table = {k: v for k, v in sp.LIFE.items()}
                    init_life(it, w)
                    s = 5
                    key = s + whole + (1 if nm == 'r_V_backward' else 0)
                    setup_reserves(it, w, T=rat(40), V={key: V()})
                    r = sym('r', 'frac')
                    b = R0 if bz else sym('ben', 'pos')
                    kw = {'x': w.x, 's': rat(s), 'r': r + whole, 'benefit': b}
                    y = rat(s + whole)
                    v, F = V(), w.F
                    if nm == 'r_V_backward':
                        want = (F.p(w.x, y + r, 1 - r) * v + F.q(w.x, y + r, 1 - r, R0) * b) * w.I.v(1 - r)
                    else:
                        P = sym('P', 'pos')
                        kw['premium'] = P
                        want = ((v + P) / w.I.v(r) - F.q(w.x, y, r, R0) * b * w.I.v(1 - r)) / F.p(w.x, y, r)
                    return w.obj, [], kw, want
                out.append(Case(None, f"{'benefit 0, ' if bz else ''}{whole} whole years in duration", frac, cls=cls, name=nm))

        def fnone(it, c):
            w = World(it, c)
            init_life(it, w)
            setup_reserves(it, w, T=rat(40), V={20: V()})
            return w.obj, [], {'x': w.x, 's': rat(5), 'r': sym('r', 'frac')}, None
        out.append(Case(None, "adjacent reserve not known", fnone, cls=cls, name=nm))

    # full preliminary term
    for first in (True, False):
        for tm in ('whole', 'in'):
            def fp(w, first=first, tm=tm):
                return xs(w, b=w.b, first=first, **({} if tm == 'whole' else {'n': w.t + 1}))

            def fw(it, w, kw, first=first, tm=tm):
                F = w.F
                if first:
                    return F.ins(w.x, w.s, R1, R0, w.b, 1, True) / F.ann(w.x, w.s, R1, R0, R1, True)
                n = WHOLE if tm == 'whole' else w.t
                return F.ins(w.x, w.s + 1, n, R0, w.b, 1, True) / F.ann(w.x, w.s + 1, n, R0, R1, True)
            out.append(case(cls, 'FPT_premium', f"{'first year' if first else 'renewal'}, {tm}", fp, fw, tmode=tm))
    for t in (0, 1):
        out.append(case(cls, 'FPT_policy_value', f"t={t}", lambda w, t=t: xs(w, t=rat(t), b=w.b), lambda it, w, kw: R0, tmode='whole'))
    for d in (True, False):
        for kind in ('whole', 'term', 'endowment'):
            def fp(w, d=d, kind=kind):
                w.m = pint('m')
                lim = w.t if kind != 'whole' else w.h
                al.CTX.facts.append(((lim - w.m - 2).n, False))
                k = xs(w, t=w.m + 1, b=w.b, discrete=d)
                if kind != 'whole':
                    k['n'] = w.t
                if kind == 'endowment':
                    k['endowment'] = w.b
                return k

            def fw(it, w, kw, d=d, kind=kind):
                F = w.F
                n = WHOLE if kind == 'whole' else w.t - 1
                e = R0 if kind != 'endowment' else w.b
                rem = n if neg(n) else n - w.m
                ben = lambda s_, n_: F.ins(w.x, s_, n_, R0, w.b, 1, d) + (R0 if neg(n_) else F.E(w.x, s_, n_, e, 1))
                P = ben(w.s + 1, n) / F.ann(w.x, w.s + 1, n, R0, R1, d)
                return ben(w.s + 1 + w.m, rem) - P * F.ann(w.x, w.s + 1 + w.m, rem, R0, R1, d)
            out.append(case(cls, 'FPT_policy_value', f"{'discrete' if d else 'continuous'}, {kind}", fp, fw, tmode='whole' if kind == 'whole' else 'in'))

    # filling: the table satisfies the recursion everywhere
    for rb in (False, True):
        for n in (3, 5):
            def fill(it, c, rb=rb, n=n):
                w = World(it, c)
                init_life(it, w)
                e = sym('endow_v', 'pos')
                setup_reserves(it, w, T=rat(n), endowment=e)
                ct = contract_terms(True)
                ct['T'] = rat(n)
                F, I = w.F, w.I
                vals = [R0]
                for t in range(1, n):
                    pp, pol = (ct['initial_premium'], ct['initial_policy']) if t == 1 else (ct['renewal_premium'], ct['renewal_policy'])
                    v = (vals[-1] + ct['premium'] * (1 - pp) - pol) / I.v(R1) - F.q(w.x, w.s + t - 1, R1, R0) * ct['benefit']
                    if not rb:
                        v = v / F.p(w.x, w.s + t - 1, R1)
                    vals.append(v)
                vals.append(e)

                def chk(it, r, obj):
                    if r is not obj:
                        return False, "does not return the model"
                    und = None
                    fn = it.getattr(obj, 't_V')
                    for t in range(n + 1):
                        got = it.call(fn, [], {'x': w.x, 's': w.s, 't': rat(t), 'premium': sym('other', 'pos')})
                        z = compare(got, vals[t], None, it.trace.subs)
                        if z == 'ne':
                            return False, f"reserve at {t} is {got!r}, must be {vals[t]!r}"
                        if z != 'eq':
                            und = und or z
                    held = it.getattr(obj, '_reserves')
                    held = held.get('V') if isinstance(held, dict) else None
                    if isinstance(held, dict) and set(map(int, held)) != set(range(n + 1)):
                        return False, f"reserves are held at {sorted(map(int, held))}; must be 0 to {n}"
                    return (None, und) if und else (True, '')
                return w.obj, [], {'x': w.x, 's': w.s, 'reserve_benefit': rb, 'contract': mk_contract(it, ct)}, chk
            out.append(Case(None, f"T={n}, reserve benefit={rb}", fill, cls=cls, name='fill_reserves'))

    # what is set is what is known afterwards
    def setting(scen, calls, T, known, unknown=()):
        def build(it, c):
            w = World(it, c)
            init_life(it, w)
            for k in calls[:-1]:
                setup_reserves(it, w, **{n: v() for n, v in k.items()})

            def chk(it, r, obj):
                if r is not obj:
                    return False, "does not return the model"
                und = None
                z = compare(it.getattr(obj, 'T'), rat(T), None, it.trace.subs)
                if z == 'ne':
                    return False, f"term is {it.getattr(obj, 'T')!r}, must be {T}"
                und = z if z != 'eq' else None
                fn = it.getattr(obj, 't_V')
                for t, v in list(known.items()) + [(t, None) for t in unknown]:
                    v = v() if v else v
                    got = it.call(fn, [], {'x': w.x, 's': w.s, 't': rat(t), 'premium': sym('other', 'pos')})
                    z = compare(got, v, None, it.trace.subs)
                    if z == 'ne':
                        return False, f"reserve at {t} is {got!r}, must be {v!r}"
                    if z != 'eq':
                        und = und or z
                return (None, und) if und else (True, '')
            return w.obj, [], {n: v() for n, v in calls[-1].items()}, chk
        out.append(Case(None, scen, build, cls=cls, name='set_reserves'))
    s_ = lambda n: (lambda: sym(n))
    zero, ten = (lambda: R0), (lambda: rat(10))
    tab = lambda *ks: (lambda: {k: sym(f"V{k}") for k in ks})
    setting("term", [dict(T=ten)], 10, {0: zero, 10: zero}, (5,))
    setting("term and endowment", [dict(T=ten, endowment=s_('ev'))], 10, {0: zero, 10: s_('ev')}, (5,))
    setting("term and some reserves", [dict(T=ten, V=tab(3, 4), endowment=s_('ev'))], 10,
            {0: zero, 3: s_('V3'), 4: s_('V4'), 10: s_('ev')}, (7,))
    setting("term and all reserves before it", [dict(T=lambda: rat(5), V=tab(1, 2, 3, 4))], 5,
            {0: zero, 5: zero, **{k: s_(f"V{k}") for k in (1, 2, 3, 4)}})
    setting("reserves of every year", [dict(V=lambda: {0: R0, 1: sym('V1'), 2: sym('V2'), 3: sym('V3'), 4: R0})], 4,
            {0: zero, **{k: s_(f"V{k}") for k in (1, 2, 3)}})
    setting("reserves in two steps", [dict(T=ten, V=tab(3)), dict(V=tab(6))], 10,
            {0: zero, 3: s_('V3'), 6: s_('V6'), 10: zero}, (8,))
    setting("reserves again", [dict(T=ten, V=tab(3)), dict(V=lambda: {3: sym('U3')})], 10, {0: zero, 3: s_('U3')})
    setting("term later", [dict(V=lambda: {0: R0, 1: sym('V1')}), dict(T=ten, endowment=s_('ev'))], 10, {0: zero, 10: s_('ev')}, (5,))
    return out
