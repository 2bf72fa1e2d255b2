"""C24: term arithmetic and the numerical primitives of the base class denote what every other query assumes of them."""
from fractions import Fraction as Q
from . import algebra as al
from .algebra import rat, R0, R1, sym
from . import interp as ip
from .interp import Obj, Undecided, SubjectRaise
from .obl import Case, compare
from . import specs as sp
from .builtins_ import BUILTINS

TOL = Q(1, 10 ** 6)


def opaque(it, log=None, concrete=None):
    """a function the caller supplies: exact on concrete arguments if given, an unknown value elsewhere"""
    def f(it, a, k, n):
        x = it.force(a[0] if a else next(iter(k.values())))
        if not isinstance(x, al.Rat):
            raise SubjectRaise('TypeError', 'argument of the function is not a number', n)
        if log is not None:
            log.append(x)
        if concrete is not None and x.const() is not None:
            return concrete(x)
        return rat(al.Atom('disc', (x,)))
    return ip.Builtin('fun', f)


def F(x):
    return rat(al.Atom('disc', (x,)))


def same(it, a, b):
    return compare(a, b, None, it.trace.subs)


def bind(a, k, names):
    out = dict(zip(names, a))
    out.update(k)
    return out


def externals(it, log, box):
    """scipy: the mathematical object each routine denotes, with the arguments it was given recorded"""
    def quad(it, a, k, n):
        b = bind(a, k, ['func', 'a', 'b', 'args', 'full_output', 'epsabs', 'epsrel', 'limit', 'points', 'weight'])
        if b.get('weight') is not None or b.get('args') not in (None, ()):
            raise Undecided("weighted quadrature")
        z = sym('z', 'pos')
        box.append(('quad', it.call(b['func'], [z], {}, n), z, ip.num(b['a']), ip.num(b['b'])))
        y = rat(al.Atom('disc', (sym('quad'),)))
        return (y, sym('err', 'pos'), {}) if b.get('full_output') not in (None, False, 0) and not _zero(b.get('full_output')) else (y, sym('err', 'pos'))

    def deriv(it, a, k, n):
        b = bind(a, k, ['f', 'x'])
        if b.get('args') not in (None, ()) or 'step_direction' in b:
            raise Undecided("one-sided derivative")
        # the routine evaluates its function at several points at once
        z = sym('z', 'pos')
        y = it.force(it.call(b['f'], [array(z)], {}, n))
        if isinstance(y, Obj) and 'elem' in y.attrs:
            y = y.attrs['elem']
        elif not isinstance(y, al.Rat):
            raise Undecided("function of an array")
        box.append(('derivative', y, z, ip.num(b['x'])))
        o = Obj(None, name='result')
        o.attrs.update(df=rat(al.Atom('disc', (sym('deriv'),))), x=ip.num(b['x']), success=True, error=sym('err', 'pos'), status=R0, nit=R1, nfev=R1)
        return o

    def array(z):
        o = Obj(None, name='array')
        o.attrs['elem'] = z
        return o

    def vectorize(it, a, k, n):
        b = bind(a, k, ['pyfunc'])
        if b.get('signature') is not None or b.get('excluded') is not None:
            raise Undecided("vectorize")
        f = b['pyfunc']

        def g(it, a, k, n):
            xs = [it.force(x) for x in a]
            one = [x for x in xs if isinstance(x, Obj) and 'elem' in x.attrs]
            y = it.call(f, [x.attrs['elem'] if x in one else x for x in xs], k, n)
            return array(y) if one else y
        return ip.Builtin('vectorized', g)

    def fsolve(it, a, k, n):
        b = bind(a, k, ['func', 'x0', 'args', 'fprime', 'full_output'])
        if b.get('args') not in (None, ()):
            raise Undecided("root of a function with arguments")
        x0 = it.force(b['x0'])
        guess = x0 if isinstance(x0, al.Rat) else (x0[0] if isinstance(x0, (list, tuple)) and len(x0) == 1 else None)
        if guess is None:
            raise Undecided("system of equations")
        if isinstance(guess, (list, tuple)):
            if len(guess) > 1:      # as many unknowns as guesses: a function of a number is given an array
                raise ip.SubjectRaise('TypeError', 'only length-1 arrays can be converted to Python scalars', n)
            guess = guess[0]
        r = sym('root')
        box.append(('root', it.call(b['func'], [r], {}, n), r, ip.num(guess)))
        log.clear()
        full = b.get('full_output')
        return ([r], {}, R1, '') if full not in (None, False) and not _zero(full) else [r]

    def root(it, a, k, n):
        b = bind(a, k, ['f', 'args'])
        r = sym('root')
        box.append(('root', it.call(b['f'], [r], {}, n), r, None))
        log.clear()
        o = Obj(None, name='result')
        o.attrs.update(root=r, converged=True)
        return o

    def minimize(it, a, k, n):
        b = bind(a, k, ['fun', 'bracket', 'bounds'])
        r = sym('root')
        box.append(('min', it.call(b['fun'], [r], {}, n), r, it.force(b.get('bracket', b.get('bounds')))))
        log.clear()
        o = Obj(None, name='result')
        o.attrs.update(x=r, fun=F(r), success=True)
        return o

    def linspace(it, a, k, n):
        b = bind(a, k, ['start', 'stop', 'num', 'endpoint'])
        lo, hi, m = ip.num(b['start']), ip.num(b['stop']), ip.num(b.get('num', rat(50))).const()
        if m is None or m < 2 or b.get('endpoint', True) is not True:
            raise Undecided("linspace")
        return [lo + (hi - lo) * rat(Q(i, int(m) - 1)) for i in range(int(m))]

    def isclose(it, a, k, n):
        b = bind(a, k, ['a', 'b'])
        x, y = ip.num(it.force(b['a'])).const(), ip.num(it.force(b['b'])).const()
        rel, ab = ip.num(b.get('rel_tol', rat(Q(1, 10 ** 9)))).const(), ip.num(b.get('abs_tol', R0)).const()
        if None in (x, y, rel, ab):
            raise Undecided("closeness of unknown values")
        return abs(x - y) <= max(rel * max(abs(x), abs(y)), ab)
    it.ext = {**it.ext, 'scipy.integrate.quad': quad, 'scipy.differentiate.derivative': deriv, 'numpy.vectorize': vectorize,
              'numpy.frompyfunc': lambda it, a, k, n: vectorize(it, a[:1], {}, n), 'scipy.optimize.fsolve': fsolve,
              'scipy.optimize.root_scalar': root, 'scipy.optimize.minimize_scalar': minimize, 'numpy.linspace': linspace,
              'math.isclose': isclose, 'numpy.isclose': isclose}


def abs_args(v):
    out = []
    al.rewrite(v, lambda k, a: out.append(a[0]) if k == 'abs' else None)
    return out


def _zero(v):
    return isinstance(v, al.Rat) and v.is_zero()


def cases(model, tier='quick'):
    out = []

    def case(name, scen, build):
        def b(it, cls):
            log, box = [], []
            externals(it, log, box)
            obj = Obj(cls)
            obj.attrs['_MAXAGE'] = sym('omega', 'nonneg', 'int')
            return build(it, obj, log, box)
        out.append(Case(f'Actuarial.{name}', scen, b, cls='Actuarial', name=name))

    # integral
    def integ(it, obj, log, box, kw=False):
        lo, hi = sym('lo', 'nonneg'), sym('hi', 'pos')

        def chk(it, r, o):
            q = [z for z in box if z[0] == 'quad']
            if not q:
                return None, "integral not computed by a recognised routine"
            _, v, z, a, b = q[-1]
            for got, want, what in ((v, F(z), 'integrand'), (a, lo, 'lower limit'), (b, hi, 'upper limit'), (r, F(sym('quad')), 'result')):
                c = same(it, got, want)
                if c == 'ne':
                    return False, f"{what} is {got!r}, must be {want!r}"
                if c != 'eq':
                    return None, c
            return True, ''
        f = opaque(it)
        return obj, ([] if kw else [f, lo, hi]), ({'fun': f, 'lower': lo, 'upper': hi} if kw else {}), chk
    case('integral', 'any function and limits', integ)
    case('integral', 'any function and limits, by name', lambda *a: integ(*a, kw=True))

    def deriv(it, obj, log, box, kw=False):
        x = sym('x', 'pos')

        def chk(it, r, o):
            q = [z for z in box if z[0] == 'derivative']
            if not q:
                return None, "derivative not computed by a recognised routine"
            _, v, z, at = q[-1]
            for got, want, what in ((v, F(z), 'function'), (at, x, 'point'), (r, F(sym('deriv')), 'result')):
                c = same(it, got, want)
                if c == 'ne':
                    return False, f"{what} is {got!r}, must be {want!r}"
                if c != 'eq':
                    return None, c
            return True, ''
        f = opaque(it)
        return obj, ([] if kw else [f, x]), ({'fun': f, 'x': x} if kw else {}), chk
    case('derivative', 'any function and point', deriv)
    case('derivative', 'any function and point, by name', lambda *a: deriv(*a, kw=True))

    # roots
    for tag, grid, tgt in (('single guess', rat(Q(7, 2)), None), ('two guesses', [R0, rat(8)], 4), ('range of guesses', (rat(3), rat(1), rat(9)), 2), ('unordered guesses', [rat(8), R0], 1),
                           ('negative range', [rat(-4), R0], -3)):
        def b(it, obj, log, box, grid=grid, tgt=tgt):
            f = opaque(it, log, (lambda x: x) if tgt is not None else None)
            t = rat(tgt) if tgt is not None else sym('target')

            def chk(it, r, o):
                q = [z for z in box if z[0] == 'root']
                if not q and any(z[0] == 'min' for z in box):
                    return False, "minimises a function where a root was asked for"
                if not q:
                    return None, "root not computed by a recognised routine"
                _, v, z, guess = q[-1]
                w = F(z) - t
                if same(it, v, w) == 'ne' and same(it, v, -w) == 'ne':
                    return False, f"solves {v!r} = 0, must be {w!r} = 0"
                c = same(it, r, z)
                if c != 'eq':
                    return (False if c == 'ne' else None), f"returns {r!r}, not the root"
                if not log or same(it, log[-1], z) != 'eq':
                    return False, "the function is not left evaluated at the root that is returned"
                if guess is not None:
                    gs = [grid] if isinstance(grid, al.Rat) else list(grid)
                    lo, hi = min(g.const() for g in gs), max(g.const() for g in gs)
                    g = guess.const()
                    if g is None:
                        return None, "starting point unknown"
                    if not lo <= g <= hi:
                        return False, f"starts at {g}, outside the given range {lo}..{hi}"
                return True, ''
            return obj, [f, t, list(grid) if isinstance(grid, list) else grid], {}, chk
        case('solve', f'root, {tag}', b)

    def mad(it, obj, log, box):
        f, t = opaque(it, log), sym('target')

        def chk(it, r, o):
            q = [z for z in box if z[0] == 'min']
            if not q and any(z[0] == 'root' and same(it, z[1], F(z[2]) - t) == 'eq' for z in box):
                return False, "solves for a root where the least absolute difference was asked for"
            if not q:
                return None, "minimum not computed by a recognised routine"
            _, v, z, within = q[-1]
            if within is not None and (not isinstance(within, (list, tuple)) or any(not isinstance(g, al.Rat) or not 0 <= (g.const() if g.const() is not None else -1) <= 8 for g in within)):
                return False if not isinstance(within, (list, tuple, Obj)) else None, f"searches {within!r}, must be the range given"
            d = F(z) - t
            if not any(al.req(v, w) for w in (BUILTINS['abs'](it, [d], {}, None), BUILTINS['abs'](it, [-d], {}, None), d * d)):
                for e in abs_args(v):       # |e| where e is not the difference, whatever its sign
                    if all(same(it, e, w) == 'ne' for w in (d, -d)):
                        return False, f"minimises {v!r}, must be the absolute difference from the target"
                c = same(it, v, d)
                return (False if c == 'ne' or not al.has_kind(v, {'abs'}) else None), f"minimises {v!r}, must be the absolute difference from the target"
            c = same(it, r, z)
            return (True, '') if c == 'eq' else ((False if c == 'ne' else None), f"returns {r!r}, not the minimiser")
        return obj, [f, t, [R0, rat(8)]], {'mad': True}, chk
    case('solve', 'least absolute difference', mad)

    # closeness
    near = [(Q(0), None, None, True), (TOL / 2, None, None, True), (TOL * 2, None, None, False), (-TOL / 2, None, None, True), (-TOL * 2, None, None, False),
            (Q(1), None, None, False), (Q(-1), None, None, False),
            (Q(1) + TOL / 2, Q(1), None, True), (Q(1) + TOL * 2, Q(1), None, False), (Q(1) - TOL / 2, Q(1), None, True), (Q(2), Q(-2), None, False), (Q(3, 2), Q(3, 2), None, True),
            (Q(11, 10), Q(1), Q(1, 5), True), (Q(11, 10), Q(1), Q(1, 20), False), (Q(9, 10), Q(1), Q(1, 5), True), (Q(1, 10), None, Q(1, 5), True)]
    for r, t, tol, want in near:
        kw = {k: rat(v) for k, v in (('target', t), ('abs_tol', tol)) if v is not None}
        case('isclose', f"{r} against {t if t is not None else 'default'}, tolerance {tol if tol is not None else 'default'}",
             lambda it, obj, log, box, r=r, kw=kw, want=want: (obj, [rat(r)], kw, want))

    # terms
    W = rat(-999)
    n = lambda s: sym(s, 'nonneg', 'int')
    p = lambda s: sym(s, 'nonneg')
    case('add_term', 'two terms', lambda it, o, l, b: (o, [n('t'), n('n')], {}, n('t') + n('n')))
    case('add_term', 'two fractional terms', lambda it, o, l, b: (o, [p('t'), p('n')], {}, p('t') + p('n')))
    case('add_term', 'whole life and term', lambda it, o, l, b: (o, [W, n('n')], {}, W))
    case('add_term', 'term and whole life', lambda it, o, l, b: (o, [n('t'), W], {}, W))
    case('add_term', 'both whole life', lambda it, o, l, b: (o, [W, W], {}, W))
    case('add_term', 'zero and zero', lambda it, o, l, b: (o, [R0, R0], {}, R0))
    case('add_term', 'term less a year', lambda it, o, l, b: (o, [n('t') + 1, rat(-1)], {}, n('t')))

    def mt(scen, x, t, u, want, slack=None):
        def b(it, o, l, bx):
            om = sym('omega', 'nonneg', 'int')
            X, T, U = x(), t(), u() if u else R0
            if slack is not None:
                # limiting age in terms of the others
                o.attrs['_MAXAGE'] = om = slack(X, T, U)
            return o, [X, T] + ([U] if u else []), {}, want(om, X, T, U)
        case('max_term', scen, b)
    rest = lambda om, X, T, U: om - (X + U)
    same_t = lambda om, X, T, U: T
    for tag, u in (('', None), (', deferred', lambda: n('u'))):
        mt(f"whole life{tag}", lambda: n('x'), lambda: W, u, rest)
        mt(f"within the limiting age{tag}", lambda: n('x'), lambda: n('t'), u, same_t, lambda X, T, U: X + T + U + n('k'))
        mt(f"to the limiting age{tag}", lambda: n('x'), lambda: n('t'), u, same_t, lambda X, T, U: X + T + U)
        mt(f"past the limiting age{tag}", lambda: n('x'), lambda: n('t') + n('k') + 1, u, rest, lambda X, T, U: X + n('t') + U)
        mt(f"no term{tag}", lambda: n('x'), lambda: R0, u, same_t, lambda X, T, U: X + U + n('k'))
        mt(f"fractional term within the limiting age{tag}", lambda: n('x'), lambda: p('r'), u, same_t, lambda X, T, U: X + T + U + p('k'))
    return out + select_terms()


def select_terms():
    """SelectLife: limiting age is one past the last age with an ultimate rate"""
    out = []
    tables = {'more ages than select years': ({x: 2 for x in range(65, 70)}, 2), 'fewer ages than select years': ({65: 3, 66: 3}, 3), 'no select years': ({x: 0 for x in range(40, 44)}, 0),
              'last rows without ultimate rate': ({65: 2, 66: 2, 67: 2, 68: 1, 69: 0}, 2), 'no ultimate rates': ({65: 0, 66: 0}, 1)}
    for tag, (rows, P) in tables.items():
        lim = max([max(rows)] + [x + P + 1 for x, k in rows.items() if k == P])
        x0 = min(rows)
        for scen, t, u, want in (('whole life', -999, 0, lim - x0), ('deferred whole life', -999, 2, lim - x0 - 2), ('to the limiting age', lim - x0, 0, lim - x0), ('past the limiting age', lim - x0 + 1, 0, lim - x0),
                                 ('deferred past the limiting age', lim - x0, 1, lim - x0 - 1), ('one year', 1, 0, min(1, lim - x0))):
            def b(it, cls, rows=rows, P=P, t=t, u=u, want=want, x0=x0):
                o = Obj(cls)
                q = {rat(x): {rat(s): (rat(Q(1, 10)) if s <= k else None) for s in range(P + 1)} for x, k in rows.items()}
                o.attrs.update(_MAXAGE=rat(max(rows)), _MINAGE=rat(x0), periods_=rat(P), _verbose=R0,
                               _select={'l': {}, 'd': {}, 'q': q, 'e': {}, 'A': {}, 'a': {}})
                return o, [rat(x0), rat(t)] + ([rat(u)] if u else []), {}, rat(want)
            out.append(Case('SelectLife.max_term', f"{tag}, {scen}", b, cls='SelectLife', name='max_term'))
    return out
