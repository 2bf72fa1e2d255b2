"""Disequality witness for two abstract values the normal form cannot tell apart.

The abstract domain is canonical except for a few constructors (nested quotients,
absolute values, truncation, logarithms of sums).  For a pair that stays open
because of those, the two *expressions* are evaluated at a few points of the
domain of their symbols (flags and recorded facts respected, survival functions
replaced by one concrete life table).  A clear difference shows that they denote
different functions; agreement shows nothing and the pair stays undecided.
Nothing of the subject is executed: only normal forms are evaluated.
"""
import math
import random
from . import algebra as al
from .algebra import Rat


class NoValue(Exception):
    pass


def _l(x, y):
    """a concrete select life table, smooth in the duration"""
    if y > 400:
        return 0.0
    z = 0.013 * y + 0.0007 * x * y / (1 + y) + (0.002 / 0.07) * (math.exp(min(0.07 * (0.3 * x + y), 60.)) - math.exp(0.021 * x))
    return 1000 * math.exp(-min(z, 600.))


def _pseudo(kind, args):
    h = 0.0
    for n, a in enumerate(args):
        h += math.sin(1.7 * a + 0.9 * n + len(kind))
    return 1.1 + 0.2 * h


class Eval:
    def __init__(self, env, life, interp=None):
        self.env, self.life, self.memo, self.n = env, life, {}, 0
        self.interp, self.om = interp, None
        if life and al.CTX.omega is not None:
            self.om = self.rat(al.CTX.omega)

    def surv(self, x, y):
        """lives of the concrete table: none at the limiting age, interpolated when the scenario says how"""
        def base(z):
            if self.om is not None:
                return max(0.0, 1 - (x + z) / self.om) * _l(x, z) if x + z < self.om - 1e-9 else 0.0
            return _l(x, z)
        if self.interp is None:
            return base(y)
        k = math.floor(y + 1e-9)
        r = max(0.0, y - k)
        if r < 1e-9:
            return base(float(k))
        a, b = base(float(k)), base(float(k + 1))
        if self.interp == 'udd':
            return a * (1 - r) + b * r
        if a <= 0 or b <= 0:
            raise NoValue
        return a * (b / a) ** r

    def dens(self, x, y):
        h = 1e-5
        if self.interp is not None and min(y - math.floor(y), math.ceil(y) - y) < 1e-3:
            raise NoValue
        return (self.surv(x, y - h) - self.surv(x, y + h)) / (2 * h)

    def rat(self, r):
        d = self.poly(r.d) if r.d is not al.PONE else 1.0
        if abs(d) < 1e-9:
            raise NoValue
        return self.poly(r.n) / d

    def poly(self, p):
        out = 0.0
        for (m, e), c in p.t.items():
            z = float(c)
            for a, n in m:
                v = self.atom(a)
                if n < 0 and abs(v) < 1e-9:
                    raise NoValue
                z *= v ** n
            if e.t:
                q = self.poly(e)
                if abs(q) > 60:
                    raise NoValue
                z *= math.exp(q)
            out += z
        if abs(out) > 1e12:
            raise NoValue
        return out

    def atom(self, a):
        v = self.memo.get(a)
        if v is None:
            self.n += 1
            v = self._atom(a)
            if isinstance(v, complex) or v != v:
                raise NoValue
            self.memo[a] = v
        return v

    def _atom(self, a):
        k = a.kind
        if k == 'sym':
            if a.args[0] not in self.env:
                raise NoValue
            return self.env[a.args[0]]
        v = [self.rat(z) if isinstance(z, Rat) else z for z in a.args]
        if k == 'RAT':
            return v[0]
        if k == 'log':
            if v[0] <= 1e-9:
                raise NoValue
            return math.log(v[0])
        if k == 'abs':
            return abs(v[0])
        if k in ('floor', 'ceil', 'trunc'):
            if abs(v[0] - round(v[0])) < 1e-6:
                raise NoValue
            return float({'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc}[k](v[0]))
        if k == 'ncdf':
            return 0.5 * (1 + math.erf(v[0] / math.sqrt(2)))
        if k in ('benefit', 'mu') and all(isinstance(z, float) for z in v):
            return _pseudo(k, v)
        if self.life:
            if k == 'L':
                return self.surv(*v)
            if k == 'F':
                return self.dens(*v)
            if k == 'T':
                h, rho, p, x, y = v
                if h < 1e-3 or rho < -0.5:
                    raise NoValue
                out, j = 0.0, 0
                while j < 20000:
                    z = y + h * j
                    l = self.surv(x, z)
                    t = z ** p * math.exp(-rho * z) * l
                    out += t
                    if z > 5 and (abs(t) < 1e-13 * max(abs(out), 1e-9) or (self.om is not None and x + z > self.om)):
                        return out
                    j += 1
                raise NoValue
            if k == 'B':
                rho, p, x, y = v
                if rho < -0.5:
                    raise NoValue
                top = max(y, 0) + 150.0 if self.om is None else self.om - x
                if top <= y:
                    return 0.0
                g = lambda z: z ** p * math.exp(-rho * z) * self.surv(x, z)
                if self.interp is None:
                    return _simpson(g, y, top, 4000)
                cuts = [y] + [float(z) for z in range(math.floor(y) + 1, math.ceil(top))] + [top]
                return sum(_simpson(g, a, b, 8) for a, b in zip(cuts, cuts[1:]))
        raise NoValue


def _simpson(g, a, b, n):
    h = (b - a) / n
    e = 1e-10 * (b - a)        # one-sided values at the ends
    return h / 3 * (g(a + e) + g(b - e) + 4 * sum(g(a + h * j) for j in range(1, n, 2)) + 2 * sum(g(a + h * j) for j in range(2, n, 2)))


def _draw(name, fl, rng):
    if 'frac' in fl:
        return rng.uniform(0.07, 0.93)
    if 'int' in fl:
        lo = 1 if 'pos' in fl else 0 if 'nonneg' in fl else -3
        return float(rng.randint(lo, lo + rng.choice((4, 12, 40))))
    if name in ('delta', 'd', 'i'):
        return rng.uniform(0.01, 0.25)
    if 'pos' in fl or 'nonneg' in fl:
        return math.exp(rng.uniform(-3, 1.2))
    return rng.uniform(-1.5, 2.0)


def reached(trace):
    """True when points of the domain are found where every branch the trace took is taken"""
    return differs(al.R1, al.R0, trace.apart, conds=trace.conds)


def differs(g, w, apart=(), points=4, tries=1500, conds=(), interp=None):
    """True when the two values are shown to denote different functions (where the conditions hold)"""
    if al.opaque_reason(g) or al.opaque_reason(w):
        return False
    facts = [(p, st) for p, st in al.CTX.facts]
    names = set(g.syms() | w.syms())
    for r, _ in conds:
        names |= r.syms()
    for r in apart if conds else ():
        names |= r.syms()
    if al.CTX.omega is not None:
        names |= al.CTX.omega.syms()
    todo = True
    while todo:                 # facts linked to the symbols
        todo = False
        for p, st in facts:
            if p.syms() & names and not p.syms() <= names:
                names |= p.syms()
                todo = True
    facts = [(p, st) for p, st in facts if p.syms() & names]
    apart = [r for r in apart if r.syms() <= names]
    if any(n.startswith('$') for n in names):
        return False
    rng = random.Random(20240229)
    good = bad = tested = 0
    for _ in range(tries):
        env = {n: _draw(n, al.flags(n), rng) for n in sorted(names)}
        try:
            ev = Eval(env, True, interp)
            if any((z := ev.poly(p)) < 0 or (st and z <= 1e-9) for p, st in facts):
                continue
            if any(abs(ev.rat(r)) < 1e-6 for r in apart):
                continue
            if any(ev.rat(r) < 1e-6 for r, _ in conds):
                continue
            tested += 1
            a, b = ev.rat(g), ev.rat(w)
        except (NoValue, OverflowError, ZeroDivisionError, ValueError, TypeError):
            if not names:
                return False
            continue
        if abs(a - b) > 1e-5 * max(abs(a), abs(b), 1e-3):
            good += 1
        else:
            bad += 1
        if good >= points:
            return True
        if bad >= points or tested >= 60:
            return False
    return False
