"""Mortality laws as rewrite systems on survival atoms (applied when comparing)."""
from . import algebra as al
from .algebra import rat, R0, R1, L, F, B, T, exp, log, Rat


def _split(y):
    if y.d is not al.PONE:
        return None
    i, f = al.split_int(y.n)
    return Rat(i), Rat(f)


def law(f):
    """law from an atom rewriter"""
    return lambda r: al.rewrite(r, f)


def ultimate():
    """no selection: survival depends on attained age only"""
    def f(k, a):
        if k == 'L':
            return L(R0, a[0] + a[1])
        if k == 'F':
            return F(R0, a[0] + a[1])
        return None
    return law(f)


def attained():
    """no selection, sums and integrals included: everything is expressed by attained age"""
    from math import comb

    def shift(mk, rho, p, x, y):
        out = R0
        for j in range(p + 1):
            out = out + al.ipow(-x, p - j) * comb(p, j) * mk(j, x + y)
        return exp(rho * x) * out

    def f(k, a):
        if k == 'L':
            return L(R0, a[0] + a[1])
        if k == 'F':
            return F(R0, a[0] + a[1])
        if k == 'B' and not a[2].is_zero():
            rho, p, x, y = a
            return shift(lambda j, z: B(rho, j, R0, z), rho, p, x, y)
        if k == 'T' and not a[3].is_zero():
            h, rho, p, x, y = a
            return shift(lambda j, z: T(h, rho, j, R0, z), rho, p, x, y)
        return None
    return law(f)


def udd():
    """uniform distribution of deaths between integer ages"""
    def f(k, a):
        if k == 'L':
            z = _split(a[1])
            if z and not z[1].is_zero():
                n, r = z
                return (R1 - r) * L(a[0], n) + r * L(a[0], n + 1)
        if k == 'F':
            z = _split(a[1])
            if z and not z[1].is_zero():
                return L(a[0], z[0]) - L(a[0], z[0] + 1)
        return None

    def g(k, a):
        if k == 'B' and a[0].is_zero() and a[1] == 0:
            rho, p, x, y = a
            z = _split(y)
            if z:
                n, r = z
                b = T(R1, R0, 0, x, n) - L(x, n) / 2
                if not r.is_zero():
                    b = b - (L(x, n) * r - (L(x, n) - L(x, n + 1)) * r * r / 2)
                return b
        return f(k, a)
    return law(g)


def cfm():
    """constant force of mortality between integer ages"""
    def f(k, a):
        if k in ('L', 'F'):
            z = _split(a[1])
            if z and not z[1].is_zero():
                n, r = z
                Ln, Lm = L(a[0], n), L(a[0], n + 1)
                v = exp((R1 - r) * log(Ln) + r * log(Lm))
                return v if k == 'L' else v * (log(Ln) - log(Lm))
        if k == 'B' and a[0].is_zero() and a[1] == 0:
            rho, p, x, y = a
            z = _split(y)
            if z:
                n, r = z
                out = R0
                j = al._shiftcoef(n, R1)
                base = n - j
                for i in range(j):
                    m = base + i
                    out = out - (L(x, m) - L(x, m + 1)) / (log(L(x, m)) - log(L(x, m + 1)))
                Ln, Lm = L(x, n), L(x, n + 1)
                if not r.is_zero():
                    v = exp((R1 - r) * log(Ln) + r * log(Lm))
                    out = out - (Ln - v) / (log(Ln) - log(Lm))
                return B(rho, p, x, base) + out
        return None
    return law(f)
