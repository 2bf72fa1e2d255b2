"""Canonical value domain of the analyser: commutation-function algebra.

A value is a ratio of generalised Laurent polynomials: sums of terms
    q * prod(atom**int) * exp(P)
with rational q, interned atoms and P itself such a polynomial.  The domain
knows the (algebraic) identities of life-contingency mathematics:

  v = exp(-delta), i = exp(delta)-1, d = 1-exp(-delta), log/exp/power laws,
  L(x,y)      lives aged [x]+y  (only ratios are ever observable)
  F(x,y)      -dL/dy
  T(h,rho,p,x,y)  sum_{j>=0} (y+hj)^p exp(-rho (y+hj)) L(x,y+hj)  (tails)
  B(rho,p,x,y)    int_y^infty z^p exp(-rho z) L(x,z) dz

Sums and integrals of expressions that are linear in L are rewritten to tails,
so that e.g. A = 1 - d*a, (IA)+(DA) identities and every recursion formula are
decided by normalisation.  Nothing here executes code of the subject.
"""
import math
from fractions import Fraction as Q

ZERO = Q(0)
ONE = Q(1)


class AlgebraError(Exception):
    pass


# ---------------------------------------------------------------- atoms ----
class Atom:
    __slots__ = ("kind", "args", "id", "_h", "syms")
    _table = {}
    _n = 0

    def __new__(cls, kind, args):
        key = (kind, tuple(a.key() if isinstance(a, Rat) else a for a in args))
        a = cls._table.get(key)
        if a is None:
            a = object.__new__(cls)
            a.kind = kind
            a.args = tuple(args)
            Atom._n += 1
            a.id = Atom._n
            a._h = hash(key)
            s = set()
            if kind == 'sym':
                s.add(args[0])
            for z in args:
                if isinstance(z, Rat):
                    s |= z.syms()
            a.syms = frozenset(s)
            cls._table[key] = a
        return a

    def __hash__(self):
        return self._h

    def __eq__(self, other):
        return self is other

    def __repr__(self):
        if self.kind == 'sym':
            return self.args[0]
        return f"{self.kind}({', '.join(str(a) for a in self.args)})"


_EMPTY = frozenset()


class Poly:
    """immutable generalised polynomial: {(mono, expo): Fraction}"""
    __slots__ = ("t", "_k", "_h", "_s")

    def __init__(self, t):
        self.t = t
        self._k = None
        self._h = None
        self._s = None

    def key(self):
        if self._k is None:
            self._k = frozenset(self.t.items())
        return self._k

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.key())
        return self._h

    def __eq__(self, other):
        return isinstance(other, Poly) and self.t == other.t

    def is_zero(self):
        return not self.t

    def syms(self):
        if self._s is None:
            s = set()
            for (m, e) in self.t:
                for a, _ in m:
                    s |= a.syms
                s |= e.syms()
            self._s = frozenset(s)
        return self._s

    def __add__(self, o):
        t = dict(self.t)
        for k, c in o.t.items():
            n = t.get(k, ZERO) + c
            if n:
                t[k] = n
            else:
                t.pop(k, None)
        return Poly(t)

    def __neg__(self):
        return Poly({k: -c for k, c in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def scale(self, q):
        return Poly({k: c * q for k, c in self.t.items()}) if q else PZERO

    def __mul__(self, o):
        t = {}
        for (m1, e1), c1 in self.t.items():
            for (m2, e2), c2 in o.t.items():
                k = (_mmul(m1, m2), e1 if not e2.t else (e2 if not e1.t else e1 + e2))
                n = t.get(k, ZERO) + c1 * c2
                if n:
                    t[k] = n
                else:
                    t.pop(k, None)
        if len(t) > 6000:
            raise AlgebraError("expression too large")
        return Poly(t)

    def const(self):
        """Fraction if constant else None"""
        if not self.t:
            return ZERO
        if len(self.t) == 1:
            (k, c), = self.t.items()
            if k == _ONEKEY:
                return c
        return None

    def __repr__(self):
        if not self.t:
            return "0"
        out = []
        for (m, e), c in sorted(self.t.items(), key=lambda z: str(sorted(map(str, z[0][0]))) + str(z[0][1])):
            f = []
            if c != 1 or (not m and not e.t):
                f.append(str(c))
            for a, n in sorted(m, key=lambda z: str(z[0])):
                f.append(str(a) if n == 1 else f"{a}^{n}")
            if e.t:
                f.append(f"exp({e})")
            out.append("*".join(f))
        return " + ".join(out)


def _mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, n in m2:
        k = d.get(a, 0) + n
        if k:
            d[a] = k
        else:
            d.pop(a, None)
    return frozenset(d.items())


PZERO = Poly({})
_ONEKEY = (_EMPTY, PZERO)
PONE = Poly({_ONEKEY: ONE})


class Rat:
    __slots__ = ("n", "d", "_key", "_s")
    _reg = []

    def __init__(self, n, d=PONE):
        if d is not PONE:
            if d.is_zero():
                raise ZeroDivisionError("symbolic division by zero")
            n, d = _norm(n, d)
        self.n = n
        self.d = d
        self._key = None
        self._s = None

    def key(self):
        if self._key is None:
            if self.d is PONE:
                self._key = self.n.key()
            else:
                for r, k in Rat._reg:
                    if req(r, self):
                        self._key = k
                        break
                else:
                    k = ('R', len(Rat._reg))
                    Rat._reg.append((self, k))
                    self._key = k
        return self._key

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        return isinstance(o, Rat) and req(self, o)

    def syms(self):
        if self._s is None:
            self._s = self.n.syms() | self.d.syms()
        return self._s

    def __add__(self, o):
        o = rat(o)
        if self.d == o.d:
            return Rat(self.n + o.n, self.d)
        return Rat(self.n * o.d + o.n * self.d, self.d * o.d)
    __radd__ = __add__

    def __neg__(self):
        return Rat(-self.n, self.d)

    def __sub__(self, o):
        return self + (-rat(o))

    def __rsub__(self, o):
        return rat(o) - self

    def __mul__(self, o):
        o = rat(o)
        if o.d is PONE and self.d is PONE:
            return Rat(self.n * o.n)
        # cheap cancellation
        if self.n == o.d:
            return Rat(o.n, self.d)
        if o.n == self.d:
            return Rat(self.n, o.d)
        return Rat(self.n * o.n, self.d * o.d)
    __rmul__ = __mul__

    def inv(self):
        if self.n.is_zero():
            raise ZeroDivisionError("division by zero")
        return Rat(self.d, self.n)

    def __truediv__(self, o):
        return self * rat(o).inv()

    def __rtruediv__(self, o):
        return rat(o) * self.inv()

    def __pow__(self, o):
        return power(self, rat(o))

    def const(self):
        if self.d is PONE:
            return self.n.const()
        return None

    def is_zero(self):
        return self.n.is_zero()

    def __repr__(self):
        if self.d is PONE:
            return str(self.n)
        return f"({self.n})/({self.d})"


def _norm(n, d):
    if n.is_zero():
        return n, PONE
    if len(d.t) == 1:
        ((m, e), c), = d.t.items()
        inv = Poly({(frozenset((a, -k) for a, k in m), -e): 1 / c})
        return (n * inv if inv != PONE else n), PONE
    if n == d:
        return PONE, PONE
    # pull one term of d out so that den has a canonical unit term
    # (choose the term deterministically by structural order)
    k0 = min(d.t, key=lambda k: (len(k[0]), len(k[1].t), _okey(k)))
    (m, e), c = k0, d.t[k0]
    if k0 != _ONEKEY or c != 1:
        inv = Poly({(frozenset((a, -k) for a, k in m), -e): 1 / c})
        n, d = n * inv, d * inv
    if len(n.t) <= 40 and len(d.t) <= 6:
        q = _exact_div(n, d)
        if q is not None:
            return q, PONE
    return n, d


_ordcache = {}


def _okey(k):
    o = _ordcache.get(k)
    if o is None:
        m, e = k
        o = (tuple(sorted((a.id, n) for a, n in m)), repr(e))
        _ordcache[k] = o
    return o


def _exact_div(n, d):
    """try exact division n/d by leading terms w.r.t. a term order; None if fails"""
    # order terms through a generic linear functional on exponents
    def w(k):
        m, e = k
        s = 0
        for a, p in m:
            s += (a.id * 7919 % 1000003) * p
        for (m2, e2), c in e.t.items():
            h = 1
            for a, p in m2:
                h = h * 31 + a.id * 104729 % 1000003 * p
            s += Q(h % 1000003) * c + (len(e2.t) * 17)
        return s
    ld = max(d.t, key=w)
    cd = d.t[ld]
    linv = (frozenset((a, -p) for a, p in ld[0]), -ld[1])
    q = PZERO
    r = n
    steps = 0
    lim = 2 * len(n.t) + 8
    wmin_n = min(w(k) for k in n.t)
    wspan_d = w(ld) - min(w(k) for k in d.t)
    while not r.is_zero():
        steps += 1
        if steps > lim or len(r.t) > 60:
            return None
        lr = max(r.t, key=w)
        if w(lr) - wspan_d < wmin_n:
            return None
        k = (_mmul(lr[0], linv[0]), lr[1] + linv[1])
        term = Poly({k: r.t[lr] / cd})
        q = q + term
        r = r - term * d
    return q


def req(a, b):
    """equality of rationals (identity of formal generalised polynomials)"""
    if a is b:
        return True
    if a.d is PONE and b.d is PONE:
        return a.n == b.n
    if a.d == b.d:
        return a.n == b.n
    return a.n * b.d == b.n * a.d


def rat(z):
    if isinstance(z, Rat):
        return z
    if isinstance(z, bool):
        z = int(z)
    if isinstance(z, (int, Q)):
        z = Q(z)
        return Rat(Poly({_ONEKEY: z}) if z else PZERO)
    if isinstance(z, float):
        return rat(Q(repr(z)))
    if isinstance(z, Poly):
        return Rat(z)
    if isinstance(z, Atom):
        return Rat(Poly({(frozenset(((z, 1),)), PZERO): ONE}))
    raise AlgebraError(f"not a number: {z!r}")


R0 = rat(0)
R1 = rat(1)


# ----------------------------------------------------------- context -------
class Context:
    def __init__(self):
        self.flags = {}       # symbol name -> set of flags
        self.facts = []       # (Poly>=0, strict)
        self.omega = None     # Rat: limiting age
        self.law = None


CTX = Context()


def reset(omega=None):
    global CTX
    CTX.flags = {}
    CTX.facts = []
    CTX.omega = omega


def sym(name, *flags):
    a = Atom('sym', (name,))
    if flags:
        CTX.flags.setdefault(name, set()).update(flags)
    return rat(a)


def flags(name):
    return CTX.flags.get(name, ())


def opaque(reason):
    return rat(Atom('OPAQUE', (str(reason),)))


def has_kind(r, kinds):
    """does the value contain an atom of one of the kinds (deep)?"""
    def pk(p):
        for (m, e) in p.t:
            for a, _ in m:
                if ak(a):
                    return True
            if e.t and pk(e):
                return True
        return False

    def ak(a):
        if a.kind in kinds:
            return True
        for z in a.args:
            if isinstance(z, Rat) and (pk(z.n) or (z.d is not PONE and pk(z.d))):
                return True
        return False
    return pk(r.n) or (r.d is not PONE and pk(r.d))


def opaque_reason(r):
    out = []

    def pk(p):
        for (m, e) in p.t:
            for a, _ in m:
                if a.kind == 'OPAQUE':
                    out.append(a.args[0])
                for z in a.args:
                    if isinstance(z, Rat):
                        pk(z.n)
                        pk(z.d)
            if e.t:
                pk(e)
    pk(r.n)
    pk(r.d)
    return out[0] if out else ''


# ------------------------------------------------------- exp, log, power ---
def as_poly(r):
    if r.d is PONE:
        return r.n
    return rat(Atom('RAT', (r,))).n


def exp(r):
    p = as_poly(r)
    out = R1
    rest = {}
    for (m, e), c in p.t.items():
        if not e.t and len(m) == 1:
            (a, n), = m
            if a.kind == 'log' and n == 1:
                ip = c.numerator // c.denominator if c.denominator != 1 else c.numerator
                ip = int(ip) if c.denominator == 1 else int(c)  # truncate
                if ip:
                    out = out * ipow(a.args[0], ip)
                    c = c - ip
                if not c:
                    continue
        rest[(m, e)] = c
    if rest:
        out = out * Rat(Poly({(_EMPTY, Poly(rest)): ONE}))
    return out


def ipow(r, n):
    if n < 0:
        return ipow(r.inv(), -n)
    if r.d is PONE and len(r.n.t) == 1:
        ((m, e), c), = r.n.t.items()
        if n == 0:
            return R1
        return Rat(Poly({(frozenset((a, k * n) for a, k in m), e.scale(Q(n))): c ** n}))
    out = R1
    base = r
    while n:
        if n & 1:
            out = out * base
        n >>= 1
        if n:
            base = base * base
    return out


def _content(p):
    """split poly = monomial * primitive; returns (key, coeff, Poly)"""
    keys = list(p.t)
    mins = None
    for m, e in keys:
        d = dict(m)
        if mins is None:
            mins = d
        else:
            for a in list(mins):
                mins[a] = min(mins[a], d.get(a, 0))
            for a, n in d.items():
                if a not in mins and n < 0:
                    mins[a] = n
    # handle atoms absent in the first
    for a in list(mins):
        v = min(dict(m).get(a, 0) for m, _ in keys)
        if v:
            mins[a] = v
        else:
            mins.pop(a)
    mono = frozenset(mins.items())
    inv = Poly({(frozenset((a, -k) for a, k in mono), PZERO): ONE})
    return mono, p * inv


def log(r):
    if r.is_zero():
        raise ZeroDivisionError("log of zero")
    if r.d is not PONE:
        return _logp(r.n) - _logp(r.d)
    return _logp(r.n)


def _logp(p):
    if len(p.t) == 1:
        ((m, e), c), = p.t.items()
        if c < 0:
            return opaque("log of negative")
        out = Rat(e)
        for a, n in m:
            out = out + rat(Atom('log', (rat(a),))) * n
        return out + _lognum(c)
    mono, prim = _content(p)
    g = Q(math.gcd(*[c.numerator for c in prim.t.values()]), math.lcm(*[c.denominator for c in prim.t.values()]))
    out = _lognum(g)
    if g != 1:
        prim = prim.scale(1 / g)
    for a, n in mono:
        out = out + rat(Atom('log', (rat(a),))) * n
    # normalise exponential content: keep as is, but divide by a unit coefficient
    return out + rat(Atom('log', (Rat(prim),)))


def _lognum(c):
    out = R0
    for n, sg in ((c.numerator, 1), (c.denominator, -1)):
        f = 2
        while n > 1:
            if n % f == 0:
                out = out + rat(Atom('log', (rat(f),))) * sg
                n //= f
            else:
                f += 1
                if f > 997:
                    out = out + rat(Atom('log', (rat(n),))) * sg
                    break
    return out


def logs_of(r):
    """log atoms (deep) of a value"""
    out = set()

    def pk(p):
        for (m, e) in p.t:
            for a, _ in m:
                if a.kind == 'log':
                    out.add(a)
                for z in a.args:
                    if isinstance(z, Rat):
                        pk(z.n)
                        pk(z.d)
            if e.t:
                pk(e)
    pk(r.n)
    pk(r.d)
    return out


def logs_canonical(r):
    """are the logs in r pairwise independent (distinct irreducible arguments)?"""
    for a in logs_of(r):
        q = a.args[0]
        if q.d is not PONE:
            return False
        if len(q.n.t) > 1:
            for (m, e) in q.n.t:
                if e.t or sum(abs(n) for _, n in m) > 1 or any(n < 0 for _, n in m):
                    return False
    return True


def log_identity(r):
    """decide r == 0 for r = sum of rational multiples of logs and exponents; None if not of that shape"""
    if r.d is not PONE:
        return None
    prod = R1
    den = 1
    terms = []
    for (m, e), c in r.n.t.items():
        if e.t:
            return None
        if len(m) == 1:
            (a, n), = m
            if a.kind == 'log' and n == 1:
                terms.append((a.args[0], c))
                den = math.lcm(den, c.denominator)
                continue
        if any(a.kind == 'log' for a, _ in m):
            return None
        terms.append((exp(Rat(Poly({(m, e): ONE}))), c))
        den = math.lcm(den, c.denominator)
    if den > 24:
        return None
    for q, c in terms:
        k = int(c * den)
        if abs(k) > 60:
            return None
        prod = prod * ipow(q, k)
    return req(prod, R1)


def affine(p):
    """poly -> ({symbol: coef}, const) or None"""
    co, c0 = {}, ZERO
    for (m, e), c in p.t.items():
        if e.t:
            return None
        if not m:
            c0 += c
            continue
        if len(m) != 1:
            return None
        (a, n), = m
        if n != 1 or a.kind != 'sym':
            return None
        co[a.args[0]] = c
    return co, c0


def feasible(p, strict, eq=False):
    """is  p > 0 (>= 0, == 0)  consistent with the flags and facts?  True / False / None (unknown)

    Fourier-Motzkin over the rationals on the affine facts linked to p."""
    a = affine(p)
    if a is None:
        return None
    cons = [(a[0], a[1], strict)]
    if eq:
        cons = [(a[0], a[1], False), ({k: -c for k, c in a[0].items()}, -a[1], False)]
    names = set(a[0])
    pending = []
    for fp, st in CTX.facts:
        z = affine(fp)
        pending.append((fp, z, st))
    changed = True
    used = set()
    while changed:
        changed = False
        for i, (fp, z, st) in enumerate(pending):
            if i in used or not (fp.syms() & names):
                continue
            used.add(i)
            changed = True
            if z is None:
                return None
            cons.append((z[0], z[1], st))
            names |= set(z[0])
    for nm in names:
        f = flags(nm)
        if 'frac' in f:
            cons.append(({nm: ONE}, ZERO, True))
            cons.append(({nm: -ONE}, ONE, True))
        elif 'pos' in f:
            cons.append(({nm: ONE}, -ONE, False) if 'int' in f else ({nm: ONE}, ZERO, True))
        elif 'nonneg' in f:
            cons.append(({nm: ONE}, ZERO, False))
    for nm in sorted(names):
        lo = [c for c in cons if c[0].get(nm, 0) > 0]
        hi = [c for c in cons if c[0].get(nm, 0) < 0]
        rest = [c for c in cons if not c[0].get(nm, 0)]
        if len(lo) * len(hi) > 400:
            return None
        for l in lo:
            for h in hi:
                kl, kh = -h[0][nm], l[0][nm]
                co = {}
                for d, k in ((l[0], kl), (h[0], kh)):
                    for v, c in d.items():
                        co[v] = co.get(v, ZERO) + c * k
                co = {v: c for v, c in co.items() if c}
                rest.append((co, l[1] * kl + h[1] * kh, l[2] or h[2]))
        cons = rest
    for co, c, st in cons:
        if c < 0 or (c == 0 and st):
            return False
    return True


def power(a, b):
    c = b.const()
    if c is not None and c.denominator == 1:
        n = int(c)
        if n < 0 and a.is_zero():
            raise ZeroDivisionError("0 to a negative power")
        if abs(n) <= 12:
            return ipow(a, n)
    if a.is_zero():
        if b.is_zero():
            return R1
        s = sign(b)
        if s == '+':
            return R0
        return opaque("0**b")
    if a.const() == 1:
        return R1
    return exp(b * log(a))


# --------------------------------------------------------------- sign -----
def _asign(a):
    """'+', '>=', '?' for an atom"""
    k = a.kind
    if k == 'sym':
        f = flags(a.args[0])
        if 'pos' in f or 'frac' in f:
            return '+'
        if 'nonneg' in f:
            return '>='
        return '?'
    if k in ('L', 'T', 'B'):
        return '+'
    if k == 'F':
        return '>='
    if k in ('floor', 'ceil'):
        z = sign(a.args[0])
        return '>=' if z in ('+', '>=', '0') else '?'
    if k == 'log':
        c = a.args[0].const()
        if c is not None:
            return '+' if c > 1 else '?'
        s = sign(a.args[0] - 1)
        if s in ('+',):
            return '+'
        return '?'
    if k in ('pos', 'ben', 'benefit', 'disc'):
        return '+'
    if k == 'SOLVE':
        return '>='
    return '?'


def _tsign(k, c):
    m, e = k
    s = '+'
    neg = c < 0
    for a, n in m:
        z = _asign(a)
        if z == '?':
            if n % 2 == 0:
                z = '>='
            else:
                return '?'
        if z == '>=':
            s = '>='
    if neg:
        return '-' if s == '+' else '<='
    return s


def _comb(ss):
    ss = set(ss)
    if '?' in ss:
        return '?'
    if ss <= {'+', '>='}:
        return '+' if '+' in ss else '>='
    if ss <= {'-', '<='}:
        return '-' if '-' in ss else '<='
    return '?'


def _psign(p, depth=0):
    if not p.t:
        return '0'
    s = _comb(_tsign(k, c) for k, c in p.t.items())
    if s != '?':
        return s
    # common positive monomial content
    mono, prim = _content(p)
    if mono:
        ms = _tsign((mono, PZERO), ONE)
        if ms in ('+', '>='):
            z = _psign(prim, depth + 1)
            if ms == '>=' and z in ('+', '-'):
                z = {'+': '>=', '-': '<='}[z]
            return z
    if len(p.t) == 2:
        (k1, c1), (k2, c2) = p.t.items()
        if c1 == -c2:
            (m1, e1), (m2, e2) = k1, k2
            if m1 == m2 and _tsign((m1, PZERO), ONE) == '+':
                z = _psign(e1 - e2, depth + 1)
                r = {'+': '+', '-': '-', '>=': '>=', '<=': '<=', '0': '0'}.get(z, '?')
                if r != '?':
                    return r if c1 > 0 else _neg(r)
            d1, d2 = dict(m1), dict(m2)
            only1 = {a: n for a, n in d1.items() if d2.get(a) != n}
            only2 = {a: n for a, n in d2.items() if d1.get(a) != n}
            if e1 == e2 and len(only1) == 1 and len(only2) == 1:
                (a, n1), = only1.items()
                (b, n2), = only2.items()
                if a.kind == 'L' and b.kind == 'L' and n1 == n2 == 1 and a.args[0] == b.args[0]:
                    z = sign(b.args[1] - a.args[1])
                    if z in ('+', '>=', '0'):
                        return '>=' if c1 > 0 else '<='
                    if z in ('-', '<='):
                        return '<=' if c1 > 0 else '>='
    if depth < 3:
        for name, fl in CTX.flags.items():
            if 'frac' in fl and name in p.syms():
                f = (R1 - sym(name)).n
                for z, fp in ((1, f), (-1, -f)):
                    r = _psign_facts(p, fp, True, z)
                    if r:
                        return r
        for fp, strict in CTX.facts:
            for z, q in ((1, fp), (-1, -fp)):
                r = _psign_facts(p, q, strict, z)
                if r:
                    return r
    return '?'


def _psign_facts(p, f, strict, z):
    """p - lam*f one-signed, f has sign z"""
    lams = set()
    for k, c in f.t.items():
        if k in p.t:
            lam = p.t[k] / c
            if lam > 0:
                lams.add(lam)
    for lam in lams:
        r = p - f.scale(lam)
        s = _comb(_tsign(k, c) for k, c in r.t.items()) if r.t else '0'
        if z > 0 and s in ('0', '+', '>='):
            return '+' if (strict or s == '+') else '>='
        if z < 0 and s in ('0', '-', '<='):
            return '-' if (strict or s == '-') else '<='
    return None


def _neg(s):
    return {'+': '-', '-': '+', '>=': '<=', '<=': '>=', '0': '0', '?': '?'}[s]


def _fsign(p):
    """sign of an affine expression from all facts together (Fourier-Motzkin)"""
    if not CTX.facts or affine(p) is None:
        return '?'
    isint = is_int(Rat(p))
    lt = feasible(-p - PONE, False) if isint else feasible(-p, True)
    gt = feasible(p - PONE, False) if isint else feasible(p, True)
    if lt is None or gt is None or (lt and gt):
        return '?'
    eq = feasible(p, False, eq=True)
    if eq is None:
        return '?'
    if not lt:
        return ('>=' if gt else '0') if eq else '+'
    return '<=' if eq else '-'


def _taylor_sign(p, upto=40):
    """sign of an exponential polynomial in one positive symbol from its Taylor coefficients"""
    ss = p.syms()
    if len(ss) != 1 or len(p.t) > 12:
        return '?'
    nm, = ss
    if 'pos' not in CTX.flags.get(nm, ()):
        return '?'
    terms = []
    for (m, e), c in p.t.items():
        n = 0
        for a, k in m:
            if a.kind != 'sym':
                return '?'
            n = k
        r = ZERO
        for (m2, e2), c2 in e.t.items():
            if e2.t or len(m2) != 1:
                return '?'
            (a, k), = m2
            if a.kind != 'sym' or k != 1:
                return '?'
            r = c2
        if not isinstance(n, int) or r.denominator != 1:
            return '?'
        terms.append((c, n, r))
    if not any(r for _, _, r in terms):
        return '?'
    n0, r0 = min(n for _, n, _ in terms), min(r for _, _, r in terms)
    terms = [(c, n - n0, int(r - r0)) for c, n, r in terms]
    if max(n for _, n, _ in terms) > 6 or max(r for _, _, r in terms) > 8:
        return '?'

    def coef(j, sel):
        out = ZERO
        for c, n, r in sel:
            if j >= n and (r or j == n):
                out += c * Q(r) ** (j - n) / math.factorial(j - n)
        return out
    seen = set()
    for j in range(upto + 1):
        z = coef(j, terms)
        if z:
            seen.add(z > 0)
    if len(seen) != 1:
        return '?'
    top = max(r for _, _, r in terms)
    lead = [t for t in terms if t[2] == top]
    if len(lead) != 1 or (lead[0][0] > 0) is not (True in seen):
        return '?'
    a = abs(coef(upto, lead))
    b = sum(abs(coef(upto, [t])) for t in terms if t[2] != top)
    if a <= 2 * b:
        return '?'
    return '+' if True in seen else '-'


def sign(r):
    """one of '+', '-', '0', '>=', '<=', '?'"""
    if r.is_zero():
        return '0'
    s = _psign(r.n)
    if s == '?':
        s = _fsign(r.n)
    if s == '?':
        s = _taylor_sign(r.n)
    if r.d is not PONE:
        sd = _psign(r.d)
        if sd == '+':
            return s
        if sd == '-':
            return _neg(s)
        if sd == '>=':
            return s if s in ('>=', '<=') else {'+': '>=', '-': '<='}.get(s, '?')
        if sd == '<=':
            s = _neg(s)
            return s if s in ('>=', '<=') else {'+': '>=', '-': '<='}.get(s, '?')
        # try combined difference rules: fall through
        return '?'
    return s


# ------------------------------------------------------------ integers ----
def _aint(a):
    if a.kind == 'sym':
        return 'int' in flags(a.args[0])
    return a.kind in ('floor', 'ceil')


def split_int(p):
    """split poly to (integer-valued part, rest)"""
    ip, rp = {}, {}
    for (m, e), c in p.t.items():
        if not e.t and c.denominator == 1 and all(n > 0 and _aint(a) for a, n in m):
            ip[(m, e)] = c
        elif not e.t and not m:
            f = c.numerator // c.denominator
            if f:
                ip[(m, e)] = Q(f)
            if c - f:
                rp[(m, e)] = c - f
        else:
            rp[(m, e)] = c
    return Poly(ip), Poly(rp)


def is_int(r):
    if r.d is not PONE:
        return False
    return split_int(r.n)[1].is_zero()


def floor(r):
    if r.d is not PONE:
        return rat(Atom('floor', (r,)))
    i, f = split_int(r.n)
    if f.is_zero():
        return Rat(i)
    ff = Rat(f)
    for k in range(-2, 3):
        if sign(ff - k) in ('+', '>=', '0') and sign(k + 1 - ff) == '+':
            return Rat(i) + k
    return Rat(i) + rat(Atom('floor', (ff,)))


def ceil(r):
    if is_int(r):
        return r
    i, f = split_int(r.n) if r.d is PONE else (PZERO, None)
    if f is not None:
        ff = Rat(f)
        for k in range(-2, 3):
            if sign(ff - k) == '+' and sign(k + 1 - ff) in ('+', '>=', '0'):
                return Rat(i) + k + 1
        return Rat(i) + rat(Atom('ceil', (ff,)))
    return rat(Atom('ceil', (r,)))


# ---------------------------------------------------- survival atoms -------
def _beyond(x, y):
    """is age x+y at or beyond the limiting age?"""
    if CTX.omega is None:
        return False
    return sign(x + y - CTX.omega) in ('0', '+', '>=')


def L(x, y):
    x, y = rat(x), rat(y)
    if CTX.omega is not None and _beyond(x, y):
        return R0
    return rat(Atom('L', (x, y)))


def F(x, y):
    x, y = rat(x), rat(y)
    if CTX.omega is not None and sign(x + y - CTX.omega) in ('+',):
        return R0
    return rat(Atom('F', (x, y)))


def _shiftcoef(y, h):
    """integer number of h-steps contained in y (None if not determinable)"""
    if h.d is not PONE or len(h.n.t) != 1 or y.d is not PONE:
        return 0
    (k, c), = h.n.t.items()
    q = y.n.t.get(k, ZERO) / c
    return q.numerator // q.denominator


def T(h, rho, p, x, y):
    """tail sum; p python int"""
    h, rho, x, y = rat(h), rat(rho), rat(x), rat(y)
    if _beyond(x, y):
        return R0
    if CTX.omega is not None:
        left = ((CTX.omega - x - y) / h).const()
        if left is not None and 0 < left <= 8:
            out, j = R0, 0
            while j < left:
                z = y + h * j
                out = out + ipow(z, p) * exp(-(rho * z)) * L(x, z)
                j += 1
            return out
    k = _shiftcoef(y, h)
    if k and abs(k) <= 60:
        base = y - h * k
        out = T0(h, rho, p, x, base)
        rng = range(0, k) if k > 0 else range(k, 0)
        for j in rng:
            z = base + h * j
            term = ipow(z, p) * exp(-(rho * z)) * L(x, z)
            out = out - term if k > 0 else out + term
        return out
    return T0(h, rho, p, x, y)


def T0(h, rho, p, x, y):
    if _beyond(x, y):
        return R0
    return rat(Atom('T', (h, rho, p, x, y)))


def B(rho, p, x, y):
    rho, x, y = rat(rho), rat(x), rat(y)
    if _beyond(x, y):
        return R0
    return rat(Atom('B', (rho, p, x, y)))


CONSTRUCT = {}


def construct(kind, args):
    f = CONSTRUCT.get(kind)
    if f:
        return f(*args)
    return rat(Atom(kind, args))


CONSTRUCT['L'] = L
CONSTRUCT['F'] = F
CONSTRUCT['T'] = T
CONSTRUCT['B'] = B
CONSTRUCT['log'] = lambda r: log(r)
CONSTRUCT['RAT'] = lambda r: r
CONSTRUCT['floor'] = lambda r: floor(r)
CONSTRUCT['ceil'] = lambda r: ceil(r)


def rewrite(r, f, memo=None):
    """rebuild r bottom-up; f(atom_kind, args) -> Rat or None"""
    if memo is None:
        memo = {}

    def ra(a):
        z = memo.get(a)
        if z is None:
            if a.kind == 'sym':
                z = f('sym', a.args)
                if z is None:
                    z = rat(a)
            else:
                args = tuple(rr(q) if isinstance(q, Rat) else q for q in a.args)
                z = f(a.kind, args)
                if z is None:
                    z = construct(a.kind, args)
            memo[a] = z
        return z

    def rp(p):
        out = R0
        for (m, e), c in p.t.items():
            term = rat(c)
            for a, n in m:
                term = term * ipow(ra(a), n)
            if e.t:
                term = term * exp(rp(e))
            out = out + term
        return out

    def rr(q):
        n = rp(q.n)
        if q.d is PONE:
            return n
        return n / rp(q.d)
    return rr(r)


def subst(r, mapping):
    """mapping: symbol name -> Rat"""
    if not (r.syms() & mapping.keys()):
        return r
    return rewrite(r, lambda k, a: mapping.get(a[0]) if k == 'sym' else None)


# --------------------------------------------------------- sums etc. -------
def _split_dep(mono, name):
    dep, ind = [], []
    for a, n in mono:
        (dep if name in a.syms else ind).append((a, n))
    return dep, ind


def _linear(r, name):
    """r = alpha*sym + beta with alpha, beta free of sym; or None"""
    if name not in r.syms():
        return R0, r
    if r.d is not PONE:
        if name in r.d.syms():
            return None
        z = _linear(Rat(r.n), name)
        if z is None:
            return None
        return z[0] / Rat(r.d), z[1] / Rat(r.d)
    al, be = {}, {}
    for (m, e), c in r.n.t.items():
        if name in e.syms():
            return None
        dep, ind = _split_dep(m, name)
        if not dep:
            be[(m, e)] = c
        elif len(dep) == 1 and dep[0][0].kind == 'sym' and dep[0][1] == 1:
            k = (frozenset(ind), e)
            al[k] = al.get(k, ZERO) + c
        else:
            return None
    return Rat(Poly(al)), Rat(Poly(be))


_bound = [0]


def _binom(n, k):
    out = 1
    for j in range(k):
        out = out * (n - j) // (j + 1)
    return out


def _terms(body, name):
    """yield (coefRat (free), dep atoms, alpha, beta) for each term of body.n; den must be free"""
    for (m, e), c in body.n.t.items():
        dep, ind = _split_dep(m, name)
        lin = _linear(Rat(e), name)
        coef = Rat(Poly({(frozenset(ind), PZERO): c}))
        yield coef, dep, lin, e


def Sum(body, name, lo, hi):
    """sum over integer name in [lo, hi) of body"""
    lo, hi = rat(lo), rat(hi)
    n = hi - lo
    s = sign(n)
    if s in ('0', '-', '<='):
        return R0
    cn = n.const()
    if cn is not None and cn.denominator == 1 and cn <= 60:
        out = R0
        for j in range(int(cn)):
            out = out + subst(body, {name: lo + j})
        return out
    if name in body.d.syms():
        return _opaque_sum(body, name, lo, hi)
    den = Rat(body.d)
    out = R0
    for coef, dep, lin, e in _terms(body, name):
        out = out + coef * _sum_term(dep, lin, e, name, lo, hi)
    return out / den


def _opaque_sum(body, name, lo, hi, kind='SUM'):
    b = sym('$k')
    body = subst(body, {name: b + lo}) if name != '$k' else body
    return rat(Atom(kind, (body, hi - lo)))


def _sum_construct(kind):
    def f(body, n):
        nm = f"$z{_bound[0]}"
        _bound[0] += 1
        CTX.flags.setdefault(nm, set()).update({'int', 'nonneg'} if kind == 'SUM' else {'nonneg'})
        b2 = rewrite(body, lambda k, a: sym(nm) if k == 'sym' and a[0] == '$k' else None)
        return (Sum if kind == 'SUM' else Int)(b2, nm, R0, n)
    return f


CONSTRUCT['SUM'] = _sum_construct('SUM')
CONSTRUCT['INT'] = _sum_construct('INT')


def _sum_term(dep, lin, e, name, lo, hi):
    """sum of prod(dep)*exp(e) over name"""
    p = 0
    surv = None
    ok = lin is not None
    for a, n in dep:
        if a.kind == 'sym' and n > 0:
            p = n
        elif a.kind == 'L' and n == 1 and surv is None and name not in a.args[0].syms():
            surv = a
        else:
            ok = False
    if ok and surv is not None:
        al, be = lin
        z = _linear(surv.args[1], name)
        if z is not None and not z[0].is_zero() and sign(z[0]) == '+':
            h, c0 = z
            rho = -al / h
            # exp(al*k) = exp(-rho*(y-c0)), k^p = ((y-c0)/h)^p
            out = R0
            for j in range(p + 1):
                co = rat(_binom(p, j)) * ipow(-c0, p - j) * ipow(h, -p)
                if co.is_zero():
                    continue
                out = out + co * (T(h, rho, j, surv.args[0], c0 + h * lo)
                                  - T(h, rho, j, surv.args[0], c0 + h * hi))
            return out * exp(be) * exp(rho * c0)
    if ok and surv is None:
        al, be = lin
        if al.is_zero():
            # Faulhaber
            if p == 0:
                return (hi - lo) * exp(be)
            if p == 1:
                return (hi * (hi - 1) - lo * (lo - 1)) / 2 * exp(be)
            if p == 2:
                g = lambda z: z * (z - 1) * (2 * z - 1) / 6
                return (g(hi) - g(lo)) * exp(be)
        elif p == 0:
            return (exp(al * lo) - exp(al * hi)) / (R1 - exp(al)) * exp(be)
        elif p == 1:
            q = exp(al)
            # sum_{k>=a} k q^k = q^a (a/(1-q) + q/(1-q)^2)
            g = lambda a: exp(al * a) * (a / (R1 - q) + q / ipow(R1 - q, 2))
            return (g(lo) - g(hi)) * exp(be)
    body = Rat(Poly({(frozenset(dep), e): ONE}))
    return _opaque_sum(body, name, lo, hi)


def Int(body, name, lo, hi):
    """integral over name in [lo, hi]"""
    lo, hi = rat(lo), rat(hi)
    if (hi - lo).is_zero():
        return R0
    if name in body.d.syms():
        return _opaque_sum(body, name, lo, hi, 'INT')
    den = Rat(body.d)
    out = R0
    for coef, dep, lin, e in _terms(body, name):
        out = out + coef * _int_term(dep, lin, e, name, lo, hi)
    return out / den


def _int_term(dep, lin, e, name, lo, hi):
    p = 0
    surv = None
    dens = None
    logder = None
    ok = lin is not None
    for a, n in dep:
        if a.kind == 'sym' and n > 0:
            p = n
        elif a.kind == 'L' and n == 1 and surv is None and name not in a.args[0].syms():
            surv = a
        elif a.kind == 'L' and n == -1 and logder is None:
            logder = a
        elif a.kind == 'F' and n == 1 and dens is None and name not in a.args[0].syms():
            dens = a
        else:
            ok = False
    if ok and surv is not None and dens is None and logder is None:
        al, be = lin
        z = _linear(surv.args[1], name)
        if z is not None and not z[0].is_zero():
            h, c0 = z
            rho = -al / h
            out = R0
            for j in range(p + 1):
                co = rat(_binom(p, j)) * ipow(-c0, p - j) * ipow(h, -p - 1)
                if co.is_zero():
                    continue
                out = out + co * (B(rho, j, surv.args[0], c0 + h * lo)
                                  - B(rho, j, surv.args[0], c0 + h * hi))
            return out * exp(be) * exp(rho * c0)
    if ok and dens is not None and surv is None and logder is None:
        al, be = lin
        z = _linear(dens.args[1], name)
        if z is not None and not z[0].is_zero():
            h, c0 = z
            k = sym(name)
            Lk = L(dens.args[0], c0 + h * k)
            g = ipow(k, p) * exp(al * k)
            gp = (ipow(k, p - 1) * p * exp(al * k) if p else R0) + ipow(k, p) * al * exp(al * k)
            def at(v):
                return ipow(v, p) * exp(al * v) * L(dens.args[0], c0 + h * v)
            return exp(be) / h * (at(lo) - at(hi) + Int(gp * Lk, name, lo, hi))
    if (ok and dens is not None and logder is not None and surv is None and p == 0
            and lin[0].is_zero() and dens.args[0] == logder.args[0] and dens.args[1] == logder.args[1]):
        z = _linear(dens.args[1], name)
        if z is not None and not z[0].is_zero():
            h, c0 = z
            x = dens.args[0]
            return exp(lin[1]) / h * (log(L(x, c0 + h * lo)) - log(L(x, c0 + h * hi)))
    if ok and not (surv or dens or logder):
        al, be = lin

        def prim(v, p):
            if al.is_zero():
                return ipow(v, p + 1) / (p + 1)
            if p == 0:
                return exp(al * v) / al
            return ipow(v, p) * exp(al * v) / al - prim(v, p - 1) * p / al
        return exp(be) * (prim(hi, p) - prim(lo, p))
    body = Rat(Poly({(frozenset(dep), e): ONE}))
    return _opaque_sum(body, name, lo, hi, 'INT')


def D(r, name):
    """derivative with respect to a symbol"""
    if name not in r.syms():
        return R0
    if r.d is not PONE:
        n, d = Rat(r.n), Rat(r.d)
        return (D(n, name) * d - n * D(d, name)) / (d * d)
    out = R0
    for (m, e), c in r.n.t.items():
        term = Rat(Poly({(m, e): c}))
        for a, n in m:
            if name in a.syms:
                out = out + term * n / rat(a) * Da(a, name)
        if name in e.syms():
            out = out + term * D(Rat(e), name)
    return out


def Da(a, name):
    if a.kind == 'sym':
        return R1 if a.args[0] == name else R0
    if a.kind == 'log':
        return D(a.args[0], name) / a.args[0]
    if a.kind == 'RAT':
        return D(a.args[0], name)
    if a.kind == 'L' and name not in a.args[0].syms():
        return -F(a.args[0], a.args[1]) * D(a.args[1], name)
    if a.kind == 'L':               # moves the age of selection as well
        return rat(Atom('D1L', a.args)) * D(a.args[0], name) - F(a.args[0], a.args[1]) * D(a.args[1], name)
    if a.kind == 'B' and name not in a.args[2].syms() and name not in a.args[0].syms():
        rho, p, x, y = a.args
        return -ipow(y, p) * exp(-(rho * y)) * L(x, y) * D(y, name)
    return opaque("derivative")


def Prod(body, name, lo, hi):
    """product over name in [lo,hi): telescoping of L(x,c+k+1)/L(x,c+k) factors"""
    n = hi - lo
    s = sign(n)
    if s in ('0', '-', '<='):
        return R1
    c = n.const()
    if c is not None and c.denominator == 1 and c <= 40:
        out = R1
        for j in range(int(c)):
            out = out * subst(body, {name: lo + j})
        return out
    if body.d is PONE and len(body.n.t) == 1:
        ((m, e), q), = body.n.t.items()
        out = ipow(R1, 1)
        dep, ind = _split_dep(m, name)
        free = Rat(Poly({(frozenset(ind), PZERO): q}))
        out = power(free, n) if not (free.const() == 1) else R1
        if e.t:
            out = out * exp(Sum(Rat(e), name, lo, hi))
        num, den = [], []
        for a, k in dep:
            for _ in range(abs(k)):
                (num if k > 0 else den).append(a)
        for a in list(num):
            hit = None
            for b in den:
                if a.kind == 'L' and b.kind == 'L' and a.args[0] == b.args[0]:
                    za, zb = _linear(a.args[1], name), _linear(b.args[1], name)
                    if za and zb and za[0] == R1 and zb[0] == R1:
                        gap = (za[1] - zb[1]).const()
                        if gap is not None and gap.denominator == 1 and 0 < abs(gap) <= 20:
                            hit = (b, za[1], zb[1], int(gap))
                            break
            if hit is None:
                return opaque("product")
            b, ya, yb, gap = hit
            den.remove(b)
            num.remove(a)
            x = a.args[0]
            # prod_{k=lo}^{hi-1} L(yb+gap+k)/L(yb+k)
            if gap > 0:
                for j in range(gap):
                    out = out * L(x, yb + hi + j) / L(x, yb + lo + j)
            else:
                for j in range(-gap):
                    out = out * L(x, ya + lo + j) / L(x, ya + hi + j)
        if num or den:
            return opaque("product")
        return out
    return opaque("product of sums")


def ncdf(r):
    """standard normal distribution function, odd-symmetric normal form"""
    if repr(-r) < repr(r):
        return R1 - rat(Atom('ncdf', (-r,)))
    return rat(Atom('ncdf', (r,)))


def ndtri(r):
    if repr(R1 - r) < repr(r):
        return -rat(Atom('ndtri', (R1 - r,)))
    return rat(Atom('ndtri', (r,)))


CONSTRUCT['ncdf'] = ncdf
CONSTRUCT['ndtri'] = ndtri
