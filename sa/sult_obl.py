"""Obligations of the standard ultimate life table (C28): construction, columns, default mortality law."""
from . import algebra as al
from .algebra import rat, R0, R1, sym, L
from . import interp as ip
from . import specs as sp
from .interp import Obj
from .obl import Case, Raises, compare
from .table_obl import radix

MAKEHAM = ('0.00022', '0.0000027', '1.124')      # SOA FAM-L tables


def dec(s):
    from fractions import Fraction
    return rat(Fraction(s))


def makeham(x, t):
    A, B, c = map(dec, MAKEHAM)
    return al.exp(-A * t - B * al.power(c, x) * (al.power(c, t) - 1) / al.log(c))


def consistent(l, lo, hi):
    return {'l': l, 'd': {a: l[a] - l[a + 1] for a in range(lo, hi)},
            'q': {a: R1 - l[a + 1] / l[a] for a in range(lo, hi)}, 'p': {a: l[a + 1] / l[a] for a in range(lo, hi)}}


def build_check(l, lo, hi, i, udd):
    want = consistent(l, lo, hi)

    def chk(it, r, obj):
        t = obj.attrs.get('_table')
        if not isinstance(t, dict):
            return None, "table not followed"
        und = None
        for col, w in want.items():
            d = t.get(col)
            if not isinstance(d, dict):
                return None, f"column {col} not followed"
            got = {int(k): v for k, v in d.items()}
            if set(got) != set(w):
                return False, f"column {col} holds ages {min(got, default=None)} to {max(got, default=None)} ({len(got)} cells); must hold {lo} to {max(w)}"
            for a, v in got.items():
                c = compare(v, w[a], None, it.trace.subs)
                if c == 'ne':
                    return False, f"{col}[{a}] = {v!r}; the survival function gives {w[a]!r}"
                if c != 'eq':
                    und = und or f"{col}[{a}]: {c}"
        for nm, v in (('_MINAGE', lo), ('_MAXAGE', hi)):
            if ip.const_int(it.getattr(obj, nm)) != v:
                return False, f"{nm} = {it.getattr(obj, nm)!r}; must be {v}"
        c = compare(it.getattr(it.getattr(obj, 'interest'), 'i'), i, None, it.trace.subs)
        if c == 'ne':
            return False, f"interest rate is {it.getattr(it.getattr(obj, 'interest'), 'i')!r}; must be {i!r}"
        if c != 'eq':
            und = und or f"interest: {c}"
        # interpolation asked for
        r = sym('r', 'frac')
        a = rat(lo + 1)
        f = l[lo + 1], l[lo + 2]
        w = f[0] * (R1 - r) + f[1] * r if udd else f[0] * al.power(f[1] / f[0], r)
        try:
            g = it.call(it.getattr(obj, 'l'), [a, r], {})
        except ip.SubjectRaise as e:
            return False, f"lives at fractional ages raise {e.name}: {e.msg}"
        c = compare(g, w, None, it.trace.subs)
        if c == 'ne':
            return False, f"lives at age {lo + 1}+r are {g!r}; must be {w!r}"
        if c != 'eq':
            und = und or f"lives at fractional ages: {c}"
        return (None, und) if und else (True, '')
    return chk


def cases(tier='quick'):
    out = []

    def survival(lo, pos=True):
        """a survival function asked only about a life now aged `lo`"""
        def S(it, a, k, n):
            x, t = it.force(a[0]), it.force(a[1])
            if ip.const_int(x) != lo:
                raise ip.Undecided(f"survival of a life aged {x!r} asked for")
            return L(R0, rat(lo) + t) / L(R0, rat(lo))
        return ip.Builtin('S', S)

    def add(scen, lo, hi, kw, l, i=None, udd=True, rad=None):
        def b(it, c):
            o = Obj(c)
            k = {n: (f() if callable(f) and not isinstance(f, ip.Builtin) else f) for n, f in kw.items()}
            R = rad() if rad else rat(100000)
            lv = {a: R * l(rat(a)) for a in range(lo, hi + 1)}
            return o, [], k, build_check(lv, lo, hi, i() if i else dec('0.05'), udd)
        out.append(Case('SULT.__init__', scen, b, cls='SULT', name='__init__'))
    I = lambda: sym('i', 'pos')
    for lo, n in ((50, 5), (0, 4), (37, 2)) + (((20, 12), (1, 20)) if tier == 'thorough' else ()):
        hi = lo + n
        ratio = lambda a, lo=lo: L(R0, a) / L(R0, rat(lo))
        law = lambda a, lo=lo: makeham(rat(lo), a - lo)
        for udd in (True, False):
            add(f"ages {lo} to {hi}, survival function supplied, {'uniform deaths' if udd else 'constant force'}", lo, hi,
                {'i': I, 'radix': radix, 'S': survival(lo), 'minage': rat(lo), 'maxage': rat(hi), 'udd': udd}, ratio, I, udd, radix)
        add(f"ages {lo} to {hi}, default mortality", lo, hi, {'i': I, 'radix': radix, 'minage': rat(lo), 'maxage': rat(hi)}, law, I, True, radix)
        add(f"ages {lo} to {hi}, default interest and radix", lo, hi, {'S': survival(lo), 'minage': rat(lo), 'maxage': rat(hi)}, ratio)
    add("survival function supplied, default ages", 20, 130, {'S': survival(20)}, lambda a: L(R0, a) / L(R0, rat(20)))

    # columns
    cols = {'p': lambda F, x: L(x, R1) / L(x, R0), 'q': lambda F, x: R1 - L(x, R1) / L(x, R0), 'a': lambda F, x: F.ann(x, R0, sp.WHOLE, R0, R1, True),
            'A': lambda F, x: F.ins(x, R0, sp.WHOLE, R0, R1, 1, True)}
    for col, f in cols.items():
        for label in (col, {'p': 'p_x', 'q': 'q_x', 'a': 'a_x', 'A': 'A_x'}[col]):
            def b(it, c, f=f, label=label):
                F = sp.LifeF(sp.Interest('pos'), maxage=rat(44))
                al.CTX.omega = rat(44)
                o = Obj(c, family=F)
                o.attrs.update(_MINAGE=rat(37), _MAXAGE=rat(44), _verbose=R0)

                def chk(it, r, obj):
                    if not isinstance(r, dict):
                        return None, "column not followed"
                    got = {int(k): v for k, v in r.items()}
                    if set(got) != set(range(37, 44)):
                        return False, f"column holds ages {sorted(got)}; must hold 37 to 43"
                    und = None
                    for a, v in got.items():
                        w = f(F, rat(a))
                        co = compare(v, w, None, it.trace.subs)
                        if co == 'ne':
                            return False, f"[{a}] = {v!r}; must be {w!r}"
                        if co != 'eq':
                            und = und or f"[{a}]: {co}"
                    return (None, und) if und else (True, '')
                return o, [label], {}, chk
            out.append(Case('SULT.__getitem__', f"column {label}", b, cls='SULT', name='__getitem__'))

    def b(it, c):
        o = Obj(c, family=sp.LifeF(sp.Interest('pos'), maxage=rat(44)))
        o.attrs.update(_MINAGE=rat(37), _MAXAGE=rat(44), _verbose=R0)
        return o, ['x'], {}, Raises('AssertionError', 'KeyError', 'ValueError')
    out.append(Case('SULT.__getitem__', "no such column", b, cls='SULT', name='__getitem__'))
    return out
