"""Obligations of life tables (C11) and select tables (C12)."""
from . import algebra as al
from .algebra import rat, R0, R1, sym, L, F
from . import interp as ip
from .interp import Obj
from .obl import Case, Raises, compare
from . import specs as sp
from . import laws
from .specs import LifeF, WHOLE
from .life_obl import World, case, xs, pint, insurance_cases
from . import surv_obl as so


def radix():
    return sym('radix', 'pos')


def column(w, fn, name):
    """life table column as a symbolic table over ages 0 .. limiting age"""
    o = Obj(None, name=f"table {name}")

    def has(it, k):
        k = ip.num(it.force(k))
        a, b = al.sign(k), al.sign(w.F.maxage - k)
        if name != 'l':
            b = al.sign(w.F.maxage - 1 - k)
        if a == '-' or b == '-':
            return False
        if a in ('+', '0', '>=') and b in ('+', '0', '>='):
            return True
        return ip.Unknown(f"is age {k} in the table")

    def get(it, k, node=None):
        z = has(it, k)
        if z is False:
            raise ip.SubjectRaise('KeyError', f"age {k} not in the table", node)
        if z is not True:
            return z
        return fn(ip.num(it.force(k)))
    o.table_has, o.table_get = has, get
    return o


def tables(w):
    l = lambda k: radix() * L(R0, k)
    return {'l': column(w, l, 'l'), 'd': column(w, lambda k: l(k) - l(k + 1), 'd'),
            'q': column(w, lambda k: R1 - L(R0, k + 1) / L(R0, k), 'q'),
            'p': column(w, lambda k: L(R0, k + 1) / L(R0, k), 'p')}


def use_table(w):
    w.F.extra['_table'] = tables(w)


ULT = laws.ultimate()
UDD = laws.udd()


def ult_udd(r):
    return ULT(UDD(r))


LT = {'l_x': 'x s', 'd_x': 'x s t', 'p_x': 'x s t', 'q_x': 'x s t u'}


def lookup_cases(cls='LifeTable'):
    out = []
    for nm, ps in LT.items():
        ps = ps.split()
        tms = ('in', 'edge', 'beyond', 'one', 'zero') if 't' in ps else ('one',)
        for tm in tms:
            for um in ((None, 'in', 'zero', 'beyond') if 'u' in ps else (None,)):
                if um == 'beyond' and tm != 'in':
                    continue
                want = None
                if um == 'beyond':
                    want = lambda it, w, kw: R0
                out.append(case(cls, nm, f"t {tm}{', u ' + um if um else ''}",
                                lambda w, ps=ps, um=um: {**xs(w), **({'t': w.t} if 't' in ps else {}), **({'u': w.u} if um else {})},
                                want, law=ULT, setup=use_table, tmode=tm, umode=um))
        out.append(case(cls, nm, "arguments omitted", lambda w: {'x': w.x, 's': w.s}, law=ULT, setup=use_table, tmode='one'))

    def mu(it, w, kw):
        y = w.x + w.s + kw.get('t', R0)
        return -al.log(L(R0, y + 1) / L(R0, y))
    for tm in ('in', 'zero'):
        out.append(case(cls, 'mu_x', f"t {tm}", lambda w: xs(w, t=w.t), mu, law=ULT, setup=use_table, tmode=tm))
    for cur in (True, False):
        ct = 'curtate' if cur else 'complete'

        def st(w):
            use_table(w)
            w.F.udd = True
        for tm in ('in', 'edge', 'beyond', 'one', 'whole', 'zero'):
            for m in (1, 2, -2):
                out.append(case(cls, 'e_x', f"{ct}, t {tm}, moment {m}",
                                lambda w, cur=cur, m=m: xs(w, t=w.t, curtate=cur, moment=rat(m)), tmode=tm, setup=st,
                                law=ULT if cur else ult_udd))
    out.append(case(cls, 'e_x', "arguments omitted", lambda w: {'x': w.x}, tmode='whole', setup=use_table, law=ULT))
    for c in insurance_cases(cls, own={'E_x'}):
        b = c.build

        def build(it, k, b=b):
            obj, args, kw, want = b(it, k)
            F = obj.family
            w = type('W', (), {'F': F})
            use_table(w)
            return obj, args, kw, want
        out.append(Case(None, c.scenario, build, law=ULT, cls=cls, name=c.name, rule=c.rule))
    return out


def end_cases(cls='LifeTable'):
    """nobody is alive beyond the limiting age: no lives, no deaths, no survival, certain death"""
    out = []
    for nm, v in (('l_x', R0), ('d_x', R0), ('p_x', R0), ('q_x', R1)):
        for scen, at in (("beyond the table", lambda w: w.omega + pint('k9')), ("at the limiting age", lambda w: w.omega)):
            for how in ('x', 's'):
                if nm == 'l_x' and scen == "at the limiting age":
                    continue
                for t in ((None,) if nm == 'l_x' else (None, 'in')):
                    def build(it, c, at=at, how=how, t=t, v=v):
                        w = World(it, c, tmode='one')
                        use_table(w)
                        a = at(w)
                        kw = {'x': a} if how == 'x' else {'x': w.x, 's': a - w.x}
                        if t:
                            kw['t'] = pint('t')
                        return w.obj, [], kw, v
                    out.append(Case(None, f"{scen} by {'age' if how == 'x' else 'duration'}{', any term' if t else ''}", build, law=ULT, cls=cls, name=nm))

    for col in ('l', 'd', 'q', 'p'):
        for label in (col, col + '_x'):
            def build(it, c, col=col, label=label):
                w = World(it, c, tmode='one')
                o = Obj(c)
                T = truth(3)
                o.attrs['_table'] = {k: {it.dkey(rat(a)): z for a, z in d.items()} for k, d in T.items()}
                want = T[col]

                def chk(it, r, obj):
                    if not isinstance(r, dict):
                        return None, "column not followed"
                    got = {int(k): z for k, z in r.items()}
                    if set(got) != set(want):
                        return False, f"column holds ages {sorted(got)}; the table holds {sorted(want)}"
                    return next(((False, f"[{a}] = {z!r}; the table holds {want[a]!r}") for a, z in got.items() if compare(z, want[a]) == 'ne'), (True, ''))
                return o, [label], {}, chk
            out.append(Case(f"{cls}.__getitem__", f"column {label}", build, cls=cls, name='__getitem__'))

    def build(it, c):
        o = Obj(c)
        o.attrs['_table'] = {k: {} for k in 'ldqp'}
        return o, ['x'], {}, Raises('AssertionError', 'KeyError', 'ValueError')
    out.append(Case(f"{cls}.__getitem__", "no such column", build, cls=cls, name='__getitem__'))
    return out


# --- interpolation functions installed by the constructor ----------------------
def form_cases(cls='LifeTable'):
    """force, survival, lives and density at fractional ages agree with the interpolated table"""
    out = []
    for udd in (True, False):
        tag = 'UDD' if udd else 'constant force'
        for nm in ('S', 'l', 'mu', 'f'):
            for mode in ('n', 'n+r', 'r', '0'):
                if nm == 'mu' and mode in ('n', '0'):
                    continue          # a density at the break point of the interpolation is conventional

                def build(it, c, nm=nm, mode=mode, udd=udd):
                    w = World(it, c, tmode='in')
                    w.F.udd = udd
                    n, r = pint('n'), sym('r', 'frac')
                    t = {'n': n, 'n+r': n + r, 'r': r, '0': R0}[mode]
                    w.F.maxage = w.x + w.s + n + pint('k') + 2
                    al.CTX.omega = None
                    use_table(w)
                    f = w.obj.cls.find('__init__')
                    it.call_method(w.obj, f[1], f[0], [], {'udd': udd})
                    for k in ('interest', '_MAXAGE', '_MINAGE', '_RADIX', '_table', 'udd_'):
                        w.obj.attrs.pop(k, None)
                    x, s = w.x, w.s
                    args = {'S': [x, s, t], 'f': [x, s, t], 'l': [x, t], 'mu': [x, t]}[nm]
                    want = {'S': L(x, s + t) / L(x, s), 'f': F(x, s + t) / L(x, s), 'l': radix() * L(x, t),
                            'mu': F(x, t) / L(x, t)}[nm]
                    return w, args, want

                def run(model, res, nm=nm, mode=mode, build=build, udd=udd, tag=tag):
                    _form(model, res, cls, nm, f"{tag}, t={mode}", build, laws.udd() if udd else laws.cfm())
                out.append(run)
    return out


def _form(model, res, cls, nm, scen, build, law):
    """interpret the closure installed as attribute `nm` by the constructor"""
    from .obl import run_case
    c = model.classes.get(cls)
    if c is None:
        res.missing.append(f"class {cls}")
        return
    z = c.find('__init__')

    class FC(Case):
        pass

    def b(it, k):
        w, args, want = build(it, k)
        fn = w.obj.attrs.get(nm)
        if fn is None:
            raise ip.Undecided(f"constructor does not set {nm}")

        def chk(it, r, obj):
            try:
                got = it.call(fn, args, {})
            except ip.SubjectRaise as e:
                return False, f"{nm} raises {e.name}: {e.msg}"
            co = compare(got, want, lambda v: ULT(law(v)), it.trace.subs)
            if co == 'eq':
                return True, ''
            if co == 'ne':
                return False, f"{nm} computes {got!r}; contract {want!r}"
            return None, f"{nm}: {co}"
        return w, chk
    case = Case(f"{cls}.{nm}", scen, None, cls=c, name='__init__')
    case.build = lambda it, k: _late(it, k, b)
    run_case(model, res.prop, case, res)


def _late(it, k, b):
    w, chk = b(it, k)
    # the constructor is run once more on a throw-away object so that the runner has a call to make
    o = Obj(k, family=LifeF(w.I))
    o.family.names = set()
    return o, [], {}, chk


# --- filling the table -------------------------------------------------------------
A0 = 50


def lv(k):
    return sym(f"l{k}", 'pos')


def truth(n, R=None):
    """life table of n ages from A0 in terms of free symbols for the lives"""
    sc = R1 if R is None else R / lv(A0)
    l = {A0 + k: lv(A0 + k) * sc for k in range(n + 1)}
    for k in range(n):
        al.CTX.facts.append(((lv(A0 + k) - lv(A0 + k + 1)).n, True))
    return {'l': l, 'd': {a: l[a] - l[a + 1] for a in list(l)[:-1]},
            'q': {a: R1 - l[a + 1] / l[a] for a in list(l)[:-1]},
            'p': {a: l[a + 1] / l[a] for a in list(l)[:-1]}}


def tkeys(d):
    return {ip.const_int(k) if not isinstance(k, int) else k: v for k, v in d.items()}


def fill_check(inputs, want, mn, mx, before):
    def chk(it, r, obj):
        if r is not obj:
            return False, "does not return the model"
        t = obj.attrs.get('_table')
        if not isinstance(t, dict):
            return None, "table not followed"
        und = None
        for col in ('l', 'd', 'q', 'p'):
            got = {int(k): v for k, v in t[col].items()}
            if set(got) != set(want[col]):
                return False, f"column {col} holds ages {sorted(got)}; must hold {sorted(want[col])}"
            for a, v in got.items():
                c = compare(v, want[col][a], None, it.trace.subs)
                if c == 'ne':
                    return False, f"{col}[{a}] = {v!r}; consistent value {want[col][a]!r}"
                if c != 'eq':
                    und = und or f"{col}[{a}]: {c}"
        for col, d in inputs.items():
            if set(map(int, d)) != set(before[col]):
                return False, f"the caller's {col} data is modified"
        for nm, v in (('_MINAGE', mn), ('_MAXAGE', mx)):
            if ip.const_int(it.getattr(obj, nm)) != v:
                return False, f"{nm} = {it.getattr(obj, nm)!r}; must be {v}"
        return (None, und) if und else (True, '')
    return chk


def new_table(it, c):
    o = Obj(c)
    f = c.find('__init__')
    it.call_method(o, f[1], f[0], [], {})
    return o


def fill_cases(cls='LifeTable', n=4, partial=True):
    out = []
    A = list(range(A0, A0 + n))

    def add(scen, pick, anchored, fill=True, extra=None, name='set_table', last=True, mx=None):
        def build(it, c):
            o = new_table(it, c)
            R = radix()
            T = truth(n, None if anchored else R)
            inputs = {col: {it.dkey(rat(a)): T[col][a] for a in ages} for col, ages in pick.items()}
            before = {col: list(map(int, d)) for col, d in inputs.items()}
            top = max(max(v) for v in pick.values()) + 1
            want = {k: {a: v for a, v in T[k].items()} for k in T} if fill else {
                k: {a: T[k][a] for a in pick.get(k, [])} for k in T}
            if fill and not last:
                pass
            kw = dict(inputs, radix=R)
            if not fill:
                kw['fill'] = False
            if extra:
                kw.update({k: rat(v) for k, v in extra.items()})
            return o, [], kw, fill_check(inputs, want, (extra or {}).get('minage', A0), (extra or {}).get('maxage', top), before)
        if partial or len(set(a for v in pick.values() for a in v)) >= n and any(len(v) >= n for v in pick.values()):
            out.append(Case(None, f"{scen}{'' if n == 4 else f', {n} ages'}", build, cls=cls, name=name))
    full = A + [A0 + n]
    add("mortality rates", {'q': A}, False)
    add("survival rates", {'p': A}, False)
    add("deaths", {'d': A}, False)
    add("lives", {'l': full}, True)
    add("lives and deaths", {'l': A, 'd': A}, True)
    add("lives and mortality rates", {'l': A, 'q': A}, True)
    add("first number of lives and mortality rates", {'l': [A0], 'q': A}, True)
    add("last number of lives and mortality rates", {'l': [A0 + n - 1], 'q': A}, True)
    if n > 2:
        add("a middle number of lives and survival rates", {'l': [A0 + 2], 'p': A}, True)
    add("deaths at one age and mortality rates", {'d': [A0 + 1], 'q': A}, True)
    add("deaths at the last age and survival rates", {'d': [A0 + n - 1], 'p': A}, True)
    add("mixed rates and lives", {'l': [A0, A0 + 3], 'q': [A0, A0 + 2, A0 + 3], 'p': [A0 + 1]}, True)
    add("lives in part and rates for the rest", {'l': [A0, A0 + 1, A0 + 2], 'q': [A0 + 2, A0 + 3]}, True)
    add("deaths in part and rates for the rest", {'l': [A0], 'd': [A0, A0 + 2], 'q': [A0 + 1, A0 + 3]}, True)
    add("mortality rates, not filled", {'q': A}, False, fill=False)
    add("lives and deaths, not filled", {'l': A, 'd': A}, True, fill=False)
    add("explicit age range", {'q': A}, False, extra={'minage': A0, 'maxage': A0 + n})
    return out


def set_twice_cases(cls='LifeTable', n=3):
    """columns supplied in separate calls accumulate"""
    out = []

    def build(it, c):
        o = new_table(it, c)
        T = truth(n)
        A = list(range(A0, A0 + n))
        one = {it.dkey(rat(a)): T['q'][a] for a in A}
        it.call(it.getattr(o, 'set_table'), [], {'q': one, 'fill': False})
        two = {it.dkey(rat(A0)): T['l'][A0]}
        return o, [], {'l': two}, fill_check({'l': two, 'q': one}, T, A0, A0 + n, {'l': [A0], 'q': A})
    out.append(Case(None, "rates first, then lives", build, cls=cls, name='set_table'))
    return out


def table_cases(tier='quick'):
    out = lookup_cases() + end_cases() + form_cases() + fill_cases() + set_twice_cases()
    if tier == 'thorough':
        for n in (2, 3, 5, 6, 8):
            out += fill_cases(n=n, partial=n == 4)
    return out


# --- select tables (C12) ------------------------------------------------------------
def select_law(P):
    """after P years since selection, survival depends on attained age only"""
    def f(k, a):
        if k in ('L', 'F'):
            x, y = a
            if al.sign(y - P) in ('+', '0', '>='):
                g = L if k == 'L' else F
                return g(R0, x + y)
        return None
    return laws.law(f)


class SW(World):
    """select world: period P, selection ages 0..top, limiting age top + P + 1"""
    def __init__(self, it, cls, P, s, t=None, u=None, cols=('l', 'd', 'q'), beyond=False, whole=False):
        super().__init__(it, cls, tmode='in')
        self.P = P
        self.x = sym('x', 'int', 'nonneg')
        self.s, self.t, self.u = s, t, u
        h = pint('h')
        span = s + (u if u is not None else R0) + (t if t is not None and not whole else R0)
        if beyond:
            self.limit = self.x + s + (u if u is not None else R0) + h
            self.t = h + pint('k')
        else:
            self.limit = self.x + span + h
        self.top = self.limit - P - 1
        al.CTX.facts.append((self.top.n - self.x.n, False))
        F_ = self.F
        F_.maxage = self.limit
        al.CTX.omega = self.limit
        F_.extra['_MAXAGE'] = self.top
        F_.extra['periods_'] = rat(P)
        F_.extra['_select'] = {c: self.col(c) for c in ('l', 'd', 'q', 'e', 'A', 'a')}
        self.cols = cols
        self.law = select_law(P)

    def cell(self, c, x, s):
        if c == 'l':
            return self.law(radix() * L(x, s))
        if c == 'd':
            return self.law(radix() * (L(x, s) - L(x, s + 1)))
        if c == 'q':
            return self.law(R1 - L(x, s + 1) / L(x, s))
        return rat(al.Atom('cell', (x, s, rat({'e': 1, 'A': 2, 'a': 3}[c]))))

    def col(self, c):
        o = Obj(None, name=f"select {c}")

        def has(it, k):
            if c not in self.cols:
                return False
            k = ip.num(it.force(k))
            a, b = al.sign(k), al.sign(self.top - k)
            if a == '-' or b == '-':
                return False
            if a in ('+', '0', '>=') and b in ('+', '0', '>='):
                return True
            return ip.Unknown(f"is selection age {k} in the table")

        def get(it, k, node=None):
            z = has(it, k)
            if z is False:
                raise ip.SubjectRaise('KeyError', f"age {k} not in the table", node)
            if z is not True:
                return z
            return self.row(c, ip.num(it.force(k)))
        o.table_has, o.table_get = has, get
        return o

    def row(self, c, x):
        o = Obj(None, name=f"select row {c}")

        def has(it, k):
            k = ip.num(it.force(k))
            a, b = al.sign(k), al.sign(rat(self.P) - k)
            if a == '-' or b == '-':
                return False
            if a in ('+', '0', '>=') and b in ('+', '0', '>='):
                return True
            return ip.Unknown(f"is duration {k} in the table")

        def get(it, k, node=None):
            z = has(it, k)
            if z is False:
                raise ip.SubjectRaise('KeyError', f"duration {k} not in the table", node)
            if z is not True:
                return z
            return self.cell(c, x, ip.num(it.force(k)))
        o.table_has, o.table_get = has, get
        return o


def select_lookup_cases(cls='SelectLife', tier='quick'):
    out = []

    def add(nm, scen, P, s, argf, want=None, cols=('l', 'd', 'q'), law=True, **kw):
        def build(it, c):
            ss = s() if callable(s) else rat(s)
            k2 = {a: (b() if callable(b) else b) for a, b in kw.items()}
            w = SW(it, c, P, ss, cols=cols, **k2)
            a = argf(w)
            wv = want(it, w, a) if want else sp.LIFE[nm](it, w.F, dict(a))
            return w.obj, [], a, wv
        out.append(Case(None, f"period {P}, {scen}", build, law=select_law(P), cls=cls, name=nm))
    Ps = (0, 1, 2, 3)
    for P in Ps:
        svals = [(str(i), i) for i in range(P + 2)] + [('n', lambda P=P: pint('n') + P)]
        for sn, s in svals:
            add('l_x', f"s={sn}", P, s, lambda w: xs(w))
            add('d_x', f"s={sn}, one year", P, s, lambda w: xs(w), t=R1)
            ult = callable(s) or s >= P
            for t in ([1, 2, P + 2] if not ult else [1, 2, 'm']):
                tt = (lambda: pint('m')) if t == 'm' else rat(t)
                for nm in ('p_x', 'q_x', 'd_x', 'E_x'):
                    add(nm, f"s={sn}, t={t}", P, s, lambda w: xs(w, t=w.t), t=tt)
                for u in ([1, P + 1] if not ult else [1, 'k']):
                    uu = (lambda: pint('k')) if u == 'k' else rat(u)
                    add('q_x', f"s={sn}, t={t}, u={u}", P, s, lambda w: xs(w, t=w.t, u=w.u), t=tt, u=uu)
            add('p_x', f"s={sn}, t=0", P, s, lambda w: xs(w, t=R0), lambda it, w, a: R1)
            add('p_x', f"s={sn}, t omitted", P, s, lambda w: xs(w), t=R1)
            for c, nm in (('A', 'A_x'), ('a', 'a_x'), ('e', 'e_x')):
                full = ('l', 'd', 'q', c)

                def cell(it, w, a, c=c):
                    x, s = w.x, w.s
                    d = s - w.P
                    return w.cell(c, x + d, rat(w.P)) if al.sign(d) == '+' else w.cell(c, x, s)
                add(nm, f"s={sn}, whole life value in the table", P, s, lambda w: xs(w), cell, cols=full)
                if c == 'A':
                    add('whole_life_insurance', f"s={sn}, value in the table", P, s, lambda w: xs(w, b=w.b),
                        lambda it, w, a, cell=cell: w.b * cell(it, w, a), cols=full)
                for cols, tag in ((full, 'table value not applicable'), (('l', 'd', 'q'), 'no table value')):
                    if c == 'e':
                        add(nm, f"s={sn}, t=2, {tag}", P, s, lambda w: xs(w, t=w.t), cols=cols, t=rat(2))
                        if ult:
                            add(nm, f"s={sn}, t=m, {tag}", P, s, lambda w: xs(w, t=w.t), cols=cols, t=lambda: pint('m'))
                            add(nm, f"s={sn}, t beyond, {tag}", P, s, lambda w: xs(w, t=w.t), cols=cols, beyond=True)
                            for m in (2, -2):
                                add(nm, f"s={sn}, t=m, moment {m}, {tag}", P, s, lambda w, m=m: xs(w, t=w.t, moment=rat(m)), cols=cols, t=lambda: pint('m'))
                        continue
                    from .life_obl import user_benefit, const_benefit
                    add(nm, f"s={sn}, term t=m, {tag}", P, s, lambda w: xs(w, t=w.t), lambda it, w, a, nm=nm: sp.LIFE[nm](
                        it, w.F, {**a, 'benefit': const_benefit(R1)}), cols=cols, t=lambda: pint('m'))
                    add(nm, f"s={sn}, deferred, {tag}", P, s, lambda w: xs(w, u=w.u), lambda it, w, a, nm=nm: sp.LIFE[nm](
                        it, w.F, {**a, 'benefit': const_benefit(R1)}), cols=cols, u=lambda: pint('k'))
                    add(nm, f"s={sn}, varying benefit, {tag}", P, s, lambda w: xs(w, benefit=user_benefit()), cols=cols)
                if c == 'A':
                    for m in (1,):
                        add('whole_life_insurance', f"s={sn}, no table value", P, s, lambda w: xs(w, b=w.b))
                if c == 'e' and ult:
                    add('e_x', f"s={sn}, whole life, no table value", P, s, lambda w: xs(w), cols=('l', 'd', 'q'))
    return out


# filling select tables
def sel_truth(P, xs_, delta, want=('l', 'q', 'd')):
    """cells of a select table over selection ages xs_ in terms of free symbols"""
    last = xs_[-1]
    lu = lambda a: sym(f"u{a}", 'pos')

    def l(x, s):
        return sym(f"l{x}_{s}", 'pos') if s < P else lu(x + s)
    T = {'l': {}, 'q': {}, 'd': {}}
    for x in xs_:
        for s in range(P + 1):
            T['l'][x, s] = l(x, s)
            T['q'][x, s] = R1 - l(x, s + 1) / l(x, s)
            T['d'][x, s] = l(x, s) - l(x, s + 1)
            al.CTX.facts.append(((l(x, s) - l(x, s + 1)).n, True))
    v = al.exp(-delta)
    for c in ('A', 'a', 'e'):
        T[c] = {}
        nxt = sym(f"{c}end", 'pos')           # value at the ultimate end of the table
        ultv = {}
        for x in reversed(xs_):
            q = T['q'][x, P]
            if x == last:
                ultv[x] = nxt
            else:
                ultv[x] = step(c, v, q, ultv[x + 1])
            T[c][x, P] = ultv[x]
        for x in xs_:
            z = ultv[x]
            for s in range(P - 1, -1, -1):
                z = step(c, v, T['q'][x, s], z)
                T[c][x, s] = z
    return T


def step(c, v, q, nxt):
    if c == 'A':
        return v * (q + (R1 - q) * nxt)
    if c == 'a':
        return R1 + v * (R1 - q) * nxt
    return (R1 - q) * (R1 + nxt)


def sel_check(T, given, P, X, need, radix_scale=None):
    def chk(it, r, obj):
        if r is not obj:
            return False, "does not return the model"
        t = obj.attrs.get('_select')
        if not isinstance(t, dict):
            return None, "table not followed"
        und = None
        for c in T:
            got = {}
            for x, row in t.get(c, {}).items():
                if not isinstance(row, dict):
                    return None, "row not followed"
                for s, v in row.items():
                    got[int(x), int(s)] = v
            miss = [k for k in need.get(c, ()) if k not in got]
            if miss:
                return False, f"{c} at [x]+s = {miss[:3]} is not filled"
            for k, v in got.items():
                if k not in T[c]:
                    return False, f"{c} at [x]+s = {k} is outside the table"
                co = compare(v, T[c][k], None, it.trace.subs)
                if co == 'ne':
                    return False, f"{c} at [{k[0]}]+{k[1]} = {v!r}; consistent value {T[c][k]!r}"
                if co != 'eq':
                    und = und or f"{c}[{k}]: {co}"
        for nm, v in (('_MINAGE', X[0]), ('_MAXAGE', X[-1]), ('periods_', P)):
            if ip.const_int(it.getattr(obj, nm)) != v:
                return False, f"{nm} = {it.getattr(obj, nm)!r}; must be {v}"
        return (None, und) if und else (True, '')
    return chk


def new_select(it, c, P=0):
    o = Obj(c)
    f = c.find('__init__')
    it.call_method(o, f[1], f[0], [], {'periods': rat(P)} if P else {})
    I = sp.Interest('pos')
    o.attrs['interest'] = Obj(it.model.classes.get('Interest'), family=sp.InterestF(I), name='Interest')
    return o, I


def select_fill_cases(cls='SelectLife', tier='quick'):
    out = []

    def add(scen, P, pick, need, n=3, fill=True, via='set_table'):
        """pick(X) -> {col: {x: [s,...]}}"""
        def build(it, c):
            o, I = new_select(it, c, P if via == 'set_select' else 0)
            X = list(range(A0, A0 + n))
            T = sel_truth(P, X, I.delta)
            p = pick(X)
            if 'l' not in p:
                R = radix()
                for col in ('l', 'd'):
                    T[col] = {k: v * R / sel_l(P, X[0], 0) for k, v in T[col].items()}
            nd = need(X)
            nd = {c_: ks if ks != 'all' else [(x, s) for x in X for s in range(P + 1)] for c_, ks in nd.items()}
            if 'd' in nd and nd['d'] == [(x, s) for x in X for s in range(P + 1)]:
                nd['d'] = [k for k in nd['d'] if k != (X[-1], P)]
            chk = sel_check(T, p, P, X, nd)
            if via == 'set_table':
                kw = {col: {it.dkey(rat(x)): [T[col][x, s] for s in rows] for x, rows in d.items()} for col, d in p.items()}
                if not fill:
                    kw['fill'] = False
                return o, [], dict(kw, radix=radix()), chk
            cells = {}
            for col, d in p.items():
                for x, rows in d.items():
                    for s in rows:
                        cells.setdefault(s, {}).setdefault(col, {})[x] = T[col][x, s]
            items = sorted(cells.items())
            for i, (s, cols) in enumerate(items):
                asel = s % 2 == 0
                kw = {col: {it.dkey(rat(x if asel else x + s)): v for x, v in d.items()} for col, d in cols.items()}
                a = [rat(s), asel]
                if i == len(items) - 1:
                    return o, a, dict(kw, fill=fill, radix=radix()), chk
                it.call(it.getattr(o, 'set_select'), a, kw)
        out.append(Case(None, f"period {P}, {scen}", build, cls=cls, name=via))
    allr = lambda P: (lambda X: {x: list(range(P + 1)) for x in X})
    for P in (0, 1, 2) + ((3,) if tier == 'thorough' else ()):
        r = allr(P)
        lqd = lambda X: {'l': 'all', 'q': 'all', 'd': 'all'}
        for via in ('set_table', 'set_select'):
            v = via
            add("mortality rates", P, lambda X, r=r: {'q': r(X)}, lqd, via=v)
            add("lives", P, lambda X, r=r, P=P: {'l': r(X)},
                lambda X, P=P: {'l': 'all', 'q': [(x, s) for x in X for s in range(P + 1) if (x, s) != (X[-1], P)], 'd': 'all'}, via=v)
            add("lives and deaths", P, lambda X, r=r: {'l': r(X), 'd': r(X)}, lqd, via=v)
            add("rates and first lives", P, lambda X, r=r: {'l': {X[0]: [0]}, 'q': r(X)}, lqd, via=v)
            if P == 0 or v == 'set_select':
                add("rates and last lives", P, lambda X, r=r, P=P: {'l': {X[-1]: [P]}, 'q': r(X)}, lqd, via=v)
            for c in ('A', 'a', 'e'):
                add(f"rates and first {c}", P, lambda X, r=r, c=c: {'q': r(X), c: {X[0]: [0]}},
                    lambda X, c=c: {'l': 'all', 'q': 'all', 'd': 'all', c: 'all'}, via=v)
                if v == 'set_select' or P == 0:
                    add(f"rates and ultimate {c}", P, lambda X, r=r, c=c, P=P: {'q': r(X), c: {X[-1]: [P]}},
                        lambda X, c=c: {'l': 'all', 'q': 'all', 'd': 'all', c: 'all'}, via=v)
            add("expectations", P, lambda X, r=r: {'e': r(X)},
                lambda X, P=P: {'e': 'all', 'q': [(x, s) for x in X for s in range(P + 1) if (x, s) != (X[-1], P)]}, via=v)
            add("mortality rates, not filled", P, lambda X, r=r: {'q': r(X)}, lambda X: {'q': 'all'}, fill=False, via=v)
    return out


def sel_l(P, x, s):
    return sym(f"l{x}_{s}", 'pos') if s < P else sym(f"u{x + s}", 'pos')


def select_read_cases(cls='SelectLife'):
    out = []
    for col in ('l', 'd', 'q', 'A', 'a', 'e'):
        def build(it, c, col=col):
            o = Obj(c)
            o.attrs['_select'] = {k: {it.dkey(rat(a)): [sym(f"{k}{a}{j}") for j in (0, 1)] for a in (50, 51)} for k in ('l', 'd', 'q', 'A', 'a', 'e')}

            def chk(it, r, obj):
                if not isinstance(r, dict) or not all(isinstance(z, (list, tuple)) for z in r.values()):
                    return None, "column not followed"
                got = {int(k): list(z) for k, z in r.items()}
                want = {a: [sym(f"{col}{a}{j}") for j in (0, 1)] for a in (50, 51)}
                if compare(got, want) == 'ne':
                    return False, f"column holds {got!r}; the table holds {want!r}"
                return True, ''
            return o, [col], {}, chk
        out.append(Case(f"{cls}.__getitem__", f"column {col}", build, cls=cls, name='__getitem__'))
    return out


def select_cases(tier='quick'):
    return select_read_cases() + select_lookup_cases(tier=tier) + select_fill_cases(tier=tier)
