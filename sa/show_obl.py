"""C25: frames and plots show the values the queries answer.

Small models of the data frame and of the drawing surface: a frame is a table of labelled cells, an axis is the list of
series drawn on it. Every labelled cell and every drawn point is compared with the contract of the query it stands for."""
import re
from fractions import Fraction as Q
from . import algebra as al
from .algebra import rat, R0, R1, sym
from . import interp as ip
from .interp import Obj, Undecided, SubjectRaise
from .obl import Case, compare
from . import specs as sp
from .life_obl import World, user_benefit, pint
from .pv_obl import contract_terms, mk_contract, loss
from .algebra import L


# -- data frames ---------------------------------------------------------------
def lab(v):
    if isinstance(v, al.Rat):
        c = v.const()
        return v if c is None else c
    return v


def eqlab(it, a, b):
    a, b = lab(a), lab(b)
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    if isinstance(a, Q) and isinstance(b, Q):
        return a == b
    return compare(rat(a), rat(b), None, it.trace.subs) == 'eq'


class Table:
    def __init__(self, it, rows, cols, cells):
        self.it, self.rows, self.cols, self.cells = it, list(rows), list(cols), cells     # cells: dict (i, j) of positions

    def find(self, labels, k):
        for i, z in enumerate(labels):
            if eqlab(self.it, z, k):
                return i
        return None

    def at(self, r, c):
        i, j = self.find(self.rows, r), self.find(self.cols, c)
        if i is None or j is None:
            return None
        return self.cells.get((i, j))


def order(labels):
    k = [lab(z) for z in labels]
    if not (all(isinstance(z, Q) for z in k) or all(isinstance(z, str) for z in k)):
        raise Undecided("order of labels")
    return sorted(range(len(k)), key=lambda i: k[i])


def out_label(v):
    return rat(v) if isinstance(v, (Q, int)) and not isinstance(v, bool) else v


def series(it, index, vals):
    o = Obj(None, name='Series')
    o.series = (list(index), list(vals))

    def mapped(it, a, k, n):
        f = a[0] if a else (k.get('func') or k.get('arg'))
        return series(it, index, [None if v is None else it.call(f, [v], {}, n) for v in vals])
    o.attrs['map'] = ip.Builtin('map', mapped)
    o.attrs['apply'] = ip.Builtin('apply', mapped)
    o.attrs['index'] = [out_label(z) for z in index]
    o.attrs['values'] = list(vals)
    o.attrs['round'] = ip.Builtin('round', lambda it, a, k, n: o)
    o.attrs['astype'] = ip.Builtin('astype', lambda it, a, k, n: o)
    o.table_get = lambda it, k, node=None: vals[[i for i, z in enumerate(index) if eqlab(it, z, k)][0]]
    return o


def frame(it, t):
    o = Obj(None, name='DataFrame')
    o.frame = t

    def upd():
        o.attrs['index'] = [out_label(z) for z in o.frame.rows]
        o.attrs['columns'] = [out_label(z) for z in o.frame.cols]

    def B(nm, f):
        o.attrs[nm] = ip.Builtin(nm, f)

    def arg(a, k, i, nm, dv=None):
        return a[i] if len(a) > i else k.get(nm, dv)

    def sort_index(it, a, k, n):
        t = o.frame
        ax = arg(a, k, 0, 'axis', R0)
        asc = k.get('ascending', True)
        if not isinstance(asc, bool):
            raise Undecided("sort order")
        byrow = ax in ('index', 'rows') if isinstance(ax, str) else ip.num(ax).is_zero()
        p = order(t.rows if byrow else t.cols)
        p = p if asc else p[::-1]
        if byrow:
            return frame(it, Table(it, [t.rows[i] for i in p], t.cols, {(a_, j): t.cells.get((i, j)) for a_, i in enumerate(p) for j in range(len(t.cols))}))
        return frame(it, Table(it, t.rows, [t.cols[j] for j in p], {(i, b): t.cells.get((i, j)) for b, j in enumerate(p) for i in range(len(t.rows))}))

    def join(it, a, k, n):
        t, u = o.frame, getattr(a[0], 'frame', None)
        if u is None or k:
            raise Undecided("join")
        cells = dict(t.cells)
        m = len(t.cols)
        for i, r in enumerate(t.rows):
            z = u.find(u.rows, r)
            for j in range(len(u.cols)):
                cells[i, m + j] = u.cells.get((z, j)) if z is not None else None
        return frame(it, Table(it, t.rows, t.cols + u.cols, cells))

    def set_index(it, a, k, n):
        v = arg(a, k, 0, 'keys')
        if not isinstance(v, (list, tuple)):
            raise Undecided("index from a column")
        if len(v) != len(o.frame.rows):
            raise SubjectRaise('ValueError', 'Length mismatch', n)
        return frame(it, Table(it, list(v), o.frame.cols, dict(o.frame.cells)))

    def rename(it, a, k, n):
        def ren(labels, m):
            if m is None:
                return labels
            if not isinstance(m, dict):
                raise Undecided("rename")
            return [next((v for kk, v in m.items() if eqlab(it, out_label(kk), z)), z) for z in labels]
        return frame(it, Table(it, ren(o.frame.rows, k.get('index')), ren(o.frame.cols, k.get('columns')), dict(o.frame.cells)))

    def same(it, a, k, n):
        return frame(it, Table(it, o.frame.rows, o.frame.cols, dict(o.frame.cells)))
    B('sort_index', sort_index)
    B('join', join)
    B('set_index', set_index)
    B('rename', rename)
    for nm in ('rename_axis', 'round', 'copy', 'astype'):
        B(nm, same)
    loc = Obj(None, name='loc')

    def loc_get(it, k, node=None):
        if isinstance(k, (tuple, list)) and len(k) == 2:
            z = o.frame.at(k[0], k[1])
            if z is None:
                raise SubjectRaise('KeyError', repr(k), node)
            return z
        i = o.frame.find(o.frame.rows, k)
        if i is None:
            raise SubjectRaise('KeyError', repr(k), node)
        return series(it, o.frame.cols, [o.frame.cells.get((i, j)) for j in range(len(o.frame.cols))])

    def loc_set(it, k, v, node=None):
        t = o.frame
        if isinstance(k, (tuple, list)) and len(k) == 2:
            r, c = k
        else:
            r, c = k, None
        i = t.find(t.rows, r)
        if i is None:
            t.rows.append(r)
            i = len(t.rows) - 1
        if c is not None:
            j = t.find(t.cols, c)
            if j is None:
                t.cols.append(c)
                j = len(t.cols) - 1
            t.cells[i, j] = v
        else:
            if not isinstance(v, (list, tuple)):
                raise Undecided("row assignment")
            if len(v) != len(t.cols):
                raise SubjectRaise('ValueError', 'cannot set a row with mismatched columns', node)
            for j, z in enumerate(v):
                t.cells[i, j] = z
        upd()

    def loc_slice(it, lo, hi):
        t = o.frame
        k = [lab(z) for z in t.rows]
        a, b = (None if z is None else lab(z) for z in (lo, hi))
        if not all(isinstance(z, Q) for z in k) or any(z is not None and not isinstance(z, Q) for z in (a, b)) or k != sorted(k):
            raise Undecided("label slice")
        p = [i for i, z in enumerate(k) if (a is None or z >= a) and (b is None or z <= b)]
        return frame(it, Table(it, [t.rows[i] for i in p], t.cols, {(n, j): t.cells.get((i, j)) for n, i in enumerate(p) for j in range(len(t.cols))}))
    loc.table_get, loc.table_set, loc.table_slice = loc_get, loc_set, loc_slice
    o.attrs['loc'] = loc

    def col_get(it, k, node=None):
        t = o.frame
        j = t.find(t.cols, k)
        if j is None:
            raise SubjectRaise('KeyError', repr(k), node)
        return series(it, t.rows, [t.cells.get((i, j)) for i in range(len(t.rows))])

    def col_set(it, k, v, node=None):
        t = o.frame
        j = t.find(t.cols, k)
        if j is None:
            t.cols.append(k)
            j = len(t.cols) - 1
        if hasattr(v, 'series'):
            idx, vals = v.series
            for i, r in enumerate(t.rows):
                z = [n for n, q in enumerate(idx) if eqlab(it, q, r)]
                t.cells[i, j] = vals[z[0]] if z else None
        elif isinstance(v, (list, tuple)) and len(v) == len(t.rows):
            for i, z in enumerate(v):
                t.cells[i, j] = z
        else:
            raise Undecided("column assignment")
        upd()
    o.table_get, o.table_set = col_get, col_set
    upd()
    return o


def dictitems(it, d):
    d = it.force(d)
    if isinstance(d, dict):
        return [(out_label(k), v) for k, v in d.items()]
    if hasattr(d, 'series'):
        return list(zip(*d.series))
    return None


def make_frame(it, data, index=None, columns=None, orient='columns'):
    data = it.force(data)
    if data is None:
        t = Table(it, list(index or []), list(columns or []), {})
        return frame(it, t)
    if hasattr(data, 'frame'):
        return frame(it, Table(it, data.frame.rows, data.frame.cols, dict(data.frame.cells)))
    if isinstance(data, (list, tuple)) and data and all(isinstance(r, (list, tuple)) for r in data):
        cols = list(columns) if columns is not None else [rat(j) for j in range(max(len(r) for r in data))]
        rows = list(index) if index is not None else [rat(i) for i in range(len(data))]
        return frame(it, Table(it, rows, cols, {(i, j): z for i, r in enumerate(data) for j, z in enumerate(r)}))
    items = dictitems(it, data)
    if items is None:
        raise Undecided("data frame of unknown data")
    outer, inner, cell = [], [], {}
    for a, d in items:
        outer.append(a)
        sub = dictitems(it, d)
        if sub is None:
            d = it.force(d)
            if not isinstance(d, (list, tuple)):
                raise Undecided("data frame column")
            names = (columns if orient == 'index' else index)
            names = list(names) if names is not None else [rat(i) for i in range(len(d))]
            if len(names) != len(d):
                raise SubjectRaise('ValueError', 'Length of values does not match length of index')
            sub = list(zip(names, d))
        for b, v in sub:
            k = next((n for n, z in enumerate(inner) if eqlab(it, z, b)), None)
            if k is None:
                inner.append(b)
                k = len(inner) - 1
            cell[len(outer) - 1, k] = v
    if orient == 'index':
        t = Table(it, outer, inner, cell)
    else:
        t = Table(it, inner, outer, {(k, o): v for (o, k), v in cell.items()})
    return frame(it, t)


def install(it):
    def DataFrame(it, a, k, n):
        b = dict(zip(['data', 'index', 'columns', 'dtype', 'copy'], a))
        b.update(k)
        return make_frame(it, b.get('data'), b.get('index'), b.get('columns'))

    def from_dict(it, a, k, n):
        b = dict(zip(['data', 'orient', 'dtype', 'columns'], a))
        b.update(k)
        o = b.get('orient', 'columns')
        if o not in ('columns', 'index'):
            raise Undecided("orientation")
        return make_frame(it, b['data'], None, b.get('columns'), o)

    def fmt(it, o, a, k, n):
        m = re.fullmatch(r'\{:\.(\d+)f\}', o) if isinstance(o, str) else None
        if m is None or len(a) != 1:
            return ip.Unknown('formatted text')
        t = Obj(None, name='text')
        t.shown = (ip.num(it.force(a[0])), int(m.group(1)))
        return t

    def rnd(it, a, k, n):
        v = it.force(a[0])
        if isinstance(v, al.Rat) and v.const() is None:
            return v
        return it_round(it, a, k, n)
    it_round = it.bt['round']
    it.bt = {**it.bt, '.format': fmt, 'round': rnd}

    def arange(it, a, k, n):
        b = dict(zip(['start', 'stop', 'step'], a))
        b.update({x: y for x, y in k.items() if x != 'dtype'})
        if len(a) == 1 and 'stop' not in b:
            b = {'start': R0, 'stop': a[0]}
        lo, hi, st = (ip.num(it.force(b.get(x, d))).const() for x, d in (('start', R0), ('stop', None), ('step', R1)))
        if None in (lo, hi, st) or st <= 0:
            raise Undecided("unknown range")
        out = []
        while lo < hi:
            out.append(rat(lo))
            lo += st
            if len(out) > 5000:
                raise Undecided("long range")
        return out

    def linspace(it, a, k, n):
        b = dict(zip(['start', 'stop', 'num'], a))
        b.update(k)
        lo, hi, m = (ip.num(it.force(b.get(x, d))).const() for x, d in (('start', None), ('stop', None), ('num', rat(50))))
        if None in (lo, hi, m) or m < 2:
            raise Undecided("unknown range")
        return [rat(lo + (hi - lo) * i / (m - 1)) for i in range(int(m))]
    it.ext = {**it.ext, 'pandas.DataFrame': DataFrame, 'pandas.DataFrame.from_dict': from_dict, 'numpy.arange': arange, 'numpy.linspace': linspace}


# -- axes -------------------------------------------------------------------------
class Draw:
    """recorder of what is drawn on an axis"""
    SERIES = {'bar': ('x', 'height'), 'plot': ('x', 'y'), 'step': ('x', 'y'), 'scatter': ('x', 'y'), 'stem': ('x', 'y')}
    QUIET = ('tick_params', 'set_title', 'set_ylabel', 'set_xlabel', 'legend', 'text', 'hlines', 'vlines', 'axhline', 'axvline', 'grid', 'set_xlim', 'set_ylim',
             'set_xticks', 'set_yticks', 'margins', 'annotate', 'set', 'spines', 'fill_between')

    def __init__(self):
        self.points = {'primary': [], 'secondary': []}

    def axis(self, which='primary'):
        o = Obj(None, name=f'{which} axis')
        pts = self.points[which]

        def drawer(nm, names):
            def f(it, a, k, n):
                b = dict(zip(names, a))
                b.update({x: y for x, y in k.items() if x in names})
                xs, ys = (it.force(b.get(z)) for z in names)
                if nm == 'plot' and (ys is None or isinstance(ys, str)):
                    raise Undecided("plot against position")
                if isinstance(xs, ip.RangeV):
                    xs = it.iterate(xs)
                if not isinstance(xs, (list, tuple)):
                    xs = [xs]
                    ys = [ys] if not isinstance(ys, (list, tuple)) else ys
                if isinstance(ys, al.Rat):
                    ys = [ys] * len(xs)
                if not isinstance(ys, (list, tuple)) or not isinstance(xs, (list, tuple)):
                    raise Undecided("series of unknown values")
                if len(xs) != len(ys):
                    raise SubjectRaise('ValueError', 'x and y must have same length', n)
                for p in zip(xs, ys):
                    pts.append((it.force(p[0]), it.force(p[1]), nm))
                art = Obj(None, name='artist')
                return [art] if nm in ('plot', 'step') else art
            return ip.Builtin(nm, f)
        for nm, names in self.SERIES.items():
            o.attrs[nm] = drawer(nm, names)
        for nm in self.QUIET:
            o.attrs[nm] = ip.Builtin(nm, lambda it, a, k, n: Obj(None, name='artist'))
        o.attrs['get_xlim'] = ip.Builtin('get_xlim', lambda it, a, k, n: (sym('xmin'), sym('xmax')))
        o.attrs['get_ylim'] = ip.Builtin('get_ylim', lambda it, a, k, n: (sym('ymin'), sym('ymax')))
        o.attrs['twinx'] = ip.Builtin('twinx', lambda it, a, k, n: self.axis('secondary'))
        return o

    def install(self, it):
        ax = self.axis()
        for nm in ('subplots',):
            it.ext = {**it.ext, f'matplotlib.pyplot.{nm}': lambda it, a, k, n: (Obj(None, name='figure'), ax)}
        for nm in ('tight_layout', 'show', 'title', 'xlabel', 'ylabel'):
            it.ext[f'matplotlib.pyplot.{nm}'] = lambda it, a, k, n: None
        return ax


def check_points(it, pts, value, must, what):
    """every point is on the curve, and the times that must be shown are"""
    k = max(1, len(pts) // 60)
    for n, (x, y, nm) in enumerate(pts):
        if n % k and n < len(pts) - 4:
            continue            # fine grid: the same expression at every time
        if x is None or isinstance(x, ip.Unknown) or isinstance(y, ip.Unknown):
            return None, "drawn values not interpreted"
        w = value(x)
        if w is None:
            if y is not None:
                return False, f"{what} drawn at {x!r} is {y!r}, must be absent"
            continue
        if y is None:
            return False, f"{what} drawn at {x!r} is missing"
        c = compare(y, w, None, it.trace.subs)
        if c == 'ne':
            return False, f"{what} drawn at {x!r} is {y!r}, must be {w!r}"
        if c != 'eq':
            return None, c
    for m in must:
        if not any(eqlab(it, x, m) for x, y, nm in pts):
            return False, f"{what} at {m!r} is not drawn"
    return True, ''


def plot_cases():
    out = []

    def plot(cls, nm, scen, value, T=None, dual=False, discrete=True, stop=3, ben=True, contract=None, given=True, regime='pos'):
        def build(it, klass):
            w = World(it, klass, tmode='in', interest=regime)
            install(it)
            d = Draw()
            ax = d.install(it)
            kw = {'x': w.x, 's': w.s}
            if stop:
                kw['stop'] = rat(stop)
            else:
                al.CTX.omega = w.F.maxage = w.x + w.s + 4
            n = stop or 4
            if T is not None:
                kw['T'] = T()
            if dual:
                kw['dual'] = True
            if given:
                kw['ax'] = ax
            if contract:
                c = contract_terms(discrete, None)
                kw['contract'] = mk_contract(it, c)
                val = lambda t: loss(w, c, t, discrete)
            else:
                kw['discrete'] = discrete
                f = user_benefit() if ben else None
                if f is not None:
                    kw['benefit'] = f
                b = (lambda t: it.call(f, [w.x, w.s + t], {})) if f is not None else (lambda t: R1)
                val = lambda t: b(t) * value(it, w, t, discrete)
            surv = lambda t: L(w.x, w.s + t) / L(w.x, w.s)

            def chk(it, r, obj):
                must = [rat(k) for k in range(n + 1)] if discrete else [R0, rat(n), rat(Q(n, 2))]
                mark = [kw['T']] if T is not None else []
                ok, why = check_points(it, d.points['primary'], val, must + mark, 'value')
                if ok is not True:
                    return ok, why
                ok, why = check_points(it, d.points['secondary'], surv, (must + mark) if dual else [], 'survival')
                if ok is not True:
                    return ok, why
                if T is None:
                    return r is None, f"returns {r!r} though no time is marked"
                c = compare(r, val(kw['T']), None, it.trace.subs)
                return (True, '') if c == 'eq' else ((False if c == 'ne' else None), f"returns {r!r}, must be the value marked")
            return w.obj, [], kw, chk
        out.append(Case(f'{cls}.{nm}', scen, build, cls=cls, name=nm))
    zf = lambda it, w, t, d: sp.LIFE['Z_from_t'](it, w.F, {'t': t, 'discrete': d})
    yf = lambda it, w, t, d: sp.LIFE['Y_from_t'](it, w.F, {'t': t, 'discrete': d})
    real = lambda: sym('k', 'int', 'nonneg') + sym('r', 'frac')
    for cls, nm, f in (('Insurance', 'Z_plot', zf), ('Annuity', 'Y_plot', yf), ('PolicyValues', 'L_plot', None)):
        con = f is None
        for d in (True, False):
            dt = 'discrete' if d else 'continuous'
            kw = dict(discrete=d, contract=con)
            plot(cls, nm, f"{dt}", f, **kw)
            plot(cls, nm, f"{dt}, own figure", f, given=False, **kw)
            plot(cls, nm, f"{dt}, survival", f, dual=True, **kw)
            plot(cls, nm, f"{dt}, time marked", f, T=real, **kw)
            plot(cls, nm, f"{dt}, time and survival marked", f, T=real, dual=True, **kw)
            plot(cls, nm, f"{dt}, time zero marked", f, T=lambda: R0, **kw)
            plot(cls, nm, f"{dt}, to the limiting age", f, stop=0, **kw)
            if not con:
                plot(cls, nm, f"{dt}, unit benefit", f, ben=False, T=real, **kw)
    # reserves
    for tag, has in (('all reserves', (0, 1, 2, 3)), ('some reserves', (0, 1, 3))):
        def build(it, cls, has=has):
            install(it)
            d = Draw()
            ax = d.install(it)
            o = Obj(cls)
            V = {rat(t): sym(f'V{t}') for t in has}
            o.attrs.update(_reserves={'V': {rat(t).const(): v for t, v in zip(has, V.values())}}, T=rat(3), _verbose=R0)

            def chk(it, r, obj):
                return check_points(it, d.points['primary'], lambda t: next((v for k, v in V.items() if eqlab(it, k, t)), None), [rat(t) for t in has], 'reserve')
            return o, [], {'ax': ax}, chk
        out.append(Case('Reserves.V_plot', tag, build, cls='Reserves', name='V_plot'))
    return out


# -- frames --------------------------------------------------------------------
def cells_are(it, r, want, rows=None, cols=None, digits=None):
    """want: {(row, col): value or None}"""
    t = getattr(r, 'frame', None)
    if t is None:
        return (None if isinstance(r, ip.Unknown) else False), f"not a data frame: {r!r}"
    for what, got, exp in (('rows', t.rows, rows), ('columns', t.cols, cols)):
        if exp is not None:
            extra = [z for z in got if not any(eqlab(it, z, e) for e in exp)]
            miss = [e for e in exp if not any(eqlab(it, z, e) for z in got)]
            if extra or miss:
                return False, f"{what} are {got!r}, must be {exp!r}"
    for (i, j), w in want.items():
        g = t.at(i, j)
        if w is None:
            if g is not None and not isinstance(g, ip.Unknown):
                return False, f"cell {i!r}, {j!r} is {g!r}, must be absent"
            continue
        if g is None:
            return False, f"cell {i!r}, {j!r} is absent, must be {w!r}"
        if hasattr(g, 'shown'):
            g, dg = g.shown
            if digits and dg < digits.get(j, 0):
                return False, f"column {j!r} is shown to {dg} digits, must be {digits[j]}"
        c = compare(g, w, None, it.trace.subs)
        if c == 'ne':
            return False, f"cell {i!r}, {j!r} is {g!r}, must be {w!r}"
        if c != 'eq':
            return None, c
    return True, ''


def frame_cases():
    out = []

    # interest functions
    def b(it, cls):
        install(it)
        i = sym('i', 'pos')
        I = sp.Interest(al.log(R1 + i))
        want = {}
        ms = (1, 2, 4, 12, 0)
        cols = ['i(m)', 'd(m)', 'i/i(m)', 'd/d(m)', 'alpha(m)', 'beta(m)']
        d = i / (R1 + i)
        for m in ms:
            v = I.v(rat(Q(1, m))) if m else None
            im = (R1 / v - 1) * m if m else al.log(R1 + i)
            dm = (R1 - v) * m if m else al.log(R1 + i)
            for c, z in zip(cols, (im, dm, i / im, d / dm, i * d / (im * dm), (i - im) / (im * dm))):
                want[rat(m), c] = z

        def chk(it, r, obj):
            return cells_are(it, r, want, [rat(m) for m in ms], cols)
        return None, [i], {}, chk
    out.append(Case('UDD.interest_frame', 'any rate', b, cls='UDD', name='interest_frame'))

    # quantiles
    def b(it, cls):
        install(it)
        p = [sym('p1', 'frac'), sym('p2', 'frac')]
        q = [al.ndtri(z) for z in p]

        def chk(it, r, obj):
            t = getattr(r, 'frame', None)
            if t is None:
                return None, "not a data frame"
            if len(t.rows) != 1:
                return False, f"rows are {t.rows!r}"
            return cells_are(it, r, {(t.rows[0], z): v for z, v in zip(q, p)}, None, q)
        return None, [p], {}, chk
    out.append(Case('Life.quantiles_frame', 'any quantiles', b, cls='Life', name='quantiles_frame'))

    # life table
    def b(it, cls):
        install(it)
        o = Obj(cls)
        tab = {'l': {21: 'l1', 20: 'l0', 22: 'l2'}, 'd': {20: 'd0', 21: 'd1'}, 'q': {20: 'q0', 21: 'q1'}}
        tab['p'] = {}
        o.attrs.update(_table={c: {Q(x): sym(v) for x, v in col.items()} for c, col in tab.items()}, _MINAGE=rat(20), _MAXAGE=rat(22), _verbose=R0)

        def chk(it, r, obj):
            want = {(rat(x), c): (sym(tab[c][x]) if x in tab[c] else None) for c in ('l', 'd', 'q') for x in (20, 21, 22)}
            ok, why = cells_are(it, r, want, [rat(x) for x in (20, 21, 22)], None)
            if ok is True and [lab(z) for z in r.frame.rows] != [20, 21, 22]:
                return False, f"ages are in the order {r.frame.rows!r}"
            return ok, why
        return o, [], {}, chk
    out.append(Case('LifeTable.frame', 'any table', b, cls='LifeTable', name='frame'))

    # select table
    for c in ('l', 'q', 'A', None):
        def b(it, cls, c=c):
            install(it)
            o = Obj(cls)
            sel = {k: {Q(21): {Q(0): sym(f'{k}210'), Q(1): sym(f'{k}211')}, Q(20): {Q(0): sym(f'{k}200'), Q(1): sym(f'{k}201')}} for k in ('l', 'd', 'q', 'e', 'A', 'a')}
            o.attrs.update(_select=sel, _MINAGE=rat(20), _MAXAGE=rat(21), periods_=R1, _verbose=R0)

            def chk(it, r, obj):
                k = c or 'l'
                want = {(rat(x), rat(s)): sym(f'{k}{x}{s}') for x in (20, 21) for s in (0, 1)}
                ok, why = cells_are(it, r, want, [rat(20), rat(21)], [R0, R1])
                if ok is True and [lab(z) for z in r.frame.rows] != [20, 21]:
                    return False, f"ages are in the order {r.frame.rows!r}"
                return ok, why
            return o, ([c] if c else []), {}, chk
        out.append(Case('SelectLife.frame', f"column {c or 'default'}", b, cls='SelectLife', name='frame'))

    # reserves
    def b(it, cls):
        install(it)
        o = Obj(cls)
        o.attrs.update(_reserves={'V': {Q(0): sym('V0'), Q(1): sym('V1'), Q(3): sym('V3')}}, T=rat(3), _verbose=R0)

        def chk(it, r, obj):
            t = getattr(r, 'frame', None)
            if t is None:
                return None, "not a data frame"
            if len(t.cols) != 1:
                return False, f"columns are {t.cols!r}"
            return cells_are(it, r, {(rat(k), t.cols[0]): sym(f'V{k}') for k in (0, 1, 3)}, None, None)
        return o, [], {}, chk
    out.append(Case('Reserves.reserves_frame', 'any reserves', b, cls='Reserves', name='reserves_frame'))

    # standard ultimate life table
    def sult(scen, kw, lo, hi):
        def b(it, cls):
            install(it)
            F = sp.LifeF(sp.Interest('pos'), maxage=rat(44))
            al.CTX.omega = rat(44)
            o = Obj(cls, family=F)
            ages = [22, 20, 21, 44] + list(range(43, 22, -1))
            o.attrs.update(_table={'l': {Q(x): L(rat(x), R0) * sym('radix', 'pos') for x in ages}}, _MINAGE=rat(20), _MAXAGE=rat(44), _verbose=R0)

            def chk(it, r, obj):
                want = {}
                R = lambda k: rat(k)
                cols = {'l_x': lambda x: L(R(x), R0) * sym('radix', 'pos'),
                        'q_x': lambda x: R1 - L(R(x), R1) / L(R(x), R0),
                        'a_x': lambda x: F.ann(R(x), R0, sp.WHOLE, R0, R1, True), 'A_x': lambda x: F.ins(R(x), R0, sp.WHOLE, R0, R1, 1, True),
                        '2A_x': lambda x: F.ins(R(x), R0, sp.WHOLE, R0, R1, 2, True)}
                for n in (10, 20):
                    cols[f'a_x:{n}'] = lambda x, n=n: sp.LIFE['temporary_annuity'](it, F, {'x': R(x), 't': R(n)})
                    cols[f'A_x:{n}'] = lambda x, n=n: sp.LIFE['endowment_insurance'](it, F, {'x': R(x), 't': R(n)})
                for n in (5, 10, 20):
                    cols[f'{n}_E_x'] = lambda x, n=n: sp.LIFE['E_x'](it, F, {'x': R(x), 't': R(n)})
                digits = dict(zip(['l_x', 'q_x', 'a_x', 'A_x', '2A_x', 'a_x:10', 'A_x:10', 'a_x:20', 'A_x:20', '5_E_x', '10_E_x', '20_E_x'], [1, 6, 4, 5, 5, 4, 5, 4, 5, 5, 5, 5]))
                for c, f in cols.items():
                    for x in (20, 22, 24, 30, 33, 38, 40, 43):
                        if lo <= x <= hi:
                            want[R(x), c] = f(x)
                return cells_are(it, r, want, [R(x) for x in range(lo, hi + 1)], list(cols), digits)
            return o, [], kw, chk
        out.append(Case('SULT.frame', scen, b, cls='SULT', name='frame'))
    sult('all ages', {}, 20, 44)
    sult('some ages', {'minage': rat(21), 'maxage': rat(30)}, 21, 30)
    return out


def cases(model, tier='quick'):
    return plot_cases() + frame_cases()
