"""Transfer functions of the builtins and library functions the subject uses."""
from fractions import Fraction as Q
import ast
from . import algebra as al
from .algebra import Rat, rat, sign, R0, R1
from . import interp as ip


def _num(it, v, what='number'):
    return ip.num(it.force(v, what))


def _unk(name):
    return lambda it, a, k, n: ip.Unknown(name)


def b_print(it, a, k, n):
    it.prints += 1
    return None


def _isfloat(n):
    """an expression whose value is a float whatever its operands"""
    if isinstance(n, ast.Constant):
        return isinstance(n.value, float)
    if isinstance(n, ast.UnaryOp):
        return _isfloat(n.operand)
    if isinstance(n, ast.BinOp):
        return isinstance(n.op, ast.Div) or (isinstance(n.op, (ast.Add, ast.Sub, ast.Mult)) and (_isfloat(n.left) or _isfloat(n.right)))
    return False


def b_range(it, a, k, n):
    a = [_num(it, z) for z in a]
    if any(_isfloat(z) for z in getattr(n, 'args', ())):
        raise ip.SubjectRaise('TypeError', "'float' object cannot be interpreted as an integer", n)
    for z in a:
        if z.d is al.PONE and not al.is_int(z) and all(len(m) <= 1 and not e.t and all(x.kind == 'sym' and p == 1 for x, p in m) for m, e in z.n.t):
            raise ip.SubjectRaise('TypeError', "range of a real number", n)
    if any(al.has_kind(z, {'OPAQUE'}) for z in a):
        raise ip.Undecided("range of uninterpreted value")
    for z in a:
        if not al.is_int(z):
            raise ip.Undecided("range bound not known to be an integer")
    if len(a) == 1:
        return ip.RangeV(R0, a[0], 1)
    if len(a) == 2:
        return ip.RangeV(a[0], a[1], 1)
    st = ip.const_int(a[2])
    if st is None or st == 0:
        raise ip.Undecided("range step")
    return ip.RangeV(a[0], a[1], st)


def b_sum(it, a, k, n):
    v = a[0]
    start = a[1] if len(a) > 1 else k.get('start', R0)
    if isinstance(v, ip.Unknown):
        return v
    if isinstance(v, (Rat, bool)) or v is None:
        raise ip.SubjectRaise('TypeError', 'sum() of a number: object is not iterable', n)
    if isinstance(v, dict):
        v = [rat(z) if isinstance(z, Q) else z for z in v]
    if isinstance(v, ip.RangeV):
        nm, j = it.newsym('int', 'nonneg')
        cnt, item = it._range_info(v)
        return _num(it, start) + al.Sum(item(j), nm, R0, cnt)
    if isinstance(v, ip.SymList):
        if isinstance(v.body, ip.Unknown):
            return v.body
        return _num(it, start) + al.Sum(_num(it, v.body), v.var, v.lo, v.hi)
    if isinstance(v, (list, tuple)):
        out = _num(it, start)
        for z in v:
            z = it.force(z)
            if isinstance(z, ip.Unknown):
                return z
            out = out + ip.num(z)
        return out
    raise ip.Undecided("sum")


def b_prod(it, a, k, n):
    v = a[0]
    start = k.get('start', R1)
    if isinstance(v, ip.SymList):
        return _num(it, start) * al.Prod(_num(it, v.body), v.var, v.lo, v.hi)
    if isinstance(v, (list, tuple)):
        out = _num(it, start)
        for z in v:
            out = out * _num(it, z)
        return out
    if isinstance(v, ip.Unknown):
        return v
    raise ip.Undecided("prod")


def b_len(it, a, k, n):
    v = a[0]
    if isinstance(v, (list, tuple, dict, str)):
        return rat(len(v))
    if isinstance(v, (ip.SymList, ip.SymDict)):
        return v.hi - v.lo
    if isinstance(v, ip.RangeV):
        return it._range_info(v)[0]
    if v is None or isinstance(v, (Rat, bool)):
        raise ip.SubjectRaise('TypeError', 'object has no len()', n)
    d = it.dunder(v, '__len__')
    if d is not None:
        return d[0]
    return ip.Unknown('len')


def b_int(it, a, k, n):
    if not a:
        return R0
    v = it.force(a[0])
    if isinstance(v, (ip.Unknown, str)):
        return ip.Unknown('int')
    v = ip.num(v)
    if al.is_int(v):
        return v
    s = sign(v)
    if s in ('+', '>=', '0'):
        return al.floor(v)
    if s in ('-', '<='):
        return al.ceil(v)
    return rat(al.Atom('trunc', (v,)))


def b_float(it, a, k, n):
    v = it.force(a[0])
    if isinstance(v, str):
        if v.strip().lower() in ('inf', 'infinity', 'nan', '-inf'):
            return ip.Unknown('inf')
        return ip.Unknown('float(str)')
    if isinstance(v, ip.Unknown):
        return v
    return ip.num(v)


def b_bool(it, a, k, n):
    if isinstance(a[0], ip.Unknown):
        return a[0]
    return it.truth(a[0], 'bool()')


def b_round(it, a, k, n):
    v = it.force(a[0])
    if isinstance(v, ip.Unknown):
        return v
    v = ip.num(v)
    nd = a[1] if len(a) > 1 else k.get('ndigits')
    if nd is None:
        if al.is_int(v):
            return v
        return rat(al.Atom('round', (v,)))
    d = ip.const_int(nd)
    if d is not None and d >= 6:
        it.trace.notes.add('rounding to >=6 digits treated as identity')
        return v
    if al.is_int(v):
        return v
    return rat(al.Atom('roundd', (v, rat(d) if d is not None else ip.num(nd))))


def b_abs(it, a, k, n):
    v = it.force(a[0])
    if isinstance(v, ip.Unknown):
        return v
    return absv(ip.num(v))


def absv(v):
    s = sign(v)
    if s in ('+', '>=', '0'):
        return v
    if s in ('-', '<='):
        return -v
    w = -v
    return rat(al.Atom('abs', (v if repr(v) <= repr(w) else w,)))


def const_of(v):
    """comparable Python value of a concrete value, or None"""
    if isinstance(v, (bool, str)):
        return v
    if isinstance(v, al.Rat):
        return v.const()
    if isinstance(v, (tuple, list)):
        z = [const_of(x) for x in v]
        return None if None in z else type(v)(z)
    return None


def _minmax(which):
    def f(it, a, k, n):
        if 'key' in k:
            seq = a[0] if len(a) == 1 else a
            if isinstance(seq, (list, tuple)) and seq:
                ks = [const_of(it.call(k['key'], [z], {}, n)) for z in seq]
                if None not in ks:
                    return seq[ks.index(min(ks) if which == 'min' else max(ks))]
            return ip.Unknown('min/max with key')
        if len(a) == 1:
            a = a[0]
            if isinstance(a, ip.RangeV):
                cnt, item = it._range_info(a)
                return item(R0) if which == 'min' else item(cnt - 1)
            if isinstance(a, dict):
                a = it.iterate(a)
            if isinstance(a, (bool, al.Rat)):
                raise ip.SubjectRaise('TypeError', 'number is not iterable', n)
            if not isinstance(a, (list, tuple)):
                return ip.Unknown(which)
            if not a:
                if 'default' in k:
                    return k['default']
                raise ip.SubjectRaise('ValueError', f'{which}() of an empty sequence', n)
        if any(isinstance(z, ip.Unknown) for z in a):
            return ip.Unknown(which)
        if any(isinstance(z, (tuple, list, str)) for z in a):
            ks = [const_of(z) for z in a]
            if None in ks or len({type(z) for z in ks}) > 1:
                return ip.Unknown(which)
            try:
                return a[ks.index(min(ks) if which == 'min' else max(ks))]
            except TypeError:
                return ip.Unknown(which)
        out = _num(it, a[0])
        for z in a[1:]:
            z = _num(it, z)
            s = sign(z - out)
            if s in ('+', '>=', '0'):
                out = z if which == 'max' else out
            elif s in ('-', '<='):
                out = out if which == 'max' else z
            else:
                # clamp of a value that is one-sided in exact arithmetic
                c0, c1 = out.const(), z.const()
                if (c0 is None) != (c1 is None):
                    c, e = (c0, z) if c0 is not None else (c1, out)
                    if which == 'max' and 0 <= c <= Q(1, 1000) and e.syms():
                        if al.is_int(e):
                            pass
                        else:
                            it.trace.notes.add('clamp max(0, .) treated as identity')
                            out = e
                            continue
                    if which == 'min' and c == 1 and not al.is_int(e):
                        it.trace.notes.add('clamp min(1, .) treated as identity')
                        out = e
                        continue
                if it.decide_cmp('<', out, z, f'{which}({out}, {z})'):
                    out = z if which == 'max' else out
                else:
                    out = out if which == 'max' else z
        return out
    return f


def b_any(it, a, k, n):
    v = it.iterate(a[0])
    if not isinstance(v, list):
        return ip.Unknown('any')
    r = False
    for z in v:
        if isinstance(z, ip.Unknown):
            r = z
            continue
        if it.truth(z, 'any()'):
            return True
    return r


def b_all(it, a, k, n):
    v = it.iterate(a[0])
    if not isinstance(v, list):
        if isinstance(v, ip.SymList) and isinstance(v.body, bool):
            return v.body
        return ip.Unknown('all')
    for z in v:
        if isinstance(z, ip.Unknown):
            return z
        if not it.truth(z, 'all()'):
            return False
    return True


def b_callable(it, a, k, n):
    v = a[0]
    if isinstance(v, ip.Unknown):
        return v
    return isinstance(v, (ip.Closure, ip.Bound, ip.Builtin, ip.Func, ip.Class, ip.SpecBound))


def b_isinstance(it, a, k, n):
    v, c = a
    if isinstance(v, ip.Maybe):
        v = it.force(v)
    cs = list(c) if isinstance(c, tuple) else [c]
    names = []
    for z in cs:
        if isinstance(z, ip.Builtin):
            names.append(z.name)
        elif isinstance(z, ip.Class):
            names.append(z)
        elif isinstance(z, (bool, al.Rat, str)):
            raise ip.SubjectRaise('TypeError', 'isinstance() arg 2 must be a type', n)
        else:
            return ip.Unknown('isinstance')
    if isinstance(v, ip.Unknown):
        return v
    for z in names:
        if isinstance(z, ip.Class):
            if isinstance(v, ip.Obj) and v.cls is not None and z in v.cls.mro():
                return True
            continue
        if z == 'dict' and isinstance(v, (dict, ip.SymDict)):
            return True
        if z == 'list' and isinstance(v, (list, ip.SymList)):
            return True
        if z == 'tuple' and isinstance(v, tuple):
            return True
        if z == 'str' and isinstance(v, str):
            return True
        if z == 'bool' and isinstance(v, bool):
            return True
        if z in ('int', 'float', 'numbers.Number', 'complex') and isinstance(v, bool):
            if z == 'int':
                return True
        if z in ('int', 'float', 'numbers.Number') and isinstance(v, Rat):
            if len([q for q in names if q in ('int', 'float', 'numbers.Number')]) >= 2:
                return True
            if z == 'int' and al.is_int(v):
                return True
            if z == 'float' and not al.is_int(v) and v.const() is not None:
                return True
            if z in ('numbers.Number',):
                return True
            if z == 'int' and v.const() is not None:
                continue
            return ip.Unknown('isinstance')
    return False


def b_type(it, a, k, n):
    v = a[0]
    if isinstance(v, ip.Obj) and v.cls is not None:
        return v.cls
    return ip.Unknown('type')


def b_list(it, a, k, n):
    if not a:
        return []
    v = it.iterate(a[0])
    return v if isinstance(v, list) else (v if isinstance(v, ip.SymList) else _range_list(it, v))


def _range_list(it, v):
    cnt, item = it._range_info(v)
    nm, j = it.newsym('int', 'nonneg')
    return ip.SymList(item(j), nm, R0, cnt)


def b_tuple(it, a, k, n):
    if not a:
        return ()
    v = it.iterate(a[0])
    return tuple(v) if isinstance(v, list) else v


def b_dict(it, a, k, n):
    d = {}
    if a:
        v = a[0]
        if isinstance(v, dict):
            d.update(v)
        elif isinstance(v, (list, tuple)):
            for z in v:
                if not isinstance(z, (list, tuple)) or len(z) != 2:
                    raise ip.Undecided("dict()")
                d[it.dkey(z[0])] = z[1]
        elif isinstance(v, ip.SymDict):
            if not k:
                return v
            raise ip.Undecided("dict()")
        elif isinstance(v, ip.SymList) and isinstance(v.body, tuple) and len(v.body) == 2 and not k:
            return ip.SymDict(v.body[0], v.body[1], v.var, v.lo, v.hi)
        elif isinstance(v, ip.Unknown):
            return v
        else:
            raise ip.Undecided("dict()")
    d.update(k)
    return d


def b_zip(it, a, k, n):
    vs = [it.iterate(z) for z in a]
    if all(isinstance(z, list) for z in vs):
        return [tuple(t) for t in zip(*vs)]
    if all(not isinstance(z, list) for z in vs):
        infos = [it._range_info(z) for z in vs]
        cnt = infos[0][0]
        for c, _ in infos[1:]:
            if not (c - cnt).is_zero():
                raise ip.Undecided("zip of different lengths")
        nm, j = it.newsym('int', 'nonneg')
        return ip.SymList(tuple(f(j) for _, f in infos), nm, R0, cnt)
    raise ip.Undecided("zip")


def b_enumerate(it, a, k, n):
    v = it.iterate(a[0])
    start = a[1] if len(a) > 1 else k.get('start', R0)
    if isinstance(v, list):
        return [(ip.num(start) + i, z) for i, z in enumerate(v)]
    cnt, item = it._range_info(v)
    nm, j = it.newsym('int', 'nonneg')
    return ip.SymList((ip.num(start) + j, item(j)), nm, R0, cnt)


def b_map(it, a, k, n):
    f = a[0]
    vs = [it.iterate(z) for z in a[1:]]
    if all(isinstance(z, list) for z in vs):
        return [it.call(f, list(t), {}, n) for t in zip(*vs)]
    if len(vs) == 1:
        cnt, item = it._range_info(vs[0])
        if sign(cnt) in ('0', '-', '<='):
            return []
        nm, j = it.newsym('int', 'nonneg')
        nf = len(al.CTX.facts)
        al.CTX.facts.append(((cnt - 1 - j).n, False))
        it.generic += 1
        it.loopsyms.add(nm)
        try:
            body = it.call(f, [item(j)], {}, n)
        finally:
            it.generic -= 1
            del al.CTX.facts[nf:]
        return ip.SymList(body, nm, R0, cnt)
    raise ip.Undecided("map")


def b_filter(it, a, k, n):
    v = it.iterate(a[1])
    if not isinstance(v, list):
        raise ip.Undecided("filter")
    return [z for z in v if it.truth(z if a[0] is None else it.call(a[0], [z], {}, n))]


def b_sorted(it, a, k, n):
    v = it.iterate(a[0])
    if isinstance(v, list) and all(isinstance(z, Rat) and z.const() is not None for z in v) and not k:
        return sorted(v, key=lambda z: z.const())
    if isinstance(v, list) and all(isinstance(z, str) for z in v) and not k:
        return sorted(v)
    if isinstance(v, list) and not k and all(isinstance(z, (tuple, list)) and z and isinstance(z[0], str) for z in v) \
            and len({z[0] for z in v}) == len(v):
        return sorted(v, key=lambda z: z[0])
    raise ip.Undecided("sorted")


def b_reversed(it, a, k, n):
    v = it.iterate(a[0])
    if isinstance(v, list):
        return v[::-1]
    if isinstance(v, ip.RangeV) and v.step == 1:
        return ip.RangeV(v.hi - 1, v.lo - 1, -1)
    if isinstance(v, ip.RangeV) and v.step == -1:
        return ip.RangeV(v.hi + 1, v.lo + 1, 1)
    raise ip.Undecided("reversed")


def b_str(it, a, k, n):
    if a and isinstance(a[0], str):
        return a[0]
    d = it.dunder(a[0], '__str__') if a else None
    if d is not None:
        return d[0]
    c = ip.const_int(a[0]) if a else None
    if c is not None and isinstance(a[0], Rat):
        return str(c)
    return ip.Unknown('str')


def b_hasattr(it, a, k, n):
    o, name = a
    if isinstance(o, ip.Obj) and isinstance(name, str):
        if name in o.attrs:
            return True
        if o.cls is not None and o.cls.find(name):
            return True
        if it.specs is not None and it.specs.attr(it, o, name) is not NotImplemented:
            return True
        if o.cls is not None and not it._assigned_somewhere(o.cls, name):
            return False
        return False if not o.cls else ip.Unknown('hasattr')
    return ip.Unknown('hasattr')


def b_getattr(it, a, k, n):
    o, name = a[0], a[1]
    if isinstance(name, str):
        try:
            return it.getattr(o, name, n)
        except ip.SubjectRaise as e:
            if e.name == 'AttributeError' and len(a) > 2:
                return a[2]
            raise
    return ip.Unknown('getattr')


def b_setattr(it, a, k, n):
    o, name, v = a
    if isinstance(name, str):
        it.setattr(o, name, v, n)
        return None
    raise ip.Undecided("setattr")


def b_pow(it, a, k, n):
    return it.binop(__import__('ast').Pow(), a[0], a[1], n)


def b_divmod(it, a, k, n):
    x, y = _num(it, a[0]), _num(it, a[1])
    q = al.floor(it.div(x, y, n))
    return (q, x - y * q)


def _guard(f):
    def g(it, a, k, n):
        try:
            a2 = [_num(it, z) for z in a]
        except ip.Undecided:
            return ip.Unknown('math')
        if k:
            return ip.Unknown('math')
        try:
            return f(it, *a2)
        except ZeroDivisionError:
            raise ip.SubjectRaise('ValueError', 'math domain error', n)
    return g


def _floor(it, v):
    return v if al.is_int(v) else al.floor(v)


def _ceil(it, v):
    return v if al.is_int(v) else al.ceil(v)


def m_isclose(it, a, k, n):
    if k and set(k) - {'abs_tol', 'rel_tol', 'a', 'b'}:
        return ip.Unknown('isclose')
    if any(isinstance(z, ip.Unknown) for z in a):
        return ip.Unknown('isclose')
    x, y = (_num(it, z) for z in a[:2])
    return it.close(x, y, 'isclose')


def fun1(it, f, v, n=None):
    """apply an abstract callable to one number"""
    return _num(it, it.call(f, [v], {}, n), 'function value')


def function(f, n):
    if f is None or isinstance(f, (al.Rat, bool, str, list, tuple, dict)):
        raise ip.SubjectRaise('TypeError', f"{type(f).__name__} given where a function is needed", n)


def integral(it, f, lo, hi, n=None):
    function(f, n)
    nm, z = it.newsym()
    lo, hi = _num(it, lo), _num(it, hi)
    fl = al.CTX.flags.setdefault(nm, set())
    facts = len(al.CTX.facts)
    if sign(lo) in ('0', '+', '>='):
        fl.add('nonneg')
    al.CTX.facts.append(((z - lo).n, False))
    al.CTX.facts.append(((hi - z).n, False))
    it.generic += 1
    it.loopsyms.add(nm)
    try:
        body = fun1(it, f, z, n)
    finally:
        it.generic -= 1
        del al.CTX.facts[facts:]
    return al.Int(body, nm, lo, hi)


def derivative(it, f, x, n=None):
    function(f, n)
    nm, z = it.newsym('nonneg')
    x = _num(it, x)
    it.generic += 1
    it.loopsyms.add(nm)
    try:
        body = fun1(it, f, z, n)
    finally:
        it.generic -= 1
    return al.subst(al.D(body, nm), {nm: x})


def solve_atom(body_minus_target, nm):
    """root of body == 0 in symbol nm, as a canonical atom"""
    e = body_minus_target
    e = al.Rat(e.n)
    # clear negative powers of survival atoms that depend on the unknown? normalise leading coefficient
    e = al.subst(e, {nm: al.sym('$root')})
    ks = sorted(e.n.t, key=lambda k: repr(al.Poly({k: Q(1)})))
    # divide by the first term free of the unknown, if any, else by the first
    lead = None
    for k in ks:
        if '$root' not in al.Poly({k: Q(1)}).syms():
            lead = k
            break
    if lead is None:
        lead = ks[0]
    e = e / Rat(al.Poly({lead: e.n.t[lead]}))
    z = al._linear(e, '$root')
    if z is not None and not z[0].is_zero():
        return -z[1] / z[0]
    return rat(al.Atom('SOLVE', (e,)))


def solve(it, f, target, n=None):
    nm, z = it.newsym('nonneg')
    it.generic += 1
    it.loopsyms.add(nm)
    try:
        body = fun1(it, f, z, n)
    finally:
        it.generic -= 1
    return solve_atom(body - _num(it, target), nm)


def np_arange(it, a, k, n):
    try:
        return b_range(it, a, {}, n)
    except ip.Undecided:
        return ip.Unknown('arange')


# -- container methods --------------------------------------------------------
def m_append(it, o, a, k, n):
    if isinstance(o, list):
        if it.generic and it.appends is not None and id(o) not in it.appends['born']:
            ent = it.appends['list'].setdefault(id(o), (o, [], None))
            ent[1].append(a[0])
            return None
        o.append(a[0])
        return None
    return ip.Unknown('append')


def m_extend(it, o, a, k, n):
    if isinstance(o, list) and not it.generic:
        v = it.iterate(a[0])
        if isinstance(v, list):
            o.extend(v)
            return None
    raise ip.Undecided("extend")


def m_items(it, o, a, k, n):
    if isinstance(o, dict):
        return [(rat(q) if isinstance(q, Q) else q, v) for q, v in o.items()]
    if isinstance(o, ip.SymDict):
        return ip.SymList((o.key, o.body), o.var, o.lo, o.hi)
    z = it.specs.method(it, o, 'items', a) if it.specs is not None else None
    if z is not None:
        return z
    return ip.Unknown('items')


def m_keys(it, o, a, k, n):
    if isinstance(o, dict):
        return [rat(q) if isinstance(q, Q) else q for q in o]
    if isinstance(o, ip.SymDict):
        return ip.SymList(o.key, o.var, o.lo, o.hi)
    z = it.specs.method(it, o, 'keys', a) if it.specs is not None else None
    if z is not None:
        return z
    return ip.Unknown('keys')


def m_values(it, o, a, k, n):
    if isinstance(o, dict):
        return list(o.values())
    if isinstance(o, ip.SymDict):
        return ip.SymList(o.body, o.var, o.lo, o.hi)
    return ip.Unknown('values')


def m_get(it, o, a, k, n):
    default = a[1] if len(a) > 1 else k.get('default')
    if isinstance(o, dict) or (it.specs is not None and it.specs.is_table(o)):
        r = it.contains(o, a[0], 'get', n)
        if isinstance(r, ip.Unknown):
            return r
        return it.getitem(o, a[0], n) if r else default
    return ip.Unknown('get')


def m_setdefault(it, o, a, k, n):
    if isinstance(o, dict) and not it.generic:
        kk = it.dkey(a[0])
        return o.setdefault(kk, a[1] if len(a) > 1 else None)
    raise ip.Undecided("setdefault")


def m_update(it, o, a, k, n):
    if isinstance(o, dict) and not it.generic:
        for z in a:
            if not isinstance(z, dict):
                raise ip.Undecided("update")
            o.update(z)
        o.update(k)
        return None
    raise ip.Undecided("update")


def m_pop(it, o, a, k, n):
    if isinstance(o, dict) and not it.generic:
        kk = it.dkey(a[0])
        if kk in o:
            return o.pop(kk)
        if len(a) > 1:
            return a[1]
        raise ip.SubjectRaise('KeyError', str(kk), n)
    if isinstance(o, list) and not it.generic:
        i = ip.const_int(a[0]) if a else -1
        return o.pop(i)
    raise ip.Undecided("pop")


def m_copy(it, o, a, k, n):
    if isinstance(o, (dict, list)):
        return o.copy()
    return ip.Unknown('copy')


def _strm(name):
    def f(it, o, a, k, n):
        if isinstance(o, str) and all(isinstance(z, str) for z in a):
            try:
                return getattr(o, name)(*a)
            except Exception:
                return ip.Unknown(name)
        return ip.Unknown(name)
    return f


def m_join(it, o, a, k, n):
    v = it.iterate(a[0]) if a else []
    if isinstance(v, list) and all(isinstance(z, str) for z in v) and isinstance(o, str):
        return o.join(v)
    if isinstance(v, list) and isinstance(o, str) and any(z is None or isinstance(z, (Rat, bool, list, tuple, dict)) for z in v):
        raise ip.SubjectRaise('TypeError', 'join of something that is not text', n)
    return ip.Unknown('join')


def m_insert(it, o, a, k, n):
    i = ip.const_int(a[0]) if len(a) == 2 else None
    if isinstance(o, list) and not it.generic and i is not None:
        o.insert(i, a[1])
        return None
    raise ip.Undecided("insert")


def m_remove(it, o, a, k, n):
    if isinstance(o, list) and not it.generic:
        for i, z in enumerate(o):
            if it.equal(z, a[0], 'remove') is True:
                del o[i]
                return None
        raise ip.SubjectRaise('ValueError', 'not in list', n)
    raise ip.Undecided("remove")


def m_reverse(it, o, a, k, n):
    if isinstance(o, list) and not it.generic:
        o.reverse()
        return None
    raise ip.Undecided("reverse")


def m_clear(it, o, a, k, n):
    if isinstance(o, (list, dict)) and not it.generic:
        o.clear()
        return None
    raise ip.Undecided("clear")


def _mutates(name):
    def f(it, o, a, k, n):
        raise ip.Undecided(f"{name} on {type(o).__name__}")
    return f


def m_index(it, o, a, k, n):
    if isinstance(o, (list, tuple)):
        for i, z in enumerate(o):
            if it.equal(z, a[0], 'index') is True:
                return rat(i)
        raise ip.SubjectRaise('ValueError', 'not in list', n)
    return ip.Unknown('index')


BUILTINS = {
    'print': b_print, 'range': b_range, 'sum': b_sum, 'len': b_len, 'int': b_int, 'float': b_float, 'bool': b_bool,
    'round': b_round, 'abs': b_abs, 'min': _minmax('min'), 'max': _minmax('max'), 'any': b_any, 'all': b_all,
    'callable': b_callable, 'isinstance': b_isinstance, 'type': b_type, 'list': b_list, 'tuple': b_tuple,
    'set': b_tuple, 'frozenset': b_tuple,
    'dict': b_dict, 'zip': b_zip, 'enumerate': b_enumerate, 'map': b_map, 'filter': b_filter, 'sorted': b_sorted,
    'reversed': b_reversed, 'str': b_str, 'hasattr': b_hasattr, 'getattr': b_getattr, 'setattr': b_setattr,
    'pow': b_pow, 'divmod': b_divmod, 'repr': _unk('repr'), 'display': _unk('display'),
    '.append': m_append, '.extend': m_extend, '.items': m_items, '.keys': m_keys, '.values': m_values, '.get': m_get,
    '.setdefault': m_setdefault, '.update': m_update, '.pop': m_pop, '.copy': m_copy, '.join': m_join,
    '.lower': _strm('lower'), '.upper': _strm('upper'), '.strip': _strm('strip'), '.split': _strm('split'),
    '.replace': _strm('replace'), '.startswith': _strm('startswith'), '.endswith': _strm('endswith'),
    '.title': _strm('title'), '.index': m_index, '.insert': m_insert, '.remove': m_remove, '.reverse': m_reverse, '.clear': m_clear,
    '.sort': _mutates('sort'), '.popitem': _mutates('popitem'), '.discard': _mutates('discard'), '.add': _mutates('add'),
}

_exp = _guard(lambda it, v: al.exp(v))
_log = _guard(lambda it, v, b=None: al.log(v) if b is None else al.log(v) / al.log(b))
_sqrt = _guard(lambda it, v: al.power(v, rat(Q(1, 2))))

EXTERN = {
    'math.exp': _exp, 'math.log': _log, 'math.sqrt': _sqrt, 'math.floor': _guard(_floor), 'math.ceil': _guard(_ceil),
    'math.pow': _guard(lambda it, a, b: al.power(a, b)), 'math.fsum': b_sum, 'math.prod': b_prod,
    'math.isclose': m_isclose, 'math.fabs': b_abs, 'math.trunc': b_int,
    'math.log1p': _guard(lambda it, v: al.log(R1 + v)), 'math.expm1': _guard(lambda it, v: al.exp(v) - 1),
    'math.inf': ip.Unknown('inf') if hasattr(ip, 'Unknown') else None,
    'math.modf': _guard(lambda it, v: (v - al.floor(v), al.floor(v))),
    'numpy.exp': _exp, 'numpy.log': _log, 'numpy.sqrt': _sqrt, 'numpy.floor': _guard(_floor),
    'numpy.ceil': _guard(_ceil), 'numpy.abs': b_abs, 'numpy.power': _guard(lambda it, a, b: al.power(a, b)),
    'numpy.sum': b_sum, 'numpy.prod': b_prod, 'numpy.arange': np_arange, 'numpy.isclose': m_isclose,
    'numpy.maximum': _minmax('max'), 'numpy.minimum': _minmax('min'),
    'numpy.array': lambda it, a, k, n: a[0], 'numpy.asarray': lambda it, a, k, n: a[0],
    'functools.reduce': None, 'math.e': None,
    'scipy.special.ndtri': _guard(lambda it, v: al.ndtri(v)),
    'scipy.stats.norm.ppf': _guard(lambda it, v: al.ndtri(v)),
    'copy.copy': lambda it, a, k, n: a[0].copy() if isinstance(a[0], (dict, list)) else ip.Unknown('copy'),
}


def norm_cdf(it, a, k, n):
    names = ['x', 'loc', 'scale']
    v = dict(zip(names, a))
    v.update(k)
    try:
        x = _num(it, v['x'])
        loc = _num(it, v.get('loc', R0))
        sc = _num(it, v.get('scale', R1))
    except KeyError:
        return ip.Unknown('cdf')
    try:
        return al.ncdf((x - loc) / sc)
    except ZeroDivisionError:
        return ip.Unknown('cdf')


def b_reduce(it, a, k, n):
    f, seq = a[0], it.iterate(a[1])
    if not isinstance(seq, list):
        raise ip.Undecided("reduce")
    if len(a) > 2:
        acc = a[2]
    else:
        acc, seq = seq[0], seq[1:]
    for z in seq:
        acc = it.call(f, [acc, z], {}, n)
    return acc


EXTERN['scipy.stats.norm.cdf'] = norm_cdf


def df_from_dict(it, a, k, n):
    d = it.force(a[0])
    if not isinstance(d, dict):
        raise Undecided("data frame of unknown columns")
    o = ip.Obj(None, name='DataFrame')
    o.attrs['data'] = dict(d)

    def set_index(it, a, k, n):
        o.attrs['index'] = a[0]
        return o
    o.attrs['set_index'] = ip.Builtin('set_index', set_index)
    return o


EXTERN['pandas.DataFrame.from_dict'] = df_from_dict
EXTERN['functools.reduce'] = b_reduce


def same_function(it, a, k, n):
    """a decorator that keeps what the function computes, with or without options of its own"""
    if len(a) == 1 and isinstance(a[0], (ip.Closure, ip.Bound, ip.Builtin, ip.Func)):
        return a[0]
    return ip.Builtin('decorator', lambda it, a, k, n: a[0])


EXTERN['functools.lru_cache'] = EXTERN['functools.cache'] = same_function
EXTERN['functools.wraps'] = lambda it, a, k, n: ip.Builtin('wraps', lambda it, a, k, n: a[0])
EXTERN['math.e'] = al.exp(R1)
EXTERN['numpy.inf'] = EXTERN['math.inf']
EXTERN['numpy.e'] = EXTERN['math.e']
