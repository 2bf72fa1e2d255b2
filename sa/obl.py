"""Obligation runner: interprets a method in a scenario and compares with its contract."""
import ast
import time
from . import algebra as al
from .algebra import Rat, rat, R0, R1, sign
from . import interp as ip
from .interp import Interp, explore, SubjectRaise, Undecided, Obj
from .specs import Specs
from . import witness
from .model import Class, Func, params

NONCANON = {'OPAQUE', 'RAT', 'abs', 'trunc'}


class Finding:
    def __init__(self, prop, rule, construct, scenario, kind, detail, where='', path=()):
        self.prop, self.rule, self.construct, self.scenario = prop, rule, construct, scenario
        self.kind, self.detail, self.where, self.path = kind, detail, where, list(path)

    @property
    def key(self):
        return f"{self.rule}|{self.construct}|{self.scenario}"

    def __repr__(self):
        return f"{self.rule} {self.construct} [{self.scenario}] {self.kind}: {self.detail} at {self.where}"


class Result:
    """outcome of the obligations of one property"""
    def __init__(self, prop):
        self.prop = prop
        self.obligations = 0
        self.discharged = 0
        self.undecided = []     # (construct, scenario, reason)
        self.findings = []
        self.funcs = set()
        self.traces = 0
        self.notes = set()
        self.per = {}
        self.missing = []

    def merge(self, o):
        self.obligations += o.obligations
        self.discharged += o.discharged
        self.undecided += o.undecided
        self.findings += o.findings
        self.funcs |= o.funcs
        self.traces += o.traces
        self.notes |= o.notes
        self.missing += o.missing
        if hasattr(o, 'edges'):
            if hasattr(self, 'edges'):
                self.edges.merge(o.edges)
            else:
                self.edges = o.edges
        for k, v in o.per.items():
            a = self.per.setdefault(k, [0, 0])
            a[0] += v[0]
            a[1] += v[1]


def apply_subs(v, subs):
    if isinstance(v, Rat):
        om = al.CTX.omega
        for name, r in subs:
            if om is not None:
                om = al.subst(om, {name: r})
        keep, al.CTX.omega = al.CTX.omega, om
        try:
            m = {}
            for name, r in subs:
                m = {k: al.subst(z, {name: r}) for k, z in m.items()}
                m[name] = al.subst(r, m)
            if m:
                v = al.rewrite(v, lambda k, a: m.get(a[0]) if k == 'sym' else None)
        finally:
            al.CTX.omega = keep
        return v
    if isinstance(v, tuple):
        return tuple(apply_subs(z, subs) for z in v)
    if isinstance(v, list):
        return [apply_subs(z, subs) for z in v]
    if isinstance(v, dict):
        return {k: apply_subs(z, subs) for k, z in v.items()}
    return v


def compare(got, want, law=None, subs=(), apart=None):
    """'eq' | 'ne' | reason string for undecided"""
    if apart is None:
        apart = ip.CURRENT[0].trace.apart if ip.CURRENT[0] else ()
    if isinstance(want, dict) and isinstance(got, dict):
        if set(want) != set(got):
            return 'ne'
        res = [compare(got[k], want[k], law, subs) for k in want]
        return _join(res)
    if isinstance(want, (tuple, list)) and isinstance(got, (tuple, list)):
        if len(want) != len(got):
            return 'ne'
        return _join([compare(g, w, law, subs) for g, w in zip(got, want)])
    if isinstance(got, ip.Unknown):
        return f"result not interpreted: {got.reason}"
    if isinstance(got, ip.Maybe):
        return f"result may be absent: {got.key}"
    if isinstance(want, (Rat,)) and isinstance(got, (Rat, bool)):
        g, w = apply_subs(ip.num(got), subs), apply_subs(want, subs)
        if law is not None:
            if al.req(g, w):
                return 'eq'
            try:
                g, w = law(g), law(w)
            except ZeroDivisionError:
                return "law substitution undefined"
        if al.req(g, w):
            return 'eq'
        if law is not None and al.has_kind(g, {'D1L'}):
            return "not canonical: derivative by the age of selection under a law"
        if al.has_kind(g, NONCANON) or al.has_kind(w, NONCANON):
            r = al.opaque_reason(g) or al.opaque_reason(w)
            if not r:
                # absolute values: accept either sign of the argument
                for sg in (1, -1):
                    f = lambda k, a: a[0] * sg if k == 'abs' else None
                    if al.req(al.rewrite(g, f), al.rewrite(w, f)):
                        return 'eq'
            if not r and witness.differs(g, w, apart):
                return 'ne'
            return f"not canonical: {r or 'nested quotient'}"
        diff = g - w
        if al.logs_of(diff):
            z = al.log_identity(diff)
            if z is not None:
                return 'eq' if z else 'ne'
            if not al.logs_canonical(diff):
                if witness.differs(g, w, apart):
                    return 'ne'
                return "not canonical: logarithms"
        return 'ne'
    if want is None or isinstance(want, (str, bool)):
        if isinstance(got, Rat) and isinstance(want, bool):
            return compare(got, ip.num(want), law, subs)
        return 'eq' if got == want else 'ne'
    if isinstance(want, ip.SymDict) and isinstance(got, ip.SymDict):
        m = {got.var: al.sym(want.var)}
        off = want.lo - got.lo
        it = None
        gk = al.subst(got.key, {got.var: al.sym(want.var) - off}) if isinstance(got.key, Rat) else got.key
        gb = al.subst(got.body, {got.var: al.sym(want.var) - off}) if isinstance(got.body, Rat) else got.body
        return _join([compare(gk, want.key, law, subs), compare(gb, want.body, law, subs),
                      compare(got.hi - got.lo, want.hi - want.lo, law, subs)])
    if isinstance(want, ip.SymList) and isinstance(got, ip.SymList):
        off = want.lo - got.lo
        gb = al.subst(got.body, {got.var: al.sym(want.var) - off}) if isinstance(got.body, Rat) else got.body
        return _join([compare(gb, want.body, law, subs), compare(got.hi - got.lo, want.hi - want.lo, law, subs)])
    if got is None and isinstance(want, Rat):
        return 'ne'
    return f"shape {type(got).__name__} against {type(want).__name__}"


def _join(rs):
    for r in rs:
        if r == 'ne':
            return 'ne'
    for r in rs:
        if r != 'eq':
            return r
    return 'eq'


class Case:
    """one obligation: method `name` of class `cls` in a scenario.

    build(it) -> (obj, args, kwargs, want)   called afresh for every trace
    want: domain value | Raises(names) | callable(it, result, obj) -> (ok, detail)
    """
    def __init__(self, construct, scenario, build, law=None, rule='contract', cls=None, name=None, func=None, cap=None, interp=None):
        self.cap = cap
        self.interp = interp      # rule of interpolation the law stands for
        self.construct, self.scenario, self.build, self.law, self.rule = construct, scenario, build, law, rule
        self.cls, self.name, self.func = cls, name, func


class Raises:
    def __init__(self, *names):
        self.names = names


def short(v, n=300):
    s = repr(v)
    return s if len(s) <= n else s[:n] + '...'


def _apart_here(got, want, law, trace):
    """got and want are shown to differ at points where every branch of the trace is taken"""
    if not isinstance(got, (Rat, bool)) or not isinstance(want, Rat):
        return False
    g, w = ip.num(got), want
    if law is not None:
        try:
            g, w = law(g), law(w)
        except ZeroDivisionError:
            return False
    return witness.differs(g, w, trace.apart, conds=trace.conds)


def run_case(model, prop, case, res, cap=96):
    cls = model.classes.get(case.cls) if isinstance(case.cls, str) else case.cls
    if cls is None:
        res.missing.append(f"class {case.cls}")
        return
    z = cls.find(case.name)
    if z is None or not isinstance(z[1], Func):
        res.missing.append(f"{case.cls}.{case.name}")
        return
    owner, func = z
    construct = case.construct or f"{owner.name}.{case.name}"
    res.obligations += 1
    per = res.per.setdefault(construct, [0, 0])
    per[0] += 1
    bad = None
    und = None
    compared = 0
    skipped = None
    want_box = {}

    def run():
        al.reset()
        it = Interp(model, Specs(model))

        def thunk():
            obj, args, kwargs, want = case.build(it, cls)
            want_box['w'] = want
            if func.static:
                it.specs.top = None
            bound = None
            try:
                full = list(args) if func.static else [obj] + list(args)
                b, om, de = it.bind(func.node, full, kwargs, construct)
                for k in om:
                    b[k] = it.eval_default(de[k], func)
                if not func.static:
                    b.pop(params(func.node)[0][0], None)
                kwname = params(func.node)[3]
                if kwname:
                    b.update(b.pop(kwname))
                it.specs.topbound = dict(b)
                it.specs.top = (obj.id if obj is not None else None, func.name, it.specs.key(b), func)
            except SubjectRaise:
                raise
            it.obj = obj
            if func.name == '__init__' and isinstance(obj, ip.Obj) and obj.family is None and not obj.attrs:
                obj.born = True
            r = it.call_func(func, obj, args, kwargs)
            want = want_box['w']
            if callable(want) and not isinstance(want, (Rat, ip.Builtin)):
                try:
                    return ('check', want(it, r, obj))
                except SubjectRaise as e:
                    if e.name == 'AttributeError' and not e.where and e.node is None:
                        return ('check', (None, f"the check looks at something the code does not have: {e.msg}"))
                    raise
            if isinstance(want, Raises):
                return ('noraise', r)
            try:
                return ('cmp', compare(r, want, case.law, it.trace.subs), r)
            except al.AlgebraError:
                # too large for the normal form: a witness of the difference decides all the same
                if (case.law is None or case.interp) and isinstance(r, Rat) and isinstance(want, Rat) and not it.trace.subs \
                        and witness.differs(r, want, it.trace.apart, conds=it.trace.conds, interp=case.interp):
                    return ('cmp', 'ne', r)
                raise
        return it, thunk

    for o in explore(run, case.cap or cap):
        res.traces += 1
        it = getattr(o, 'interp', None)
        if it is not None:
            res.funcs |= it.funcs
            res.notes |= o.trace.notes
        path = [f"{'' if t else 'not '}({txt})" for t, txt in o.trace.record] if o.trace else []
        weak = bool(o.trace and o.trace.weak)
        okpath = lambda o=o: not o.trace.subs and witness.reached(o.trace)
        degen = o.trace.degenerate[0] if o.trace and o.trace.degenerate else None
        want = want_box.get('w')
        if o.kind == 'undecided':
            und = und or o.value or o.err
            continue
        if o.kind == 'raise':
            e = o.err
            if isinstance(want, Raises):
                if not want.names or e.name in want.names:
                    compared += 1
                    continue
            if degen:
                skipped = degen
                continue
            if weak and not okpath():
                und = und or f"raise {e.name} on a trace whose feasibility is not established"
                continue
            bad = bad or ('raises', f"{e.name}: {e.msg}", e.where or func.where, path)
            continue
        tag = o.value
        if degen and not (tag[0] == 'check' and tag[1][0] is True) and not (tag[0] == 'cmp' and tag[1] == 'eq'):
            skipped = degen
            continue
        compared += 1
        if tag[0] == 'noraise' and any(z.startswith('assumed: ') for z in o.trace.notes):
            und = und or "an assertion on the path is " + next(z for z in sorted(o.trace.notes) if z.startswith('assumed: '))
            continue
        if tag[0] == 'noraise':
            if weak and not okpath():
                und = und or "trace of unknown feasibility"
                continue
            bad = bad or ('accepts', f"returns {short(tag[1])} where it must raise", func.where, path)
            continue
        if tag[0] == 'check':
            ok, detail = tag[1]
            if ok is True:
                continue
            if ok is None or weak:
                und = und or detail
                continue
            bad = bad or ('value', detail, func.where, path)
            continue
        c = tag[1]
        if c == 'eq':
            continue
        if c == 'ne':
            if weak and not (not o.trace.subs and _apart_here(tag[2], want, case.law, o.trace)):
                und = und or "mismatch on a trace whose feasibility is not established"
                continue
            w = apply_subs(want, o.trace.subs) if not callable(want) else want
            bad = bad or ('value', f"computes {short(tag[2])}; contract {short(w)}", func.where, path)
            continue
        und = und or c
    if bad:
        kind, detail, where, path = bad
        res.findings.append(Finding(prop, case.rule, construct, case.scenario, kind, detail, where, path))
    elif und or (skipped and not compared):
        und = und or f"only traces with {skipped}"
        res.undecided.append((construct, case.scenario, und))
    else:
        if skipped:
            res.notes.add(f"{construct}: degenerate trace {skipped} holds not compared")
        res.discharged += 1
        per[1] += 1
