"""C31: a later setting takes the place of an earlier one, and settings do not disturb each other.

Frames: what a setter may store and what it may read, over its call graph; two setters whose frames do not meet commute.
Histories: a survival function set after another; a rate of the underlying model changed after an adjustment was built on it."""
import ast
from . import algebra as al
from .algebra import rat, sym
from . import interp as ip
from .interp import Obj
from .model import Class, Func
from .obl import Case, Finding, compare
from . import surv_obl as sv
from . import mthly_obl as mt
from .effect_obl import Effects

AGES = {'_MAXAGE', '_MINAGE'}
TABLES = {'_table', '_select', 'periods_'} | AGES
FRAME = {'set_interest': {'interest'}, 'set_survival': {'S', 'f', 'l', 'mu'} | AGES,
         'set_table': TABLES, 'set_select': TABLES, 'fill_table': TABLES,
         'set_reserves': {'T', '_reserves'}, 'fill_reserves': {'T', '_reserves'},
         **{'set_' + k: {'db'} for k in ('q', 'p', 'e', 'E', 'A', 'a', 'IA', 'DA')}}
OPTIONS = {'udd_', 'maxdepth', 'mu_', 'A_', 'B_', 'c_', 'omega_', 'alpha_', 'life', 'm', 'extra_', 'risk_', 'three_term', 'approximate_mu'}
OWNED = set().union(*FRAME.values()) | OPTIONS
STATE = OWNED - OPTIONS
# what a setter needs to know of the other settings: reserves are computed from the whole model, and a select table fills
# insurances and annuities at the rate of the time
READS = {'fill_reserves': STATE, ('SelectLife', 'fill_table'): {'interest'}, ('SelectLife', 'set_table'): {'interest'}, ('SelectLife', 'set_select'): {'interest'}}


def me(f):
    a = f.node.args.posonlyargs + f.node.args.args
    return a[0].arg if a and not f.static else None


def runs_now(f):
    """nodes of the function that run when it is called: not the bodies of functions it only hands on"""
    called = {n.func.id for n in ast.walk(f) if isinstance(n, ast.Call) and isinstance(n.func, ast.Name)}
    later = {id(n.value) for n in ast.walk(f) if isinstance(n, ast.Assign) and isinstance(n.value, ast.Lambda)
             and not any(isinstance(t, ast.Name) and t.id in called for t in n.targets)}
    todo = [f]
    while todo:
        n = todo.pop()
        if id(n) in later or isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n is not f and n.name not in called:
            continue
        yield n
        todo += list(ast.iter_child_nodes(n))


def reads(model, f, cls, seen):
    """{attribute: node} the function reads of its own object when it runs, through the methods it calls"""
    out = {}
    if f in seen:
        return out
    seen.add(f)
    self = me(f)
    names = {self}
    for n in ast.walk(f.node):
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id in names:
            names |= {t.id for t in n.targets if isinstance(t, ast.Name)}
    for n in runs_now(f.node):
        if not isinstance(n, ast.Attribute) or not isinstance(n.ctx, ast.Load):
            continue
        v, z = n.value, None
        if isinstance(v, ast.Name) and v.id in names and v.id is not None:
            z = cls.find(n.attr)
        elif isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'super' and f.cls is not None:
            z = cls.find(n.attr, after=f.cls)
        elif isinstance(v, ast.Name) and isinstance(model.resolve_name(f.module, v.id), Class):
            z = model.resolve_name(f.module, v.id).find(n.attr)
        else:
            continue
        if z and isinstance(z[1], Func):
            for k, m in reads(model, z[1], cls, seen).items():
                out.setdefault(k, m)
        elif isinstance(v, ast.Name) and v.id in names:
            out.setdefault(n.attr, (f, n))
    return out


class FrameCase:
    name, scenario = 'frames', 'every setter of every class'

    def __call__(self, model, res):
        E = Effects(model).run()
        for c in model.classes.values():
            for name, frame in FRAME.items():
                z = c.find(name)
                if not z or not isinstance(z[1], Func):
                    continue
                f = z[1]
                s = E.sum[id(f)]
                where = f"{c.name}.{name}"
                res.funcs.add(f.qual)
                per = res.per.setdefault(where, [0, 0])

                def mark(bad, rule, key, what, node=None, g=None):
                    res.obligations += 1
                    per[0] += 1
                    if not bad:
                        per[1] += 1
                        res.discharged += 1
                        return
                    h = g or f
                    res.findings.append(Finding(res.prop, rule, where, key, 'setting', what, f"{h.module.file}:{(node or f.node).lineno}", []))
                # an attribute in the frame of another setter
                bad = [(r[1], n) for (r, d), n in s.eff.items() if r[0] == 'attr' and r[1] in OWNED - frame]
                mark(bad, 'stores-own-setting', 'stores', bad and f"changes {bad[0][0]}, which another setting is for", bad and bad[0][1])
                may = frame | READS.get(name, set()) | READS.get((c.name, name), set())
                may |= set().union(*[v for k, v in READS.items() if isinstance(k, tuple) and k[1] == name and c.isa(k[0])])
                got = {k: n for k, n in reads(model, f, c, set()).items() if k in STATE - may}
                k = sorted(got)[:1]
                mark(got, 'reads-own-setting', 'reads', k and f"depends on {k[0]} as it is when {name} is called", k and got[k[0]][1], k and got[k[0]][0])


class DerivedCase:
    """what an object keeps of its settings is kept up by every setter of those settings"""
    name, scenario = 'derived state', 'every attribute a constructor or setter stores'

    def __call__(self, model, res):
        E = Effects(model).run()
        setters = {}
        for c in model.classes.values():
            for name, frame in FRAME.items():
                z = c.find(name)
                if z and isinstance(z[1], Func):
                    setters.setdefault(c, []).append((name, frame, {r[1] for (r, d), n in E.sum[id(z[1])].eff.items() if r[0] == 'attr'}))
        for c in model.classes.values():
            done = set()
            for k in c.mro():
                for f in k.methods.values():
                    if f.static or f.classm or f in done or not (f.name.startswith(('set_', 'fill_')) or f.name == '__init__'):
                        continue
                    done.add(f)
                    if (c.find(f.name) or (0, 0))[1] is not f and f.name != '__init__':
                        continue
                    res.funcs.add(f.qual)
                    for attr, (deps, node) in self.kept(model, f, c).items():
                        if attr in STATE or attr in E.traceattrs:
                            continue
                        where = f"{f.qual} keeps {attr}" + (f" ({c.name})" if c is not f.cls else '')
                        res.obligations += 1
                        per = res.per.setdefault(where, [0, 0])
                        per[0] += 1
                        bad = None
                        for d in sorted(deps & STATE):
                            for name, frame, stores in setters.get(c, ()):
                                if d in frame and attr not in stores and name != f.name:
                                    bad = bad or (d, name)
                        if bad:
                            res.findings.append(Finding(res.prop, 'derived-state', where, 'kept', 'setting',
                                                        f"self.{attr} is worked out from {bad[0]} here; {bad[1]} changes {bad[0]} and leaves it as it was",
                                                        f"{f.module.file}:{node.lineno}", []))
                        else:
                            per[1] += 1
                            res.discharged += 1

    def kept(self, model, f, c):
        """{attribute: (settings its value is worked out from, node)}"""
        self_, env = me(f), {}

        def deps(e):
            out, stack = set(), [e]
            while stack:
                n = stack.pop()
                if isinstance(n, (ast.Lambda, ast.FunctionDef)):
                    a = n.args
                    own = {p.arg for p in a.posonlyargs + a.args + a.kwonlyargs}
                    for z in ast.walk(n):       # what it closes over is as it was; what it asks its object is as it will be
                        if isinstance(z, ast.Name) and isinstance(z.ctx, ast.Load) and z.id not in own and z.id != self_:
                            out |= env.get(z.id, set())
                    continue
                if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == self_ and isinstance(n.ctx, ast.Load):
                    z = c.find(n.attr)
                    out |= set(reads(model, z[1], c, set())) if z and isinstance(z[1], Func) else {n.attr}
                if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Call) and getattr(n.value.func, 'id', None) == 'super' and f.cls is not None:
                    z = c.find(n.attr, after=f.cls) if f.cls in c.mro() else None
                    out |= set(reads(model, z[1], c, set())) if z and isinstance(z[1], Func) else set()
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                    out |= env.get(n.id, set())
                stack += list(ast.iter_child_nodes(n))
            return out
        got = {}
        for _ in range(3):
            for n in ast.walk(f.node):
                if isinstance(n, ast.FunctionDef) and n is not f.node:
                    env[n.name] = env.get(n.name, set()) | deps(n)
                if isinstance(n, (ast.Assign, ast.AnnAssign, ast.AugAssign, ast.NamedExpr)) and n.value is not None:
                    d = deps(n.value)
                    for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                        for q in ast.walk(t):
                            if isinstance(q, ast.Name) and isinstance(q.ctx, ast.Store):
                                env[q.id] = env.get(q.id, set()) | d
                            if isinstance(q, ast.Attribute) and isinstance(q.ctx, ast.Store) and isinstance(q.value, ast.Name) and q.value.id == self_:
                                got[q.attr] = (got.get(q.attr, (set(), n))[0] | d, n)
        return got


# --- remembered answers ---------------------------------------------------------------------
REMEMBER = {'lru_cache', 'cache', 'cached_property', 'memoize', 'memoized'}


def _last(e):
    if isinstance(e, ast.Call):
        e = e.func
    return e.attr if isinstance(e, ast.Attribute) else getattr(e, 'id', None)


def keeps_between_calls(node):
    """a function that returns an inner function which writes into a container of the outer one: a remembering decorator"""
    for g in ast.walk(node):
        if g is node or not isinstance(g, (ast.FunctionDef, ast.Lambda)):
            continue
        a = g.args
        own = {p.arg for p in a.posonlyargs + a.args + a.kwonlyargs} | {z.arg for z in (a.vararg, a.kwarg) if z}
        for n in ast.walk(g):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                own.add(n.id)
        for n in ast.walk(g):
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id not in own:
                return True
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('setdefault', 'update', '__setitem__') \
                    and isinstance(n.func.value, ast.Name) and n.func.value.id not in own:
                return True
            if isinstance(n, ast.Nonlocal):
                return True
    return False


class MemoCase:
    """an answer that is remembered between calls depends on nothing that a setting can change"""
    name, scenario = 'remembered', 'every function of the package'

    def remembers(self, model, mod, e):
        if _last(e) in REMEMBER:
            return True
        if isinstance(e, ast.Call):
            e = e.func
        r = model.resolve_name(mod, e.id) if isinstance(e, ast.Name) else None
        return isinstance(r, Func) and keeps_between_calls(r.node)

    def volatile(self, model, E):
        out = STATE | {'life'}
        for c in model.classes.values():
            for f in c.methods.values():
                if f.name.startswith(('set_', 'fill_')):
                    out |= {r[1] for (r, d), n in E.sum[id(f)].eff.items() if r[0] == 'attr'} - E.traceattrs
        return out

    def uses(self, model, f, c, vol, node=None):
        """what a remembered function depends on that may change under the same arguments"""
        got = {k: n for k, n in reads(model, f, c, set()).items() if k in vol} if c is not None else {}
        a = f.node.args
        ps = {p.arg for p in a.posonlyargs + a.args + a.kwonlyargs} - {me(f) if f.cls is not None else None}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id in ps:
                if any(n.attr in k.methods and not k.methods[n.attr].static for k in model.classes.values()) or n.attr in vol:
                    got.setdefault(n.attr, (f, n))
        return got

    def __call__(self, model, res):
        E = Effects(model).run()
        vol = self.volatile(model, E)

        def judge(f, where, how, classes):
            res.obligations += 1
            per = res.per.setdefault(where, [0, 0])
            per[0] += 1
            for c in classes:
                got = self.uses(model, f, c, vol)
                if got:
                    k = sorted(got)[0]
                    res.findings.append(Finding(res.prop, 'answers-follow-settings', where, 'remembered', 'setting',
                                                f"answers are remembered between calls ({how}) although they depend on {k}, which may be set again",
                                                f"{f.module.file}:{f.node.lineno}", []))
                    return
            per[1] += 1
            res.discharged += 1
        for f in E.funcs:
            res.funcs.add(f.qual)
            cs = [c for c in model.classes.values() if f.cls is not None and (c.find(f.name) or (0, 0))[1] is f] or [f.cls]
            hit = next((d for d in f.node.decorator_list if self.remembers(model, f.module, d)), None)
            judge(f, f.qual, ast.unparse(hit), cs) if hit is not None else self.fine(res, f.qual)
            # a function wrapped and kept on the object
            for n in ast.walk(f.node):
                if isinstance(n, ast.Assign) and any(isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == me(f) for t in n.targets):
                    g = self.wrapped(model, f.module, n.value)
                    if isinstance(g, ast.Attribute) and isinstance(g.value, ast.Name) and g.value.id == me(f) and f.cls is not None:
                        for c in cs:
                            z = c.find(g.attr)
                            if z and isinstance(z[1], Func):
                                judge(z[1], f"{c.name}.{g.attr}", ast.unparse(n)[:60], [c])
        for c in model.classes.values():
            for k, e in c.consts.items():
                g = self.wrapped(model, c.node and next(iter(c.methods.values())).module if c.methods else None, e) if isinstance(e, ast.Call) else None
                z = c.find(g.id) if isinstance(g, ast.Name) else None
                if z and isinstance(z[1], Func):
                    judge(z[1], f"{c.name}.{k}", ast.unparse(e)[:60], [d for d in model.classes.values() if d.isa(c.name)])

    def fine(self, res, where):
        res.obligations += 1
        res.discharged += 1
        per = res.per.setdefault(where, [0, 0])
        per[0] += 1
        per[1] += 1

    def wrapped(self, model, mod, e):
        """f of remember(f) or remember(options)(f)"""
        if not isinstance(e, ast.Call) or mod is None or len(e.args) != 1:
            return None
        d = e.func.func if isinstance(e.func, ast.Call) else e.func
        return e.args[0] if self.remembers(model, mod, d) else None


def again_cases(cls='Survival'):
    """a survival function given after another one"""
    out = []
    mk = {'S': sv.u_S, 'f': sv.u_f, 'l': sv.u_l, 'mu': sv.u_mu}

    def old(k):
        return ip.Builtin(k, lambda it, a, kw, n: rat(al.Atom('disc', (sym('old' + k),) + tuple(ip.num(it.force(x)) for x in list(a) + list(kw.values())))))
    firsts = [(k,) for k in mk] + [('S', 'f', 'l', 'mu')]
    for first in firsts:
        for k in mk:
            def build(it, c, first=first, k=k):
                o = Obj(c)
                it.call(it.getattr(o, 'set_survival'), [], {**{j: old(j) for j in first}, 'maxage': sym('om0', 'int', 'pos'), 'minage': sym('mn0', 'int', 'nonneg')})
                forms = sv.forms_check({k}, sym('om', 'int', 'pos'), sym('mn', 'int', 'nonneg'))

                def chk(it, r, obj):
                    ok, why = forms(it, r, obj)
                    fn = it.getattr(obj, 'l') if ok and k != 'l' else None
                    if fn is None:
                        return ok, why
                    x, s, t = sym('x', 'int', 'nonneg'), sym('s', 'nonneg'), sym('t', 'nonneg')
                    z = compare(it.call(fn, [x, s + t], {}) / it.call(fn, [x, s], {}), al.L(x, s + t) / al.L(x, s), None, it.trace.subs)
                    return (True, '') if z == 'eq' else (False if z == 'ne' else None, "number of lives is not that of the survival function set last")
                return o, [], {k: mk[k](), 'maxage': sym('om', 'int', 'pos'), 'minage': sym('mn', 'int', 'nonneg')}, chk
            out.append(Case(None, f"from {k} after {' and '.join(first)}", build, cls=cls, name='set_survival'))
    return out


def late_cases():
    out = mt.late_source()
    for c in out:
        c.scenario += ', rate of the model changed after the adjustment was made'
    return out


def cases(model, tier='quick'):
    return [FrameCase(), DerivedCase(), MemoCase()] + again_cases() + late_cases()
