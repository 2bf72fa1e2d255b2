"""C18: tracing takes no part in an answer.

Information flow over the source of every class: what the trace classes, the verbose switch and the display style
determine must not reach an answer, a stored fact, a table or an error.  The trace itself must not fail: every recorded
step carries what the recorder requires, formatting a term gives text, and the recorder's histories stay consistent."""
import ast
from . import algebra as al
from .algebra import rat, R0, R1, sym
from . import interp as ip
from .interp import Obj, Undecided, SubjectRaise
from .obl import Case, Finding, Result, run_case
from .model import Class, Func, params, is_main_guard
from . import rec_obl as ro
from .specs import WHOLE, LifeF

SEED = '_Blog'
MUTATORS = set('append extend insert pop remove clear update setdefault popitem add discard sort reverse union_update'.split())
PRINTERS = {'print', 'display_latex', 'display_pretty', 'display'}


class T:
    """taint: obj (a trace object), text (made by one) or val (any other value they determine)"""
    def __init__(self, kind, why, n=0):
        self.kind, self.why, self.n = kind, why, n       # n: how many attributes, parameters and results away


def lub(a, b):
    if a is None or b is None:
        return a or b
    order = {'obj': 0, 'text': 1, 'val': 2}
    return a if (order[a.kind], -a.n) >= (order[b.kind], -b.n) else b


def val(a):
    return a and T('val', a.why, a.n)


class Flow:
    def __init__(self, model):
        self.model = model
        self.trace = {c for c in model.classes.values() if c.isa(SEED)} if SEED in model.classes else set()
        self.attrs = {}                  # attribute name -> T
        self.param = {}                  # (id(func), name) -> T
        self.ret = {}                    # id(func) -> T
        self.byname = {}
        self.funcs = []
        self.effect = set()              # id(func): stores to something that is not part of the trace
        for m in model.modules.values():
            for f in m.funcs.values():
                self.funcs.append(f)
                self.byname.setdefault(f.name, []).append(f)
            for c in m.classes.values():
                if c in self.trace:
                    continue
                for f in c.methods.values():
                    self.funcs.append(f)
                    self.byname.setdefault(f.name, []).append(f)
        for c in self.trace:
            self.attrs[c.name] = T('obj', f"class {c.name}")
        self.bad = {}
        self.changed = True

    def seed(self, f):
        for p in all_params(f.node):
            if p == 'verbose' or (f.name == 'blog_options' and p != 'self'):
                self.param.setdefault((id(f), p), T('val', f"{f.qual}({p})"))

    def run(self):
        for f in self.funcs:
            self.seed(f)
        n = 0
        while self.changed and n < 30:
            self.changed = False
            n += 1
            self.bad = {}
            for f in self.funcs:
                Frame(self, f).go()
        return self

    def note(self, table, key, t):
        old = table.get(key)
        new = lub(old, t)
        if new is not None and (old is None or old.kind != new.kind):
            table[key] = new
            self.changed = True

    def report(self, f, node, what, t):
        self.bad.setdefault((f.qual, what), (f, node, t))


def all_params(node):
    a = node.args
    return [p.arg for p in a.posonlyargs + a.args + a.kwonlyargs] + [p.arg for p in (a.vararg, a.kwarg) if p]


class Frame:
    def __init__(self, flow, f):
        self.flow, self.f = flow, f
        self.env = {}
        self.pc = None
        self.returns = [n for n in walk_own(f.node) if isinstance(n, ast.Return) and n.value is not None
                        and not (isinstance(n.value, ast.Constant) and n.value.value is None)]
        for p in all_params(f.node):
            t = flow.param.get((id(f), p))
            if t:
                self.env[p] = t
        self.me = None
        if f.cls is not None and not f.static and f.node.args.args:
            self.me = f.node.args.args[0].arg

    def go(self):
        self.block(self.f.node.body)

    # -- expressions
    def ev(self, e):
        if e is None:
            return None
        m = getattr(self, 'x_' + type(e).__name__, None)
        if m:
            return m(e)
        t = None
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                t = lub(t, self.ev(c))
            elif isinstance(c, ast.comprehension):
                t = lub(t, self.comp(c))
            elif isinstance(c, ast.keyword):
                t = lub(t, self.ev(c.value))
        return val(t) if t and t.kind == 'obj' else t

    def comp(self, c):
        t = self.ev(c.iter)
        self.bind(c.target, t)
        for i in c.ifs:
            t = lub(t, val(self.ev(i)))
        return t

    def _comp(self, e, parts):
        t = None
        for g in e.generators:
            self.comp(g)
        for g in e.generators:
            for i in g.ifs:
                t = lub(t, val(self.ev(i)))
        for p in parts:
            t = lub(t, self.ev(p))
        return t

    def x_ListComp(self, e):
        return self._comp(e, [e.elt])
    x_SetComp = x_GeneratorExp = x_ListComp

    def x_DictComp(self, e):
        return self._comp(e, [e.key, e.value])

    def x_Name(self, e):
        if e.id in self.env:
            return self.env[e.id]
        r = self.flow.model.resolve_name(self.f.module, e.id)
        if isinstance(r, Class) and r in self.flow.trace:
            return T('obj', f"class {r.name}")
        return None

    def x_Constant(self, e):
        return None

    def x_Lambda(self, e):
        return self.ev(e.body)

    def x_Attribute(self, e):
        t = self.ev(e.value)
        if t is not None and t.kind == 'obj':
            return T('val', t.why)
        a = self.flow.attrs.get(e.attr)
        if a is not None:
            return T(a.kind, f"{ast.unparse(e)} at {self.f.module.file}:{e.lineno}", a.n + (a.kind != 'obj'))
        return t

    def x_Compare(self, e):
        t = None
        for c in [e.left] + e.comparators:
            t = lub(t, self.ev(c))
        return val(t)

    def x_IfExp(self, e):
        c = val(self.ev(e.test))
        a, b = self.ev(e.body), self.ev(e.orelse)
        if a is not None and b is not None and a.kind == b.kind and a.kind in ('obj', 'text'):
            return a                     # which style speaks is the trace's own business
        return lub(c, lub(a, b))

    def x_NamedExpr(self, e):
        t = self.ev(e.value)
        self.bind(e.target, t)
        return t

    def x_Call(self, e):
        fl = self.flow
        fn = e.func
        args = [self.ev(a.value if isinstance(a, ast.Starred) else a) for a in e.args]
        kws = {k.arg: self.ev(k.value) for k in e.keywords}
        allt = None
        for t in args + list(kws.values()):
            allt = lub(allt, t)
        if isinstance(fn, ast.Attribute):
            base = self.ev(fn.value)
            if base is not None and base.kind == 'obj':
                return T('text', base.why)
            if base is None and isinstance(fn.value, ast.Name) and fn.value.id in fl.model.classes and fl.model.classes[fn.value.id] in fl.trace:
                return T('text', fn.value.id)
            at = fl.attrs.get(fn.attr)
            if at is not None and at.kind == 'obj':           # self.blog(...), Recursion._Blog(...)
                return T('obj', at.why)
            cands = fl.byname.get(fn.attr, [])
            name = fn.attr
            recv = base
        elif isinstance(fn, ast.Name):
            t = self.x_Name(fn)
            if t is not None and t.kind == 'obj':
                return t
            r = fl.model.resolve_name(self.f.module, fn.id)
            if isinstance(r, Class) and r in fl.trace:
                return T('obj', f"class {r.name}")
            if isinstance(r, Class):
                z = r.find('__init__')
                cands = [z[1]] if z and isinstance(z[1], Func) else []
            else:
                cands = [r] if isinstance(r, Func) else []
            name, recv = fn.id, t
            if name in PRINTERS and not cands:
                return None
            if name == 'getattr' and len(e.args) > 1 and isinstance(e.args[1], ast.Constant):
                a = fl.attrs.get(e.args[1].value)
                return a or allt
        else:
            cands, name, recv = [], '', self.ev(fn)
        ret = None
        for c in cands:
            pos = [p.arg for p in c.node.args.posonlyargs + c.node.args.args]
            if c.cls is not None and not c.static:
                pos = pos[1:]
            for i, t in enumerate(args):
                if t is not None:
                    k = pos[i] if i < len(pos) else (c.node.args.vararg.arg if c.node.args.vararg else None)
                    if k:
                        fl.note(fl.param, (id(c), k), T(t.kind, t.why, t.n + 1))
            names = all_params(c.node)
            for k, t in kws.items():
                if t is not None:
                    if k in names:
                        fl.note(fl.param, (id(c), k), T(t.kind, t.why, t.n + 1))
                    elif c.node.args.kwarg:
                        fl.note(fl.param, (id(c), c.node.args.kwarg.arg), t)
            r = fl.ret.get(id(c))
            if r is not None:
                ret = lub(ret, T(r.kind, f"{c.qual}() <- {r.why}" if '<-' not in r.why else r.why, r.n + 1))
            if self.pc is not None and id(c) in fl.effect:
                fl.report(self.f, e, f"calls {c.qual}(), which changes state, only when tracing", self.pc)
        if self.pc is not None and name in MUTATORS and isinstance(fn, ast.Attribute) and not self.is_trace(fn.value) and not cands:
            fl.report(self.f, e, f"changes {ast.unparse(fn.value)} only when tracing", self.pc)
        for c in cands:
            if id(c) in fl.effect:
                self.effect()
        if name in MUTATORS and isinstance(fn, ast.Attribute) and not cands:
            if allt is not None and not self.is_trace(fn.value):
                self.store(fn.value, val(allt))
            elif not self.is_trace(fn.value) and not isinstance(fn.value, ast.Name):
                self.effect()
        if not cands:
            ret = allt if allt is None or allt.kind == 'text' else val(allt)
            ret = lub(ret, val(recv))
            if ret is not None and ret.kind == 'text' and name in ('len', 'bool', 'int', 'float', 'hash', 'id'):
                ret = val(ret)
        return ret

    def is_trace(self, e):
        t = self.ev(e)
        return t is not None and t.kind in ('obj', 'text')

    # -- effects
    def effect(self):
        if id(self.f) not in self.flow.effect:
            self.flow.effect.add(id(self.f))
            self.flow.changed = True

    def bind(self, target, t):
        if isinstance(target, ast.Name):
            if t is None or t.kind == 'val':
                t = lub(t, val(self.pc))
            if t is None:
                self.env.pop(target.id, None)
            else:
                self.env[target.id] = t
        elif isinstance(target, (ast.Tuple, ast.List)):
            for x in target.elts:
                self.bind(x, t)
        elif isinstance(target, ast.Starred):
            self.bind(target.value, t)
        else:
            self.store(target, t)

    def store(self, target, t):
        if t is None or t.kind == 'val':
            t = lub(t, val(self.pc))
        base = target
        while isinstance(base, ast.Subscript):
            k = self.ev(base.slice)
            t = lub(t, val(k))
            base = base.value
        if isinstance(base, ast.Attribute):
            if self.ev(base.value) is not None and self.ev(base.value).kind == 'obj':
                return
            if t is not None:
                self.flow.note(self.flow.attrs, base.attr, t)
            if base.attr not in self.flow.attrs:
                self.effect()
            if self.pc is not None and base.attr not in self.flow.attrs:
                self.flow.report(self.f, target, f"stores {ast.unparse(base)} only when tracing", self.pc)
        elif isinstance(base, ast.Name) and t is not None:
            self.env[base.id] = lub(self.env.get(base.id), t)

    # -- statements
    def block(self, body):
        for st in body:
            self.stmt(st)

    def stmt(self, st):
        fl = self.flow
        if isinstance(st, ast.Assign):
            t = self.ev(st.value)
            for tg in st.targets:
                self.bind(tg, t)
        elif isinstance(st, ast.AnnAssign):
            if st.value is not None:
                self.bind(st.target, self.ev(st.value))
        elif isinstance(st, ast.AugAssign):
            t = lub(self.ev(st.value), self.ev(st.target))
            self.bind(st.target, t)
        elif isinstance(st, ast.Expr):
            self.ev(st.value)
        elif isinstance(st, ast.Return):
            t = lub(self.ev(st.value), val(self.pc) if self.returns else None)
            if t is not None:
                fl.note(fl.ret, id(self.f), t)
                if t.kind == 'val' and not self.f.name.startswith('_'):
                    fl.report(self.f, st, "the returned value depends on the trace", t)
        elif isinstance(st, ast.If):
            t = val(self.ev(st.test))
            self.branch(t, [st.body, st.orelse], st)
        elif isinstance(st, (ast.For, ast.AsyncFor)):
            t = self.ev(st.iter)
            self.loop(val(t), st.body, st.orelse, st.target, t)
        elif isinstance(st, ast.While):
            self.loop(None, st.body, st.orelse, None, None, st.test)
        elif isinstance(st, (ast.With, ast.AsyncWith)):
            for i in st.items:
                t = self.ev(i.context_expr)
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, t)
            self.block(st.body)
        elif isinstance(st, ast.Try):
            a = dict(self.env)
            self.block(st.body)
            for h in st.handlers:
                b = dict(self.env)
                self.env = {k: lub(a.get(k), self.env.get(k)) for k in {*a, *self.env}}
                self.block(h.body)
                self.env = {k: lub(b.get(k), self.env.get(k)) for k in {*b, *self.env}}
            self.block(st.orelse)
            self.block(st.finalbody)
        elif isinstance(st, ast.Assert):
            t = val(self.ev(st.test))
            t = lub(t, val(self.pc))
            if t is not None:
                fl.report(self.f, st, "an assertion depends on the trace", t)
        elif isinstance(st, ast.Raise):
            if self.pc is not None:
                fl.report(self.f, st, "an error is raised depending on the trace", self.pc)
        elif isinstance(st, ast.Delete):
            for tg in st.targets:
                if isinstance(tg, (ast.Subscript, ast.Attribute)):
                    self.store(tg, None)
        elif isinstance(st, ast.FunctionDef):
            sub = dict(self.env)
            self.block(st.body)
            self.env = sub
        elif hasattr(ast, 'Match') and isinstance(st, ast.Match):
            t = val(self.ev(st.subject))
            self.branch(t, [c.body for c in st.cases], st)

    def branch(self, t, blocks, st):
        keep = self.pc
        start = dict(self.env)
        out = []
        if t is not None:
            self.pc = t
        for b in blocks:
            self.env = dict(start)
            self.block(b)
            out.append(self.env)
        self.env = {}
        for o in out:
            for k, v in o.items():
                self.env[k] = lub(self.env.get(k), v)
        self.pc = keep
        if t is not None:
            inner = [n for b in blocks for s in b for n in [s, *walk_own(s)]]
            if any(isinstance(n, (ast.Return, ast.Raise)) for n in inner):
                self.pc = t              # the rest of the function runs only on one side
            elif any(isinstance(n, (ast.Break, ast.Continue)) for n in inner):
                self.pc = t
                self.scoped = True

    def loop(self, t, body, orelse, target, it, test=None):
        keep = self.pc
        for _ in range(3):
            before = dict(self.env)
            if test is not None:
                t = val(self.ev(test))
            if t is not None:
                self.pc = lub(self.pc, t)
            if target is not None:
                self.bind(target, it)
            self.scoped = False
            self.block(body)
            # a jump that depends on the trace: 'continue' is over with the body, 'break' is not
            left = self.pc
            if any(isinstance(n, (ast.Return, ast.Raise)) for s in body for n in [s, *walk_own(s)]) and left is not keep:
                pass
            elif not any(isinstance(n, ast.Break) for s in body for n in [s, *walk_own(s)]):
                self.pc = keep if t is None else lub(keep, t)
            self.env = {k: lub(before.get(k), self.env.get(k)) for k in {*before, *self.env}}
        self.block(orelse)
        if not any(isinstance(n, (ast.Return, ast.Raise, ast.Break)) for s in body for n in [s, *walk_own(s)]):
            self.pc = keep


def walk_own(node):
    """descendants that are not inside a nested function"""
    for c in ast.iter_child_nodes(node):
        if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        yield c
        yield from walk_own(c)


class FlowCase:
    name, scenario = 'information flow', 'all classes'

    def __call__(self, model, res):
        fl = Flow(model)
        if not fl.trace:
            res.missing.append(f"class {SEED}")
            return
        fl.run()
        bad = {}
        near = min((z[2].n for z in fl.bad.values()), default=0)     # the first places the trace reaches
        fl.bad = {k: z for k, z in fl.bad.items() if z[2].n == near}
        for (q, what), (f, node, t) in fl.bad.items():
            bad.setdefault(q, []).append((what, f, node, t))
        for f in fl.funcs:
            c = f.qual
            res.obligations += 1
            res.funcs.add(c)
            per = res.per.setdefault(c, [0, 0])
            per[0] += 1
            if c in bad:
                what, g, node, t = bad[c][0]
                res.findings.append(Finding(res.prop, 'non-interference', c, 'all classes', 'flow', f"{what} (from {t.why})",
                                            f"{g.module.file}:{node.lineno}", []))
            else:
                per[1] += 1
                res.discharged += 1
        res.notes.add("attributes that belong to the trace: " + ', '.join(sorted(fl.attrs)))
        # the recorder keeps to itself
        for c in fl.trace:
            for f in c.methods.values():
                res.obligations += 1
                per = res.per.setdefault(f.qual, [0, 0])
                per[0] += 1
                w = outward(f)
                if w is not None:
                    res.findings.append(Finding(res.prop, 'non-interference', f.qual, 'recorder', 'effect',
                                                f"writes {ast.unparse(w)}, which is not its own", f"{f.module.file}:{w.lineno}", []))
                else:
                    per[1] += 1
                    res.discharged += 1


def outward(f):
    """a store or mutation in a method of the recorder outside its own attributes and locals"""
    me = None if f.static or not f.node.args.args else f.node.args.args[0].arg
    own = set()
    ps = set(all_params(f.node)) - {me}
    for n in walk_own(f.node):
        tg = []
        if isinstance(n, ast.Assign):
            tg = n.targets
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
            tg = [n.target]
        elif isinstance(n, ast.Delete):
            tg = n.targets
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            return n
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
            tg = [n.func]
        for t in tg:
            for x in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                b = x
                depth = 0
                while isinstance(b, (ast.Attribute, ast.Subscript)):
                    b = b.value
                    depth += 1
                if depth and isinstance(b, ast.Name) and (b.id in ps or (b.id != me and b.id[:1].isupper())) :
                    return x
    return None


# ---------------------------------------------------------------------------
# the recorder does not fail

class StepCase:
    """one case of the soundness analysis, asked only about its trace calls"""
    def __init__(self, case):
        self.case = case
        self.name, self.scenario = case.name, case.scenario

    def __call__(self, model, res):
        r = Result(res.prop)
        run_case(model, res.prop, self.case, r)
        res.obligations += 1
        res.funcs |= r.funcs
        res.traces += r.traces
        per = res.per.setdefault('steps of ' + self.case.construct, [0, 0])
        per[0] += 1
        mine = [f for f in r.findings if f.kind == 'raises' and ('trace:' in f.detail or "'blog'" in f.detail)]
        for f in mine:
            f.rule = 'every step is recordable'
            res.findings.append(f)
        if not mine:
            if r.undecided:
                res.undecided.append(r.undecided[0])
            else:
                per[1] += 1
                res.discharged += 1


def text(it, r, obj):
    if isinstance(r, str) or (isinstance(r, ip.Unknown) and r.reason in ('string', 'formatted string')):
        return True, ''
    if isinstance(r, ip.Unknown):
        return None, r.reason
    return False, f"gives {type(r).__name__} {r!r:.80} instead of text"


FORMS = {
    'q': ['t', 'tu', ''], 'p': ['t', ''], 'e': ['t', 'tc', 'tcm', ''], 'E': ['t', 'tn', 'tnm', ''],
    'IA': ['t', 'tb', 'tbd', ''], 'DA': ['t', 'tb', 'tbd', ''],
    'A': ['t', 'tu', 'tub', 'tubm', 'tubmn', 'tubmnd', 'mn', ''], 'a': ['t', 'tu', 'tub', 'tubv', 'tubvd', 'd', '']}


def format_cases():
    out = []
    for c in ('_Blog', 'PPrint'):
        for n, combos in FORMS.items():
            for cb in combos:
                for tm in ('term', 'whole', 'none') if 't' in cb else ('term',):
                    def b(it, cl, cb=cb, tm=tm):
                        k = {'x': sym('x', 'int', 'nonneg'), 's': sym('s', 'int', 'nonneg')}
                        v = {'t': {'term': sym('t', 'int', 'pos'), 'whole': WHOLE, 'none': R0}[tm], 'u': sym('u', 'int', 'nonneg'), 'c': True,
                             'm': sym('moment', 'int'), 'n': sym('endow', 'nonneg'), 'b': sym('b', 'pos'), 'v': True, 'd': False}
                        nm = {'t': 't', 'u': 'u', 'c': 'curtate', 'm': 'moment', 'n': 'endowment', 'b': 'b', 'v': 'variance', 'd': 'discrete'}
                        for ch in cb:
                            k[nm[ch]] = v[ch]
                        return None, [], k, text
                    out.append(Case(f"{c}.{n}", f"arguments {cb or 'omitted'}, {tm}", b, cls=c, name=n, rule='formatting gives text'))
        for scen, k in (('moment alone', {}), ('one factor', {'v': 'v'}), ('no factor', {'v': ''}), ('two factors', {'v': 'v', 'b': 'b'}), ('numeric factor', {'endow': 'e'})):
            def b(it, cl, k=k):
                kk = dict(k)
                if kk.get('endow') == 'e':
                    kk['endow'] = sym('endow', 'nonneg')
                return None, [sym('moment', 'int')], kk, text
            out.append(Case(f"{c}.m", scen, b, cls=c, name='m', rule='formatting gives text'))
    return out


LISTS = ('_history', '_rules', '_depths')


def recorder(it, cls, n, verbose=True, **kw):
    o = Obj(cls, name='trace')
    o.family = None
    known = kw.pop('known', None)
    it.call_func(cls.find('__init__')[1], o, ['Query', 'text'], {'levels': rat(3) if known else sym('levels', 'int'), 'verbose': verbose, **kw})
    o.steps = {}
    for i in range(n):
        o.steps[f"step{i}"] = f"rule{i}", rat(known[i]) if known else sym(f"d{i}", 'int')
        it.call_func(cls.find('__call__')[1], o, [f"step{i}", '=', 'term'],
                     {'depth': o.steps[f"step{i}"][1], 'rule': f"rule{i}"})
    return o


def consistent(it, o):
    n = {k: len(o.attrs[k]) for k in LISTS if isinstance(o.attrs.get(k), list)}
    if len(n) != len(LISTS):
        return None, "histories are not lists"
    if len(set(n.values())) != 1:
        return False, f"histories of different length {n}"
    h, r, d = (o.attrs[k] for k in LISTS)
    given = dict(getattr(o, 'steps', ()), new=('rule', sym('depth', 'int')))
    for m, rule, depth in zip(h, r, d):
        i = m.split(' ')[0] if isinstance(m, str) else None
        if i not in given:
            return None, "recorded message not understood"
        if rule != given[i][0]:
            return False, f"message {i} is shown with rule {rule!r}, recorded with {given[i][0]!r}"
        if repr(depth) != repr(given[i][1]):
            return False, f"message {i} is shown at the depth of another step"
    if len(set(h)) != len(h):
        return False, "a step is recorded twice"
    return True, ''


def recorder_cases():
    out = []
    for c in ('_Blog', 'PPrint'):
        for n in range(4):
            N = f"{n} recorded steps"

            def add(name, scen, mk, cap=200, c=c):
                out.append(Case(f"{c}.{name}", scen, mk, cls=c, name=name, rule='the recorder does not fail', cap=cap))

            def b_call(it, cl, n=n):
                o = recorder(it, cl, n)

                def chk(it, r, obj):
                    ok, why = consistent(it, obj)
                    if ok and len(obj.attrs['_history']) != n + 1:
                        return False, f"{len(obj.attrs['_history'])} steps after recording {n + 1}"
                    return ok, why
                return o, ['new', '=', 'term'], {'depth': sym('depth', 'int'), 'rule': 'rule'}, chk
            add('__call__', N, b_call)
            if n:
                def b_again(it, cl, n=n):
                    o = recorder(it, cl, n)

                    def chk(it, r, obj):
                        ok, why = consistent(it, obj)
                        if ok and len(obj.attrs['_history']) != n:
                            return False, f"{len(obj.attrs['_history'])} steps after repeating one of {n}"
                        return ok, why
                    return o, ['step0', '=', 'term'], {'depth': sym('depth', 'int'), 'rule': 'rule'}, chk
                add('__call__', N + ', repeated', b_again)

            def b_pop(it, cl, n=n):
                o = recorder(it, cl, n)

                def chk(it, r, obj):
                    ok, why = consistent(it, obj)
                    if ok and n and not obj.attrs['_history']:
                        return False, "the step recorded first is dropped"
                    return ok, why
                return o, [], {'depth': sym('depth', 'int')}, chk
            add('pop', N, b_pop)
            for v in (True, False):
                V = 'verbose' if v else 'silent'

                def b_str(it, cl, n=n, v=v):
                    o = recorder(it, cl, n, v)

                    def chk(it, r, obj):
                        if not (v and n):
                            return (True, '') if r == '' else (False, "text for a silent or empty trace")
                        return text(it, r, obj)
                    return o, [], {}, chk
                add('__str__', f"{N}, {V}", b_str)

                def b_len(it, cl, n=n, v=v):
                    o = recorder(it, cl, n, v)
                    return o, [], {}, rat(1 if v and n else 0)
                add('__len__', f"{N}, {V}", b_len)

                def b_dis(it, cl, n=n, v=v):
                    o = recorder(it, cl, n, v, known=(3, 2, -1))
                    p0 = it.prints

                    def chk(it, r, obj):
                        k = it.prints - p0
                        if k != (1 if v and n else 0):
                            return False, f"a {V} trace of {n} steps prints {k} times"
                        return True, ''
                    return o, [], {}, chk
                add('display', f"{N}, {V}", b_dis)
    return out


def cases(model, tier='quick'):
    out = [FlowCase()]
    out += [StepCase(c) for c in ro.soundness_cases(tier)]
    return out + format_cases() + recorder_cases()
