"""C23: no query fails on a name.

Resolution of every name, attribute and call of the source: names are bound, attributes exist in every class whose
methods may read them, locals are assigned on every path that reads them, and every internal call binds to the
signature of every definition it may reach."""
import ast
import builtins
import copy
import symtable
from .model import Class, Func, params, is_main_guard, is_dead
from .obl import Finding
from .trace_obl import all_params, walk_own

BUILTIN = set(dir(builtins)) | {'__file__', '__name__', '__doc__'}


def bound_names(node):
    """names a function body binds (own scope)"""
    out = set(all_params(node)) if hasattr(node, 'args') else set()
    for n in walk_scope(node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar, ast.MatchMapping)):
            out |= patnames(n)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add(a.asname or a.name.split('.')[0])
    return out


def walk_scope(node):
    """nodes of the scope of a function: not inside nested functions, lambdas, classes (comprehension bodies included)"""
    body = node.body if isinstance(node.body, list) else [node.body]
    todo = list(body)
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        todo.extend(ast.iter_child_nodes(n))


def private(name):
    return name.startswith('_') and not name.startswith('__')


class Names:
    def __init__(self, model):
        self.model = model
        self._runs = {}
        self._reached, self._outer = {}, None
        self.sub = {}
        for c in model.classes.values():
            for x in c.mro():
                self.sub.setdefault(x, []).append(c)
        self.attrs = {}
        for c in model.classes.values():
            a = set()
            for f in c.methods.values():
                ps = f.node.args.posonlyargs + f.node.args.args
                me = ps[0].arg if ps and not f.static else None
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id in (me, c.name):
                        a.add(n.attr)
            self.attrs[c] = a

    def runs(self, f):
        if f not in self._runs:
            out = self.runs_(f)
            if private(f.name) and '@' not in f.name:
                # a helper is not run on a class that overrides every method that calls it
                out = [c for c in out if f in self.reached(c)] or out
            self._runs[f] = out
        return self._runs[f]

    def runs_(self, f):
        """classes whose instances may execute method f: those that inherit it, or override it and call up"""
        out = []
        for c in self.sub.get(f.cls, [f.cls]):
            z = c.find(f.name)
            if (z and z[1] is f) or '@' in f.name:
                out.append(c)
                continue
            for x in c.mro():
                if x is f.cls:
                    break
                if any(isinstance(n, ast.Attribute) and n.attr == f.name and not (isinstance(n.value, ast.Name) and n.value.id == 'self')
                       and ('super' in ast.unparse(n.value) or f.cls.name in ast.unparse(n.value)) for g in x.methods.values() for n in ast.walk(g.node)):
                    out.append(c)
                    break
        return out

    def reached(self, c):
        """methods that can run on an instance of class c: its public ones as it resolves them, and what those call on self"""
        out = self._reached.get(c)
        if out is not None:
            return out
        if self._outer is None:
            self._outer = set()
            for m in self.model.modules.values():
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Attribute) and not (isinstance(n.value, ast.Name) and n.value.id in ('self', 'cls')) \
                            and not (isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id == 'super'):
                        self._outer.add(n.attr)
                        if isinstance(n.value, ast.Name) and n.value.id in self.model.classes:
                            self._outer.add((n.value.id, n.attr))
                    elif isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.startswith('_'):
                        self._outer.add(n.value)
        mro = c.mro()
        todo, out = [], set()
        for x in mro:
            for name in x.methods:
                if not private(name) or name in self._outer:
                    z = c.find(name)
                    if z and isinstance(z[1], Func):
                        todo.append(z[1])
                        if any((y.name, name) in self._outer and y.find(name)[1] is x.methods[name] for y in mro if y.find(name)):
                            todo.append(x.methods[name])
        while todo:
            f = todo.pop()
            if f in out:
                continue
            out.add(f)
            for n in ast.walk(f.node):
                if not isinstance(n, ast.Attribute):
                    continue
                if isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id == 'super':
                    for x in mro[mro.index(f.cls) + 1:] if f.cls in mro else []:
                        if n.attr in x.methods:
                            todo.append(x.methods[n.attr])
                            break
                else:
                    z = c.find(n.attr)
                    if z and isinstance(z[1], Func):
                        todo.append(z[1])
        self._reached[c] = out
        return out

    def has(self, c, name):
        for x in c.mro():
            if name in x.methods or name in x.consts or name in self.attrs[x]:
                return True
            if any(e not in ('object', 'ABC', 'Enum') for e in x.extern):
                return True
        return hasattr(object, name) or name in ('__dict__', '__class__', '__doc__')

    def exists(self, m, name):
        return self.model.resolve_name(m, name) is not None

    # -- names
    def free(self, f, report):
        def visit(node, scopes):
            here = bound_names(node)
            glob = {n for x in walk_scope(node) if isinstance(x, (ast.Global, ast.Nonlocal)) for n in x.names}
            scopes = scopes + [here | glob]
            a = node.args
            for n in walk_scope(node):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                    if not any(n.id in s for s in scopes) and n.id not in BUILTIN and not self.exists(f.module, n.id) \
                            and not self.modlocal(f.module, n.id):
                        report(n, f"name '{n.id}' is not defined")
                if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                    visit(n, scopes)
        visit(f.node, [])

    def modlocal(self, m, name):
        for st in ast.walk(m.tree):
            if isinstance(st, (ast.Module,)):
                for x in m.tree.body:
                    if isinstance(x, (ast.For, ast.With)) :
                        for n in ast.walk(x):
                            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id == name:
                                return True
        return False

    # -- attributes
    def typed(self, f):
        """locals and parameters of known class: annotations and constructions"""
        out = {}
        a = f.node.args
        for p in a.posonlyargs + a.args + a.kwonlyargs:
            if p.annotation is not None:
                c = self.model.resolve_class(f.module, p.annotation) if isinstance(p.annotation, (ast.Name, ast.Attribute)) else None
                if isinstance(p.annotation, ast.BinOp):
                    for z in (p.annotation.left, p.annotation.right):
                        c = c or (self.model.resolve_class(f.module, z) if isinstance(z, ast.Name) else None)
                if c is not None and c.name == 'Contract':
                    out[p.arg] = c
        stores = {}
        for n in walk_scope(f.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                stores.setdefault(n.targets[0].id, []).append(n.value)
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                stores.setdefault(n.id, [])
        for k, vs in stores.items():
            n = sum(1 for x in walk_scope(f.node) if isinstance(x, ast.Name) and x.id == k and isinstance(x.ctx, ast.Store))
            if k not in all_params(f.node) and n == len(vs) and len(vs) == 1:
                v = vs[0]
                c = self.constructed(f, v)
                if c is not None:
                    out[k] = c
            elif k in out:
                cs = [self.constructed(f, v) for v in vs]
                if n != len(vs) or any(c is not out[k] for c in cs):
                    out.pop(k)
        return out

    def constructed(self, f, v):
        if isinstance(v, ast.IfExp):
            a, b = self.constructed(f, v.body), self.constructed(f, v.orelse)
            return a if a is b else None
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name):
            c = self.model.resolve_name(f.module, v.func.id)
            return c if isinstance(c, Class) else None
        return None

    def receivers(self, f, e, typed):
        """classes of the object an expression denotes, or None"""
        if isinstance(e, ast.Name):
            ps = f.node.args.posonlyargs + f.node.args.args
            if f.cls is not None and not f.static and ps and e.id == ps[0].arg:
                if any(isinstance(n, ast.Name) and n.id == e.id and isinstance(n.ctx, ast.Store) for n in walk_scope(f.node)):
                    return None
                return self.runs(f)
            if e.id in typed:
                return [typed[e.id]]
            if e.id not in bound_names(f.node):
                c = self.model.resolve_name(f.module, e.id)
                if isinstance(c, Class):
                    return [c]
        if isinstance(e, ast.Call):
            c = self.constructed(f, e)
            if c is not None:
                return [c]
        if isinstance(e, ast.Attribute) and e.attr == 'interest' and 'Interest' in self.model.classes:
            return [self.model.classes['Interest']]
        return None

    def check(self, f, res, per):
        bad = []
        self.unsure = []

        def unsure(n, what):
            self.unsure.append(what)

        def report(n, what):
            bad.append((n, what))
        self.free(f, report)
        typed = self.typed(f)
        nested = [f.node]
        guards = {}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                rs = self.receivers(f, n.value, typed)
                if rs is not None:
                    for c in rs:
                        if not self.has(c, n.attr) and not guarded(f.node, n):
                            report(n, f"'{c.name}' has no attribute '{n.attr}'")
                            break
            if isinstance(n, ast.Call):
                self.call(f, n, typed, report)
        Assigned(f, report, model=self.model, unsure=unsure).run()
        return bad

    # -- calls
    def targets(self, f, call, typed):
        """[(function, implicit first argument given, label)]"""
        fn = call.func
        out = []
        if isinstance(fn, ast.Name):
            if fn.id in bound_names(f.node):
                return out
            r = self.model.resolve_name(f.module, fn.id)
            if isinstance(r, Func):
                out.append((r, False, r.name))
            elif isinstance(r, Class):
                z = r.find('__init__')
                if z and isinstance(z[1], Func):
                    out.append((z[1], True, r.name))
        elif isinstance(fn, ast.Attribute):
            v = fn.value
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'super' and f.cls is not None:
                if f.static:
                    return out
                for c in self.runs(f):
                    z = c.find(fn.attr, after=f.cls)
                    if z is None:
                        if fn.attr != '__init__' and not any(x.extern for x in c.mro()):
                            out.append((None, True, f"super() of {f.cls.name} has no attribute '{fn.attr}'"))
                    elif isinstance(z[1], Func) and not z[1].prop:
                        out.append((z[1], not z[1].static, f"{z[0].name}.{fn.attr}"))
                return out
            rs = self.receivers(f, v, typed)
            for c in rs or []:
                z = c.find(fn.attr)
                if z is None or not isinstance(z[1], Func) or z[1].prop or fn.attr in self.attrs.get(c, ()):
                    continue
                g = z[1]
                onclass = isinstance(v, ast.Name) and isinstance(self.model.resolve_name(f.module, v.id), Class) and v.id not in bound_names(f.node)
                out.append((g, not g.static and not (onclass and not g.classm), f"{z[0].name}.{fn.attr}"))
        return out

    def call(self, f, call, typed, report):
        seen = set()
        for g, implicit, label in self.targets(f, call, typed):
            if g is None:
                report(call, label)
                return
            if id(g) in seen:
                continue
            seen.add(id(g))
            why = binds(g.node, call, implicit)
            if why:
                report(call, f"call of {label}() {why}")
                return


def guarded(fn, n):
    for x in ast.walk(fn):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'hasattr' and len(x.args) == 2 \
                and isinstance(x.args[1], ast.Constant) and x.args[1].value == n.attr:
            return True
    return False


def binds(node, call, implicit):
    pos, defaults, va, kw, kwonly = params(node)
    if any(isinstance(a, ast.Starred) for a in call.args):
        star = True
    else:
        star = False
    n = len([a for a in call.args if not isinstance(a, ast.Starred)]) + (1 if implicit else 0)
    splat = any(k.arg is None for k in call.keywords)
    if n > len(pos) and not va:
        return f"passes {n - implicit} positional arguments, {len(pos) - implicit} accepted"
    given = set(pos[:n])
    for k in call.keywords:
        if k.arg is None:
            continue
        if k.arg in given:
            return f"passes '{k.arg}' twice"
        if k.arg not in pos and k.arg not in kwonly and not kw:
            return f"passes an unknown argument '{k.arg}'"
        given.add(k.arg)
    if not star and not splat:
        miss = [p for p in pos + kwonly if p not in given and p not in defaults]
        if miss:
            return f"omits the argument '{miss[0]}'"
    return None


class Assigned:
    """definite assignment of locals, with assignments remembered under the condition they were made"""
    def __init__(self, f, report, node=None, outer=frozenset(), model=None, unsure=None):
        self.f, self.report = f, report
        self.model, self.unsure = model, unsure or (lambda n, what: None)
        self.flags = {}
        self.node = node or f.node
        self.outer = outer
        g = {n for x in walk_scope(self.node) if isinstance(x, (ast.Global, ast.Nonlocal)) for n in x.names}
        self.locals = (own_bound(self.node) - set(all_params(self.node))) - g
        self.told = set()
        self.set_flags()

    def run(self):
        self.block(self.node.body, (frozenset(all_params(self.node)), frozenset()))

    # state: (assigned, conditional) with conditional = {(test text, truth, name)}; None = unreachable
    def block(self, body, st):
        for s in body:
            if st is None:
                return None
            st = self.stmt(s, st)
        return st

    def use(self, e, st):
        if e is None or st is None:
            return
        todo = [e]
        comp = set()
        for n in ast.walk(e):
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                for g in n.generators:
                    for x in ast.walk(g.target):
                        if isinstance(x, ast.Name):
                            comp.add(x.id)
        walrus = {n.target.id for n in ast.walk(e) if isinstance(n, ast.NamedExpr)}
        while todo:
            n = todo.pop()
            if isinstance(n, ast.Lambda):
                todo.extend(n.args.defaults)
                continue
            if isinstance(n, ast.IfExp):
                self.use(n.test, st)
                self.use(n.body, self.under(st, n.test, True))
                self.use(n.orelse, self.under(st, n.test, False))
                continue
            if isinstance(n, ast.BoolOp):
                cur = st
                for v in n.values:
                    self.use(v, cur)
                    cur = self.under(cur, v, isinstance(n.op, ast.And))
                continue
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in self.locals and n.id not in comp and n.id not in walrus \
                    and n.id not in st[0] and (n.id, n.lineno) not in self.told:
                self.told.add((n.id, n.lineno))
                made = [t for t, v, x in st[1] if x == n.id]
                here = [t for t, v, x in st[1] if not x]
                if any('(' in t + k and mentioned(t) & mentioned(k) for t in made for k in here):
                    # assigned under one test, read under another, and what the tests have to do with each other is not known
                    self.unsure(n, f"local '{n.id}' is read under a test that may tell whether it is assigned")
                    continue
                self.report(n, f"local '{n.id}' may be read before it is assigned")
            todo.extend(ast.iter_child_nodes(n))

    def written_out(self, e, depth=0):
        """a test with the predicates and flags it uses written out"""
        if depth > 3:
            return e
        me = self

        class T(ast.NodeTransformer):
            def visit_Lambda(self, n):
                return n

            def visit_Call(self, n):
                self.generic_visit(n)
                z = me.predicate(n)
                return me.written_out(z, depth + 1) if z is not None else n

            def visit_Name(self, n):
                v = me.flags.get(n.id) if isinstance(n.ctx, ast.Load) else None
                return me.written_out(v, depth + 1) if v is not None else n
        if not any(isinstance(n, ast.Call) or isinstance(n, ast.Name) and n.id in self.flags for n in ast.walk(e)):
            return e
        return T().visit(copy.deepcopy(e))

    def predicate(self, n):
        f = None
        if isinstance(n.func, ast.Name) and n.func.id not in self.locals:
            f = self.model.resolve_name(self.f.module, n.func.id)
        elif isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == 'self' and self.f.cls:
            z = self.f.cls.find(n.func.attr)
            f = z[1] if z else None
        if not isinstance(f, Func) or not isinstance(f.node, ast.FunctionDef) or n.keywords:
            return None
        ps = list(params(f.node)[0])
        if f.cls is not None and not f.static:
            ps = ps[1:]
        body = [b for b in f.node.body if not (isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant))]
        if len(ps) != len(n.args) or len(body) != 1 or not isinstance(body[0], ast.Return) or body[0].value is None:
            return None
        m = dict(zip(ps, n.args))
        v = copy.deepcopy(body[0].value)
        if any(isinstance(z, ast.Name) and z.id not in m and z.id != 'self' for z in ast.walk(v)):
            return None

        class S(ast.NodeTransformer):
            def visit_Name(self, z):
                return copy.deepcopy(m[z.id]) if z.id in m else z
        return S().visit(v)

    def set_flags(self):
        """locals that only ever hold one test of names that never change"""
        count, val = {}, {}
        for x in walk_scope(self.node):
            for nm in ([x.id] if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)) else []):
                count[nm] = count.get(nm, 0) + 1
            if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and \
                    isinstance(x.value, (ast.Compare, ast.BoolOp, ast.UnaryOp)):
                val[x.targets[0].id] = x.value
        ps = set(all_params(self.node))
        for nm, v in val.items():
            names = {z.id for z in ast.walk(v) if isinstance(z, ast.Name)}
            if count.get(nm) == 1 and nm not in ps and not any(isinstance(z, (ast.Call, ast.Attribute, ast.Subscript)) for z in ast.walk(v)) \
                    and all(count.get(z, 0) <= (0 if z in ps else 1) for z in names) and nm not in names:
                self.flags[nm] = v

    def under(self, st, test, truth):
        if st is None:
            return None
        test = self.written_out(test)
        if isinstance(test, ast.Constant) and bool(test.value) != truth:
            return None
        a, c = st
        lits = literals(test, truth)
        # an assignment made under a condition that holds here
        add = {x for t, v, x in c if x and (t, v) in lits}
        return (a | add, c | {(t, v, '') for t, v in lits})

    def assign(self, st, names):
        if st is None:
            return None
        a, c = st
        c = frozenset(z for z in c if not (names & mentioned(z[0])))
        return (a | names, c)

    def join(self, s1, s2, test=None):
        if s1 is None or s2 is None:
            st = s1 if s2 is None else s2
            if st is None:
                return None
            if test is not None:
                return st
            return st
        a = s1[0] & s2[0]
        c = s1[1] & s2[1]
        # what holds conditionally on one side and outright on the other holds conditionally
        c |= {z for z in s1[1] if z[2] and z[2] in s2[0]} | {z for z in s2[1] if z[2] and z[2] in s1[0]}
        if test is not None:
            test = self.written_out(test)
            names = mentioned(ast.unparse(test))
            for l in literals(test, True, single=True):
                c |= {(l[0], l[1], x) for x in s1[0] - a if x not in names}
            for l in literals(test, False, single=True):
                c |= {(l[0], l[1], x) for x in s2[0] - a if x not in names}
        return (a, frozenset(c))

    def stmt(self, s, st):
        if isinstance(s, ast.Assign):
            self.use(s.value, st)
            for t in s.targets:
                self.use_target(t, st)
            return self.assign(st, stored(s.targets) | walruses(s.value))
        if isinstance(s, ast.AnnAssign):
            if s.value is None:
                return st
            self.use(s.value, st)
            self.use_target(s.target, st)
            return self.assign(st, stored([s.target]))
        if isinstance(s, ast.AugAssign):
            self.use(s.value, st)
            if isinstance(s.target, ast.Name):
                self.use(ast.copy_location(ast.Name(s.target.id, ast.Load()), s.target), st)
            else:
                self.use_target(s.target, st)
            return self.assign(st, stored([s.target]))
        if isinstance(s, (ast.Expr, ast.Return)):
            self.use(s.value, st)
            if isinstance(s, ast.Return):
                return None
            st = self.assign(st, walruses(s.value))
            return st
        if isinstance(s, ast.Raise):
            self.use(s.exc, st)
            return None
        if isinstance(s, ast.Assert):
            self.use(s.test, st)
            return self.under(self.assign(st, walruses(s.test)), s.test, True)
        if isinstance(s, ast.If):
            self.use(s.test, st)
            st = self.assign(st, walruses(s.test))
            t = self.block(s.body, self.under(st, s.test, True))
            e = self.block(s.orelse, self.under(st, s.test, False))
            if t is None and e is None:
                return None
            if t is None:
                return e
            if e is None:
                return t
            return self.join(t, e, s.test)
        if isinstance(s, (ast.For, ast.AsyncFor)):
            self.use(s.iter, st)
            self.brk = getattr(self, 'brk', [])
            keep, self.brk = self.brk, []
            self.block(s.body, self.assign(st, stored([s.target])))
            out = st
            if s.orelse:
                out = self.block(s.orelse, st)
            brks, self.brk = self.brk, keep
            brks = [b for b in brks if b is not None]
            if s.orelse:
                for b in brks:
                    out = self.join(out, b) if out is not None else b
            elif brks and literal_nonempty(s.iter):
                # a loop that searches a literal leaves where it breaks
                out = None
                for b in brks:
                    out = b if out is None else self.join(out, b)
                return out
            # a loop over a non-empty literal runs
            if literal_nonempty(s.iter):
                body = self.first(s.body, self.assign(st, stored([s.target])))
                if body is not None:
                    out = body if out is None else (out[0] | body[0], out[1])
            return out
        if isinstance(s, ast.While):
            self.use(s.test, st)
            self.brk = getattr(self, 'brk', [])
            keep, self.brk = self.brk, []
            end = self.block(s.body, self.under(st, s.test, True))
            brks, self.brk = self.brk, keep
            forever = isinstance(s.test, ast.Constant) and s.test.value
            out = None if forever else st
            for b in brks:
                out = b if out is None else self.join(out, b)
            if not forever and s.orelse:
                out = self.block(s.orelse, out)
            return out
        if isinstance(s, ast.Break):
            if hasattr(self, 'brk'):
                self.brk.append(st)
            return None
        if isinstance(s, ast.Continue):
            return None
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                self.use(i.context_expr, st)
                if i.optional_vars is not None:
                    st = self.assign(st, stored([i.optional_vars]))
            return self.block(s.body, st)
        if isinstance(s, ast.Try):
            b = self.block(s.body, st)
            if b is not None and s.orelse:
                b = self.block(s.orelse, b)
            outs = [b]
            for h in s.handlers:
                hs = st if not h.name else self.assign(st, {h.name})
                outs.append(self.block(h.body, hs))
            out = None
            for o in outs:
                out = o if out is None else (self.join(out, o) if o is not None else out)
            if s.finalbody:
                f = self.block(s.finalbody, st if out is None else out)
                return None if out is None else f
            return out
        if isinstance(s, ast.Match):
            self.use(s.subject, st)
            out, rest = None, True
            for c in s.cases:
                b = self.assign(st, patnames(c.pattern))
                self.use(c.guard, b)
                if c.guard is not None:
                    b = self.under(self.assign(b, walruses(c.guard)), c.guard, True)
                if rest:
                    b = self.block(c.body, b)
                    out = b if out is None else (self.join(out, b) if b is not None else out)
                if c.guard is None and isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None:
                    rest = False
            if rest:
                out = st if out is None else self.join(out, st)
            return out
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            if isinstance(s, ast.FunctionDef):
                sub = Assigned(self.f, self.report, s, model=self.model, unsure=self.unsure)
                sub.run()
            return self.assign(st, {s.name})
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            return self.assign(st, {a.asname or a.name.split('.')[0] for a in s.names})
        if isinstance(s, ast.Delete):
            names = {t.id for t in s.targets if isinstance(t, ast.Name)}
            for t in s.targets:
                if isinstance(t, ast.Name):
                    self.use(ast.copy_location(ast.Name(t.id, ast.Load()), t), st)
            return (st[0] - names, st[1]) if names else st
        return st

    def first(self, body, st):
        told, rep = set(self.told), self.report
        self.report = lambda *a: None
        keep = getattr(self, 'brk', [])
        self.brk = []
        try:
            return self.block(body, st)
        finally:
            self.told, self.report, self.brk = told, rep, keep

    def use_target(self, t, st):
        if isinstance(t, ast.Name):
            return
        for c in ast.iter_child_nodes(t):
            if isinstance(c, ast.expr):
                if isinstance(t, (ast.Tuple, ast.List, ast.Starred)):
                    self.use_target(c, st)
                else:
                    self.use(c, st)


def own_bound(node):
    """locals of the scope proper: names bound by comprehensions are not"""
    out = set()
    todo = list(node.body if isinstance(node.body, list) else [node.body])
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            todo += [g.iter for g in n.generators]
            continue
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
            continue
        elif isinstance(n, ast.Lambda):
            continue
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar, ast.MatchMapping)):
            out |= patnames(n)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            out |= {a.asname or a.name.split('.')[0] for a in n.names}
        todo.extend(ast.iter_child_nodes(n))
    return out


def patnames(p):
    out = {n.name for n in ast.walk(p) if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name}
    return out | {n.rest for n in ast.walk(p) if isinstance(n, ast.MatchMapping) and n.rest}


def stored(ts):
    return {n.id for t in ts for n in ast.walk(t) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}


def walruses(e):
    if e is None:
        return set()
    return {n.target.id for n in ast.walk(e) if isinstance(n, ast.NamedExpr)}


_m = {}


def mentioned(text):
    if text not in _m:
        _m[text] = {n.id for n in ast.walk(ast.parse(text, mode='eval')) if isinstance(n, ast.Name)}
    return _m[text]


def literals(test, truth, single=False):
    """conditions (text, truth) that hold when the test has this truth; single: those equivalent to it"""
    if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        return literals(test.operand, not truth, single)
    if isinstance(test, ast.BoolOp) and not single and isinstance(test.op, ast.And) == truth:
        out = {(ast.unparse(test), truth)}
        for v in test.values:
            out |= literals(v, truth)
        return out
    if isinstance(test, ast.Compare) and len(test.ops) == 1:
        l, r, op = test.left, test.comparators[0], type(test.ops[0])
        if op in (ast.NotEq, ast.IsNot, ast.NotIn):
            op, truth = {ast.NotEq: ast.Eq, ast.IsNot: ast.Is, ast.NotIn: ast.In}[op], not truth
        elif op in (ast.Gt, ast.LtE):      # a > b is b < a; a <= b is not b < a
            truth = truth == (op is ast.Gt)
            l, r, op = r, l, ast.Lt
        elif op is ast.GtE:
            op, truth = ast.Lt, not truth
        if op is ast.Eq and ast.unparse(r) < ast.unparse(l) or op is ast.Is and isinstance(l, ast.Constant):
            l, r = r, l
        return {(ast.unparse(ast.Compare(l, [op()], [r])), truth)}
    out = {(ast.unparse(test), truth)}
    if truth and not single and isinstance(test, (ast.Name, ast.Attribute)):
        out.add((ast.unparse(test) + ' is None', False))  # what is true is not None
    return out


def literal_nonempty(e):
    if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
        return bool(e.elts) and not any(isinstance(x, ast.Starred) for x in e.elts)
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'range' and all(isinstance(a, ast.Constant) for a in e.args):
        v = [a.value for a in e.args]
        try:
            return len(range(*v)) > 0
        except Exception:
            return False
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('enumerate', 'zip') and e.args:
        return all(literal_nonempty(a) for a in e.args if not isinstance(a, ast.Starred)) and not any(isinstance(a, ast.Starred) for a in e.args)
    return False


class NameCase:
    name, scenario = 'names', 'all functions'

    def __call__(self, model, res):
        N = Names(model)
        for m in model.modules.values():
            for nm, imp in m.imports.items():
                if imp[0] == 'from' and (imp[1].startswith('actuarialmath') or imp[1].startswith('.')):
                    res.obligations += 1
                    if model.resolve_name(m, nm) is None:
                        res.findings.append(Finding(res.prop, 'imports exist', m.name, f"import {nm}", 'name', f"'{imp[2]}' is not in {imp[1]}", m.file, []))
                    else:
                        res.discharged += 1
            fs = list(m.funcs.values()) + [f for c in m.classes.values() for f in c.methods.values()]
            for f in fs:
                per = res.per.setdefault(f.qual, [0, 0])
                per[0] += 1
                res.obligations += 1
                res.funcs.add(f.qual)
                bad = N.check(f, res, per)
                if bad:
                    n, what = bad[0]
                    for n, what in bad:
                        res.findings.append(Finding(res.prop, 'every name resolves', f.qual, what.split("'")[1] if "'" in what else 'call', 'name', what, f"{m.file}:{n.lineno}", []))
                elif N.unsure:
                    res.undecided.append((f.qual, 'names', N.unsure[0]))
                else:
                    per[1] += 1
                    res.discharged += 1


def cases(model, tier='quick'):
    return [NameCase()]
