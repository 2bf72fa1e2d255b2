"""C30: documented calls are accepted, by every class.

Signatures against the documentation: the arguments a docstring describes, the calls its examples and the guide show,
the queries a class redefines, and the object a setter returns."""
import ast
import os
import re
from .model import Class, Func, REPO, params, is_dead, is_main_guard
from .name_obl import binds, walk_scope
from .obl import Finding

# queries of the mean only: there is no moment, or variance, to choose
MEAN_ONLY = {'Woolhouse': {'moment', 'variance'}}
GUIDE = ('README.md', 'index.rst', os.path.join('docs', 'source', 'index.rst'))


def described(doc):
    """names the Args block of a docstring describes"""
    if not doc or 'Args:' not in doc:
        return []
    blk = re.split(r'\n\s*\n|\n\s*(?:Returns|Examples?|Raises|Notes?)\b', doc.split('Args:', 1)[1])[0]
    lines = [l for l in blk.split('\n') if l.strip()]
    if not lines:
        return []
    ind = min(len(l) - len(l.lstrip()) for l in lines)
    out = []
    for l in lines:
        m = re.match(r'\s*\**([A-Za-z_][A-Za-z_0-9]*(?:\s*,\s*\**[A-Za-z_][A-Za-z_0-9]*)*)\s*(?:\([^)]*\))?\s*:', l)
        if m and len(l) - len(l.lstrip()) == ind:
            out += [x.strip(' *') for x in m.group(1).split(',')]
    return out


def examples(doc):
    """statements of the >>> examples of a docstring"""
    lines = []
    for l in (doc or '').split('\n'):
        t = l.strip()
        if t.startswith('>>>'):
            lines.append(t[3:][1:] if t[3:4] == ' ' else t[3:])
        elif t.startswith('...') and lines:
            lines.append(t[3:])
    return statements(lines)


def statements(lines):
    """parse the longest statements found in lines; what is not code is passed over"""
    out, i = [], 0
    while i < len(lines):
        for j in range(i + 1, min(len(lines), i + 25) + 1):
            src = '\n'.join(lines[i:j])
            if not src.strip():
                break
            try:
                t = ast.parse(src if j > i + 1 else src.strip())
            except SyntaxError:
                continue
            out += t.body
            i = j - 1
            break
        i += 1
    return out


def guide_code(text, md):
    if md:
        blocks = [b for b in re.findall(r'```[a-z]*\n(.*?)```', text, re.S)]
    else:
        blocks, cur = [], None
        for l in text.split('\n'):
            if l.strip() == '::':
                cur = []
                blocks.append(cur)
            elif cur is not None and l.strip() and not l.startswith(' '):
                cur = None
            elif cur is not None:
                cur.append(l[2:] if l.startswith('  ') else l)
        blocks = ['\n'.join(b) for b in blocks]
    out = []
    for b in blocks:
        b = b.replace('\\\\\n', '\\\n')
        try:
            out.append(ast.parse(b).body)
        except SyntaxError:
            out.append(statements(b.split('\n')))
    return out


class Docs:
    def __init__(self, model):
        self.model = model
        self._ret = {}

    # -- what a method returns: is it the object it was called on?
    def returns_self(self, f, cls, seen=()):
        """True | (node, why) | None when not known"""
        key = (f, cls)
        if key in self._ret:
            return self._ret[key]
        if key in seen:
            return True
        ps = f.node.args.posonlyargs + f.node.args.args
        if f.static or f.classm or not ps:
            return None
        me = ps[0].arg
        alias = {me}
        stores = {}
        for n in walk_scope(f.node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                stores[n.id] = stores.get(n.id, 0) + 1
        if me in stores:
            return None
        for n in walk_scope(f.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) \
                    and stores[n.targets[0].id] == 1 and isinstance(n.value, ast.Name) and n.value.id == me:
                alias.add(n.targets[0].id)
        once = {n.targets[0].id: n.value for n in walk_scope(f.node) if isinstance(n, ast.Assign) and len(n.targets) == 1
                and isinstance(n.targets[0], ast.Name) and stores[n.targets[0].id] == 1}
        res = True

        def same(e, depth=0):
            if isinstance(e, ast.Name):
                if e.id in alias:
                    return True
                if e.id in once and depth < 5:
                    return same(once[e.id], depth + 1)
                return None
            if isinstance(e, ast.Constant):
                return False
            if isinstance(e, ast.NamedExpr):
                return same(e.value, depth)
            if isinstance(e, ast.IfExp):
                a, b = same(e.body, depth), same(e.orelse, depth)
                return a and b if None not in (a, b) else (False if False in (a, b) else None)
            if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute):
                v, name = e.func.value, e.func.attr
                z = None
                if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'super':
                    z = cls.find(name, after=f.cls)
                elif isinstance(v, ast.Name) and isinstance(self.model.resolve_name(f.module, v.id), Class) and v.id not in stores:
                    if not (e.args and same(e.args[0], depth)):
                        return None
                    z = self.model.resolve_name(f.module, v.id).find(name)
                elif same(v, depth):
                    z = cls.find(name)
                if z and isinstance(z[1], Func):
                    r = self.returns_self(z[1], cls, seen + (key,))
                    return True if r is True else (None if r is None else False)
            return None
        for n in walk_scope(f.node):
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                return None
            if isinstance(n, ast.Return):
                r = False if n.value is None else same(n.value)
                if r is False:
                    res = (n, 'returns something else than the object')
                    break
                if r is None:
                    res = None
        if res is True and falls_off(f.node.body):
            res = (f.node, 'ends without returning the object')
        self._ret[key] = res
        return res

    # -- classes of expressions in an example
    def check_calls(self, body, module, env, report, res):
        """walk statements; report(node, what) for calls that do not bind; returns number of calls decided"""
        for st in body:
            if isinstance(st, (ast.Import, ast.ImportFrom)):
                for a in st.names:
                    if isinstance(st, ast.ImportFrom) and (st.module or '').split('.')[0] == 'actuarialmath':
                        sub = st.module.split('.', 1)[1] if '.' in st.module else '__init__'
                        m = self.model.modules.get(sub)
                        self.n += 1
                        r = m and self.model.resolve_name(m, a.name)
                        if m is None or (r is None and a.name != '*' and a.name not in self.model.modules):
                            report(st, f"'{a.name}' cannot be imported from {st.module}")
                        elif isinstance(r, Class):
                            env[a.asname or a.name] = ('class', r)
                continue
            if isinstance(st, ast.FunctionDef):
                env[st.name] = None
                continue
            for f in ast.iter_child_nodes(st):
                if isinstance(f, ast.expr) and not (isinstance(f, (ast.Name, ast.Tuple)) and isinstance(f.ctx, ast.Store)):
                    self.expr(f, module, env, report)
            if isinstance(st, ast.Assign):
                t = self.type(st.value, module, env)
                for x in st.targets:
                    for n in ast.walk(x):
                        if isinstance(n, ast.Name):
                            env[n.id] = t if x is n else None
            blocks = [getattr(st, b) for b in ('body', 'orelse', 'finalbody') if getattr(st, b, None)]
            blocks += [h.body for h in getattr(st, 'handlers', [])] + [k.body for k in getattr(st, 'cases', [])]
            before = dict(env)
            for b in blocks:
                env2 = dict(before)
                self.check_calls(b, module, env2, report, res)
                for k, v in env2.items():
                    if before.get(k, 0) != v:
                        env[k] = v if len(blocks) == 1 and isinstance(st, ast.With) else None

    def type(self, e, module, env):
        if isinstance(e, ast.Name):
            if e.id in env:
                return env[e.id]
            r = self.model.resolve_name(module, e.id) if module else None
            if not isinstance(r, Class):
                r = self.model.classes.get(e.id)
            return ('class', r) if isinstance(r, Class) else None
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Name):
                t = self.type(e.func, module, env)
                return ('obj', t[1]) if t and t[0] == 'class' else None
            if isinstance(e.func, ast.Attribute):
                t = self.type(e.func.value, module, env)
                if t and t[0] == 'obj':
                    z = t[1].find(e.func.attr)
                    if z and isinstance(z[1], Func) and self.returns_self(z[1], t[1]) is True:
                        return t
        return None

    def expr(self, e, module, env, report):
        shadow = {a.arg for l in ast.walk(e) if isinstance(l, ast.Lambda) for a in l.args.args}
        env = {**env, **{a: None for a in shadow}}
        for n in ast.walk(e):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                t = self.type(n.value, module, env)
                if t and not any(c.extern for c in t[1].mro()):
                    self.n += 1
                    if not self.has(t[1], n.attr):
                        report(n, f"{t[1].name} has no '{n.attr}'")
            if isinstance(n, ast.Call):
                if isinstance(n.func, ast.Name):
                    t = self.type(n.func, module, env)
                    if t and t[0] == 'class':
                        z = t[1].find('__init__')
                        if z and isinstance(z[1], Func):
                            self.n += 1
                            why = self.binds(z[1], t[1], n, True)
                            if why:
                                report(n, f"{t[1].name}() {why}")
                elif isinstance(n.func, ast.Attribute):
                    t = self.type(n.func.value, module, env)
                    z = t and t[1].find(n.func.attr)
                    if z and isinstance(z[1], Func) and not z[1].prop:
                        self.n += 1
                        why = self.binds(z[1], t[1], n, not z[1].static and (t[0] == 'obj' or z[1].classm))
                        if why:
                            report(n, f"{t[1].name}.{n.func.attr}() {why}")

    n = 0

    def accepts(self, f, cls, name, seen=()):
        """is name a keyword that f, called on an object of class cls, takes (itself or by handing it on)?"""
        pos, _, va, kw, kwonly = params(f.node)
        if name in pos or name in kwonly:
            return True
        if not kw:
            return False
        if f in seen or any(isinstance(n, ast.Constant) and n.value == name for n in ast.walk(f.node)):
            return True
        on = [n for n in walk_scope(f.node) if isinstance(n, ast.Call) and any(
            k.arg is None and isinstance(k.value, ast.Name) and k.value.id == kw for k in n.keywords)]
        if not on or sum(isinstance(n, ast.Name) and n.id == kw for n in ast.walk(f.node)) != len(on):
            return True         # read in some other way
        for call in on:
            if any(k.arg == name for k in call.keywords):
                return False
            fn, g, c2 = call.func, None, cls
            if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == 'super':
                z = f.cls and cls and cls.find(fn.attr, after=f.cls)
                g = z[1] if z else None
                if z is None and fn.attr == '__init__':
                    return False         # nothing is left to take it
            elif isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and not f.static and f.node.args.args \
                    and fn.value.id == f.node.args.args[0].arg:
                z = cls and cls.find(fn.attr)
                g = z[1] if z else None
            elif isinstance(fn, ast.Name):
                r = self.model.resolve_name(f.module, fn.id)
                if isinstance(r, Class):
                    z = r.find('__init__')
                    g, c2 = (z[1] if z else None), r
                elif isinstance(r, Func):
                    g = r
            if isinstance(g, Func) and not self.accepts(g, c2, name, seen + (f,)):
                return False
        return True

    def binds(self, g, cls, call, implicit):
        why = binds(g.node, call, implicit)
        if why:
            return why
        for k in call.keywords:
            if k.arg and not self.accepts(g, cls, k.arg):
                return f"passes an unknown argument '{k.arg}'"
        return None

    def has(self, cls, name):
        if cls.find(name) or name in ('__doc__', '__name__', '__class__', '__dict__'):
            return True
        for c in cls.mro():
            for f in c.methods.values():
                for x in ast.walk(f.node):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and x.attr == name:
                        return True
                    if isinstance(x, ast.Constant) and x.value == name:
                        return True      # given through setattr or __dict__
        return bool(cls.find('__getattr__'))


def falls_off(body):
    """may control reach the end of the block?"""
    for st in body:
        if isinstance(st, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
            return False
        if isinstance(st, ast.If):
            if is_dead(st):
                if not falls_off(st.orelse):
                    return False
                continue
            if isinstance(st.test, ast.Constant) and st.test.value:
                if not falls_off(st.body):
                    return False
                continue
            if st.orelse and not falls_off(st.body) and not falls_off(st.orelse):
                return False
        elif isinstance(st, ast.While) and isinstance(st.test, ast.Constant) and st.test.value:
            if not any(isinstance(n, ast.Break) for n in ast.walk(st)):
                return False
        elif isinstance(st, ast.With):
            if not falls_off(st.body):
                return False
        elif isinstance(st, ast.Try):
            if st.finalbody and not falls_off(st.finalbody):
                return False
            if not falls_off(st.body + st.orelse) and all(not falls_off(h.body) for h in st.handlers):
                return False
        elif isinstance(st, ast.Match):
            last = st.cases[-1]
            if isinstance(last.pattern, ast.MatchAs) and last.pattern.pattern is None and last.guard is None \
                    and all(not falls_off(c.body) for c in st.cases):
                return False
    return True


def public(name):
    return not name.startswith('_') and '@' not in name


class DocCase:
    name, scenario = 'documented calls', 'all public classes'

    def mark(self, res, where, ok, rule, key, what, file):
        res.obligations += 1
        per = res.per.setdefault(where, [0, 0])
        per[0] += 1
        res.funcs.add(where)
        if ok:
            per[1] += 1
            res.discharged += 1
        else:
            res.findings.append(Finding(res.prop, rule, where, key, 'documentation', what, file, []))

    def __call__(self, model, res):
        D = Docs(model)
        for c in model.classes.values():
            for what, node, f in [('class', c.node, None)] + [(n, f.node, f) for n, f in c.methods.items()]:
                doc = ast.get_docstring(node) or ''
                where = f.qual if f else c.name
                file = f"{c.module.file}:{node.lineno}"
                if f is None:
                    z = c.find('__init__')
                    f2 = z[1] if z and isinstance(z[1], Func) else None
                else:
                    f2 = f
                if f2 is not None and not f2.prop and (f is None or public(what) or what == '__init__'):
                    _, _, va, kw, _ = params(f2.node)
                    for nm in described(doc):
                        ok = nm in (va, kw, 'kwargs') and bool(va or kw) or D.accepts(f2, c, nm)
                        self.mark(res, where, ok, 'documented-argument', nm, f"'{nm}' is described but not an argument", file)
                body = examples(doc)
                if body:
                    bad = []
                    D.n = 0
                    env = {'life': ('obj', c), c.name.lower(): ('obj', c)}
                    D.check_calls(body, c.module, env, lambda n, w: bad.append(w), res)
                    for w in bad:
                        self.mark(res, where, False, 'example', w[:60], f"example: {w}", file)
                    for _ in range(D.n - len(bad)):
                        self.mark(res, where, True, None, None, None, None)
        for m in model.modules.values():
            for st in m.tree.body:
                if is_main_guard(st):
                    bad = []
                    D.n = 0
                    D.check_calls(st.body, m, {}, lambda n, w: bad.append((n, w)), res)
                    for n, w in bad:
                        self.mark(res, m.name, False, 'example', w[:60], f"example: {w}", f"{m.file}:{n.lineno}")
                    for _ in range(D.n - len(bad)):
                        self.mark(res, m.name, True, None, None, None, None)
        for g in GUIDE:
            p = os.path.join(REPO, g)
            if not os.path.exists(p):
                continue
            with open(p, encoding='utf-8') as fp:
                text = fp.read()
            for body in guide_code(text, g.endswith('.md')):
                bad = []
                D.n = 0
                D.check_calls(body, None, {}, lambda n, w: bad.append(w), res)
                for w in bad:
                    self.mark(res, g, False, 'example', w[:60], f"example: {w}", g)
                for _ in range(D.n - len(bad)):
                    self.mark(res, g, True, None, None, None, None)
        self.redefined(model, res)
        self.setters(model, res, D)

    def redefined(self, model, res):
        for c in model.classes.values():
            for name, f in c.methods.items():
                if not public(name) or name.startswith('set_'):
                    continue
                bases = [b.methods[name] for b in c.mro()[1:] if name in b.methods]
                for g in bases:
                    file = f"{c.module.file}:{f.node.lineno}"
                    key = f"{g.qual}"
                    if (f.prop, f.static) != (g.prop, g.static):
                        if f.prop != g.prop:
                            self.mark(res, f.qual, False, 'redefinition', key, f"is {'' if f.prop else 'not '}a property, {g.qual} is {'' if g.prop else 'not '}one", file)
                            continue
                    if f.prop:
                        self.mark(res, f.qual, True, None, None, None, None)
                        continue
                    drop = lambda h: 0 if h.static else 1
                    pos, dflt, va, kw, kwonly = params(f.node)
                    pos = pos[drop(f):]
                    gpos, gd, gva, gkw, gkwonly = params(g.node)
                    gpos = gpos[drop(g):]
                    mean = set().union(*[v for k, v in MEAN_ONLY.items() if c.isa(k)])
                    miss = [p for p in gpos + gkwonly if p not in pos + kwonly and not kw and p not in mean and public(p)]
                    need = [p for p in pos + kwonly if p not in dflt and (p not in gpos + gkwonly or p in gd)]
                    what = f"does not take '{miss[0]}' as {g.qual} does" if miss else f"requires '{need[0]}', {g.qual} does not" if need else ''
                    if not what and gkw and not kw:
                        what = f"does not take further keywords as {g.qual} does"
                    self.mark(res, f.qual, not what, 'redefinition', key, what, file)
                    both = [p for p in pos if p in gpos], [p for p in gpos if p in pos]
                    self.mark(res, f.qual, both[0] == both[1], 'redefinition-order', key,
                              f"takes {', '.join(both[0])} in this order; {g.qual} takes {', '.join(both[1])}", file)

    def setters(self, model, res, D):
        for c in model.classes.values():
            names = {n for b in c.mro() for n in b.methods if n.startswith('set_') or n in ('fill_reserves', 'fill_table')}
            for name in sorted(names):
                f = c.find(name)[1]
                if not isinstance(f, Func) or f.static:
                    continue
                r = D.returns_self(f, c)
                where = f"{c.name}.{name}"
                if r is None:
                    res.obligations += 1
                    res.per.setdefault(where, [0, 0])[0] += 1
                    res.undecided.append((where, 'returns the object', 'what it returns is not known'))
                    continue
                self.mark(res, where, r is True, 'setter-returns', name, '' if r is True else r[1],
                          f"{f.module.file}:{(f.node if r is True else r[0]).lineno}")


def cases(model, tier='quick'):
    return [DocCase()]
