"""C22: queries change nothing; setters change only the model they are called on.

Interprocedural effect and alias analysis over the syntax of every function.  An abstract value is a set of aliases
(root, depth, lift): the object reached from the root (the receiver, one of its attributes, a parameter, a module or
class level object) by `depth` selections, wrapped in `lift` fresh containers.  An effect is a store into an object that
existed before the call."""
import ast
from .model import Class, Func, is_main_guard
from .obl import Finding
from .trace_obl import Flow, MUTATORS, all_params, walk_own

FRESH = frozenset()
SHALLOW = set('list tuple set frozenset sorted reversed iter copy dict filter'.split())
ALIAS = set('asarray asanyarray atleast_1d ravel reshape squeeze view transpose'.split())
CONTAINER = set('get pop items keys values setdefault copy append extend insert remove clear update sort add discard reverse '
                'popitem index count join split lower upper strip union'.split())


def is_mutator(name):
    n = name.lstrip('_')
    return name in ('__init__', '__setattr__', '__setitem__', '__delitem__', '__call__') and name == '__init__' \
        or n.startswith(('set_', 'fill_', 'db_put', 'reset_', 'clear_')) or n == 'blog_options'


def deeper(v, n=1):
    out = set()
    for r, d, l in v:
        k = n
        while k and l:
            l -= 1
            k -= 1
        out.add((r, min(d + k, 6), l))
    return frozenset(out)


def lifted(v, n=1):
    return frozenset((r, d, l + n) for r, d, l in v)


class Sum:
    """summary of a function: effects {(root, depth): node}, aliases of its result, captures {(attr depth): aliases}"""
    def __init__(self):
        self.eff = {}
        self.via = set()       # effects of a callee
        self.ret = frozenset()
        self.cap = {}          # (attr, depth of the slot's object) -> {(root, depth): node}


class Effects:
    def __init__(self, model):
        self.model = model
        self.flow = Flow(model).run() if '_Blog' in model.classes else None
        self.traceattrs = {k for k, t in self.flow.attrs.items() if t.kind == 'obj'} if self.flow else set()
        self.traceclasses = self.flow.trace if self.flow else set()
        self.funcs = []
        self.byname = {}
        for m in model.modules.values():
            for f in m.funcs.values():
                self.funcs.append(f)
            for c in m.classes.values():
                for f in c.methods.values():
                    self.funcs.append(f)
                    if c not in self.traceclasses:
                        self.byname.setdefault(f.name, []).append(f)
        self.sum = {id(f): Sum() for f in self.funcs}
        self.changed = True
        # mutable objects of a class that no constructor replaces
        self.shared = {}
        own = {n.attr for f in self.funcs if f.name == '__init__' for n in ast.walk(f.node) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)}
        for c in model.classes.values():
            if c not in self.traceclasses:
                for k, e in c.consts.items():
                    if mutable(e) and k not in own:
                        self.shared[k] = f"{c.name}.{k}"
        self.kin = {}
        for c in model.classes.values():
            for x in c.mro():
                self.kin.setdefault(x, set()).update(c.mro())

    def mine(self, f, name):
        """definitions that self.name or super().name may reach from a method of f's class"""
        k = self.kin.get(f.cls, ())
        return [g for g in self.byname.get(name, []) if g.cls in k]

    def run(self):
        n = 0
        while self.changed and n < 25:
            self.changed = False
            n += 1
            for f in self.funcs:
                Walk(self, f).go()
        return self


class Walk:
    def __init__(self, E, f):
        self.E, self.f, self.s = E, f, E.sum[id(f)]
        self.env = {}
        self.calling = 0
        self.me = None
        a = f.node.args
        names = all_params(f.node)
        if f.cls is not None and not f.static and (a.posonlyargs + a.args):
            self.me = (a.posonlyargs + a.args)[0].arg
        for p in names:
            if p == self.me:
                self.env[p] = frozenset({(('self', f.cls.name if f.classm else ''), 0, 0)})
            elif a.kwarg and p == a.kwarg.arg or a.vararg and p == a.vararg.arg:
                self.env[p] = frozenset({(('param', p), 1, 1)})      # a fresh dict of the caller's objects
            else:
                self.env[p] = frozenset({(('param', p), 0, 0)})

    def go(self):
        for _ in range(2):
            for st in self.f.node.body:
                self.stmt(st)

    # -- effects
    def hit(self, v, node, extra=0):
        """the object of each alias is changed at `extra` selections below"""
        for r, d, l in v:
            if extra >= l:
                self.eff(r, d + extra - l, node)

    def eff(self, root, depth, node):
        key = (root, min(depth, 6))
        if key not in self.s.eff:
            self.s.eff[key] = node
            if self.calling:
                self.s.via.add(key)
            self.E.changed = True

    def capture(self, attr, depth, v, node):
        t = self.s.cap.setdefault((attr, depth), {})
        for r, d, l in v:
            if r[0] in ('param', 'class', 'global') and (r, d, l) not in t:
                t[(r, d, l)] = node
                self.E.changed = True

    def setret(self, v):
        n = self.s.ret | v
        if n != self.s.ret:
            self.s.ret = n
            self.E.changed = True

    # -- values
    def ev(self, e):
        if e is None:
            return FRESH
        m = getattr(self, 'x_' + type(e).__name__, None)
        if m:
            return m(e)
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.ev(c)
        return FRESH

    def x_Constant(self, e):
        return FRESH

    def x_Name(self, e):
        if e.id in self.env:
            return self.env[e.id]
        r = self.E.model.resolve_name(self.f.module, e.id)
        if isinstance(r, tuple) and r[0] == 'const':
            return frozenset({(('global', e.id), 0, 0)})
        if isinstance(r, Class):
            return frozenset({(('class', r.name), 0, 0)})
        return FRESH

    def x_Attribute(self, e):
        v = self.ev(e.value)
        out = set()
        for r, d, l in v:
            if r[0] == 'self' and d == 0 and l == 0:
                k = self.E.shared.get(e.attr)
                out.add((('class', k) if k else ('attr', e.attr), 0, 0))
            elif r[0] == 'class' and d == 0 and l == 0 and '.' not in r[1]:
                out.add((('class', r[1] + '.' + e.attr), 0, 0))
            else:
                out |= deeper({(r, d, l)})
        return frozenset(out)

    def x_Subscript(self, e):
        v = self.ev(e.value)
        self.ev(e.slice)
        if isinstance(e.slice, ast.Slice):
            return lifted(deeper(v))
        return deeper(v)

    def x_Starred(self, e):
        return self.ev(e.value)

    def x_IfExp(self, e):
        self.ev(e.test)
        return self.ev(e.body) | self.ev(e.orelse)

    def x_BoolOp(self, e):
        out = FRESH
        for v in e.values:
            out |= self.ev(v)
        return out

    def x_NamedExpr(self, e):
        v = self.ev(e.value)
        self.bind(e.target, v, e)
        return v

    def x_List(self, e):
        out = FRESH
        for v in e.elts:
            w = self.ev(v)
            out |= deeper(w) and lifted(deeper(w)) if isinstance(v, ast.Starred) else lifted(w)
        return out
    x_Tuple = x_Set = x_List

    def x_Dict(self, e):
        out = FRESH
        for k, v in zip(e.keys, e.values):
            w = self.ev(v)
            self.ev(k)
            out |= lifted(deeper(w)) if k is None else lifted(w)
        return out

    def gens(self, e):
        for g in e.generators:
            v = self.ev(g.iter)
            self.bind(g.target, deeper(v), e)
            for i in g.ifs:
                self.ev(i)

    def x_ListComp(self, e):
        keep = dict(self.env)
        self.gens(e)
        v = lifted(self.ev(e.elt))
        self.env = keep
        return v
    x_SetComp = x_GeneratorExp = x_ListComp

    def x_DictComp(self, e):
        keep = dict(self.env)
        self.gens(e)
        self.ev(e.key)
        v = lifted(self.ev(e.value))
        self.env = keep
        return v

    def x_Lambda(self, e):
        keep = dict(self.env)
        for p in all_params(e):
            self.env[p] = FRESH
        for d in e.args.defaults:
            self.ev(d)
        self.ev(e.body)
        self.env = keep
        return FRESH

    def x_BinOp(self, e):
        a, b = self.ev(e.left), self.ev(e.right)
        # concatenation makes a fresh container of the old elements; arithmetic makes a fresh number
        return lifted(deeper(a | b)) if isinstance(e.op, (ast.Add, ast.BitOr)) else FRESH

    def x_Call(self, e):
        E = self.E
        fn = e.func
        args = []
        for a in e.args:
            args.append(deeper(self.ev(a.value)) if isinstance(a, ast.Starred) else self.ev(a))
        kws = [(k.arg, self.ev(k.value)) for k in e.keywords]
        cands, recv, selfcall, name = [], FRESH, False, ''
        if isinstance(fn, ast.Name):
            name = fn.id
            if name not in self.env:
                r = E.model.resolve_name(self.f.module, name)
                if isinstance(r, Func):
                    cands = [r]
                elif isinstance(r, Class):
                    z = r.find('__init__')
                    if r not in E.traceclasses and z and isinstance(z[1], Func):
                        self.apply(z[1], None, args, kws, e)
                    return self.held(args, kws)
            if not cands:
                if name in ('setattr', 'delattr') and args:
                    self.hit(args[0], e)
                    if len(args) == 3:
                        self.slot(args[0], 0, args[2], e, dynamic=True)
                    return FRESH
                if name == 'getattr' and len(e.args) > 1 and isinstance(e.args[1], ast.Constant):
                    return self.x_Attribute(ast.Attribute(value=e.args[0], attr=e.args[1].value))
                if name in ('vars',):
                    return args[0] if args else FRESH
                if name in SHALLOW and args:
                    return lifted(deeper(args[-1] if name == 'filter' else args[0]))
                if name in ('zip', 'enumerate'):
                    out = FRESH
                    for a in args:
                        out |= lifted(deeper(a), 2)
                    return out
                if name in ('max', 'min', 'next'):
                    out = FRESH
                    for a in args:
                        out |= a | deeper(a)
                    return out
                if name in ('map',) and args:
                    return FRESH
                return FRESH
        elif isinstance(fn, ast.Attribute):
            name = fn.attr
            if isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == 'super':
                recv = self.env.get(self.me, FRESH)
                selfcall = True
                cands = [f for f in E.mine(self.f, name) if f is not self.f and (name != '__init__' or f.cls in self.f.cls.mro())]
            else:
                recv = self.ev(fn.value)
                selfcall = any(r[0] == 'self' and d == 0 and l == 0 for r, d, l in recv)
                if self.traced(fn):
                    return FRESH
                if isinstance(fn.value, ast.Name) and fn.value.id in E.model.classes and fn.value.id not in self.env:
                    z = E.model.classes[fn.value.id].find(name)
                    cands = [z[1]] if z and isinstance(z[1], Func) else []
                    if cands and not cands[0].static and args:
                        recv, args, selfcall = args[0], args[1:], True
                elif selfcall or name not in CONTAINER:
                    cands = E.mine(self.f, name) if selfcall and self.f.cls else E.byname.get(name, [])
        else:
            self.ev(fn)
        out = FRESH
        if cands:
            for c in cands:
                out |= self.apply(c, recv, args, kws, e)
            return out
        if isinstance(fn, ast.Attribute):
            if name in MUTATORS and not self.external(fn.value):
                self.hit(recv, e)
                for a in args:
                    a = deeper(a) if name in ('update', 'extend') else a
                    self.slot(recv, 0, a, e)
                for _, a in kws:
                    self.slot(recv, 0, a, e)
                return deeper(recv) | (args[-1] if name == 'setdefault' and args else FRESH)
            if name == 'get':
                return deeper(recv) | (args[1] if len(args) > 1 else FRESH)
            if name in ('items', 'iteritems'):
                return lifted(deeper(recv), 2)
            if name in ('values', 'keys', 'copy'):
                return lifted(deeper(recv))
            if name == 'deepcopy':
                return FRESH
            if name == 'copy' or (self.external(fn.value) and name == 'copy'):
                return lifted(deeper(args[0])) if args else lifted(deeper(recv))
            if name in ALIAS:
                return (args[0] if args and self.external(fn.value) else recv)
            inplace = [v for k, v in kws if k == 'out']
            for v in inplace:
                self.hit(v, e)
            if any(k == 'inplace' for k, _ in kws):
                self.hit(recv, e)
        return FRESH

    def held(self, args, kws):
        out = FRESH
        for a in args + [v for _, v in kws]:
            out |= lifted(a)
        return out

    def external(self, e):
        if isinstance(e, ast.Name) and e.id not in self.env:
            r = self.E.model.resolve_name(self.f.module, e.id)
            return isinstance(r, tuple) and r[0] in ('module', 'extern')
        return False

    def traced(self, fn):
        if fn.attr in self.E.traceattrs:
            return True
        e = fn.value
        while isinstance(e, ast.Attribute):
            if e.attr in self.E.traceattrs:
                return True
            e = e.value
        return isinstance(e, ast.Name) and any(r[0] == 'attr' and r[1] in self.E.traceattrs for r, _, _ in self.env.get(e.id, ()))

    def apply(self, c, recv, args, kws, node):
        """effects of calling c with receiver recv (None: a fresh object)"""
        self.calling += 1
        try:
            return self._apply(c, recv, args, kws, node)
        finally:
            self.calling -= 1

    def _apply(self, c, recv, args, kws, node):
        s = self.E.sum[id(c)]
        m = {}
        pos = [p.arg for p in c.node.args.posonlyargs + c.node.args.args]
        if c.cls is not None and not c.static:
            pos = pos[1:]
        va, kw = c.node.args.vararg, c.node.args.kwarg
        for i, v in enumerate(args):
            if i < len(pos):
                m[pos[i]] = m.get(pos[i], FRESH) | v
            elif va:
                m[va.arg] = m.get(va.arg, FRESH) | lifted(v)
        names = all_params(c.node)
        for k, v in kws:
            if k is None:
                if kw:
                    m[kw.arg] = m.get(kw.arg, FRESH) | v
                for p in names:
                    if p not in m and not (va and p == va.arg) and not (kw and p == kw.arg):
                        m[p] = deeper(v)
            elif k in names:
                m[k] = m.get(k, FRESH) | v
            elif kw:
                m[kw.arg] = m.get(kw.arg, FRESH) | lifted(v)

        def image(r, d):
            """aliases in the caller of the callee's (root, depth)"""
            if r[0] == 'param':
                v = m.get(r[1], FRESH)
                if (va and r[1] == va.arg) or (kw and r[1] == kw.arg):
                    return deeper(v, max(d, 0))
                return deeper(v, d) if d > 0 else v
            if r[0] in ('self', 'attr'):
                if recv is None:
                    return FRESH
                out = set()
                for rr, dd, ll in recv:
                    if rr[0] == 'self' and dd == 0 and ll == 0:
                        out.add((r, d, 0))
                    else:
                        out |= deeper({(rr, dd, ll)}, d + (1 if r[0] == 'attr' else 0))
                return frozenset(out)
            return frozenset({(r, d, 0)})
        for (r, d), n in list(s.eff.items()):
            if r[0] == 'attr' and r[1] in self.E.traceattrs:
                continue
            if r[0] == 'param' and d >= 0:
                base = m.get(r[1], FRESH)
                kwd = (va and r[1] == va.arg) or (kw and r[1] == kw.arg)
                self.hit(base, node, d)
            elif r[0] == 'attr' and d == -1:
                if recv is not None:
                    for rr, dd, ll in recv:
                        if rr[0] == 'self' and dd == 0 and ll == 0:
                            self.eff(r, -1, node)
                        elif ll == 0:
                            self.eff(rr, dd, node)
            elif r[0] in ('self', 'attr'):
                for rr, dd, ll in image(r, d):
                    if ll == 0:
                        self.eff(rr, dd, node)
            elif r[0] in ('class', 'global'):
                self.eff(r, d, node)
        for (a, dep), t in list(s.cap.items()):
            for (r, d, l), n in list(t.items()):
                v = lifted(image(r, d), l)
                if recv is not None and any(rr[0] == 'self' and dd == 0 for rr, dd, ll in recv):
                    self.capture(a, dep, v, node)
        out = FRESH
        for r, d, l in s.ret:
            out |= lifted(image(r, d), l)
        return out

    # -- stores
    def slot(self, base, extra, v, node, dynamic=False):
        """v is stored in a slot of the object(s) base"""
        for r, d, l in base:
            if l == 0 and r[0] == 'attr':
                self.capture(r[1], d + extra, v, node)
            elif l == 0 and r[0] == 'self' and d == 0 and dynamic:
                self.capture('*', -1, v, node)

    def bind(self, t, v, node):
        if isinstance(t, ast.Name):
            self.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                if isinstance(x, ast.Starred):
                    self.bind(x.value, lifted(deeper(v)), node)
                else:
                    self.bind(x, deeper(v), node)
        elif isinstance(t, ast.Starred):
            self.bind(t.value, v, node)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value)
            for r, d, l in b:
                if r[0] == 'self' and d == 0 and l == 0:
                    self.eff(('attr', t.attr), -1, node)
                    self.capture(t.attr, -1, v, node)
                elif l == 0:
                    self.eff(r, d, node)
            if not b and isinstance(t.value, ast.Name):
                pass
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value)
            self.ev(t.slice)
            self.hit(b, node)
            self.slot(b, 0, v, node)
            # a fresh container keeps what is put into it
            if isinstance(t.value, ast.Name) and t.value.id in self.env and v:
                self.env[t.value.id] = self.env[t.value.id] | lifted(v)

    def stmt(self, st):
        if isinstance(st, ast.Assign):
            v = self.ev(st.value)
            for t in st.targets:
                if isinstance(t, (ast.Tuple, ast.List)) and isinstance(st.value, (ast.Tuple, ast.List)) and len(t.elts) == len(st.value.elts):
                    for a, b in zip(t.elts, st.value.elts):
                        self.bind(a, self.ev(b), st)
                else:
                    self.bind(t, v, st)
        elif isinstance(st, ast.AnnAssign):
            if st.value is not None:
                self.bind(st.target, self.ev(st.value), st)
        elif isinstance(st, ast.AugAssign):
            v = self.ev(st.value)
            if isinstance(st.target, ast.Name):
                if isinstance(st.value, (ast.List, ast.ListComp, ast.Dict, ast.DictComp, ast.Set, ast.SetComp, ast.GeneratorExp)):
                    self.hit(self.env.get(st.target.id, FRESH), st)
                    self.env[st.target.id] = self.env.get(st.target.id, FRESH) | v
                elif isinstance(st.op, ast.BitOr):
                    self.hit(self.env.get(st.target.id, FRESH), st)
            else:
                self.bind(st.target, FRESH, st)
                if isinstance(st.target, ast.Attribute) and isinstance(st.value, (ast.List, ast.ListComp, ast.Dict, ast.DictComp, ast.Set)):
                    self.hit(self.ev(st.target), st)
        elif isinstance(st, ast.Delete):
            for t in st.targets:
                if isinstance(t, ast.Name):
                    self.env.pop(t.id, None)
                else:
                    self.bind(t, FRESH, st)
        elif isinstance(st, ast.Expr):
            self.ev(st.value)
        elif isinstance(st, ast.Return):
            self.setret(self.ev(st.value))
        elif isinstance(st, ast.If):
            self.ev(st.test)
            a = dict(self.env)
            for s in st.body:
                self.stmt(s)
            b, self.env = self.env, dict(a)
            for s in st.orelse:
                self.stmt(s)
            self.merge(b)
        elif isinstance(st, (ast.For, ast.AsyncFor)):
            v = self.ev(st.iter)
            a = dict(self.env)
            for _ in range(2):
                self.bind(st.target, deeper(v), st)
                for s in st.body:
                    self.stmt(s)
                self.merge(a)
            for s in st.orelse:
                self.stmt(s)
        elif isinstance(st, ast.While):
            a = dict(self.env)
            for _ in range(2):
                self.ev(st.test)
                for s in st.body:
                    self.stmt(s)
                self.merge(a)
        elif isinstance(st, (ast.With, ast.AsyncWith)):
            for i in st.items:
                v = self.ev(i.context_expr)
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, v, st)
            for s in st.body:
                self.stmt(s)
        elif isinstance(st, ast.Try):
            a = dict(self.env)
            for s in st.body:
                self.stmt(s)
            self.merge(a)
            for h in st.handlers:
                for s in h.body:
                    self.stmt(s)
            for s in st.orelse + st.finalbody:
                self.stmt(s)
        elif isinstance(st, (ast.Assert, ast.Raise)):
            for c in ast.iter_child_nodes(st):
                if isinstance(c, ast.expr):
                    self.ev(c)
        elif isinstance(st, ast.FunctionDef):
            keep = dict(self.env)
            for p in all_params(st):
                self.env[p] = FRESH
            r = self.s.ret
            for s in st.body:
                self.stmt(s)
            self.s.ret = r
            self.env = keep
            self.env[st.name] = FRESH
        elif isinstance(st, ast.Global):
            for n in st.names:
                self.env[n] = frozenset({(('global', n), 0, 0)})
                if any(isinstance(x, ast.Name) and x.id == n and isinstance(x.ctx, ast.Store) for x in ast.walk(self.f.node)):
                    self.eff(('global', n), -1, st)

    def merge(self, other):
        for k in {*self.env, *other}:
            self.env[k] = self.env.get(k, FRESH) | other.get(k, FRESH)


MUTABLE = (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)


def mutable(e):
    return isinstance(e, MUTABLE) or (isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('list', 'dict', 'set', 'defaultdict'))


def describe(root, depth, f):
    k = {'attr': 'self.' + root[1], 'param': root[1], 'global': 'module level ' + root[1], 'class': 'class ' + root[1], 'self': 'self'}[root[0]]
    return f"sets {k}" if depth == -1 else f"changes the contents of {k}" if depth == 0 else f"changes an object inside {k}"


class EffectCase:
    name, scenario = 'effects', 'all classes'

    def __call__(self, model, res):
        E = Effects(model).run()
        owners = {}
        for f in E.funcs:
            s = E.sum[id(f)]
            if f.cls is not None and f.cls in E.traceclasses:
                continue
            query = not is_mutator(f.name)
            if f.name.startswith('_') and not f.name.startswith('__') and query:
                continue                              # helpers are judged through the methods that use them
            if f.cls is None and f.module.name in ('__init__',):
                continue
            self.judge(E, f, s, query, res)
        # captured data of the caller that is changed later through the attribute
        deepest = {}
        for f in E.funcs:
            if not is_mutator(f.name) and (not f.name.startswith('_') or f.name.startswith('__')):
                continue                              # a query that changes it is reported as such
            for (r, d), n in E.sum[id(f)].eff.items():
                if r[0] == 'attr' and d >= 0:
                    if d not in deepest.setdefault(r[1], {}):
                        deepest[r[1]][d] = (f, n)
        for f in E.funcs:
            if f.cls in E.traceclasses or (f.name.startswith('_') and not f.name.startswith('__')):
                continue
            for (a, dep), t in sorted(E.sum[id(f)].cap.items(), key=lambda z: (str(z[0]))):
                res.obligations += 1
                per = res.per.setdefault(f.qual + ' keeps', [0, 0])
                per[0] += 1
                hit = None
                for (r, d, l), n in t.items():
                    for k, (g, gn) in deepest.get(a, {}).items():
                        if k >= dep + 1 + l and hit is None:
                            hit = (r, n, g, gn)
                if hit:
                    r, n, g, gn = hit
                    shared = r[0] != 'param'
                    res.findings.append(Finding(res.prop, 'objects do not share state' if shared else 'caller data is not changed', f.qual, 'kept in self.' + a, 'effect',
                                                f"keeps {'' if shared else 'the caller' + chr(39) + 's '}{r[1]} in self.{a}, whose contents {g.qual} changes at {g.module.file}:{gn.lineno}",
                                                f"{f.module.file}:{n.lineno}", []))
                else:
                    per[1] += 1
                    res.discharged += 1
        # report where a change is made; where it is inherited from a call only if nothing else is reported
        direct = [f for f in res.findings if not getattr(f, 'via', False)]
        if direct:
            res.findings[:] = direct

    def judge(self, E, f, s, query, res):
        res.obligations += 1
        res.funcs.add(f.qual)
        per = res.per.setdefault(f.qual, [0, 0])
        per[0] += 1
        bad = None
        via = False
        a = f.node.args
        defaults = {}
        ps = a.posonlyargs + a.args
        for p, d in zip(ps[len(ps) - len(a.defaults):], a.defaults):
            defaults[p.arg] = d
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defaults[p.arg] = d
        for (r, d), n in sorted(s.eff.items(), key=lambda z: (z[0] in s.via, z[1].lineno, str(z[0]))):
            was = bad
            if r[0] == 'param':
                bad = bad or (describe(r, d, f) + (', a default shared between calls' if mutable(defaults.get(r[1])) else ", the caller's object"), n, 'caller data is not changed')
            elif r[0] in ('attr', 'self'):
                if query and r[1] not in E.traceattrs:
                    bad = bad or (describe(r, d, f) + ' in a query', n, 'queries change nothing')
            elif r[0] in ('global', 'class'):
                if f.name == 'blog_options':
                    continue
                bad = bad or (describe(r, d, f), n, 'objects do not share state')
            if bad is not was:
                via = (r, d) in s.via
        if not bad:
            for (at, dep), t in s.cap.items():
                for (r, d, l), n in t.items():
                    if r[0] == 'param' and mutable(defaults.get(r[1])) and d == 0 and l == 0:
                        bad = bad or (f"keeps the default of {r[1]}, one object for all calls, in self.{at}", n, 'objects do not share state')
        if bad:
            what, n, rule = bad
            fd = Finding(res.prop, rule, f.qual, 'query' if query else 'setter', 'effect', what, f"{f.module.file}:{n.lineno}", [])
            fd.via = via
            res.findings.append(fd)
        else:
            per[1] += 1
            res.discharged += 1


def cases(model, tier='quick'):
    return [EffectCase()]
