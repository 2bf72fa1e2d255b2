"""Program model: modules, classes, MRO, signatures of the subject's source (AST only)."""
import ast
import os

REPO = os.environ.get('VERIF_REPO', '/repo')
PKG = os.path.join(REPO, 'src', 'actuarialmath')


class ModelError(Exception):
    pass


class Func:
    """a function or method definition"""
    def __init__(self, node, module, cls=None, static=False, prop=False, classm=False):
        self.node = node
        self.module = module
        self.cls = cls
        self.static = static
        self.prop = prop
        self.classm = classm
        self.name = getattr(node, 'name', '<lambda>')

    @property
    def qual(self):
        return (self.cls.name + '.' if self.cls else '') + self.name

    @property
    def where(self):
        return f"{self.module.file}:{self.node.lineno}"

    def __repr__(self):
        return f"<{self.module.name}.{self.qual}>"


class Class:
    def __init__(self, node, module):
        self.node = node
        self.module = module
        self.name = node.name
        self.bases = []       # resolved Class objects
        self.extern = []      # unresolved base names
        self.methods = {}
        self.consts = {}      # class-level assignments name -> ast expr
        for st in node.body:
            self._stmt(st)

    def _stmt(self, st):
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
            names = [_decname(d) for d in st.decorator_list]
            f = Func(st, self.module, self, static='staticmethod' in names,
                     prop=any(n in ('property', 'cached_property') or n.endswith('.getter') for n in names),
                     classm='classmethod' in names)
            f.decorators = names
            if any(n.endswith('.setter') or n.endswith('.deleter') for n in names):
                self.methods[st.name + '@setter'] = f
            else:
                self.methods[st.name] = f
        elif isinstance(st, ast.Assign):
            for t in st.targets:
                if isinstance(t, ast.Name):
                    self.consts[t.id] = st.value
        elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
            self.consts[st.target.id] = st.value
        elif isinstance(st, (ast.If, ast.Try)):
            for s in ast.iter_child_nodes(st):
                if isinstance(s, ast.stmt):
                    self._stmt(s)

    def mro(self):
        if getattr(self, '_mro', None) is None:
            self._mro = _c3(self)
        return self._mro

    def find(self, name, after=None):
        """(Class, Func|expr) for attribute name in the MRO (after class `after`)"""
        m = self.mro()
        if after is not None:
            m = m[m.index(after) + 1:] if after in m else m
        for c in m:
            if name in c.methods:
                return c, c.methods[name]
            if name in c.consts:
                return c, c.consts[name]
        return None

    def isa(self, name):
        return any(c.name == name for c in self.mro())

    def __repr__(self):
        return f"<class {self.name}>"


def _decname(d):
    if isinstance(d, ast.Call):
        d = d.func
    if isinstance(d, ast.Attribute):
        return (_decname(d.value) + '.' if isinstance(d.value, (ast.Name, ast.Attribute)) else '') + d.attr
    if isinstance(d, ast.Name):
        return d.id
    return '?'


def _c3(c):
    seqs = [list(b.mro()) for b in c.bases] + [list(c.bases)]
    out = [c]
    while True:
        seqs = [s for s in seqs if s]
        if not seqs:
            return out
        for s in seqs:
            h = s[0]
            if not any(h in t[1:] for t in seqs):
                break
        else:
            raise ModelError(f"inconsistent MRO for {c.name}")
        out.append(h)
        for s in seqs:
            if s[0] is h:
                s.pop(0)


class Module:
    def __init__(self, name, file, tree, src):
        self.name = name
        self.file = file
        self.tree = tree
        self.src = src
        self.classes = {}
        self.funcs = {}
        self.consts = {}
        self.imports = {}    # local name -> ('module', dotted) or ('from', module, name)


def is_main_guard(st):
    return (isinstance(st, ast.If) and isinstance(st.test, ast.Compare)
            and isinstance(st.test.left, ast.Name) and st.test.left.id == '__name__')


def is_dead(st):
    return isinstance(st, ast.If) and isinstance(st.test, ast.Constant) and not st.test.value


class Model:
    def mentioned(self):
        """every attribute, member and string the package mentions"""
        z = getattr(self, '_mentioned', None)
        if z is None:
            z = set()
            for m in self.modules.values():
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Attribute):
                        z.add(n.attr)
                    elif isinstance(n, ast.Constant) and isinstance(n.value, str):
                        z.add(n.value)
            for c in self.classes.values():
                z.update(c.methods)
                z.update(c.consts)
            self._mentioned = z
        return z

    def stored(self):
        """attributes the package assigns"""
        z = getattr(self, '_stored', None)
        if z is None:
            z = self._stored = {n.attr for m in self.modules.values() for n in ast.walk(m.tree)
                                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)}
        return z

    def renamed(self, names):
        return not self.mentioned().issuperset(names)

    def __init__(self, pkg=PKG):
        self.pkg = pkg
        self.modules = {}
        self.classes = {}
        self.errors = []
        for fn in sorted(os.listdir(pkg)):
            if not fn.endswith('.py'):
                continue
            path = os.path.join(pkg, fn)
            with open(path, encoding='utf-8') as fp:
                src = fp.read()
            try:
                tree = ast.parse(src, path)
            except SyntaxError as e:
                raise ModelError(f"cannot parse {path}: {e}")
            m = Module(fn[:-3], os.path.relpath(path, REPO), tree, src)
            self.modules[m.name] = m
            self._collect(m, tree.body)
        for m in self.modules.values():
            for c in m.classes.values():
                self.classes.setdefault(c.name, c)
        for m in self.modules.values():
            for c in m.classes.values():
                for b in c.node.bases:
                    r = self.resolve_class(m, b)
                    if isinstance(b, ast.Name) and b.id == 'object' and r is None:
                        continue
                    if r is None:
                        c.extern.append(ast.unparse(b))
                    else:
                        c.bases.append(r)
        for c in list(self.classes.values()):
            c.mro()

    def _collect(self, m, body):
        for st in body:
            if isinstance(st, ast.ClassDef):
                m.classes[st.name] = Class(st, m)
            elif isinstance(st, ast.FunctionDef):
                m.funcs[st.name] = Func(st, m)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        m.consts[t.id] = st.value
                    elif isinstance(t, ast.Tuple) and isinstance(st.value, ast.Tuple) \
                            and len(t.elts) == len(st.value.elts):
                        for a, b in zip(t.elts, st.value.elts):
                            if isinstance(a, ast.Name):
                                m.consts[a.id] = b
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                m.consts[st.target.id] = st.value
            elif isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        m.imports[a.asname] = ('module', a.name)
                    else:
                        m.imports[a.name.split('.')[0]] = ('module', a.name.split('.')[0])
            elif isinstance(st, ast.ImportFrom):
                mod = ('.' * st.level) + (st.module or '')
                for a in st.names:
                    m.imports[a.asname or a.name] = ('from', mod, a.name)
            elif isinstance(st, (ast.Try, ast.If, ast.With)) and not is_main_guard(st) and not is_dead(st):
                for blk in ('body', 'orelse', 'finalbody'):
                    self._collect(m, getattr(st, blk, []) or [])
                for h in getattr(st, 'handlers', []) or []:
                    self._collect(m, h.body)

    def resolve_name(self, m, name, depth=0):
        """Class | Func | ('const', module, expr) | ('module', dotted) | ('extern', dotted) | None"""
        if depth > 6:
            return None
        if name in m.classes:
            return m.classes[name]
        if name in m.funcs:
            return m.funcs[name]
        if name in m.consts:
            return ('const', m, m.consts[name])
        if name in m.imports:
            imp = m.imports[name]
            if imp[0] == 'module':
                return ('module', imp[1])
            _, mod, nm = imp
            if mod.startswith('actuarialmath') or mod.startswith('.'):
                sub = mod.split('actuarialmath', 1)[-1].strip('.') if mod.startswith('actuarialmath') else mod.strip('.')
                mm = self.modules.get(sub or '__init__')
                if mm is None:
                    return None
                if nm in self.modules and nm not in mm.imports and nm not in mm.classes:
                    return ('pkgmodule', self.modules[nm])
                return self.resolve_name(mm, nm, depth + 1)
            return ('extern', mod + '.' + nm)
        return None

    def resolve_class(self, m, expr):
        if isinstance(expr, ast.Name):
            r = self.resolve_name(m, expr.id)
            return r if isinstance(r, Class) else None
        if isinstance(expr, ast.Attribute) and isinstance(expr.value, ast.Name):
            r = self.resolve_name(m, expr.value.id)
            if isinstance(r, tuple) and r[0] == 'pkgmodule':
                z = self.resolve_name(r[1], expr.attr)
                return z if isinstance(z, Class) else None
        return None

    def subclasses(self, name):
        return [c for c in self.classes.values() if c.isa(name)]


def params(func):
    """signature info: (names, defaults dict name->expr, vararg, kwarg, kwonly)"""
    a = func.args
    pos = [p.arg for p in a.posonlyargs + a.args]
    d = {}
    for p, e in zip(pos[len(pos) - len(a.defaults):], a.defaults):
        d[p] = e
    for p, e in zip(a.kwonlyargs, a.kw_defaults):
        if e is not None:
            d[p.arg] = e
    return (pos, d, a.vararg.arg if a.vararg else None,
            a.kwarg.arg if a.kwarg else None, [p.arg for p in a.kwonlyargs])
