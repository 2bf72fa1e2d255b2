"""Abstract interpreter over the syntax tree of the subject.

Values are elements of the canonical domain of algebra.py (numbers) and small
shape domains for containers, functions and objects.  Control flow that the
domain cannot decide is partitioned (one trace per decision vector); loops are
summarised by one generic iteration (sum, product, affine recurrence, append);
calls to methods that carry a contract are replaced by the contract, all other
calls are inlined.  No code of the subject is executed.
"""
import ast
from fractions import Fraction as Q
from . import algebra as al
from .algebra import Rat, rat, sign, R0, R1, PONE
from .model import Class, Func, params


class Undecided(Exception):
    """the domain cannot follow this construct (never a violation)"""


class SubjectRaise(Exception):
    def __init__(self, name, msg='', node=None, where=''):
        Exception.__init__(self, name)
        self.name, self.msg, self.node, self.where = name, msg, node, where


class _Return(Exception):
    def __init__(self, v, node=None):
        self.v = v
        self.node = node


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


# ------------------------------------------------------------- values ------
class Unknown:
    def __init__(self, reason):
        self.reason = reason

    def __repr__(self):
        return f"Unknown({self.reason})"


class Obj:
    n = 0

    def __init__(self, cls, attrs=None, family=None, name=None):
        Obj.n += 1
        self.id = Obj.n
        self.cls = cls
        self.attrs = dict(attrs or {})
        self.family = family
        self.name = name or (cls.name if cls else 'obj')
        self.writes = []
        self.born = False       # seen from its construction: it has no attribute that was not stored

    def __repr__(self):
        return f"<{self.name}>"


PLAIN = {'staticmethod', 'classmethod', 'property', 'cached_property', 'lru_cache', 'cache', 'wraps', 'abstractmethod', 'override', 'final', 'overload',
         'setter', 'getter', 'deleter'}


def plain_decorator(d):
    """a decorator under which the function computes what its body computes"""
    if isinstance(d, ast.Call):
        d = d.func
    return (d.attr if isinstance(d, ast.Attribute) else getattr(d, 'id', None)) in PLAIN


class Closure:
    def __init__(self, node, env, module, cls, qual):
        self.node, self.env, self.module, self.cls, self.qual = node, env, module, cls, qual


class Bound:
    def __init__(self, obj, func, cls):
        self.obj, self.func, self.cls = obj, func, cls


class SpecBound:
    """method of an object without visible source, carrying a contract"""
    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class SuperV:
    def __init__(self, obj, after):
        self.obj, self.after = obj, after


class Builtin:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return f"<builtin {self.name}>"


class ModuleRef:
    def __init__(self, name):
        self.name = name


class PkgModule:
    def __init__(self, module):
        self.module = module


class RangeV:
    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = lo, hi, step


class SymList:
    """[body(var) for var in range(lo,hi)] with symbolic length"""
    def __init__(self, body, var, lo, hi):
        self.body, self.var, self.lo, self.hi = body, var, lo, hi


class SymDict:
    """{key(var): body(var) for var in range(lo,hi)}"""
    def __init__(self, key, body, var, lo, hi, base=None):
        self.key, self.body, self.var, self.lo, self.hi, self.base = key, body, var, lo, hi, base


class Maybe:
    """value that may be None (contract of a partial lookup)"""
    n = 0

    def __init__(self, value, key):
        self.value, self.key = value, key


class Ext:
    """opaque external object (axes, frames, ...)"""
    def __init__(self, name):
        self.name = name


class Env:
    __slots__ = ('vars', 'parent', 'locals', 'func')

    def __init__(self, parent=None, locals_=None, func=None):
        self.vars = {}
        self.parent = parent
        self.locals = locals_
        self.func = func

    def find(self, name):
        e = self
        while e is not None:
            if name in e.vars:
                return e
            e = e.parent
        return None


_locals_cache = {}


def local_names(fn):
    """names bound in the body of a function node (not nested functions)"""
    z = _locals_cache.get(id(fn))
    if z is not None and z[0] is fn:
        return z[1]
    out = set()
    nonloc = set()

    def tgt(t):
        if isinstance(t, ast.Name):
            out.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for q in t.elts:
                tgt(q)
        elif isinstance(t, ast.Starred):
            tgt(t.value)

    def walk(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                out.add(c.name)
                continue
            if isinstance(c, ast.Lambda):
                continue
            if isinstance(c, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                for w in ast.walk(c):
                    if isinstance(w, ast.NamedExpr):
                        tgt(w.target)
                continue
            if isinstance(c, (ast.Global, ast.Nonlocal)):
                nonloc.update(c.names)
            if isinstance(c, ast.Assign):
                for t in c.targets:
                    tgt(t)
            elif isinstance(c, (ast.AugAssign, ast.AnnAssign, ast.For, ast.NamedExpr)):
                tgt(c.target)
            elif isinstance(c, ast.With):
                for i in c.items:
                    if i.optional_vars is not None:
                        tgt(i.optional_vars)
            elif isinstance(c, ast.ExceptHandler) and c.name:
                out.add(c.name)
            elif isinstance(c, (ast.Import, ast.ImportFrom)):
                for a in c.names:
                    out.add((a.asname or a.name).split('.')[0])
            walk(c)
    if isinstance(fn, ast.Lambda):
        pass
    else:
        for st in fn.body:
            walk(ast.Module(body=[st], type_ignores=[]))
    out -= nonloc
    a = fn.args
    for p in a.posonlyargs + a.args + a.kwonlyargs:
        out.add(p.arg)
    if a.vararg:
        out.add(a.vararg.arg)
    if a.kwarg:
        out.add(a.kwarg.arg)
    _locals_cache[id(fn)] = (fn, out)
    return out


def is_num(v):
    return isinstance(v, (Rat, bool))


def num(v):
    if isinstance(v, Rat):
        return v
    if isinstance(v, bool):
        return rat(int(v))
    if isinstance(v, (int, Q, float)):
        return rat(v)
    if isinstance(v, Maybe):
        raise Undecided("partial value used as number")
    if isinstance(v, Unknown):
        return al.opaque(v.reason)
    if v is None:
        raise SubjectRaise('TypeError', 'None used as a number')
    if isinstance(v, str):
        raise SubjectRaise('TypeError', 'string used as a number')
    if plain_object(v):
        raise SubjectRaise('TypeError', f"{v!r} used as a number")
    if isinstance(v, (Closure, Bound, Func, Builtin)):
        raise SubjectRaise('TypeError', 'function used as a number')
    raise Undecided(f"not a number: {v!r}")


NUMBER_ATTRS = set(dir(int)) | set(dir(float)) | set("""T all any argmax argmin argsort astype base byteswap choose clip compress
copy cumprod cumsum data diagonal dtype dump dumps fill flags flat flatten getfield item itemset itemsize max mean min nbytes
ndim newbyteorder nonzero prod ptp put ravel repeat reshape resize round searchsorted setfield setflags shape size sort
squeeze std strides sum swapaxes take tobytes tofile tolist tostring trace transpose var view device __array__""".split())


def plain_object(v):
    """an object of the package whose class defines none of the operations of numbers"""
    return isinstance(v, Obj) and isinstance(v.cls, Class) and not any(c.extern for c in v.cls.mro()) and \
        not any(n.startswith('__') and n.strip('_') in NUMERIC for c in v.cls.mro() for n in c.methods)


NUMERIC = {z + n for n in ('add', 'sub', 'mul', 'truediv', 'floordiv', 'pow', 'mod') for z in ('', 'r', 'i')} | \
    {'float', 'int', 'index', 'neg', 'abs', 'lt', 'le', 'gt', 'ge', 'eq', 'bool', 'round', 'getattr', 'call', 'len'}


def has_opaque(v):
    if isinstance(v, Unknown):
        return True
    if isinstance(v, Rat):
        return al.has_kind(v, {'OPAQUE'})
    if isinstance(v, (list, tuple)):
        return any(has_opaque(z) for z in v)
    if isinstance(v, dict):
        return any(has_opaque(z) for z in v.values())
    return False


def const_int(v):
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, Rat):
        c = v.const()
        if c is not None and c.denominator == 1:
            return int(c)
    return None


def hkey(v):
    """hashable identity of an abstract value"""
    if isinstance(v, Rat):
        return ('n', v.key())
    if isinstance(v, (bool, str, type(None))):
        return ('c', v) if not isinstance(v, bool) else ('n', rat(int(v)).key())
    if isinstance(v, (list, tuple)):
        return (type(v).__name__,) + tuple(hkey(z) for z in v)
    if isinstance(v, dict):
        return ('d',) + tuple((k if not isinstance(k, Rat) else k.key(), hkey(z)) for k, z in v.items())
    if isinstance(v, Maybe):
        return ('m', v.key)
    return ('o', id(v))


CURRENT = [None]       # the interpreter whose decisions a contract may ask for


class Trace:
    """one decision vector and what it assumed"""
    def __init__(self, script):
        self.script = list(script)
        self.pos = 0
        self.record = []       # (taken, text)
        self.memo = {}
        self.subs = []         # list of (name, Rat)
        self.degenerate = []   # equalities assumed on quantities the domain cannot pin
        self.weak = []         # reasons why feasibility is not established
        self.notes = set()
        self.apart = []        # quantities assumed to differ from zero
        self.conds = []        # (quantity, strict) assumed positive or non-negative


# names under which the checks describe the state of a model object
STATE = ('_MAXAGE', '_MINAGE', '_RADIX', '_table', '_select', 'periods_', 'interest', 'udd_', 'extra_', 'risk_', 'life', 'three_term')

CONSTS = ('VARIANCE', 'WHOLE', '_VARIANCE', '_WHOLE', '_TOL', '_verbose')


class Interp:
    MAXDEPTH = 40
    MAXSTEPS = 60000

    def __init__(self, model, specs=None, builtins=None):
        self.model = model
        self.specs = specs
        CURRENT[0] = self
        self.trace = Trace([])
        self.depth = 0
        self.steps = 0
        self.stack = []
        self.fresh = 0
        self.visited = set()     # (file, lineno) of visited statements
        self.funcs = set()       # functions whose body was interpreted
        self.generic = 0         # >0 inside generic loop iteration
        self.loopsyms = set()
        self.calls = []          # contract calls (obj, name, args)
        self.record_calls = False
        self.prints = 0
        from .builtins_ import BUILTINS, EXTERN
        self.bt = BUILTINS
        self.ext = EXTERN
        self.appends = None

    # -- decisions ---------------------------------------------------------
    def fork(self, key, text):
        tr = self.trace
        if key in tr.memo:
            return tr.memo[key]
        if self.generic and key[0] != 'maybe':
            raise Undecided(f"undecided condition in generic iteration: {text}")
        if tr.pos < len(tr.script):
            v = tr.script[tr.pos]
        else:
            v = True
            tr.script.append(True)
        tr.pos += 1
        tr.memo[key] = v
        tr.record.append((v, text))
        return v

    def add_fact(self, r, strict):
        """r > 0 (strict) or r >= 0"""
        if r.d is not PONE:
            s = sign(Rat(r.d))
            if s == '+':
                r = Rat(r.n)
            elif s == '-':
                r = -Rat(r.n)
            else:
                return
        if al.is_int(r) and strict:
            r, strict = r - 1, False
        al.CTX.facts.append((r.n, strict))

    def decide_cmp(self, op, a, b, text):
        """op in < <= == ; returns bool"""
        diff = b - a
        if al.has_kind(diff, {'OPAQUE'}):
            raise Undecided(f"condition on uninterpreted value: {text} ({al.opaque_reason(diff)})")
        s = sign(diff)
        if s not in ('+', '-', '0') and self.trace.subs:      # values pinned on this branch
            z = diff
            for name, r in self.trace.subs:
                if name in z.syms():
                    z = al.subst(z, {name: r})
            if z.const() is not None:
                s = sign(z)
        if op == '<':
            if s == '+':
                return True
            if s in ('-', '0', '<='):
                return False
        elif op == '<=':
            if s in ('+', '0', '>='):
                return True
            if s == '-':
                return False
        elif op == '==':
            if s == '0':
                return True
            if s in ('+', '-'):
                return False
            if al.is_int(diff) is False and diff.d is PONE:
                # integer part + proper fraction can never vanish
                ip, fp = al.split_int(diff.n)
                f = Rat(fp)
                for k in range(-2, 3):
                    if sign(f - k) == '+' and sign(k + 1 - f) == '+':
                        return False
        feas = [None, None]           # feasibility of the true and of the false branch
        if diff.d is PONE:
            p = diff.n
            if op == '==':
                feas = [al.feasible(p, False, eq=True), True if diff.syms() else None]
                if feas[0] is False:
                    return False
            else:
                st = op == '<'
                q = p
                isint = al.is_int(diff)
                one = al.PONE
                feas = [al.feasible(q + (-one) if (st and isint) else q, st and not isint),
                        al.feasible(-q if st or not isint else (-q) + (-one), (not st) and not isint)]
                if feas[0] is False and feas[1]:
                    return False
                if feas[1] is False and feas[0]:
                    return True
        if self.loopsyms & diff.syms() and self.generic:
            raise Undecided(f"condition depends on loop variable: {text}")
        if op == '==':
            key = ('eq', frozenset((diff.key(), (-diff).key())))
        else:
            key = (op, diff.key())
        v = self.fork(key, text)
        if op == '==':
            if v:
                sub = self._solve(diff)
                if sub is None:
                    self.trace.degenerate.append(text)
                elif feas[0] is None:
                    self.trace.weak.append(text)
                if sub is None:
                    pass
                else:
                    self.trace.subs.append(sub)
                self.add_fact(diff, False)
                self.add_fact(-diff, False)
            else:
                self.trace.apart.append(diff)
                if s == '>=':
                    self.add_fact(diff, True)
                elif s == '<=':
                    self.add_fact(-diff, True)
        elif op == '<':
            self.trace.conds.append((diff, True) if v else (-diff, False))
            self.add_fact(diff, True) if v else self.add_fact(-diff, False)
            self.trace.weak.append(text) if feas[0 if v else 1] is not True else None
        else:
            self.trace.conds.append((diff, False) if v else (-diff, True))
            self.add_fact(diff, False) if v else self.add_fact(-diff, True)
            self.trace.weak.append(text) if feas[0 if v else 1] is not True else None
        if op != '==' and diff.d is PONE:
            fact = diff if v else -diff         # fact > 0 or fact >= 0
            strict = (op == '<') == v
            if strict and al.is_int(diff):
                fact, strict = fact - 1, False
            if not strict and (al.feasible((fact - 1).n, False) if al.is_int(fact) else al.feasible(fact.n, True)) is False:
                sub = self._solve(fact)         # the branch pins the value
                if sub is not None:
                    self.trace.subs.append(sub)
        return v

    def close(self, a, b, text):
        """a tolerant comparison: equal, or one a proper fraction within rounding of the other"""
        v = self.decide_cmp('==', a, b, text)
        if v or self.generic:
            return v
        diff = b - a
        if diff.d is not PONE or len(diff.syms()) != 1:
            return v
        name, = diff.syms()
        if 'frac' not in al.flags(name):
            return v
        r = al.sym(name)
        for end, at in ((R0, (diff - r, diff + r)), (R1, (diff - 1 + r, diff + 1 - r))):
            if any(z.is_zero() for z in at):
                if self.trace.memo.get(('near', name, repr(R1 - end))):
                    return False
                w = self.fork(('near', name, repr(end)), f"{name} within rounding of {end!r}")
                if w:
                    self.trace.subs.append((name, end))
                return w
        return v

    def _solve(self, diff):
        """diff == 0  ->  (symbol, value) for a symbol occurring linearly with constant coefficient"""
        if diff.d is not PONE:
            diff = Rat(diff.n)
        for name in sorted(diff.syms()):
            if name.startswith('$'):
                continue
            z = al._linear(diff, name)
            if z is None:
                continue
            c = z[0].const()
            if c:
                return name, -z[1] / c
        return None

    def truth(self, v, text=''):
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, Rat):
            c = v.const()
            if c is not None:
                return c != 0
            return not self.decide_cmp('==', v, R0, text or str(v))
        if isinstance(v, (str, list, tuple, dict)):
            return len(v) > 0
        if isinstance(v, Maybe):
            if not self.present(v):
                return False
            return self.truth(v.value, text)
        if isinstance(v, SymList):
            return self.decide_cmp('<', v.lo, v.hi, text)
        if isinstance(v, SymDict):
            return True
        if isinstance(v, Unknown):
            raise Undecided(f"branch on uninterpreted value: {text or v.reason}")
        for nm in ('__bool__', '__len__'):
            d = self.dunder(v, nm)
            if d is not None:
                return self.truth(d[0], text)
        if isinstance(v, (Obj, Closure, Bound, Builtin, Func, Class, SpecBound, Ext)):
            return True
        raise Undecided(f"truth of {v!r}")

    def dunder(self, v, name):
        """[result] of a special method defined by the class of an object of the subject"""
        if not isinstance(v, Obj) or v.cls is None or getattr(v, 'callhook', None) is not None:
            return None
        z = v.cls.find(name)
        if z is None or not isinstance(z[1], Func):
            return None
        return [self.call_func(z[1], v, [], {})]

    def present(self, m):
        return self.fork(('maybe', m.key), f"{m.key} known")

    def force(self, v, what='operand'):
        """use of a value where None would raise TypeError"""
        if isinstance(v, Maybe):
            if self.present(v):
                return v.value
            raise SubjectRaise('TypeError', f"possibly-absent value used as {what}")
        return v

    # -- functions ----------------------------------------------------------
    def bind(self, node, args, kwargs, where='', selfv=None, defaults_env=None):
        pos, defaults, vararg, kwarg, kwonly = params(node)
        out = {}
        extra = []
        for i, a in enumerate(args):
            if i < len(pos):
                out[pos[i]] = a
            elif vararg:
                extra.append(a)
            else:
                raise SubjectRaise('TypeError', f"{where} takes {len(pos)} positional arguments but {len(args)} were given")
        kw = {}
        for k, a in kwargs.items():
            if k in out:
                raise SubjectRaise('TypeError', f"{where} got multiple values for argument '{k}'")
            if k in pos or k in kwonly:
                out[k] = a
            elif kwarg:
                kw[k] = a
            else:
                raise SubjectRaise('TypeError', f"{where} got an unexpected keyword argument '{k}'")
        missing = [p for p in pos + kwonly if p not in out and p not in defaults]
        if missing:
            raise SubjectRaise('TypeError', f"{where} missing required argument(s) {', '.join(missing)}")
        omitted = [p for p in pos + kwonly if p not in out]
        if vararg:
            out[vararg] = tuple(extra)
        if kwarg:
            out[kwarg] = kw
        return out, omitted, defaults

    def call(self, f, args, kwargs, node=None):
        self.steps += 1
        if self.steps > self.MAXSTEPS:
            raise Undecided("analysis budget exhausted")
        if isinstance(f, Builtin):
            return f.fn(self, args, kwargs, node)
        if isinstance(f, Bound):
            return self.call_method(f.obj, f.func, f.cls, args, kwargs, node)
        if isinstance(f, SpecBound):
            h = self.specs.handler(self, f.obj, f.name)
            return h(self, f.obj, None, args, kwargs, node)
        if isinstance(f, Closure):
            return self.call_closure(f, args, kwargs, node)
        if isinstance(f, Func):
            if f.cls is not None and not f.static and args and isinstance(args[0], Obj):
                return self.call_method(args[0], f, f.cls, args[1:], kwargs, node)
            return self.call_func(f, None, args, kwargs, node)
        if isinstance(f, Class):
            return self.instantiate(f, args, kwargs, node)
        if isinstance(f, Unknown):
            return Unknown(f"call of {f.reason}")
        if isinstance(f, Ext):
            return Ext(f.name + '()')
        if f is None or isinstance(f, (Rat, bool, str, list, tuple, dict)):
            raise SubjectRaise('TypeError', f"{type(f).__name__} value is not callable", node)
        if isinstance(f, Obj) and getattr(f, 'callhook', None) is not None:
            return f.callhook(self, args, kwargs, node)
        if isinstance(f, Obj) and f.cls is not None:
            z = f.cls.find('__call__')
            if z:
                return self.call_method(f, z[1], z[0], args, kwargs, node)
        raise Undecided(f"call of {f!r}")

    def call_method(self, obj, func, cls, args, kwargs, node=None, nospec=False):
        if not nospec and self.specs is not None:
            h = self.specs.handler(self, obj, func.name)
            if h is not None:
                return h(self, obj, func, args, kwargs, node)
        return self.call_func(func, obj, args, kwargs, node)

    def call_func(self, func, obj, args, kwargs, node=None):
        """interpret the body"""
        if func.classm:
            args = [func.cls] + list(args)
        elif func.cls is not None and not func.static:
            args = [obj] + list(args)
        wrap = [d for d in func.node.decorator_list if not plain_decorator(d)]
        if wrap:
            env = Env(None, set(), func)
            f = Builtin(func.name, lambda it, a, k, n: it.call_body(func, list(a), dict(k)))
            for d in reversed(wrap):
                f = self.call(self.eval(d, env), [f], {}, d)
            return self.call(f, list(args), kwargs, node)
        return self.call_body(func, args, kwargs)

    def call_body(self, func, args, kwargs):
        where = f"{func.module.name}.{func.qual}()"
        bound, omitted, defaults = self.bind(func.node, args, kwargs, where)
        env = Env(None, local_names(func.node), func)
        for k, v in bound.items():
            env.vars[k] = v
        for k in omitted:
            env.vars[k] = self.eval_default(defaults[k], func)
        return self.run_body(func.node, env, func, (func.node, tuple((k, hkey(v)) for k, v in env.vars.items())))

    def eval_default(self, expr, func):
        env = Env(None, set(), func)
        if func.cls is not None:
            # class-level names are visible in default expressions
            for c, e in func.cls.consts.items():
                try:
                    env.vars[c] = self.eval(e, Env(None, set(), func))
                except (Undecided, SubjectRaise):
                    env.vars[c] = Unknown(c)
        return self.eval(expr, env)

    def call_closure(self, f, args, kwargs, node=None):
        bound, omitted, defaults = self.bind(f.node, args, kwargs, f.qual)
        env = Env(f.env, local_names(f.node), f.env.func if f.env else None)
        env.func = f.func if hasattr(f, 'func') else (f.env.func if f.env else None)
        for k, v in bound.items():
            env.vars[k] = v
        dv = getattr(f, 'defaults', {})
        for k in omitted:
            env.vars[k] = dv[k] if k in dv else self.eval(defaults[k], f.env)
        if isinstance(f.node, ast.Lambda):
            self._enter((f.node, tuple((k, hkey(v)) for k, v in env.vars.items()), id(f.env)))
            try:
                return self.eval(f.node.body, env)
            finally:
                self._leave()
        return self.run_body(f.node, env, env.func, (f.node, tuple((k, hkey(v)) for k, v in env.vars.items()), id(f.env)))

    def _enter(self, key):
        if key in self.stack:
            raise SubjectRaise('RecursionError', 'call repeats itself with identical arguments')
        if len(self.stack) > self.MAXDEPTH:
            raise Undecided("inlining depth exceeded")
        self.stack.append(key)

    def _leave(self):
        self.stack.pop()

    def run_body(self, node, env, func, key):
        self._enter(key)
        if func is not None:
            self.funcs.add(func.qual if func.node is node else func.qual + '.' + getattr(node, 'name', '<lambda>'))
        try:
            self.block(node.body, env)
            if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(node)):
                raise Undecided("generator function")
            return None
        except _Return as r:
            return r.v
        finally:
            self._leave()

    def instantiate(self, cls, args, kwargs, node=None):
        if self.specs is not None:
            h = self.specs.constructor(self, cls)
            if h is not None:
                return h(self, cls, args, kwargs, node)
        o = Obj(cls)
        o.born = True
        z = cls.find('__init__')
        if z:
            self.call_method(o, z[1], z[0], args, kwargs, node)
        elif args or kwargs:
            raise SubjectRaise('TypeError', f"{cls.name}() takes no arguments", node)
        return o

    # -- attributes ---------------------------------------------------------
    def getattr(self, o, name, node=None):
        if isinstance(o, Obj):
            if name in o.attrs:
                return o.attrs[name]
            if name in getattr(o, 'absent', ()):
                raise SubjectRaise('AttributeError', f"'{o.name}' object has no attribute '{name}'", node)
            if self.specs is not None:
                v = self.specs.attr(self, o, name)
                if v is not NotImplemented:
                    return v
            if o.cls is not None:
                z = o.cls.find(name)
                if z:
                    if not isinstance(z[1], Func) and self.model.renamed(STATE) and (
                            name in self.model.stored() or name not in STATE and name not in CONSTS):
                        return Unknown(f"attribute {name}: state kept under other names")
                    return self._member(o, z[0], z[1])
                if name == '__class__':
                    return o.cls
                if name == '__dict__':
                    return Unknown('__dict__')
                if o.cls.extern and not all(e in ('object', 'Exception') for e in o.cls.extern):
                    return Unknown(f"inherited attribute {name}")
                if self._assigned_somewhere(o.cls, name) and not (
                        o.born and (node is not None or name in self.model.mentioned()) and not self._dynamic(o.cls)):
                    return Unknown(f"attribute {name}")
                if node is None and name not in self.model.mentioned():
                    raise Undecided(f"the package keeps no attribute {name}")
                if hasattr(object, name):
                    return Unknown(f"{o.name}.{name}")
            raise SubjectRaise('AttributeError', f"'{o.name}' object has no attribute '{name}'", node)
        if isinstance(o, SuperV):
            if o.after is None:
                raise Undecided("super() outside class")
            z = o.obj.cls.find(name, after=o.after) if isinstance(o.obj, Obj) else None
            if z is None:
                if name in ('__init__', '__init_subclass__'):
                    return Builtin('object.__init__', lambda it, a, k, n: self._objinit(a, k, n))
                if hasattr(object, name) or isinstance(o.obj, Obj) and any(e not in ('object', 'ABC') for e in o.obj.cls.extern):
                    return Unknown(f"super().{name}")
                raise SubjectRaise('AttributeError', f"'super' object has no attribute '{name}'", node)
            return self._member(o.obj, z[0], z[1])
        if isinstance(o, Class):
            z = o.find(name)
            if z:
                c, m = z
                if isinstance(m, Func):
                    return Bound(None, m, c) if m.static else m
                return self.eval_const(c, m)
            if name == '__name__':
                return o.name
            if name == '__init__' and not o.extern:
                return Builtin('object.__init__', lambda it, a, k, n: self._objinit(a[1:], k, n))
            if hasattr(type, name) or o.extern:
                return Unknown(f"{o.name}.{name}")
            raise SubjectRaise('AttributeError', f"type object '{o.name}' has no attribute '{name}'", node)
        if isinstance(o, ModuleRef):
            return self.extern(o.name + '.' + name)
        if isinstance(o, PkgModule):
            r = self.model.resolve_name(o.module, name)
            return self.resolved(r, name)
        if isinstance(o, Maybe):
            return self.getattr(self.force(o), name, node)
        if isinstance(o, Unknown):
            return Unknown(f"{o.reason}.{name}")
        if isinstance(o, Ext):
            return Ext(o.name + '.' + name)
        if o is None:
            raise SubjectRaise('AttributeError', f"'NoneType' object has no attribute '{name}'", node)
        if isinstance(o, Builtin) and o.name + '.' + name in self.ext:
            return self.extern(o.name + '.' + name)
        m = self.bt.get('.' + name)
        if m is not None:
            return Builtin(name, lambda it, a, k, n: m(it, o, a, k, n))
        if isinstance(o, (Rat, bool)) and name not in NUMBER_ATTRS:
            raise SubjectRaise('AttributeError', f"number has no attribute '{name}'", node)
        if type(o) is str and not hasattr(type(o), name):
            raise SubjectRaise('AttributeError', f"'{type(o).__name__}' object has no attribute '{name}'", node)
        if isinstance(o, (list, tuple, dict, str, SymDict, SymList, Rat, bool, Closure, Builtin)):
            return Unknown(f"{type(o).__name__}.{name}")
        raise Undecided(f"attribute {name} of {o!r}")

    def _objinit(self, a, k, n):
        if a or k:
            raise SubjectRaise('TypeError', 'object.__init__() takes exactly one argument', n)
        return None

    def _assigned_somewhere(self, cls, name):
        for c in cls.mro():
            for n in ast.walk(c.node):
                if isinstance(n, ast.Attribute) and n.attr == name and isinstance(n.ctx, ast.Store):
                    return True
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr':
                    return True
        return False

    def _dynamic(self, cls):
        """may the class hold attributes that no assignment of it names?"""
        for c in cls.mro():
            if any(e not in ('object', 'ABC') for e in c.extern):
                return True
            for n in ast.walk(c.node):
                if isinstance(n, ast.Attribute) and n.attr in ('__dict__', '__setattr__', '__getattr__', '__getattribute__', 'update_wrapper') \
                        or isinstance(n, ast.FunctionDef) and n.name in ('__getattr__', '__getattribute__') \
                        or isinstance(n, ast.Name) and n.id in ('setattr', 'vars'):
                    return True
        return False

    def _member(self, o, cls, m):
        if isinstance(m, Func):
            if m.prop:
                return self.call_method(o, m, cls, [], {})
            return Bound(o, m, cls)
        return self.eval_const(cls, m)

    def eval_const(self, cls, expr):
        env = Env(None, set(), _ClsCtx(cls))
        for c, e in cls.consts.items():
            if e is not expr:
                env.vars[c] = _Lazy(lambda e=e, cls=cls: self.eval(e, Env(None, set(), _ClsCtx(cls))))
        return self.eval(expr, env)

    def extern(self, dotted):
        v = self.ext.get(dotted)
        if v is None:
            if any(k.startswith(dotted + '.') for k in self.ext):
                return ModuleRef(dotted)
            if dotted.split('.')[0] in ('matplotlib', 'IPython', 'plt'):
                return Ext(dotted)
            return Unknown(dotted)
        if callable(v):
            return Builtin(dotted, v)
        return v

    def resolved(self, r, name):
        if r is None:
            raise SubjectRaise('NameError', f"name '{name}' is not defined")
        if isinstance(r, (Class, Func)):
            return r
        if r[0] == 'const':
            return self.eval(r[2], Env(None, set(), _ModCtx(r[1])))
        if r[0] == 'module':
            return ModuleRef(r[1])
        if r[0] == 'pkgmodule':
            return PkgModule(r[1])
        if r[0] == 'extern':
            return self.extern(r[1])
        raise Undecided(name)

    # -- names ----------------------------------------------------------------
    def name(self, nid, env, node):
        e = env
        while e is not None:
            if nid in e.vars:
                v = e.vars[nid]
                return v.get() if isinstance(v, _Lazy) else v
            if e.locals and nid in e.locals:
                raise SubjectRaise('UnboundLocalError', f"local variable '{nid}' referenced before assignment", node)
            e = e.parent
        mod = env.func.module if env.func is not None else None
        if mod is not None:
            r = self.model.resolve_name(mod, nid)
            if r is not None:
                return self.resolved(r, nid)
            if nid in mod.imports:
                return Unknown(f"import {nid}")
        if nid in self.bt:
            f = self.bt[nid]
            return Builtin(nid, f) if callable(f) else f
        if nid in ('True', 'False', 'None'):
            return {'True': True, 'False': False, 'None': None}[nid]
        import builtins as _b
        if hasattr(_b, nid):
            return Builtin(nid, lambda it, a, k, n: Unknown(f"{nid}()"))
        if nid.startswith('__') and nid.endswith('__'):
            return Unknown(nid)
        raise SubjectRaise('NameError', f"name '{nid}' is not defined", node)

    # -- statements -------------------------------------------------------------
    def block(self, stmts, env):
        for st in stmts:
            self.stmt(st, env)

    def stmt(self, st, env):
        self.steps += 1
        if self.steps > self.MAXSTEPS:
            raise Undecided("analysis budget exhausted")
        f = env.func
        if f is not None and getattr(f, 'module', None) is not None:
            self.visited.add((f.module.file, st.lineno))
        m = getattr(self, 's_' + type(st).__name__, None)
        if m is None:
            raise Undecided(f"statement {type(st).__name__}")
        try:
            return m(st, env)
        except SubjectRaise as e:
            if e.node is None:
                e.node = st
            if not e.where and f is not None and getattr(f, 'module', None) is not None:
                e.where = f"{f.module.file}:{getattr(e.node, 'lineno', st.lineno)}"
            raise

    def s_Pass(self, st, env):
        pass

    def s_Expr(self, st, env):
        if isinstance(st.value, ast.Constant):
            return
        self.eval(st.value, env)

    def s_Return(self, st, env):
        raise _Return(self.eval(st.value, env) if st.value is not None else None, st)

    def s_Break(self, st, env):
        raise _Break()

    def s_Continue(self, st, env):
        raise _Continue()

    def s_Global(self, st, env):
        raise Undecided("global statement")

    def s_Nonlocal(self, st, env):
        pass

    def s_Import(self, st, env):
        for a in st.names:
            env.vars[a.asname or a.name.split('.')[0]] = ModuleRef(a.name if a.asname else a.name.split('.')[0])

    def s_ImportFrom(self, st, env):
        for a in st.names:
            mod = st.module or ''
            nm = a.asname or a.name
            if mod.startswith('actuarialmath') or st.level:
                tmp = self.model.modules.get(mod.split('.')[-1] if '.' in mod or st.level else '__init__')
                r = self.model.resolve_name(tmp, a.name) if tmp else None
                env.vars[nm] = self.resolved(r, a.name) if r is not None else Unknown(a.name)
            else:
                env.vars[nm] = self.extern(mod + '.' + a.name)

    def s_FunctionDef(self, st, env):
        c = Closure(st, env, None, None, st.name)
        c.func = env.func
        c.defaults = {}
        pos, defaults, *_ = params(st)
        for k, e in defaults.items():
            c.defaults[k] = self.eval(e, env)
        for d in reversed(st.decorator_list):
            if not plain_decorator(d):
                c = self.call(self.eval(d, env), [c], {}, d)
        self.assign_name(st.name, c, env)

    def s_Delete(self, st, env):
        for t in st.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, env)
                k = self.eval(t.slice, env)
                if isinstance(o, dict):
                    o.pop(self.dkey(k), None)
                elif self.specs is None or not self.specs.delitem(self, o, k):
                    raise Undecided("del subscript")
            else:
                raise Undecided("del")

    def s_Assert(self, st, env):
        try:
            v = self.eval(st.test, env)
            if isinstance(v, bool):
                ok = v
            else:
                ok = self.assume(v, st)
        except _AssumeNeeded:
            ok = True
        if ok is False:
            raise SubjectRaise('AssertionError', ast.unparse(st.test), st)

    def assume(self, v, st):
        if v is None:
            return False
        try:
            return self.truth(v, ast.unparse(st.test))
        except Undecided:
            self.trace.notes.add(f"assumed: {ast.unparse(st.test)}")
            return True

    def s_Raise(self, st, env):
        name = 'Exception'
        if st.exc is not None:
            e = st.exc.func if isinstance(st.exc, ast.Call) else st.exc
            if isinstance(e, ast.Name):
                name = e.id
            elif isinstance(e, ast.Attribute):
                name = e.attr
        raise SubjectRaise(name, ast.unparse(st.exc) if st.exc is not None else 're-raise', st)

    def s_Try(self, st, env):
        try:
            try:
                self.block(st.body, env)
            except SubjectRaise as e:
                for h in st.handlers:
                    if self._catches(h, e):
                        if h.name:
                            env.vars[h.name] = Unknown('exception')
                        self.block(h.body, env)
                        break
                else:
                    raise
            else:
                self.block(st.orelse, env)
        finally:
            if st.finalbody:
                self.block(st.finalbody, env)

    def _catches(self, h, e):
        if h.type is None:
            return True
        names = []
        for t in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]):
            names.append(t.id if isinstance(t, ast.Name) else getattr(t, 'attr', '?'))
        up = {'ZeroDivisionError': {'ArithmeticError'}, 'KeyError': {'LookupError'}, 'IndexError': {'LookupError'},
              'UnboundLocalError': {'NameError'}, 'RecursionError': {'RuntimeError'}}
        return any(n in ('Exception', 'BaseException', e.name) or n in up.get(e.name, ()) for n in names)

    def s_With(self, st, env):
        for i in st.items:
            v = self.eval(i.context_expr, env)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, v, env)
        self.block(st.body, env)

    def s_Assign(self, st, env):
        v = self.eval(st.value, env)
        for t in st.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, st, env):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, env), env)

    def s_AugAssign(self, st, env):
        if isinstance(st.target, ast.Name):
            cur = self.name(st.target.id, env, st)
        elif isinstance(st.target, ast.Attribute):
            base = self.eval(st.target.value, env)
            cur = self.getattr(base, st.target.attr, st)
        elif isinstance(st.target, ast.Subscript):
            base = self.eval(st.target.value, env)
            idx = self.eval(st.target.slice, env)
            cur = self.getitem(base, idx, st)
        else:
            raise Undecided("augmented assignment")
        v = self.eval(st.value, env)
        if isinstance(cur, list) and isinstance(st.op, ast.Add) and isinstance(v, (list, tuple)):
            if self.generic:
                raise Undecided("list extended in generic iteration")
            cur.extend(v)
            new = cur
        else:
            new = self.binop(st.op, cur, v, st)
        if isinstance(st.target, ast.Name):
            self.assign(st.target, new, env)
        elif isinstance(st.target, ast.Attribute):
            self.setattr(base, st.target.attr, new, st)
        else:
            self.setitem(base, idx, new, st)

    def assign_name(self, nid, v, env):
        # closures: assignment binds locally unless declared nonlocal
        if env.locals is not None and nid not in env.locals and env.parent is not None:
            e = env.find(nid)
            if e is not None:
                e.vars[nid] = v
                return
        env.vars[nid] = v

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.assign_name(t.id, v, env)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, (list, tuple)):
                if any(isinstance(q, ast.Starred) for q in t.elts):
                    raise Undecided("starred assignment")
                if len(v) != len(t.elts):
                    raise SubjectRaise('ValueError', 'wrong number of values to unpack', t)
                for q, z in zip(t.elts, v):
                    self.assign(q, z, env)
            elif isinstance(v, (Unknown, Ext)):
                for i, q in enumerate(t.elts):
                    self.assign(q, Ext(f'{v.name}[{i}]') if isinstance(v, Ext) else Unknown(f"{v.reason}[{i}]"), env)
            else:
                raise Undecided("unpacking")
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, env), t.attr, v, t)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value, env), self.eval(t.slice, env), v, t)
        else:
            raise Undecided("assignment target")

    def setattr(self, o, name, v, node):
        if isinstance(o, Obj):
            if self.generic:
                raise Undecided("attribute store in generic iteration")
            if self.specs is not None and self.specs.setattr(self, o, name, v, node):
                return
            o.attrs[name] = v
            o.writes.append((name, v, node))
            return
        if isinstance(o, Maybe):
            return self.setattr(self.force(o), name, v, node)
        if isinstance(o, (Unknown, Ext)):
            return
        if isinstance(o, Class):
            raise Undecided(f"store to class attribute {o.name}.{name}")
        raise Undecided("attribute store")

    def dkey(self, k):
        if isinstance(k, Rat):
            c = k.const()
            return c if c is not None else k
        if isinstance(k, bool):
            return Q(int(k))
        if isinstance(k, tuple):
            return tuple(self.dkey(z) for z in k)
        if isinstance(k, (str, type(None), Class)):
            return k
        if isinstance(k, (Closure, Func, Builtin, Bound)):
            return k
        if isinstance(k, (list, dict)):
            raise SubjectRaise('TypeError', 'unhashable dictionary key')
        if isinstance(k, Unknown) and k.reason == 'inf':
            return ('inf',)
        raise Undecided(f"dictionary key {k!r}")

    def setitem(self, o, k, v, node):
        if self.specs is not None and self.specs.setitem(self, o, k, v, node):
            return
        if isinstance(o, dict):
            if self.generic and (self.appends is None or o is not self.appends.get('dict')):
                if self.appends is not None and id(o) not in self.appends['born']:
                    self.appends['stores'].append((o, k, v))
                    return
            o[self.dkey(k)] = v
            return
        if isinstance(o, list):
            i = const_int(k)
            if i is None or self.generic:
                raise Undecided("list store")
            if -len(o) <= i < len(o):
                o[i] = v
                return
            raise SubjectRaise('IndexError', 'list assignment index out of range', node)
        if isinstance(o, (Unknown, Ext)):
            return
        if isinstance(o, Obj) and o.cls is not None:
            z = o.cls.find('__setitem__')
            if z:
                self.call_method(o, z[1], z[0], [k, v], {}, node)
                return
        if isinstance(o, SymDict):
            raise Undecided("store into summarised dictionary")
        if o is None:
            raise SubjectRaise('TypeError', "'NoneType' object does not support item assignment", node)
        raise Undecided(f"item store on {o!r}")

    def s_If(self, st, env):
        if self.cond(st.test, env):
            self.block(st.body, env)
        else:
            self.block(st.orelse, env)

    def cond(self, test, env):
        """decide a branch condition"""
        if isinstance(test, ast.BoolOp):
            isand = isinstance(test.op, ast.And)
            r = self.all_known(test, env, isand)
            if r is not None:
                return r
            for v in test.values:
                r = self.cond(v, env)
                if isand and not r:
                    return False
                if not isand and r:
                    return True
            return isand
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return not self.cond(test.operand, env)
        v = self.eval(test, env)
        return self.truth(v, ast.unparse(test))

    # -- loops --------------------------------------------------------------
    def iterate(self, v, node=None):
        """concrete python list of items, or RangeV/SymList for symbolic"""
        if isinstance(v, Maybe):
            v = self.force(v, 'iterable')
        if isinstance(v, RangeV):
            lo, hi, step = v.lo, v.hi, v.step
            n = (hi - lo).const()
            if n is not None and abs(n) <= 130 and isinstance(step, int):
                out = []
                k = 0
                import math
                cnt = max(0, math.ceil(n / step))
                for k in range(cnt):
                    out.append(lo + k * step)
                return out
            return v
        if isinstance(v, (list, tuple)):
            return list(v)
        if isinstance(v, dict):
            return [rat(k) if isinstance(k, Q) else k for k in v.keys()]
        if isinstance(v, str):
            return list(v)
        if isinstance(v, (SymList, SymDict)):
            return v
        if isinstance(v, Unknown):
            raise Undecided(f"iteration over uninterpreted value {v.reason}")
        if v is None or isinstance(v, (Rat, bool)):
            raise SubjectRaise('TypeError', f"value is not iterable", node)
        if isinstance(v, Obj) and self.specs is not None:
            z = self.specs.iterate(self, v)
            if z is not None:
                return z
        raise Undecided(f"iteration over {v!r}")

    def newsym(self, *fl):
        self.fresh += 1
        return f"$k{self.fresh}", al.sym(f"$k{self.fresh}", *fl)

    def s_For(self, st, env):
        it = self.iterate(self.eval(st.iter, env), st)
        if isinstance(it, list):
            for z in it:
                self.assign(st.target, z, env)
                try:
                    self.block(st.body, env)
                except _Break:
                    return
                except _Continue:
                    continue
            self.block(st.orelse, env)
            return
        self.generic_for(st, it, env)

    def _range_info(self, it):
        """(count N, item(j) for index j symbol)"""
        if isinstance(it, RangeV):
            step = it.step
            if not isinstance(step, int):
                raise Undecided("symbolic range step")
            if step == 1:
                return it.hi - it.lo, (lambda j: it.lo + j)
            if step == -1:
                return it.lo - it.hi, (lambda j: it.lo - j)
            n = (it.hi - it.lo) / step
            if al.is_int(n):
                return n, (lambda j: it.lo + j * step)
            raise Undecided("range step")
        if isinstance(it, SymList):
            return it.hi - it.lo, (lambda j: self.subst_value(it.body, {it.var: it.lo + j}))
        if isinstance(it, SymDict):
            return it.hi - it.lo, (lambda j: self.subst_value(it.key, {it.var: it.lo + j}))
        raise Undecided("iteration")

    def subst_value(self, v, m):
        if isinstance(v, Rat):
            return al.subst(v, m)
        if isinstance(v, tuple):
            return tuple(self.subst_value(z, m) for z in v)
        if isinstance(v, list):
            return [self.subst_value(z, m) for z in v]
        if isinstance(v, (str, bool, type(None))):
            return v
        if isinstance(v, dict):
            return {k: self.subst_value(z, m) for k, z in v.items()}
        if isinstance(v, SymList):
            return SymList(self.subst_value(v.body, m), v.var, al.subst(v.lo, m), al.subst(v.hi, m))
        if isinstance(v, Maybe):
            raise Undecided("partial value in summary")
        return v

    def _assigned(self, body):
        out = set()
        fn = ast.FunctionDef(name='_', args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]),
                             body=body, decorator_list=[])
        out |= local_names(fn)
        return out

    def generic_for(self, st, it, env):
        n, item = self._range_info(it)
        s = sign(n)
        if s in ('0', '-', '<='):
            self.block(st.orelse, env)
            return
        self.generic_loop(n, lambda j: self.assign(st.target, item(j), env), st.body, env,
                          skip=self._assigned([ast.Assign(targets=[st.target], value=ast.Constant(value=0))]))
        self.block(st.orelse, env)

    def generic_loop(self, n, bind_target, body, env, skip=(), test=None):
        """run the body once for a generic index j in [0,n); update env with the summary"""
        _locals_cache.clear()
        names = [w for w in self._assigned(body) if w not in skip]
        _locals_cache.clear()
        pre = {}
        for w in names:
            e = env.find(w)
            if e is not None and w in e.vars:
                pre[w] = e.vars[w]
        jn, j = self.newsym('int', 'nonneg')
        nfacts = len(al.CTX.facts)
        # j <= n-1
        al.CTX.facts.append(((n - 1 - j).n, False))
        havoc = {}
        lists = {}
        for w, v in pre.items():
            if is_num(v):
                nm, sy = self.newsym()
                # preserve integrality
                if isinstance(v, Rat) and al.is_int(v):
                    al.CTX.flags.setdefault(nm, set()).add('int')
                havoc[w] = (nm, num(v))
                env.find(w).vars[w] = sy
        # first pass to find induction variables, second pass with them substituted
        self.generic += 1
        self.loopsyms.add(jn)
        for nm, _ in havoc.values():
            self.loopsyms.add(nm)
        saved_app = self.appends
        try:
            ind = {}
            for attempt in range(3):
                self.appends = {'list': {}, 'stores': [], 'born': set(), 'attr': []}
                for w, (nm, v0) in havoc.items():
                    env.find(w).vars[w] = al.sym(nm) if w not in ind else v0 + ind[w] * j
                for w in names:
                    if w not in pre:
                        env.vars.pop(w, None)
                if bind_target:
                    bind_target(j)
                try:
                    self.block(body, env)
                except _Continue:
                    raise Undecided("continue in generic iteration")
                except _Break:
                    raise Undecided("break in generic iteration")
                except _Return:
                    raise Undecided("return in generic iteration")
                new = {}
                for w in names:
                    e = env.find(w)
                    new[w] = e.vars.get(w) if e is not None else None
                more = False
                hs = {nm for nm, _ in havoc.values()}
                for w, (nm, v0) in havoc.items():
                    if w in ind or not is_num(new[w]):
                        continue
                    d = num(new[w]) - al.sym(nm)
                    if not (d.syms() & hs) and jn not in d.syms():
                        ind[w] = d
                        more = True
                if not more:
                    break
            app = self.appends
        finally:
            self.generic -= 1
            self.appends = saved_app
            del al.CTX.facts[nfacts:]
        hs = {nm for nm, _ in havoc.values()}
        last = {jn: n - 1}
        solved = {}      # symbol -> value at start of iteration j (Rat in j)
        pend = {}
        for w, (nm, v0) in havoc.items():
            if not is_num(new[w]):
                raise Undecided(f"loop changes the kind of '{w}'")
            if w in ind:
                solved[nm] = v0 + ind[w] * j
                env.find(w).vars[w] = v0 + ind[w] * n
            else:
                pend[w] = (nm, v0, num(new[w]))
        guard = 0
        while pend:
            guard += 1
            if guard > 10:
                raise Undecided("loop-carried dependence not summarised")
            progress = False
            for w, (nm, v0, nv) in list(pend.items()):
                nv = al.subst(nv, solved)
                others = (nv.syms() & hs) - {nm}
                if others:
                    continue
                z = al._linear(nv, nm)
                if z is None:
                    raise Undecided(f"non-affine recurrence for '{w}'")
                a, b = z
                if a.is_zero():
                    # temporary: value of the previous iteration
                    final = al.subst(b, last)
                    solved[nm] = None
                elif a == R1:
                    final = v0 + al.Sum(b, jn, R0, n)
                    solved[nm] = v0 + al.Sum(al.subst(b, {jn: al.sym(jn + "'")}), jn + "'", R0, j) if True else None
                elif b.is_zero():
                    final = v0 * al.Prod(a, jn, R0, n)
                    solved[nm] = None
                else:
                    j2n, j2 = self.newsym('int', 'nonneg')
                    tail = al.Prod(al.subst(a, {jn: j2}), j2n, j + 1, n)
                    final = v0 * al.Prod(a, jn, R0, n) + al.Sum(b * tail, jn, R0, n)
                    solved[nm] = None
                if solved.get(nm) is None:
                    solved.pop(nm, None)
                env.find(w).vars[w] = final
                del pend[w]
                progress = True
            if not progress:
                raise Undecided("mutually dependent loop variables")
        # temporaries and containers
        for w in names:
            if w in havoc:
                continue
            v = new.get(w)
            if v is None:
                env.vars.pop(w, None) if w not in pre else None
                continue
            if isinstance(v, Rat):
                v = al.subst(v, solved)
                if v.syms() & hs:
                    env.vars[w] = Unknown(f"loop temporary {w}")
                else:
                    env.vars[w] = al.subst(v, last)
            elif isinstance(v, (str, bool, list, dict, Obj, Closure)):
                if v is not pre.get(w):
                    env.vars[w] = Unknown(f"loop temporary {w}") if w not in pre else v
        for lid, (lst, items, setter) in app['list'].items():
            if len(items) != 1:
                raise Undecided("several appends per iteration")
            b = items[0]
            b = self.subst_value(b, solved)
            if lst:
                raise Undecided("append to a non-empty list in generic iteration")
            if isinstance(b, Rat) and (b.syms() & hs):
                raise Undecided("appended value depends on loop-carried state")
            sl = SymList(b, jn, R0, n)
            self._replace(env, lst, sl)
        for (d, k, v) in app['stores']:
            k = self.subst_value(k, solved)
            v = self.subst_value(v, solved)
            if d:
                raise Undecided("store into a non-empty dictionary in generic iteration")
            self._replace(env, d, SymDict(k, v, jn, R0, n))

    def _replace(self, env, old, new):
        e = env
        hit = False
        while e is not None:
            for k, v in list(e.vars.items()):
                if v is old:
                    e.vars[k] = new
                    hit = True
            e = e.parent
        if not hit:
            raise Undecided("container updated in loop is not a local variable")

    def s_While(self, st, env):
        # concrete unrolling first
        for _ in range(200):
            try:
                save = len(self.trace.record)
                v = self.eval(st.test, env)
                c = v if isinstance(v, bool) else (v.const() if isinstance(v, Rat) else None)
            except Undecided:
                c = None
            if c is None:
                break
            if not c:
                self.block(st.orelse, env)
                return
            try:
                self.block(st.body, env)
            except _Break:
                return
            except _Continue:
                continue
        self.generic_while(st, env)

    def generic_while(self, st, env):
        t = st.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1):
            raise Undecided("while condition")
        # find an induction variable: name in the test assigned in the body by constant step
        names = self._assigned(st.body)
        cand = [n.id for n in ast.walk(t) if isinstance(n, ast.Name) and n.id in names]
        if len(set(cand)) != 1:
            raise Undecided("while condition")
        w = cand[0]
        step = None
        for q in st.body:
            if isinstance(q, ast.AugAssign) and isinstance(q.target, ast.Name) and q.target.id == w:
                d = self.eval(q.value, env)
                c = const_int(d)
                if c is None or step is not None:
                    raise Undecided("while step")
                step = c if isinstance(q.op, ast.Add) else -c if isinstance(q.op, ast.Sub) else None
            elif isinstance(q, ast.Assign) and any(isinstance(z, ast.Name) and z.id == w for z in q.targets):
                v0 = num(self.name(w, env, st))
                d = (num(self.eval(q.value, env)) - v0).const()
                if d is None or step is not None or d.denominator != 1:
                    raise Undecided("while step")
                step = int(d)
        if step not in (1, -1):
            raise Undecided("while step")
        lhs, rhs = num(self.eval(t.left, env)), num(self.eval(t.comparators[0], env))
        op = type(t.ops[0]).__name__
        # assume lhs holds variable (or rhs)
        wsym = num(self.name(w, env, st))
        inleft = any(isinstance(n, ast.Name) and n.id == w for n in ast.walk(t.left))
        gap = rhs - lhs if inleft else lhs - rhs   # distance while condition is var < bound
        if not inleft:
            op = {'Lt': 'Gt', 'Gt': 'Lt', 'LtE': 'GtE', 'GtE': 'LtE'}.get(op, op)
        if step == 1 and op in ('Lt', 'NotEq'):
            n = gap
        elif step == 1 and op == 'LtE':
            n = gap + 1
        elif step == -1 and op in ('Gt', 'NotEq'):
            n = -gap
        elif step == -1 and op == 'GtE':
            n = -gap + 1
        else:
            raise Undecided("while condition")
        if not al.is_int(n):
            raise Undecided("while bound not an integer")
        if sign(n) in ('0', '-', '<='):
            return
        self.generic_loop(n, None, st.body, env)

    # -- expressions --------------------------------------------------------
    def eval(self, e, env):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Undecided(f"expression {type(e).__name__}")
        return m(e, env)

    def e_Constant(self, e, env):
        v = e.value
        if isinstance(v, bool) or v is None or isinstance(v, str):
            return v
        if isinstance(v, (int, float)):
            return rat(v)
        if v is Ellipsis:
            return None
        return Unknown('constant')

    def e_Name(self, e, env):
        return self.name(e.id, env, e)

    def e_Attribute(self, e, env):
        return self.getattr(self.eval(e.value, env), e.attr, e)

    def e_JoinedStr(self, e, env):
        out = []
        for p in e.values:
            if isinstance(p, ast.Constant):
                out.append(str(p.value))
            else:
                try:
                    v = self.eval(p.value, env)
                except SubjectRaise:
                    raise
                if isinstance(v, str):
                    out.append(v)
                elif p.format_spec is None and p.conversion == -1 and const_int(v) is not None and not isinstance(v, bool):
                    out.append(str(const_int(v)))
                else:
                    return Unknown('formatted string')
        return ''.join(out)

    def e_FormattedValue(self, e, env):
        self.eval(e.value, env)
        return Unknown('formatted')

    def e_Tuple(self, e, env):
        return tuple(self._elts(e.elts, env))

    def e_List(self, e, env):
        l = self._elts(e.elts, env)
        if self.generic and self.appends is not None:
            self.appends['born'].add(id(l))
            self.appends.setdefault('keep', []).append(l)
        return l

    def e_Set(self, e, env):
        return tuple(self._elts(e.elts, env))

    def _elts(self, elts, env):
        out = []
        for q in elts:
            if isinstance(q, ast.Starred):
                z = self.iterate(self.eval(q.value, env))
                if not isinstance(z, list):
                    raise Undecided("starred symbolic sequence")
                out.extend(z)
            else:
                out.append(self.eval(q, env))
        return out

    def e_Dict(self, e, env):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                z = self.eval(v, env)
                if not isinstance(z, dict):
                    raise Undecided("dict unpacking")
                d.update(z)
            else:
                d[self.dkey(self.eval(k, env))] = self.eval(v, env)
        if self.generic and self.appends is not None:
            self.appends['born'].add(id(d))
            self.appends.setdefault('keep', []).append(d)
        return d

    def e_Lambda(self, e, env):
        c = Closure(e, env, None, None, '<lambda>')
        c.func = env.func
        c.defaults = {}
        pos, defaults, *_ = params(e)
        for k, d in defaults.items():
            c.defaults[k] = self.eval(d, env)
        return c

    def e_IfExp(self, e, env):
        return self.eval(e.body if self.cond(e.test, env) else e.orelse, env)

    def e_NamedExpr(self, e, env):
        v = self.eval(e.value, env)
        self.assign(e.target, v, env)
        return v

    def all_known(self, e, env, isand):
        """`a is not None and b is not None ...` (or its negated disjunction) over partial values decided as one question"""
        ms = []
        want = ast.IsNot if isand else ast.Is
        for q in e.values:
            if not (isinstance(q, ast.Compare) and len(q.ops) == 1 and isinstance(q.ops[0], want) and isinstance(q.left, ast.Name)
                    and isinstance(q.comparators[0], ast.Constant) and q.comparators[0].value is None):
                return None
            ms.append(self.eval(q.left, env))
        if any(m is None for m in ms):
            return not isand
        ms = [m for m in ms if isinstance(m, Maybe)]
        if len(ms) < 2:
            return None
        memo = self.trace.memo
        known = [memo.get(('maybe', m.key)) for m in ms]
        if False in known:
            return not isand
        open_ = [m for m, z in zip(ms, known) if z is None]
        if len(open_) < 2:
            return None
        v = self.fork(('maybe', 'all') + tuple(sorted({repr(m.key) for m in open_})), ' and '.join(str(m.key) for m in open_) + ' known')
        if v:
            for m in open_:
                memo[('maybe', m.key)] = True
        return v if isand else not v

    def e_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)
        if len(e.values) > 1:
            r = self.all_known(e, env, isand)
            if r is not None:
                return r
        v = None
        for i, q in enumerate(e.values):
            v = self.eval(q, env)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v, ast.unparse(q))
            if isinstance(v, Maybe) and t:
                v = v.value
            if isand and not t:
                return v
            if not isand and t:
                return v
        return v

    def e_UnaryOp(self, e, env):
        if isinstance(e.op, ast.Not):
            return not self.cond(e.operand, env)
        v = self.force(self.eval(e.operand, env))
        if isinstance(v, Unknown):
            return v
        if isinstance(e.op, ast.USub):
            return -num(v)
        if isinstance(e.op, ast.UAdd):
            return num(v)
        raise Undecided("unary operator")

    def e_BinOp(self, e, env):
        a = self.eval(e.left, env)
        b = self.eval(e.right, env)
        return self.binop(e.op, a, b, e)

    def binop(self, op, a, b, node):
        a, b = self.force(a), self.force(b)
        if isinstance(op, ast.Mod) and isinstance(a, str):
            return Unknown('formatted string')
        if isinstance(a, str) or isinstance(b, str):
            if isinstance(op, ast.Add):
                if isinstance(a, str) and isinstance(b, str):
                    return a + b
                if isinstance(a, Unknown) or isinstance(b, Unknown):
                    return Unknown('string')
                raise SubjectRaise('TypeError', 'string concatenated with a non-string', node)
            if isinstance(op, ast.Mult):
                z, c = (a, b) if isinstance(a, str) else (b, a)
                c = int(c) if isinstance(c, bool) else const_int(c) if isinstance(c, Rat) else None
                return z * c if c is not None and c < 1000 else Unknown('string')
            raise SubjectRaise('TypeError', 'unsupported operand type: str', node)
        if isinstance(a, (list, tuple)) and isinstance(op, ast.Add):
            if isinstance(b, type(a)):
                return a + b
            if isinstance(b, (list, tuple)):
                raise SubjectRaise('TypeError', 'list and tuple concatenated', node)
            return Unknown('sequence')
        if isinstance(a, (list, tuple)) and isinstance(op, ast.Mult):
            n = const_int(b)
            if n is not None and n < 500:
                return a * n
            if len(a) == 1 and isinstance(b, Rat):
                nm, _ = self.newsym('int', 'nonneg')
                return SymList(a[0], nm, R0, b)
            return Unknown('sequence')
        if isinstance(b, list) and isinstance(op, ast.Mult) and is_num(a):
            return self.binop(op, b, a, node)
        if isinstance(a, SymList) or isinstance(b, SymList):
            return self.veclist(op, a, b, node)
        if isinstance(a, Unknown) or isinstance(b, Unknown) or isinstance(a, Ext) or isinstance(b, Ext):
            u = a if isinstance(a, (Unknown, Ext)) else b
            return Unknown(getattr(u, 'reason', None) or u.name)
        if isinstance(a, dict) and isinstance(op, ast.BitOr) and isinstance(b, dict):
            return {**a, **b}
        if not is_num(a) or not is_num(b):
            if a is None or b is None:
                raise SubjectRaise('TypeError', 'None used as a number', node)
            if isinstance(a, (Closure, Bound, Func, Builtin, dict)) or isinstance(b, (Closure, Bound, Func, Builtin, dict)):
                raise SubjectRaise('TypeError', 'unsupported operand types', node)
            if (is_num(a) or plain_object(a)) and (is_num(b) or plain_object(b)):
                raise SubjectRaise('TypeError', 'unsupported operand types', node)
            raise Undecided("operator on non-numbers")
        a, b = num(a), num(b)
        try:
            t = type(op)
            if t is ast.Add:
                return a + b
            if t is ast.Sub:
                return a - b
            if t is ast.Mult:
                return a * b
            if t is ast.Div:
                return self.div(a, b, node)
            if t is ast.Pow:
                return al.power(a, b)
            if t is ast.FloorDiv:
                return al.floor(self.div(a, b, node))
            if t is ast.Mod:
                return a - b * al.floor(self.div(a, b, node))
            if t is ast.BitAnd or t is ast.BitOr:
                x, y = const_int(a), const_int(b)
                if x is not None and y is not None:
                    return rat(x & y if t is ast.BitAnd else x | y)
        except ZeroDivisionError:
            raise SubjectRaise('ZeroDivisionError', 'division by zero', node)
        raise Undecided("operator")

    def div(self, a, b, node):
        if b.is_zero():
            raise SubjectRaise('ZeroDivisionError', 'division by zero', node)
        return a / b

    def veclist(self, op, a, b, node):
        raise Undecided("vector arithmetic")

    def e_Compare(self, e, env):
        left = self.eval(e.left, env)
        res = True
        for op, c in zip(e.ops, e.comparators):
            right = self.eval(c, env)
            res = self.compare(op, left, right, e)
            if res is False:
                return False
            if isinstance(res, Unknown):
                return res
            left = right
        return res

    def compare(self, op, a, b, node):
        text = ast.unparse(node)
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.is_same(a, b, text)
            if isinstance(r, Unknown):
                return r
            return r if isinstance(op, ast.Is) else not r
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a, text, node)
            if isinstance(r, Unknown):
                return r
            return r if isinstance(op, ast.In) else not r
        if isinstance(op, (ast.Eq, ast.NotEq)):
            r = self.equal(a, b, text)
            if isinstance(r, Unknown):
                return r
            return r if isinstance(op, ast.Eq) else not r
        a, b = self.force(a, 'comparison operand'), self.force(b, 'comparison operand')
        if isinstance(a, Unknown) or isinstance(b, Unknown):
            return Unknown(text)
        if a is None or b is None:
            raise SubjectRaise('TypeError', "'<' not supported with None", node)
        if isinstance(a, str) and isinstance(b, str):
            return {ast.Lt: a < b, ast.Gt: a > b, ast.LtE: a <= b, ast.GtE: a >= b}[type(op)]
        if isinstance(a, str) != isinstance(b, str):
            raise SubjectRaise('TypeError', "comparison of str with number", node)
        if not is_num(a) or not is_num(b):
            bad = (Closure, Bound, Func, Builtin)
            if all(is_num(z) or plain_object(z) or isinstance(z, bad) for z in (a, b)):
                raise SubjectRaise('TypeError', 'comparison of an object with a number', node)
            raise Undecided(f"comparison {text}")
        a, b = num(a), num(b)
        if isinstance(op, ast.Lt):
            return self.decide_cmp('<', a, b, text)
        if isinstance(op, ast.Gt):
            return self.decide_cmp('<', b, a, text)
        if isinstance(op, ast.LtE):
            return self.decide_cmp('<=', a, b, text)
        if isinstance(op, ast.GtE):
            return self.decide_cmp('<=', b, a, text)
        raise Undecided("comparison")

    def is_same(self, a, b, text):
        if isinstance(a, Maybe) or isinstance(b, Maybe):
            m, o = (a, b) if isinstance(a, Maybe) else (b, a)
            if o is None:
                return not self.present(m)
            raise Undecided("identity of partial value")
        if a is None or b is None:
            o = b if a is None else a
            if isinstance(o, Unknown):
                return Unknown(text)
            return o is None
        if isinstance(a, bool) or isinstance(b, bool):
            if isinstance(a, bool) and isinstance(b, bool):
                return a == b
            o = b if isinstance(a, bool) else a
            if isinstance(o, Unknown):
                return Unknown(text)
            return False
        if isinstance(a, Unknown) or isinstance(b, Unknown):
            return Unknown(text)
        if isinstance(a, Rat) and isinstance(b, Rat):
            raise Undecided("identity of numbers")
        return a is b

    def equal(self, a, b, text):
        if isinstance(a, Maybe) or isinstance(b, Maybe):
            m, o = (a, b) if isinstance(a, Maybe) else (b, a)
            if o is None:
                return not self.present(m)
            if not self.present(m):
                return False
            return self.equal(m.value, o, text)
        if isinstance(a, Unknown) or isinstance(b, Unknown):
            return Unknown(text)
        if is_num(a) and is_num(b):
            return self.decide_cmp('==', num(a), num(b), text)
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if type(a) is not type(b) or len(a) != len(b):
                return False
            for x, y in zip(a, b):
                r = self.equal(x, y, text)
                if r is not True:
                    return r
            return True
        if isinstance(a, dict) and isinstance(b, dict):
            if set(a) != set(b):
                return False
            for k in a:
                r = self.equal(a[k], b[k], text)
                if r is not True:
                    return r
            return True
        if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
            return a == b if type(a) is type(b) else False
        return a is b

    def contains(self, c, k, text, node):
        if self.specs is not None:
            r = self.specs.contains(self, c, k)
            if r is not NotImplemented:
                return r
        if isinstance(k, Maybe):
            k = self.force(k)
        if isinstance(c, Unknown) or isinstance(k, Unknown):
            return Unknown(text)
        if isinstance(c, str):
            if isinstance(k, str):
                return k in c
            raise SubjectRaise('TypeError', "'in <string>' requires string", node)
        if isinstance(c, (list, tuple)):
            for z in c:
                if isinstance(z, Unknown):
                    return Unknown(text)
                if self.equal(k, z, text) is True:
                    return True
            return False
        if isinstance(c, dict):
            kk = self.dkey(k)
            if kk in c:
                return True
            if isinstance(kk, Rat):
                for z in c:
                    if isinstance(z, (Q, Rat)) and self.equal(kk, rat(z), text) is True:
                        return True
            else:
                for z in c:
                    if isinstance(z, Rat) and isinstance(kk, Q) and self.equal(rat(kk), z, text) is True:
                        return True
            return False
        if isinstance(c, RangeV) and is_num(k):
            k = num(k)
            return self.decide_cmp('<=', c.lo, k, text) and self.decide_cmp('<', k, c.hi, text)
        if isinstance(c, (Ext,)):
            return Unknown(text)
        if c is None or isinstance(c, (Rat, bool)):
            raise SubjectRaise('TypeError', 'argument is not iterable', node)
        raise Undecided(f"membership {text}")

    def e_Subscript(self, e, env):
        o = self.eval(e.value, env)
        if isinstance(e.slice, ast.Slice):
            lo = self.eval(e.slice.lower, env) if e.slice.lower else None
            hi = self.eval(e.slice.upper, env) if e.slice.upper else None
            if e.slice.step is not None:
                st = const_int(self.eval(e.slice.step, env))
                if st is None:
                    raise Undecided("slice step")
            else:
                st = None
            if isinstance(o, (list, tuple, str)):
                a = const_int(lo) if lo is not None else None
                b = const_int(hi) if hi is not None else None
                if (lo is not None and a is None) or (hi is not None and b is None):
                    raise Undecided("slice bounds")
                return o[slice(a, b, st)]
            if isinstance(o, (Unknown, Ext)):
                return o
            if isinstance(o, Obj) and hasattr(o, 'table_slice'):
                return o.table_slice(self, lo, hi)
            raise Undecided("slice")
        k = self.eval(e.slice, env)
        return self.getitem(o, k, e)

    def getitem(self, o, k, node):
        if self.specs is not None:
            r = self.specs.getitem(self, o, k, node)
            if r is not NotImplemented:
                return r
        if isinstance(o, Maybe):
            o = self.force(o, 'subscripted value')
        if isinstance(o, dict):
            kk = self.dkey(self.force(k, 'key'))
            if kk in o:
                return o[kk]
            if isinstance(kk, Rat) or any(isinstance(z, Rat) for z in o):
                for z in o:
                    if isinstance(z, (Q, Rat)) and isinstance(kk, (Q, Rat)) and self.equal(rat(kk), rat(z), 'key') is True:
                        return o[z]
            raise SubjectRaise('KeyError', str(kk), node)
        if isinstance(o, (list, tuple, str)):
            i = const_int(k)
            if i is None:
                if isinstance(k, Unknown):
                    return Unknown('indexed item')
                if isinstance(k, str):
                    raise SubjectRaise('TypeError', 'list indices must be integers', node)
                raise Undecided("symbolic index")
            if -len(o) <= i < len(o):
                return o[i]
            raise SubjectRaise('IndexError', 'index out of range', node)
        if isinstance(o, SymList):
            i = num(k)
            if sign(i) in ('-',):
                i = i + (o.hi - o.lo)
            return self.subst_value(o.body, {o.var: o.lo + i})
        if isinstance(o, SymDict):
            z = al._linear(o.key, o.var)
            if z is not None and z[0].const():
                j = (num(k) - z[1]) / z[0]
                return self.subst_value(o.body, {o.var: j})
            raise Undecided("summarised dictionary lookup")
        if isinstance(o, (Unknown,)):
            return Unknown(f"{o.reason}[]")
        if isinstance(o, Ext):
            return Ext(o.name + '[]')
        if isinstance(o, Obj) and o.cls is not None:
            z = o.cls.find('__getitem__')
            if z:
                return self.call_method(o, z[1], z[0], [k], {}, node)
        if o is None or is_num(o):
            raise SubjectRaise('TypeError', f"value is not subscriptable", node)
        raise Undecided(f"subscript of {o!r}")

    def comp(self, gens, env, leaf):
        """evaluate a comprehension; leaf(env) -> value; returns list or SymList"""
        g = gens[0]
        it = self.iterate(self.eval(g.iter, env), g.iter)
        e2 = Env(env, None, env.func)
        names = self._assigned([ast.Assign(targets=[g.target], value=ast.Constant(value=0), lineno=0)])
        _locals_cache.clear()
        e2.locals = names
        if isinstance(it, list):
            out = []
            for z in it:
                e3 = Env(env, names, env.func)
                self.assign(g.target, z, e3)
                if all(self.cond(c, e3) for c in g.ifs):
                    if len(gens) > 1:
                        r = self.comp(gens[1:], e3, leaf)
                        if not isinstance(r, list):
                            raise Undecided("nested symbolic comprehension")
                        out.extend(r)
                    else:
                        out.append(leaf(e3))
            return out
        n, item = self._range_info(it)
        if sign(n) in ('0', '-', '<='):
            return []
        jn, j = self.newsym('int', 'nonneg')
        nf = len(al.CTX.facts)
        al.CTX.facts.append(((n - 1 - j).n, False))
        self.generic += 1
        self.loopsyms.add(jn)
        try:
            self.assign(g.target, item(j), e2)
            for c in g.ifs:
                if not self.cond(c, e2):
                    return []
            if len(gens) > 1:
                raise Undecided("nested symbolic comprehension")
            body = leaf(e2)
        finally:
            self.generic -= 1
            del al.CTX.facts[nf:]
        return SymList(body, jn, R0, n)

    def e_ListComp(self, e, env):
        return self.comp(e.generators, env, lambda v: self.eval(e.elt, v))

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e, env):
        r = self.comp(e.generators, env, lambda v: self.eval(e.elt, v))
        return tuple(r) if isinstance(r, list) else r

    def e_DictComp(self, e, env):
        r = self.comp(e.generators, env, lambda v: (self.eval(e.key, v), self.eval(e.value, v)))
        if isinstance(r, list):
            return {self.dkey(k): v for k, v in r}
        return SymDict(r.body[0], r.body[1], r.var, r.lo, r.hi)

    def e_Call(self, e, env):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and env.find('super') is None:
            if e.args:
                c = self.eval(e.args[0], env)
                o = self.eval(e.args[1], env) if len(e.args) > 1 else None
                return SuperV(o, c)
            f = env.func
            en = env
            while en.parent is not None:
                en = en.parent
            pos = params(f.node)[0]
            return SuperV(en.vars.get(pos[0]) if pos else None, f.cls)
        f = self.eval(e.func, env)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                z = self.eval(a.value, env)
                z = self.iterate(z)
                if not isinstance(z, list):
                    raise Undecided("starred symbolic arguments")
                args.extend(z)
            else:
                args.append(self.eval(a, env))
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                z = self.eval(k.value, env)
                if not isinstance(z, dict):
                    raise Undecided("keyword unpacking")
                for q, v in z.items():
                    if q in kwargs:
                        raise SubjectRaise('TypeError', f"got multiple values for keyword argument '{q}'", e)
                    kwargs[q] = v
            else:
                if k.arg in kwargs:
                    raise SubjectRaise('TypeError', f"got multiple values for keyword argument '{k.arg}'", e)
                kwargs[k.arg] = self.eval(k.value, env)
        return self.call(f, args, kwargs, e)

    def e_Starred(self, e, env):
        raise Undecided("starred")

    def e_Slice(self, e, env):
        return Unknown('slice')


class _AssumeNeeded(Exception):
    pass


class _Lazy:
    def __init__(self, f):
        self.f = f

    def get(self):
        return self.f()


class _ClsCtx:
    """pseudo function context for class-level expressions"""
    def __init__(self, cls):
        self.module = cls.module
        self.cls = cls
        self.node = cls.node
        self.qual = cls.name


class _ModCtx:
    def __init__(self, module):
        self.module = module
        self.cls = None
        self.node = module.tree
        self.qual = module.name


# --------------------------------------------------------- exploration -----
class Outcome:
    def __init__(self, kind, value, trace, err=None, facts=()):
        self.kind = kind       # 'ok' | 'raise' | 'undecided'
        self.value = value
        self.trace = trace
        self.err = err
        self.facts = facts


def explore(run, cap=96):
    """run(script) -> (interp, thunk); enumerate decision vectors depth-first"""
    outs = []
    script = []
    while True:
        it, thunk = run()
        it.trace = Trace(script)
        try:
            v = thunk()
            o = Outcome('ok', v, it.trace)
        except SubjectRaise as e:
            o = Outcome('raise', None, it.trace, e)
        except Undecided as e:
            o = Outcome('undecided', None, it.trace, str(e))
        except ZeroDivisionError as e:
            o = Outcome('undecided', None, it.trace, f"domain: {e}")
        except al.AlgebraError as e:
            o = Outcome('undecided', None, it.trace, f"domain: {e}")
        except RecursionError:
            o = Outcome('undecided', None, it.trace, "domain: expression too deep")
        o.interp = it
        yield o
        outs.append(1)
        s = list(it.trace.script[:it.trace.pos])
        while s and s[-1] is False:
            s.pop()
        if not s:
            return
        s[-1] = False
        script = s
        if len(outs) >= cap:
            yield Outcome('undecided', None, it.trace, "too many traces")
            return
