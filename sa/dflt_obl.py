"""An argument left out stands for the same value on every model (C26).

Every default of a parameter with an agreed meaning, in every public method of every public class, is evaluated by the
abstract interpreter and compared with the value the convention gives it; a redefinition in a subclass is held to it too.
"""
import ast
from . import algebra as al
from .algebra import Rat, rat
from . import interp as ip
from .interp import Interp, SubjectRaise, Undecided, Unknown
from .obl import Case, Finding, Result, compare, run_case, short
from . import law_obl, life_obl
from .specs import Specs, stand_in

# parameter -> value it stands for when left out
NEUTRAL = {
    's': 0, 'u': 0, 'r': 0, 'b': 1, 'moment': 1, 'discrete': True, 'variance': False,
    's_m': 0, 't_m': 1, 'u_m': 0,
    'per_premium': 0, 'per_policy': 0, 'reserve_benefit': False, 'return_premium': False, 'annuity': False,
    'initial_cost': 0, 'initial_policy': 0, 'initial_premium': 0, 'renewal_policy': 0, 'renewal_premium': 0,
    'settlement_policy': 0, 'due': True, 'N': 1, 'first': False, 'udd': True, 'extra': 0, 'mad': False, 'IA': 0, 'E': 0,
}
# (method, parameter) -> value where the method decides
BYNAME = {}


def by(names, p, v):
    for n in names.split():
        BYNAME[n, p] = v


by('p_x q_x d_x E_x p_r q_r E_r term_insurance endowment_insurance Y_x Z_m set_p set_q set_E', 't', 1)
by('mu_x f_x f_r Z_x net_policy_value net_policy_variance gross_policy_value gross_policy_variance t_V t_V_backward t_V_forward FPT_policy_value renewals decreasing_annuity', 't', 0)
by('e_x e_r A_x a_x whole_life_annuity temporary_annuity deferred_annuity certain_life_annuity immediate_annuity increasing_annuity '
   'deferred_insurance increasing_insurance net_premium set_e set_A set_a set_IA', 't', 'WHOLE')
by('net_policy_value net_policy_variance gross_policy_value gross_policy_variance FPT_premium FPT_policy_value', 'n', 'WHOLE')
by('E_x set_E', 'endowment', 1)
by('A_x net_premium gross_premium net_policy_value net_policy_variance FPT_policy_value set_reserves set_A __init__', 'endowment', 0)
by('bernoulli', 'a', 1)
by('bernoulli', 'b', 0)
by('net_premium', 'n', 0)
by('net_variance_loss', 'A', 0)
by('gross_variance_loss', 'A2', 0)
by('r_V_backward r_V_forward gross_premium', 'benefit', 1)
by('t_V t_V_backward t_V_forward r_V_forward', 'premium', 0)
by('max_term', 'u', 0)
# where a class keeps its own convention
OWN = {
    ('Mthly', 'A_x', 't'): 1,                    # m-thly payments: one year unless told otherwise
    ('Contract', '__init__', 'benefit'): 1, ('Contract', '__init__', 'premium'): 1, ('Contract', '__init__', 'T'): 'WHOLE',
    ('Contract', '__init__', 'discrete'): True, ('Contract', '__init__', 'endowment'): 0,
    ('Woolhouse', 'term_insurance', 't'): 'WHOLE', ('Woolhouse', 'endowment_insurance', 't'): 'WHOLE',
    ('Woolhouse', '__init__', 'three_term'): False, ('Woolhouse', '__init__', 'approximate_mu'): True,
    ('Insurance', 'decreasing_insurance', 't'): 1, ('Recursion', 'decreasing_insurance', 't'): 'WHOLE', ('Recursion', 'set_DA', 't'): 'WHOLE',
    ('Lifetime', 'e_x', 'curtate'): True, ('LifeTable', 'e_x', 'curtate'): True, ('SelectLife', 'e_x', 'curtate'): True,
    ('Beta', 'e_x', 'curtate'): False, ('Uniform', 'e_x', 'curtate'): False, ('ConstantForce', 'e_x', 'curtate'): False,
    ('Recursion', 'e_x', 'curtate'): False, ('Recursion', 'set_e', 'curtate'): False,
    ('Reserves', 'set_reserves', 'T'): 0,
    ('Interest', 'annuity', 't'): 'WHOLE', ('Interest', 'annuity', 'm'): 1, ('Interest', 'mthly', 'm'): 0, ('Interest', '__init__', 'm'): 0,
}
PLOTS = ('plot', 'curve', 'frame')


def expected(cls, meth, p):
    for c in cls.mro():
        if (c.name, meth, p) in OWN:
            return OWN[c.name, meth, p]
    if (meth, p) in BYNAME:
        return BYNAME[meth, p]
    if p == 't' and meth == 'A_x':
        return 'WHOLE'
    return NEUTRAL.get(p)


def sentinel(func, p):
    """does the body look at whether the argument was given?"""
    for n in ast.walk(func.node):
        if isinstance(n, ast.Compare):
            if any(isinstance(z, ast.Name) and z.id == p for z in [n.left] + n.comparators):
                return True
        if isinstance(n, (ast.BoolOp,)):
            if any(isinstance(z, ast.Name) and z.id == p for z in n.values):
                return True
        if isinstance(n, (ast.IfExp, ast.If)) and any(isinstance(z, ast.Name) and z.id == p for z in ast.walk(n.test)):
            return True
    return False


LEFT_OUT = 'left out is None'
LAWARGS = {'Beta': lambda o: {'omega': o, 'alpha': law_obl.ALPHA()}, 'Uniform': lambda o: {'omega': o},
           'ConstantForce': lambda o: {'mu': law_obl.MU()}}


def relate(model, cls, f, p, want, res):
    """True: with the argument left out and with the value it stands for given the method answers the same; (how,): it
    does not; else the reason it is not known.  Every class that inherits the method is looked at, payments at the end
    of the year and continuous."""
    if f.static or cls.find('max_term') is None or f.name == '__init__':
        return "not compared"
    own = [a.arg for a in f.node.args.posonlyargs + f.node.args.args][1:]
    n = len(f.node.args.defaults)
    need = own[:len(own) - n] if n else own
    out = True
    for disc in ((True, False) if 'discrete' in own and p != 'discrete' else (None,)):
        def build(it, c):
            w = life_obl.World(it, c, tmode='in')
            law = next((k.name for k in c.mro() if k.name in LAWARGS), None)
            if law:
                for nm, v in law_obl.built(it, c, LAWARGS[c.name if c.name in LAWARGS else law](w.omega)).items():
                    w.F.extra[nm] = v
            kw = {}
            for q in need:
                kw[q] = w.x if q == 'x' else al.sym('arg_' + q, 'pos') if q not in ('prob', 'A', 'A1', 'A2') else al.sym('arg_' + q, 'frac')
            if disc is not None:
                kw['discrete'] = disc
            w_ = {'WHOLE': life_obl.WHOLE, True: True, False: False}.get(want, None) if not isinstance(want, int) or isinstance(want, bool) else rat(want)
            return w.obj, [], kw, lambda it, r, obj: same(it, r, obj, kw, w_)

        def same(it, r, obj, kw, v):
            q = it.call_func(f, obj, [], {**kw, p: v})
            c = compare(r, q)
            if c == 'eq':
                return True, ''
            if c == 'ne':
                return False, f"answers {short(r, 120)}; with it given {short(q, 120)}"
            return None, c
        r = Result(res.prop)
        run_case(model, res.prop, Case(f.qual, p, build, cls=cls, name=f.name), r)
        res.traces += r.traces
        if r.findings:
            return (r.findings[0].detail,)
        if r.undecided or r.missing or not r.discharged:
            out = f"not interpreted: {(r.undecided or [('', '', 'no trace')])[0][2]}"
    return out


class Defaults:
    name, scenario = 'defaults', 'all public methods'

    def __call__(self, model, res):
        for cls in model.classes.values():
            if cls.name.startswith('_') or cls.name == 'PPrint':
                continue
            for meth, f in cls.methods.items():
                if meth != '__init__' and (meth.startswith('_') or any(z in meth for z in PLOTS)):
                    continue
                a = f.node.args
                pos = a.posonlyargs + a.args
                ds = dict(zip([p.arg for p in pos][len(pos) - len(a.defaults):], a.defaults))
                ds.update({k.arg: d for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
                for p, d in ds.items():
                    want = expected(cls, meth, p)
                    if want is None:
                        continue
                    res.obligations += 1
                    per = res.per.setdefault(f.qual, [0, 0])
                    per[0] += 1
                    res.funcs.add(f.qual)
                    why = self.check(model, cls, f, p, d, want)
                    if why is True:
                        res.discharged += 1
                        per[1] += 1
                    elif (isinstance(why, tuple) and sentinel(f, p)) or why == LEFT_OUT:
                        # a stand-in the body replaces: the answer has to be that of the value it stands for
                        alone = stand_in(f, p) if why == LEFT_OUT else None
                        if alone is not None and self.check(model, cls, f, p, alone, want) is True:
                            res.discharged += 1
                            per[1] += 1
                            continue
                        say = why[0] if isinstance(why, tuple) else 'None'
                        got = relate(model, cls, f, p, want, res)
                        if got is True:
                            res.discharged += 1
                            per[1] += 1
                        elif isinstance(got, tuple):
                            res.findings.append(Finding(res.prop, 'argument left out', f.qual, p, 'default',
                                                        f"'{p}' left out stands for {say}, must stand for {want}: {got[0]}", f.where, []))
                        else:
                            res.undecided.append((f.qual, p, f"default {say} is looked at in the body; {got}"))
                    elif isinstance(why, tuple):
                        res.findings.append(Finding(res.prop, 'argument left out', f.qual, p, 'default',
                                                        f"'{p}' left out stands for {why[0]}, must stand for {want}", f.where, []))
                    else:
                        res.undecided.append((f.qual, p, why))

    def check(self, model, cls, f, p, d, want):
        al.reset()
        it = Interp(model, Specs(model))
        try:
            v = it.eval_default(d, f)
            w = rat(int(want)) if want != 'WHOLE' else it.getattr(ip.Obj(cls), 'WHOLE') if cls.find('WHOLE') else rat(-1)
        except (Undecided, SubjectRaise) as e:
            return f"default not interpreted: {e}"
        if isinstance(v, bool):
            v = rat(int(v))
        if v is None:
            return LEFT_OUT
        if isinstance(v, Unknown) or not isinstance(v, Rat) or v.const() is None:
            return "default is not a constant"
        if want == 'WHOLE':
            return True if v.const() < 0 else (str(v),)
        return True if al.req(v, w) else (str(v),)


def cases(model, tier='quick'):
    return [Defaults()]
