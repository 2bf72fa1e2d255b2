"""Property registry: which obligations decide which property."""
from . import life_obl as lo
from . import int_obl
from . import surv_obl as so
from . import pv_obl as pv
from . import table_obl as tb

ASSUME = [
    'real arithmetic: floating-point rounding is not modelled',
    'numerical primitives (integral, derivative, root) denote their mathematical objects',
    'valid inputs: ages and durations are non-negative integers within the limiting age unless the scenario says otherwise',
]
EXPL = ('abstract interpretation of the current source over a canonical algebra of commutation functions: every return '
        'value on every partitioned trace is compared with the contract in the same normal form')

PROPS = {}


def prop(pid, cases, rule, explain=EXPL, assume=(), **more):
    PROPS[pid] = {'cases': cases, 'rule': rule, 'explain': explain, 'assume': ASSUME + list(assume), **more}


def _ins(model, tier):
    return [c for c in lo.insurance_cases('Insurance') if c.rule != 'variance']


def _ann(model, tier):
    return [c for c in lo.annuity_cases('Annuity') if c.rule != 'variance']


def _var(model, tier):
    return [c for c in lo.insurance_cases('Insurance') + lo.annuity_cases('Annuity') if c.rule == 'variance']


prop('C04', _ins, 'value of each insurance method equals the expected present value sum/integral of its contract')
prop('C05', _ann, 'value of each annuity method equals the expected present value sum/integral of its contract')
prop('C06', _var, 'variance branch equals second moment minus squared first moment, scaled by the squared benefit')
prop('C01', lambda m, t: int_obl.interest_cases() + int_obl.model_cases(), 'every view of the rate, m-thly conversion, annuity-certain and doubled force equals the canonical force-of-interest formula')
prop('C02', lambda m, t: so.set_survival_cases() + so.survival_cases() + so.lifetime_cases(), 'every form of the survival model and every life-table function is the same function of one survival curve')
prop('C03', lambda m, t: so.fractional_cases(), 'fractional-age functions equal the functions of the interpolated survival curve')
prop('C21', lambda m, t: so.life_cases(), 'mean, variance, mixture and portfolio formulas equal the moments of the named distributions')
prop('C07', lambda m, t: pv.rv_cases(), 'present value random variables, their inverses and percentiles agree with one another and with the loss at issue')
prop('C08', lambda m, t: pv.premium_cases(), 'premium equals EPV of benefits and expenses over EPV of premium income')
prop('C09', lambda m, t: pv.policy_cases() + pv.contract_cases(), 'policy value equals EPV of future outgo less EPV of future income; contract terms are stored and derived exactly')
prop('C10', lambda m, t: pv.reserve_cases(), 'reserve recursions satisfy the one-period balance equation')
prop('C11', lambda m, t: tb.table_cases(t), 'every filled cell and every lookup is the same function of one life table')
prop('C12', lambda m, t: tb.select_cases(t), 'every filled cell and every lookup is the same function of one select and ultimate table')
from . import law_obl as lw
prop('C13', lambda m, t: lw.law_cases(t), 'survival forms and closed-form shortcuts of each mortality law equal the sums and integrals of its survival curve')
prop('C14', lambda m, t: lw.force_cases(t), 'closed-form shortcuts under constant force equal the sums and integrals of exp(-mu t)')
from . import mthly_obl as mo
prop('C19', lambda m, t: mo.mthly_cases(t), 'exact m-thly, UDD and Woolhouse values equal the m-thly sums (under uniform deaths, or with the correction terms) of the underlying annual model')
prop('C20', lambda m, t: mo.risk_cases(t), 'mortality with an extra risk equals the survival of the base model transformed by that risk')
from . import rec_obl as ro
prop('C15', lambda m, t: ro.soundness_cases(t), 'every rule of the recursion, given correct answers of the helpers it asks, returns the contract value or nothing')
prop('C16', lambda m, t: ro.store_cases(t), 'a fact stored under one set of arguments is what every lookup that denotes the same contract value returns, and no lookup returns anything else')
prop('C29', lambda m, t: ro.step_cases(t), 'with only the facts of one identity stored, the public query returns the contract value')
from . import term_obl as te


def _edges(model, tier):
    out = []
    for pid in ('C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C14', 'C15', 'C19', 'C20'):
        cs = list(PROPS[pid]['cases'](model, 'quick'))
        n = max(1, len(cs) // 64 + 1)
        out += [te.EdgeCases(cs[i::64]) for i in range(64) if cs[i::64]]
    return out


prop('C17', _edges, 'in the call graph over methods and abstract arguments, every cycle has an argument that is bounded below and strictly decreases along it',
     technique='call-graph termination analysis with abstract arguments',
     explain='call edges with abstract arguments are collected from the abstract interpretation of every method, composed for every concrete class with its overrides, and searched for cycles that no argument bounds', post=te.analyse)

from . import trace_obl as tr
prop('C18', tr.cases, 'nothing the trace determines flows into an answer, stored fact, table or error; every recorded step is complete; the recorder and its formatters never fail',
     technique='information-flow (taint) analysis and abstract interpretation of the source',
     explain='information flow over the syntax of every class from the trace objects, verbose switch and display style; abstract interpretation of every traced step, formatter and recorder method')
from . import effect_obl as ef
prop('C22', ef.cases, 'no store reachable from a query touches an object that existed before the call (other than the trace); no function changes what its caller gave it; no two objects share mutable state',
     technique='interprocedural effect and alias analysis of the source',
     explain='interprocedural effect and alias analysis: every store and in-place operation is traced to the receiver, parameter, module or class object it changes, through locals, containers and calls')
from . import name_obl as nm
prop('C23', nm.cases, 'every name, attribute and call resolves in every class that may execute it, and every local is assigned on every path that reads it',
     technique='name, attribute and signature resolution with definite-assignment dataflow over the source',
     explain='resolution of names, attributes and call signatures over the class hierarchy, and definite-assignment dataflow over every function')
from . import prim_obl as pr
prop('C24', pr.cases, 'integral, derivative, root, closeness and term arithmetic pass their arguments unchanged to the routine that denotes them and return its answer')
from . import show_obl as sh
prop('C25', sh.cases, 'every cell of a frame and every point drawn equals the contract of the query it stands for, at the label or time where it is shown')
from . import dflt_obl as df
prop('C26', df.cases, 'every default of a parameter with an agreed meaning is the value the convention gives it, in every class that defines or redefines the method',
     technique='abstract evaluation of defaults over the class hierarchy',
     explain='the default of every conventional parameter of every public method is evaluated by the abstract interpreter and compared with the convention')

from . import valid_obl as vo
prop('C27', lambda m, t: vo.cases(t), 'a request outside the stated domain raises on every path; a request at the edge of the domain has its contract value',
     explain='abstract interpretation of every entry point on arguments outside, and exactly on, the edge of its documented domain, callees replaced by their contracts and preconditions')

from . import sult_obl as su
prop('C28', lambda m, t: su.cases(t), 'every cell of the standard ultimate life table and of its columns is the value its survival function and interest rate give')

from . import doc_obl as do
prop('C30', do.cases, 'every documented argument, example call and redefined query binds to a signature; every setter returns the object on every path',
     technique='signature resolution of documented calls over the class hierarchy, and return-value dataflow',
     explain='every argument a docstring describes, every call its examples, the module examples and the guide make, every pair of a redefined query and its redefinition, and every return of every setter is resolved against the signatures of the current source')

from . import hist_obl as ho
prop('C31', lambda m, t: ho.cases(m, t), 'a setter stores and reads only what its own setting consists of; a form of survival set after another, and a rate changed after an adjustment was built, give the values of the last setting',
     technique='effect and read-set analysis of the setters, and abstract interpretation of two-setting histories',
     explain='effects and reads of every setter over its call graph; abstract interpretation of histories of two settings against the contract of the last one')
