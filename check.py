#!/usr/bin/env python3
"""usage: check.py <property> [--tier quick|thorough] [-v]

Decides one property by static analysis of the current source tree of the
subject (nothing of the subject is imported or executed)."""
import hashlib
import json
import os
import re
import resource
import signal
import sys
import time
import traceback
from multiprocessing import get_context

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

from sa.model import Model, ModelError, REPO          # noqa: E402
from sa.obl import Result, run_case, Finding          # noqa: E402
from sa import registry                               # noqa: E402

KNOWN = os.path.join(HERE, 'known_findings.txt')
_G = {}


def digest(f):
    d = re.sub(r'\$[a-z]+\d*', '$', f.detail)
    return hashlib.sha1(f"{f.kind}|{d}".encode()).hexdigest()[:10]


def load_known():
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN, encoding='utf-8'):
            m = re.match(r'known: property=(\S+) rule=(\S+) construct=(\S+) digest=(\S+) scenario="([^"]*)" (.*)', line.strip())
            if m:
                out.append(m.groups())
    return out


CASE_S, GROUP_S, CHECK_S = 45, 240, 660       # seconds for one obligation, one group of them, the whole check
START = time.time()


class TimeUp(BaseException):
    """an obligation that takes too long is left undecided"""


def _alarm(sig, frame):
    raise TimeUp()


def _limits():
    """in a worker: less memory than would endanger the others"""
    try:
        resource.setrlimit(resource.RLIMIT_AS, (3 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))
    except (ValueError, OSError):
        pass


def _work(idx):
    model, prop, cases = _G['model'], _G['prop'], _G['cases']
    r = Result(prop)
    for i in idx:
        _run_one(model, prop, cases[i], r)
    return r


def _run_one(model, prop, c, r):
    before = r.obligations
    left = min(GROUP_S if callable(c) else CASE_S, CHECK_S - (time.time() - START))
    try:
        if left <= 0:
            raise TimeUp()
        signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, left)
        try:
            if callable(c):
                c(model, r)
            else:
                run_case(model, prop, c, r)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    except TimeUp:
        r.obligations = max(r.obligations, before + 1)
        r.undecided.append((str(getattr(c, 'construct', None) or getattr(c, 'name', '?')), str(getattr(c, 'scenario', '?')), "time limit"))
    except (RecursionError, MemoryError) as e:
        r.obligations += 1
        r.undecided.append((getattr(c, 'name', '?'), getattr(c, 'scenario', '?'), f"engine: {type(e).__name__}"))
    except Exception as e:                      # an engine failure is never an alarm
        r.obligations += 1
        tb = traceback.extract_tb(e.__traceback__)[-1]
        r.undecided.append((str(getattr(c, 'name', '?')), str(getattr(c, 'scenario', '?')),
                            f"engine: {type(e).__name__}: {e} ({os.path.basename(tb.filename)}:{tb.lineno})"))


def analyse(prop, tier, model=None, jobs=None):
    model = model or Model()
    entry = registry.PROPS[prop]
    res = Result(prop)
    cases = list(entry['cases'](model, tier))
    jobs = jobs or min(8, os.cpu_count() or 1)
    if len(cases) > 24 and jobs > 1:
        _G.update(model=model, prop=prop, cases=cases)
        ctx = get_context('fork')
        n = jobs * 4
        chunks = [list(range(i, len(cases), n)) for i in range(n)]
        with ctx.Pool(jobs, initializer=_limits) as pool:
            for r in pool.imap_unordered(_work, [c for c in chunks if c]):
                res.merge(r)
    else:
        for c in cases:
            _run_one(model, prop, c, res)
    if entry.get('post'):
        entry['post'](model, res)
    res.findings.sort(key=lambda f: (f.construct, f.scenario, f.rule))
    res.undecided.sort()
    return res


def main(argv):
    prop = argv[0]
    tier = 'quick'
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    verbose = '-v' in argv
    t0 = time.time()
    try:
        model = Model()
    except (ModelError, OSError) as e:
        print(f"ERROR: {e}")
        return 2
    entry = registry.PROPS[prop]
    res = analyse(prop, tier, model)
    known = load_known()
    new, old = [], []
    for f in res.findings:
        hit = None
        for k in known:
            if k[0] == prop and k[1] == f.rule and k[2] == f.construct and k[4] == f.scenario and k[3] in (digest(f), '*'):
                hit = k
                break
        (old if hit else new).append(f)
    wall = round(time.time() - t0, 3)
    cov = {
        'explanation': entry['explain'],
        'rule_applied': entry['rule'],
        'obligations': res.obligations,
        'discharged': res.discharged,
        'undecided': len(res.undecided),
        'traces_partitioned': res.traces,
        'functions_analysed': sorted(res.funcs),
        'per_construct': {k: {'obligations': v[0], 'discharged': v[1]} for k, v in sorted(res.per.items())},
        'undecided_list': [{'construct': a, 'scenario': b, 'reason': str(c)[:200]} for a, b, c in res.undecided[:60]],
        'missing_anchors': sorted(set(res.missing)),
        'samples': [f"{k}: {v[0]} obligations, {v[1]} discharged" for k, v in list(sorted(res.per.items()))[:5]] or ['none'],
        'subject': REPO,
    }
    ev = {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '0') or 0), 'level': 'other',
          'coverage': cov, 'assumptions': entry['assume'] + sorted(res.notes)[:20], 'wall_s': wall,
          'violations': len(res.findings)}
    cov['violation_list'] = [{'construct': f.construct, 'scenario': f.scenario, 'rule': f.rule, 'kind': f.kind,
                          'where': f.where, 'detail': f.detail[:600], 'known': f in old} for f in res.findings[:50]]
    os.makedirs(os.path.join(HERE, 'evidence', 'replay'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', f'{prop}.json'), 'w') as fp:
        json.dump(ev, fp, indent=1)
    seen = set()
    for f in old:
        line = f"KNOWN-FINDING: property={prop} {f.construct} [{f.scenario}] {f.kind}: {f.detail[:160]}"
        print(line)
    if verbose:
        for f in new:
            print('  ', f.rule, f.construct, '|', f.scenario, '|', f.kind, f.detail[:400], f.where, f.path, digest(f))
        for u in res.undecided:
            print('   undecided', u)
        print('   missing', res.missing)
    print(f"{prop} {tier}: {res.obligations} obligations, {res.discharged} discharged, {len(res.undecided)} undecided, "
          f"{len(old)} known, {len(new)} new; {len(res.funcs)} functions, {res.traces} traces, {wall}s")
    if new:
        rp = os.path.join(HERE, 'evidence', 'replay', f'{prop}.txt')
        with open(rp, 'w') as fp:
            for f in new:
                fp.write(f"rule: {f.rule}\nconstruct: {f.construct}\nscenario: {f.scenario}\nwhere: {f.where}\n"
                         f"{f.kind}: {f.detail}\npath: {' and '.join(f.path) or 'unconditional'}\ndigest: {digest(f)}\n\n")
        f = new[0]
        print(f"VIOLATION property={prop} replay={rp}")
        print(f"  {f.construct} at {f.where} [{f.scenario}] {f.kind}: {f.detail[:300]}")
        return 1
    if res.discharged == 0:
        print(f"ERROR: nothing of {prop} could be analysed")
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
