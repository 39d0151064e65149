"""Decide the drivers of a witness translation unit: proofs, confirmed violations, undecided obligations."""
import time
from . import interp, models
from .num import ATOMS

models.ELEM.update({'VpE': 24, 'VpF': 40, 'VpT': 24, 'VpC': 32, 'VpM': 16, 'VpP': 64})


class Outcome:
    pass


def analyse(mod, name, limit=240, **kw):
    R = interp.Results()
    I = interp.Interp(mod, R)
    I.deadline = time.time() + limit
    for k, v in kw.items():
        setattr(I, k, v)
    late = False
    try:
        I.run_driver(name)
    except TimeoutError:
        late = True
        R.undecided_paths[(name, 'time limit', '')] = 1
    except RecursionError:
        late = True
        R.undecided_paths[(name, 'recursion limit of the analyser', '')] = 1
    return R, late


def confirm(mod, name, d, limit):
    """A refutation found with symbolic inputs and summarised loops is only reported when analysing the same
    driver with exactly those inputs and without summaries violates the same category."""
    best = None
    for kw in (dict(accelerate=False, UNROLL=4000, loop_budget=20000), dict()):
        R, late = analyse(mod, name, limit, fixed=d['instance'], maxpaths=8000, strict=True, **kw)
        hits = [v for v in R.viol.values() if v['cat'] == d['cat']]
        same = [v for v in hits if v['msg'] == d['msg']]
        if hits:
            return (same or hits)[0]
        if R.viol:
            best = best or next(iter(R.viol.values()))
        if not late and not R.undecided_paths and not R.undec:
            return None      # analysed completely: nothing is violated for these inputs
    return best


def decide(mod, name, limit=240, climit=60):
    t = time.time()
    R, late = analyse(mod, name, limit)
    out = {'driver': name, 'paths': R.paths, 'insts': R.insts, 'calls': R.calls, 'loops_summarised': R.loops_acc,
           'functions': sorted(R.funcs), 'late': late, 'viol': [], 'undec': [], 'unconfirmed': []}
    ob = {}
    for (drv, cat, msg, loc), (a, b, c) in R.ob.items():
        e = ob.setdefault(cat, [0, 0, 0])
        if b:
            e[1] += 1
        elif c:
            e[2] += 1
        else:
            e[0] += 1
    seen = {}
    for k, d in R.viol.items():
        kk = (d['cat'], d['msg'])
        n = seen.get(kk, 0)
        if n >= 3:
            continue
        seen[kk] = n + 1
        c = confirm(mod, name, d, climit)
        if c is None:
            ob[d['cat']][1] -= 1
            ob[d['cat']][2] += 1
            out['unconfirmed'].append('%s: %s at %s' % (d['cat'], d['msg'], d['loc']))
        else:
            d['confirmed'] = {k: c[k] for k in ('cat', 'msg', 'loc', 'fn', 'detail', 'path')}
            out['viol'].append(d)
            seen[kk] = 3
    out['ob'] = ob
    for d in R.undec.values():
        out['undec'].append('%s: %s at %s: %s' % (d['cat'], d['msg'], d['loc'], d['detail'][:160]))
    for (drv, why, loc), n in R.undecided_paths.items():
        out['undec'].append('path: %s at %s (x%d)' % (why, loc, n))
    out['wall'] = time.time() - t
    return out
