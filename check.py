#!/usr/bin/env python3
"""check.py <property> [quick|thorough]   decide one property on /repo's current tree (static analysis only)."""
import json
import multiprocessing
import os
import re
import shutil
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from engine import driver, interp, run, witness          # noqa: E402
import props                                             # noqa: E402

UB = {'lifetime', 'memory', 'leak', 'uninit', 'terminate', 'assert', 'exception', 'unreachable', 'nullcall', 'arith',
      'misaligned', 'lock', 'nontermination'}
# stand-ins for names of the standard library in the harnesses
SHIMS = r'\bvp_(umap|oss|os|text|find|find_if|find_if_not|all_of|any_of|none_of|remove|remove_if|lower_bound|upper_bound|equal_range|binary_search|sort|stable_sort|is_sorted|unique)\b'
MODS = {}


def work(t):
    i, name, limit = t
    try:
        return i, run.decide(MODS[i], name, limit)
    except Exception as e:       # an internal failure of the analyser decides nothing
        import traceback
        return i, {'driver': name, 'error': '%s: %s' % (type(e).__name__, e), 'tb': traceback.format_exc()[-1500:],
                   'viol': [], 'undec': ['analyser failure'], 'unconfirmed': [], 'ob': {}, 'paths': 0, 'insts': 0,
                   'calls': 0, 'loops_summarised': 0, 'functions': [], 'late': False, 'wall': 0}


def known_findings():
    out = []
    p = os.path.join(HERE, 'known_findings.jsonl')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l:
                out.append(json.loads(l))
    return out


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    t0 = time.time()
    P = next(p for p in props.PROPS if p.id == pid)
    total = 600 if tier == 'quick' else 3400
    jobs = [j for j in P.jobs if tier == 'thorough' or not j.thorough]
    aj = [j for j in jobs if j.kind == 'abs']
    wj = [j for j in jobs if j.kind == 'witness']
    viols = []
    errors = []
    tmp = tempfile.mkdtemp(prefix='vp_%s_' % pid)
    try:
        driver.irdump()

        def comp(i):
            j = aj[i]
            try:
                return i, driver.compile_ir(os.path.join(HERE, 'harness', j.src), std=j.std, defs=j.defs,
                                            passes=j.passes, tmp=tmp, extra=j.extra), None
            except driver.CompileError as e:
                return i, None, str(e)
        wit, shim = [], []
        with ThreadPoolExecutor(8) as ex:
            wf = [ex.submit(witness.run, j, tmp) for j in wj]
            for i, js, err in ex.map(comp, range(len(aj))):
                if err is not None:
                    m = re.search(r'^(\S+?):(\d+):(?:\d+:)? (?:fatal )?error: (.*)$', err, re.M)
                    if m and 'static assertion' not in m.group(3) and re.search(SHIMS, m.group(3)):
                        # something of the standard library that its stand-in in the harness lacks
                        shim.append('%s: not compilable with the contracts of the standard library: %s' % (aj[i].src, m.group(3)))
                        continue
                    viols.append({'cat': 'interface', 'msg': 'a program using only the documented interface does not compile: ' + (m.group(3) if m else err[:300]),
                                  'loc': '%s:%s' % (m.group(1), m.group(2)) if m else '?', 'driver': aj[i].src,
                                  'fn': '', 'detail': err[:3000], 'trace': [], 'path': [], 'instance': None})
                else:
                    MODS[i] = interp.Module(js)
            for f in wf:
                wit.append(f.result())
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    tasks = []
    for i, j in enumerate(aj):
        if i not in MODS:
            continue
        names = [n for n, f in MODS[i].funcs.items() if n.startswith('d_') and not f.decl]
        if j.drv:
            names = [n for n in names if re.search(j.drv, n)]
        if not names:
            errors.append('%s: no drivers selected' % j.src)
        tasks += [(i, n, 100 if tier == 'quick' else 600) for n in names]
    results = []
    if tasks:
        pool = multiprocessing.Pool(8)
        try:
            it = pool.imap_unordered(work, tasks)
            for _ in tasks:
                left = total - (time.time() - t0)
                try:
                    results.append(it.next(timeout=max(1, left)))
                except multiprocessing.TimeoutError:
                    break
        finally:
            pool.terminate()
            pool.join()
    done = {(i, o['driver']) for i, o in results}
    missed = ['%s %s: %s' % (aj[i].src, ' '.join(aj[i].defs), n) for i, n, _ in tasks if (i, n) not in done]
    ob = disch = undecn = 0
    und, unc, funcs, paths, insts, calls, loops = [], [], set(), 0, 0, 0, 0
    percat = {}
    und += shim
    for i, o in results:
        j = aj[i]
        cats = j.cats | UB
        funcs |= set(o['functions'])
        paths += o['paths']
        insts += o['insts']
        calls += o['calls']
        loops += o['loops_summarised']
        for c, v in o['ob'].items():
            if c in cats:
                ob += sum(v)
                disch += v[0]
                undecn += v[2]
                e = percat.setdefault(c, [0, 0, 0])
                for k in range(3):
                    e[k] += v[k]
        tag = '%s %s %s' % (j.src, ' '.join(j.defs), o['driver'])
        und += ['%s: %s' % (tag, u) for u in o['undec']]
        unc += ['%s: %s' % (tag, u) for u in o['unconfirmed']]
        if o.get('error'):
            errors.append('%s: %s' % (tag, o['error']))
        for d in o['viol']:
            if d['cat'] in cats:
                d = dict(d)
                d['config'] = '%s -std=%s %s' % (j.src, j.std, ' '.join('-D' + x for x in j.defs))
                viols.append(d)
    wob = 0
    wsamples = []
    for w in wit:
        wob += w['obligations']
        wsamples += w['samples'][:3]
        viols += w['viol']
        errors += w['errors']
    known = [k for k in known_findings() if k.get('property') == pid and k.get('status') == 'known']
    reported = []
    shown = set()
    for v in viols:
        hit = None
        for k in known:
            if all(re.search(k['match'][f], str(v.get(f, ''))) for f in k['match']):
                hit = k
        if hit is not None:
            if id(hit) not in shown:
                print('KNOWN-FINDING: property=%s %s' % (pid, hit['what']))
                shown.add(id(hit))
        else:
            reported.append(v)
    os.makedirs(os.path.join(HERE, 'evidence', 'replay'), exist_ok=True)
    replay = os.path.join(HERE, 'evidence', 'replay', pid + '.json')
    if reported:
        json.dump(reported, open(replay, 'w'), indent=1, default=str)
    elif os.path.exists(replay):
        os.unlink(replay)
    wall = time.time() - t0
    cov = {}
    if P.level == 'proof':
        cov = {'obligations': ob + wob, 'discharged': disch + wob - sum(1 for v in reported if v.get('driver') == 'witness'),
               'checker_cmd': 'python3 check.py %s %s' % (pid, tier), 'trusted_base': P.trusted}
    else:
        cov = {'explanation': P.note}
    cov.update({'rule': P.technique, 'programs_analysed': ['%s -std=%s %s' % (j.src, j.std, ' '.join('-D' + x for x in j.defs)) for j in aj][:60],
                'drivers': len(results), 'abstract_paths': paths, 'ir_instructions': insts, 'call_sites': calls, 'loops_summarised': loops,
                'obligations_by_category': {c: {'proved': v[0], 'refuted': v[1], 'undecided': v[2]} for c, v in sorted(percat.items())},
                'library_functions_analysed': len(funcs), 'library_functions': sorted(funcs)[:400],
                'undecided': und[:60], 'undecided_count': len(und), 'unconfirmed_refutations': unc[:40], 'not_reached_in_time': missed,
                'witness_programs': len(wit), 'witness_obligations': wob, 'witness_samples': wsamples[:20],
                'analyser_errors': errors[:20]})
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': P.level, 'coverage': cov,
          'assumptions': P.trusted, 'wall_s': round(wall, 2), 'violations': len(reported)}
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1, default=str)
    print('%s %s: %d drivers, %d obligations, %d discharged, %d undecided, %d witness obligations, %d violations, %.1fs' % (
        pid, tier, len(results), ob, disch, undecn, wob, len(reported), wall))
    for u in (und + unc)[:8]:
        print('  undecided:', u[:300])
    for e in errors[:5]:
        print('  analyser:', e[:600])
    for v in reported[:12]:
        print('  %s: %s: %s [%s] %s' % (v.get('loc'), v['cat'], v['msg'], v.get('fn') or '', v.get('detail', '')[:300]))
        print('     in %s %s, for %s' % (v.get('driver'), v.get('config', ''), v.get('instance')))
    for c in sorted(set().union(*[j.cats for j in aj]) - set(percat)) if aj and not (und or errors or missed) else ():
        print('  note: no obligation of category %s was met' % c)
    if reported:
        print('VIOLATION property=%s replay=%s' % (pid, os.path.relpath(replay, HERE)))
        return 1
    if (ob + wob == 0 or (ob == 0 and aj)) and not shim:
        print('nothing was analysed')
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
