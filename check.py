#!/usr/bin/env python3
"""check.py <property id> [...]: decides the property on /repo's current source.

exit 0: it holds on everything analysed; exit 1: VIOLATION line(s); 2: the
analysis could not be set up (missing API, compile error)."""
import json
import multiprocessing
import os
import sys
import time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'engine'))
sys.path.insert(0, os.path.join(HERE, 'specs'))
import driver
import ir
import registry
from absint import MissingAPI, Undecided

TASKS = []
MEASURE = False
END = time.time() + float(os.environ.get('VERIF_BUDGET', 660))     # a check has 900 s
PROG = None


def work(i):
    t = TASKS[i]
    try:
        r = driver.run_task(PROG, t, timeout=min(t.get('timeout', 240), max(20, END - time.time())),
                            measure=MEASURE)
        return i, dict(name=r['name'], steps=r['steps'], stats=r['stats'], functions=r['functions'],
                       sites=r['sites'], heads=r['heads'], initial=r['initial'], time=r['time'],
                       undecided=r['undecided'], extra=r.get('extra'),
                       findings=[dict(rule=f.rule, msg=f.msg, file=f.file, func=f.func, line=f.line, path=f.path,
                                      props=f.props, tags=f.tags, task=f.task) for f in r['findings']])
    except Undecided as e:
        return i, dict(name=t['name'], steps=0, stats=dict(accesses=0, calls=0, returns=0, joins=0, aborts=0, states=0),
                       functions=[], sites=[], heads=0, initial=0, time=0, undecided={str(e): []}, findings=[])
    except MissingAPI as e:
        return i, dict(name=t['name'], missing=str(e))
    except Exception as e:     # engine trouble is an error of the check, never a verdict
        import traceback
        return i, dict(name=t['name'], crash=traceback.format_exc())


def run_tasks(select, jobs=None, measure=False):
    global TASKS, PROG, MEASURE
    MEASURE = measure
    PROG = driver.program()
    deep = os.environ.get('VERIF_TIER') == 'thorough' or '--thorough' in sys.argv
    TASKS = [t for t in registry.tasks(PROG) if select(t) and (deep or not t.get('deep'))]
    order = sorted(range(len(TASKS)), key=lambda i: -TASKS[i].get('weight', 1))
    res = [None] * len(TASKS)
    with multiprocessing.Pool(jobs or int(os.environ.get('VERIF_JOBS', 0)) or min(16, os.cpu_count() or 4)) as pool:
        for i, r in pool.imap_unordered(work, order, 1):
            res[i] = r
    return TASKS, res


def with_assertions():
    """the library as built without NDEBUG; what goes wrong with assertions only is their effect"""
    ir.ASSERTS = True
    tasks, res = run_tasks(lambda t: 'start' in t)
    other = {}
    for i, r in enumerate(res):
        fs = [f for f in r.get('findings', []) if 'assert' not in f['tags']]
        if fs:
            other[r['name']] = fs
    if other:
        ir.ASSERTS = False
        _, res0 = run_tasks(lambda t: t['name'] in other)
        ir.ASSERTS = True
        for r in res0:
            if 'findings' in r and not r['findings'] and not r['undecided']:
                for f in other[r['name']]:
                    f['rule'], f['props'] = 'assertion-changes-behaviour: ' + f['rule'], ['C37']
    return tasks, res


def known():
    out = []
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known:'):
                d = json.loads(line[6:])
                out.append(d)
    return out


def is_known(k, prop, f):
    return k['property'] == prop and k['rule'] == f['rule'] and k['func'] == f['func'] and k['msg'] == f['msg']


def check(prop):
    t0 = time.time()
    tier = 'thorough' if '--thorough' in sys.argv else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    meta = registry.PROPERTIES[prop]
    if prop == 'C37':
        tasks, res = with_assertions()
    elif prop == 'C35':
        tasks, res = run_tasks(driver.finishes, measure=True)
    else:
        tasks, res = run_tasks(lambda t: prop in driver.task_props(t))
    bad = 0
    if not tasks or len(tasks) < meta.get('min_tasks', 1):
        print('ERROR: only %d analysis tasks for %s' % (len(tasks), prop))
        return 2
    for r in res:
        if 'missing' in r:
            print('ERROR: %s: anchor missing: %s' % (r['name'], r['missing']))
            bad = 1
        elif 'crash' in r:
            print('ERROR: %s: %s' % (r['name'], r['crash']))
            bad = 1
    good = [r for r in res if 'steps' in r]
    kn = known()
    violations, knowns, seen = [], [], set()
    for r in good:
        for f in r['findings']:
            if prop not in f['props']:
                continue
            k = (f['rule'], f['func'], f['line'], f['msg'])
            if k in seen:
                continue
            seen.add(k)
            m = [x for x in kn if is_known(x, prop, f)]
            (knowns if m else violations).append(f)
    undecided = {}
    for r in good:
        for u in r['undecided']:
            undecided.setdefault(u, []).append(r['name'])
    m = [r['extra'] for r in good if prop == 'C35' and r.get('extra')]
    ob = sum(r['stats']['accesses'] + r['stats']['calls'] + r['stats']['returns'] for r in good)
    failed = len(violations) + len(knowns) + len(undecided)
    funcs = sorted({x for r in good for x in r['functions']})
    sites = sorted({tuple(x) for r in good for x in r['sites']})
    cov = dict(
        explanation=meta['how'],
        rule=meta['rule'],
        analysis_tasks=len(good),
        task_names=[r['name'] for r in good],
        functions=funcs,
        functions_count=len(funcs),
        access_sites=len(sites),
        abstract_paths=sum(r['steps'] for r in good),
        loop_head_states=sum(r['heads'] for r in good),
        joins=sum(r['stats']['joins'] for r in good),
        exits_checked=sum(r['stats']['returns'] for r in good),
        obligations=ob,
        discharged=max(0, ob - failed),
        undecided=[dict(where=u, tasks=sorted(set(t))[:5]) for u, t in sorted(undecided.items())],
        checker_cmd='python3 check.py %s' % prop,
        trusted_base=registry.TRUSTED,
        evaluations=len(good),
        distinct_nontrivial=sum(1 for r in good if r['stats']['returns'] + r['stats']['aborts'] > 0),
        samples=[dict(task=r['name'], loop_states=r['heads'], exits=r['stats']['returns'], accesses=r['stats']['accesses'])
                 for r in sorted(good, key=lambda r: -r['steps'])[:5]],
        source_key=ir.key(),
    )
    if m:
        cov['edges_between_loop_heads'] = sum(x['edges'] for x in m)
        cov['components_ranked'] = sum(x['ranked'] for x in m)
        cov['measures'] = sorted({y for x in m for y in x['measures']})[:60]
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level=meta['level'],
              coverage=cov, assumptions=registry.assumptions(prop), wall_s=round(time.time() - t0, 2),
              violations=len(violations))
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    for f in knowns:
        print('KNOWN-FINDING: property=%s %s: %s at %s:%s' % (prop, f['rule'], f['msg'], f['func'], f['line']))
    for u in sorted(undecided):
        print('UNDECIDED: %s' % u)
    replay = os.path.join(HERE, 'evidence', prop + '-violation.txt')
    if violations:
        with open(replay, 'w') as o:
            for f in violations:
                o.write('property %s: rule %s\n' % (prop, f['rule']))
                o.write('  %s\n  at %s:%s in %s()\n  analysed entry: %s\n' % (f['msg'], f['file'], f['line'], f['func'], f['task']))
                o.write('  abstract path:\n')
                for p in f['path']:
                    o.write('    %s\n' % p)
                o.write('\n')
        for f in violations:
            print('  %s: %s at %s:%s in %s() [%s]' % (f['rule'], f['msg'], f['file'], f['line'], f['func'], f['task']))
        print('VIOLATION property=%s replay=%s' % (prop, replay))
        return 1
    if os.path.exists(replay):
        os.unlink(replay)
    if bad:
        return 2
    print('%s: held; %d tasks, %d functions, %d obligations, %d undecided, %.1fs' % (
        prop, len(good), len(funcs), ob, len(undecided), time.time() - t0))
    return 0


if __name__ == '__main__':
    rc = 0
    try:
        for p in [a for a in sys.argv[1:] if not a.startswith('-')]:
            r = check(p)
            rc = 1 if 1 in (rc, r) else max(rc, r)
    except ir.BuildError as e:
        print('ERROR: %s' % e)
        rc = 2
    sys.exit(rc)
