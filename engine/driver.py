"""Runs analysis tasks and collects findings per property."""
import os
import sys
import time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(os.path.dirname(HERE), 'specs'))
sys.setrecursionlimit(10000)
import ir
import progress
from absint import *
from interp import Analyzer


def program():
    return Program(ir.load())


def task_props(t):
    s = set(t['extra'])
    for v in t['props'].values():
        s.update(v)
    return s


def finishes(task):
    """tasks whose loops are examined for termination"""
    return 'start' in task and task.get('finishes', True)


def run_task(prog, task, timeout=300, measure=False):
    t0 = time.time()
    if 'run' in task:
        return task['run'](prog, task)
    spec, states = task['start']()
    an = Analyzer(prog, spec, timeout=timeout)
    if measure or os.environ.get('VERIF_PROGRESS'):
        an.progress = progress.Progress()
    # entering the entry function counts as analysed
    for s in states:
        if s.frames:
            an.functions.add(s.frames[0].fn.name)
    an.run(states)
    spec.finished(an)
    extra = None
    if an.progress is not None:
        for es in an.progress.solve():
            fn, file, line = an.progress.where(es[0])
            stuck = an.progress.standstill(es)
            for (file, fn, line), trace in stuck:
                f = Finding('no-progress', 'the loop can come back to the same state without anything having changed', file, fn, line,
                            path_of(trace), ('progress',))
                an.findings.setdefault(f.ident(), f)
            if not stuck:
                an.undecided.setdefault('%s:%s:%s: no measure found for the loop' % (file, fn, line), [])
        extra = an.progress.stats
    # attribute findings
    fs = []
    for f in an.findings.values():
        props = set()
        for tg in f.tags:
            props.update(task['props'].get(tg, []))
            if tg == 'progress':
                props.add('C35')
            elif tg == 'assert':
                props.add('C37')
            elif tg in ('ub',):
                props.update(task['extra'])
        if not props:
            props.update(task['extra'])
        f.props = sorted(props)
        f.task = task['name']
        fs.append(f)
    return dict(name=task['name'], findings=fs, undecided=dict(an.undecided), stats=an.stats, steps=an.steps,
                functions=sorted(an.functions), sites=sorted(an.sites), time=time.time() - t0,
                heads=len(an.inv), initial=len(states), extra=extra)


if __name__ == '__main__':
    import importlib
    prog = program()
    mod = importlib.import_module(sys.argv[1])
    pat = sys.argv[2] if len(sys.argv) > 2 else ''
    tot = time.time()
    for t in mod.tasks(prog):
        if pat and pat not in t['name']:
            continue
        r = run_task(prog, t)
        print('%-70s %5.2fs steps=%d ret=%d heads=%d' % (r['name'], r['time'], r['steps'], r['stats']['returns'], r['heads']))
        for f in r['findings']:
            print('    FINDING', f.props, f.rule, f.msg, '%s:%s:%d' % (f.file, f.func, f.line))
            if '-v' in sys.argv:
                for p in f.path:
                    print('         ', p)
        for u, p in r['undecided'].items():
            print('    UNDECIDED', u)
    print('total %.1fs' % (time.time() - tot))
