#!/usr/bin/env python3
"""runs every analysis task once and prints what was found per property
(development helper; VERIF_REPO selects another tree)"""
import sys
import check
import driver
import registry
pat = [a for a in sys.argv[1:] if not a.startswith('-')]
tasks, res = check.run_tasks(lambda t: not pat or any(p in t['name'] or p in driver.task_props(t) for p in pat))
props = {}
for r in res:
    if 'missing' in r or 'crash' in r:
        print('ERROR', r['name'], r.get('missing') or r.get('crash'))
        continue
    if '-t' in sys.argv and r['time'] > 5:
        print('%6.1fs %s' % (r['time'], r['name']))
    for f in r['findings']:
        for p in f['props']:
            props.setdefault(p, {}).setdefault((f['rule'], f['msg'], f['func'], f['line']), r['name'])
    for u in r['undecided']:
        props.setdefault('UNDECIDED', {}).setdefault((u,), r['name'])
for p in sorted(props):
    for k, n in props[p].items():
        print(p, *k, '<-', n)
print('props:', ' '.join(sorted(props)), '| %d tasks, cpu %.0fs' % (len(res), sum(r.get('time', 0) for r in res)))
