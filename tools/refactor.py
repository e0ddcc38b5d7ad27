#!/usr/bin/env python3
"""Development helper: behaviour-preserving edits on which every check has to stay quiet.

refactor.py [pattern ...]   tools/refactors/*.py define R = [(name, file, {function: new text or None} , [(old, new)])]"""
import glob
import os
import re
import shutil
import sys
import tempfile
import time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
import mutants

MODS = {'list.c': 'listspec', 'slist.c': 'listspec asyncspec', 'stack.c': 'listspec', 'pool.c': 'poolspec', 'assocarray.c': 'assocspec',
        'hashtable.c': 'hashspec', 'asyncqueue.c': 'asyncspec', 'buffer.c': 'bufspec', 'compare.c': 'helpspec', 'hash.c': 'helpspec',
        'rbtree.c': 'treespec'}


def replace_fn(src, name, new):
    m = re.search(r'^(?:static )?[A-Za-z_][^\n;{}()]*\n' + name + r'\(.*?^}\n', src, re.M | re.S)
    if not m:
        raise SystemExit('no function ' + name)
    return src[:m.start()] + new.strip('\n') + '\n' + src[m.end():]


def one(name, f, fns, edits):
    src = open('/repo/' + f).read()
    for k, v in fns.items():
        src = replace_fn(src, k, v)
    for old, new in edits:
        if src.count(old) < 1:
            return name + ': BAD EDIT %r' % old[:50]
        src = src.replace(old, new)
    d = tempfile.mkdtemp(prefix='rf')
    try:
        mutants.sh('cp /repo/*.c /repo/*.h /repo/Makefile %s && cp -r /repo/test %s/test && mkdir -p %s/inc && ln -s %s %s/inc/datatypes'
                   % (d, d, d, d, d), '/', 60)
        open('%s/%s' % (d, f), 'w').write(src)
        rc, o = mutants.sh('clang -std=c11 -Wall -DNDEBUG -DWITH_PTHREAD -I. -c %s -o /dev/null' % f, d, 60)
        if rc:
            return name + ': NO BUILD ' + o[-600:]
        t = mutants.tests(d)
        t0 = time.time()
        rc, o = mutants.sh('VERIF_REPO=%s VERIF_MODULES="%s lintspec" timeout 900 python3 runall.py' % (d, MODS[f]), HERE, 1000)
        out = o.strip().split('\n')
        quiet = len(out) == 1 and out[0].startswith('props:  |')
        return '%s: tests %s, %.0fs %s' % (name, t, time.time() - t0, 'quiet' if quiet else 'NOISE\n   ' + '\n   '.join(x[:230] for x in out[:12]))
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    pats = sys.argv[1:]
    for p in sorted(glob.glob(os.path.join(HERE, 'tools', 'refactors', '*.py'))):
        g = {}
        exec(open(p).read(), g)
        for n, f, fns, edits in g['R']:
            full = os.path.basename(p)[:-3] + '/' + n
            if not pats or any(x in full for x in pats):
                print(one(full, f, fns, edits), flush=True)
