#!/usr/bin/env python3
"""Development helper: builds /verif/seeded/<id>/ from tools/seeds/<id>.py and
confirms it (patch applies, tests pass with it, demo distinguishes the trees,
which checks report it).

mkseed.py [id ...] [--nocheck]

tools/seeds/<id>.py defines PROP, FILE, EDITS [(old, new)], NEEDS, BREAKS, DEMO (C source)."""
import difflib
import json
import os
import shutil
import subprocess
import sys
import tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
import mutants

DEMO_SH = '''#!/bin/bash
# exit 0: the property held in this scenario; compiles the library's sources with the sanitizers
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp /tmp/demo.XXXXXX) || exit 3
trap 'rm -f "$T"' EXIT
gcc -std=gnu11 -g -O1 -w -fsanitize=address,undefined -fno-sanitize-recover=all -DNDEBUG -DWITH_PTHREAD -I. %s "$D/demo.c" ./*.c -pthread -o "$T" || exit 3
ASAN_OPTIONS=detect_leaks=0 timeout 120 "$T"
'''


def run(cmd, cwd, timeout=200):
    return mutants.sh(cmd, cwd, timeout)


def one(sid, nocheck):
    g = {}
    exec(open(os.path.join(HERE, 'tools', 'seeds', sid + '.py')).read(), g)
    out = os.path.join(HERE, 'seeded', sid)
    os.makedirs(out, exist_ok=True)
    files = {}
    edits = g['EDITS']
    for e in edits:
        f, old, new = e if len(e) == 3 else (g['FILE'],) + tuple(e)
        s = files.get(f) or open('/repo/' + f).read()
        if s.count(old) != 1:
            return sid + ': edit of %s matches %d times: %r' % (f, s.count(old), old[:60])
        files[f] = s.replace(old, new)
    patch = ''
    for f, new in files.items():
        a = open('/repo/' + f).read().splitlines(True)
        b = new.splitlines(True)
        patch += 'diff --git a/%s b/%s\n' % (f, f) + ''.join(difflib.unified_diff(a, b, 'a/' + f, 'b/' + f))
    open(out + '/patch.diff', 'w').write(patch)
    open(out + '/demo.c', 'w').write(g['DEMO'].lstrip())
    open(out + '/demo.sh', 'w').write(g.get('DEMO_SH') or DEMO_SH % g.get('CFLAGS', ''))
    os.chmod(out + '/demo.sh', 0o755)
    json.dump(dict(property=g['PROP'], needs=g['NEEDS'], what_it_breaks=g['BREAKS']), open(out + '/meta.json', 'w'), indent=1)
    d = tempfile.mkdtemp(prefix='seed')
    res = [sid, g['PROP']]
    try:
        run('cp /repo/*.c /repo/*.h /repo/Makefile %s && cp -r /repo/test %s/test && mkdir -p %s/inc && ln -s %s %s/inc/datatypes'
            % (d, d, d, d, d), '/')
        rc, o = run('bash %s/demo.sh' % out, d)
        res.append('clean demo %s' % rc + ('' if rc == 0 else ' BAD\n' + o[-800:]))
        rc, o = run('patch -p1 -s < %s/patch.diff' % out, d)
        if rc:
            return sid + ' patch failed ' + o
        rc, o = run('bash %s/demo.sh' % out, d)
        res.append('patched demo %s' % rc + (' BAD' if rc == 0 else ''))
        res.append('tests ' + mutants.tests(d))
        if not nocheck:
            rc, o = run('VERIF_REPO=%s python3 runall.py' % d, HERE, 1200)
            res.append('\n   ' + '\n   '.join(x[:200] for x in o.strip().split('\n')[-6:]))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return ' | '.join(res)


if __name__ == '__main__':
    ids = [a for a in sys.argv[1:] if not a.startswith('-')]
    for sid in ids or sorted(x[:-3] for x in os.listdir(os.path.join(HERE, 'tools', 'seeds')) if x.endswith('.py')):
        print(one(sid, '--nocheck' in sys.argv), flush=True)
