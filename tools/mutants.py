#!/usr/bin/env python3
"""Development helper: systematic mutants of one source file, analysed in
scratch copies; prints the ones that neither the analysis nor the project's
tests notice, to be judged by hand.

mutants.py FILE.c TASKPATTERN [--only N[,N]] [--show] [--skiptests]"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

SUBS = [
    (r'==', '!='), (r'!=', '=='), (r'(?<![<>=!-])<(?![<=])', '<='), (r'(?<![->=!<])>(?![>=])', '>='),
    (r'<=', '<'), (r'>=', '>'), (r'&&', '||'), (r'\|\|', '&&'), (r'\+\+', '--'), (r'--', '++'),
    (r'\bhead\b', 'tail'), (r'\btail\b', 'head'), (r'->next\b', '->prev'), (r'->prev\b', '->next'),
    (r'->left\b', '->right'), (r'->right\b', '->left'), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'),
    (r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' + '), (r'\b0\b', '1'), (r'\b1\b', '0'), (r'\b2\b', '3'), (r'\b2\b', '1'),
    (r'!(?!=)', ''), (r'\bblock\b(?=->)', 'iter'), (r'\bkey\b(?!\()', 'value'), (r'\bvalue\b(?!\()', 'key'),
    (r'\bif\((.*)\)$', 'if(1)'), (r'\bif\((.*)\)$', 'if(0)'), (r'\bwhile\((.*)\)$', 'if(\\1)'),
    (r'\bRB_RED\b', 'RB_BLACK'), (r'\bRB_BLACK\b', 'RB_RED'), (r'\belse if\b', 'if'), (r' % ', ' / '), (r'\breturn ([a-z]\w*);', 'return NULL;'),
    (r'\bsizeof\((\w+) \*\)', 'sizeof(int)'), (r'\blength\b', 'capacity'), (r'\bcapacity\b', 'length'), (r'/ 2', '/ 1'),
    (r'break;', ';'), (r'break;', 'continue;'), (r'continue;', ';'),
]


def mutants(path):
    lines = open(path).read().split('\n')
    out = []
    infn = False
    for i, l in enumerate(lines):
        if l.startswith('{'):
            infn = True
        if l.startswith('}'):
            infn = False
        s = l.strip()
        if not infn or not s or s.startswith(('assert', '/*', '*', '//', '#')):
            continue
        seen = set()

        def add(nl):
            if nl != l and nl not in seen:
                seen.add(nl)
                out.append((i, nl))
        for pat, rep in SUBS:
            for m in re.finditer(pat, l):
                try:
                    r = m.expand(rep) if '\\' in rep else rep
                except re.error:
                    continue
                add(l[:m.start()] + r + l[m.end():])
        if s.endswith(';') and not re.match(r'^(return\b|[\w ]+\*?\w+( = .*)?;$)', s) or re.match(r'^(free|\w+\(.*\));', s) or \
                re.match(r'^[\w>.\[\]()*&-]+\s*=[^=].*;$', s):
            add(re.match(r'\s*', l).group(0) + ';')
        # swap with next statement
        if s.endswith(';') and i + 1 < len(lines) and lines[i + 1].strip().endswith(';') and not s.startswith('return') and \
                not lines[i + 1].strip().startswith('return'):
            out.append((i, lines[i + 1] + ' ' + l.strip() + '\x00'))
    return lines, out


def sh(cmd, cwd, timeout, env=None):
    try:
        p = subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                           env=env, text=True, errors='replace')
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 'timeout', ''


def tests(d):
    rc, o = sh('make -j2 CC=gcc >/dev/null 2>&1 && cd test && make -j2 CC=gcc INC="-I%s/inc" LIB="%s/libdatatypes.a.0.3.2 -pthread" '
               '>/dev/null 2>&1' % (d, d), d, 120)
    if rc != 0:
        return 'nobuild'
    for t in ('list', 'slist', 'map', 'assocarray', 'asyncqueue', 'buffer', 'hashtable', 'rbtree'):
        if not os.path.exists(d + '/test/test-' + t):
            continue
        rc, o = sh('timeout -k 1 20 ./test-' + t + ' </dev/null', d + '/test', 30, dict(os.environ, LD_LIBRARY_PATH=d))
        if rc != 0:
            return 'killed by test-' + t
    return 'survives'


def one(job):
    n, fn, lines, (i, nl), pat, skiptests = job
    new = list(lines)
    if nl.endswith('\x00'):
        new[i] = nl[:-1]
        new[i + 1] = ''
    else:
        new[i] = nl
    d = tempfile.mkdtemp(prefix='mut')
    try:
        sh('cp /repo/*.c /repo/*.h /repo/Makefile %s && cp -r /repo/test %s/test && mkdir -p %s/inc && ln -s %s %s/inc/datatypes'
           % (d, d, d, d, d), '/', 20)
        open(os.path.join(d, fn), 'w').write('\n'.join(new))
        rc, o = sh('gcc -std=c11 -DNDEBUG -DWITH_PTHREAD -w -fsyntax-only %s/%s' % (d, fn), d, 20)
        if rc != 0:
            return n, i, nl, 'nobuild', ''
        rc, o = sh('python3 /verif/runall.py -j1 ' + pat, '/verif', 900, dict(os.environ, VERIF_REPO=d, VERIF_JOBS='1'))
        last = o.strip().split('\n')[-1] if o.strip() else ''
        if rc != 0 or 'ERROR' in o:
            v = 'ERROR'
        else:
            props = last.split('props:')[1].split('|')[0].split()
            v = ' '.join(x for x in props if x != 'UNDECIDED') or ('UNDECIDED' if 'UNDECIDED' in props else 'quiet')
        t = ''
        if v in ('quiet', 'UNDECIDED', 'ERROR') and not skiptests:
            t = tests(d)
        return n, i, nl, v, t + ('\n' + o[-600:] if v in ('UNDECIDED', 'ERROR') and t != 'nobuild' else '')
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    fn, pat = sys.argv[1], sys.argv[2].replace(',', ' ')
    lines, ms = mutants('/repo/' + fn)
    jobs = [(n, fn, lines, m, pat, '--skiptests' in sys.argv) for n, m in enumerate(ms)]
    if '--only' in sys.argv:
        want = {int(x) for x in sys.argv[sys.argv.index('--only') + 1].split(',')}
        jobs = [j for j in jobs if j[0] in want]
    cnt = {}
    with ThreadPoolExecutor(8) as ex:
        for n, i, nl, v, t in ex.map(one, jobs):
            k = v if v in ('nobuild', 'quiet', 'UNDECIDED', 'ERROR') else 'caught'
            if k in ('quiet', 'UNDECIDED', 'ERROR'):
                k += ' ' + t.split('\n')[0]
            cnt[k] = cnt.get(k, 0) + 1
            if '--all' in sys.argv or (not k.startswith('caught') and k != 'nobuild' and 'nobuild' not in t):
                print('#%d %s:%d  %s   =>   %s   [%s | %s]' % (n, fn, i + 1, lines[i].strip(), nl.strip('\x00 \t'), v, t), flush=True)
    print(cnt)
