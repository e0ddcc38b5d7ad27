"""Builds the LLVM IR of /repo's current sources and loads it."""
import glob
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
CFLAGS = ['-std=c11', '-DNDEBUG', '-DWITH_PTHREAD', '-g', '-O0', '-Xclang', '-disable-O0-optnone',
          '-fno-discard-value-names', '-w']


ASSERTS = bool(os.environ.get('VERIF_ASSERTS'))     # analyse the library as built without NDEBUG


def cflags():
    return [x for x in CFLAGS if not (ASSERTS and x == '-DNDEBUG')]


class BuildError(Exception):
    pass


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    if p.returncode:
        raise BuildError('%s failed:\n%s' % (' '.join(cmd), p.stderr[-4000:]))
    return p.stdout


def irdump_binary():
    src = os.path.join(VERIF, 'engine', 'irdump.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    out = os.path.join(BUILD, 'irdump-' + h)
    if os.path.exists(out):
        return out
    os.makedirs(BUILD, exist_ok=True)
    flags = run(['llvm-config', '--cxxflags']).split()
    libs = run(['llvm-config', '--ldflags', '--libs']).split()
    tmp = out + '.tmp%d' % os.getpid()
    run(['clang++', '-O1'] + flags + [src, '-o', tmp] + libs)
    os.rename(tmp, out)
    return out


def fm_library():
    """shared library with the elimination step of num.py, or None"""
    src = os.path.join(VERIF, 'engine', 'fm.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    out = os.path.join(BUILD, 'fm-%s.so' % h)
    if os.path.exists(out):
        return out
    os.makedirs(BUILD, exist_ok=True)
    tmp = out + '.tmp%d' % os.getpid()
    run(['g++', '-O2', '-std=c++17', '-shared', '-fPIC', src, '-o', tmp])
    os.rename(tmp, out)
    return out


def sources():
    return sorted(glob.glob(os.path.join(REPO, '*.c')))


def key():
    h = hashlib.sha256()
    for f in sorted(glob.glob(os.path.join(REPO, '*.[ch]'))) + [
            os.path.join(VERIF, 'engine', 'irdump.cpp'), os.path.join(VERIF, 'engine', 'macros.c')]:
        h.update(os.path.basename(f).encode() + b'\0')
        h.update(open(f, 'rb').read())
    h.update(' '.join(cflags()).encode())
    return h.hexdigest()[:24]


def load():
    dump = irdump_binary()
    k = key()
    cache = os.path.join(BUILD, 'ir-%s.json' % k)
    if os.path.exists(cache) and not os.environ.get('VERIF_NOCACHE'):
        try:
            return json.load(open(cache))
        except ValueError:
            pass
    tmp = tempfile.mkdtemp(prefix='dtir')
    try:
        procs = []
        srcs = sources() + [os.path.join(VERIF, 'engine', 'macros.c')]
        lls = []
        for s in srcs:
            o = os.path.join(tmp, os.path.basename(s) + '.ll')
            lls.append(o)
            procs.append((s, subprocess.Popen(['clang'] + cflags() + ['-I', REPO, '-S', '-emit-llvm', s, '-o', o],
                                              stderr=subprocess.PIPE, text=True)))
        for s, p in procs:
            _, err = p.communicate()
            if p.returncode:
                raise BuildError('clang failed on %s:\n%s' % (s, err[-4000:]))
        linked = os.path.join(tmp, 'all.ll')
        run(['llvm-link', '-S'] + lls + ['-o', linked])
        opt = os.path.join(tmp, 'opt.ll')
        run(['opt', '-S', '-passes=sroa,simplifycfg<no-sink-common-insts;no-hoist-common-insts;no-switch-to-lookup;'
             'no-switch-range-to-icmp>' if False else '-passes=sroa', linked, '-o', opt])
        out = run([dump, opt])
        data = json.loads(out)
        os.makedirs(BUILD, exist_ok=True)
        t = cache + '.tmp%d' % os.getpid()
        with open(t, 'w') as f:
            f.write(out)
        os.rename(t, cache)
        for old in glob.glob(os.path.join(BUILD, 'ir-*.json')):
            if old != cache and os.path.getmtime(old) < os.path.getmtime(cache) - 3600:
                os.unlink(old)
        return data
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
