"""Whole-library dataflow rules over the IR: hidden state (C31) and stack
consumption (C33)."""
import os
import time
from absint import Finding, MissingAPI

# external functions that keep state of their own or change process-wide state
STATEFUL = set('''strtok rand srand random srandom rand_r_ drand48 erand48 lrand48 nrand48 mrand48 jrand48 srand48 seed48
lcong48 localtime gmtime asctime ctime strerror strsignal setlocale localeconv setenv putenv unsetenv clearenv getenv
signal sigaction bsd_signal sigset chdir fchdir umask atexit at_quick_exit on_exit hcreate hsearch hdestroy getopt
getopt_long getopt_long_only tmpnam tempnam tmpfile ecvt fcvt gcvt qecvt qfcvt dlerror lgamma lgammaf gamma readdir
inet_ntoa gethostbyname gethostbyaddr getpwnam getpwuid getgrnam getgrgid getservbyname getprotobyname ttyname ptsname
ctermid cuserid l64a crypt encrypt setkey mblen mbtowc wctomb mbrlen mbsrtowcs wcsrtombs getlogin getpass fgetgrent
getmntent getutent getdate basename dirname nl_langinfo catgets dbm_open setvbuf setbuf setlinebuf freopen
pthread_setspecific pthread_getspecific pthread_key_create pthread_once call_once tss_set tss_get tss_create
tzset settimeofday clock_settime alarm ualarm setitimer nice mlockall munlockall mallopt srandom initstate setstate
strfry dup2 openlog syslog closelog setlogmask sethostname gets initgroups setgid setuid'''.split())
# external functions without (observable) state between calls
STATELESS = set('''abort exit _exit calloc malloc realloc free aligned_alloc posix_memalign reallocarray memcpy memmove
memset memcmp memchr memrchr mempcpy strlen strnlen strcmp strncmp strchr strrchr strcpy strncpy strcat strncat strdup
strndup strstr strspn strcspn strpbrk stpcpy fprintf printf vfprintf snprintf sprintf vsnprintf fputs fputc puts putchar
fwrite fflush putc perror err errx warn warnx write read readv pread gettimeofday clock_gettime time clock
pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock pthread_mutex_unlock pthread_mutex_trylock
pthread_mutex_timedlock pthread_cond_init pthread_cond_destroy pthread_cond_wait pthread_cond_timedwait
pthread_cond_signal pthread_cond_broadcast pthread_self pthread_equal pthread_condattr_init pthread_condattr_setclock
pthread_condattr_destroy pthread_mutexattr_init pthread_mutexattr_destroy pthread_mutexattr_settype sched_yield
nanosleep usleep poll select __errno_location strtol strtoul strtoll strtoull abs labs bsearch qsort qsort_r lfind
__assert_fail close ioctl fcntl lseek fstat div ldiv lldiv llabs memccpy strcasecmp strncasecmp memmem strtok_r
toupper tolower isspace isdigit isalpha'''.split())
# read-only arguments of the stateless functions: handing them the address of a
# global does not modify it
WRITES = {'memcpy': [0], 'memmove': [0], 'memset': [0], 'mempcpy': [0], 'strcpy': [0], 'strncpy': [0], 'strcat': [0],
          'strncat': [0], 'snprintf': [0], 'sprintf': [0], 'vsnprintf': [0], 'read': [1], 'pread': [1], 'gettimeofday': [0, 1],
          'clock_gettime': [1], 'time': [0], 'realloc': [0], 'free': [0], 'qsort': [0], 'qsort_r': [0]}
READS = set('''memcmp memchr strlen strnlen strcmp strncmp strchr strrchr fprintf printf perror err errx warn warnx fputs
puts fwrite strdup strndup strstr write bsearch strspn strcspn __assert_fail'''.split())
STREAMS = ('stderr', 'stdout', 'stdin')
STACK_BOUND = 65536


class Lint:
    def __init__(self, prog, task):
        self.prog = prog
        self.d = prog.data if hasattr(prog, 'data') else prog.d
        self.task = task
        self.findings = {}
        self.undecided = {}
        self.sites = set()
        self.functions = []
        self.count = 0
        self.checked = 0

    def funcs(self):
        for n, f in sorted(self.d['functions'].items()):
            if not f['decl'] and os.path.basename(f.get('file', '')) != 'macros.c':
                yield n, f

    def report(self, rule, msg, f, fn, line, tag, path=()):
        x = Finding(rule, msg, os.path.basename(f.get('file', '') if f else ''), fn, line, list(path), (tag,))
        x.entry, x.case = fn, ''
        x.props = [tag]
        x.task = self.task['name']
        self.findings.setdefault(x.ident(), x)

    def undecide(self, fn, line, why):
        self.undecided.setdefault('%s:%s: %s' % (fn, line, why), [])

    def result(self, t0):
        return dict(name=self.task['name'], findings=list(self.findings.values()), undecided=self.undecided,
                    stats=dict(accesses=self.count, calls=0, returns=self.checked, joins=0, aborts=0, states=0),
                    steps=self.count, functions=sorted(self.functions), sites=sorted(self.sites), time=time.time() - t0,
                    heads=0, initial=1)


def instructions(f):
    for bi, b in enumerate(f['blocks']):
        for i in b:
            yield bi, i


def operands(i):
    """value operands of an instruction (phi: incoming values)"""
    if i['op'] == 'phi':
        return [o[0] for o in i['ops']]
    ops = list(i['ops'])
    for o, _ in i.get('voff', []):
        ops.append(o)
    return ops


# --------------------------------------------------------------- hidden state

def lint_state(prog, task):
    t0 = time.time()
    L = Lint(prog, task)
    globs = L.d['globals']
    for n, f in L.funcs():
        L.functions.append(n)
        derived = {}          # value -> globals its address may be derived from
        ch = True
        while ch:
            ch = False
            for bi, i in instructions(f):
                if i['op'] in ('getelementptr', 'phi', 'select', 'bitcast', 'inttoptr', 'ptrtoint', 'freeze', 'add', 'sub',
                               'and', 'or', 'extractvalue', 'insertvalue'):
                    g = set()
                    ops = operands(i)
                    if i['op'] == 'select':
                        ops = ops[1:]
                    for o in ops:
                        if o[0] == 'g':
                            g.add(o[1])
                        elif o[0] == 'v':
                            g |= derived.get(o[1], set())
                    if g - derived.get(i['id'], set()):
                        derived[i['id']] = derived.get(i['id'], set()) | g
                        ch = True

        def of(o):
            if o[0] == 'g':
                return {o[1]}
            if o[0] == 'v':
                return derived.get(o[1], set())
            return set()

        def mutable(o):
            return sorted(g for g in of(o) if g in globs and not globs[g]['const'] and g not in STREAMS)

        def const_(o):
            return sorted(g for g in of(o) if g in globs and globs[g]['const'] and not globs[g]['ext'])

        for bi, i in instructions(f):
            L.count += 1
            line = i.get('line', 0)
            what = None
            if i['op'] == 'store':
                for g in mutable(i['ops'][1]) + [g for g in of(i['ops'][1]) if g in STREAMS]:
                    what = (g, 'written')
                for g in const_(i['ops'][1]):
                    what = (g, 'written although it is constant')
                for g in mutable(i['ops'][0]):
                    what = (g, 'stored as a pointer to modifiable data')
            elif i['op'] in ('atomicrmw', 'cmpxchg'):
                for g in mutable(i['ops'][0]):
                    what = (g, 'written atomically')
            elif i['op'] == 'ret' and i['ops']:
                for g in mutable(i['ops'][0]):
                    what = (g, 'returned as a pointer to modifiable data')
            elif i['op'] == 'load':
                for g in of(i['ops'][0]):
                    if g in globs and globs[g]['ext'] and g not in STREAMS and not globs[g]['const']:
                        L.undecide(n, line, 'reads the external variable %s' % g)
            elif i['op'] == 'call':
                c = i['callee']
                name = c[1] if c[0] == 'f' else None
                L.checked += 1
                for k, o in enumerate(i['ops']):
                    for g in mutable(o):
                        if name and name.startswith('llvm.mem'):
                            if k == 0:
                                what = (g, 'written')
                        elif name in READS or (name in WRITES and k not in WRITES[name]):
                            pass
                        else:
                            what = (g, 'handed to a function as modifiable data')
                if name and L.d['functions'][name]['decl'] and not name.startswith('llvm.'):
                    base = name.replace('__isoc99_', '').replace('__isoc23_', '')
                    L.sites.add((os.path.basename(f['file']), n, line))
                    if base in STATEFUL:
                        L.report('stateful-call', 'calls %s(), which keeps state between calls' % base, f, n, line, 'C31')
                    elif base not in STATELESS:
                        L.undecide(n, line, 'calls the unknown external function %s()' % base)
            if what:
                g = globs[what[0]]
                L.report('hidden-state', 'static data %s is %s' % what, f, n, line, 'C31',
                         ['%s is defined at %s:%s' % (what[0], os.path.basename(g.get('file', '?')), g.get('line', '?'))])
    for g, o in sorted(globs.items()):
        L.count += 1
        if not o['const'] and not o['ext'] and o.get('escapes') and os.path.basename(o.get('file', '')) != 'macros.c':
            L.report('hidden-state', 'the address of modifiable static data %s is kept in static data' % g, o, g,
                     o.get('line', 0), 'C31')
    return L.result(t0)


# ------------------------------------------------------------------ the stack

def cfg(f):
    succ = [b[-1].get('succ', []) + [c[1] for c in b[-1].get('cases', [])] for b in f['blocks']]
    pred = [[] for _ in f['blocks']]
    for b, ss in enumerate(succ):
        for s in ss:
            pred[s].append(b)
    return succ, pred


def reaches(succ, a, b):
    """a non-empty path from block a to block b"""
    seen, todo = set(), list(succ[a])
    while todo:
        x = todo.pop()
        if x == b:
            return True
        if x not in seen:
            seen.add(x)
            todo.extend(succ[x])
    return False


class Bounds:
    """upper bounds of unsigned integers from their definition and the branches
    that dominate their use"""

    def __init__(self, f):
        self.f = f
        self.df = {}
        for bi, i in instructions(f):
            self.df[i['id']] = i
        self.succ, self.pred = cfg(f)

    def ub(self, o, block, seen=frozenset()):
        if o[0] == 'c':
            k = int(o[1])
            return k if k >= 0 else None
        if o[0] != 'v' or o[1] in seen:
            return None
        best = []
        # dominating branches
        b = block
        steps = set()
        while len(self.pred[b]) == 1 and b not in steps:
            steps.add(b)
            p = self.pred[b][0]
            t = self.f['blocks'][p][-1]
            if t['op'] == 'br' and t['ops'] and t['succ'][0] != t['succ'][1]:
                c = self.df.get(t['ops'][0][1]) if t['ops'][0][0] == 'v' else None
                if c is not None and c['op'] == 'icmp':
                    r = self.edge(c, t['succ'][0] == b, o)
                    if r is not None:
                        best.append(r)
            b = p
        i = self.df.get(o[1])
        if i is not None:
            s = seen | {o[1]}
            op = i['op']
            if op in ('zext', 'sext', 'trunc', 'freeze', 'bitcast'):
                u = self.ub(i['ops'][0], block, s)
                if u is not None:
                    best.append(u)
                if op == 'zext' and i['oty'] in ('i1', 'i8', 'i16'):
                    best.append((1 << int(i['oty'][1:])) - 1)
            elif op == 'and':
                for x in i['ops']:
                    u = self.ub(x, block, s)
                    if u is not None:
                        best.append(u)
            elif op == 'urem':
                u = self.ub(i['ops'][1], block, s)
                if u is not None:
                    best.append(u - 1)
            elif op in ('udiv', 'lshr'):
                u = self.ub(i['ops'][0], block, s)
                if u is not None:
                    best.append(u)
            elif op in ('add', 'mul', 'shl'):
                a, c = self.ub(i['ops'][0], block, s), self.ub(i['ops'][1], block, s)
                if a is not None and c is not None and a < 1 << 31 and c < (1 << 31 if op != 'shl' else 31):
                    best.append(a + c if op == 'add' else a * c if op == 'mul' else a << c)
            elif op in ('phi', 'select'):
                us = []
                if op == 'phi':
                    for x, pb in i['ops']:
                        us.append(self.ub_edge(x, pb, i, s))
                else:
                    c = self.df.get(i['ops'][0][1]) if i['ops'][0][0] == 'v' else None
                    for k, x in enumerate(i['ops'][1:]):
                        u = self.ub(x, block, s)
                        if c is not None and c['op'] == 'icmp':
                            e = self.edge(c, k == 0, x)
                            if e is not None:
                                u = e if u is None else min(u, e)
                        us.append(u)
                if us and all(u is not None for u in us):
                    best.append(max(us))
            elif op == 'call' and i['callee'][0] == 'f' and i['callee'][1].startswith('llvm.umin'):
                for x in i['ops']:
                    u = self.ub(x, block, s)
                    if u is not None:
                        best.append(u)
        return min(best) if best else None

    def ub_edge(self, x, pb, phi, s):
        u = self.ub(x, pb, s)
        t = self.f['blocks'][pb][-1]
        if t['op'] == 'br' and t['ops'] and t['ops'][0][0] == 'v' and t['succ'][0] != t['succ'][1]:
            c = self.df.get(t['ops'][0][1])
            home = next(bi for bi, i in instructions(self.f) if i is phi)
            if c is not None and c['op'] == 'icmp':
                e = self.edge(c, t['succ'][0] == home, x)
                if e is not None:
                    u = e if u is None else min(u, e)
        return u

    def edge(self, c, taken, o):
        pred = c['pred']
        a, b = c['ops']
        inv = {'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt', 'eq': 'ne', 'ne': 'eq'}
        if pred not in inv:
            return None
        if not taken:
            pred = inv[pred]
        if b == o and a[0] == 'c':
            a, b = b, a
            pred = {'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}.get(pred, pred)
        if a != o or b[0] != 'c':
            return None
        k = int(b[1])
        if k < 0:
            return None
        return {'ult': k - 1, 'ule': k, 'eq': k}.get(pred)


def is_tail(f, bi, idx):
    """nothing but a return of the call's value follows"""
    call = f['blocks'][bi][idx]
    cur = ['v', call['id']]
    ii = idx + 1
    seen = set()
    prev = None
    while True:
        b = f['blocks'][bi]
        while ii < len(b):
            i = b[ii]
            if i['op'] == 'phi' and prev is not None:
                inc = [o for o, p in i['ops'] if p == prev]
                if inc and inc[0] == cur:
                    cur = ['v', i['id']]
            elif i['op'] == 'ret':
                return not i['ops'] or i['ops'][0] == cur
            elif i['op'] == 'br' and not i['ops']:
                if bi in seen:
                    return False
                seen.add(bi)
                prev, bi, ii = bi, i['succ'][0], -1
                b = f['blocks'][bi]
            elif i['op'] == 'call' and i['callee'][0] == 'f' and i['callee'][1].startswith('llvm.lifetime'):
                pass
            else:
                return False
            ii += 1
        return False


def local_addresses(f):
    """values derived from the address of a local variable"""
    out = set()
    ch = True
    while ch:
        ch = False
        for bi, i in instructions(f):
            if i['id'] in out:
                continue
            if i['op'] == 'alloca' or (i['op'] in ('getelementptr', 'phi', 'select', 'bitcast') and any(
                    o[0] == 'v' and o[1] in out for o in operands(i))):
                out.add(i['id'])
                ch = True
    return out


def lint_stack(prog, task):
    t0 = time.time()
    L = Lint(prog, task)
    edges = {}
    for n, f in L.funcs():
        L.functions.append(n)
        bd = Bounds(f)
        loc = local_addresses(f)
        escapes = any(i['op'] in ('call', 'store') and any(o[0] == 'v' and o[1] in loc for o in (
            i['ops'] if i['op'] == 'call' else i['ops'][:1])) for bi, i in instructions(f))
        stacksave = any(i['op'] == 'call' and i['callee'] == ['f', 'llvm.stacksave.p0'] for bi, i in instructions(f))
        for bi, b in enumerate(f['blocks']):
            for ii, i in enumerate(b):
                L.count += 1
                line = i.get('line') or next((x.get('line') for x in b[ii:] if x.get('line')), f.get('line', 0))
                if i['op'] == 'alloca':
                    L.checked += 1
                    L.sites.add((os.path.basename(f['file']), n, line))
                    u = bd.ub(i['ops'][0], bi)
                    if u is None:
                        L.report('stack-grows', 'a local array grows with a run-time quantity', f, n, line, 'C33')
                    elif i['ops'][0][0] != 'c' and u * i['esz'] > STACK_BOUND:
                        L.report('stack-grows', 'a local array of run-time size may take %d bytes' % (u * i['esz']), f, n, line, 'C33')
                    elif not i['static'] and not stacksave and reaches(bd.succ, bi, bi):
                        L.report('stack-grows', 'stack memory is claimed again in every turn of a loop', f, n, line, 'C33')
                elif i['op'] == 'call' and i['callee'][0] == 'f':
                    c = i['callee'][1]
                    if L.d['functions'][c]['decl']:
                        continue
                    L.checked += 1
                    edges.setdefault(n, []).append((c, i, is_tail(f, bi, ii) and not escapes, line))
    # recursion
    reach = {}

    def rt(a):
        if a not in reach:
            reach[a] = set()
            todo = [a]
            while todo:
                for c, *_ in edges.get(todo.pop(), []):
                    if c not in reach[a]:
                        reach[a].add(c)
                        todo.append(c)
        return reach[a]
    node = L.d['structs'].get('_RBNode') or L.d['structs'].get(L.d['typedefs'].get('RBNode', 'RBNode'))
    child = {x['off'] for x in node['fields'] if x['name'] in ('left', 'right')} if node else set()
    sccs = {}
    for n in edges:
        if n in rt(n):
            k = frozenset(m for m in rt(n) if n in rt(m))
            sccs[k] = 1
    for comp in sccs:
        inner = [(a, c, i, tail, line) for a in comp for c, i, tail, line in edges.get(a, []) if c in comp]
        if all(t for _, _, _, t, _ in inner):
            continue          # sibling calls: the build (-O2) turns them into jumps
        lab = []
        for a, c, i, tail, line in inner:
            lab.append((a, c, step(L, a, c, i, child), tail, line))
        # every cycle must contain a step down the tree
        flat = {}
        for a, c, s, tail, line in lab:
            if s != 'down':
                flat.setdefault(a, set()).add(c)
        for a, c, s, tail, line in sorted(lab, key=str):
            L.sites.add((os.path.basename(L.d['functions'][a]['file']), a, line))
            f = L.d['functions'][a]
            if s == 'other' and not tail:
                L.report('unbounded-recursion', '%s() calls %s() recursively, and not for a child of its tree node' % (a, c),
                         f, a, line, 'C33')
            elif s != 'down' and a in closure(flat, c) and not tail:
                L.report('unbounded-recursion', '%s() calls %s() recursively for the same tree node' % (a, c), f, a, line, 'C33')
    return L.result(t0)


def closure(g, a):
    seen, todo = {a}, [a]
    while todo:
        for c in g.get(todo.pop(), ()):
            if c not in seen:
                seen.add(c)
                todo.append(c)
    return seen


def step(L, a, c, call, child):
    """does the call hand on the caller's tree node ('same'), one of its
    children ('down') or something else"""
    f = L.d['functions'][a]
    g = L.d['functions'][c]
    df = {i['id']: i for _, i in instructions(f)}
    ty = f.get('ditypes', [])
    tg = g.get('ditypes', [])

    def is_node(t):
        return t in ('RBNode*', '_RBNode*')
    params = [k for k in range(len(f['params'])) if k + 1 < len(ty) and is_node(ty[k + 1])]
    best = 'other'
    for k, o in enumerate(call['ops']):
        if k + 1 >= len(tg) or not is_node(tg[k + 1]) or o[0] != 'v':
            continue
        depth = 0
        v = o
        ok = True
        while v[0] == 'v' and v[1] not in params:
            i = df.get(v[1])
            if i is None:
                ok = False
                break
            if i['op'] == 'load' and i['ops'][0][0] == 'v':
                p = df.get(i['ops'][0][1])
                off = 0
                if p is not None and p['op'] == 'getelementptr' and not p['voff']:
                    off, base = p['coff'], p['ops'][0]
                else:
                    base = i['ops'][0]
                if off not in child:
                    ok = False
                    break
                depth += 1
                v = base
            else:
                ok = False
                break
        if ok and v[0] == 'v' and v[1] in params:
            s = 'down' if depth else 'same'
            if s == 'down' or best == 'other':
                best = s
    return best


def tasks(prog):
    return [dict(name='hidden state of the library', group='lint', props={}, extra=['C31'], run=lint_state),
            dict(name='stack consumption of the library', group='lint', props={}, extra=['C33'], run=lint_stack)]
