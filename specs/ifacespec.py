"""The public headers as an interface (C36): compile witnesses and a check of the
function-like macros, without running anything."""
import itertools
import json
import os
import re
import subprocess
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor
import ir
from absint import MissingAPI
from lintspec import Lint

HEADERS = ['assocarray.h', 'asyncqueue.h', 'buffer.h', 'compare.h', 'datatypes.h', 'hash.h', 'hashtable.h', 'list.h', 'pool.h',
           'queue.h', 'rbtree.h', 'slist.h', 'stack.h']
# the documented macros
MACROS = set('''ASSOC_ARRAY_MAX_SIZE HASHTABLE_AUTO_RESIZE DATATYPES_VERSION_MAJOR DATATYPES_VERSION_MINOR
DATATYPES_VERSION_PATCHLEVEL assoc_array_pair_key assoc_array_pair_value assoc_array_iter_key assoc_array_iter_value str_compare
hashtable_pair_key hashtable_pair_value hashtable_iter_key hashtable_iter_value list_item_next list_item_prev list_item_get_data
list_item_set_data queue_new queue_init queue_destroy queue_free queue_push queue_pop queue_head queue_clear queue_count
rbtree_pair_key rbtree_pair_value rbtree_iter_key rbtree_iter_value slist_item_next slist_item_get_data slist_item_set_data
stack_new stack_init stack_destroy stack_free stack_push stack_clear stack_count'''.split())
# the documented functions, for the case that one of them is turned into a macro
FUNCTIONS = set('''assoc_array_clear assoc_array_count assoc_array_destroy assoc_array_free assoc_array_init assoc_array_iter_get_key
assoc_array_iter_get_value assoc_array_iter_init assoc_array_iter_next assoc_array_key_exists assoc_array_lookup
assoc_array_new assoc_array_pair_get_key assoc_array_pair_get_value assoc_array_pair_set_value assoc_array_remove
assoc_array_set assoc_array_size async_queue_clear async_queue_count async_queue_destroy async_queue_free async_queue_init
async_queue_new async_queue_pop async_queue_pop_timeout async_queue_push buffer_clear buffer_destroy buffer_fill
buffer_fill_from_fd buffer_flush buffer_free buffer_init buffer_is_empty buffer_is_valid buffer_len buffer_new
buffer_read_line buffer_to_string direct_compare direct_equal direct_hash hashtable_clear hashtable_count hashtable_destroy
hashtable_free hashtable_init hashtable_iter_get_key hashtable_iter_get_value hashtable_iter_init hashtable_iter_next
hashtable_key_exists hashtable_lookup hashtable_new hashtable_pair_get_key hashtable_pair_get_value hashtable_pair_set_value
hashtable_remove hashtable_set list_append list_clear list_contains list_count list_destroy list_empty list_find list_free
list_head list_init list_insert_sorted list_item_free_data list_new list_pop list_prepend list_remove list_remove_by_data
list_tail memory_pool_destroy memory_pool_new rbtree_clear rbtree_count rbtree_destroy rbtree_free rbtree_init
rbtree_iter_free rbtree_iter_get_key rbtree_iter_get_value rbtree_iter_init rbtree_iter_next rbtree_iter_reuse
rbtree_key_exists rbtree_lookup rbtree_new rbtree_pair_get_key rbtree_pair_get_value rbtree_pair_set_value rbtree_remove
rbtree_set slist_append slist_clear slist_contains slist_count slist_destroy slist_empty slist_find slist_free slist_head
slist_init slist_insert_sorted slist_item_free_data slist_new slist_pop slist_prepend slist_remove slist_remove_by_data
stack_head stack_pop str_equal str_hash'''.split())
CC = ['clang', '-std=c11', '-fsyntax-only', '-w', '-Werror=implicit-function-declaration', '-Werror=incompatible-pointer-types',
      '-Werror=int-conversion']
# every documented macro, used by a program that includes nothing but its header
USES = {
    'assocarray.h': """size_t w1(void) { return ASSOC_ARRAY_MAX_SIZE; }
void *w2(AssocArrayPair *p) { return assoc_array_pair_key(p) ? assoc_array_pair_value(p) : 0; }
void *w3(AssocArrayIter i) { return assoc_array_iter_key(i) ? assoc_array_iter_value(i) : 0; }""",
    'compare.h': """CompareFunc w1(void) { return str_compare; }""",
    'datatypes.h': """int w1[] = { DATATYPES_VERSION_MAJOR, DATATYPES_VERSION_MINOR, DATATYPES_VERSION_PATCHLEVEL };""",
    'hashtable.h': """size_t w1(void) { return HASHTABLE_AUTO_RESIZE; }
void *w2(HashTablePair *p) { return hashtable_pair_key(p) ? hashtable_pair_value(p) : 0; }
void *w3(HashTableIter i) { return hashtable_iter_key(i) ? hashtable_iter_value(i) : 0; }""",
    'list.h': """ListItem *w1(ListItem *i, void *d) { list_item_set_data(i, d);
return list_item_get_data(i) ? list_item_next(i) : list_item_prev(i); }""",
    'queue.h': """Queue *w1(CompareFunc c, FreeFunc f, Pool *p) { return queue_new(c, f, p); }
size_t w2(Queue *q, CompareFunc c, FreeFunc f, Pool *p, void *d, void **r) { queue_init(q, c, f, p); queue_push(q, d);
if(queue_head(q, r) && queue_pop(q, r)) queue_clear(q); else queue_free(q); return queue_count(q); }
void w3(Queue *q) { queue_destroy(q); }""",
    'rbtree.h': """void *w2(RBTreePair *p) { return rbtree_pair_key(p) ? rbtree_pair_value(p) : 0; }
void *w3(RBTreeIter i) { return rbtree_iter_key(i) ? rbtree_iter_value(i) : 0; }""",
    'slist.h': """SListItem *w1(SListItem *i, void *d) { slist_item_set_data(i, d); return slist_item_get_data(i) ? slist_item_next(i) : i; }""",
    'stack.h': """Stack *w1(CompareFunc c, FreeFunc f, Pool *p) { return stack_new(c, f, p); }
size_t w2(Stack *q, CompareFunc c, FreeFunc f, Pool *p, void *d, void **r) { stack_init(q, c, f, p); stack_push(q, d);
if(stack_head(q, r) && stack_pop(q, r)) stack_clear(q); else stack_free(q); return stack_count(q); }
void w3(Stack *q) { stack_destroy(q); }""",
}


def report(L, rule, msg, file, fn, line):
    L.report(rule, msg, dict(file=file), fn, line, 'C36')


def compiles(text, *flags):
    with tempfile.NamedTemporaryFile('w', suffix='.c') as f:
        f.write(text)
        f.flush()
        p = subprocess.run(CC + list(flags) + ['-I', ir.REPO, f.name], capture_output=True, text=True)
    return None if p.returncode == 0 else next((x.split('error: ', 1)[1] for x in p.stderr.split('\n') if 'error: ' in x),
                                               'not accepted by the compiler')


def lint_headers(prog, task):
    """every public header on its own and after any other"""
    t0 = time.time()
    L = Lint(prog, task)
    for h in HEADERS:
        if not os.path.exists(os.path.join(ir.REPO, h)):
            raise MissingAPI('header %s' % h)
    jobs = []
    for flags in ((), ('-DWITH_PTHREAD',)):
        for h in HEADERS:
            jobs.append((flags, (h,)))
            jobs.append((flags, (h, h)))
        for a, b in itertools.permutations(HEADERS, 2):
            jobs.append((flags, (a, b)))

    def one(j):
        flags, hs = j
        return compiles(''.join('#include "%s"\n' % h for h in hs) + (USES.get(hs[0], '') if len(hs) == 1 else ''), *flags)
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, jobs))
    bad = set()
    for (flags, hs), e in zip(jobs, res):
        L.checked += 1
        L.count += 1
        L.sites.add('%s%s' % ('+'.join(hs), ' ' + flags[0] if flags else ''))
        if e and not (len(hs) == 2 and set(hs) & bad):
            bad |= set(hs) if len(hs) == 1 else set()
            report(L, 'header-not-usable', 'a program that includes %s%s is rejected: %s' % (
                ' then '.join(hs), ' with WITH_PTHREAD' if flags else '', e), hs[0], hs[-1], 0)
    L.functions = sorted(HEADERS)
    return L.result(t0)


def public_functions():
    """name -> (header, line) of the functions the headers declare"""
    with tempfile.NamedTemporaryFile('w', suffix='.c') as f:
        f.write('#include "datatypes.h"\n')
        f.flush()
        p = subprocess.run(['clang', '-std=c11', '-w', '-DWITH_PTHREAD', '-I', ir.REPO, '-Xclang', '-ast-dump=json', '-fsyntax-only',
                            f.name], capture_output=True, text=True)
    if p.returncode:
        raise MissingAPI('datatypes.h does not compile')
    out = {}
    cur = None
    line = 0

    def locs(d):
        for k in ('spellingLoc', 'expansionLoc'):
            if k in d:
                yield d[k]
        yield d
    for n in json.loads(p.stdout)['inner']:
        # the dump names file and line only where they change
        for where in (n.get('loc', {}), n.get('range', {}).get('begin', {}), n.get('range', {}).get('end', {})):
            for d in locs(where):
                cur = d.get('file', cur)
                line = d.get('line', line)
            if where is n.get('loc'):
                here, hline = cur, line
        if n['kind'] == 'FunctionDecl' and not n.get('isImplicit') and os.path.dirname(here or '') == ir.REPO:
            body = any(x['kind'] == 'CompoundStmt' for x in n.get('inner', []))
            if not body and n.get('storageClass') != 'static':
                out.setdefault(n['name'], (os.path.basename(here), hline))
    return out


def lint_decls(prog, task):
    """what the headers declare is what the library defines"""
    t0 = time.time()
    L = Lint(prog, task)
    pub = public_functions()
    if not pub:
        raise MissingAPI('the functions of the public headers')
    defs = {n: f for n, f in L.funcs()}
    for n, (h, line) in sorted(pub.items()):
        L.count += 1
        L.checked += 1
        L.functions.append(n)
        L.sites.add('%s:%s' % (h, n))
        if n not in defs:
            report(L, 'declared-not-defined', '%s is declared, but no source of the library defines it' % n, h, n, line)
        elif defs[n].get('internal'):
            report(L, 'declared-not-defined', '%s is declared, but has internal linkage' % n, h, n, line)
    srcs = sorted({os.path.basename(f['file']) for n, f in defs.items()})
    for s in srcs:
        L.count += 1
        L.checked += 1
        L.sites.add('%s with datatypes.h' % s)
        p = os.path.join(ir.REPO, s)
        if not os.path.exists(p):
            continue
        flags = ['-DNDEBUG', '-DWITH_PTHREAD']
        if compiles('#include "%s"\n' % p, *flags) is None:
            e = compiles('#include "%s"\n#include "datatypes.h"\n' % p, *flags)
            if e:
                report(L, 'interface-mismatch', 'the declarations of the headers and the definitions in %s do not agree: %s' % (s, e),
                       s, s, 0)
    return L.result(t0)


TOKEN = re.compile(r'''\s*("(?:\\.|[^"\\])*"|'(?:\\.|[^'\\])*'|[A-Za-z_]\w*|\.?\d[\w.]*|->|\+\+|--|<<=|>>=|<<|>>|[<>=!+\-*/%&|^]=|
&&|\|\||\#\#|\.\.\.|[^\sA-Za-z_0-9])''', re.X)
PAIR = {'(': ')', '[': ']', '{': '}'}


def tokens(s):
    return [m.group(1) for m in TOKEN.finditer(s)]


def macros(path):
    """(name, params or None, body tokens, line) of a header's definitions"""
    s = open(path, errors='replace').read()
    s = re.sub(r'/\*.*?\*/', lambda m: '\n' * m.group(0).count('\n') or ' ', s, flags=re.S)
    s = re.sub(r'//[^\n]*', '', s)
    lines = s.split('\n')
    i = 0
    while i < len(lines):
        k, t = i, lines[i]
        while t.endswith('\\') and i + 1 < len(lines):
            i += 1
            t = t[:-1] + ' ' + lines[i]
        i += 1
        m = re.match(r'\s*#\s*define\s+(\w+)(\(([^)]*)\))?(.*)$', t)
        if m:
            params = None
            if m.group(2) is not None:
                params = [x.strip() for x in m.group(3).split(',') if x.strip()]
            yield m.group(1), params, tokens(m.group(4)), k + 1


def match(ts, i):
    """index of the bracket that closes ts[i]"""
    stack = []
    for k in range(i, len(ts)):
        if ts[k] in PAIR:
            stack.append(PAIR[ts[k]])
        elif ts[k] in PAIR.values():
            if not stack or stack.pop() != ts[k]:
                return None
            if not stack:
                return k
    return None


def word(t):
    return re.match(r'[A-Za-z_]\w*$', t) is not None


def is_postfix(ts):
    """one primary expression with postfix operators: nothing around it can take it apart"""
    if not ts:
        return True
    if ts[0] == '(':
        i = match(ts, 0)
        if i is None:
            return False
        i += 1
        if i < len(ts) and (ts[i] not in ('->', '.', '[', '(')):
            return False        # a cast
    else:
        if not re.match(r'["\'\w.]', ts[0]):
            return False
        i = 1
        while i < len(ts) and ts[0][0] in '"' and ts[i][0] == '"':
            i += 1
    while i < len(ts):
        if ts[i] in ('->', '.') and i + 1 < len(ts) and word(ts[i + 1]):
            i += 2
        elif ts[i] in ('[', '('):
            i = match(ts, i)
            if i is None:
                return False
            i += 1
        else:
            return False
    return True


MARK = 'vm_argument_%d_'


def expansions(defs):
    """documented macro -> (header, parameters, line, tokens of its full expansion with marked arguments)"""
    names = [(n, h, params, line) for n in sorted((MACROS | FUNCTIONS) & set(defs)) for h, params, _, line in defs[n][-1:]]
    text = '#include "datatypes.h"\n' + ''.join('#include "%s"\n' % h for h in HEADERS)
    for i, (n, h, params, line) in enumerate(names):
        call = n if params is None else '%s(%s)' % (n, ', '.join(MARK % k for k in range(len(params))))
        text += 'vm_begin_%d_ %s vm_end_%d_\n' % (i, call, i)
    with tempfile.NamedTemporaryFile('w', suffix='.c') as f:
        f.write(text)
        f.flush()
        p = subprocess.run(['clang', '-std=c11', '-w', '-E', '-P', '-DWITH_PTHREAD', '-I', ir.REPO, f.name], capture_output=True, text=True)
    if p.returncode:
        raise MissingAPI('the headers cannot be preprocessed')
    out = {}
    for i, (n, h, params, line) in enumerate(names):
        m = re.search(r'\bvm_begin_%d_\b(.*?)\bvm_end_%d_\b' % (i, i), p.stdout, re.S)
        if m:
            out[n] = (h, params, line, tokens(m.group(1)))
    return out


SPECIFIERS = set('''static inline extern const volatile restrict void char short int long signed unsigned float double struct union enum
__attribute__ __inline __inline__ __restrict _Noreturn typedef _Thread_local'''.split())


def is_statement(ts):
    return ts[:1] == ['do'] and '{' in ts or ts[:1] == ['{'] or ts[:1] and ts[0] in SPECIFIERS or all(word(t) for t in ts)


def lint_macros(prog, task):
    """function-like macros treat their arguments like functions do"""
    t0 = time.time()
    L = Lint(prog, task)
    defs = {}
    for h in HEADERS:
        for name, params, body, line in macros(os.path.join(ir.REPO, h)):
            defs.setdefault(name, []).append((h, params, body, line))
    for name, (h, params, line, body) in sorted(expansions(defs).items()):
        L.count += 1
        L.functions.append(name)
        L.sites.add('%s:%s' % (h, name))
        L.checked += 1
        if not is_postfix(body) and not is_statement(body):
            report(L, 'macro-precedence', 'the expansion of %s is no closed expression, operators around it take it apart' % name,
                   h, name, line)
        for k, a in enumerate(params or []):
            uses = 0
            for i, t in enumerate(body):
                if t != MARK % k:
                    continue
                before = body[i - 1] if i else ''
                after = body[i + 1] if i + 1 < len(body) else ''
                # inside sizeof/typeof the argument is not evaluated
                quiet = False
                for j in range(i):
                    if body[j] in ('sizeof', 'typeof', '__typeof__', '_Alignof') and body[j + 1:j + 2] == ['(']:
                        e = match(body, j + 1)
                        quiet = quiet or e is not None and e > i
                if not quiet:
                    uses += 1
                L.checked += 1
                if not (before in ('(', ',', '[') and after in (')', ',', ']')):
                    report(L, 'macro-argument', '%s uses its argument %s without parentheses, an argument with operators is taken '
                           'apart' % (name, a), h, name, line)
            if uses == 0:
                report(L, 'macro-argument-dropped', '%s does not use its argument %s' % (name, a), h, name, line)
            elif uses > 1:
                report(L, 'macro-evaluates-twice', '%s evaluates its argument %s %d times' % (name, a, uses), h, name, line)
    return L.result(t0)


def tasks(prog):
    return [dict(name='the public headers are self-contained', group='lint', props={}, extra=['C36'], run=lint_headers),
            dict(name='the public headers declare what is defined', group='lint', props={}, extra=['C36'], run=lint_decls),
            dict(name='macros of the public headers', group='lint', props={}, extra=['C36'], run=lint_macros)]
