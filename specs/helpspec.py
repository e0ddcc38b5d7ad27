"""compare.c and hash.c: the helpers for strings and pointers (C34).

Strings are byte arrays of unknown length whose bytes before the terminator are
not NUL; `e` is the length of the prefix both strings are known to share, `seen`
the length of the prefix a hash function has taken into account."""
import os
import time
from absint import *
from interp import Analyzer, Retry
from base import Spec, BIG
from num import Lin, con, sym, newsym, ZERO, ONE
from lintspec import STATEFUL, Lint, instructions, operands


class HelpSpec(Spec):
    wide_pointers = True

    def __init__(self, prog, entry, case, op, flows=None):
        super().__init__(prog)
        self.entry, self.case, self.op = entry, case, op
        self.flows = flows or set()
        self.plugins = [self]

    # ---- strings
    def string(self, st, name):
        n = newsym('len')
        st.assume_ge(n)
        st.assume_ge(con(BIG) - n)
        st.ghost['l' + name] = n
        return P(st.alloc_oid(Arr(1, n + 1, [(ZERO, n + 1, ('str', name, ZERO))], 'user', 'live', True, 'string')))

    def byte(self, st, name, idx):
        l = st.norm(st.ghost['l' + name])
        idx = st.norm(idx)
        if not st.decide_ge(l - idx - 1):
            return ZERO
        b = st.terms.get(('byte', name, idx))
        if b is None:
            b = newsym('c')
            st.assume_ge(b - 1)
            st.assume_ge(con(255) - b)
            st.terms[('byte', name, idx)] = b
        return st.norm(b)

    def peek_desc(self, st, d, lo, hi, idx, sub, size):
        if d[0] != 'str' or sub != 0:
            return None
        v = ZERO
        for k in range(size):
            l = st.norm(st.ghost['l' + d[1]])
            i = st.norm(idx + d[2] + k)
            if k and st.decide_ge(i - l - 1):
                self.an.violation(st, 'overread', 'a read behind the end of the string', ('help', 'ub'))
            v = v + self.byte(st, d[1], i).scale(1 << (8 * k))
        if self.op == 'hash':
            fr = st.frames[-1]
            if (fr.fn.name, fr.fn.blocks[fr.bi][fr.ii]['id']) in self.flows:
                i = st.norm(idx + d[2])
                s = st.norm(st.ghost['seen'])
                if st.eq(i, s):
                    st.ghost['seen'] = s + size
                elif not st.ge(s - i - 1):
                    st.flags['order'] = True
        return v

    def split_desc(self, st, oid, d, lo, hi, idx, left, right):
        if d[0] == 'str':
            return d, ('cells', ((0, 1, self.byte(st, d[1], idx + d[2])),)), d

    def cut_desc(self, st, oid, d, lo, hi, at):
        if d[0] == 'str':
            return d, d

    def shift_desc(self, st, d, delta):
        if d[0] == 'str':
            return ('str', d[1], st.norm(d[2] - delta))

    def fold(self, st):
        if self.op == 'equal':
            self.advance(st)

    def names(self, st):
        return ('A', 'A') if st.flags.get('same') else ('A', 'B')

    def advance(self, st):
        x, y = self.names(st)
        while True:
            e = st.norm(st.ghost['e'])
            a, b = st.terms.get(('byte', x, e)), st.terms.get(('byte', y, e))
            if a is None or b is None or not st.eq(a, b):
                return
            st.ghost['e'] = st.norm(e + 1)

    def ro_write(self, st, oid, obj, off):
        self.an.violation(st, 'writes-string', 'a helper writes to its argument', ('help', 'ub'))

    def opaque_access(self, st, ptr, size, write):
        self.an.violation(st, 'dereference', 'the pointer is dereferenced', ('help',))

    def ptr_rel(self, st, a, b, pred):
        raise Undecided('ordering of two strings')

    # ---- library functions on strings
    def str_at(self, st, p):
        if isP(p) and not p[2]:
            o = st.heap[p[1]]
            if isinstance(o, Arr) and len(o.runs) == 1 and o.runs[0][2][0] == 'str':
                return o.runs[0][2][1], st.norm(p[3])
        raise Undecided('string function on something else')

    def x_strlen(self, st, args, ins):
        n, i = self.str_at(st, args[0])
        l = st.norm(st.ghost['l' + n])
        if not st.ge(l - i):
            self.an.violation(st, 'overread', 'strlen() behind the end of the string', ('help', 'ub'))
        return st.norm(l - i)

    def diff(self, st):
        """a result that says the strings differ"""
        st.flags['differ'] = True
        r = newsym('rc')
        k = self.choose(st, 'cmpsign')
        if k:
            st.assume_ge(r - 1)
            st.assume_ge(con(255) - r)
        else:
            st.assume_ge(-r - 1)
            st.assume_ge(con(255) + r)
        return r

    def both(self, st, args):
        a, i = self.str_at(st, args[0])
        b, j = self.str_at(st, args[1])
        if {a, b} != set(self.names(st)):
            raise Undecided('comparison of a string with itself')
        e = st.norm(st.ghost['e'])
        if not st.eq(i, e) or not st.eq(j, e):
            raise Undecided('comparison of strings at different positions')
        return st.norm(st.ghost['l' + a]), st.norm(st.ghost['l' + b]), e

    def x_strcmp(self, st, args, ins):
        la, lb, e = self.both(st, args)
        if st.flags.get('same') or self.choose(st, 'cmp') == 0:
            if not st.assume_eq(la - lb):
                raise Stop()
            st.ghost['e'] = la
            return ZERO
        return self.diff(st)

    def x_strncmp(self, st, args, ins):
        la, lb, e = self.both(st, args)
        n = st.u(self.an.num_of(st, args[2]))
        k = 0 if st.flags.get('same') else self.choose(st, 'cmp', 3)
        if k == 1:
            return self.diff(st)
        if k == 0:        # both end within n bytes
            if not (st.assume_eq(la - lb) and st.assume_ge(e + n - la - 1)):
                if st.flags.get('same'):
                    st.ghost['e'] = st.norm(e + n)
                    return ZERO
                raise Stop()
            st.ghost['e'] = la
            return ZERO
        if not (st.assume_ge(la - e - n) and st.assume_ge(lb - e - n)):
            raise Stop()
        st.ghost['e'] = st.norm(e + n)
        return ZERO

    def x_memcmp(self, st, args, ins):
        la, lb, e = self.both(st, args)
        n = st.u(self.an.num_of(st, args[2]))
        if not (st.ge(la + 1 - e - n) and st.ge(lb + 1 - e - n)):
            self.an.violation(st, 'overread', 'memcmp() behind the end of a string', ('help', 'ub'))
        if not st.flags.get('same') and not st.eq(n, ZERO) and self.choose(st, 'cmp') == 1:
            return self.diff(st)
        # equal up to and including a terminator of one string: it ends both
        for l, o in ((la, lb), (lb, la)):
            if st.decide_ge(e + n - l - 1):
                if not st.assume_eq(la - lb):
                    raise Stop()
        if st.ge(e + n - la):
            st.ghost['e'] = la if st.ge(e + n - la - 1) else st.norm(e + n)
        else:
            st.ghost['e'] = st.norm(e + n)
        return ZERO

    # ---- post-conditions
    def finish(self, st, ret):
        an = self.an
        if self.op == 'equal':
            self.advance(st)
            r = self.truth(st, ret)
            x, y = self.names(st)
            if x == y:
                if not r:
                    an.report(st, 'wrong-different', 'a string is said to differ from itself', ('help',))
                return
            la, lb, e = (st.norm(st.ghost[k]) for k in ('l' + x, 'l' + y, 'e'))
            if r:
                if not (st.eq(la, lb) and st.ge(e - la)):
                    an.report(st, 'wrong-equal', 'the strings are said to be equal although they may differ', ('help',))
            else:
                d = st.flags.get('differ') or st.ge(la - lb - 1) or st.ge(lb - la - 1)
                if not d:
                    a, b = st.terms.get(('byte', x, e)), st.terms.get(('byte', y, e))
                    a = ZERO if a is None and st.eq(e, la) else a
                    b = ZERO if b is None and st.eq(e, lb) else b
                    d = a is not None and b is not None and (st.ge(a - b - 1) or st.ge(b - a - 1))
                if not d:
                    # somewhere behind the common prefix
                    ks = {k[2] for k in st.terms if k[0] == 'byte'}
                    for i in ks:
                        a, b = st.terms.get(('byte', x, i)), st.terms.get(('byte', y, i))
                        if a is not None and b is not None and (st.ge(a - b - 1) or st.ge(b - a - 1)):
                            d = True
                if not d:
                    an.report(st, 'wrong-different', 'the strings are said to differ although they may be equal', ('help',))
        elif self.op == 'hash':
            s, l = st.norm(st.ghost['seen']), st.norm(st.ghost['lA'])
            if not st.ge(s - l):
                if st.flags.get('order'):
                    raise Undecided('bytes are hashed in another order')
                an.report(st, 'ignored-bytes', 'bytes of the string do not take part in the hash value', ('help',))
            elif not st.ge(l + 1 - s):
                an.report(st, 'overread', 'bytes behind the string take part in the hash value', ('help',))
        elif self.op == 'ptrequal':
            r = self.truth(st, ret)
            d = st.norm(st.ghost['a'] - st.ghost['b'])
            if r and not st.eq(d, ZERO) or not r and self.feasible(st, lambda s: s.assume_eq(d)):
                an.report(st, 'wrong-equal', 'the answer is not whether the pointers are identical', ('help',))
        elif self.op == 'ptrcompare':
            if not isinstance(ret, Lin):
                raise Undecided('result of the comparison')
            r = st.s(ret, 32)
            d = st.norm(st.ghost['a'] - st.ghost['b'])
            for what, f, g in (('smaller', lambda s: s.assume_ge(-d - 1), lambda s: s.ge(-s.norm(r) - 1)),
                               ('equal', lambda s: s.assume_eq(d), lambda s: s.eq(s.norm(r), ZERO)),
                               ('greater', lambda s: s.assume_ge(d - 1), lambda s: s.ge(s.norm(r) - 1))):
                c = st.copy()
                if f(c) and not g(c):
                    an.report(st, 'wrong-order', 'the result has the wrong sign for a %s pointer' % what, ('help',))

    def feasible(self, st, f):
        c = st.copy()
        return bool(f(c))

    def truth(self, st, ret):
        if isinstance(ret, Lin):
            return not st.decide_eq(ret)
        raise Undecided('result of the comparison')


# ---------------------------------------------- what the hash value depends on

def depends(prog, entry):
    """backward slice of the return value through the library: the instructions
    in it, and leaves that are no function of the argument's bytes"""
    F = prog.data['functions']
    slices = {}         # function -> set of value ids
    leaves = set()
    memo = {}

    def flow(fn):
        """parameters that flow to the return value of fn"""
        if fn in memo:
            return memo[fn]
        memo[fn] = set()
        f = F[fn]
        df = {i['id']: i for _, i in instructions(f)}
        np = len(f['params'])
        used, seen = set(), set()
        todo = [o for _, i in instructions(f) if i['op'] == 'ret' for o in i['ops']]
        while todo:
            o = todo.pop()
            if o[0] != 'v' or o[1] in seen:
                continue
            seen.add(o[1])
            if o[1] < np:
                used.add(o[1])
                continue
            i = df[o[1]]
            if i['op'] == 'load':
                base = root(f, df, i['ops'][0])
                if base[0] == 'local':
                    for _, s in instructions(f):
                        if s['op'] == 'store' and root(f, df, s['ops'][1]) == base:
                            todo.append(s['ops'][0])
                elif base[0] == 'global' and not prog.data['globals'][base[1]]['const']:
                    leaves.add((fn, i.get('line', 0), 'static data %s' % base[1]))
                elif base[0] == '?':
                    todo.append(i['ops'][0])
            elif i['op'] == 'sub' and difference(f, df, i):
                pass
            elif i['op'] == 'call':
                c = i['callee'][1] if i['callee'][0] == 'f' else None
                if c is None:
                    todo.extend(i['ops'])
                elif F[c]['decl']:
                    if c in STATEFUL or c in ('time', 'clock', 'gettimeofday', 'clock_gettime', 'getpid', 'malloc', 'calloc', 'realloc'):
                        leaves.add((fn, i.get('line', 0), 'the result of %s()' % c))
                    elif c == 'strlen':
                        pass
                    else:
                        todo.extend(i['ops'])
                else:
                    for k in flow(c):
                        todo.append(i['ops'][k])
            elif i['op'] == 'alloca':
                leaves.add((fn, i.get('line', 0), 'the address of a local variable'))
            elif i['op'] == 'icmp' and i.get('oty') == 'p':
                pass
            else:
                todo.extend(operands(i))
        slices[fn] = seen
        memo[fn] = used
        return used

    def root(f, df, o):
        seen = set()
        while o[0] == 'v':
            if o[1] < len(f['params']):
                return ('param', o[1])
            if o[1] in seen:
                return ('?',)
            seen.add(o[1])
            i = df[o[1]]
            if i['op'] == 'alloca':
                return ('local', i['id'])
            if i['op'] in ('getelementptr', 'bitcast', 'freeze'):
                o = i['ops'][0]
            elif i['op'] in ('phi', 'select'):
                rs = set()
                for x in (operands(i) if i['op'] == 'phi' else i['ops'][1:]):
                    if x[0] == 'v' and x[1] in seen:
                        continue
                    rs.add(sub(f, df, x, seen))
                return rs.pop() if len(rs) == 1 else ('?',)
            else:
                return ('?',)
        return ('global', o[1]) if o[0] == 'g' else ('?',)

    def sub(f, df, x, seen):
        if x[0] != 'v':
            return ('global', x[1]) if x[0] == 'g' else ('?',)
        if x[1] < len(f['params']):
            return ('param', x[1])
        i = df[x[1]]
        if i['op'] == 'alloca':
            return ('local', i['id'])
        if i['op'] in ('getelementptr', 'bitcast', 'freeze'):
            if i['ops'][0][0] == 'v' and i['ops'][0][1] in seen:
                for y in seen:
                    pass
                return loop(f, df, i['ops'][0], seen)
            return sub(f, df, i['ops'][0], seen)
        if i['op'] in ('phi', 'select'):
            s2 = seen | {x[1]}
            rs = {sub(f, df, y, s2) for y in (operands(i) if i['op'] == 'phi' else i['ops'][1:])
                  if not (y[0] == 'v' and y[1] in s2)}
            rs.discard(('loop',))
            return rs.pop() if len(rs) == 1 else ('?',)
        return ('?',)

    def loop(f, df, o, seen):
        # the pointer of the enclosing phi: its other inputs decide
        i = df[o[1]]
        rs = set()
        for y in operands(i):
            if y[0] == 'v' and y[1] < len(f['params']):
                rs.add(('param', y[1]))
            elif y[0] == 'g':
                rs.add(('global', y[1]))
        return rs.pop() if len(rs) == 1 else ('?',)

    def difference(f, df, i):
        rs = []
        for o in i['ops']:
            if o[0] != 'v' or o[1] not in df or df[o[1]]['op'] != 'ptrtoint':
                return False
            rs.append(root(f, df, df[o[1]]['ops'][0]))
        return rs[0] == rs[1] and rs[0][0] == 'param'

    used = flow(entry)
    return used, slices, leaves


def lint_hash(prog, task):
    t0 = time.time()
    L = Lint(prog, task)
    for fn, address in (('str_hash', False), ('direct_hash', True)):
        prog.fn(fn)
        used, slices, leaves = depends(prog, fn)
        f = L.d['functions'][fn]
        L.functions.extend(slices)
        L.count += sum(len(s) for s in slices.values())
        L.checked += 1
        if used and not address:
            L.report('address-dependent', 'the hash value depends on the address of the string', f, fn, f.get('line', 0), 'C34')
        if not used and address:
            L.report('value-ignored', 'the hash value does not depend on the pointer', f, fn, f.get('line', 0), 'C34')
        for g, line, what in sorted(leaves):
            L.report('impure-hash', 'the hash value depends on %s' % what, L.d['functions'][g], g, line, 'C34')
    return L.result(t0)


PROPS = {'help': ['C34'], 'null': ['C34'], 'oob': ['C34'], 'uaf': ['C34'], 'term': ['C34'], 'oom': ['C30', 'C34'], 'ro': ['C34']}


def tasks(prog):
    out = [dict(name='dependences of the hash functions', group='helpers', props={}, extra=['C34'], run=lint_hash)]

    def add(fn, op, case, build):
        name = '%s[%s]' % (fn, case)

        def start():
            f = prog.fn(fn)
            flows = set()
            if op == 'hash':
                _, sl, _ = depends(prog, fn)
                flows = {(g, v) for g, s in sl.items() for v in s}
            spec = HelpSpec(prog, fn, name, op, flows)
            st = State()
            args = build(spec, st)
            if len(args) != len(f.params):
                raise MissingAPI('signature of %s' % fn)
            st.frames = [Frame(f, {p['id']: a for p, a in zip(f.params, args)})]
            return spec, [st]
        out.append(dict(name=name, group='helpers', props=PROPS, extra=['C34'], start=start, fn=fn))

    def two(spec, st):
        st.ghost['e'] = ZERO
        return [spec.string(st, 'A'), spec.string(st, 'B')]

    def same(spec, st):
        st.ghost['e'] = ZERO
        st.flags['same'] = True
        p = spec.string(st, 'A')
        return [p, p]

    def one(spec, st):
        st.ghost['seen'] = ZERO
        return [spec.string(st, 'A')]

    def ptr(st, n):
        v = newsym(n)
        st.assume_ge(v - 1)
        st.assume_ge(con((1 << 64) - 1) - v)
        st.ghost[n] = v
        return v

    add('str_equal', 'equal', 'two strings', two)
    add('str_equal', 'equal', 'same string', same)
    add('str_hash', 'hash', 'any string', one)
    add('direct_equal', 'ptrequal', 'any pointers', lambda spec, st: [ptr(st, 'a'), ptr(st, 'b')])
    add('direct_compare', 'ptrcompare', 'any pointers', lambda spec, st: [ptr(st, 'a'), ptr(st, 'b')])
    add('direct_hash', 'ptrhash', 'any pointer', lambda spec, st: [ptr(st, 'a')])
    return out
