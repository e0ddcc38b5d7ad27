"""The interpreter: instruction semantics, memory accesses, loop-head joins."""
import sys
import time
from absint import *
from num import Lin, con, sym, fresh, ZERO, ONE, make_store, affine_hull, Store, _tight, reduce_rows

VS = []          # canonical symbols used for the numbers of joined states

VIDX = {}

import progress as _progress


def vs(i):
    while len(VS) <= i:
        VS.append(fresh('v'))
        VIDX[VS[-1]] = len(VS) - 1
    return VS[i]


class Retry(Exception):
    pass


NORETURN = {'abort', 'exit', '_exit', 'err', 'errx', 'verr', '__assert_fail', 'quick_exit', '_Exit'}
DIAG = {'perror', 'fprintf', 'err', 'errx', 'warn', 'warnx', 'fputs', 'puts', 'printf', 'fwrite', 'dprintf', 'vfprintf',
        'psignal', 'syslog', '__assert_fail', 'fputc', 'putchar'}


class Inv:
    __slots__ = ('eqs', 'ineqs', 'n', 'store', 'joins')


class Analyzer:
    def __init__(self, prog, spec, limit=60000, timeout=600):
        self.prog = prog
        self.spec = spec
        spec.an = self
        self.findings = {}
        self.undecided = {}
        self.inv = {}
        self.steps = 0
        self.limit = limit
        self.deadline = time.time() + timeout
        self.stats = dict(states=0, joins=0, heads=0, accesses=0, calls=0, returns=0, splits=0, aborts=0)
        self.functions = set()
        self.sites = set()
        self.plugins = spec.plugins
        self.work = []
        self.base_limit = limit

    # ------------------------------------------------------------- reports
    def loc(self, st):
        if not st.frames:
            return ('', self.spec.entry, 0)
        for f in reversed(st.frames):
            b = f.fn.blocks[f.bi]
            for i in list(range(f.ii, -1, -1)):
                if i < len(b):
                    ln = b[i].get('line', 0)
                    if ln:
                        return (f.fn.file, f.fn.name, ln)
        return (st.frames[-1].fn.file, st.frames[-1].fn.name, st.frames[-1].fn.d.get('line', 0))

    def path(self, st):
        return path_of(st.trace)

    def report(self, st, rule, msg, tags=()):
        if st.taint:
            self.undecide(st, 'after %s: %s: %s' % (st.taint, rule, msg))
            return
        file, func, line = self.loc(st)
        f = Finding(rule, msg, file, func, line, self.path(st), tuple(tags))
        f.entry = self.spec.entry
        f.case = self.spec.case
        f.assumes = bool(st.flags.get('contract'))
        k = f.ident()
        if k not in self.findings or (self.findings[k].assumes and not f.assumes):
            self.findings[k] = f

    def violation(self, st, rule, msg, tags=()):
        self.report(st, rule, msg, tags)
        raise Stop()

    def undecide(self, st, reason):
        file, func, line = self.loc(st)
        self.undecided.setdefault('%s:%s:%s: %s' % (file, func, line, reason), self.path(st))

    # ------------------------------------------------------------- driver
    def run(self, states):
        self.work = list(states)
        self.pend = {}      # heads whose joined state was not continued yet
        self.rank = {}
        self.perctx = {}
        self.started = time.time()
        self.found_at = None
        turn = 0
        while self.work or self.pend:
            if self.work:
                st = self.work.pop()
            else:
                # upstream heads first: what follows sees their final states;
                # when shapes pile up at a head, what follows gets its share
                turn += 1
                far = turn > 24 and turn % (2 if max(self.perctx.values()) > 120 else 6) == 0
                K = (max if far else min)(self.pend, key=self.rank.get)
                st = self.pend.pop(K)
                if self.progress is not None:
                    st.src = K
                    st.waits = False
                    self.progress.edges[K] = []
                    self.progress.node[K] = _progress.measures(st)
            self.steps += 1
            now = time.time()
            if self.findings and not self.found_at:
                # what is found next is of interest, but not at any price
                self.found_at = now
                self.deadline = min(self.deadline, now + max(15, now - self.started))
            if self.steps > self.limit or now > self.deadline:
                self.undecided.setdefault('analysis budget exhausted in %s' % self.spec.entry, [])
                self.work = []
                self.pend = {}
                return
            self.exec(st)

    def exec(self, st):
        try:
            while True:
                if not st.frames:
                    self.finish(st)
                    return
                fr = st.frames[-1]
                ins = fr.fn.blocks[fr.bi][fr.ii]
                try:
                    if not self.step(st, fr, ins):
                        return
                except Retry:
                    self.retry += 1
                    if self.retry > 400:
                        raise Undecided('no progress')
                    continue
                self.retry = 0
        except Split as sp:
            self.stats['splits'] += 1
            self.retry = 0
            for f in reversed(sp.alts):
                s = st.copy()
                try:
                    if f(s) is False:
                        continue
                except Undecided as u:
                    self.undecide(st, str(u))
                    continue
                self.work.append(s)
        except Stop:
            return
        except Undecided as u:
            self.undecide(st, str(u))

    retry = 0
    progress = None

    def finish(self, st):
        while True:
            try:
                self.spec.finish(st, st.flags.get('retval'))
                self.stats['returns'] += 1
                return
            except Retry:
                self.retry += 1
                if self.retry > 400:
                    raise Undecided('no progress')

    # ------------------------------------------------------------- operands
    def val(self, st, fr, o):
        k = o[0]
        if k == 'v':
            return fr.env[o[1]]
        if k == 'c':
            return con(int(o[1]))
        if k == 'n':
            return NULL
        if k == 'u':
            return UNDEF
        if k == 'f':
            return ('F', o[1])
        if k == 'g':
            return ('P', self.global_oid(st, o[1]), '', con(o[2]))
        return JUNK

    def global_oid(self, st, name):
        g = st.flags.get(('g', name))
        if g is not None:
            return g
        d = self.prog.globals[name]
        o = Blk('global', con(d['size']), {}, 'zero' if d.get('zero') else 'uninit', 'global:' + name, 'live',
                None, bool(d.get('const')), name)
        if d.get('ext'):
            o.default = 'extern'
        r = self.spec.global_object(st, name, d)
        if r is not None:
            o = r
        elif 'init' in d and d.get('esz'):
            o.cells = {i * d['esz']: (d['esz'], con(int(v))) for i, v in enumerate(d['init'])}
        oid = -1000 - sorted(self.prog.globals).index(name)
        st.heap[oid] = o
        st.flags[('g', name)] = oid
        return oid

    def num_of(self, st, v, what='operand'):
        if isinstance(v, Lin):
            return st.norm(v)
        if v == NULL:
            return ZERO
        if v == UNDEF:
            self.violation(st, 'uninitialised', 'use of an uninitialised value', ('ub',))
        if v[0] == 'P':
            raise Undecided('integer arithmetic on a pointer')
        if v == JUNK:
            raise Undecided('value lost by the abstraction (%s)' % what)
        raise Undecided('unexpected value %r as number' % (v[0],))

    # ------------------------------------------------------------- stepping
    def goto(self, st, fr, bi):
        old = fr.bi
        fr.prev = old
        blk = fr.fn.blocks[bi]
        new = []
        i = 0
        while i < len(blk) and blk[i]['op'] == 'phi':
            for o, pb in blk[i]['ops']:
                if pb == old:
                    new.append((blk[i]['id'], self.val(st, fr, o)))
                    break
            i += 1
        for k, v in new:
            fr.env[k] = v
        fr.bi = bi
        fr.ii = i
        if bi in fr.fn.heads:
            return self.at_head(st)
        return True

    def step(self, st, fr, ins):
        op = ins['op']
        m = getattr(self, 'i_' + op, None)
        if m is None:
            raise Undecided('unsupported instruction %s' % op)
        return m(st, fr, ins)

    def setv(self, fr, ins, v):
        fr.env[ins['id']] = v
        fr.ii += 1
        return True

    def i_br(self, st, fr, ins):
        s = ins['succ']
        if len(s) == 1:
            return self.goto(st, fr, s[0])
        c = self.val(st, fr, ins['ops'][0])
        if c == UNDEF:
            self.violation(st, 'uninitialised', 'branch depends on an uninitialised value', ('ub',))
        if c == JUNK:
            raise Split([self._force(ins, 0), self._force(ins, 1)])
        c = self.num_of(st, c)
        t = not self.decide_bool(st, c)
        st.note('%s:%s:%d: branch %s' % (fr.fn.file.split('/')[-1], fr.fn.name, ins.get('line', 0), 'false' if t else 'true'))
        return self.goto(st, fr, s[1 if t else 0])

    def _force(self, ins, which):
        def f(s):
            fr = s.frames[-1]
            s.taint = s.taint or None
            o = ins['ops'][0]
            if o[0] == 'v':
                fr.env[o[1]] = con(0 if which else 1)
            return True
        return f

    def decide_bool(self, st, c):
        if c.is_const():
            return c.k != 0
        return not st.decide_eq(c)

    def i_switch(self, st, fr, ins):
        v = self.num_of(st, self.val(st, fr, ins['ops'][0]))
        for c, b in ins['cases']:
            if st.decide_eq(v - int(c)):
                return self.goto(st, fr, b)
        return self.goto(st, fr, ins['succ'][0])

    def i_unreachable(self, st, fr, ins):
        return False

    def i_fence(self, st, fr, ins):
        fr.ii += 1
        return True

    def i_freeze(self, st, fr, ins):
        return self.setv(fr, ins, self.val(st, fr, ins['ops'][0]))

    def i_select(self, st, fr, ins):
        c = self.val(st, fr, ins['ops'][0])
        if c == JUNK:
            raise Split([self._force(ins, 0), self._force(ins, 1)])
        b = self.decide_bool(st, self.num_of(st, c))
        return self.setv(fr, ins, self.val(st, fr, ins['ops'][1 if b else 2]))

    def i_alloca(self, st, fr, ins):
        n = self.val(st, fr, ins['ops'][0])
        n = self.num_of(st, n)
        size = n.scale(ins['esz'])
        if not n.is_const():
            self.spec.dynamic_alloca(st, size, ins)
            o = Arr(ins['esz'], st.u(size), [(ZERO, n, ('uninit',))] , 'stack')
            if st.decide_eq(n):
                o.runs = []
        else:
            o = Blk('stack', size, {}, 'uninit', 'stack')
        oid = st.alloc_oid(o)
        fr.allocas = fr.allocas + (oid,)
        return self.setv(fr, ins, P(oid))

    # casts
    def _bits(self, ty):
        return int(ty[1:]) if ty.startswith('i') else 64

    def i_zext(self, st, fr, ins):
        v = self.val(st, fr, ins['ops'][0])
        if not isinstance(v, Lin) and v != NULL:
            return self.setv(fr, ins, v)
        return self.setv(fr, ins, st.u(self.num_of(st, v), self._bits(ins['oty'])))

    def i_sext(self, st, fr, ins):
        v = self.val(st, fr, ins['ops'][0])
        if not isinstance(v, Lin) and v != NULL:
            return self.setv(fr, ins, v)
        return self.setv(fr, ins, st.s(self.num_of(st, v), self._bits(ins['oty'])))

    def i_trunc(self, st, fr, ins):
        v = self.val(st, fr, ins['ops'][0])
        if not isinstance(v, Lin) and v != NULL:
            if v[0] == 'B':
                return self.setv(fr, ins, v)
            if v in (UNDEF, JUNK):
                return self.setv(fr, ins, v)
            raise Undecided('truncation of a pointer')
        l = self.num_of(st, v)
        w = self._bits(ins['ty'])
        if w == 1:
            l = st.u(l, 8) if self._bits(ins['oty']) == 8 else l
            if l.is_const():
                return self.setv(fr, ins, con(l.k & 1))
            if st.ge(l) and st.ge(con(1) - l):
                return self.setv(fr, ins, con(0 if st.decide_eq(l) else 1))
            raise Undecided('parity of an unknown integer')
        return self.setv(fr, ins, st.window(l, -(1 << (w - 1)), w) if l.is_const() else self._truncv(st, l, w))

    def _truncv(self, st, l, w):
        if st.ge(l) and st.ge(con((1 << w) - 1) - l):
            return l
        b = st.num.lower(l), st.num.lower(-l)
        if b[0] is not None and b[1] is not None and (-b[1] - b[0]) < (1 << (w + 3)):
            return st.u(l, w)
        return st.u(l, w)

    def i_ptrtoint(self, st, fr, ins):
        v = self.val(st, fr, ins['ops'][0])
        return self.setv(fr, ins, v if v != NULL else ZERO)

    def i_inttoptr(self, st, fr, ins):
        v = self.val(st, fr, ins['ops'][0])
        if isinstance(v, Lin) and st.norm(v) == ZERO:
            v = NULL
        return self.setv(fr, ins, v)

    def i_bitcast(self, st, fr, ins):
        return self.setv(fr, ins, self.val(st, fr, ins['ops'][0]))

    def i_getelementptr(self, st, fr, ins):
        if ins.get('bad'):
            raise Undecided('unsupported address computation')
        b = self.val(st, fr, ins['ops'][0])
        off = con(ins['coff'])
        for o, sc in ins['voff']:
            i = self.num_of(st, self.val(st, fr, o), 'index')
            i = st.s(i, 64) if not i.is_const() else i
            off = off + i.scale(sc)
        return self.setv(fr, ins, self.ptradd(st, b, off))

    def ptradd(self, st, b, off):
        off = st.norm(off)
        if off == ZERO:
            return b
        if b == NULL:
            return ('Z', off)
        if isinstance(b, Lin):
            if st.norm(b) == ZERO:
                return ('Z', off)
            raise Undecided('pointer arithmetic on an integer')
        t = b[0]
        if t == 'P':
            return ('P', b[1], b[2], st.norm(b[3] + off))
        if t == 'Z':
            o = st.norm(b[1] + off)
            return NULL if o == ZERO else ('Z', o)
        if t == 'U':
            self.violation(st, 'uninitialised', 'pointer arithmetic on an uninitialised pointer', ('ub',))
        if t in ('O', 'E'):
            return self.spec.opaque_add(st, b, off)
        return b

    # arithmetic
    def _bin(self, st, fr, ins):
        a = self.val(st, fr, ins['ops'][0])
        b = self.val(st, fr, ins['ops'][1])
        return a, b

    def i_add(self, st, fr, ins):
        a, b = self._bin(st, fr, ins)
        if isP(a) or isP(b):
            if isP(b):
                a, b = b, a
            return self.setv(fr, ins, self.ptradd(st, a, self.num_of(st, b)))
        if a == JUNK or b == JUNK:
            return self.setv(fr, ins, JUNK)
        r = self.num_of(st, a) + self.num_of(st, b)
        return self.setv(fr, ins, self.wrapc(st, r, ins))

    def wrapc(self, st, r, ins):
        r = st.norm(r)
        w = self._bits(ins['ty'])
        if r.is_const():
            m = 1 << w
            k = (r.k + (m >> 1)) % m - (m >> 1)
            return con(k)
        return r

    def i_sub(self, st, fr, ins):
        a, b = self._bin(st, fr, ins)
        if isP(a) and isP(b):
            a, b = self.samebase(st, a, b)
            if a is None:
                raise Undecided('difference of pointers into different objects')
            return self.setv(fr, ins, st.norm(a - b))
        if isP(a):
            return self.setv(fr, ins, self.ptradd(st, a, -self.num_of(st, b)))
        if a == JUNK or b == JUNK:
            return self.setv(fr, ins, JUNK)
        r = self.num_of(st, a) - self.num_of(st, b)
        return self.setv(fr, ins, self.wrapc(st, r, ins))

    def samebase(self, st, a, b):
        if a[1] == b[1] and a[2] == b[2]:
            return a[3], b[3]
        return None, None

    def i_mul(self, st, fr, ins):
        a, b = self._bin(st, fr, ins)
        if a == JUNK or b == JUNK:
            return self.setv(fr, ins, JUNK)
        a, b = self.num_of(st, a), self.num_of(st, b)
        if a.is_const():
            a, b = b, a
        if b.is_const():
            return self.setv(fr, ins, self.wrapc(st, a.scale(b.k), ins))
        return self.setv(fr, ins, self.product(st, a, b))

    def product(self, st, a, b):
        """a*b with products of symbols as monomial symbols"""
        a, b = st.norm(a), st.norm(b)
        r = con(a.k * b.k) + Lin(0, a.t).scale(b.k) + Lin(0, b.t).scale(a.k)
        for s1, c1 in a.t:
            for s2, c2 in b.t:
                r = r + self.spec.monomial(st, s1, s2).scale(c1 * c2)
        return st.norm(r)

    def i_shl(self, st, fr, ins):
        a, b = self._bin(st, fr, ins)
        if a == JUNK or b == JUNK:
            return self.setv(fr, ins, JUNK)
        b = self.num_of(st, b)
        if not b.is_const():
            raise Undecided('variable shift')
        if not 0 <= b.k < self._bits(ins['ty']):
            self.violation(st, 'undefined-shift', 'shift amount out of range', ('ub',))
        return self.setv(fr, ins, self.wrapc(st, self.num_of(st, a).scale(1 << b.k), ins))

    def _div(self, st, fr, ins, signed, rem):
        a, b = self._bin(st, fr, ins)
        if a == JUNK or b == JUNK:
            return self.setv(fr, ins, JUNK)
        if isP(a) or isP(b):
            raise Undecided('division of a pointer')
        w = self._bits(ins['ty'])
        view = st.s if signed else st.u
        a, b = view(self.num_of(st, a), w), view(self.num_of(st, b), w)
        if st.decide_eq(b):
            self.violation(st, 'division-by-zero', 'division by zero', ('ub',))
        if a.is_const() and b.is_const():
            q = abs(a.k) // abs(b.k)
            if (a.k < 0) != (b.k < 0):
                q = -q
            return self.setv(fr, ins, con(a.k - q * b.k if rem else q))
        neg = False
        if signed:
            if not st.decide_ge(a):
                a, neg = -a, True
            if not st.decide_ge(b):
                raise Undecided('division by a negative number')
        if not rem and b.is_const():
            # exact division of a multiple
            if all(c % b.k == 0 for _, c in a.t) and a.k % b.k == 0:
                q = Lin(a.k // b.k, tuple((s, c // b.k) for s, c in a.t))
                return self.setv(fr, ins, -q if neg else q)
        q = self.divterm(st, a, b, w)
        if rem:
            r = st.terms.get(('urem', a, b))
            r = st.norm(a - q.scale(b.k)) if r is None else st.norm(r)
        else:
            r = q
        return self.setv(fr, ins, -r if neg else r)

    def divterm(self, st, a, b, w):
        q = st.terms.get(('udiv', a, b))
        if q is None:
            q = newsym('q')
            st.assume_ge(q)
            st.assume_ge(a - q)
            st.terms[('udiv', a, b)] = q
            if b.is_const():
                r = a - q.scale(b.k)
            else:
                r = newsym('r')
                st.terms[('urem', a, b)] = r
                st.assume_ge(a - r)
            st.assume_ge(r)
            st.assume_ge(b - r - 1)
            q = st.norm(q)
            if a.is_const() and len(b.t) == 1 and b.k == 0 and b.t[0][1] == 1:
                # x*b <= a means x <= a/b
                for k, m in list(st.terms.items()):
                    if k[0] == 'mul' and b.t[0][0] in k[1:]:
                        x = sym(k[2] if k[1] == b.t[0][0] else k[1])
                        if st.ge(a - m - b):
                            st.assume_ge(q - x - 1)
                        elif st.ge(a - m):
                            st.assume_ge(q - x)
            if b.t:
                self.spec.new_rem(st, a, b, st.terms[('urem', a, b)])
        return q

    def i_udiv(self, st, fr, ins):
        return self._div(st, fr, ins, False, False)

    def i_sdiv(self, st, fr, ins):
        return self._div(st, fr, ins, True, False)

    def i_urem(self, st, fr, ins):
        return self._div(st, fr, ins, False, True)

    def i_srem(self, st, fr, ins):
        return self._div(st, fr, ins, True, True)

    def i_lshr(self, st, fr, ins):
        a, b = self._bin(st, fr, ins)
        if a == JUNK or b == JUNK:
            return self.setv(fr, ins, JUNK)
        b = self.num_of(st, b)
        if not b.is_const():
            raise Undecided('variable shift')
        a = st.u(self.num_of(st, a), self._bits(ins['ty']))
        if a.is_const():
            return self.setv(fr, ins, con(a.k >> b.k))
        return self.setv(fr, ins, self.divterm(st, a, con(1 << b.k), 64))

    def i_ashr(self, st, fr, ins):
        a, b = self._bin(st, fr, ins)
        if a == JUNK or b == JUNK:
            return self.setv(fr, ins, JUNK)
        b = self.num_of(st, b)
        if not b.is_const():
            raise Undecided('variable shift')
        a = st.s(self.num_of(st, a), self._bits(ins['ty']))
        if a.is_const():
            return self.setv(fr, ins, con(a.k >> b.k))
        if st.decide_ge(a):
            return self.setv(fr, ins, self.divterm(st, a, con(1 << b.k), 64))
        raise Undecided('arithmetic shift of a negative number')

    def _logic(self, st, fr, ins, op):
        a, b = self._bin(st, fr, ins)
        if a == JUNK or b == JUNK:
            return self.setv(fr, ins, JUNK)
        a, b = self.num_of(st, a), self.num_of(st, b)
        w = self._bits(ins['ty'])
        if w == 1 or (self._is01(st, a) and self._is01(st, b)):
            x, y = self.decide_bool(st, a), self.decide_bool(st, b)
            r = {'and': x and y, 'or': x or y, 'xor': x != y}[op]
            return self.setv(fr, ins, con(1 if r else 0))
        if a.is_const() and b.is_const():
            return self.setv(fr, ins, con({'and': a.k & b.k, 'or': a.k | b.k, 'xor': a.k ^ b.k}[op]))
        if a.is_const():
            a, b = b, a
        if b.is_const():
            if op == 'xor' and b.k == -1:
                return self.setv(fr, ins, st.norm(-a - 1))
            if op == 'and' and b.k > 0 and (b.k & (b.k + 1)) == 0:
                au = st.u(a, w)
                q = self.divterm(st, au, con(b.k + 1), w)
                return self.setv(fr, ins, st.norm(au - q.scale(b.k + 1)))
            if b.k == 0:
                return self.setv(fr, ins, ZERO if op == 'and' else a)
        r = st.terms.get((op, a, b))
        if r is None:
            r = newsym(op)
            st.assume_ge(r)
            st.assume_ge(con((1 << w) - 1) - r)
            st.terms[(op, a, b)] = r
        return self.setv(fr, ins, r)

    def _is01(self, st, l):
        return st.ge(l) and st.ge(con(1) - l)

    def i_and(self, st, fr, ins):
        return self._logic(st, fr, ins, 'and')

    def i_or(self, st, fr, ins):
        return self._logic(st, fr, ins, 'or')

    def i_xor(self, st, fr, ins):
        return self._logic(st, fr, ins, 'xor')

    # comparison
    def i_icmp(self, st, fr, ins):
        a = self.val(st, fr, ins['ops'][0])
        b = self.val(st, fr, ins['ops'][1])
        if a == UNDEF or b == UNDEF:
            self.violation(st, 'uninitialised', 'comparison of an uninitialised value', ('ub',))
        pred = ins['pred']
        w = self._bits(ins['oty'])
        r = self.compare(st, a, b, pred, w, ins)
        if r is None:
            return self.setv(fr, ins, JUNK)
        # a value that is known to have left the range of its type goes on as
        # the number it stands for
        for op, v in zip(ins['ops'], (a, b)):
            if isinstance(v, Lin) and v.t and op[0] == 'v' and pred not in ('eq', 'ne'):
                x = (st.s if pred[0] == 's' else st.u)(v, w)
                if x != st.norm(v) and (st.ge(v - (1 << w)) or st.ge(con(-(1 << (w - 1)) - 1) - v)):
                    fr.env[op[1]] = x
        return self.setv(fr, ins, con(1 if r else 0))

    def compare(self, st, a, b, pred, w, ins=None):
        if a == JUNK or b == JUNK:
            return None
        if isinstance(a, Lin) and isinstance(b, Lin) or (isinstance(a, Lin) and b == NULL) or (a == NULL and isinstance(b, Lin)):
            a, b = self.num_of(st, a), self.num_of(st, b)
            if pred in ('eq', 'ne'):
                d = st.norm(a - b)
                if not d.t:
                    r = d.k % (1 << w) == 0
                else:
                    a2, b2 = self._commonview(st, a, b, w)
                    r = st.decide_eq(a2 - b2)
                return r if pred == 'eq' else not r
            view = st.s if pred[0] == 's' else st.u
            a, b = view(a, w), view(b, w)
            p = pred[1:]
            if p == 'lt':
                return st.decide_ge(b - a - 1)
            if p == 'le':
                return st.decide_ge(b - a)
            if p == 'gt':
                return st.decide_ge(a - b - 1)
            return st.decide_ge(a - b)
        # pointers
        r = self.ptr_eq_or_rel(st, a, b, pred)
        return r

    def _commonview(self, st, a, b, w):
        m = 1 << w
        for lo in (0, -(m >> 1)):
            if all(st.ge(x - lo) and st.ge(con(lo + m - 1) - x) for x in (a, b)):
                return a, b
        return st.u(a, w), st.u(b, w)

    def ptr_eq_or_rel(self, st, a, b, pred):
        if a == b and pred in ('eq', 'ne'):
            return pred == 'eq'
        if pred in ('eq', 'ne'):
            if a == NULL or (isinstance(a, Lin) and st.norm(a) == ZERO):
                r = st.isnull(b)
            elif b == NULL or (isinstance(b, Lin) and st.norm(b) == ZERO):
                r = st.isnull(a)
            else:
                r = self.ptr_eq(st, a, b)
                if r is None:
                    return None
            return r if pred == 'eq' else not r
        if isP(a) and isP(b):
            x, y = self.samebase(st, a, b)
            if x is None:
                return self.spec.ptr_rel(st, a, b, pred)
            p = pred[1:]
            d = {'lt': y - x - 1, 'le': y - x, 'gt': x - y - 1, 'ge': x - y}[p]
            return st.decide_ge(d)
        if a == NULL and isP(b):
            return pred[1:] in ('lt', 'le')
        if b == NULL and isP(a):
            return pred[1:] in ('gt', 'ge')
        return self.spec.ptr_rel(st, a, b, pred)

    def ptr_eq(self, st, a, b):
        a, b = st.nv(a), st.nv(b)
        if a == b:
            return True
        if isP(a) and isP(b):
            if a[1] == b[1]:
                if a[2] == b[2]:
                    return st.decide_eq(a[3] - b[3])
                o = st.heap[a[1]]
                if isinstance(o, Seg):
                    if st.eq(o.cnt, ONE):
                        return st.decide_eq(a[3] - b[3])
                    if st.ge(o.cnt - 2):
                        return False
                    raise Split([lambda s: s.assume_eq(o.cnt - 1), lambda s: s.assume_ge(o.cnt - 2)])
                return self.plug('ptr_eq', st, a, b)
            for x in (a, b):
                o = st.heap.get(x[1])
                if o is not None and getattr(o, 'status', '') == 'freed':
                    self.spec.dangling_compare(st, a, b)
            return False
        kinds = {a[0], b[0]}
        if kinds <= {'F', 'CB'}:
            return False
        if 'Z' in kinds and 'P' in kinds:
            return False
        return self.spec.opaque_eq(st, a, b)

    def plug(self, name, *args):
        for p in self.plugins:
            f = getattr(p, name, None)
            if f:
                r = f(*args)
                if r is not None:
                    return r
        return None

    # ------------------------------------------------------------- memory
    def resolve(self, st, ptr, size, write):
        """checks an access of `size` (Lin) bytes and returns (oid, obj, off)"""
        self.stats['accesses'] += 1
        self.sites.add(self.loc(st))
        what = 'write' if write else 'read'
        if ptr == NULL or isinstance(ptr, Lin) or ptr[0] == 'Z':
            tags = ('ub', 'null')
            if st.flags.get('oom'):
                tags = ('oom',)
                self.violation(st, 'unchecked-allocation', '%s through the result of a failed allocation' % what, tags)
            self.violation(st, 'null-dereference', '%s through a null pointer' % what, tags)
        if ptr == UNDEF:
            self.violation(st, 'uninitialised', '%s through an uninitialised pointer' % what, ('ub',))
        if ptr[0] in ('O', 'E'):
            if ('null', st.nv(ptr)) in st.facts and st.facts[('null', st.nv(ptr))]:
                self.violation(st, 'null-dereference', '%s through a null pointer' % what, ('ub', 'null'))
            return self.spec.opaque_access(st, ptr, size, write)
        if ptr[0] != 'P':
            raise Undecided('%s through an unknown pointer' % what)
        _, oid, anchor, off = ptr
        obj = st.heap[oid]
        if anchor:
            self.plug('materialise', st, oid, anchor)
            raise Retry()
        if obj.status == 'freed':
            self.violation(st, 'use-after-free', '%s of %s after it was given back' % (what, self.describe(obj)),
                           ('ub', 'uaf'))
        off = st.norm(off)
        end = off + size
        if not (st.ge(off) and st.ge(obj.size - end)):
            if st.ge(off) and st.ge(end - off) and False:
                pass
            self.report(st, 'out-of-bounds', '%s outside %s' % (what, self.describe(obj)), ('ub', 'oob'))
            if not (st.assume_ge(off) and st.assume_ge(obj.size - end)):
                raise Stop()
        if write and obj.ro:
            self.spec.ro_write(st, oid, obj, off)
        return oid, obj, off

    def describe(self, obj):
        if isinstance(obj, Blk):
            return {'stack': 'a local variable'}.get(obj.kind, 'a %s object' % (obj.label or obj.kind))
        return 'an array%s' % (' (%s)' % obj.label if obj.label else '')

    def i_load(self, st, fr, ins):
        v = self.load(st, self.val(st, fr, ins['ops'][0]), ins['size'], ins['ty'])
        return self.setv(fr, ins, v)

    def load(self, st, ptr, size, ty='i64'):
        oid, obj, off = self.resolve(st, ptr, con(size), False)
        hook = self.spec.on_load(st, oid, obj, off, size)
        v = self.load_obj(st, oid, obj, off, size)
        if isP(v) and v[2]:
            self.plug('loaded', st, v)
        return self.adapt(st, v, ty)

    def adapt(self, st, v, ty):
        if ty == 'p':
            if isinstance(v, Lin):
                v = st.norm(v)
                if v == ZERO:
                    return NULL
                raise Undecided('integer used as a pointer')
        elif v == NULL:
            return ZERO
        return v

    def load_obj(self, st, oid, obj, off, size):
        if isinstance(obj, Blk):
            if not off.is_const():
                obj = self.to_array(st, oid, size)
            else:
                c = obj.cells.get(off.k)
                if c and c[0] == size:
                    return c[1]
                return self.load_partial(st, obj.cells, obj.default, off.k, size)
        if isinstance(obj, Arr):
            return self.arr_load(st, oid, obj, off, size)
        return self.plug('load_obj', st, oid, obj, off, size)

    def load_partial(self, st, cells, default, off, size):
        over = [(o, s, v) for o, (s, v) in cells.items() if o < off + size and off < o + s]
        if not over:
            if default == 'zero':
                return ZERO
            if default == 'uninit':
                return UNDEF
            return JUNK
        covered = sum(min(o + s, off + size) - max(o, off) for o, s, v in over)
        if all((v == NULL or (isinstance(v, Lin) and st.norm(v) == ZERO)) for _, _, v in over) and \
                (covered == size or default == 'zero'):
            return ZERO
        if any(v == UNDEF for _, _, v in over) or (covered < size and default == 'uninit'):
            return UNDEF
        return JUNK

    def i_store(self, st, fr, ins):
        v = self.val(st, fr, ins['ops'][0])
        p = self.val(st, fr, ins['ops'][1])
        self.store(st, p, ins['size'], v)
        fr.ii += 1
        return True

    def store(self, st, ptr, size, v):
        if isinstance(ptr, tuple) and ptr[0] == 'P' and not ptr[2]:
            obj = st.heap[ptr[1]]
            if obj.ro and obj.status == 'live' and isinstance(obj, Blk):
                off = st.norm(ptr[3])
                if off.is_const() and off.k in obj.cells and obj.cells[off.k][0] == size and \
                        st.nv(obj.cells[off.k][1]) == st.nv(v):
                    return          # writes the value that is already there
        oid, obj, off = self.resolve(st, ptr, con(size), True)
        self.spec.on_store(st, oid, obj, off, size, v)
        obj = st.heap[oid]
        if isinstance(obj, Blk):
            if not off.is_const():
                obj = self.to_array(st, oid, size)
            else:
                o = off.k
                cells = dict(obj.cells)
                for q in list(cells):
                    if q < o + size and o < q + cells[q][0]:
                        if (q, cells[q][0]) != (o, size):
                            cells = self.split_cell(st, obj, cells, q, o, size)
                        else:
                            del cells[q]
                cells[o] = (size, v)
                st.heap[oid] = obj.copy(cells=cells)
                return
        if isinstance(obj, Arr):
            return self.arr_store(st, oid, obj, off, size, v)
        self.plug('store_obj', st, oid, obj, off, size, v)

    def split_cell(self, st, obj, cells, q, o, size):
        s, v = cells.pop(q)
        zero = v == NULL or (isinstance(v, Lin) and st.norm(v) == ZERO)
        for b in range(q, q + s):
            if not (o <= b < o + size):
                cells[b] = (1, ZERO if zero else (UNDEF if v == UNDEF else JUNK))
        return cells

    # ---- dynamic arrays
    def to_array(self, st, oid, stride):
        o = st.heap[oid]
        if not o.size.is_const():
            raise Undecided('symbolic index into an object of unknown layout')
        runs = []
        pos = 0
        n = o.size.k // stride
        d = {'zero': ('zero',), 'uninit': ('uninit',)}.get(o.default, ('junk',))
        for off in sorted(o.cells):
            s, v = o.cells[off]
            if s != stride or off % stride:
                raise Undecided('array access to a structure')
            i = off // stride
            if i > pos:
                runs.append((con(pos), con(i), d))
            runs.append((con(i), con(i + 1), ('cells', ((0, s, v),))))
            pos = i + 1
        if pos < n:
            runs.append((con(pos), con(n), d))
        a = Arr(stride, o.size, runs, o.origin, o.status, o.ro, o.label)
        st.heap[oid] = a
        return a

    def elem_index(self, st, arr, off):
        """(index Lin, sub-offset)"""
        off = st.norm(off)
        sub = off.k % arr.stride
        l = off - sub
        if any(c % arr.stride for _, c in l.t):
            raise Undecided('array offset that is not a multiple of the element size')
        return Lin(l.k // arr.stride, tuple((s, c // arr.stride) for s, c in l.t)), sub

    def find_run(self, st, arr, idx):
        for i, (lo, hi, d) in enumerate(arr.runs):
            if st.decide_ge(hi - idx - 1):
                if i == 0 or True:
                    return i
        raise Undecided('array index outside the modelled runs')

    def isolate(self, st, oid, idx):
        """make element idx an explicit one-element run; returns its run index"""
        arr = st.heap[oid]
        i = self.find_run(st, arr, idx)
        lo, hi, d = arr.runs[i]
        if d[0] == 'cells':
            return i
        left = st.decide_ge(idx - lo - 1)
        right = st.decide_ge(hi - idx - 2)
        return self.explode(st, oid, i, idx, left, right)

    def explode(self, st, oid, i, idx, left, right):
        arr = st.heap[oid]
        lo, hi, d = arr.runs[i]
        dl, dm, dr = self.split_desc(st, oid, d, lo, hi, idx, left, right)
        arr = st.heap[oid]
        new = []
        if left:
            new.append((lo, idx, dl))
        pos = len(new)
        new.append((idx, idx + 1, dm))
        if right:
            new.append((idx + 1, hi, dr))
        runs = list(arr.runs)
        runs[i:i + 1] = new
        st.heap[oid] = arr.copy(runs=runs)
        return i + pos

    def split_desc(self, st, oid, d, lo, hi, idx, left, right):
        k = d[0]
        stride = st.heap[oid].stride
        if k == 'zero':
            return d, ('cells', ()) if False else ('cells', tuple((o, 8 if stride % 8 == 0 else 1, ZERO) for o in range(0, stride, 8 if stride % 8 == 0 else 1))), d
        if k == 'uninit':
            return d, ('cells', ()), d
        if k == 'junk':
            return d, ('cells', ((0, stride, JUNK),)), d
        r = self.plug('split_desc', st, oid, d, lo, hi, idx, left, right)
        if r is None:
            raise Undecided('array class %s' % k)
        return r

    def restride(self, st, oid, arr, size):
        """a block of untyped memory becomes an array of `size` byte elements"""
        if arr.stride >= size or not all(d[0] in ('uninit', 'zero', 'junk') for _, _, d in arr.runs):
            return arr
        k = size // arr.stride
        runs = []
        for lo, hi, d in arr.runs:
            lo, hi = st.norm(lo), st.norm(hi)
            for l in (lo, hi):
                if (l.k % k or any(c % k for _, c in l.t)) and len(arr.runs) > 1:
                    raise Undecided('array of elements whose size does not divide the block')
            f = lambda l: self.divterm(st, l, con(k), 64) if l.k % k or any(c % k for _, c in l.t) else \
                Lin(l.k // k, tuple((s, c // k) for s, c in l.t))
            runs.append((f(lo), f(hi), d))
        arr = arr.copy(stride=size, runs=runs)
        st.heap[oid] = arr
        return arr

    def arr_load(self, st, oid, arr, off, size):
        arr = self.restride(st, oid, arr, size)
        idx, sub = self.elem_index(st, arr, off)
        i = self.find_run(st, arr, idx)
        lo, hi, d = arr.runs[i]
        v = self.plug('peek_desc', st, d, lo, hi, idx, sub, size)
        if v is not None:
            return v
        if size > arr.stride or sub + size > arr.stride:
            raise Undecided('access wider than the array element')
        i = self.isolate(st, oid, idx)
        d = st.heap[oid].runs[i][2]
        cells = {o: (s, v) for o, s, v in d[1]}
        c = cells.get(sub)
        if c and c[0] == size:
            return c[1]
        return self.load_partial(st, cells, 'uninit', sub, size)

    def arr_store(self, st, oid, arr, off, size, v):
        arr = self.restride(st, oid, arr, size)
        idx, sub = self.elem_index(st, arr, off)
        if sub + size > arr.stride:
            raise Undecided('access wider than the array element')
        i = self.isolate(st, oid, idx)
        arr = st.heap[oid]
        lo, hi, d = arr.runs[i]
        cells = {o: (s, x) for o, s, x in d[1]}
        for q in list(cells):
            s, x = cells[q]
            if q < sub + size and sub < q + s and (q, s) != (sub, size):
                del cells[q]
                zero = x == NULL or (isinstance(x, Lin) and st.norm(x) == ZERO)
                for b in range(q, q + s):
                    if not (sub <= b < sub + size):
                        cells[b] = (1, ZERO if zero else (UNDEF if x == UNDEF else JUNK))
        cells[sub] = (size, v)
        runs = list(arr.runs)
        runs[i] = (lo, hi, ('cells', tuple((o, cells[o][0], cells[o][1]) for o in sorted(cells))))
        st.heap[oid] = arr.copy(runs=runs)

    # ------------------------------------------------------------- calls
    def i_call(self, st, fr, ins):
        callee = ins['callee']
        if callee[0] == 'f':
            name = callee[1]
        else:
            v = self.val(st, fr, callee)
            if v == NULL or v[0] == 'Z' or isinstance(v, Lin):
                self.violation(st, 'null-call', 'call through a null function pointer', ('ub',))
            if v == UNDEF:
                self.violation(st, 'uninitialised', 'call through an uninitialised function pointer', ('ub',))
            if v[0] == 'CB':
                args = [self.val(st, fr, o) for o in ins['ops']]
                self.stats['calls'] += 1
                r = self.spec.callback(st, v[1], args, ins)
                self.spec.clear_choices(st)
                fr.ii += 1
                if ins['ty'] != 'void':
                    fr.env[ins['id']] = r
                return True
            if v[0] == 'F':
                name = v[1]
            elif v == JUNK:
                raise Undecided('call through an unknown function pointer')
            else:
                self.violation(st, 'bad-call', 'call through a pointer that is not a function', ('ub',))
        if name.startswith('llvm.'):
            return self.intrinsic(st, fr, ins, name)
        args = [self.val(st, fr, o) for o in ins['ops']]
        h = self.spec.extern(name)
        if h is not None:
            r = h(st, args, ins)
            if r == 'noreturn':
                raise Stop()
            self.spec.clear_choices(st)
            fr.ii += 1
            if ins['ty'] != 'void':
                fr.env[ins['id']] = r
            return True
        fn = self.prog.fns.get(name)
        if fn is None:
            raise Undecided('call of unknown external function %s' % name)
        return self.enter(st, fr, ins, fn, args)

    def enter(self, st, fr, ins, fn, args):
        self.functions.add(fn.name)
        on_stack = [i for i, f in enumerate(st.frames) if f.fn is fn]
        if on_stack:
            if self.tail_position(fr, ins):
                # tail call inside a recursive cycle: replace the frames
                first = on_stack[-1]
                ok = all(self.tail_position(f, f.fn.blocks[f.bi][f.ii]) for f in st.frames[first + 1:]) and \
                    not any(f.allocas for f in st.frames[first:])
                if ok:
                    f0 = st.frames[first]
                    del st.frames[first + 1:]
                    nf = Frame(fn, {p['id']: a for p, a in zip(fn.params, args)})
                    st.frames[first] = nf
                    if not self.at_head(st):
                        return False
                    return True
            r = self.spec.recursive_call(st, fr, ins, fn, args)
            if r is not None:
                fr.ii += 1
                if ins['ty'] != 'void':
                    fr.env[ins['id']] = r[0]
                return True
            if len(on_stack) > 3:
                raise Undecided('recursion of %s' % fn.name)
        nf = Frame(fn, {p['id']: a for p, a in zip(fn.params, args)})
        st.frames.append(nf)
        if len(st.frames) > 40:
            raise Undecided('call depth')
        if fn.name in self.recursive_heads():
            return self.at_head(st)
        return True

    _rech = None

    def recursive_heads(self):
        """functions that call each other in a cycle: the targets of the back
        edges of a depth-first walk from the cycle's entries are join points
        (every cycle of calls contains one)"""
        if self._rech is None:
            calls = {}
            for n, f in self.prog.fns.items():
                calls[n] = sorted({i['callee'][1] for b in f.blocks for i in b
                                   if i['op'] == 'call' and i['callee'][0] == 'f'} & set(self.prog.fns))
            reach = {}
            for n in calls:
                seen = set()
                todo = list(calls[n])
                while todo:
                    x = todo.pop()
                    if x not in seen:
                        seen.add(x)
                        todo.extend(calls[x])
                reach[n] = seen
            rec = self._rec = {n for n in calls if n in reach[n]}
            heads = set()
            colour = {}

            def dfs(n, scc):
                colour[n] = 1
                for m in calls[n]:
                    if m in scc:
                        if colour.get(m) == 1:
                            heads.add(m)
                        elif m not in colour:
                            dfs(m, scc)
                colour[n] = 2
            for n in sorted(rec):
                if n in colour:
                    continue
                scc = {m for m in reach[n] if n in reach[m]}
                entries = sorted(m for m in scc if any(m in cs and c not in scc for c, cs in calls.items()))
                for e in entries + sorted(scc):
                    if e not in colour:
                        dfs(e, scc)
            self._rech = heads
        return self._rech

    def recursive(self):
        self.recursive_heads()
        return self._rec

    def tail_position(self, fr, ins):
        """nothing but a return of the call's value follows"""
        fn = fr.fn
        bi, ii = fr.bi, fr.ii + 1
        vals = {ins['id']}
        prev = bi
        for _ in range(20):
            b = fn.blocks[bi]
            while ii < len(b):
                i = b[ii]
                if i['op'] == 'ret':
                    return not i['ops'] or (i['ops'][0][0] == 'v' and i['ops'][0][1] in vals)
                if i['op'] == 'br' and len(i['succ']) == 1:
                    break
                if i['op'] == 'phi':
                    for o, pb in i['ops']:
                        if pb == prev and o[0] == 'v' and o[1] in vals:
                            vals.add(i['id'])
                    ii += 1
                    continue
                return False
            else:
                return False
            prev = bi
            bi = b[ii]['succ'][0]
            ii = 0
        return False

    def i_ret(self, st, fr, ins):
        v = self.val(st, fr, ins['ops'][0]) if ins['ops'] else None
        for oid in fr.allocas:
            o = st.heap.get(oid)
            if o is not None:
                st.heap[oid] = o.copy(status='freed')
        if fr.onret:
            r = self.spec.on_return(st, fr, v)
            if r == 'end':
                raise Stop()
        if len(st.frames) == 1:
            st.flags['retval'] = v
            st.frames.pop()
            return True
        st.frames.pop()
        cf = st.frames[-1]
        ci = cf.fn.blocks[cf.bi][cf.ii]
        if ci['ty'] != 'void':
            cf.env[ci['id']] = v
        cf.ii += 1
        if self.spec.join_on_return and fr.fn.name in self.recursive() and cf.fn.name not in self.recursive():
            self.spec.on_cycle_return(st, fr)
            return self.at_head(st)
        return True

    def intrinsic(self, st, fr, ins, name):
        base = name.split('.')[1]
        args = [self.val(st, fr, o) for o in ins['ops']]
        if base in ('memset',):
            self.memset(st, args[0], args[1], self.num_of(st, args[2]))
        elif base in ('memcpy', 'memmove'):
            self.memcopy(st, args[0], args[1], self.num_of(st, args[2]), base == 'memmove')
        elif base in ('lifetime', 'dbg', 'assume', 'stackrestore', 'donothing', 'experimental'):
            pass
        elif base == 'stacksave':
            fr.env[ins['id']] = NULL
        elif base == 'objectsize':
            fr.env[ins['id']] = con(-1)
        elif base in ('umin', 'umax', 'smin', 'smax'):
            a, b = self.num_of(st, args[0]), self.num_of(st, args[1])
            w = self._bits(ins['ty'])
            view = st.s if base[0] == 's' else st.u
            a, b = view(a, w), view(b, w)
            le = st.decide_ge(b - a)
            fr.env[ins['id']] = (a if le else b) if base.endswith('min') else (b if le else a)
        elif base == 'abs':
            a = st.s(self.num_of(st, args[0]), self._bits(ins['ty']))
            fr.env[ins['id']] = a if st.decide_ge(a) else -a
        elif base in ('expect',):
            fr.env[ins['id']] = args[0]
        elif base == 'trap':
            raise Stop()
        elif base in ('umul', 'uadd', 'usub'):
            a, b = self.num_of(st, args[0]), self.num_of(st, args[1])
            w = self._bits(ins['atys'][0])
            a, b = st.u(a, w), st.u(b, w)
            r = a + b if base == 'uadd' else a - b if base == 'usub' else (
                b.scale(a.k) if a.is_const() else a.scale(b.k) if b.is_const() else self.product(st, a, b))
            if base == 'usub':
                ov = not st.decide_ge(r)
            else:
                ov = not st.decide_ge(con((1 << w) - 1) - r)
            fr.env[ins['id']] = ('AGG', r, con(1 if ov else 0))
        else:
            raise Undecided('intrinsic %s' % name)
        fr.ii += 1
        return True

    def i_extractvalue(self, st, fr, ins):
        v = self.val(st, fr, ins['ops'][0])
        if isinstance(v, tuple) and v and v[0] == 'AGG' and len(ins['idx']) == 1:
            return self.setv(fr, ins, v[1 + ins['idx'][0]])
        raise Undecided('aggregate value')

    # ---- block operations
    def memset(self, st, p, byte, n):
        n = st.u(n)
        if st.decide_eq(n):
            return
        oid, obj, off = self.resolve(st, p, n, True)
        self.spec.on_blockwrite(st, oid, obj, off, n)
        zero = isinstance(byte, Lin) and st.norm(byte) == ZERO
        if isinstance(obj, Blk):
            if off.is_const() and n.is_const():
                lo, hi = off.k, off.k + n.k
                cells = dict(obj.cells)
                for q in list(cells):
                    if q < hi and lo < q + cells[q][0]:
                        if lo <= q and q + cells[q][0] <= hi:
                            del cells[q]
                        else:
                            cells = self.split_cell(st, obj, cells, q, lo, hi - lo)
                if lo == 0 and obj.size == con(hi):
                    st.heap[oid] = obj.copy(cells=cells, default='zero' if zero else 'junk')
                    return
                step = 8 if lo % 8 == 0 and (hi - lo) % 8 == 0 else 1
                if (hi - lo) // step > 4096:
                    raise Undecided('large memset')
                for q in range(lo, hi, step):
                    cells[q] = (step, ZERO if zero else JUNK)
                st.heap[oid] = obj.copy(cells=cells)
                return
            obj = self.to_array(st, oid, 8)
        if isinstance(obj, Arr):
            lo, sub = self.elem_index(st, obj, off)
            hi, sub2 = self.elem_index(st, obj, off + n)
            if sub or sub2:
                raise Undecided('memset of part of an array element')
            self.replace_range(st, oid, lo, hi, [(lo, hi, ('zero',) if zero else ('junk',))])
            return
        raise Undecided('memset of a summarised object')

    def cut(self, st, oid, at):
        """make `at` a run boundary; returns index of first run starting there"""
        arr = st.heap[oid]
        if not arr.runs:
            return 0
        for i, (lo, hi, d) in enumerate(arr.runs):
            if st.decide_eq(at - lo):
                return i
            if st.decide_ge(hi - at - 1):
                # strictly inside (lo, hi)
                if d[0] == 'cells':
                    raise Undecided('cut inside an element')
                r = self.cut_desc(st, oid, d, lo, hi, at)
                arr = st.heap[oid]
                runs = list(arr.runs)
                runs[i:i + 1] = [(lo, at, r[0]), (at, hi, r[1])]
                st.heap[oid] = arr.copy(runs=runs)
                return i + 1
        return len(arr.runs)

    def cut_desc(self, st, oid, d, lo, hi, at):
        if d[0] in ('zero', 'uninit', 'junk'):
            return d, d
        r = self.plug('cut_desc', st, oid, d, lo, hi, at)
        if r is None:
            raise Undecided('cut of array class %s' % d[0])
        return r

    def replace_range(self, st, oid, lo, hi, new):
        i = self.cut(st, oid, lo)
        j = self.cut(st, oid, hi)
        arr = st.heap[oid]
        runs = list(arr.runs)
        gone = runs[i:j]
        runs[i:j] = new
        st.heap[oid] = arr.copy(runs=runs)
        return gone

    def shift_desc(self, st, d, delta):
        if d[0] in ('zero', 'uninit', 'junk', 'cells'):
            return d
        r = self.plug('shift_desc', st, d, delta)
        if r is None:
            raise Undecided('copy of array class %s' % d[0])
        return r

    def memcopy(self, st, dst, src, n, move):
        n = st.u(n)
        if st.decide_eq(n):
            return
        so, sobj, soff = self.resolve(st, src, n, False)
        do, dobj, doff = self.resolve(st, dst, n, True)
        self.spec.on_blockwrite(st, do, dobj, doff, n)
        if so == do and not move:
            if not (st.ge(soff - doff - n) or st.ge(doff - soff - n)):
                self.report(st, 'overlapping-copy', 'memcpy between overlapping regions', ('ub', 'oob', 'overlap'))
        if isinstance(sobj, Blk) and isinstance(dobj, Blk) and soff.is_const() and doff.is_const() and n.is_const():
            cells = dict(dobj.cells)
            lo, hi = doff.k, doff.k + n.k
            for q in list(cells):
                if q < hi and lo < q + cells[q][0]:
                    if lo <= q and q + cells[q][0] <= hi:
                        del cells[q]
                    else:
                        cells = self.split_cell(st, dobj, cells, q, lo, hi - lo)
            done = set()
            for q, (s, v) in sobj.cells.items():
                if soff.k <= q and q + s <= soff.k + n.k:
                    cells[q - soff.k + lo] = (s, v)
                    done.update(range(q - soff.k, q - soff.k + s))
                elif q < soff.k + n.k and soff.k < q + s:
                    raise Undecided('copy of part of a field')
            if sobj.default != dobj.default:
                dv = {'zero': ZERO, 'uninit': UNDEF}.get(sobj.default, JUNK)
                for b in range(n.k):
                    if b not in done:
                        cells[lo + b] = (1, dv)
            st.heap[do] = dobj.copy(cells=cells)
            return
        stride = None
        for o in (sobj, dobj):
            if isinstance(o, Arr):
                stride = o.stride
        if stride is None:
            stride = 8
        if isinstance(sobj, Blk):
            sobj = self.to_array(st, so, stride)
        if isinstance(dobj, Blk):
            dobj = self.to_array(st, do, stride)
        if not isinstance(sobj, Arr) or not isinstance(dobj, Arr) or sobj.stride != dobj.stride:
            raise Undecided('copy between different kinds of memory')
        slo, s1 = self.elem_index(st, sobj, soff)
        shi, s2 = self.elem_index(st, sobj, soff + n)
        dlo, s3 = self.elem_index(st, dobj, doff)
        if s1 or s2 or s3:
            raise Undecided('copy that is not aligned to elements')
        i = self.cut(st, so, slo)
        j = self.cut(st, so, shi)
        i = self.cut(st, so, slo)
        delta = dlo - slo
        part = [(st.norm(lo + delta), st.norm(hi + delta), self.shift_desc(st, d, delta)) for lo, hi, d in st.heap[so].runs[i:j]]
        self.replace_range(st, do, dlo, dlo + (shi - slo), part)

    # ------------------------------------------------------------- heads
    def at_head(self, st):
        """canonicalise, join with what is known here; returns False when the
        state is already covered"""
        self.stats['heads'] += 1
        for _ in range(50):
            try:
                self.prune(st)
                self.spec.collect(st)
                for p in self.plugins:
                    p.fold(st)
                self.spec.collect(st)
                break
            except Retry:
                continue
        key, vec, new = self.canon(st)
        ctx = tuple((f.fn.name, f.bi, f.ii) for f in st.frames)
        K = (self.spec.case, ctx, key)
        inv = self.inv.get(K)
        if self.progress is not None and st.src is not None and not st.waits:
            self.progress.edge(st.src, K, st.num, _progress.measures(st), vec,
                               None if st.taint else (self.loc(st), st.trace))
        if inv is not None and self.covered(new.num, vec, inv):
            return False
        cons = self.project(new, vec)
        if cons is None:
            return False
        if inv is None:
            inv = Inv()
            inv.n = len(vec)
            inv.eqs, inv.ineqs = cons
            inv.joins = 0
            inv.store = make_store(inv.eqs, inv.ineqs)
            self.inv[K] = inv
            if inv.store is None:
                return False
        else:
            store = make_store(*cons)
            if store is None:
                return False
            if all(store.entails_eq(e) for e in inv.eqs) and all(store.entails_ge(i) for i in inv.ineqs):
                return False
            inv.joins += 1
            self.stats['joins'] += 1
            if inv.joins > 60:
                raise Undecided('no fixpoint at a loop head')
            new.num = inv.store
            inv.eqs, inv.ineqs = self.join(inv, store, cons, len(vec), self.spec.hints(new))
            inv.store = make_store(inv.eqs, inv.ineqs)
        self.stats['states'] += 1
        new.num = inv.store
        new.renorm()
        st.__dict__.update(new.__dict__)
        self.spec.head_facts(st)
        if K not in self.rank:
            c = self.rank.setdefault(ctx, len(self.rank))
            self.perctx[ctx] = self.perctx.get(ctx, 0) + 1
            self.rank[K] = (c, len(self.rank))
        self.pend[K] = st
        return False

    def covered(self, num, vec, inv):
        """what holds at the head follows from the store of the state as it is"""
        for ls, f in ((inv.eqs, num.entails_eq), (inv.ineqs, num.entails_ge)):
            for l in ls:
                x = con(l.k)
                for v, c in l.t:
                    x = x + vec[VIDX[v]].scale(c)
                if not f(x):
                    return False
        return True

    def project(self, new, vec):
        """constraints of the state over the canonical symbols"""
        s = new.num
        n = len(vec)
        ws = [fresh('w') for _ in range(n)]
        for w, e in zip(ws, vec):
            s = s.add_eq(sym(w) - e)
            if s is None:
                return None
        eqs, ineqs = s.project(ws)
        back = {w: vs(i) for i, w in enumerate(ws)}
        eqs = [Lin(l.k, tuple(sorted((back[a], c) for a, c in l.t))) for l in eqs]
        ineqs = [Lin(l.k, tuple(sorted((back[a], c) for a, c in l.t))) for l in ineqs]
        if any(not i.t and i.k < 0 for i in ineqs):
            return None
        # drop redundant inequalities (keeps the joined systems small)
        base = make_store(eqs, ineqs)
        if base is None:
            return None
        eqs = [sym(x) - e for x, e in base.eqs.items()]
        items = sorted(base.ineqs.items(), key=lambda x: (-len(x[0]), -sum(abs(c) for _, c in x[0])))
        return eqs, [Lin(k, t) for t, k in reduce_rows(items)]

    def join(self, inv, store, cons, n, hints=()):
        V = [vs(i) for i in range(n)]
        A, B = inv.store, store
        eqs = affine_hull(inv.eqs, cons[0], V) if n else []
        forms = {}
        def cand(t):
            forms.setdefault(t, None)
        late = inv.joins > 12
        for S in ((A,) if late else (A, B)):
            for t in S.ineqs:
                cand(t)
        for es in ((inv.eqs,) if late else (inv.eqs, cons[0])):
            for e in es:
                t, _ = _tight(e.t, 0)
                cand(t)
                cand(tuple((s, -c) for s, c in t))
        for v in V if not late else ():
            cand(((v, 1),))
            cand(((v, -1),))
        if not late:
            # differences of numbers that are not tied by equations
            E = make_store(eqs, [])
            free = [v for v in V if E is None or E.norm(sym(v)) == sym(v)]
            if len(free) <= 14:
                for i, v in enumerate(free):
                    for w in free[i + 1:]:
                        a, b = (v, w) if v < w else (w, v)
                        cand(((a, 1), (b, -1)))
                        cand(((a, -1), (b, 1)))
        J = make_store(eqs, [])
        if J is not None and inv.joins <= 4:
            # the same inequality of one side reads differently once the
            # equations only that side has are used
            for S, es in ((A, inv.eqs), (B, cons[0])):
                extra = []
                for e in es:
                    x = J.norm(e)
                    if x.t and x not in extra:
                        extra.append(x)
                for t in S.ineqs if len(extra) <= 4 else ():
                    x = J.norm(Lin(0, t))
                    if x.t:
                        cand(_tight(x.t, 0)[0])
                    d = dict(x.t)
                    for e in extra:
                        for v, c in e.t:
                            k = d.get(v)
                            if k is not None and k % c == 0:
                                y = x - e.scale(k // c)
                                if y.t and len(y.t) <= 5:
                                    cand(_tight(y.t, 0)[0])
            # bounds that moved together with a number known on both sides
            moved = []
            for v in V:
                a, b = A.norm(sym(v)), B.norm(sym(v))
                if not a.t and not b.t and a.k != b.k and J.norm(sym(v)) == sym(v):
                    moved.append((v, a.k, b.k))
            for t, k in A.ineqs.items() if moved else ():
                kb = B.ineqs.get(t)
                if kb is not None and kb != k:
                    for v, a, b in moved:
                        if (kb - k) % (a - b) == 0:
                            y = Lin(0, t) - sym(v).scale((kb - k) // (a - b))
                            cand(y.t)
        out = []
        for c in hints:
            # relations the summaries rely on are kept whenever both sides have them
            if J is not None and A.entails_ge(c) and B.entails_ge(c) and not J.entails_ge(c):
                J2 = J.add_ge(c)
                if J2 is not None:
                    J = J2
        wid = inv.joins > 3
        for t in sorted(forms, key=lambda x: (len(x), x)):
            l = Lin(0, t)
            a = A.lower(l)
            if a is None:
                continue
            b = B.lower(l)
            if b is None:
                continue
            m = min(a, b)
            if wid and b < a:
                m = None
                for th in (1, 0, -1):
                    if th <= a and th <= b:
                        m = th
                        break
                if m is None or inv.joins > 8 and a <= 1:
                    m = None
                    if len(t) == 1 and abs(t[0][1]) == 1:
                        # the range of the type is worth keeping
                        for th in (0, 1 - (1 << 63), 1 - (1 << 64)):
                            if th <= a and th <= b:
                                m = th
                                break
                    if m is None:
                        continue
            c = l - m
            if J is not None and J.entails_ge(c):
                continue
            J2 = J.add_ge(c) if J is not None else None
            if J2 is None:
                continue
            J = J2
            out.append(c)
        return [sym(x) - e for x, e in J.eqs.items()], [Lin(k, t) for t, k in J.ineqs.items()]

    def prune(self, st):
        for i, f in enumerate(st.frames):
            live = f.fn.live_at(f.bi, f.ii if i == len(st.frames) - 1 else f.ii)
            if i < len(st.frames) - 1:
                # the call instruction itself is still pending: its operands are
                # dead, its result is not there yet
                live = f.fn.live_at(f.bi, f.ii + 1)
            for k in [k for k in f.env if k not in live]:
                del f.env[k]

    def canon(self, st):
        """-> (key, vector of Lin, rebuilt state)"""
        vec = []
        omap = {}
        order = []
        seen_vals = {}
        norm = st.num.norm
        frozen = self.spec.frozen_consts

        def r(v):
            if isinstance(v, Lin):
                l = norm(v)
                if not l.t and -3 <= l.k <= 3 and mode[0]:
                    return ('k', l.k), l
                i = len(vec)
                vec.append(l)
                if mode[0] and self.spec.key_signs:
                    # results of comparison functions: their sign matters
                    sg = '+' if st.ge(l - 1) else '-' if st.ge(-l - 1) else ''
                    return ('#', sg), sym(vs(i))
                return ('#',), sym(vs(i))
            if isinstance(v, tuple):
                if not v:
                    return (), v
                if v[0] == 'P':
                    o = omap.get(v[1])
                    if o is None:
                        if v[1] <= -1000:
                            o = omap[v[1]] = v[1]
                            if True:
                                order.append(v[1])
                        else:
                            o = omap[v[1]] = len(omap) + 1
                            order.append(v[1])
                    l = norm(v[3])
                    if not l.t and not (wide and isinstance(st.heap.get(v[1]), Arr)):
                        return ('P', o, v[2], l.k), ('P', o, v[2], l)
                    a = st.heap.get(v[1])
                    if wide and isinstance(a, Arr) and all(c % a.stride == 0 for _, c in l.t):
                        # whole elements plus a constant
                        rest = l.k % a.stride
                        q = Lin((l.k - rest) // a.stride, tuple((s, c // a.stride) for s, c in l.t))
                        k, n = r(q)
                        return ('P', o, v[2], rest, k), ('P', o, v[2], n.scale(a.stride) + rest)
                    k, n = r(v[3])
                    return ('P', o, v[2], k), ('P', o, v[2], n)
                if v[0] == 'E':
                    k, n = r(v[3])
                    res = ('E', v[1], v[2], n)
                    seen_vals.setdefault(st.nv(v), (len(seen_vals), res))
                    return ('E', v[1], v[2], k), res
                if v[0] == 'O':
                    seen_vals.setdefault(v, (len(seen_vals), v))
                    return v, v
                ks, ns = [], []
                for x in v:
                    k, n = r(x)
                    ks.append(k)
                    ns.append(n)
                return tuple(ks), tuple(ns)
            if isinstance(v, list):
                k, n = r(tuple(v))
                return k, list(n)
            return v, v

        mode = [False]
        wide = self.spec.wide_pointers
        new = State()
        key = []
        for f in st.frames:
            nf = Frame(f.fn, {})
            nf.bi, nf.ii, nf.prev, nf.onret = f.bi, f.ii, None, f.onret
            ks = []
            for k in sorted(f.env):
                mode[0] = self.small_int(f.fn, k)
                kk, nv = r(f.env[k])
                ks.append((k, kk))
                nf.env[k] = nv
            mode[0] = False
            al = []
            for o in f.allocas:
                if o not in st.heap:
                    continue
                kk, nv = r(P(o))
                al.append(nv[1])
            nf.allocas = tuple(al)
            key.append((f.fn.name, tuple(ks), nf.allocas))
            new.frames.append(nf)
        for g in sorted(st.ghost):
            mode[0] = g in self.spec.key_ghosts
            kk, nv = r(st.ghost[g])
            key.append((g, kk))
            new.ghost[g] = nv
        mode[0] = False
        for s in sorted(st.seqs):
            ent = []
            for e in st.seqs[s]:
                if e[0] == 'o':
                    kk, nv = r(P(e[1]))
                    ent.append(('o', nv[1]))
                    key.append((s, 'o', kk))
                else:
                    kk, nv = r(e)
                    ent.append(nv)
                    key.append((s, kk))
            new.seqs[s] = ent
            key.append((s, 'end'))
        i = 0
        while i < len(order):
            oid = order[i]
            o = st.heap[oid]
            mode[0] = isinstance(o, Blk)
            small = isinstance(o, Blk)
            parts = o.parts()
            if small and o.status != 'freed':
                ks, ns = [], []
                mode[0] = False
                k0, n0 = r(parts[0])
                k1, n1 = r(parts[1])
                ck, cn = [], []
                for c in parts[2]:
                    mode[0] = c[1] < 8 and self.spec.key_cells(o)
                    k2, n2 = r(c[2])
                    ck.append((c[0], c[1], k2))
                    cn.append((c[0], c[1], n2))
                mode[0] = False
                kk = (k0, k1, tuple(ck))
                nn = (n0, n1, tuple(cn))
            else:
                mode[0] = False
                kk, nn = r(parts)
            key.append((omap[oid], o.head(), kk))
            new.heap[omap[oid]] = o.rebuild(nn)
            i += 1
        mode[0] = True
        # facts about values that are still around
        fk = []
        for k, v in st.facts.items():
            vals = [x for x in k[1:]]
            idx = []
            ok = True
            nk = [k[0]]
            for x in vals:
                if isinstance(x, tuple) and x and x[0] in ('E', 'O'):
                    h = seen_vals.get(st.nv(x))
                    if h is None:
                        ok = False
                        break
                    idx.append(h[0])
                    nk.append(h[1])
                else:
                    ok = ok and not isinstance(x, Lin)
                    idx.append(str(x))
                    nk.append(x)
            if ok:
                fk.append((k[0], tuple(str(i) for i in idx), v if not isinstance(v, frozenset) else tuple(sorted(v))))
                new.facts[tuple(nk)] = v
        key.append(tuple(sorted(fk, key=str)))
        dk = []
        for x, s in st.dst.items():
            h = seen_vals.get(st.nv(x))
            if h is not None:
                dk.append((h[0], s))
                new.dst[h[1]] = s
        key.append(tuple(sorted(dk)))
        # terms
        tk = []
        for k, v in sorted(st.terms.items(), key=lambda x: str(x[0][0])):
            res = self.spec.keep_term(st, k, v, seen_vals, r)
            if res is not None:
                tk.append(res[0])
                new.terms[res[1]] = res[2]
        key.append(tuple(tk))
        fl = {k: v for k, v in st.flags.items() if k != 'junk'}
        new.flags = fl
        key.append(tuple(sorted((str(k), str(v)) for k, v in fl.items())))
        new.trace = st.trace
        new.taint = st.taint
        key.append(st.taint is not None)
        new.next_oid = len(omap) + 2
        new.num = st.num
        return tuple(key), vec, new

    def small_int(self, fn, vid):
        c = getattr(fn, '_tyc', None)
        if c is None:
            c = {}
            for p in fn.params:
                c[p['id']] = p['ty']
            for b in fn.blocks:
                for i in b:
                    if 'id' in i:
                        c[i['id']] = i['ty']
            fn._tyc = c
        t = c.get(vid, 'i64')
        return t in ('i1', 'i8', 'i16', 'i32')
