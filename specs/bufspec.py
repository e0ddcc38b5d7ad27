"""buffer.c: byte runs from ghost sources.

Content of memory is a list of runs; a run ('bt', X, shift) holds bytes of the
ghost sequence X: D (the buffer before the call), S (the data handed to fill), R
(what read() delivered).  `scan` is the length of the prefix of D known to hold
no newline."""
from absint import *
from interp import Analyzer, Retry
from base import Spec, BIG, MAXALLOC
from num import Lin, con, sym, newsym, ZERO, ONE

SSIZE_MAX = (1 << 63) - 1
NLCH = 10


class Bytes:
    """array plugin for byte runs"""

    def __init__(self, spec):
        self.spec = spec

    def peek_desc(self, st, d, lo, hi, idx, sub, size):
        if d[0] != 'bt' or sub != 0 or size != 1:
            return None
        return self.byte(st, d[1], idx + d[2])

    def byte(self, st, seq, i):
        i = st.norm(i)
        b = st.terms.get(('byte', seq, i))
        if b is None and seq == 'D' and st.flags.get('nlscan') and st.eq(i, st.norm(st.ghost['scan'])):
            b = con(NLCH)
            st.terms[('byte', seq, i)] = b
        if b is None:
            b = newsym('c')
            st.assume_ge(b)
            st.assume_ge(con(255) - b)
            st.terms[('byte', seq, i)] = b
            if seq == 'D':
                # the prefix without newline
                if st.ge(st.norm(st.ghost['scan']) - i - 1):
                    st.flags['nonl'] = True
        return st.norm(b)

    def split_desc(self, st, oid, d, lo, hi, idx, left, right):
        if d[0] == 'bt':
            return d, ('cells', ((0, 1, self.byte(st, d[1], idx + d[2])),)), d

    def cut_desc(self, st, oid, d, lo, hi, at):
        if d[0] == 'bt':
            return d, d

    def shift_desc(self, st, d, delta):
        if d[0] == 'bt':
            return ('bt', d[1], st.norm(d[2] - delta))

    def origin_of(self, st, v, lo, prev):
        """the byte a stored value is"""
        v = st.norm(v)
        cand = []
        for k, b in st.terms.items():
            if k[0] == 'byte' and st.norm(b) == v:
                d = ('bt', k[1], st.norm(k[2] - lo))
                if prev is not None and prev[0] == 'bt' and prev[1] == d[1] and st.eq(prev[2], d[2]):
                    return d
                cand.append(d)
        return cand[0] if len(cand) == 1 or cand and not v.t and len({c[1] for c in cand}) == 1 else None

    def norm_runs(self, st, arr):
        out = []
        for lo, hi, d in arr.runs:
            if st.eq(lo, hi):
                continue
            if d[0] == 'cells':
                if not d[1]:
                    d = ('uninit',)
                elif len(d[1]) == 1 and d[1][0][0] == 0 and d[1][0][1] == 1:
                    v = d[1][0][2]
                    if isinstance(v, Lin):
                        o = self.origin_of(st, v, lo, out[-1][2] if out else None)
                        if o is not None:
                            d = o
                    elif v == UNDEF:
                        d = ('uninit',)
            if out and self.same(st, out[-1][2], d):
                out[-1] = (out[-1][0], hi, d)
            else:
                out.append((lo, hi, d))
        return out

    def same(self, st, a, b):
        if a[0] != b[0]:
            return False
        if a[0] == 'bt':
            return a[1] == b[1] and st.eq(a[2], b[2])
        return a[0] in ('uninit', 'zero', 'junk')

    def fold(self, st):
        for oid, o in list(st.heap.items()):
            if isinstance(o, Arr) and o.stride == 1 and o.status == 'live' and o.runs:
                r = self.norm_runs(st, o)
                if r != o.runs:
                    st.heap[oid] = o.copy(runs=r)
        self.spec.advance(st)

    def tokens(self, st, arr, lo, hi):
        out = []
        for a, b, d in self.norm_runs(st, arr):
            if st.decide_ge(lo - b):
                continue
            if st.decide_ge(a - hi):
                break
            if st.decide_ge(lo - a - 1):
                a = lo
            if st.decide_ge(b - hi - 1):
                b = hi
            if st.decide_eq(b - a):
                continue
            if d[0] == 'bt':
                t = ('bt', d[1], st.norm(a + d[2]), st.norm(b + d[2]))
                if out and out[-1][0] == 'bt' and out[-1][1] == t[1] and st.eq(out[-1][3], t[2]):
                    out[-1] = ('bt', t[1], out[-1][2], t[3])
                else:
                    out.append(t)
            elif d[0] == 'cells' and len(d[1]) == 1:
                v = d[1][0][2]
                out.append(('v', st.nv(v)))
            else:
                out.append((d[0],))
        return out


class BufSpec(Spec):
    wide_pointers = True

    CONTAINER = ('root_buf', 'Buffer', ('data', 'max_size', 'len', 'msize', 'valid'), ('buffer_free', 'buffer_destroy'))

    def __init__(self, prog, entry, case, op, **kw):
        super().__init__(prog)
        self.entry, self.case, self.op, self.kw = entry, case, op, kw
        self.F = prog.fields('Buffer')
        self.B = Bytes(self)
        self.plugins = [self.B]

    # ---- pre-state
    def pre(self, origin='user'):
        st = State()
        F = self.F
        n, mx, ms, bs = newsym('len'), newsym('max'), newsym('msize'), newsym('mem')
        for l in (n, mx - n, ms - n, bs - ms, ms - 1, con(MAXALLOC) - bs, mx - 1, con(SSIZE_MAX - 1) - mx):
            st.assume_ge(l)
        data = st.alloc_oid(Arr(1, bs, [(ZERO, n, ('bt', 'D', ZERO)), (n, bs, ('junk',))], 'malloc', 'live',
                                bool(self.kw.get('ro')), "the buffer's memory"))
        v = con(1 if self.kw.get('valid', True) else 0)
        cells = {F['data'][0]: (8, P(data)), F['max_size'][0]: (8, mx), F['len'][0]: (8, n), F['msize'][0]: (8, ms),
                 F['valid'][0]: (1, v)}
        b = st.alloc_oid(Blk('buffer', con(self.prog.size('Buffer')), cells, 'junk', origin, 'live', None,
                             bool(self.kw.get('ro')), 'buffer'))
        st.ghost['len'], st.ghost['max'], st.ghost['scan'] = n, mx, ZERO
        st.ghost['root_buf'] = P(b)
        st.ghost['root_data0'] = P(data)
        st.ghost['nread'] = ZERO
        return st, P(b)

    def advance(self, st):
        while True:
            s = st.norm(st.ghost['scan'])
            b = st.terms.get(('byte', 'D', s))
            if b is not None and st.eq(b, con(NLCH)):
                st.flags['nlscan'] = True       # the first newline is found
            if b is None or not (st.ge(b - NLCH - 1) or st.ge(con(NLCH - 1) - b)):
                return
            st.ghost['scan'] = st.norm(s + 1)

    def attr_joinable(self, a, b):
        return a == b

    # ---- searching
    def where(self, st, p):
        """(array oid, offset) of a position in byte memory"""
        if isP(p) and not p[2]:
            o = st.heap[p[1]]
            if isinstance(o, Arr) and o.stride == 1:
                return p[1], st.norm(p[3])
        raise Undecided('search in something else than byte memory')

    def search_run(self, st, p, ch, n):
        ch = self.an.num_of(st, ch)
        n = st.u(self.an.num_of(st, n))
        if st.decide_eq(n):
            return None
        oid, off = self.where(st, p)
        self.an.resolve(st, p, n, False)
        o = st.heap[oid]
        if not ch.is_const():
            raise Undecided('search for an unknown character')
        ch = ch.k % 256
        for lo, hi, d in self.B.norm_runs(st, o):
            if st.ge(off - lo) and st.ge(hi - off - n) and d[0] == 'bt':
                return oid, off, n, d, ch
            if st.ge(off - lo) and st.ge(hi - off - 1) and d[0] in ('junk', 'uninit'):
                return oid, off, n, d, ch
        # the searched range reaches behind the stored bytes
        return oid, off, n, ('mixed',), ch

    def x_memchr(self, st, args, ins):
        r = self.search_run(st, args[0], args[1], args[2])
        if r is None:
            return NULL
        oid, off, n, d, ch = r
        if d[0] != 'bt' or d[1] != 'D':
            if d[0] == 'mixed':
                self.an.violation(st, 'stale-bytes', 'the search for a newline includes bytes that are not stored', ('bytes',))
            raise Undecided('search in other bytes')
        lo = st.norm(off + d[2])         # first D index searched
        s = st.norm(st.ghost['scan'])
        covers = ch == NLCH and st.ge(s - lo)
        if self.choose(st, 'memchr') == 0:
            if covers and st.decide_ge(lo + n - s):
                st.ghost['scan'] = st.norm(lo + n)
            return NULL
        k = newsym('nl')
        ok = st.assume_ge(k - lo) and st.assume_ge(lo + n - k - 1)
        if covers:
            ok = ok and st.assume_ge(k - s)
        if not ok:
            raise Stop()
        st.terms[('byte', 'D', st.norm(k))] = con(ch)
        if covers:
            st.ghost['scan'] = st.norm(k)
        return P(oid, st.norm(k - d[2]))

    def x_memrchr(self, st, args, ins):
        r = self.search_run(st, args[0], args[1], args[2])
        if r is None:
            return NULL
        oid, off, n, d, ch = r
        if d[0] != 'bt' or d[1] != 'D':
            raise Undecided('search in other bytes')
        lo = st.norm(off + d[2])
        s = st.norm(st.ghost['scan'])
        if self.choose(st, 'memchr') == 0:
            if ch == NLCH and st.ge(s - lo):
                st.ghost['scan'] = st.norm(lo + n)
            return NULL
        k = newsym('nl')
        if not (st.assume_ge(k - lo) and st.assume_ge(lo + n - k - 1) and (ch != NLCH or st.assume_ge(k - s))):
            raise Stop()
        st.terms[('byte', 'D', st.norm(k))] = con(ch)
        return P(oid, st.norm(k - d[2]))

    def no_terminator(self, st, args, ins):
        oid, off = self.where(st, args[0])
        o = st.heap[oid]
        for lo, hi, d in o.runs:
            if st.decide_ge(hi - off - 1):
                if d[0] == 'bt' and d[1] in 'DSR':
                    self.an.violation(st, 'bytes-as-string', 'stored bytes are treated as a NUL-terminated string', ('bytes', 'limit'))
                break
        raise Undecided('string function')

    x_strlen = x_strchr = x_strdup = x_strstr = x_strcspn = x_strrchr = no_terminator

    def x_strcpy(self, st, args, ins):
        self.no_terminator(st, [args[1]], ins)

    def x_strncpy(self, st, args, ins):
        self.no_terminator(st, [args[1]], ins)

    def x_strndup(self, st, args, ins):
        self.no_terminator(st, args, ins)

    def x_mempcpy(self, st, args, ins):
        n = st.u(self.an.num_of(st, args[2]))
        self.an.memcopy(st, args[0], args[1], n, False)
        return P(args[0][1], st.norm(args[0][3] + n), '')

    # ---- input
    def x_read(self, st, args, ins):
        n = st.u(self.an.num_of(st, args[2]))
        if not st.eq(self.an.num_of(st, args[0]), st.ghost['fd']):
            self.an.violation(st, 'wrong-fd', 'read() from another file', ('bytes',))
        if st.decide_eq(n):
            if st.ge(st.norm(st.ghost['count']) - st.norm(st.ghost['nread']) - 1):
                self.an.report(st, 'reads-nothing', 'read() is asked for no bytes although bytes are wanted', ('bytes',))
            if self.choose(st, 'read0') == 1:
                st.flags['ioerr'] = True
                return con(-1)
            return ZERO
        if not self.kw.get('valid', True):
            self.an.violation(st, 'reads-for-nothing', 'bytes are taken from the file although the buffer is invalid and cannot keep them',
                              ('limit', 'bytes'))
        oid, o, off = self.an.resolve(st, args[1], n, True)
        if not st.ge(st.norm(st.ghost['count']) - st.norm(st.ghost['nread']) - n):
            self.an.report(st, 'reads-too-much', 'more than the requested number of bytes may be read', ('bytes',))
        k = self.choose(st, 'read', 3)
        if k == 0:
            st.flags['eof'] = True
            return ZERO
        if k == 1:
            st.flags['ioerr'] = True
            st.waits = True      # interrupted calls may be repeated
            return con(-1)
        if isinstance(o, Blk):
            self.an.to_array(st, oid, 1)
        a = st.heap[oid]
        if not isinstance(a, Arr) or a.stride != 1:
            raise Undecided('read into something else than byte memory')
        r = st.ghost.get('got')       # kept over the splits that cutting may need
        if r is None:
            r = newsym('got')
            if not (st.assume_ge(r - 1) and st.assume_ge(n - r) and st.assume_ge(con(SSIZE_MAX) - r)):
                raise Stop()
            st.ghost['got'] = r
        r = st.norm(r)
        cur = st.norm(st.ghost['nread'])
        self.pending_cut(st, oid, off, r)
        self.an.replace_range(st, oid, off, st.norm(off + r), [(off, st.norm(off + r), ('bt', 'R', st.norm(cur - off)))])
        st.ghost['nread'] = st.norm(cur + r)
        del st.ghost['got']
        return r

    def pending_cut(self, st, oid, off, r):
        self.an.cut(st, oid, off)
        self.an.cut(st, oid, st.norm(off + r))

    # ---- post-conditions
    def fields(self, st, b=None):
        an = self.an
        b = b or st.ghost['root_buf']
        o = st.heap[b[1]]
        out = {}
        for n, (off, size) in self.F.items():
            c = o.cells.get(off)
            v = c[1] if c and c[0] == size else an.load_partial(st, o.cells, o.default, off, size)
            if v == UNDEF or v == JUNK:
                an.violation(st, 'uninitialised', 'field %s of the buffer is not set' % n, ('limit',))
            out[n] = v
        return out

    def memory(self, st, f):
        """the buffer's memory must be a live block that is as large as claimed"""
        an = self.an
        d = f['data']
        if not isP(d) or not st.eq(d[3], ZERO) or st.heap[d[1]].status != 'live':
            an.violation(st, 'bad-memory', "the buffer's memory is no live allocation", ('limit',))
        o = st.heap[d[1]]
        ms, n, mx = (st.norm(self.an.num_of(st, f[k])) for k in ('msize', 'len', 'max_size'))
        if not st.ge(o.size - ms):
            an.report(st, 'claims-too-much', 'msize may exceed the allocated memory', ('limit',))
        if not st.ge(ms - 1):
            an.report(st, 'no-memory', 'msize may be zero', ('limit',))
        if not (st.ge(n) and st.ge(ms - n)):
            an.report(st, 'too-long', 'len may exceed the allocated memory', ('limit',))
        if not st.ge(mx - n):
            an.report(st, 'limit-exceeded', 'the buffer may hold more than its maximum size', ('limit',))
        return o, n, ms, mx

    def valid(self, st, f):
        v = st.norm(self.an.num_of(st, f['valid']))
        return not st.decide_eq(v)

    def expect(self, st, o, lo, hi, want, what, tag):
        """bytes [lo,hi) of o are the concatenation `want` of (seq, from, to)"""
        if isinstance(o, Blk):
            if not o.size.is_const():
                raise Undecided('content of a block')
            for oid, x in st.heap.items():
                if x is o:
                    o = self.an.to_array(st, oid, 1)
                    break
        got = self.B.tokens(st, o, lo, hi)
        want = [(s, st.norm(a), st.norm(b)) for s, a, b in want if not st.decide_eq(b - a)]
        ok = len(got) == len(want)
        if ok:
            for g, (s, a, b) in zip(got, want):
                if g[0] != 'bt' or g[1] != s or not st.eq(g[2], a) or not st.eq(g[3], b):
                    ok = False
        if not ok:
            self.an.report(st, 'wrong-bytes', what, (tag,))
        return ok

    def unchanged(self, st, f, what):
        an = self.an
        o, n, ms, mx = self.memory(st, f)
        if not st.eq(n, st.ghost['len']):
            an.report(st, 'length-changed', '%s changes the length' % what, ('bytes', 'limit'))
            return
        self.expect(st, o, ZERO, n, [('D', ZERO, n)], '%s changes the stored bytes' % what, 'bytes')

    def truth(self, st, ret):
        if isinstance(ret, Lin):
            return not st.decide_eq(ret)
        raise Undecided('result %r' % (ret,))

    def same_max(self, st, f):
        if not st.eq(self.an.num_of(st, f['max_size']), st.ghost['max']):
            self.an.report(st, 'limit-changed', 'the maximum size is changed', ('limit',))

    def finish(self, st, ret):
        if st.flags.get('oom'):
            self.an.violation(st, 'failed-allocation-ignored', 'the function returns although memory was refused', ('oom',))
        getattr(self, 'end_' + self.op)(st, ret)
        st.flags['retval'] = ret
        self.collect(st)

    def leakable(self, st, oid, o):
        return o.origin == 'malloc'

    def leak(self, st, oid, o):
        if not st.flags.get('oom'):
            self.an.report(st, 'leak', '%s is lost without being given back' % self.an.describe(o), ('leak',))

    def end_fill(self, st, ret):
        an = self.an
        f = self.fields(st)
        r = self.truth(st, ret)
        v = self.valid(st, f)
        self.same_max(st, f)
        L, n0, mx = st.norm(st.ghost['L']), st.norm(st.ghost['len']), st.norm(st.ghost['max'])
        if not self.kw['valid']:
            if r or v:
                an.report(st, 'revived', 'filling an invalid buffer reports success or makes it valid', ('limit',))
            self.memory(st, f)
            return
        fits = st.decide_ge(mx - n0 - L)
        if not fits:
            if r:
                an.report(st, 'limit-ignored', 'a fill beyond the maximum size reports success', ('limit',))
            if v:
                an.report(st, 'still-valid', 'a fill beyond the maximum size leaves the buffer valid', ('limit',))
            o, n, ms, _ = self.memory(st, f)
            if not st.eq(n, n0):
                an.report(st, 'partial-store', 'a fill beyond the maximum size stores bytes', ('limit', 'bytes'))
            return
        if not r or not v:
            an.report(st, 'fill-refused', 'a fill within the maximum size fails', ('limit',))
            return
        o, n, ms, _ = self.memory(st, f)
        if not st.eq(n, n0 + L):
            an.report(st, 'wrong-length', 'the length does not grow by the number of bytes', ('bytes',))
            return
        self.expect(st, o, ZERO, n, [('D', ZERO, n0), ('S', ZERO, L)], 'the stored bytes are not the old bytes followed by the new ones',
                    'bytes')

    def end_fillfd(self, st, ret):
        an = self.an
        f = self.fields(st)
        v = self.valid(st, f)
        self.same_max(st, f)
        n0, mx, R = st.norm(st.ghost['len']), st.norm(st.ghost['max']), st.norm(st.ghost['nread'])
        if not isinstance(ret, Lin):
            raise Undecided('result')
        ret = st.s(ret, 64)
        o, n, ms, _ = self.memory(st, f)
        if not self.kw['valid']:
            if v:
                an.report(st, 'revived', 'filling an invalid buffer makes it valid', ('limit',))
            if st.decide_ge(ret - 1):
                an.report(st, 'revived', 'filling an invalid buffer reports success', ('limit',))
            return
        if st.decide_eq(R):
            if not v:
                an.report(st, 'invalidated', 'the buffer becomes invalid although nothing was read', ('limit',))
            if st.flags.get('ioerr'):
                if not st.eq(ret, con(-1)):
                    an.report(st, 'error-ignored', 'a failed read() is not reported', ('bytes',))
            elif not st.eq(ret, ZERO):
                an.report(st, 'wrong-result', 'the result is not the number of bytes', ('bytes',))
            if not st.eq(n, n0):
                an.report(st, 'wrong-length', 'the length changes although nothing was read', ('bytes',))
                return
            self.expect(st, o, ZERO, n, [('D', ZERO, n0)], 'the stored bytes change although nothing was read', 'bytes')
            return
        if not st.decide_ge(mx - n0 - R):
            if not st.eq(ret, con(-1)):
                an.report(st, 'limit-ignored', 'a fill beyond the maximum size is not reported', ('limit',))
            if v:
                an.report(st, 'still-valid', 'a fill beyond the maximum size leaves the buffer valid', ('limit',))
            if not st.eq(n, n0):
                an.report(st, 'partial-store', 'a fill beyond the maximum size stores bytes', ('limit', 'bytes'))
            return
        if not v:
            an.report(st, 'fill-refused', 'a fill within the maximum size fails', ('limit',))
            return
        if not st.eq(ret, R):
            an.report(st, 'wrong-result', 'the result is not the number of bytes read and stored', ('bytes',))
        if not st.eq(n, n0 + R):
            an.report(st, 'wrong-length', 'the length does not grow by the number of bytes read', ('bytes',))
            return
        self.expect(st, o, ZERO, n, [('D', ZERO, n0), ('R', ZERO, R)], 'the stored bytes are not the old bytes followed by those read',
                    'bytes')

    # ---- strings
    def dest(self, st):
        return st.heap[st.ghost['root_dst'][1]], st.heap[st.ghost['root_len'][1]]

    def dst_value(self, st):
        d, l = self.dest(st)
        dv, lv = d.cells.get(0), l.cells.get(0)
        if dv is None or lv is None or dv[1] in (UNDEF, JUNK) or lv[1] in (UNDEF, JUNK):
            self.an.violation(st, 'bad-destination', 'destination or length is not set', ('string',))
        return dv[1], st.norm(self.an.num_of(st, lv[1]))

    def untouched(self, st, what):
        p, l = self.dst_value(st)
        if st.nv(p) != st.nv(st.ghost['dst0']) or not st.eq(l, st.ghost['cap']):
            self.an.report(st, 'destination-changed', '%s changes the destination' % what, ('string',))
        elif isP(p):
            o = st.heap[p[1]]
            if o.status != 'live' or [d[0] for _, _, d in self.B.norm_runs(st, o)] != ['junk']:
                self.an.report(st, 'destination-changed', '%s changes the destination' % what, ('string',))

    def delivered(self, st, n, what):
        """the destination holds D[0,n) and a terminator"""
        an = self.an
        p, l = self.dst_value(st)
        cap = st.norm(st.ghost['cap'])
        if not isP(p) or not st.eq(p[3], ZERO) or st.heap[p[1]].status != 'live':
            an.violation(st, 'bad-destination', '%s: the destination is no live allocation' % what, ('string',))
        o = st.heap[p[1]]
        if not st.ge(o.size - l):
            an.report(st, 'claims-too-much', '%s: the length claims more memory than there is' % what, ('string',))
        if not st.ge(o.size - n - 1):
            an.report(st, 'too-small', '%s: the destination has no room for the terminator' % what, ('string',))
            return
        if st.nv(p) != st.nv(st.ghost['dst0']) and not st.ge(n - cap):
            if not isP(st.ghost['dst0']) or st.decide_ge(cap - n - 1):
                if isP(st.ghost['dst0']):
                    an.report(st, 'needless-reallocation', '%s: a destination that suffices is reallocated' % what, ('string',))
        if st.nv(p) == st.nv(st.ghost['dst0']) and not st.ge(cap - n - 1):
            an.report(st, 'too-small', '%s: a destination that does not suffice is used' % what, ('string',))
        self.expect(st, o, ZERO, n, [('D', ZERO, n)], '%s: the string does not hold exactly the stored bytes' % what, 'bytes')
        self.terminated(st, p, n, what)

    def terminated(self, st, p, n, what):
        o = st.heap[p[1]]
        t = self.B.tokens(st, o, n, st.norm(n + 1)) if isinstance(o, Arr) else []
        if isinstance(o, Blk):
            self.an.to_array(st, p[1], 1)
            t = self.B.tokens(st, st.heap[p[1]], n, st.norm(n + 1))
        ok = t and (t[0] == ('zero',) or t[0][0] == 'v' and isinstance(t[0][1], Lin) and st.eq(t[0][1], ZERO))
        if not ok:
            self.an.report(st, 'unterminated', '%s: no NUL byte follows the delivered bytes' % what, ('string',))

    def end_readline(self, st, ret):
        an = self.an
        self.advance(st)
        f = self.fields(st)
        self.same_max(st, f)
        r = self.truth(st, ret)
        n0, s = st.norm(st.ghost['len']), st.norm(st.ghost['scan'])
        if not self.kw['valid']:
            if r:
                an.report(st, 'revived', 'a line is read from an invalid buffer', ('limit',))
            else:
                self.untouched(st, 'a failed read_line')
            if self.valid(st, f):
                an.report(st, 'revived', 'read_line makes an invalid buffer valid', ('limit',))
            self.memory(st, f)
            return
        if not self.valid(st, f):
            an.report(st, 'invalidated', 'read_line makes the buffer invalid', ('limit',))
            return
        if not r:
            if not st.ge(s - n0):
                an.report(st, 'line-missed', 'read_line fails although the buffer may hold a newline', ('bytes',))
            self.unchanged(st, f, 'a failed read_line')
            self.untouched(st, 'a failed read_line')
            return
        if not (st.flags.get('nlscan') and st.ge(n0 - s - 1)):
            an.report(st, 'wrong-line', 'the delivered line does not end at the first newline', ('bytes',))
            return
        o, n, ms, _ = self.memory(st, f)
        if not st.eq(n, n0 - s - 1):
            an.report(st, 'wrong-length', 'not exactly the line and its newline are consumed', ('bytes',))
            return
        self.expect(st, o, ZERO, n, [('D', st.norm(s + 1), n0)], 'the bytes behind the line are not kept', 'bytes')
        self.delivered(st, s, 'read_line')

    def end_flush(self, st, ret):
        an = self.an
        f = self.fields(st)
        r = self.truth(st, ret)
        n0 = st.norm(st.ghost['len'])
        if not self.kw['valid']:
            if r:
                an.report(st, 'revived', 'an invalid buffer is flushed', ('limit',))
            else:
                self.untouched(st, 'a failed flush')
            return
        if not r:
            if not st.eq(n0, ZERO):
                an.report(st, 'flush-refused', 'flush fails although bytes are stored', ('bytes',))
            self.untouched(st, 'a failed flush')
        else:
            self.delivered(st, n0, 'flush')
        self.unchanged(st, f, 'flush')

    def end_tostring(self, st, ret):
        an = self.an
        f = self.fields(st)
        n0 = st.norm(st.ghost['len'])
        if ret == UNDEF or ret == JUNK:
            an.violation(st, 'uninitialised', 'the result is not set', ('string',))
        null = an.compare(st, ret, NULL, 'eq', 64)
        if not self.kw['valid']:
            if not null:
                an.report(st, 'revived', 'an invalid buffer yields a string', ('limit',))
            return
        if null:
            if not st.eq(n0, ZERO):
                an.report(st, 'string-refused', 'to_string yields NULL although bytes are stored', ('bytes',))
        else:
            if not isP(ret) or not st.eq(ret[3], ZERO) or st.heap[ret[1]].status != 'live' or st.heap[ret[1]].origin != 'malloc' or \
                    ret == st.nv(f['data']):
                an.violation(st, 'bad-string', 'the result is no newly allocated string', ('string',))
            o = st.heap[ret[1]]
            if not st.ge(o.size - n0 - 1):
                an.report(st, 'too-small', 'the string has no room for the terminator', ('string',))
            else:
                self.expect(st, o, ZERO, n0, [('D', ZERO, n0)], 'to_string: the string does not hold exactly the stored bytes', 'bytes')
                self.terminated(st, ret, n0, 'to_string')
        self.unchanged(st, f, 'to_string')

    # ---- the small ones
    def end_len(self, st, ret):
        want = st.norm(st.ghost['len']) if self.kw['valid'] else ZERO
        if not isinstance(ret, Lin) or not st.eq(ret, want):
            self.an.report(st, 'wrong-length', 'len does not report the number of stored bytes', ('limit', 'bytes'))
        self.query(st)

    def end_isvalid(self, st, ret):
        if self.truth(st, ret) != self.kw['valid']:
            self.an.report(st, 'wrong-state', 'is_valid gives the wrong answer', ('limit',))
        self.query(st)

    def end_isempty(self, st, ret):
        if self.kw['valid']:
            if self.truth(st, ret) != st.decide_eq(st.ghost['len']):
                self.an.report(st, 'wrong-length', 'is_empty gives the wrong answer', ('limit', 'bytes'))
        self.query(st)

    def query(self, st):
        f = self.fields(st)
        if self.valid(st, f) != self.kw['valid']:
            self.an.report(st, 'state-changed', 'a query changes the state of the buffer', ('limit', 'ro'))
        if self.kw['valid']:
            self.unchanged(st, f, 'a query')

    def end_clear(self, st, ret):
        f = self.fields(st)
        self.same_max(st, f)
        if not self.valid(st, f):
            self.an.report(st, 'not-revived', 'clear leaves the buffer invalid', ('limit',))
        o, n, ms, _ = self.memory(st, f)
        if not st.eq(n, ZERO):
            self.an.report(st, 'not-empty', 'clear leaves bytes in the buffer', ('limit', 'bytes'))

    def end_new(self, st, ret):
        if not isP(ret) or not st.eq(ret[3], ZERO):
            self.an.violation(st, 'no-buffer', 'new does not return a buffer', ('limit',))
        self.fresh(st, ret)

    def end_init(self, st, ret):
        self.fresh(st, st.ghost['root_buf'])

    def fresh(self, st, b):
        o = st.heap[b[1]]
        if o.status != 'live' or not st.ge(o.size - self.prog.size('Buffer')):
            self.an.violation(st, 'no-buffer', 'the buffer is not a live object', ('limit',))
        f = self.fields(st, b)
        if not self.valid(st, f):
            self.an.report(st, 'wrong-state', 'a new buffer is invalid', ('limit',))
        m, n, ms, mx = self.memory(st, f)
        if not st.eq(n, ZERO):
            self.an.report(st, 'not-empty', 'a new buffer is not empty', ('limit', 'bytes'))
        if not st.eq(mx, st.ghost['max']):
            self.an.report(st, 'limit-changed', 'a new buffer has another maximum size', ('limit',))

    def end_free(self, st, ret):
        # nothing of the buffer is reachable any more
        if st.heap[st.ghost['root_data0'][1]].status == 'live':
            self.an.report(st, 'leak', "the buffer's memory is not given back", ('leak',))
        st.heap[st.ghost['root_data0'][1]] = st.heap[st.ghost['root_data0'][1]].copy(status='freed')
        if st.heap[st.ghost['root_buf'][1]].status != 'live':
            self.an.report(st, 'owner-freed', 'free gives back the buffer object itself', ('limit', 'ub'))

    def end_destroy(self, st, ret):
        for g, what in (('root_data0', "buffer's memory"), ('root_buf', 'buffer')):
            o = st.heap[st.ghost[g][1]]
            if o.status == 'live':
                self.an.report(st, 'leak', 'the %s is not given back' % what, ('leak',))
                st.heap[st.ghost[g][1]] = o.copy(status='freed')


def props(op):
    s = ['C25'] if op in ('readline', 'flush', 'tostring') else []
    return {'limit': ['C23'], 'bytes': ['C24'], 'string': ['C25'], 'oom': ['C30'], 'ro': ['C32', 'C24'], 'leak': ['C08', 'C23'], 'overlap': ['C24'],
            'term': ['C23'] + s, 'alloc': ['C23'] + s, 'oob': ['C23'] + s, 'uaf': ['C23'] + s, 'null': ['C23'] + s}


def tasks(prog):
    out = []

    def add(fn, op, args, origin='user', case='', raw=False, **kw):
        label = ','.join(['%s=%s' % (k, v if not isinstance(v, bool) else int(v)) for k, v in kw.items() if k != 'ro'])
        name = '%s[%s]' % (fn, label)

        def start():
            f = prog.fn(fn)
            spec = BufSpec(prog, fn, name, op, **kw)
            st, bp = spec.pre(origin)
            av = []
            for a in args:
                if a == 'B':
                    av.append(bp)
                elif a == 'RAW':
                    st.heap[bp[1]] = st.heap[bp[1]].copy(cells={}, default='uninit')
                    av.append(bp)
                elif a == 'MAX':
                    av.append(st.ghost['max'])
                elif a == 'SRC':
                    L = newsym('L')
                    st.assume_ge(L)
                    st.assume_ge(con((1 << 64) - 1) - L)
                    st.ghost['L'] = L
                    av.append(P(st.alloc_oid(Arr(1, L, [(ZERO, L, ('bt', 'S', ZERO))], 'user', 'live', True, 'data to store'))))
                    st.ghost['root_src'] = av[-1]
                elif a == 'L':
                    av.append(st.ghost['L'])
                elif a == 'FD':
                    fd = newsym('fd')
                    st.assume_ge(fd)
                    st.assume_ge(con((1 << 31) - 1) - fd)
                    st.ghost['fd'] = fd
                    av.append(fd)
                elif a == 'COUNT':
                    c = newsym('count')
                    st.assume_ge(c)
                    st.assume_ge(st.ghost['max'] - c)
                    st.ghost['count'] = c
                    av.append(c)
                elif a == 'DST':
                    if kw['dst'] == 'null':
                        p, cap = NULL, ZERO
                    else:
                        cap = newsym('cap')
                        st.assume_ge(cap - 1)
                        st.assume_ge(con(MAXALLOC) - cap)
                        p = P(st.alloc_oid(Arr(1, cap, [(ZERO, cap, ('junk',))], 'malloc', 'live', False, 'destination')))
                    st.ghost['dst0'], st.ghost['cap'] = p, cap
                    for g, v in (('root_dst', p), ('root_len', cap)):
                        st.ghost[g] = P(st.alloc_oid(Blk('out', con(8), {0: (8, v)}, 'uninit', 'user', 'live', None, False,
                                                         'destination')))
                    av.extend([st.ghost['root_dst'], st.ghost['root_len']])
                else:
                    av.append(a)
            if op in ('new', 'init'):
                for g in ('root_data0',) + (('root_buf',) if op == 'new' else ()):
                    del st.heap[st.ghost[g][1]]
                    del st.ghost[g]
            if len(av) != len(f.params):
                raise MissingAPI('signature of %s' % fn)
            st.frames = [Frame(f, {p['id']: a for p, a in zip(f.params, av)})]
            return spec, [st]
        pr = props(op)
        out.append(dict(name=name, group='buffer', props=pr, extra=['C23'] + (['C25'] if op in ('readline', 'flush', 'tostring') else []),
                        start=start, fn=fn))
    for v in (True, False):
        add('buffer_fill', 'fill', ['B', 'SRC', 'L'], valid=v)
        add('buffer_fill_from_fd', 'fillfd', ['B', 'FD', 'COUNT'], valid=v)
        for d in ('null', 'own'):
            add('buffer_read_line', 'readline', ['B', 'DST'], valid=v, dst=d)
            add('buffer_flush', 'flush', ['B', 'DST'], valid=v, dst=d, ro=True)
        add('buffer_to_string', 'tostring', ['B'], valid=v, ro=True)
        add('buffer_len', 'len', ['B'], valid=v, ro=True)
        add('buffer_is_valid', 'isvalid', ['B'], valid=v, ro=True)
        add('buffer_is_empty', 'isempty', ['B'], valid=v, ro=True)
        add('buffer_clear', 'clear', ['B'], valid=v)
        add('buffer_free', 'free', ['B'], valid=v)
        add('buffer_destroy', 'destroy', ['B'], valid=v, origin='malloc')
    add('buffer_new', 'new', ['MAX'])
    add('buffer_init', 'init', ['RAW', 'MAX'])
    return out
