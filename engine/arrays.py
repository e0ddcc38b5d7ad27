"""Array runs that hold consecutive elements of a ghost sequence.

desc ('sq', seq, field, shift): entry k holds element k+shift."""
from absint import *
from num import Lin, ZERO, ONE


class SeqArrays:
    def __init__(self, spec):
        self.spec = spec

    def peek_desc(self, st, d, lo, hi, idx, sub, size):
        if d[0] == 'sq' and sub == 0 and size == 8:
            return ('E', d[1], d[2], st.norm(idx + d[3]))
        return None

    def split_desc(self, st, oid, d, lo, hi, idx, left, right):
        if d[0] == 'sq':
            return d, ('cells', ((0, 8, ('E', d[1], d[2], st.norm(idx + d[3]))),)), d

    def cut_desc(self, st, oid, d, lo, hi, at):
        if d[0] == 'sq':
            return d, d

    def shift_desc(self, st, d, delta):
        if d[0] == 'sq':
            return ('sq', d[1], d[2], st.norm(d[3] - delta))

    def same(self, st, a, b):
        if a[0] != b[0]:
            return False
        if a[0] == 'sq':
            return a[1:3] == b[1:3] and st.eq(a[3], b[3])
        return a[0] in ('uninit', 'zero', 'junk')

    def norm_runs(self, st, arr):
        out = []
        for lo, hi, d in arr.runs:
            if st.eq(lo, hi):
                continue
            if d[0] == 'cells' and arr.stride == 8:
                if not d[1]:
                    d = ('uninit',)
                elif len(d[1]) == 1 and d[1][0][0] == 0 and d[1][0][1] == 8:
                    v = d[1][0][2]
                    if isinstance(v, tuple) and v and v[0] == 'E':
                        v = st.nv(v)
                        d = ('sq', v[1], v[2], st.norm(v[3] - lo))
                    elif v == UNDEF:
                        d = ('uninit',)
            if out and self.same(st, out[-1][2], d):
                out[-1] = (out[-1][0], hi, d)
            else:
                out.append((lo, hi, d))
        return out

    def fold(self, st):
        for oid, o in list(st.heap.items()):
            if isinstance(o, Arr) and o.status == 'live' and o.runs:
                r = self.norm_runs(st, o)
                if r != o.runs:
                    st.heap[oid] = o.copy(runs=r)

    def tokens(self, st, arr, lo, hi):
        """content of [lo,hi) as ('sq', seq, field, from, to) and values, in order"""
        out = []
        for a, b, d in self.norm_runs(st, arr):
            if st.decide_ge(lo - b):
                continue
            if st.decide_ge(a - hi):
                break
            if st.decide_ge(lo - a - 1):
                a = lo
            if st.decide_ge(b - hi - 1):
                b = hi
            if st.decide_eq(b - a):
                continue
            if d[0] == 'sq':
                t = ('sq', d[1], d[2], st.norm(a + d[3]), st.norm(b + d[3]))
                if out and out[-1][0] == 'sq' and out[-1][1:3] == t[1:3] and st.eq(out[-1][4], t[3]):
                    t = ('sq', d[1], d[2], out[-1][3], t[4])
                    out[-1] = t
                else:
                    out.append(t)
            elif d[0] == 'cells' and len(d[1]) == 1 and d[1][0][:2] == (0, 8):
                v = d[1][0][2]
                if isinstance(v, Lin) and st.norm(v) == ZERO:
                    v = NULL
                out.append(('v', st.nv(v)))
            else:
                out.append((d[0],))
        return out
