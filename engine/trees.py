"""Summaries of binary search trees with red-black attributes.

Sub stands for a whole subtree, Ctx for a path of nodes with their side
subtrees and one hole.  Both carry the range of ranks they hold, black heights
and colours as linear terms.  One distinguished node (the one whose key equals
the key of the operation) occupies the zero-width position x between the ranks.

Nodes are opened on access (every alternative of the shape is one branch) and
folded back at loop heads when the red-black relations of the fold are entailed."""
from absint import *
from interp import Retry
from num import Lin, con, sym, newsym, ZERO, ONE


class Sub(Obj):
    """opt: the subtree may be empty (the pointer to it NULL); only a child
    field or the hole of a path refers to such a one"""
    __slots__ = ('seq', 'has', 'attr', 'ro', 'origin', 'lo', 'hi', 'bh', 'col', 'opt')
    status = 'live'

    def __init__(self, seq, has, attr, ro, origin, lo, hi, bh, col, opt=0):
        self.seq = seq; self.has = has; self.attr = attr; self.ro = ro; self.origin = origin
        self.lo = lo; self.hi = hi; self.bh = bh; self.col = col; self.opt = opt

    def copy(self, **kw):
        b = Sub(self.seq, self.has, self.attr, self.ro, self.origin, self.lo, self.hi, self.bh, self.col, self.opt)
        for k, v in kw.items():
            setattr(b, k, v)
        return b

    def parts(self):
        return (self.lo, self.hi, self.bh, self.col)

    def head(self):
        return ('Sub', self.seq, self.has, self.attr, self.ro, self.origin, self.opt)

    def rebuild(self, p):
        return self.copy(lo=p[0], hi=p[1], bh=p[2], col=p[3])


class Ctx(Obj):
    """k nodes on a path; whole range [A,B), range of the hole [a,b); the hole
    needs black height h, the whole has h+Bk; cf/cl: colour of the first/last.
    has: the distinguished node is no node of the path (0), one left (1) or
    right (2) of the hole"""
    __slots__ = ('seq', 'has', 'attr', 'ro', 'origin', 'A', 'B', 'a', 'b', 'k', 'h', 'Bk', 'cf', 'cl', 'hole')
    status = 'live'
    NUM = ('A', 'B', 'a', 'b', 'k', 'h', 'Bk', 'cf', 'cl')

    def __init__(self, seq, has, attr, ro, origin, hole, **kw):
        self.seq = seq; self.has = has; self.attr = attr; self.ro = ro; self.origin = origin; self.hole = hole
        for k in self.NUM:
            setattr(self, k, kw.get(k))

    def copy(self, **kw):
        b = Ctx(self.seq, self.has, self.attr, self.ro, self.origin, self.hole)
        for k in self.NUM:
            setattr(b, k, getattr(self, k))
        for k, v in kw.items():
            setattr(b, k, v)
        return b

    def parts(self):
        return tuple(getattr(self, k) for k in self.NUM) + (self.hole,)

    def head(self):
        return ('Ctx', self.seq, self.has, self.attr, self.ro, self.origin)

    def rebuild(self, p):
        b = self.copy(hole=p[-1])
        for k, v in zip(self.NUM, p):
            setattr(b, k, v)
        return b


def isnullv(st, v):
    return v == NULL or (isinstance(v, Lin) and st.norm(v) == ZERO)


class Trees:
    def __init__(self, spec, prog):
        self.spec = spec
        f = prog.fields('RBNode')
        self.o = {k: f[k][0] for k in ('key', 'value', 'left', 'right', 'black')}
        self.bw = f['black'][1]
        self.size = prog.size('RBNode')
        it = prog.fields('RBTreeIterStackItem')
        self.isize = prog.size('RBTreeIterStackItem')
        self.inode, self.istate = it['node'], it['state']

    # ---- facts
    def facts(self, st, o):
        """what holds for every summary by construction; False if impossible"""
        x = st.ghost.get('x')
        if isinstance(o, Sub):
            n = o.hi - o.lo + o.has
            ls = [o.hi - o.lo, o.bh, o.col, con(1) - o.col, n - o.bh]
            if o.opt:
                ls += [n - 1 + o.col]
            else:
                ls += [n - 1, o.bh - o.col]
            if o.has:
                ls += [x - o.lo, o.hi - x]
        else:
            ls = [o.k - 1, o.Bk - o.cf, o.Bk - o.cl, o.k - o.Bk, o.a - o.A, o.B - o.b, o.b - o.a,
                  o.B - o.A - o.b + o.a - o.k + (1 if o.has else 0), o.cf, con(1) - o.cf, o.cl, con(1) - o.cl,
                  o.k - 1 - o.cf + o.cl, o.k - 1 - o.cl + o.cf, o.k - 1 - o.Bk + o.cf, o.k - 1 - o.Bk + o.cl, o.h,
                  o.Bk.scale(2) + 1 - o.cf - o.k]
            if o.has == 1:
                ls += [x - o.A, o.a - x]
            if o.has == 2:
                ls += [x - o.b, o.B - x]
        return st.assume_all(ls)

    def colour(self, st, v):
        """colour of the top of what a child pointer refers to"""
        if isP(v):
            o = st.heap.get(v[1])
            if isinstance(o, Sub):
                return o.col
            if isinstance(o, Ctx):
                return o.cf
            if isinstance(o, Blk) and o.kind == 'node' and self.o['black'] in o.cells:
                c = o.cells[self.o['black']][1]
                return c if isinstance(c, Lin) else None
        return None

    def hints(self, st):
        out = []
        x = st.ghost.get('x')
        for o in st.heap.values():
            ends = ()
            if isinstance(o, Ctx):
                ends = (o.a, o.b)
            elif isinstance(o, Sub):
                ends = (o.lo, o.hi)
            elif isinstance(o, Blk) and o.kind == 'node' and o.status == 'live' and isinstance(o.ident, tuple) and o.ident[1] != 'K':
                ends = (o.ident[1], o.ident[1] + 1)
            for e in ends:
                out += [x - e, e - x]
            if isinstance(o, Ctx):
                c = self.colour(st, o.hole)
                if c is not None:
                    out.append(o.cl + c - 1)
            elif isinstance(o, Blk) and o.kind == 'node' and o.status == 'live':
                c = self.colour(st, P(next(k for k, v in st.heap.items() if v is o)))
                if c is not None:
                    out += [c, con(1) - c]
                for f in ('left', 'right'):
                    v = o.cells.get(self.o[f])
                    d = self.colour(st, v[1]) if v else None
                    if c is not None and d is not None:
                        out.append(c + d - 1)
        for oid, sp in self.spec.stacks(st):
            a = st.heap[oid]
            if sp is not None and a.runs:
                out.append(a.runs[-1][1] - 1 - sp)
        return out

    # ---- building nodes
    def content(self, st, seq, m):
        if m == 'K':
            return st.ghost['kkey'], st.ghost['kval']
        return ('E', seq, 'key', m), ('E', seq, 'val', m)

    def mknode(self, st, like, m, c, left, right, attr):
        key, val = self.content(st, like.seq, m)
        o = self.o
        cells = {o['key']: (8, key), o['value']: (8, val), o['left']: (8, left), o['right']: (8, right),
                 o['black']: (self.bw, c)}
        return Blk('node', con(self.size), cells, 'junk', like.origin, 'live', (like.seq, m, attr), like.ro, 'node')

    def newsub(self, st, like, has, attr, lo, hi, bh, up):
        """subtree below a node of colour `up`"""
        c = newsym('c')
        s = Sub(like.seq, has, attr, like.ro, like.origin, st.norm(lo), st.norm(hi), st.norm(bh), c, 0 if has else 1)
        if not self.facts(st, s) or not st.assume_ge(up + c - 1):
            return None
        return st.alloc_oid(s)

    def repoint(self, st, m):
        def f(v):
            if v[0] == 'P':
                t = m.get((v[1], v[2]))
                if t is not None:
                    return ('P', t[0], t[1], v[3])
            return v
        map_state(st, f)

    # ---- opening
    def loaded(self, st, v):
        """a pointer to a subtree that may be empty comes into use"""
        if v[2] != 'root':
            return
        S = st.heap.get(v[1])
        if isinstance(S, Sub) and S.opt:
            raise Split([lambda s: self.be_empty(s, v[1]), lambda s: self.be_some(s, v[1])])

    def be_empty(self, s, oid):
        S = s.heap[oid]
        if not (s.assume_eq(S.hi - S.lo) and s.assume_eq(S.bh) and s.assume_eq(S.col - 1)):
            return False
        del s.heap[oid]
        map_state(s, lambda v: NULL if v[0] == 'P' and v[1] == oid else v)
        return s.num.sat()

    def be_some(self, s, oid):
        S = s.heap[oid] = s.heap[oid].copy(opt=0)
        return self.facts(s, S)

    def materialise(self, st, oid, anchor):
        S = st.heap[oid]
        if isinstance(S, Sub):
            if S.opt:
                self.loaded(st, P(oid, ZERO, 'root'))
            alts = []
            for kp in (('root', 'left', 'right') if S.has else ('no',)):
                alts.append(lambda s, kp=kp: self.open_sub(s, oid, kp))
            raise Split(alts)
        if isinstance(S, Ctx):
            if not st.eq(S.k, ONE) and not st.ge(S.k - 2):
                raise Split([lambda s: s.assume_eq(S.k - 1), lambda s: s.assume_ge(S.k - 2)])
            self.split_ctx(st, oid, 'first')
        return None

    def open_sub(self, s, oid, kp):
        S = s.heap[oid]
        lo, hi = S.lo, S.hi
        x = s.ghost.get('x')
        if kp == 'root':
            m = 'K'
            lhi = rlo = x
        else:
            m = newsym('m')
            if not (s.assume_ge(m - lo) and s.assume_ge(hi - 1 - m)):
                return False
            lhi, rlo = m, m + 1
            if kp == 'left' and not s.assume_ge(m - x):
                return False
            if kp == 'right' and not s.assume_ge(x - m - 1):
                return False
        c = S.col
        bhc = S.bh - c
        kids = []
        for a, b, has in ((lo, lhi, int(kp == 'left')), (rlo, hi, int(kp == 'right'))):
            k = self.newsub(s, S, has, S.attr, a, b, bhc, c)
            if k is None:
                return False
            kids.append(P(k, ZERO, 'root'))
        if m != 'K':
            m = s.norm(m)
        s.heap[oid] = self.mknode(s, S, m, s.norm(c), kids[0], kids[1], S.attr)
        self.repoint(s, {(oid, 'root'): (oid, '')})
        return s.num.sat()

    def run_of(self, st, oid):
        """(array, run index) of the stack run that holds the nodes of a path"""
        for aoid, a in st.heap.items():
            if isinstance(a, Arr) and a.status == 'live':
                for i, (lo, hi, d) in enumerate(a.runs):
                    if d[0] == 'path' and d[1][1] == oid:
                        return aoid, i
        return None

    def cell_of(self, arr, oid, dirn):
        p = P(oid)
        if arr.stride == 8:
            return ('cells', ((0, 8, p),))
        return ('cells', ((self.inode[0], 8, p), (self.istate[0], self.istate[1], con(1 if dirn == 'l' else 2))))

    def split_ctx(self, st, oid, which):
        C = st.heap[oid]
        only = st.eq(C.k, ONE)
        alts = []
        for d in 'lr':
            for isk in ((0, 1) if C.has == {'l': 2, 'r': 1}[d] else (0,)):
                if only and C.has and not isk:
                    continue
                f = self.open_only if only else self.open_last if which == 'last' else self.open_first
                alts.append(lambda s, f=f, d=d, isk=isk: f(s, oid, d, isk))
        raise Split(alts)

    def side(self, st, C, a, b, bh, c, attr):
        """the other child of a path node: a subtree for [a,b)"""
        k = self.newsub(st, C, 0, attr, a, b, bh, c)
        return None if k is None else P(k, ZERO, 'root')

    def attrs(self, C, d):
        """(attribute of the node, of its other subtree)"""
        a = C.attr
        return (a[2], a[3]) if d == 'l' else (a[1], a[0])

    def open_only(self, s, oid, d, isk):
        C = s.heap[oid]
        if not (s.assume_eq(C.k - 1) and s.assume_eq(C.cf - C.cl) and s.assume_eq(C.Bk - C.cf)):
            return False
        x = s.ghost.get('x')
        na, sa = self.attrs(C, d)
        if d == 'l':
            if not s.assume_eq(C.A - C.a):
                return False
            if isk:
                if not s.assume_eq(x - C.b):
                    return False
                m, olo = 'K', C.b
            else:
                m, olo = C.b, C.b + 1
            o = self.side(s, C, olo, C.B, C.h, C.cf, sa)
        else:
            if not s.assume_eq(C.B - C.b):
                return False
            if isk:
                if not s.assume_eq(x - C.a):
                    return False
                m, ohi = 'K', C.a
            else:
                m, ohi = C.a - 1, C.a - 1
            o = self.side(s, C, C.A, ohi, C.h, C.cf, sa)
        if o is None:
            return False
        if m != 'K':
            m = s.norm(m)
        r = self.run_of(s, oid)
        left, right = (C.hole, o) if d == 'l' else (o, C.hole)
        s.heap[oid] = self.mknode(s, C, m, s.norm(C.cf), left, right, na)
        if r:
            a = s.heap[r[0]]
            runs = list(a.runs)
            lo, hi, _ = runs[r[1]]
            runs[r[1]] = (lo, hi, self.cell_of(a, oid, d))
            s.heap[r[0]] = a.copy(runs=runs)
        self.repoint(s, {(oid, 'first'): (oid, '')})
        return s.num.sat()

    def open_last(self, s, oid, d, isk):
        C = s.heap[oid]
        if not s.assume_ge(C.k - 2):
            return False
        x = s.ghost.get('x')
        na, sa = self.attrs(C, d)
        c = C.cl
        if d == 'l':
            a2 = C.a
            if isk:
                if not s.assume_eq(x - C.b):
                    return False
                m, olo = 'K', C.b
            else:
                m, olo = C.b, C.b + 1
            b2 = newsym('b')
            if not (s.assume_ge(b2 - olo) and s.assume_ge(C.B - b2)):
                return False
            o = self.side(s, C, olo, b2, C.h, c, sa)
        else:
            b2 = C.b
            if isk:
                if not s.assume_eq(x - C.a):
                    return False
                m, ohi = 'K', C.a
            else:
                m, ohi = C.a - 1, C.a - 1
            a2 = newsym('a')
            if not (s.assume_ge(ohi - a2) and s.assume_ge(a2 - C.A)):
                return False
            o = self.side(s, C, a2, ohi, C.h, c, sa)
        if o is None:
            return False
        c2 = newsym('c')
        if m != 'K':
            m = s.norm(m)
        left, right = (C.hole, o) if d == 'l' else (o, C.hole)
        n = s.alloc_oid(self.mknode(s, C, m, s.norm(c), left, right, na))
        C2 = C.copy(a=s.norm(a2), b=s.norm(b2), k=s.norm(C.k - 1), h=s.norm(C.h + c), Bk=s.norm(C.Bk - c), cl=c2, hole=P(n))
        C2.has = 0 if isk else C.has
        s.heap[oid] = C2
        if not self.facts(s, C2) or not s.assume_ge(c2 + c - 1):
            return False
        r = self.run_of(s, oid)
        if r:
            a = s.heap[r[0]]
            runs = list(a.runs)
            lo, hi, dd = runs[r[1]]
            runs[r[1]:r[1] + 1] = [(lo, hi - 1, dd), (hi - 1, hi, self.cell_of(a, n, d))]
            s.heap[r[0]] = a.copy(runs=runs)
        return s.num.sat()

    def open_first(self, s, oid, d, isk):
        C = s.heap[oid]
        if not s.assume_ge(C.k - 2):
            return False
        x = s.ghost.get('x')
        na, sa = self.attrs(C, d)
        c = C.cf
        hc = s.norm(C.h + C.Bk - c)
        if d == 'l':
            A2 = C.A
            B2 = newsym('B')
            if not (s.assume_ge(B2 - C.b) and s.assume_ge(C.B - B2)):
                return False
            if isk:
                if not s.assume_eq(x - B2):
                    return False
                m, olo = 'K', B2
            else:
                m, olo = B2, B2 + 1
            o = self.side(s, C, olo, C.B, hc, c, sa)
        else:
            B2 = C.B
            A2 = newsym('A')
            if not (s.assume_ge(C.a - A2) and s.assume_ge(A2 - C.A)):
                return False
            if isk:
                if not s.assume_eq(x - A2):
                    return False
                m, ohi = 'K', A2
            else:
                m, ohi = A2 - 1, A2 - 1
            o = self.side(s, C, C.A, ohi, hc, c, sa)
        if o is None:
            return False
        c2 = newsym('c')
        if m != 'K':
            m = s.norm(m)
        n = s.next_oid
        s.next_oid += 1
        self.repoint(s, {(oid, 'first'): (n, '')})
        C = s.heap[oid]
        low = P(oid, ZERO, 'first')
        left, right = (low, o) if d == 'l' else (o, low)
        s.heap[n] = self.mknode(s, C, m, s.norm(c), left, right, na)
        C2 = C.copy(A=s.norm(A2), B=s.norm(B2), k=s.norm(C.k - 1), Bk=s.norm(C.Bk - c), cf=c2)
        C2.has = 0 if isk else C.has
        s.heap[oid] = C2
        if not self.facts(s, C2) or not s.assume_ge(c2 + c - 1):
            return False
        # the run held pointers to the nodes of the path by its description
        for aoid, a in list(s.heap.items()):
            if isinstance(a, Arr) and a.status == 'live':
                for i, (lo, hi, dd) in enumerate(a.runs):
                    if dd[0] == 'path' and dd[1][1] == n:
                        runs = list(a.runs)
                        runs[i:i + 1] = [(lo, lo + 1, self.cell_of(a, n, d)), (lo + 1, hi, ('path', low))]
                        s.heap[aoid] = a.copy(runs=runs)
        return s.num.sat()

    # ---- stack runs
    def split_desc(self, st, aoid, d, lo, hi, idx, left, right):
        if d[0] != 'path':
            return None
        oid = d[1][1]
        C = st.heap[oid]
        if not st.eq(C.k, hi - lo):
            raise Undecided('stack and path differ in length')
        if not right or not left:
            self.split_ctx(st, oid, 'last' if not right else 'first')
        if st.ge(idx + 7 - hi):
            self.split_ctx(st, oid, 'last')
        if st.ge(lo + 6 - idx):
            self.split_ctx(st, oid, 'first')
        raise Undecided('access to the middle of a path')

    def ptr_eq(self, st, a, b):
        return None

    # ---- folding
    def refs(self, st):
        R = {}
        def add(v, h):
            for p in leaves(v):
                if not isinstance(p, Lin) and p[0] == 'P':
                    R.setdefault(p[1], []).append((h, p))
        for f in st.frames:
            for v in f.env.values():
                add(v, 'env')
        for v in st.ghost.values():
            add(v, 'env')
        for oid, o in st.heap.items():
            if getattr(o, 'status', 'live') == 'freed':
                continue
            if isinstance(o, Blk):
                for off, (s, v) in o.cells.items():
                    add(v, ('fld', oid, off))
            elif isinstance(o, Ctx):
                add(o.hole, ('hole', oid))
            elif isinstance(o, Arr):
                for i, (lo, hi, d) in enumerate(o.runs):
                    if d[0] == 'path':
                        add(d[1], ('run', oid, i))
                    elif d[0] == 'cells':
                        for q, s, v in d[1]:
                            add(v, ('cell', oid, i))
        return R

    def is_link(self, st, h):
        """holder is a child field, a root field or the hole of a path"""
        if h[0] == 'hole':
            return True
        if h[0] != 'fld':
            return False
        o = st.heap[h[1]]
        if o.kind == 'node':
            return h[2] in (self.o['left'], self.o['right'])
        return (o.kind, h[2]) in self.spec.root_fields

    def trim(self, st):
        """cells of a traversal stack above the stack pointer do not matter"""
        for aoid, sp in self.spec.stacks(st):
            a = st.heap[aoid]
            out = []
            for lo, hi, d in a.runs:
                if st.eq(lo, hi):
                    continue
                if d[0] != 'junk' and (sp is None or st.ge(lo - sp - 1) or d[0] in ('uninit', 'zero')):
                    d = ('junk',)
                if out and out[-1][2][0] == 'junk' and d[0] == 'junk':
                    out[-1] = (out[-1][0], hi, d)
                else:
                    out.append((lo, hi, d))
            if out and out[-1][2][0] != 'junk':
                out.append((out[-1][1], out[-1][1], ('junk',)))
            st.heap[aoid] = a.copy(runs=out)

    def fold(self, st):
        self.spec.adopt(st)
        self.trim(st)
        for _ in range(200):
            if not self.fold_once(st):
                break
        if self.spec.lazy:
            self.weaken(st)

    def weaken(self, st):
        """a subtree only a child field or a hole refers to may as well be
        empty; its size says whether it is"""
        R = self.refs(st)
        for oid, o in list(st.heap.items()):
            if isinstance(o, Sub) and not o.opt and not o.has:
                rs = R.get(oid, ())
                if len(rs) == 1 and rs[0][0] != 'env' and self.is_node_link(st, rs[0][0]):
                    st.heap[oid] = o.copy(opt=1)
        for oid in list(st.heap):
            o = st.heap[oid]
            if isinstance(o, Blk) and o.kind == 'node' and o.status == 'live' and isinstance(o.ident, tuple):
                lo, hi = self.own(st, o)
                for f, at in (('left', lo), ('right', hi)):
                    c = o.cells.get(self.o[f])
                    if c is not None and c[0] == 8 and isnullv(st, c[1]):
                        k = st.alloc_oid(Sub(o.ident[0], 0, o.ident[2], o.ro, o.origin, at, at, ZERO, ONE, 1))
                        cells = dict(st.heap[oid].cells)
                        cells[self.o[f]] = (8, P(k, ZERO, 'root'))
                        st.heap[oid] = st.heap[oid].copy(cells=cells)
            elif isinstance(o, Ctx) and isnullv(st, o.hole):
                k = st.alloc_oid(Sub(o.seq, 0, o.attr[0], o.ro, o.origin, o.a, o.a, ZERO, ONE, 1))
                st.heap[oid] = o.copy(hole=P(k, ZERO, 'root'))

    def is_node_link(self, st, h):
        return self.is_link(st, h) and (h[0] == 'hole' or st.heap[h[1]].kind == 'node')

    def child(self, st, R, o, off):
        """('null',) | ('sub', oid, Sub) | ('blocked', value)"""
        v = o.cells[off][1]
        if isnullv(st, v):
            return ('null',)
        if isP(v) and v[2] == 'root' and len(R.get(v[1], ())) == 1:
            return ('sub', v[1], st.heap[v[1]])
        return ('blocked', v)

    def plain(self, st, oid):
        """a complete node holding what its position says"""
        o = st.heap[oid]
        if not isinstance(o, Blk) or o.kind != 'node' or o.status != 'live' or not isinstance(o.ident, tuple):
            return None
        want = {'key': 8, 'value': 8, 'left': 8, 'right': 8, 'black': self.bw}
        if set(o.cells) != set(self.o.values()) or any(o.cells[self.o[k]][0] != w for k, w in want.items()):
            return None
        c = o.cells[self.o['black']][1]
        if not isinstance(c, Lin):
            return None
        seq, m, attr = o.ident
        key, val = st.nv(o.cells[self.o['key']][1]), st.nv(o.cells[self.o['value']][1])
        if m == 'K':
            if key in (UNDEF, JUNK) or val in (UNDEF, JUNK):
                return None
        elif key != st.nv(('E', seq, 'key', m)) or val != st.nv(('E', seq, 'val', m)):
            return None
        return o

    def holders(self, st, R, oid):
        """(links, cells) or None when something else refers to the node"""
        links, cells = [], []
        for h, p in R.get(oid, ()):
            if h == 'env' or p[3] != ZERO:
                return None
            if h[0] == 'cell':
                cells.append(h)
            elif self.is_link(st, h):
                links.append(h)
            else:
                return None
        if len(links) != 1:
            return None
        return links, cells

    def own(self, st, o):
        m = o.ident[1]
        if m == 'K':
            return st.ghost['x'], st.ghost['x']
        return m, m + 1

    def fold_once(self, st):
        R = self.refs(st)
        for oid in sorted(st.heap):
            o = self.plain(st, oid)
            if o is None:
                continue
            h = self.holders(st, R, oid)
            if h is None:
                continue
            l, r = self.child(st, R, o, self.o['left']), self.child(st, R, o, self.o['right'])
            nb = (l[0] == 'blocked') + (r[0] == 'blocked')
            if nb == 0 and not h[1]:
                if self.to_sub(st, oid, o, l, r):
                    return True
            elif nb == 1:
                if self.to_ctx(st, R, oid, o, l, r, h[1]):
                    return True
        for oid in sorted(st.heap):
            if isinstance(st.heap[oid], Ctx):
                if self.merge(st, R, oid) or self.close(st, R, oid):
                    return True
        return False

    def keep_k(self, st, o):
        if o.ident[1] == 'K':
            st.ghost['kkey'] = o.cells[self.o['key']][1]
            st.ghost['kval'] = o.cells[self.o['value']][1]

    def to_sub(self, st, oid, o, l, r):
        lo, hi = self.own(st, o)
        c = o.cells[self.o['black']][1]
        seq, m, attr = o.ident
        has = int(m == 'K')
        bh = None
        for ch, side in ((l, 0), (r, 1)):
            if ch[0] == 'null':
                b = ZERO
            else:
                S = ch[2]
                if not isinstance(S, Sub) or S.seq != seq or S.attr != attr or S.ro != o.ro or S.origin != o.origin:
                    return False
                if not st.ge(c + S.col - 1):
                    return False
                if side == 0:
                    if not st.eq(S.hi, lo):
                        return False
                elif not st.eq(S.lo, hi):
                    return False
                has += S.has
                b = S.bh
            if bh is None:
                bh = b
            elif not st.eq(bh, b):
                return False
        if l[0] == 'sub':
            lo = l[2].lo
        if r[0] == 'sub':
            hi = r[2].hi
        if has > 1:
            return False
        self.keep_k(st, o)
        st.heap[oid] = Sub(seq, has, attr, o.ro, o.origin, st.norm(lo), st.norm(hi), st.norm(bh + c), st.norm(c))
        for ch in (l, r):
            if ch[0] == 'sub':
                del st.heap[ch[1]]
        self.repoint(st, {(oid, ''): (oid, 'root')})
        return True

    def bounds(self, st, v, depth=0):
        if not isP(v) or depth > 12:
            return None
        o = st.heap.get(v[1])
        if isinstance(o, Sub):
            return o.lo, o.hi
        if isinstance(o, Ctx):
            return o.A, o.B
        if not isinstance(o, Blk) or o.kind != 'node' or o.status != 'live' or not isinstance(o.ident, tuple):
            return None
        lo, hi = self.own(st, o)
        for off, i in ((self.o['left'], 0), (self.o['right'], 1)):
            c = o.cells.get(off)
            if c is None:
                return None
            if isnullv(st, c[1]):
                continue
            b = self.bounds(st, c[1], depth + 1)
            if b is None:
                return None
            if i == 0:
                if not st.eq(b[1], lo):
                    return None
                lo = b[0]
            else:
                if not st.eq(b[0], hi):
                    return None
                hi = b[1]
        return lo, hi

    def to_ctx(self, st, R, oid, o, l, r, cells):
        d = 'l' if l[0] == 'blocked' else 'r'
        hole, oth = (l[1], r) if d == 'l' else (r[1], l)
        if not isP(hole) or hole[3] != ZERO:
            return False
        seq, m, attr = o.ident
        c = o.cells[self.o['black']][1]
        # the place on the stack
        run = None
        if len(cells) > 1:
            return False
        if cells:
            aoid, i = cells[0][1], cells[0][2]
            arr = st.heap[aoid]
            lo, hi, desc = arr.runs[i]
            cc = {q: v for q, s, v in desc[1]}
            off = 0
            if arr.stride != 8:
                off = self.inode[0]
                want = con(1 if d == 'l' else 2)
                if cc.get(self.istate[0]) != want:
                    return False
            if cc.get(off) != P(oid):
                return False
            nxt = arr.runs[i + 1] if i + 1 < len(arr.runs) else None
            tgt = None
            if nxt is not None:
                if nxt[2][0] == 'path':
                    tgt = nxt[2][1]
                elif nxt[2][0] == 'cells':
                    tgt = {q: v for q, s, v in nxt[2][1]}.get(off)
            if tgt is not None and tgt == hole:
                run = (aoid, i)
            else:
                sp = dict(self.spec.stacks(st)).get(aoid)
                if sp is None or not st.eq(sp, lo):
                    return False
                if hole[2] == 'root':
                    run = (aoid, i)
                elif arr.stride != 8:
                    return False
        b = self.bounds(st, hole)
        if b is None:
            return False
        olo, ohi = self.own(st, o)
        bh = ZERO
        if oth[0] == 'sub':
            S = oth[2]
            if not isinstance(S, Sub) or S.has or S.seq != seq or S.ro != o.ro or S.origin != o.origin:
                return False
            if not st.ge(c + S.col - 1):
                return False
            bh = S.bh
        tmpl = self.spec.ctx_attr(st, seq)
        na, sa = (tmpl[2], tmpl[3]) if d == 'l' else (tmpl[1], tmpl[0])
        if attr != na or (oth[0] == 'sub' and oth[2].attr != sa):
            return False
        if d == 'l':
            if not st.eq(b[1], olo):
                return False
            A = a = b[0]
            bb = olo
            B = ohi
            if oth[0] == 'sub':
                if not st.eq(oth[2].lo, ohi):
                    return False
                B = oth[2].hi
        else:
            if not st.eq(b[0], ohi):
                return False
            B = bb = b[1]
            a = ohi
            A = olo
            if oth[0] == 'sub':
                if not st.eq(oth[2].hi, olo):
                    return False
                A = oth[2].lo
        self.keep_k(st, o)
        n = st.norm
        C = Ctx(seq, (2 if d == 'l' else 1) if m == 'K' else 0, tmpl, o.ro, o.origin, hole, A=n(A), B=n(B), a=n(a), b=n(bb), k=ONE, h=n(bh), Bk=n(c),
                cf=n(c), cl=n(c))
        st.heap[oid] = C
        if oth[0] == 'sub':
            del st.heap[oth[1]]
        if run:
            arr = st.heap[run[0]]
            runs = list(arr.runs)
            lo, hi, _ = runs[run[1]]
            runs[run[1]] = (lo, hi, ('path', P(oid, ZERO, 'first')))
            st.heap[run[0]] = arr.copy(runs=runs)
        self.repoint(st, {(oid, ''): (oid, 'first')})
        return True

    def merge(self, st, R, u):
        U = st.heap[u]
        if not isP(U.hole) or U.hole[2] != 'first':
            return False
        w = U.hole[1]
        L = st.heap[w]
        if not isinstance(L, Ctx) or U.head()[1] != L.seq or U.attr != L.attr or U.ro != L.ro or U.origin != L.origin:
            return False
        if U.has and L.has:
            return False
        for h, p in R.get(w, ()):
            if h == ('hole', u):
                continue
            if h[0] == 'run':
                continue
            return False
        ru, rl = self.run_of(st, u), self.run_of(st, w)
        if (ru is None) != (rl is None):
            return False
        if ru is not None and (ru[0] != rl[0] or ru[1] + 1 != rl[1]):
            return False
        if not (st.eq(U.h, L.h + L.Bk) and st.ge(U.cl + L.cf - 1) and st.eq(U.a, L.A) and st.eq(U.b, L.B)):
            return False
        n = st.norm
        M = U.copy(a=L.a, b=L.b, k=n(U.k + L.k), h=L.h, Bk=n(U.Bk + L.Bk), cl=L.cl, hole=L.hole)
        M.has = U.has or L.has
        st.heap[u] = M
        del st.heap[w]
        if ru is not None:
            arr = st.heap[ru[0]]
            runs = list(arr.runs)
            runs[ru[1]:ru[1] + 2] = [(runs[ru[1]][0], runs[rl[1]][1], ('path', P(u, ZERO, 'first')))]
            st.heap[ru[0]] = arr.copy(runs=runs)
        return True

    def close(self, st, R, u):
        """a path whose hole is filled again is a whole subtree"""
        U = st.heap[u]
        if self.run_of(st, u) is not None or len(set(U.attr)) != 1:
            return False
        for h, p in R.get(u, ()):
            if h == 'env' or not self.is_link(st, h):
                return False
        v = U.hole
        if isnullv(st, v):
            bh, col, lo, hi, has = ZERO, ONE, U.a, U.a, 0
        else:
            if not isP(v) or v[2] != 'root' or len(R.get(v[1], ())) != 1:
                return False
            S = st.heap[v[1]]
            if S.seq != U.seq or S.attr != U.attr[0] or S.ro != U.ro or S.origin != U.origin:
                return False
            bh, col, lo, hi, has = S.bh, S.col, S.lo, S.hi, S.has
        if has and U.has:
            return False
        if not (st.eq(bh, U.h) and st.ge(U.cl + col - 1) and st.eq(lo, U.a) and st.eq(hi, U.b)):
            return False
        st.heap[u] = Sub(U.seq, int(bool(has or U.has)), U.attr[0], U.ro, U.origin, U.A, U.B, st.norm(U.h + U.Bk), U.cf)
        if isP(v):
            del st.heap[v[1]]
        self.repoint(st, {(u, 'first'): (u, 'root')})
        return True
