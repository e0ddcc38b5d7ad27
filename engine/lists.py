"""Summaries of linked lists (singly and doubly linked): materialisation on
access and folding at loop heads."""
from absint import *
from interp import Retry
from num import Lin, con, newsym, ZERO, ONE


class NodeType:
    def __init__(self, name, size, next, prev, payload, consts=None):
        self.name = name
        self.consts = consts or {}  # {offset: function state -> value} every summarised node holds there
        self.size = size
        self.next = next
        self.prev = prev            # offset or None
        self.payload = payload      # {offset: ghost field}
        self.layout = {o: 8 for o in payload}
        self.layout[next] = 8
        if prev is not None:
            self.layout[prev] = 8
        for o in self.consts:
            self.layout[o] = 8


class Lists:
    def __init__(self, spec):
        self.spec = spec
        self.nt = {}

    def add(self, nt):
        self.nt[nt.name] = nt

    # ---- building
    def mkblk(self, st, nt, seq, idx, nxt, prv, origin, ro):
        cells = {o: (8, ('E', seq, f, idx)) for o, f in nt.payload.items()}
        cells[nt.next] = (8, nxt)
        for o, f in nt.consts.items():
            cells[o] = (8, f(st))
        if nt.prev is not None:
            cells[nt.prev] = (8, prv)
        return Blk(nt.name, con(nt.size), cells, 'junk', origin, 'live', (seq, idx), ro, nt.name)

    # ---- materialise
    def materialise(self, st, oid, anchor):
        S = st.heap[oid]
        if not isinstance(S, Seg):
            return None
        nt = self.nt[S.nt]
        if S.mix is not None:
            return self.mat_mix(st, oid, S, nt, anchor)
        n = S.hi - S.lo
        if st.eq(n, ONE):
            st.heap[oid] = self.mkblk(st, nt, S.seq, S.lo, S.next, S.prev, S.origin, S.ro)
            self.repoint(st, {(oid, 'first'): (oid, ''), (oid, 'last'): (oid, '')})
            self.spec.apply_attr(st, S.seq, S.lo, S.attr)
            return True
        if not st.ge(n - 2):
            raise Split([lambda s: s.assume_eq(n - 1), lambda s: s.assume_ge(n - 2)])
        b = st.next_oid
        st.next_oid += 1
        if anchor == 'first':
            self.repoint(st, {(oid, 'first'): (b, '')})
            S = st.heap[oid]
            st.heap[b] = self.mkblk(st, nt, S.seq, S.lo, P(oid, ZERO, 'first'), S.prev, S.origin, S.ro)
            st.heap[oid] = S.copy(lo=S.lo + 1, cnt=S.hi - S.lo - 1, prev=P(b))
            self.entry_split(st, S.seq, oid, [('o', b), ('o', oid)])
            self.spec.apply_attr(st, S.seq, S.lo, S.attr)
        else:
            self.repoint(st, {(oid, 'last'): (b, '')})
            S = st.heap[oid]
            st.heap[b] = self.mkblk(st, nt, S.seq, S.hi - 1, S.next, P(oid, ZERO, 'last'), S.origin, S.ro)
            st.heap[oid] = S.copy(hi=S.hi - 1, cnt=S.hi - S.lo - 1, next=P(b))
            self.entry_split(st, S.seq, oid, [('o', oid), ('o', b)])
            self.spec.apply_attr(st, S.seq, S.hi - 1, S.attr)
        return True

    def mat_mix(self, st, oid, S, nt, anchor):
        n = S.cnt
        if not (st.eq(n, ONE) or st.ge(n - 2)):
            raise Split([lambda s: s.assume_eq(n - 1), lambda s: s.assume_ge(n - 2)])
        one = st.eq(n, ONE)
        j = newsym('j')
        st.assume_ge(j - S.lo)
        st.assume_ge(S.hi - 1 - j)
        x = ('x', S.mix)
        def xe(lo, hi):
            return ('x', lo, hi, S.mix)
        if one:
            st.heap[oid] = self.mkblk(st, nt, S.seq, j, S.next, S.prev, S.origin, S.ro)
            self.repoint(st, {(oid, 'first'): (oid, ''), (oid, 'last'): (oid, '')})
            self.entry_split(st, S.seq, oid, [xe(S.lo, j), ('o', oid), xe(j + 1, S.hi)])
            self.spec.apply_attr(st, S.seq, j, S.attr)
            return True
        b = st.next_oid
        st.next_oid += 1
        if anchor == 'first':
            self.repoint(st, {(oid, 'first'): (b, '')})
            S = st.heap[oid]
            st.assume_ge(S.hi - j - S.cnt)
            st.heap[b] = self.mkblk(st, nt, S.seq, j, P(oid, ZERO, 'first'), S.prev, S.origin, S.ro)
            st.heap[oid] = S.copy(lo=j + 1, cnt=S.cnt - 1, prev=P(b))
            self.entry_split(st, S.seq, oid, [xe(S.lo, j), ('o', b), ('o', oid)])
        else:
            self.repoint(st, {(oid, 'last'): (b, '')})
            S = st.heap[oid]
            st.assume_ge(j + 1 - S.lo - S.cnt)
            st.heap[b] = self.mkblk(st, nt, S.seq, j, S.next, P(oid, ZERO, 'last'), S.origin, S.ro)
            st.heap[oid] = S.copy(hi=j, cnt=S.cnt - 1, next=P(b))
            self.entry_split(st, S.seq, oid, [('o', oid), ('o', b), xe(j + 1, S.hi)])
        self.spec.apply_attr(st, S.seq, j, S.attr)
        return True

    def entry_split(self, st, seq, oid, new):
        out = []
        for e in st.seqs[seq]:
            if e == ('o', oid):
                out.extend(new)
            else:
                out.append(e)
        st.seqs[seq] = out

    def repoint(self, st, m):
        def f(v):
            if v[0] == 'P':
                t = m.get((v[1], v[2]))
                if t is not None:
                    return ('P', t[0], t[1], v[3])
            return v
        map_state(st, f)

    # ---- events
    def on_free(self, st, oid, obj):
        """a node's storage was given back: its element leaves the sequence"""
        if obj.ident is not None and isinstance(obj.ident, tuple):
            seq, idx = obj.ident
            attr = self.spec.elem_attr(st, seq, idx)
            self.entry_split(st, seq, oid, [('x', idx, idx + 1, attr)])

    # ---- folding
    def fold(self, st):
        if not any(st.seqs.values()):
            return
        for seq in list(st.seqs):
            self.fold_seq(st, seq)

    def refs(self, st):
        """(oid, anchor) -> list of holders; holder: ('x',) or (oid, field)"""
        R = {}
        def add(v, h):
            for p in leaves(v):
                if not isinstance(p, Lin) and p[0] == 'P':
                    R.setdefault((p[1], p[2]), []).append((h, p))
        for f in st.frames:
            for v in f.env.values():
                add(v, 'env')
        for g, v in st.ghost.items():
            add(v, 'env' if g in self.spec.soft_ghosts else 'ghost')
        for oid, o in st.heap.items():
            if isinstance(o, Blk):
                if o.status == 'freed':
                    continue
                for off, (s, v) in o.cells.items():
                    add(v, (oid, off))
            elif isinstance(o, Seg):
                add(o.next, (oid, 'next'))
                add(o.prev, (oid, 'prev'))
            else:
                add(o.parts(), (oid, '?'))
        return R

    def view(self, st, oid):
        o = st.heap[oid]
        if isinstance(o, Seg):
            return o
        if not isinstance(o, Blk) or o.status != 'live' or o.kind not in self.nt or o.ident is None:
            return None
        nt = self.nt[o.kind]
        seq, idx = o.ident
        idx = st.norm(idx)
        if set(o.cells) - set(nt.layout):
            return None
        for off, f in nt.payload.items():
            c = o.cells.get(off)
            if c is None or c[0] != 8 or st.nv(c[1]) != ('E', seq, f, idx):
                return None
        for off, f in nt.consts.items():
            c = o.cells.get(off)
            w = f(st)
            if c is None or c[0] != 8:
                return None
            if isinstance(w, Lin) != isinstance(c[1], Lin) or not (st.eq(c[1], w) if isinstance(w, Lin) else st.nv(c[1]) == st.nv(w)):
                return None
        nx = o.cells.get(nt.next)
        pv = o.cells.get(nt.prev) if nt.prev is not None else (8, NULL)
        if nx is None or pv is None or nx[1] == UNDEF or pv[1] == UNDEF:
            return None
        attr = self.spec.elem_attr(st, seq, idx)
        return Seg(o.kind, seq, idx, idx + 1, nx[1], pv[1], attr, None, None, o.ro, o.origin)

    def fold_seq(self, st, seq):
        while True:
            ent = st.seqs[seq]
            # merge removed neighbours
            out = []
            for e in ent:
                if e[0] == 'x':
                    if st.eq(e[1], e[2]):
                        continue
                    if out and out[-1][0] == 'x' and self.same_attr(out[-1][3], e[3]):
                        out[-1] = ('x', out[-1][1], e[2], self.join_attr(out[-1][3], e[3]))
                        continue
                out.append(e)
            ent = st.seqs[seq] = out
            R = self.refs(st)
            if self.merge_pass(st, seq, R):
                continue
            nx = [i for i, e in enumerate(ent) if e[0] == 'x']
            if len(nx) + sum(1 for e in ent if e[0] == 'o' and isinstance(st.heap.get(e[1]), Seg)
                             and st.heap[e[1]].mix is not None) >= 2 and self.absorb(st, seq, R):
                continue
            return

    def same_attr(self, a, b):
        return a == b or self.spec.attr_joinable(a, b)

    def join_attr(self, a, b):
        return a if a == b else self.spec.attr_join(a, b)

    def can_merge(self, st, a, b, R):
        """physical merge of live entries a, b (oids); returns (va, vb) or None"""
        va, vb = self.view(st, a), self.view(st, b)
        if va is None or vb is None or va.nt != vb.nt or va.ro != vb.ro or va.origin != vb.origin:
            return None
        nt = self.nt[va.nt]
        af = '' if isinstance(st.heap[a], Blk) else 'first'
        al = '' if isinstance(st.heap[a], Blk) else 'last'
        bf = '' if isinstance(st.heap[b], Blk) else 'first'
        bl = '' if isinstance(st.heap[b], Blk) else 'last'
        if va.next != P(b, ZERO, bf):
            return None
        if nt.prev is not None and vb.prev != P(a, ZERO, al):
            return None
        for h, p in R.get((a, al), ()):
            if h == 'ghost':
                return None
            if al == 'last':
                if nt.prev is not None and h == ((b, nt.prev) if bf == '' else (b, 'prev')):
                    continue
                return None
            if p[3] != ZERO:
                return None          # pointer into the node: keep it explicit
        for h, p in R.get((b, bf), ()):
            if h == 'ghost':
                return None
            if bf == 'first':
                if h == ((a, nt.next) if af == '' else (a, 'next')):
                    continue
                return None
        if af == '':
            pass
        return va, vb

    def do_merge(self, st, a, b, S):
        """objects a,b replaced by S stored under oid a"""
        m = {}
        if isinstance(st.heap[a], Blk):
            m[(a, '')] = (a, 'first')
        if isinstance(st.heap[b], Blk):
            m[(b, '')] = (a, 'last')
        else:
            m[(b, 'last')] = (a, 'last')
        del st.heap[b]
        st.heap[a] = S
        self.repoint(st, m)

    def merge_pass(self, st, seq, R):
        ent = st.seqs[seq]
        for i in range(len(ent) - 1):
            if ent[i][0] != 'o' or ent[i + 1][0] != 'o':
                continue
            a, b = ent[i][1], ent[i + 1][1]
            r = self.can_merge(st, a, b, R)
            if r is None:
                continue
            va, vb = r
            if not self.same_attr(va.attr, vb.attr) or not self.same_mix(va.mix, vb.mix):
                continue
            S = Seg(va.nt, seq, va.lo, vb.hi, vb.next, va.prev, self.join_attr(va.attr, vb.attr), va.cnt + vb.cnt,
                    va.mix if va.mix is not None else vb.mix, va.ro, va.origin)
            self.do_merge(st, a, b, S)
            st.seqs[seq] = ent[:i + 1] + ent[i + 2:]
            return True
        return False

    def same_mix(self, a, b):
        return a is None or b is None or a == b

    def absorb(self, st, seq, R):
        """fold removed ranges into neighbouring live nodes"""
        ent = st.seqs[seq]
        for i, e in enumerate(ent):
            if e[0] != 'x':
                continue
            # x between two live entries that are physically adjacent
            if 0 < i < len(ent) - 1 and ent[i - 1][0] == 'o' and ent[i + 1][0] == 'o':
                a, b = ent[i - 1][1], ent[i + 1][1]
                r = self.can_merge(st, a, b, R)
                if r is not None:
                    va, vb = r
                    if self.same_attr(va.attr, vb.attr) and all(self.same_mix(m, e[3]) for m in (va.mix, vb.mix)):
                        S = Seg(va.nt, seq, va.lo, vb.hi, vb.next, va.prev, self.join_attr(va.attr, vb.attr),
                                va.cnt + vb.cnt, e[3], va.ro, va.origin)
                        self.do_merge(st, a, b, S)
                        st.seqs[seq] = ent[:i] + ent[i + 2:]
                        return True
            for j in (i - 1, i + 1):
                if 0 <= j < len(ent) and ent[j][0] == 'o':
                    o = st.heap.get(ent[j][1])
                    if isinstance(o, Seg) and o.mix is not None and self.same_mix(o.mix, e[3]):
                        st.heap[ent[j][1]] = o.copy(lo=e[1]) if j > i else o.copy(hi=e[2])
                        st.seqs[seq] = ent[:i] + ent[i + 1:]
                        return True
        return False
