"""hashtable.c: bucket arrays are runs of arbitrary chains; the chain an
operation looks into is materialised as a list segment."""
import ir
from absint import *
from interp import Analyzer, Retry
from lists import Lists, NodeType
from mapbase import MapSpec, D, V
from base import BIG
from num import Lin, con, sym, newsym, ZERO, ONE

NEW, REPLACED = 0, 1
HELD = (('cmp', 0), ('k', 'held'), ('s', 0), ('v', 'held'))
SEARCHED = (('cmp', 1), ('k', 'held'), ('s', 0), ('v', 'held'))
MOVED = (('moved', 1),)
LOAD = 8          # average chain length a growing table may reach
CLEARING = ('clear', 'free', 'destroy')
ITER = ('iterate', 'iterate_macros')


def isNull(st, v):
    return v == NULL or (isinstance(v, Lin) and st.norm(v) == ZERO)


class Buckets:
    """runs ('ch', gen, attr): entry k is chain k of table generation gen"""
    def __init__(self, spec):
        self.spec = spec

    def peek_desc(self, st, d, lo, hi, idx, sub, size):
        if d[0] == 'ch' and sub == 0 and size == 8:
            return st.nv(('E', d[1], 'chain', idx))
        if d[0] == 'tab' and sub == 0 and size == 8:
            return self.spec.table_value(st, d[1], idx)
        return None

    def split_desc(self, st, oid, d, lo, hi, idx, left, right):
        if d[0] == 'ch':
            return d, ('cells', ((0, 8, st.nv(('E', d[1], 'chain', idx))),)), d

    def cut_desc(self, st, oid, d, lo, hi, at):
        if d[0] == 'ch':
            return d, d

    def opaque_access(self, *a):
        return None

    def locate(self, st, arr, idx):
        """run that certainly contains idx (no case split)"""
        for i, (lo, hi, d) in enumerate(arr.runs):
            if st.ge(idx - lo) and st.ge(hi - idx - 1):
                return i
        return None

    def set_entry(self, st, oid, idx, desc):
        arr = st.heap[oid]
        i = self.locate(st, arr, idx)
        if i is None:
            return False
        lo, hi, d = arr.runs[i]
        new = []
        if not st.eq(lo, idx):
            new.append((lo, idx, d))
        new.append((idx, idx + 1, desc))
        if not st.eq(idx + 1, hi):
            new.append((idx + 1, hi, d))
        runs = list(arr.runs)
        runs[i:i + 1] = new
        st.heap[oid] = arr.copy(runs=runs)
        return True

    def fold(self, st):
        sp = self.spec
        # chains known to be empty
        if sp.op in CLEARING + ITER or sp.growing(st):
            for k, v in list(st.facts.items()):
                if k[0] == 'null' and v is True and k[1][0] == 'E' and k[1][2] == 'chain':
                    gen, idx = k[1][1], k[1][3]
                    done = sp.done(st, gen)
                    for oid, arr in list(st.heap.items()):
                        if isinstance(arr, Arr) and arr.status == 'live':
                            i = self.locate(st, arr, idx)
                            if i is None:
                                continue
                            d = arr.runs[i][2]
                            if (d[0] == 'ch' and d[1] == gen and d[2] != done) or \
                                    (d[0] == 'cells' and d[1] and d[1][0][2] == k[1]):
                                nothing = done == MOVED and sp.is_source(st, oid)
                                if nothing and not st.flags.get('absent'):
                                    h = sp.home(st, D, st.ghost['size'])
                                    if h is not None and st.eq(h, idx) and st.norm(st.ghost['found']) != ONE:
                                        # the search saw it empty, moving starts from here
                                        st.flags['absent'] = True
                                        continue
                                self.set_entry(st, oid, idx, ('zero',) if nothing else ('ch', gen, done))
                    e = k[1]
                    if not (gen == 'N' and self.pending(st, e)):
                        map_state(st, lambda x: NULL if x == e else x)
                        st.facts.pop(k, None)
        for oid, arr in list(st.heap.items()):
            if isinstance(arr, Arr) and arr.status == 'live' and arr.stride == 8:
                self.fold_array(st, oid)

    def pending(self, st, e):
        """a node was put in front of chain e and is not folded yet"""
        for oid, arr in st.heap.items():
            if isinstance(arr, Arr) and arr.status == 'live':
                for lo, hi, d in arr.runs:
                    if d[0] == 'cells' and len(d[1]) == 1 and isP(d[1][0][2]) and st.eq(lo, e[3]):
                        return True
        return False

    def fold_array(self, st, oid):
        sp = self.spec
        arr = st.heap[oid]
        src = sp.is_source(st, oid)
        out = []
        runs = list(arr.runs)
        for i in range(len(runs)):
            arr = st.heap[oid]
            lo, hi, d = arr.runs[i]
            if d[0] == 'cells' and len(d[1]) == 1 and d[1][0][:2] == (0, 8):
                v = d[1][0][2]
                nd = None
                if isP(v) and not st.eq(v[3], ZERO):
                    pass
                elif isP(v):
                    nd = sp.fold_chain(st, oid, lo, v)
                elif isinstance(v, tuple) and v[0] == 'E' and v[2] == 'chain' and st.eq(v[3], lo) and \
                        ('null', st.nv(v)) not in st.facts:
                    nd = ('ch', v[1], HELD)
                elif isNull(st, v):
                    nd = ('zero',)
                elif v == UNDEF:
                    nd = ('uninit',)
                if nd is not None:
                    arr = st.heap[oid]
                    r = list(arr.runs)
                    r[i] = (lo, hi, nd)
                    st.heap[oid] = arr.copy(runs=r)
            elif d[0] == 'zero' and sp.op == 'set' and not src and arr.origin == 'malloc':
                r = list(arr.runs)
                r[i] = (lo, hi, ('ch', 'N', HELD))
                st.heap[oid] = arr.copy(runs=r)
        arr = st.heap[oid]
        out = []
        gone = (('zero',), ('ch', 'T', MOVED)) if src and sp.op == 'set' else ()
        for lo, hi, d in arr.runs:
            if st.eq(lo, hi):
                continue
            if out and d in gone and out[-1][2] in gone:
                out[-1] = (out[-1][0], hi, d if d == out[-1][2] else gone[1])
            elif out and out[-1][2] == d and d[0] != 'cells':
                out[-1] = (out[-1][0], hi, d)
            else:
                out.append((lo, hi, d))
        if out != arr.runs:
            st.heap[oid] = arr.copy(runs=out)


class HashSpec(MapSpec):
    key_ghosts = ('found',)
    SEQ = 'C'

    CONTAINER = ('root', 'HashTable', ('compare_keys', 'free_key', 'free_value', 'hash', 'size', 'sizeptr', 'grow', 'buckets', 'count',
                                       'pool', 'pair'), ('hashtable_free', 'hashtable_destroy'))

    def __init__(self, prog, entry, case, op, cfg):
        super().__init__(prog)
        self.entry, self.case, self.op, self.cfg = entry, case, op, cfg
        self.F = prog.fields('HashTable')
        self.PF = prog.fields('_HashTablePair')
        bf = prog.fields('_Bucket')
        self.BF = bf
        self.L = Lists(self)
        self.node = NodeType('bucket', prog.size('_Bucket'), bf['next'][0], None,
                             {bf['key'][0]: 'key', bf['data'][0]: 'val'})
        self.L.add(self.node)
        self.B = Buckets(self)
        self.plugins = [self.B, self.L]
        self.ro = bool(cfg.get('ro'))
        self.fk, self.fv = bool(cfg.get('fk')), bool(cfg.get('fv'))
        self.REL = (('cmp', 0), ('k', 'rel' if self.fk else 'held'), ('s', 0), ('v', 'rel' if self.fv else 'held'))
        self.VIS = (('cmp', 0), ('k', 'held'), ('s', 1), ('v', 'held'))

    # ---- the size table
    def global_object(self, st, name, d):
        if 'init' in d and d.get('esz') == 8 and d.get('const') and len(d['init']) > 1:
            return Arr(8, con(d['size']), [(ZERO, con(len(d['init'])), ('tab', name))], 'global:' + name, 'live', True, name)
        return None

    def table_info(self, name):
        v = [int(x) % (1 << 64) for x in self.prog.globals[name]['init']]
        end = v.index(0) if 0 in v else len(v)
        inc = all(a < b for a, b in zip(v[:end], v[1:end]))
        return v, end, inc

    def table_value(self, st, name, idx):
        v, end, inc = self.table_info(name)
        idx = st.norm(idx)
        if idx.is_const():
            return con(v[idx.k]) if 0 <= idx.k < len(v) else JUNK
        k = ('tab', name, idx)
        r = st.terms.get(k)
        if r is not None:
            return r
        if st.decide_ge(idx - end):
            if st.decide_eq(idx - end) and end < len(v):
                return ZERO
            return JUNK
        r = newsym('size')
        st.assume_ge(r - min(v[:end]))
        st.assume_ge(con(max(v[:end])) - r)
        if inc:
            for k2, r2 in list(st.terms.items()):
                if k2[0] == 'tab' and k2[1] == name:
                    d = st.norm(idx - k2[2])
                    if d.is_const():
                        st.assume_ge(r - r2 - d.k) if d.k > 0 else st.assume_ge(r2 - r + d.k)
        st.terms[st.nv(k) if False else ('tab', name, st.norm(idx))] = r
        return st.norm(r)

    # ---- pre-state
    def base_state(self, grow=None):
        st = State()
        if ir.ASSERTS:          # keys are asserted to be non-null
            st.facts[('null', D)] = False
        n, s = newsym('n'), newsym('size')
        op = self.op
        st.ghost['n'], st.ghost['size'] = n, s
        st.ghost['found'] = ZERO
        st.assume_ge(n)
        st.assume_ge(con(BIG) - n)
        st.assume_ge(s - 1)
        st.assume_ge(con(BIG) - s)
        st.seqs['C'] = []
        F = self.F
        sp = NULL
        if grow:
            st.assume_ge(s.scale(LOAD) - n)
            i = newsym('i')
            name = grow
            v, end, inc = self.table_info(name)
            st.assume_ge(i)
            st.assume_ge(con(end - 1) - i)
            st.assume_ge(s - min(v[:end]))
            st.assume_ge(con(max(v[:end])) - s)
            st.terms[('tab', name, i)] = s
            st.ghost['step'] = i
            self.cfg['table'] = name
            goid = self.an.global_oid(st, name)
            sp = P(goid, i.scale(8))
        arr = Arr(8, s.scale(8), [(ZERO, s, ('ch', 'T', HELD))], 'malloc', 'live', self.ro, 'buckets')
        aoid = st.alloc_oid(arr)
        st.ghost['T'] = P(aoid)
        poid = st.alloc_oid(self.pool_object(con(self.node.size)))
        fk = ('CB', 'free_key') if self.fk else NULL
        fv = ('CB', 'free_value') if self.fv else NULL
        cells = {}
        for f, x in (('compare_keys', ('CB', 'compare')), ('free_key', fk), ('free_value', fv), ('hash', ('CB', 'hash')),
                     ('size', s), ('sizeptr', sp), ('grow', con(1 if grow else 0)), ('buckets', P(aoid)), ('count', n),
                     ('pool', P(poid))):
            cells[F[f][0]] = (F[f][1], x)
        cells[F['pair'][0] + self.PF['free_value'][0]] = (8, fv)
        cells[F['pair'][0] + self.PF['bucket'][0]] = (8, JUNK)
        t = Blk('table', con(self.prog.size('HashTable')), cells, 'junk', 'malloc' if op == 'destroy' else 'user', 'live', None,
                self.ro, 'hash table')
        st.ghost['root'] = P(st.alloc_oid(t))
        return st

    def pool_object(self, item):
        pf = self.prog.fields('Pool')
        return Blk('pool', con(self.prog.size('MemoryPool')),
                   {pf['alloc'][0]: (8, ('CB', 'pool_alloc')), pf['free'][0]: (8, ('CB', 'pool_free'))},
                   'junk', 'tpool', 'live', None, False, "table's pool")

    def ro_write(self, st, oid, obj, off):
        if isinstance(obj, Blk) and obj.kind == 'table' and self.op == 'lookup':
            lo = self.F['pair'][0]
            if off.is_const() and lo <= off.k < lo + self.F['pair'][1]:
                return
        super().ro_write(st, oid, obj, off)

    # ---- generations
    def is_source(self, st, oid):
        return st.ghost.get('T') == P(oid)

    def growing(self, st):
        """old and new bucket array exist side by side"""
        if self.op != 'set' or 'T' not in st.ghost:
            return False
        t = st.heap.get(st.ghost['T'][1])
        if t is None or t.status != 'live':
            return False
        return any(isinstance(o, Arr) and o.status == 'live' and o.origin == 'malloc' and o is not t for o in st.heap.values())

    def done(self, st, gen):
        if self.op in CLEARING:
            return self.REL
        if self.op in ITER:
            return self.VIS
        if gen == 'T' and self.growing(st):
            return MOVED
        return HELD

    # ---- chains
    def opaque_access(self, st, ptr, size, write):
        if ptr[0] == 'E' and ptr[2] == 'chain':
            if st.isnull(ptr):
                self.an.violation(st, 'null-dereference', 'access through the null pointer of an empty bucket', ('ub', 'null'))
            self.mat_chain(st, st.nv(ptr))
            raise Retry()
        super().opaque_access(st, ptr, size, write)

    def opaque_add(self, st, b, off):
        if b[0] == 'E' and b[2] == 'chain':
            if st.isnull(b):
                return ('Z', off)
            self.mat_chain(st, st.nv(b))
            raise Retry()
        return super().opaque_add(st, b, off)

    def mat_chain(self, st, e):
        gen, idx = e[1], e[3]
        if st.flags.get('dead'):
            self.an.violation(st, 'use-after-free', 'an entry is accessed after the pool it lives in was destroyed', ('ub', 'uaf'))
        if st.seqs.get('C'):
            raise Undecided('two chains are inspected at once')
        if gen == 'N':
            t = st.heap.get(st.ghost['T'][1])
            if t is not None and t.status == 'live' and not self.drained(st, t):
                raise Undecided('a chain of the new table is inspected before all entries were moved')
        attr = HELD
        for oid, arr in list(st.heap.items()):
            if isinstance(arr, Arr) and arr.status == 'live' and any(d[0] == 'ch' and d[1] == gen for _, _, d in arr.runs):
                i = self.an.find_run(st, arr, idx)
                d = arr.runs[i][2]
                if d[0] == 'ch' and d[1] == gen:
                    attr = d[2]
                    self.an.isolate(st, oid, idx)
        if attr == MOVED:
            raise Undecided('a chain that was already moved is inspected')
        m = newsym('m')
        st.assume_ge(m - 1)
        if not st.assume_ge(st.ghost['n'] - m):
            raise Stop()
        st.ghost['m'], st.ghost['cidx'] = m, idx
        st.flags['cgen'] = gen
        oid = st.alloc_oid(Seg('bucket', 'C', ZERO, m, NULL, NULL, attr, None, None, self.ro, 'tnode'))
        st.seqs['C'] = [('o', oid)]
        p = P(oid, ZERO, 'first')
        st.facts.pop(('null', e), None)
        map_state(st, lambda x: p if x[0] == 'E' and st.nv(x) == e else x)

    def drained(self, st, t):
        for lo, hi, d in t.runs:
            if st.eq(lo, hi):
                continue
            if d[0] == 'ch' and d[2] == MOVED:
                continue
            if d[0] in ('junk', 'zero'):
                continue
            if d[0] == 'cells' and d[1] and d[1][0][2] in (JUNK, NULL):
                continue
            return False
        return True

    def elem_attr(self, st, seq, idx):
        k, v = st.nv(('E', 'C', 'key', idx)), st.nv(('E', 'C', 'val', idx))
        if st.facts.get(('moved', k)):
            return MOVED
        dv = st.dst.get(v, 'held')
        if self.fv and dv == 'held' and st.facts.get(('null', v)) is True:
            if self.op in CLEARING or (self.op == 'remove' and 'e' in st.ghost and st.eq(st.ghost['e'], idx)):
                dv = 'rel'      # a NULL value needs no release
        return (('cmp', 1 if st.facts.get(('ne', k)) else 0), ('k', st.dst.get(k, 'held')),
                ('s', 1 if st.facts.get(('vis', k)) else 0), ('v', dv))

    def apply_attr(self, st, seq, idx, attr):
        a = dict(attr)
        k, v = st.nv(('E', 'C', 'key', idx)), st.nv(('E', 'C', 'val', idx))
        if a.get('cmp'):
            st.facts[('ne', k)] = True
        if a.get('s'):
            st.facts[('vis', k)] = True
        if a.get('k') == 'rel':
            st.dst[k] = 'rel'
        if a.get('v') == 'rel':
            st.dst[v] = 'rel'

    def refs_to(self, st, oid):
        """holders of pointers to oid: list of 'env' or (oid, what)"""
        out = []
        def has(v):
            return any(not isinstance(p, Lin) and p[0] == 'P' and p[1] == oid for p in leaves(v))
        for f in st.frames:
            for v in f.env.values():
                if has(v):
                    out.append('env')
        for g, v in st.ghost.items():
            if has(v):
                out.append('env')
        for q, o in st.heap.items():
            if o.status == 'freed':
                continue
            if isinstance(o, Arr):
                for lo, hi, d in o.runs:
                    if has(d):
                        out.append((q, lo))
            elif q != oid and has((o.next, o.attr) if isinstance(o, Seg) else o.parts()):
                out.append((q, None))
        return out

    def fold_chain(self, st, oid, idx, v):
        """class of a bucket whose cell holds pointer v, if it can be summarised"""
        ent = st.seqs.get('C') or []
        node = st.heap.get(v[1])
        if self.growing(st) and not self.is_source(st, oid):
            return self.fold_moved(st, oid, idx, v)
        searched = self.op == 'set' and self.growing(st) and st.norm(st.ghost['found']) != ONE
        if self.op not in CLEARING + ITER and not searched:
            return None
        if [e for e in ent] != [('o', v[1])] or 'cidx' not in st.ghost or not st.eq(st.ghost['cidx'], idx):
            return None
        w = self.L.view(st, v[1])
        if w is None or w.mix is not None or not st.eq(w.lo, ZERO) or not st.eq(w.hi, st.ghost['m']) or w.next != NULL:
            return None
        if any(r == 'env' or not (r[0] == oid and r[1] is not None and st.eq(r[1], idx)) for r in self.refs_to(st, v[1])):
            return None
        attr = w.attr
        if searched and attr == SEARCHED:
            st.flags['absent'] = True
            attr = HELD
        if attr not in ((HELD,) if searched else (HELD, self.REL, self.VIS)):
            return None
        del st.heap[v[1]]
        st.seqs['C'] = []
        del st.ghost['cidx'], st.ghost['m']
        st.flags.pop('cgen', None)
        return ('ch', 'T', attr)

    def fold_moved(self, st, oid, idx, v):
        an = self.an
        node = st.heap.get(v[1])
        if not isinstance(node, Blk) or node.kind != 'bucket' or not node.ident or node.status != 'live':
            return None
        w = self.L.view(st, v[1])
        if w is None:
            return None
        nx = st.nv(w.next)
        e = st.nv(('E', 'N', 'chain', idx))
        if isNull(st, nx):
            if st.facts.get(('null', e)) is not True:
                return None
        elif nx[0] != 'E' or nx[1:3] != ('N', 'chain') or not st.eq(nx[3], idx):
            return None
        tcells = []
        for r in self.refs_to(st, v[1]):
            if r == 'env':
                return None
            if r[0] == oid and r[1] is not None and st.eq(r[1], idx):
                continue
            if self.is_source(st, r[0]):
                tcells.append(r)
                continue
            return None
        k = node.ident[1]
        key = st.nv(('E', 'C', 'key', k))
        h = self.home(st, key, self.array_size(st, oid))
        if h is None or not st.eq(h, idx):
            an.report(st, 'wrong-bucket', 'an entry is moved to a bucket its key does not hash to', ('grow', 'map'))
        for q, lo in tcells:
            t = st.heap[q]
            st.heap[q] = t.copy(runs=[(a, b, ('cells', ((0, 8, JUNK),))) if d[0] == 'cells' and any(
                not isinstance(p, Lin) and p[0] == 'P' and p[1] == v[1] for p in leaves(d)) else (a, b, d) for a, b, d in t.runs])
        del st.heap[v[1]]
        for q, o in list(st.heap.items()):
            if isinstance(o, Seg) and isP(o.prev) and o.prev[1] == v[1]:
                st.heap[q] = o.copy(prev=NULL)
        self.L.entry_split(st, 'C', v[1], [('x', k, k + 1, MOVED)])
        for f in [f for f in st.facts if f[0] == 'null' and f[1][0] == 'E' and f[1][1:3] == ('N', 'chain')]:
            del st.facts[f]
        return ('ch', 'N', HELD)

    def cur_size(self, st):
        v = self.cell(st, st.heap[st.ghost['root'][1]], self.F['size'])
        return v if isinstance(v, Lin) else None

    def array_size(self, st, oid):
        """number of buckets of an array, whatever the table says about it at the moment"""
        z = st.norm(st.heap[oid].size)
        if z.k % 8 or any(c % 8 for _, c in z.t):
            return self.cur_size(st)
        return Lin(z.k // 8, tuple((x, c // 8) for x, c in z.t))

    def home(self, st, key, size):
        H = st.terms.get(('hash', key))
        if H is None or size is None:
            return None
        H, size = st.norm(H), st.norm(size)
        if H.is_const() and size.is_const():
            return con(H.k % size.k)
        r = st.terms.get(('urem', H, size))
        if r is not None:
            return st.norm(r)
        if size.is_const():
            if size == ONE:
                return ZERO
            q = st.terms.get(('udiv', H, size))
            return None if q is None else st.norm(H - q.scale(size.k))
        return None

    def fold_end(self, st):
        """all elements of the inspected chain were moved"""
        ent = st.seqs.get('C') or []
        if ent and all(e[0] == 'x' and e[3] == MOVED for e in ent):
            pos = ZERO
            for e in ent:
                if not st.eq(e[1], pos):
                    return
                pos = e[2]
            if not st.eq(pos, st.ghost['m']):
                return
            st.seqs['C'] = []
            idx = st.ghost['cidx']
            t = st.ghost['T'][1]
            if t in st.heap and st.heap[t].status == 'live':
                arr = st.heap[t]
                i = self.B.locate(st, arr, idx)
                if i is not None and arr.runs[i][2] == ('cells', ((0, 8, JUNK),)):
                    self.B.set_entry(st, t, idx, ('ch', 'T', MOVED))
                    self.B.fold_array(st, t)
            del st.ghost['cidx'], st.ghost['m']
            st.flags.pop('cgen', None)

    def head_facts(self, st):
        g = st.ghost
        st.assume_ge(g['n'])
        st.assume_ge(con(BIG) - g['n'])
        st.assume_ge(g['size'] - 1)
        st.assume_ge(con(BIG) - g['size'])
        for k, v in st.terms.items():
            if k[0] == 'tab':
                t, end, inc = self.table_info(k[1])
                if not st.norm(v).is_const():
                    st.assume_ge(v - min(t[:end]))
                    st.assume_ge(con(max(t[:end])) - v)
        if 'm' in g:
            st.assume_ge(g['m'] - 1)
            st.assume_ge(g['n'] - g['m'])

    def searched_before(self, st):
        """where the key was looked for before the table grew does not matter any
        more once the search is over and nothing refers to it"""
        if not st.flags.get('absent') or not self.growing(st):
            return False
        H = st.terms.get(('hash', D))
        if H is None:
            return False
        syms = set(s for s, _ in st.norm(H).t)
        for k, v in st.terms.items():
            if k[0] in ('urem', 'udiv') and k[1] == st.norm(H) and isinstance(v, Lin):
                syms |= set(s for s, _ in st.norm(v).t)
        for f in st.frames:
            for v in f.env.values():
                if isinstance(v, Lin) and any(s in syms for s, _ in st.norm(v).t):
                    return False
        return True

    def keep_term(self, st, k, v, seen, r):
        if k[0] in ('hash', 'urem', 'udiv') and self.searched_before(st):
            return None
        if k[0] == 'hash' and k[1] == D:
            kk, nv = r(v)
            return ('hash', 'D', kk), k, nv
        if k[0] in ('urem', 'udiv'):
            H = st.terms.get(('hash', D))
            if H is not None and k[1] == st.norm(H):
                ka, na = r(k[1])
                kb, nb = r(k[2])
                kv, nv = r(v)
                return (k[0], ka, kb, kv), (k[0], na, nb), nv
            return None
        if k[0] == 'tab':
            ki, ni = r(k[2])
            kv, nv = r(v)
            return ('tab', k[1], ki, kv), ('tab', k[1], ni), nv
        return None

    # ---- callbacks
    def key_arg(self, st, v, what):
        v = self.user(st, v, what)
        if v[0] == 'E':
            if v[2] != 'key':
                self.an.violation(st, 'bad-callback-argument', 'something that is no key is given to the %s function' % what,
                                  ('find', 'ub'))
            if st.dst.get(v) == 'rel':
                self.an.violation(st, 'use-after-release', 'a key is passed to the %s function after it was released' % what,
                                  ('release', 'ub'))
        elif v != D:
            self.an.violation(st, 'bad-callback-argument', 'something that is no key is given to the %s function' % what,
                              ('find', 'ub'))
        else:
            self.caller_key(st)
        return v

    def callback(self, st, role, args, ins):
        an = self.an
        if role == 'hash':
            v = self.key_arg(st, args[0], 'hash')
            r = st.terms.get(('hash', v))
            if r is None:
                r = newsym('hash')
                st.assume_ge(r)
                st.assume_ge(con((1 << 32) - 1) - r)
                st.terms[('hash', v)] = r
            return r
        if role == 'compare':
            a, b = self.key_arg(st, args[0], 'compare'), self.key_arg(st, args[1], 'compare')
            return ONE if self.equal(st, a, b) else ZERO
        if role == 'free_key':
            return self.release(st, 'key', args[0])
        if role == 'free_value':
            return self.release(st, 'val', args[0])
        if role == 'pool_alloc':
            self.check_pool(st, args[0])
            return P(st.alloc_oid(Blk('bucket', con(self.node.size), {}, 'uninit', 'tnode', 'live', None, False, 'table entry')))
        if role == 'pool_free':
            self.check_pool(st, args[0])
            p = args[1]
            if p == UNDEF or not isP(p):
                an.violation(st, 'bad-free', 'something that is no entry is given back to the pool', ('ub', 'alloc'))
            self.release_storage(st, p, 'tnode', "the pool's free")
            return None
        if role == 'visit':
            return self.visit(st, args)
        if role == 'again':
            if an.decide_bool(st, an.num_of(st, args[0])):
                an.report(st, 'iteration-restarts', 'iter_next returns true again after it had returned false', ('iter',))
            return None
        raise Undecided('callback %s' % role)

    def check_pool(self, st, p):
        if not isP(p) or st.heap[p[1]].kind != 'pool' or st.heap[p[1]].status != 'live' or p[3] != ZERO:
            self.an.violation(st, 'wrong-pool', "a pool function is called on something that is not the table's live pool",
                              ('ub', 'alloc'))

    def visit(self, st, args):
        an = self.an
        k, v = st.nv(args[0]), st.nv(args[1])
        if not isinstance(k, tuple) or k[0] != 'E' or k[2] != 'key' or k[1] != 'C':
            an.violation(st, 'bad-iteration', 'the iterator delivers something that is no key', ('iter',))
        if st.facts.get(('vis', k)):
            an.violation(st, 'visited-twice', 'an entry is visited twice', ('iter',))
        if v != st.nv(('E', 'C', 'val', k[3])):
            an.report(st, 'bad-iteration', 'the iterator delivers a value that does not belong to the key', ('iter',))
        st.facts[('vis', k)] = True
        return None

    def equal(self, st, a, b):
        if a == b:
            return True
        if a[0] == 'E' and b[0] == 'E':
            return st.decide_eq(a[3] - b[3])
        k = a if a[0] == 'E' else b
        if k[0] != 'E':
            return False
        if st.flags.get('absent'):
            return False      # every entry of the home bucket was compared before the table grew
        size = st.ghost['size'] if st.flags.get('cgen') == 'T' else self.cur_size(st)
        h = self.home(st, D, size)
        if h is None or 'cidx' not in st.ghost or not st.eq(h, st.ghost['cidx']):
            return False      # D can only be in its home bucket
        if st.norm(st.ghost['found']) == ONE:
            return st.decide_eq(k[3] - st.ghost['e'])
        if st.facts.get(('ne', k)):
            return False
        def ne(s):
            s.facts[('ne', s.nv(k))] = True
            return True
        def eq(s):
            s.ghost['found'] = ONE
            s.ghost['e'] = s.norm(k[3])
            return True
        raise Split([eq, ne])

    def release(self, st, field, v):
        an = self.an
        what = {'key': 'key', 'val': 'value'}[field]
        if v == UNDEF:
            an.violation(st, 'uninitialised', 'the %s free function is called on an uninitialised value' % what, ('release', 'ub'))
        if v == NULL or isinstance(v, Lin):
            an.violation(st, 'release-null', 'the %s free function is called with NULL' % what, ('release',))
        if v == JUNK:
            raise Undecided('release of an unknown value')
        if v[0] != 'E' or v[2] != field:
            an.violation(st, 'release-foreign', 'the %s free function is called on something that is no stored %s' % (what, what),
                         ('release', 'replace'))
        v = st.nv(v)
        if field == 'val' and st.facts.get(('null', v)) is not False:
            an.report(st, 'release-null', 'the value free function may be called with NULL', ('release',))
        if st.dst.get(v) == 'rel':
            an.violation(st, 'double-release', 'a %s is released twice' % what, ('release', 'replace'))
        st.dst[v] = 'rel'
        self.note_release(st, field)
        return None

    # ---- storage events
    def extern(self, name):
        if name in ('memory_pool_new', 'memory_pool_destroy'):
            return getattr(self, 'm_' + name)
        return super().extern(name)

    def m_memory_pool_new(self, st, args, ins):
        a, b = self.an.num_of(st, args[0]), self.an.num_of(st, args[1])
        if not st.ge(a - self.node.size):
            self.an.report(st, 'small-pool-items', "the table's pool has items smaller than an entry", ('ub', 'oob'))
        if not st.ge(b - 2):
            self.an.report(st, 'bad-pool', 'the pool is created with a block size below two', ('ub', 'alloc'))
        return P(st.alloc_oid(self.pool_object(a)))

    def m_memory_pool_destroy(self, st, args, ins):
        p = args[0]
        if p == UNDEF or not isP(p):
            self.an.violation(st, 'bad-free', 'something that is no pool is destroyed', ('ub', 'alloc'))
        if st.heap[p[1]].status == 'freed':
            self.an.violation(st, 'double-free', 'the pool is destroyed twice', ('ub', 'alloc'))
        self.check_pool(st, p)
        self.all_released(st, None)
        st.heap[p[1]] = st.heap[p[1]].copy(status='freed')
        st.flags['dead'] = True
        for oid, o in list(st.heap.items()):
            if isinstance(o, Blk) and o.origin == 'tnode' and o.status == 'live':
                st.heap[oid] = o.copy(status='freed')
        return None

    def all_released(self, st, only):
        """called when entries become inaccessible: they must have been released"""
        an = self.an
        for oid, arr in st.heap.items():
            if isinstance(arr, Arr) and arr.status == 'live' and (only is None or oid == only[0]):
                for lo, hi, d in arr.runs:
                    if d[0] != 'ch' or d[2] in (self.REL, MOVED) or st.eq(lo, hi):
                        continue
                    if only is not None and only[1] is not None and (st.ge(lo - only[2]) or st.ge(only[1] - hi)):
                        continue
                    if st.eq(hi, lo + 1) and st.facts.get(('null', st.nv(('E', d[1], 'chain', lo)))) is True:
                        continue
                    if self.op in CLEARING:
                        an.report(st, 'not-released', 'entries leave the table whose key or value is not released', ('release',))
                    else:
                        an.violation(st, 'entries-lost', 'entries that belong to the table are lost', ('map', 'grow'))
        for e in st.seqs.get('C') or []:
            if e[0] == 'o' and only is None and e[1] in st.heap:
                w = self.L.view(st, e[1])
                if w is not None and w.attr != self.REL:
                    an.report(st, 'not-released', 'entries leave the table whose key or value is not released', ('release',))

    def x_free(self, st, args, ins):
        p = args[0]
        if isP(p) and not p[2]:
            o = st.heap.get(p[1])
            if isinstance(o, Arr) and o.status == 'live' and not st.flags.get('dead'):
                self.all_released(st, (p[1], None, None))
        return super().x_free(st, args, ins)

    def on_blockwrite(self, st, oid, obj, off, n):
        if isinstance(obj, Arr) and self.op in CLEARING and not st.flags.get('dead'):
            lo, s1 = self.an.elem_index(st, obj, off)
            hi, s2 = self.an.elem_index(st, obj, off + n)
            self.all_released(st, (oid, lo, hi))

    def on_store(self, st, oid, obj, off, size, v):
        if isinstance(obj, Blk) and obj.kind == 'bucket' and obj.origin == 'tnode':
            self.dead(st)
        if isinstance(obj, Arr) and self.op in CLEARING and not st.flags.get('dead') and any(d[0] == 'ch' for _, _, d in obj.runs):
            lo, s1 = self.an.elem_index(st, obj, off)
            i = self.an.find_run(st, obj, lo)
            d = obj.runs[i][2]
            if d[0] == 'ch' and d[2] != self.REL and st.facts.get(('null', st.nv(('E', d[1], 'chain', lo)))) is not True:
                self.an.report(st, 'not-released', 'entries leave the table whose key or value is not released', ('release',))

    def on_load(self, st, oid, obj, off, size):
        if isinstance(obj, Blk) and obj.kind == 'bucket' and obj.origin == 'tnode':
            self.dead(st)

    def dead(self, st):
        if st.flags.get('dead'):
            self.an.violation(st, 'use-after-free', 'an entry is accessed after the pool it lives in was destroyed', ('ub', 'uaf'))

    def collect(self, st):
        super().collect(st)
        self.fold_end(st)
        self.keep_home(st)

    def keep_home(self, st):
        """remember that the key's bucket was seen to be empty, also where no variable holds its (null) head any more"""
        st.ghost.pop('hc', None)
        if self.op in CLEARING + ITER or ('hash', D) not in st.terms:
            return
        for k, v in st.facts.items():
            if k[0] == 'null' and v is True and isinstance(k[1], tuple) and k[1][0] == 'E' and k[1][2] == 'chain':
                h = self.home(st, D, self.cur_size(st))
                if h is not None and st.eq(k[1][3], h):
                    st.ghost['hc'] = k[1]
                    return

    def leakable(self, st, oid, o):
        if o.origin == 'tnode':
            return not st.flags.get('dead')
        return o.origin in ('malloc', 'tpool')

    def leak(self, st, oid, o):
        if st.flags.get('oom'):
            return
        if o.origin == 'tnode':
            w = self.L.view(st, oid)
            if self.op in CLEARING:
                if w is not None and w.attr != self.REL:
                    self.an.report(st, 'not-released', 'entries leave the table whose key or value is not released', ('release',))
                return
            if w is not None:
                self.an.report(st, 'entries-lost', 'entries that belong to the table are lost', ('map', 'grow', 'leak'))
            else:
                self.an.report(st, 'leak', 'a table entry becomes unreachable without being given back', ('leak',))
            return
        super().leak(st, oid, o)

    def allowed_abort(self, st):
        """the size table has no larger entry"""
        if self.op != 'set' or not self.cfg.get('grow'):
            return False
        v, end, inc = self.table_info(self.cfg['table'])
        return st.eq(st.ghost['step'], con(end - 1))

    # ---- post
    def finish(self, st, ret):
        if st.flags.get('oom'):
            self.an.violation(st, 'failed-allocation-ignored', 'the function returns although memory was refused', ('oom',))
        for _ in range(20):
            try:
                self.B.fold(st)
                break
            except Retry:
                pass
        if self.cfg.get('again'):
            if not st.eq(st.u(self.an.num_of(st, ret)), ONE):
                self.an.report(st, 'wrong-result', 'an entry that was removed is still found', ('find', 'map'))
            return
        getattr(self, 'post_' + self.op)(st, ret)
        self.collect(st)

    def parts(self, st):
        an = self.an
        r = st.ghost['root']
        if st.heap[r[1]].status != 'live':
            an.violation(st, 'broken-container', 'the table was given back', ('map', 'ub'))
        o = st.heap[r[1]]
        F = self.F
        n = self.num(st, self.cell(st, o, F['count']), 'entry count')
        s = self.num(st, self.cell(st, o, F['size']), 'table size')
        b = self.cell(st, o, F['buckets'])
        if not isP(b) or b[2] or st.heap[b[1]].status != 'live' or b[3] != ZERO:
            an.violation(st, 'broken-container', 'the bucket array is no live allocation', ('map', 'ub', 'grow'))
        a = st.heap[b[1]]
        if isinstance(a, Blk):
            a = an.to_array(st, b[1], 8)
        if a.stride != 8:
            a = an.restride(st, b[1], a, 8)
        if a.origin != 'malloc':
            an.report(st, 'broken-container', 'the bucket array is no heap allocation', ('map', 'alloc'))
        if not st.ge(s - 1):
            an.violation(st, 'broken-container', 'the table size is zero', ('map', 'grow'))
        if not st.ge(a.size - s.scale(8)):
            an.violation(st, 'small-bucket-array', 'the bucket array is smaller than the table size', ('map', 'grow', 'ub'))
        if self.op == 'set' and not st.eq(s, st.ghost['size']) and any(
                d[0] == 'ch' and d[1] == 'T' and d[2] != MOVED and not st.eq(lo, hi) for lo, hi, d in a.runs):
            raise Undecided('the table is rehashed in place')
        p = self.cell(st, o, F['pool'])
        if not isP(p) or p[2] or st.heap[p[1]].status != 'live' or p[3] != ZERO or st.heap[p[1]].kind != 'pool':
            an.violation(st, 'broken-container', 'the table has no live pool', ('map', 'alloc', 'ub'))
        fk = ('CB', 'free_key') if self.fk else NULL
        fv = ('CB', 'free_value') if self.fv else NULL
        cells = [('compare_keys', F['compare_keys'], ('CB', 'compare')), ('hash', F['hash'], ('CB', 'hash')),
                 ('free_key', F['free_key'], fk), ('free_value', F['free_value'], fv),
                 ('pair.free_value', (F['pair'][0] + self.PF['free_value'][0], 8), fv)]
        for f, off, want in cells:
            v = self.cell(st, o, off)
            if isNull(st, v):
                v = NULL
            if v != want:
                an.report(st, 'configuration-lost', 'the table lost its %s setting' % f, ('map', 'release'))
        g = self.cell(st, o, F['grow'])
        if not isinstance(g, Lin) or not st.eq(g, con(1 if self.cfg.get('grow') else 0)):
            an.report(st, 'configuration-lost', 'the table lost its grow setting', ('map', 'grow'))
        if self.cfg.get('grow'):
            sp = self.cell(st, o, F['sizeptr'])
            ok = isP(sp) and isinstance(st.heap[sp[1]], Arr)
            if ok:
                i, sub = an.elem_index(st, st.heap[sp[1]], sp[3])
                v = self.table_value(st, st.heap[sp[1]].runs[0][2][1], i) if st.heap[sp[1]].runs[0][2][0] == 'tab' else JUNK
                ok = sub == 0 and isinstance(v, Lin) and st.eq(v, s)
            if not ok:
                an.report(st, 'size-mismatch', 'the table size is not the entry of the size table the table refers to',
                          ('map', 'grow'))
        if any(d[:2] == ('ch', 'N') for lo, hi, d in a.runs) and not st.eq(a.size, s.scale(8)):
            an.violation(st, 'wrong-size', 'entries were distributed over a number of buckets that is not the table size', ('map', 'grow'))
        st.ghost['n1'] = n
        return n, s, b[1], a

    def lost(self, st, what='entries that belong to the table are lost'):
        self.an.violation(st, 'entries-lost', what, ('map', 'grow'))

    def content(self, st, s, a, new=None):
        """checks that every chain is intact; returns tokens of the inspected chain (and new nodes) and its bucket"""
        an = self.an
        pos = ZERO
        toks, where = [], None
        for lo, hi, d in a.runs:
            if st.decide_ge(pos - s):
                break
            if st.eq(lo, hi):
                continue
            if not st.eq(lo, pos):
                raise Undecided('bucket array with gaps')
            pos = hi
            if d[0] == 'ch':
                x = dict(d[2])
                if 'moved' in x or x['k'] != 'held' or x['v'] != 'held':
                    self.lost(st, 'buckets hold entries that were moved away or released')
                continue
            if d[0] == 'cells' and len(d[1]) == 1 and d[1][0][:2] == (0, 8):
                v = d[1][0][2]
                if isinstance(v, tuple) and v[0] == 'E' and v[2] == 'chain' and st.eq(v[3], lo):
                    continue
                if isNull(st, v):
                    if self.empty(st, lo):
                        continue
                    if 'cidx' in st.ghost and st.eq(st.ghost['cidx'], lo):
                        where = lo
                        continue
                    self.lost(st)
                if isP(v):
                    if where is not None:
                        raise Undecided('two inspected chains')
                    where = lo
                    toks = self.walk(st, v, lo)
                    continue
                self.lost(st, 'a bucket holds something that is no chain')
            if d[0] == 'zero':
                if st.eq(hi, lo + 1) and (self.empty(st, lo) or ('cidx' in st.ghost and st.eq(st.ghost['cidx'], lo))):
                    if not self.empty(st, lo):
                        where = lo
                    continue
                self.lost(st)
            self.lost(st, 'a bucket holds something that is no chain')
        if not st.ge(pos - s):
            self.lost(st, 'the bucket array does not cover the table')
        return toks, where

    def empty(self, st, idx):
        return any(st.facts.get(('null', st.nv(('E', g, 'chain', idx)))) is True for g in 'TN')

    def walk(self, st, p, idx):
        an = self.an
        toks = []
        seen = set()
        while True:
            if isNull(st, p):
                return toks
            if isinstance(p, tuple) and p[0] == 'E' and p[2] == 'chain' and st.eq(p[3], idx):
                if not self.empty(st, idx):
                    toks.append(('chain', idx))
                return toks
            if not isP(p) or p[1] in seen or (p[3] != ZERO):
                self.an.violation(st, 'broken-chain', 'a bucket chain is not a proper list', ('map', 'ub'))
            seen.add(p[1])
            o = st.heap[p[1]]
            if o.status != 'live':
                an.violation(st, 'dangling-entry', 'a bucket chain contains an entry that was given back', ('map', 'uaf'))
            if isinstance(o, Seg):
                if p[2] == 'last' and not st.eq(o.cnt, ONE):
                    self.lost(st)
                if o.mix is not None:
                    raise Undecided('partly removed chain')
                a = dict(o.attr)
                if a.get('k') != 'held' or a.get('v') != 'held':
                    an.report(st, 'released-kept', 'an entry that stays stored is released', ('release',))
                toks.append(('sq', st.norm(o.lo), st.norm(o.hi)))
                p = o.next
                continue
            if not isinstance(o, Blk) or o.origin != 'tnode':
                an.violation(st, 'foreign-entry', "an entry that is not from the table's pool is linked into a bucket", ('map', 'alloc'))
            k = self.cell(st, o, self.BF['key'])
            v = self.cell(st, o, self.BF['data'])
            if isNull(st, v):
                v = NULL
            i = st.norm(o.ident[1]) if o.ident else None
            if i is not None and k == st.nv(('E', 'C', 'key', i)) and v == st.nv(('E', 'C', 'val', i)):
                for x in (k, v):
                    if st.dst.get(x) == 'rel':
                        an.report(st, 'released-kept', 'an entry that stays stored is released', ('release',))
                toks.append(('sq', i, i + 1))
            else:
                toks.append(('node', i, k, v))
            p = self.cell(st, o, self.BF['next'])

    def covers(self, st, toks, expect):
        """sq tokens together are exactly the ranges in expect"""
        have = [(a, b) for t, a, b in [x for x in toks if x[0] == 'sq'] if not st.eq(a, b)]
        for lo, hi in expect:
            pos = lo
            while not st.ge(pos - hi):
                nxt = [r for r in have if st.eq(r[0], pos)]
                if not nxt:
                    if st.decide_ge(pos - hi):
                        break
                    return False
                have.remove(nxt[0])
                pos = nxt[0][1]
                if not st.ge(hi - pos):
                    return False
        return not have

    def removed_ok(self, st, but=None):
        """releases: nothing but the given ('key'/'val', idx)"""
        for x, d in st.dst.items():
            if d == 'rel' and x[0] == 'E':
                if but and x[2] in but and st.eq(x[3], but[x[2]]):
                    continue
                self.an.report(st, 'released-kept', 'a %s that stays stored is released' % {'key': 'key', 'val': 'value'}[x[2]],
                               ('release', 'replace'))

    def unchanged(self, st, tags=('map',), n=None):
        an = self.an
        n1, s, boid, a = self.parts(st)
        if not st.eq(n1, st.ghost['n']):
            an.violation(st, 'wrong-count', 'the entry count changed', tags)
        if self.op != 'set' and not st.eq(s, st.ghost['size']):
            an.violation(st, 'wrong-size', 'the table size changed', tags)
        toks, where = self.content(st, s, a)
        self.chain_intact(st, toks, where, tags)
        self.removed_ok(st)
        return s

    def chain_intact(self, st, toks, where, tags):
        if any(t[0] == 'node' for t in toks):
            self.an.violation(st, 'wrong-content', 'a key or value is changed', tags)
        if 'm' in st.ghost and st.seqs.get('C'):
            if where is None or not st.eq(where, st.ghost['cidx']) or not self.covers(st, toks, [(ZERO, st.ghost['m'])]):
                self.lost(st)

    def all_ne(self, st, s):
        """D was compared with every entry of its home bucket"""
        an = self.an
        if st.norm(st.ghost['found']) == ONE:
            an.violation(st, 'missed-key', 'the key is present but treated as absent', ('find',))
        h = self.home(st, D, s)
        if h is None:
            an.violation(st, 'missed-key', 'the bucket of the key was never determined', ('find',))
        if self.empty(st, h) or st.flags.get('absent'):
            return h
        if 'cidx' not in st.ghost or not st.eq(st.ghost['cidx'], h):
            an.violation(st, 'missed-key', "the entries of the key's bucket are not inspected", ('find',))
        for e in st.seqs['C']:
            if e[0] == 'o':
                o = st.heap.get(e[1])
                if isinstance(o, Seg):
                    at = o.attr
                else:
                    at = self.elem_attr(st, 'C', o.ident[1])
                if not dict(at).get('cmp'):
                    an.violation(st, 'missed-key', 'the search ends although entries of the bucket were not compared', ('find',))
        return h

    def was_found(self, st):
        if st.norm(st.ghost['found']) != ONE:
            self.an.violation(st, 'wrong-key', 'the operation works on an entry whose key does not compare equal', ('find',))
        return st.norm(st.ghost['e'])

    def post_set(self, st, ret):
        an = self.an
        n0 = st.ghost['n']
        n, s, boid, a = self.parts(st)
        ret = st.norm(an.num_of(st, ret))
        if st.eq(s, st.ghost['size']):
            if st.ghost['T'] != P(boid):
                an.report(st, 'no-growth', 'the bucket array is replaced but the table does not grow', ('grow',))
        elif not st.ge(s - st.ghost['size'] - 1):
            an.report(st, 'no-growth', 'a resize does not make the table larger', ('grow',))
        if self.cfg.get('grow') and not st.ge(s.scale(LOAD) - n):
            an.report(st, 'no-growth', 'the table may hold more than %d entries per bucket without growing' % LOAD, ('grow',))
        toks, where = self.content(st, s, a)
        nodes = [t for t in toks if t[0] == 'node']
        tags = ('map', 'replace')
        if st.norm(st.ghost['found']) != ONE:
            h = self.all_ne(st, s)
            if not st.eq(ret, con(NEW)):
                an.report(st, 'wrong-result', 'insertion of a new key is not reported as NEW', tags)
            if not st.eq(n, n0 + 1):
                an.violation(st, 'wrong-count', 'the entry count does not increase by one', tags)
            if len(nodes) != 1 or nodes[0][1] is not None or nodes[0][2] != D or nodes[0][3] != V:
                an.violation(st, 'wrong-content', 'the new entry is not stored with its key and value', tags)
            if where is None or not st.eq(where, h):
                an.violation(st, 'wrong-bucket', 'the new entry is not stored in the bucket of its key', tags)
            if 'm' in st.ghost and st.seqs.get('C') and not self.covers(st, toks, [(ZERO, st.ghost['m'])]):
                self.lost(st)
            self.removed_ok(st)
            return
        e = self.was_found(st)
        if not st.eq(ret, con(REPLACED)):
            an.report(st, 'wrong-result', 'replacement is not reported as REPLACED', tags)
        if not st.eq(n, n0):
            an.violation(st, 'wrong-count', 'the entry count changes on replacement', tags)
        ow = self.cfg['ow']
        if where is None or not st.eq(where, st.ghost['cidx']):
            self.lost(st)
        k = D if ow else st.nv(('E', 'C', 'key', e))
        if len(nodes) != 1 or nodes[0][2] != k or nodes[0][3] != V or nodes[0][1] is None or not st.eq(nodes[0][1], e):
            an.violation(st, 'wrong-content', 'the replaced entry does not hold the documented key and the new value', tags)
        if not self.covers(st, toks, [(ZERO, e), (e + 1, st.ghost['m'])]):
            self.lost(st)
        but = {}
        ok, ov = st.nv(('E', 'C', 'key', e)), st.nv(('E', 'C', 'val', e))
        if self.fv:
            but['val'] = e
            if st.dst.get(ov) != 'rel' and st.facts.get(('null', ov)) is not True:
                an.report(st, 'not-released', 'the old value is not released on replacement', ('release', 'replace'))
        if ow and self.fk:
            but['key'] = e
            if st.dst.get(ok) != 'rel':
                an.report(st, 'not-released', 'the old key is not released although it is overwritten', ('release', 'replace'))
        self.removed_ok(st, but)

    def post_remove(self, st, ret):
        an = self.an
        n0 = st.ghost['n']
        if st.norm(st.ghost['found']) != ONE:
            s = self.unchanged(st)
            self.all_ne(st, s)
            return
        n, s, boid, a = self.parts(st)
        toks, where = self.content(st, s, a)
        e = self.was_found(st)
        if not st.eq(n, n0 - 1):
            an.violation(st, 'wrong-count', 'the entry count does not decrease by one', ('map',))
        if any(t[0] == 'node' for t in toks):
            an.violation(st, 'wrong-content', 'a key or value is changed', ('map',))
        m = st.ghost['m']
        if where is None or not st.eq(where, st.ghost['cidx']) or not self.covers(st, toks, [(ZERO, e), (e + 1, m)]):
            an.violation(st, 'wrong-content', 'remove does not take out exactly the entry of the key', ('map',))
        gone = [dict(x[3]) for x in st.seqs['C'] if x[0] == 'x' and st.ge(e - x[1]) and st.ge(x[2] - e - 1) and 'lost' not in dict(x[3])]
        if not gone:
            an.report(st, 'leak', 'the removed entry is not given back to the pool', ('leak',))
        gone = gone[0] if gone else {}
        but = {}
        ok, ov = st.nv(('E', 'C', 'key', e)), st.nv(('E', 'C', 'val', e))
        if self.fk:
            but['key'] = e
            if st.dst.get(ok) != 'rel' and gone.get('k') != 'rel':
                an.report(st, 'not-released', 'the removed key is not released', ('release',))
        if self.fv:
            but['val'] = e
            if st.dst.get(ov) != 'rel' and gone.get('v') != 'rel' and st.facts.get(('null', ov)) is not True:
                an.report(st, 'not-released', 'the removed value is not released', ('release',))
        self.removed_ok(st, but)

    def post_clear(self, st, ret):
        n, s, boid, a = self.parts(st)
        if not st.eq(n, ZERO):
            self.an.violation(st, 'not-cleared', 'the table is not empty after clear', ('map', 'release'))
        self.no_entries(st, s, a, 'cleared')
        if not st.eq(s, st.ghost['size']):
            self.an.report(st, 'wrong-size', 'the table size changed', ('map',))
        if not st.flags.get('dead'):
            self.an.report(st, 'leak', 'the storage of the cleared entries is not given back', ('leak',))

    def no_entries(self, st, s, a, what):
        pos = ZERO
        for lo, hi, d in a.runs:
            if st.decide_ge(pos - s):
                break
            if st.eq(lo, hi):
                continue
            if not st.eq(lo, pos):
                raise Undecided('bucket array with gaps')
            pos = hi
            if d[0] == 'zero' or (d[0] == 'cells' and len(d[1]) == 1 and isNull(st, d[1][0][2])):
                continue
            if d[0] == 'ch' and st.eq(hi, lo + 1) and self.empty(st, lo):
                continue
            self.an.violation(st, 'not-empty', 'a %s table has buckets that are not empty' % what, ('map',))
        if not st.ge(pos - s):
            self.an.violation(st, 'not-empty', 'a %s table has buckets that are not empty' % what, ('map',))

    def post_free(self, st, ret):
        for oid, o in st.heap.items():
            if getattr(o, 'status', '') == 'live' and o.origin in ('malloc', 'tpool'):
                self.an.report(st, 'leak', '%s is not freed' % self.an.describe(o), ('leak',))

    post_destroy = post_free

    def post_new(self, st, ret):
        if self.op == 'new':
            ret = st.nv(ret)
            if not isP(ret) or st.heap[ret[1]].origin != 'malloc' or ret[3] != ZERO:
                self.an.violation(st, 'wrong-result', 'no new table is returned', ('map',))
            st.ghost['root'] = ret
        n, s, boid, a = self.parts(st)
        if not st.eq(n, ZERO):
            self.an.violation(st, 'not-empty', 'a new table is not empty', ('map',))
        if not self.cfg.get('grow') and not st.eq(s, st.ghost['size']):
            self.an.report(st, 'wrong-size', 'the table does not have the requested size', ('map',))
        self.no_entries(st, s, a, 'new')

    post_init = post_new

    def post_lookup(self, st, ret):
        s = self.unchanged(st, ('map', 'ro'))
        ret = st.nv(ret)
        if isNull(st, ret):
            self.all_ne(st, s)
            return
        e = self.was_found(st)
        o = st.heap.get(ret[1]) if isP(ret) and not ret[2] else None
        if not isinstance(o, Blk):
            self.an.violation(st, 'wrong-result', 'lookup returns no pair', ('find',))
        b = st.norm(ret[3])
        p = self.cell(st, o, (b.k + self.PF['bucket'][0], 8)) if b.is_const() else None
        f = self.cell(st, o, (b.k + self.PF['free_value'][0], 8)) if b.is_const() else None
        node = st.heap.get(p[1]) if isP(p) else None
        ok = False
        if isinstance(node, Blk) and node.ident and p[3] == ZERO:
            ok = st.eq(node.ident[1], e)
        elif isinstance(node, Seg) and st.eq(node.cnt, ONE):
            ok = st.eq(node.lo, e)
        elif isinstance(node, Seg):
            ok = st.eq(node.lo if p[2] == 'first' else node.hi - 1, e)
        if not ok:
            self.an.violation(st, 'wrong-result', 'the pair found by lookup is not the entry of the key', ('find',))
        if isNull(st, f):
            f = NULL
        if f != (('CB', 'free_value') if self.fv else NULL):
            self.an.report(st, 'configuration-lost', 'the pair does not know the value free function', ('release',))

    def post_key_exists(self, st, ret):
        s = self.unchanged(st, ('map', 'ro'))
        if self.an.decide_bool(st, self.an.num_of(st, ret)):
            self.was_found(st)
        else:
            self.all_ne(st, s)

    def post_count(self, st, ret):
        self.unchanged(st, ('map', 'ro'))
        if not st.eq(self.an.num_of(st, ret), st.ghost['n']):
            self.an.report(st, 'wrong-result', 'count is not the number of entries', ('map',))

    def post_iterate(self, st, ret):
        n, s, boid, a = self.parts(st)
        pos = ZERO
        for lo, hi, d in a.runs:
            if st.eq(lo, hi):
                continue
            if not st.eq(lo, pos):
                raise Undecided('bucket array with gaps')
            pos = hi
            if d == ('ch', 'T', self.VIS):
                continue
            if st.eq(hi, lo + 1) and self.empty(st, lo):
                continue
            if st.decide_ge(lo - hi):
                continue
            self.an.violation(st, 'not-visited', 'the iteration ends although entries were not visited', ('iter',))
        if not st.ge(pos - s):
            self.an.violation(st, 'not-visited', 'the iteration ends although entries were not visited', ('iter',))

    post_iterate_macros = post_iterate

    def post_pair_get_key(self, st, ret):
        self.pair_same(st)
        if st.nv(ret) != st.nv(('E', 'C', 'key', ZERO)):
            self.an.report(st, 'wrong-result', 'the key of the pair is not returned', ('find', 'map'))

    def post_pair_get_value(self, st, ret):
        self.pair_same(st)
        if st.nv(ret) != st.nv(('E', 'C', 'val', ZERO)):
            self.an.report(st, 'wrong-result', 'the value of the pair is not returned', ('find', 'map'))

    post_pair_key = post_pair_get_key
    post_pair_value = post_pair_get_value

    def pair_same(self, st):
        pass

    def post_pair_set_value(self, st, ret):
        an = self.an
        o = st.heap[st.ghost['root_node'][1]]
        k, v = self.cell(st, o, self.BF['key']), self.cell(st, o, self.BF['data'])
        if o.status != 'live' or k != st.nv(('E', 'C', 'key', ZERO)) or v != V:
            an.violation(st, 'wrong-content', 'the entry does not hold its key and the new value', ('map',))
        if self.cell(st, o, self.BF['next']) != NULL:
            an.violation(st, 'wrong-content', 'the chain is changed', ('map',))
        ov = st.nv(('E', 'C', 'val', ZERO))
        if self.fv and st.dst.get(ov) != 'rel' and st.facts.get(('null', ov)) is not True:
            an.report(st, 'not-released', 'the old value is not released', ('release',))
        self.removed_ok(st, {'val': ZERO} if self.fv else None)


PROPS = {'ub': ['C09'], 'oob': ['C09'], 'null': ['C09'], 'uaf': ['C08', 'C12'], 'alloc': ['C08'], 'leak': ['C08', 'C12'],
         'oom': ['C30'], 'term': ['C09', 'C10', 'C30'], 'map': ['C09'], 'find': ['C09'], 'grow': ['C10'], 'replace': ['C20'],
         'release': ['C12'], 'ro': ['C32'], 'iter': ['C11']}


def grow_table(prog):
    """name of the constant array the size pointer of a new table refers to"""
    r = getattr(prog, '_growtab', None)
    if r is not None:
        return r
    spec = HashSpec(prog, 'hashtable_init', 'probe', 'init', dict(grow=1))
    out = []
    spec.finish = lambda st, ret: out.append(st)
    an = Analyzer(prog, spec)
    st, args = init_state(spec)
    fn = prog.fn('hashtable_init')
    st.frames = [Frame(fn, {p['id']: a for p, a in zip(fn.params, args)})]
    an.run([st])
    for s in out:
        if s.flags.get('oom'):
            continue
        v = spec.cell(s, s.heap[s.ghost['root'][1]], spec.F['sizeptr'])
        if isP(v) and v[1] <= -1000:
            prog._growtab = sorted(prog.globals)[-1000 - v[1]]
            return prog._growtab
    raise Undecided('the size table of growing tables was not found')


def init_state(spec):
    st = spec.base_state(None)
    for k in list(st.heap):
        if k != st.ghost['root'][1]:
            del st.heap[k]
    del st.ghost['T']
    r = st.ghost['root']
    st.heap[r[1]] = st.heap[r[1]].copy(cells={}, default='uninit')
    fk = ('CB', 'free_key') if spec.fk else NULL
    fv = ('CB', 'free_value') if spec.fv else NULL
    size = ZERO if spec.cfg.get('grow') else st.ghost['size']
    return st, [r, size, ('CB', 'hash'), ('CB', 'compare'), fk, fv]


def tasks(prog):
    out = []

    def add(op, args, extra=(), entry=None, **cfg):
        entry = entry or 'hashtable_' + op
        name = '%s[%s]' % (entry, ','.join('%s=%s' % x for x in sorted(cfg.items())))

        def start():
            fn = prog.fn(entry)
            spec = HashSpec(prog, entry, name, op, cfg)
            an = Analyzer(prog, spec)
            if op in ('new', 'init'):
                st, av = init_state(spec)
                if op == 'new':
                    av = av[1:]
                    st.heap.clear()
                    del st.ghost['root']
            elif op.startswith('pair'):
                st = State()
                st.seqs['C'] = []
                st.ghost['n'] = newsym('n')
                nd = spec.L.mkblk(st, spec.node, 'C', ZERO, NULL, NULL, 'tnode', bool(cfg.get('ro')))
                nd.ident = None
                st.ghost['root_node'] = P(st.alloc_oid(nd))
                fv = ('CB', 'free_value') if cfg.get('fv') else NULL
                pr = Blk('pair', con(prog.size('_HashTablePair')), {spec.PF['free_value'][0]: (8, fv),
                         spec.PF['bucket'][0]: (8, st.ghost['root_node'])}, 'junk', 'user', 'live', None, True, 'pair')
                st.ghost['root_pair'] = P(st.alloc_oid(pr))
                av = [st.ghost['root_pair'] if a == 'PAIR' else a for a in args]
            else:
                st = spec.base_state(grow_table(prog) if cfg.get('grow') else None)
                av = [st.ghost['root'] if a == 'T' else con(cfg['ow']) if a == 'OW' else a for a in args]
            if len(av) != len(fn.params):
                raise MissingAPI('signature of %s' % entry)
            st.frames = [Frame(fn, {p['id']: a for p, a in zip(fn.params, av)})]
            return spec, [st]
        out.append(dict(name=name, group='hashtable', props=PROPS, extra=list(extra), start=start, fn=entry,
                        weight=5 if op == 'set' else 2))

    for fk in (0, 1):
        for fv in (0, 1):
            for ow in (0, 1):
                add('set', ['T', D, V, 'OW'], ['C20'], fk=fk, fv=fv, ow=ow)
                add('set', ['T', D, V, 'OW'], ['C20', 'C10'], fk=fk, fv=fv, ow=ow, grow=1)
                out[-1]['deep'] = (fk, fv, ow) not in ((0, 0, 0), (1, 1, 0), (1, 1, 1))
            add('remove', ['T', D], [], fk=fk, fv=fv)
            if fk == fv:
                add('remove', ['T', D], ['C10'], fk=fk, fv=fv, grow=1)
                add('clear', ['T'], ['C10', 'C12'], fk=fk, fv=fv, grow=1)
            for op in CLEARING:
                add(op, ['T'], ['C12'], fk=fk, fv=fv)
            for g in (0, 1):
                add('new', [], [], fk=fk, fv=fv, grow=g)
                add('init', [], [], fk=fk, fv=fv, grow=g)
        add('pair_set_value', ['PAIR', V], ['C12'], fv=fk)
        add('lookup', ['T', D], ['C32'], fv=fk, ro=1)
    add('key_exists', ['T', D], ['C32'], ro=1)
    add('count', ['T'], ['C32'], ro=1)
    add('pair_get_key', ['PAIR'], ['C32'], ro=1)
    add('pair_get_value', ['PAIR'], ['C32'], ro=1)
    add('pair_key', ['PAIR'], ['C32'], entry='vm_hashtable_pair_key', ro=1)
    add('pair_value', ['PAIR'], ['C32'], entry='vm_hashtable_pair_value', ro=1)
    for op in ('set', 'lookup', 'key_exists', 'remove'):
        add(op, ['T', D, V] if op == 'set' else ['T', D], [], entry='vm_hashtable_again_' + op, again=1)
    for op in ITER:
        add(op, ['T', ('CB', 'visit'), ('CB', 'again')], ['C11', 'C32'], entry='vm_hashtable_' + op, ro=1)
    return out
