"""pool.c: memory blocks, free lists of returned slots."""
from absint import *
from interp import Analyzer, Retry
from base import Spec, BIG
from lists import Lists, NodeType
from num import Lin, con, sym, newsym, ZERO, ONE

ITEM = ('O', 'item')


class PoolSpec(Spec):
    CONTAINER = ('root_pool', 'MemoryPool', ('padding', 'block', 'free_block', 'block_size', 'item_size'), ('memory_pool_destroy',))

    def __init__(self, prog, entry, case, op, cfg):
        super().__init__(prog)
        self.entry, self.case, self.op, self.cfg = entry, case, op, cfg
        self.F = prog.fields('MemoryPool')
        self.B = prog.fields('_MemoryBlock')
        self.Q = prog.fields('_MemoryPtrBlock')
        self.PF = prog.fields('Pool')
        self.L = Lists(self)
        full = lambda st: st.norm(st.ghost['bs'])
        self.L.add(NodeType('block', prog.size('_MemoryBlock'), self.B['next'][0], None, {self.B['items'][0]: 'mem'},
                            {self.B['offset'][0]: full}))
        self.L.add(NodeType('ptrblock', prog.size('_MemoryPtrBlock'), self.Q['next'][0], None, {self.Q['items'][0]: 'mem'},
                            {self.Q['offset'][0]: full}))
        self.plugins = [self.L, self]

    # ---- numbers
    def monomial(self, st, a, b):
        new = ('mul',) + tuple(sorted((a, b))) not in st.terms
        m = super().monomial(st, a, b)
        if new:
            A, BS = st.norm(st.ghost['isz']), st.norm(st.ghost['bs'])
            for x, y in ((a, b), (b, a)):
                if sym(x) == A and sym(y) != BS:
                    if st.ge(BS - sym(y)) and st.ge(sym(y)):
                        top = self.an.product(st, A, BS)
                        st.assume_ge(top - m)
                        if st.ge(BS - sym(y) - 1):
                            st.assume_ge(top - m - A)
        return m

    # ---- array classes: ('slots', shift): entry k holds returned slot k+shift
    def peek_desc(self, st, d, lo, hi, idx, sub, size):
        if d[0] == 'slots' and sub == 0 and size == 8:
            return ('E', 'H', 'slot', st.norm(idx + d[1]))
        return None

    def split_desc(self, st, oid, d, lo, hi, idx, left, right):
        if d[0] == 'slots':
            return d, ('cells', ((0, 8, ('E', 'H', 'slot', st.norm(idx + d[1]))),)), d

    def cut_desc(self, st, oid, d, lo, hi, at):
        if d[0] == 'slots':
            return d, d

    def shift_desc(self, st, d, delta):
        if d[0] == 'slots':
            return ('slots', d[1] - delta)

    def fold(self, st):
        pass

    # ---- freeing memory of summarised blocks
    def x_free(self, st, args, ins):
        p = args[0]
        if isinstance(p, tuple) and p[0] == 'E':
            p = st.nv(p)
            if p[2] != 'mem':
                self.an.violation(st, 'foreign-free', 'free() of an item', ('ub', 'recycle'))
            if st.dst.get(p) == 'rel':
                self.an.violation(st, 'double-free', 'the memory of a block is freed twice', ('ub', 'recycle'))
            st.dst[p] = 'rel'
            return None
        return super().x_free(st, args, ins)

    def elem_attr(self, st, seq, idx):
        return (('dst', st.dst.get(st.nv(('E', seq, 'mem', idx)), 'held')),)

    def apply_attr(self, st, seq, idx, attr):
        a = dict(attr)
        if a['dst'] != 'held':
            st.dst[st.nv(('E', seq, 'mem', idx))] = a['dst']

    def opaque_access(self, st, ptr, size, write):
        if ptr[0] == 'E' and ptr[2] == 'mem':
            raise Undecided('access to the memory of a summarised block')
        self.an.violation(st, 'item-access', 'the pool reads or writes a returned item', ('ub', 'disjoint'))

    # ---- pre-state
    def base_state(self):
        """cfg: free in none/one/many, blocks in one/many"""
        st = State()
        a, bs = newsym('isz'), newsym('bs')
        st.ghost['isz'], st.ghost['bs'] = a, bs
        for l in (a - 2, bs - 2, con(1 << 56) - a, con(1 << 56) - bs):
            st.assume_ge(l)
        self.an = Analyzer(self.prog, self) if self.an is None else self.an
        m = self.an.product(st, a, bs)
        st.assume_ge(con(1 << 60) - m)
        st.assume_ge(m - bs - bs)
        st.assume_ge(m - a - a)
        if self.op == 'new':
            return st
        st.seqs['B'], st.seqs['F'] = [], []
        cur = newsym('cur')
        st.assume_ge(cur)
        st.assume_ge(bs - cur)
        st.ghost['cur'] = cur
        mem = st.alloc_oid(Arr(1, m, [(ZERO, m, ('junk',))], 'malloc', 'live', False, 'block memory'))
        st.ghost['mem'] = P(mem)
        nxt = NULL
        if self.cfg['blocks'] == 'many':
            nb = newsym('nb')
            st.assume_ge(nb - 1)
            st.assume_ge(con(BIG) - nb)
            s = st.alloc_oid(Seg('block', 'B', ZERO, nb, NULL, NULL, (('dst', 'held'),), None, None, False, 'malloc'))
            st.seqs['B'] = [('o', s)]
            st.ghost['nb'] = nb
            nxt = P(s, ZERO, 'first')
        B, Q, F = self.B, self.Q, self.F
        blk = st.alloc_oid(Blk('blockhead', con(self.prog.size('_MemoryBlock')),
                               {B['items'][0]: (8, P(mem)), B['offset'][0]: (8, cur), B['next'][0]: (8, nxt)}, 'junk',
                               'malloc', 'live', None, False, 'memory block'))
        fb = NULL
        if self.cfg['free'] != 'none':
            off = newsym('off')
            st.assume_ge(off - 1)
            st.assume_ge(bs - off)
            st.ghost['off'] = off
            runs = [(ZERO, off, ('slots', ZERO)), (off, bs, ('uninit',))]
            if self.cfg['free'] == 'full':
                st.assume_eq(off - bs)
                runs = [(ZERO, bs, ('slots', ZERO))]
            else:
                st.assume_ge(bs - off - 1)
            arr = st.alloc_oid(Arr(8, bs.scale(8), runs, 'malloc', 'live', False, 'free list'))
            n2 = NULL
            if self.cfg['more']:
                nf = newsym('nf')
                st.assume_ge(nf - 1)
                st.assume_ge(con(BIG) - nf)
                s = st.alloc_oid(Seg('ptrblock', 'F', ZERO, nf, NULL, NULL, (('dst', 'held'),), None, None, False, 'malloc'))
                st.seqs['F'] = [('o', s)]
                st.ghost['nf'] = nf
                n2 = P(s, ZERO, 'first')
            fbo = st.alloc_oid(Blk('freehead', con(self.prog.size('_MemoryPtrBlock')),
                                   {Q['items'][0]: (8, P(arr)), Q['offset'][0]: (8, off), Q['next'][0]: (8, n2)}, 'junk',
                                   'malloc', 'live', None, False, 'free list block'))
            fb = P(fbo)
        cells = {F['block'][0]: (8, P(blk)), F['free_block'][0]: (8, fb), F['block_size'][0]: (8, bs),
                 F['item_size'][0]: (8, a)}
        names = function_names(self.prog)
        base = F['padding'][0]
        cells[base + self.PF['alloc'][0]] = (8, ('F', names[0]))
        cells[base + self.PF['free'][0]] = (8, ('F', names[1]))
        pool = st.alloc_oid(Blk('pool', con(self.prog.size('MemoryPool')), cells, 'junk', 'malloc', 'live', None, False,
                                'pool'))
        st.ghost['root_pool'] = P(pool)
        return st

    def allowed_abort(self, st):
        return False

    # ---- post-conditions
    def cell(self, st, o, f):
        c = o.cells.get(f[0])
        v = c[1] if c and c[0] == f[1] else self.an.load_partial(st, o.cells, o.default, f[0], f[1])
        if isinstance(v, Lin) and f[1] == 8:
            v = st.norm(v)
        return st.nv(v)

    def ptr(self, st, v, what):
        if isinstance(v, Lin) and st.norm(v) == ZERO:
            return NULL
        if v == NULL or (isinstance(v, tuple) and v[0] in ('P', 'E')):
            return v
        if v == JUNK:
            raise Undecided('%s unknown' % what)
        self.an.violation(st, 'broken-pool', '%s is no valid pointer' % what, ('struct', 'ub'))

    def finish(self, st, ret):
        if st.flags.get('oom'):
            self.an.violation(st, 'failed-allocation-ignored', 'the function returns although memory was refused', ('oom',))
        getattr(self, 'post_' + self.op)(st, ret)
        self.collect(st)

    def blocks(self, st, po):
        """checks the block list; returns [(memory, offset)] of explicit blocks in order and whether all old ones are there"""
        an = self.an
        bs, a = st.norm(st.ghost['bs']), st.norm(st.ghost['isz'])
        cur = self.ptr(st, self.cell(st, po, self.F['block']), 'block list')
        out = []
        first = True
        segs = 0
        seen = set()
        while cur != NULL:
            if cur[0] != 'P' or cur[3] != ZERO or cur[1] in seen:
                an.violation(st, 'broken-pool', 'the block list is damaged', ('struct',))
            seen.add(cur[1])
            o = st.heap[cur[1]]
            if getattr(o, 'status', '') == 'freed':
                an.violation(st, 'broken-pool', 'a freed block stays in the block list', ('struct', 'ub'))
            if isinstance(o, Seg):
                if cur[2] != 'first' or o.seq != 'B':
                    an.violation(st, 'broken-pool', 'the block list skips blocks', ('struct',))
                segs += 1
                cur = self.ptr(st, o.next, 'block list')
                first = False
                continue
            mem = self.ptr(st, self.cell(st, o, self.B['items']), 'block memory')
            off = self.cell(st, o, self.B['offset'])
            if not isinstance(off, Lin):
                an.violation(st, 'broken-pool', 'a block has no valid fill level', ('struct', 'ub'))
            if mem == NULL or mem[0] != 'P' or mem[3] != ZERO or mem[2]:
                if mem != NULL and mem[0] == 'E' and o.ident is not None and mem == st.nv(('E', 'B', 'mem', o.ident[1])):
                    pass
                else:
                    an.violation(st, 'broken-pool', 'a block has no memory of its own', ('struct', 'disjoint'))
            else:
                mo = st.heap[mem[1]]
                if mo.status == 'freed':
                    an.violation(st, 'broken-pool', 'the memory of a block was freed', ('struct', 'disjoint'))
                if any(x[0] == mem for x in out):
                    an.violation(st, 'broken-pool', 'two blocks share their memory', ('struct', 'disjoint'))
                if not st.ge(mo.size - an.product(st, a, bs)):
                    an.violation(st, 'block-too-small', 'the memory of a block is smaller than its items', ('disjoint',))
            if first:
                if not (st.ge(off) and st.ge(bs - off)):
                    an.violation(st, 'broken-pool', 'the fill level of the current block leaves its range', ('struct', 'disjoint'))
            elif not st.eq(off, bs):
                an.violation(st, 'slot-lost', 'unused slots of a block behind the current one can never be handed out',
                             ('recycle',))
            first = False
            out.append((mem, off))
            cur = self.ptr(st, self.cell(st, o, self.B['next']), 'block list')
        if self.cfg.get('blocks') == 'many' and segs != 1:
            an.violation(st, 'block-lost', 'a block is no longer in the block list', ('recycle', 'leak'))
        return out

    def freelist(self, st, po):
        """checks the free list; returns the set of explicit entries and covered slot intervals"""
        an = self.an
        bs = st.norm(st.ghost['bs'])
        cur = self.ptr(st, self.cell(st, po, self.F['free_block']), 'free list')
        first = True
        vals = []
        iv = []
        segs = 0
        seen = set()
        while cur != NULL:
            if cur[0] != 'P' or cur[3] != ZERO or cur[1] in seen:
                an.violation(st, 'broken-pool', 'the free list is damaged', ('struct',))
            seen.add(cur[1])
            o = st.heap[cur[1]]
            if getattr(o, 'status', '') == 'freed':
                an.violation(st, 'broken-pool', 'a freed block stays in the free list', ('struct', 'ub'))
            if isinstance(o, Seg):
                if cur[2] != 'first' or o.seq != 'F':
                    an.violation(st, 'broken-pool', 'the free list skips blocks', ('struct',))
                segs += 1
                cur = self.ptr(st, o.next, 'free list')
                first = False
                continue
            arrp = self.ptr(st, self.cell(st, o, self.Q['items']), 'free list block')
            off = self.cell(st, o, self.Q['offset'])
            if not isinstance(off, Lin):
                an.violation(st, 'broken-pool', 'a free list block has no valid fill level', ('struct', 'ub'))
            if arrp == NULL or arrp[0] != 'P' or arrp[3] != ZERO:
                if arrp != NULL and arrp[0] == 'E' and o.ident is not None and arrp == st.nv(('E', 'F', 'mem', o.ident[1])) \
                        and st.eq(off, bs):
                    segs += 1
                    first = False
                    cur = self.ptr(st, self.cell(st, o, self.Q['next']), 'free list')
                    continue
                an.violation(st, 'broken-pool', 'a free list block has no array', ('struct',))
            ao = st.heap[arrp[1]]
            if ao.status == 'freed':
                an.violation(st, 'broken-pool', 'the array of a free list block was freed', ('struct', 'ub'))
            if not st.ge(ao.size - bs.scale(8)):
                an.violation(st, 'block-too-small', 'the array of a free list block is smaller than its capacity',
                             ('disjoint', 'struct'))
            if first:
                if not (st.ge(off - 1) and st.ge(bs - off)):
                    an.violation(st, 'broken-pool', 'the fill level of the free list leaves its range', ('struct', 'disjoint'))
            elif not st.eq(off, bs):
                an.violation(st, 'broken-pool', 'a free list block behind the first one is not full', ('struct', 'recycle'))
            first = False
            if isinstance(ao, Arr) and ao.stride == 8:
                for lo, hi, d in ao.runs:
                    if st.decide_ge(lo - off):
                        break
                    if not st.ge(off - hi):
                        if d[0] == 'cells' or not st.decide_ge(off - hi):
                            hi = off
                    if d[0] == 'slots':
                        if not st.decide_eq(hi - lo):
                            iv.append((st.norm(lo + d[1]), st.norm(hi + d[1])))
                    elif d[0] == 'cells' and len(d[1]) == 1 and d[1][0][:2] == (0, 8):
                        vals.append(st.nv(d[1][0][2]))
                    else:
                        an.violation(st, 'broken-pool', 'the free list contains an entry that was never returned',
                                     ('struct', 'disjoint'))
            elif isinstance(ao, Arr):
                an.violation(st, 'broken-pool', 'the free list contains an entry that was never returned',
                             ('struct', 'disjoint'))
            else:
                raise Undecided('free list array')
            cur = self.ptr(st, self.cell(st, o, self.Q['next']), 'free list')
        if self.cfg.get('more') and segs != 1:
            an.violation(st, 'returned-lost', 'a block of returned items is no longer in the free list', ('recycle', 'leak'))
        return vals, iv

    def check_free(self, st, po, ret=None, added=None):
        an = self.an
        vals, iv = self.freelist(st, po)
        off = st.norm(st.ghost.get('off', ZERO))
        slots = [v for v in vals if v[0] == 'E']
        rest = [v for v in vals if v[0] != 'E']
        want = [added] if added is not None else []
        if rest != want:
            an.violation(st, 'wrong-free-list', 'the free list does not contain exactly the returned items', ('recycle', 'disjoint'))
        iv = [(l, h) for l, h in iv] + [(v[3], v[3] + 1) for v in slots]
        if ret is not None:
            iv.append((ret[3], ret[3] + 1))
        # the intervals must tile [0,off)
        pos = ZERO
        left = list(iv)
        while left:
            for i, (l, h) in enumerate(left):
                if st.eq(l, pos):
                    pos = st.norm(h)
                    del left[i]
                    break
            else:
                an.violation(st, 'wrong-free-list', 'a returned item is in the free list twice or was handed out twice',
                             ('disjoint', 'recycle'))
        if not st.eq(pos, off):
            an.violation(st, 'returned-lost', 'a returned item is no longer in the free list', ('recycle',))

    def pool(self, st):
        p = st.ghost['root_pool']
        return st.heap[p[1]]

    def config(self, st, po):
        for f, g in (('block_size', 'bs'), ('item_size', 'isz')):
            v = self.cell(st, po, self.F[f])
            if f == 'block_size' and self.op == 'alloc' and isinstance(v, Lin) and not st.eq(v, st.ghost[g]) and self.resized(st, po, v):
                continue
            if not isinstance(v, Lin) or not st.eq(v, st.ghost[g]):
                self.an.violation(st, 'broken-pool', 'the pool lost its %s' % f, ('struct', 'disjoint'))

    def resized(self, st, po, bs):
        """another block size is as good, if nothing was returned and the current block is as large"""
        if self.cell(st, po, self.F['free_block']) not in (NULL, ZERO) or not st.ge(bs - 2):
            return False
        b = self.cell(st, po, self.F['block'])
        if not isP(b) or b[2] or b[3] != ZERO or not isinstance(st.heap[b[1]], Blk):
            return False
        m = self.cell(st, st.heap[b[1]], self.B['items'])
        if not isP(m) or m[2] or m[3] != ZERO or m == st.ghost['mem']:
            return False
        return st.ge(st.heap[m[1]].size - self.an.product(st, st.norm(st.ghost['isz']), st.norm(bs)))

    def post_new(self, st, ret):
        an = self.an
        ret = st.nv(ret)
        if not isP(ret) or ret[3] != ZERO or st.heap[ret[1]].origin != 'malloc':
            an.violation(st, 'wrong-result', 'no new pool is returned', ('struct',))
        st.ghost['root_pool'] = ret
        po = self.pool(st)
        self.config(st, po)
        bl = self.blocks(st, po)
        if len(bl) > 1 or (bl and not st.eq(bl[0][1], ZERO)):
            an.violation(st, 'broken-pool', 'a new pool is not empty', ('struct', 'recycle'))
        if not bl:
            an.violation(st, 'broken-pool', 'a new pool has no block', ('struct',))
        if self.cell(st, po, self.F['free_block']) not in (NULL, ZERO):
            an.violation(st, 'broken-pool', 'a new pool has returned items', ('struct',))
        base = self.F['padding'][0]
        for f in ('alloc', 'free'):
            c = po.cells.get(base + self.PF[f][0])
            if c is None or c[1][0] != 'F':
                an.violation(st, 'broken-pool', 'the %s function of the pool is not set' % f, ('struct',))

    def post_alloc(self, st, ret):
        an = self.an
        ret = st.nv(ret)
        po = self.pool(st)
        self.config(st, po)
        bs = st.norm(st.ghost['bs'])
        a = st.norm(st.ghost['isz'])
        cur = st.norm(st.ghost['cur'])
        bl = self.blocks(st, po)
        old = st.ghost['mem']
        oldoff = [o for m, o in bl if m == old]
        if not oldoff:
            an.violation(st, 'block-lost', 'the current block is no longer in the block list', ('recycle', 'leak'))
        if self.cfg['free'] != 'none':
            if ret == NULL or ret[0] != 'E' or ret[2] != 'slot':
                an.violation(st, 'not-recycled', 'a returned item exists but is not handed out again', ('recycle',))
            if not (st.ge(ret[3]) and st.ge(st.ghost['off'] - ret[3] - 1)):
                an.violation(st, 'wrong-item', 'an item outside the free list is handed out', ('disjoint',))
            self.check_free(st, po, ret)
            if not st.eq(oldoff[0], cur) or len(bl) != 1:
                an.violation(st, 'slot-lost', 'the current block changes although a returned item is handed out', ('recycle', 'disjoint'))
            return
        self.check_free(st, po)
        if ret == NULL or ret[0] != 'P' or ret[2]:
            an.violation(st, 'wrong-item', 'no item inside a block is handed out', ('disjoint', 'struct'))
        mem = ('P', ret[1], '', ZERO)
        if st.decide_ge(bs - cur - 1):
            if mem != old:
                an.violation(st, 'slot-unused', 'a new block is used although the current one has an unused slot', ('recycle',))
            if len(bl) != 1:
                an.violation(st, 'slot-unused', 'a new block is allocated although the current one has an unused slot', ('recycle',))
            idx = cur
            end = oldoff[0]
        else:
            if len(bl) != 2 or mem == old or not any(m == mem for m, o in bl):
                an.violation(st, 'wrong-item', 'the item does not lie in an unused slot of a block', ('disjoint',))
            idx = ZERO
            if bl[0][0] != mem:
                an.violation(st, 'slot-unused', 'the new block does not become the current one', ('recycle',))
            end = bl[0][1]
        # the item may start at any slot between the old and the new fill level
        if not st.eq(end, idx + 1):
            if st.ge(end - idx - 1):
                an.violation(st, 'slot-lost', 'the fill level grows by more than one', ('recycle',))
            an.violation(st, 'item-reused', 'the fill level does not cover the item that is handed out', ('disjoint',))
        if not st.eq(ret[3], an.product(st, a, idx)):
            an.violation(st, 'wrong-item', 'the item that is handed out is not the next unused slot', ('disjoint',))

    def post_free(self, st, ret):
        po = self.pool(st)
        self.config(st, po)
        bl = self.blocks(st, po)
        if len(bl) != 1 or bl[0][0] != st.ghost['mem'] or not st.eq(bl[0][1], st.ghost['cur']):
            self.an.violation(st, 'slot-lost', 'returning an item changes the block list', ('recycle', 'disjoint'))
        self.check_free(st, po, None, ITEM)

    def post_destroy(self, st, ret):
        an = self.an
        for s in st.seqs:
            for e in st.seqs[s]:
                if e[0] == 'o':
                    an.violation(st, 'leak', 'a %s is not freed' % ('memory block' if s == 'B' else 'free list block'), ('recycle', 'leak'))
                if dict(e[3]).get('dst') != 'rel' or dict(e[3]).get('lost'):
                    an.violation(st, 'leak', 'the memory of a %s is not freed' % ('block' if s == 'B' else 'free list block'),
                                 ('recycle', 'leak'))
        for oid, o in st.heap.items():
            if o.origin == 'malloc' and getattr(o, 'status', 'live') == 'live':
                an.violation(st, 'leak', '%s is not freed' % an.describe(o), ('recycle', 'leak'))


_names = {}

def function_names(prog):
    """the functions memory_pool_new installs"""
    k = id(prog)
    if k not in _names:
        spec = PoolSpec(prog, 'memory_pool_new', 'prerun', 'new', {})
        found = {}
        an = Analyzer(prog, spec, timeout=30)
        st = spec.base_state()
        fn = prog.fn('memory_pool_new')
        st.frames = [Frame(fn, {p['id']: a for p, a in zip(fn.params, [st.ghost['isz'], st.ghost['bs']])})]

        def fin(s, ret):
            if isP(ret):
                o = s.heap[ret[1]]
                base = spec.F['padding'][0]
                for f in ('alloc', 'free'):
                    c = o.cells.get(base + spec.PF[f][0])
                    if c and c[1][0] == 'F':
                        found[f] = c[1][1]
        spec.finish = fin
        an.run([st])
        if len(found) != 2:
            if an.findings or an.undecided or an.stats['returns']:
                raise Undecided('memory_pool_new installs no allocation functions')
            raise MissingAPI('allocation functions of a memory pool')
        _names[k] = (found['alloc'], found['free'])
    return _names[k]


PROPS = {'ub': ['C21'], 'oob': ['C21'], 'null': ['C21'], 'uaf': ['C21', 'C22'], 'alloc': ['C22'], 'leak': ['C22'],
         'oom': ['C30'], 'term': ['C21', 'C30'], 'struct': ['C21', 'C22'], 'disjoint': ['C21'], 'recycle': ['C22'], 'ro': ['C32']}


def tasks(prog):
    out = []

    def add(op, cfg):
        name = 'memory_pool_%s[%s]' % (op, ','.join('%s=%s' % x for x in sorted(cfg.items())))

        def start():
            entry = {'new': 'memory_pool_new', 'destroy': 'memory_pool_destroy'}.get(op)
            if entry is None:
                entry = function_names(prog)[0 if op == 'alloc' else 1]
            spec = PoolSpec(prog, entry, name, op, cfg)
            st = spec.base_state()
            spec.an = None
            fn = prog.fn(entry)
            args = {'new': [st.ghost['isz'], st.ghost['bs']], 'alloc': [st.ghost.get('root_pool')],
                    'free': [st.ghost.get('root_pool'), ITEM], 'destroy': [st.ghost.get('root_pool')]}[op]
            if len(args) != len(fn.params):
                raise MissingAPI('signature of %s' % entry)
            if op == 'destroy':
                pass
            st.frames = [Frame(fn, {p['id']: a for p, a in zip(fn.params, args)})]
            return spec, [st]
        out.append(dict(name=name, group='pool', props=PROPS, extra=[], start=start, fn=name))
    add('new', {})
    for blocks in ('one', 'many'):
        for free, more in (('none', 0), ('part', 0), ('part', 1), ('full', 0), ('full', 1)):
            for op in ('alloc', 'free', 'destroy'):
                add(op, dict(blocks=blocks, free=free, more=more))
    return out
