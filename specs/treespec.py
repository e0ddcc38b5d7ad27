"""rbtree.c"""
from absint import *
from interp import Retry
from trees import Trees, Sub, Ctx, isnullv
from mapbase import MapSpec, D, V
from base import BIG
from num import Lin, con, sym, newsym, ZERO, ONE

NEW, REPLACED = 0, 1
SK, SV = ('O', 'skey'), ('O', 'sval')     # key and value stored for the key of the operation
ITER = ('iterate', 'iterate_macros', 'reuse', 'init_free')
QUERY = ('lookup', 'key_exists', 'count', 'pair_get_key', 'pair_get_value', 'pair_key', 'pair_value')
PAIR = ('pair_get_key', 'pair_get_value', 'pair_set_value', 'pair_key', 'pair_value')


class TreeSpec(MapSpec):
    key_ghosts = ('has',)
    key_signs = False
    wide_pointers = True
    join_on_return = True

    CONTAINER = ('root', 'RBTree', ('compare_keys', 'free_key', 'free_value', 'root', 'stack', 'sp', 'stack_size', 'pool', 'count', 'pair'),
                 ('rbtree_free', 'rbtree_destroy'))

    def __init__(self, prog, entry, case, op, cfg):
        super().__init__(prog)
        self.entry, self.case, self.op, self.cfg = entry, case, op, cfg
        F = prog.fields('RBTree')
        try:
            self.F = {k: F[k] for k in ('compare_keys', 'free_key', 'free_value', 'root', 'stack', 'sp', 'stack_size', 'pool',
                                        'count', 'pair')}
            I = prog.fields('RBTreeIter')
            self.I = {k: I[k] for k in ('tree', 'stack', 'sp', 'stack_size', 'finished')}
            self.PF = prog.fields('_RBTreePair')
            self.T = Trees(self, prog)
        except KeyError as e:
            raise Undecided('the layout of the tree changed (%s)' % e)
        self.isize = prog.size('RBTreeIter')
        self.plugins = [self, self.T]
        self.lazy = op not in ITER
        self.contract_used = self.contract_broken = None
        self.root_fields = {('tree', self.F['root'][0])}
        self.origin = 'upool' if cfg.get('pool') else 'malloc'

    def fold(self, st):
        self.absorb_nulls(st)

    def ctx_attr(self, st, seq):
        if self.op in ITER and seq == 'A' and not (self.op == 'reuse' and st.flags.get('phase') != 2):
            return ('v', 'v', 'v', 'u')
        if self.op in ITER and seq == 'A':
            return ('u',) * 4
        return ('',) * 4

    # ---- pre-state
    def tree(self, st, seq, shape, has, n, ro, spnull=True):
        """a tree object; returns its oid"""
        if shape == 'empty':
            root = NULL
            cnt = ZERO
        else:
            attr = 'u' if self.op in ITER and seq == 'A' else ''
            S = Sub(seq, has, attr, ro, self.origin, ZERO, n, newsym('bh'), ONE)
            self.T.facts(st, S)
            root = P(st.alloc_oid(S), ZERO, 'root')
            cnt = n + has
        ss = newsym('ss')
        st.assume_ge(ss - 1)
        st.assume_ge(con(1 << 59) - ss)
        a = st.alloc_oid(Arr(8, ss.scale(8), [(ZERO, ss, ('junk',))], 'malloc', 'live', False, 'stack'))
        sp = NULL
        if not spnull:
            j = newsym('j')
            st.assume_ge(j)
            st.assume_ge(ss - 1 - j)
            sp = P(a, j.scale(8))
        F = self.F
        fk = ('CB', 'free_key') if self.cfg.get('fk') else NULL
        fv = ('CB', 'free_value') if self.cfg.get('fv') else NULL
        po = F['pair'][0]
        cells = {F['compare_keys'][0]: (8, ('CB', 'compare')), F['free_key'][0]: (8, fk), F['free_value'][0]: (8, fv),
                 F['root'][0]: (8, root), F['stack'][0]: (8, P(a)), F['sp'][0]: (8, sp), F['stack_size'][0]: (8, ss),
                 F['pool'][0]: (8, st.ghost.get('root_pool', NULL)), F['count'][0]: (8, st.norm(cnt)),
                 po + self.PF['free_value'][0]: (8, fv), po + self.PF['node'][0]: (8, JUNK)}
        t = Blk('tree', con(self.prog.size('RBTree')), cells, 'junk', 'malloc' if self.op == 'destroy' else 'user', 'live',
                None, bool(ro), 'tree')
        return st.alloc_oid(t)

    def base_state(self, spnull=True):
        st = State()
        st.tree_links = (self.T.o["left"], self.T.o["right"])
        cfg = self.cfg
        if cfg.get('pool'):
            pf = self.prog.fields('Pool')
            st.ghost['root_pool'] = P(st.alloc_oid(Blk(
                'pool', con(self.prog.size('Pool')), {pf['alloc'][0]: (8, ('CB', 'pool_alloc')), pf['free'][0]: (8, ('CB', 'pool_free'))},
                'junk', 'user', 'live', None, True, 'pool')))
        n, x = newsym('n'), newsym('x')
        st.ghost['n'], st.ghost['x'] = n, x
        has = cfg.get('has', 0)
        st.ghost['has'] = con(has)
        st.ghost['kkey'], st.ghost['kval'] = SK, SV
        st.ghost['old'] = SV      # keeps what is known about the old value
        st.facts[('null', SK)] = False
        if 'nul' in cfg:
            st.facts[('null', SV)] = bool(cfg['nul'])
        st.facts[('null', D)] = False
        st.assume_ge(x)
        st.assume_ge(n - x)
        st.assume_ge(con(BIG) - n)
        shape = cfg.get('shape', 'any')
        if shape == 'empty':
            st.assume_eq(n)
        else:
            st.assume_ge(n + has - 1)
        ro = bool(cfg.get('ro'))
        if self.op in PAIR:
            F = self.T.o
            nd = Blk('node', con(self.T.size), {F['key']: (8, SK), F['value']: (8, SV), F['left']: (8, JUNK), F['right']: (8, JUNK),
                                                F['black']: (self.T.bw, JUNK)}, 'junk', self.origin, 'live', None, ro, 'node')
            st.ghost['root_node'] = P(st.alloc_oid(nd))
            fv = ('CB', 'free_value') if cfg.get('fv') else NULL
            pr = Blk('pair', con(self.prog.size('_RBTreePair')), {self.PF['free_value'][0]: (8, fv),
                                                                 self.PF['node'][0]: (8, st.ghost['root_node'])},
                     'junk', 'user', 'live', None, True, 'pair')
            st.ghost['root_it'] = P(st.alloc_oid(pr))
            return st
        st.ghost['root'] = P(self.tree(st, 'A', shape, has, n, ro, spnull))
        if self.op == 'reuse':
            other = cfg['first']
            if other == 'same':
                st.ghost['root_first'] = st.ghost['root']
            else:
                m = newsym('nb')
                st.ghost['nb'] = m
                if other == 'empty':
                    st.assume_eq(m)
                else:
                    st.assume_ge(m - 1)
                st.assume_ge(con(BIG) - m)
                st.ghost['root_first'] = P(self.tree(st, 'B', other, 0, m, ro))
        return st

    def ro_write(self, st, oid, obj, off):
        if isinstance(obj, Blk) and obj.kind == 'tree' and self.op == 'lookup':
            lo = self.F['pair'][0]
            if off.is_const() and lo <= off.k < lo + self.F['pair'][1]:
                return
        super().ro_write(st, oid, obj, off)

    def newblk(self, st, size, default, label):
        k = self.T.isize
        if self.op in ITER and size.k % k == 0 and all(c % k == 0 for _, c in size.t):
            cnt = Lin(size.k // k, tuple((s, c // k) for s, c in size.t))
            return st.alloc_oid(Arr(k, size, [(ZERO, cnt, (default,))], 'malloc', 'live', False, label))
        return super().newblk(st, size, default, label)

    def head_facts(self, st):
        g = st.ghost
        st.assume_ge(g['x'])
        st.assume_ge(g['n'] - g['x'])
        st.assume_ge(con(BIG) - g['n'])
        for o in st.heap.values():
            if isinstance(o, (Sub, Ctx)):
                self.T.facts(st, o)

    def key_cells(self, o):
        return o.kind != 'node'

    def hints(self, st):
        return self.T.hints(st)

    # ---- the traversal stacks
    def stacks(self, st):
        out = []
        for oid, o in st.heap.items():
            if not isinstance(o, Blk) or o.status != 'live':
                continue
            if o.kind == 'tree':
                F = self.F
            elif st.norm(o.size) == con(self.isize) and o.kind in ('stack', 'iter'):
                F = self.I
            else:
                continue
            a, sp = o.cells.get(F['stack'][0]), o.cells.get(F['sp'][0])
            if a is None or sp is None:
                continue
            a, sp = a[1], sp[1]
            if not isP(a) or a[2] or st.norm(a[3]) != ZERO:
                continue
            arr = st.heap.get(a[1])
            if not isinstance(arr, Arr) or arr.status != 'live':
                continue
            if isnullv(st, sp):
                out.append((a[1], None))
            elif isP(sp) and sp[1] == a[1]:
                off = st.norm(sp[3])
                if off.k % arr.stride == 0 and all(c % arr.stride == 0 for _, c in off.t):
                    out.append((a[1], Lin(off.k // arr.stride, tuple((s, c // arr.stride) for s, c in off.t))))
        return out

    def adopt(self, st):
        """a node made for the new key takes the place between its neighbours"""
        if self.op != 'set' or st.norm(st.ghost['has']) != ZERO:
            return
        for oid, o in st.heap.items():
            if isinstance(o, Blk) and o.kind == 'heap' and o.status == 'live' and o.ident is None and st.norm(o.size) == con(self.T.size) and \
                    o.origin in ('malloc', 'upool') and set(o.cells) == set(self.T.o.values()) and \
                    o.cells[self.T.o['key']][1] == D:
                st.heap[oid] = o.copy(kind='node', ident=('A', 'K', ''), label='node')
                st.ghost['has'] = ONE
                return

    # ---- callbacks
    def callback(self, st, role, args, ins):
        an = self.an
        if role == 'compare':
            a, b = self.user(st, args[0], 'compare'), self.user(st, args[1], 'compare')
            for y in (a, b):
                if y[0] == 'E':
                    if y[2] != 'key':
                        an.violation(st, 'bad-callback-argument', 'a value is given to the compare function', ('find', 'ub'))
                    if self.is_released(st, 'key', y[3]):
                        an.violation(st, 'use-after-release', 'a key is compared after it was released', ('release', 'ub'))
                elif y not in (D, SK):
                    an.violation(st, 'bad-callback-argument', 'a value is given to the compare function', ('find', 'ub'))
                elif y == SK and st.flags.get('rel_key'):
                    an.violation(st, 'use-after-release', 'a key is compared after it was released', ('release', 'ub'))
                elif y == D:
                    self.caller_key(st)
            return self.order(st, a, b)
        if role == 'free_key':
            return self.release(st, 'key', args[0])
        if role == 'free_value':
            return self.release(st, 'val', args[0])
        if role == 'pool_alloc':
            self.check_pool(st, args[0])
            return P(st.alloc_oid(Blk('heap', con(self.T.size), {}, 'uninit', 'upool', 'live', None, False, 'node')))
        if role == 'pool_free':
            self.check_pool(st, args[0])
            p = args[1]
            if p == UNDEF or p == NULL or isinstance(p, Lin) or p[0] != 'P':
                an.violation(st, 'bad-pool-free', 'something that is no node is given to the pool', ('alloc', 'ub'))
            self.release_storage(st, p, 'upool', 'return to the pool')
            return None
        if role == 'visit':
            return self.visit(st, args)
        if role == 'none':
            for v in args:
                if v == UNDEF or v == JUNK:
                    raise Undecided('unknown key of an iterator that has no current node')
                if not isnullv(st, v):
                    an.violation(st, 'stale-iterator', 'an iterator without a current node delivers a key or value', ('iter',))
            st.flags['phase'] = 2
            return None
        if role == 'again':
            if an.decide_bool(st, an.num_of(st, args[0])):
                an.report(st, 'iteration-restarts', 'iter_next returns true again after it had returned false', ('iter',))
            return None
        if role == 'more':
            return con(self.choose(st, 'more'))
        raise Undecided('callback %s' % role)

    def check_pool(self, st, v):
        if st.nv(v) != st.ghost.get('root_pool'):
            self.an.violation(st, 'wrong-pool', 'pool function called with a different pool', ('alloc', 'ub'))

    def result(self, st, sign):
        if sign == 0:
            return ZERO
        r = newsym('cmp')
        st.assume_ge(r - 1)
        st.assume_ge(con((1 << 31) - (1 if sign > 0 else 0)) - r)
        return r if sign > 0 else -r

    def order(self, st, a, b):
        def k(v):
            return None if v in (D, SK) else v[3]
        i, j = k(a), k(b)
        x = st.ghost['x']
        if i is None and j is None:
            return ZERO
        if i is None:
            return self.result(st, -1 if st.decide_ge(j - x) else 1)
        if j is None:
            return self.result(st, 1 if st.decide_ge(i - x) else -1)
        if st.decide_eq(i - j):
            return ZERO
        return self.result(st, 1 if st.decide_ge(i - j - 1) else -1)

    def release(self, st, field, v):
        an = self.an
        what = {'key': 'key', 'val': 'value'}[field]
        if v == {'key': SK, 'val': SV}[field]:
            if st.flags.get('rel_' + field):
                an.violation(st, 'double-release', 'a %s is released twice' % what, ('release', 'replace'))
            if field == 'val' and st.facts.get(('null', SV)) is not False:
                an.report(st, 'release-null', 'the value free function may be called with NULL', ('release',))
            st.flags['rel_' + field] = True
            return None
        return super().release(st, field, v)

    def visit(self, st, args):
        an = self.an
        k, v = args
        for y, f in ((k, 'key'), (v, 'val')):
            if isnullv(st, y) or not isinstance(y, tuple) or y[0] != 'E' or y[1] != 'A' or y[2] != f:
                if y == JUNK:
                    raise Undecided('unknown key visited')
                an.violation(st, 'wrong-visit', 'the iteration delivers something that is no stored %s' % (
                    'key' if f == 'key' else 'value'), ('iter',))
        k, v = st.nv(k), st.nv(v)
        if k[3] != v[3]:
            an.violation(st, 'wrong-visit', 'key and value of different entries are delivered', ('iter', 'map'))
        for oid, o in st.heap.items():
            if isinstance(o, Blk) and o.kind == 'node' and o.ident is not None and o.ident[0] == 'A' and \
                    o.ident[1] != 'K' and st.eq(o.ident[1], k[3]):
                if o.ident[2] == 'v':
                    an.violation(st, 'visited-twice', 'an entry is visited twice', ('iter',))
                st.heap[oid] = o.copy(ident=('A', o.ident[1], 'v'))
                return None
        raise Undecided('visit of an entry that is not in sight')

    # ---- recursion over subtrees (destruction)
    def recursive_call(self, st, fr, ins, fn, args):
        if self.op not in ('clear', 'free', 'destroy'):
            return None
        ps = [a for a in args if isP(a)]
        for p in ps:
            o = st.heap[p[1]]
            if p[2] == 'root' and isinstance(o, Sub):
                for f in ('key', 'val'):
                    if not self.cfg.get({'key': 'fk', 'val': 'fv'}[f]):
                        continue
                    if self.may_be_released(st, f, o.lo, o.hi):
                        self.an.violation(st, 'double-release', 'a subtree is released twice', ('release',))
                    self.add_range(st, f, o.lo, o.hi)
                st.heap[p[1]] = Blk('node', con(self.T.size), {}, 'uninit', o.origin, 'freed', None, False, 'contract')
                self.T.repoint(st, {(p[1], 'root'): (p[1], '')})
                st.flags['contract'] = True
                self.contract_used = fn.name
                if fn.ret == 'void' or ins['ty'] == 'void':
                    return (None,)
                raise Undecided('recursive function with a result')
            if isinstance(o, Blk) and o.kind == 'node' and o.status == 'freed':
                self.an.violation(st, 'use-after-free', 'a subtree that was given back is destroyed again', ('ub', 'uaf', 'alloc'))
        return None

    def add_range(self, st, field, lo, hi):
        out = []
        for a, b in self.rel(st, field):
            if st.eq(b, lo):
                lo = a
            elif st.eq(a, hi):
                hi = b
            else:
                out.append((a, b))
        out.append((st.norm(lo), st.norm(hi)))
        if len(out) > 3:
            raise Undecided('too many separate ranges of released elements')
        st.ghost['rel_' + field] = tuple(out)

    def disposed(self, st):
        n0 = st.ghost['n']
        for f in ('key', 'val'):
            if self.cfg['fk' if f == 'key' else 'fv'] and not self.all_released(st, f, ZERO, n0):
                return False
        return not any(getattr(o, 'status', '') == 'live' and (isinstance(o, (Sub, Ctx)) or (isinstance(o, Blk) and o.kind == 'node'))
                       for o in st.heap.values())

    def finished(self, an):
        """a recursive destructor was taken to dispose of the subtree it is given;
        what was found under that assumption counts when it does"""
        if self.contract_broken and self.contract_used:
            fs = [k for k, f in an.findings.items() if f.assumes]
            for k in fs:
                del an.findings[k]
            if fs or not an.findings:
                an.undecided.setdefault('%s does not dispose of the whole subtree it is given' % self.contract_broken, [])

    def on_cycle_return(self, st, fr):
        if self.op in ('clear', 'free', 'destroy'):
            self.absorb_nulls(st)
            if not self.disposed(st):
                self.contract_broken = fr.fn.name
            return
        # the traversal stack has served; whoever reads it later learns nothing
        for oid, o in list(st.heap.items()):
            if isinstance(o, Arr) and o.label == 'stack' and o.runs and any(d[0] != 'junk' for _, _, d in o.runs):
                st.heap[oid] = o.copy(runs=[(ZERO, st.norm(o.runs[-1][1]), ('junk',))])

    # ---- post
    def finish(self, st, ret):
        if st.flags.get('oom'):
            self.an.violation(st, 'failed-allocation-ignored', 'the function returns although memory was refused', ('oom',))
        self.absorb_nulls(st)
        getattr(self, 'post_' + self.op)(st, ret)
        self.collect(st)

    def leak(self, st, oid, o):
        if isinstance(o, Blk) and o.kind == 'tree':
            return
        if isinstance(o, Sub) and o.opt and not st.ge(o.hi - o.lo + o.has - 1):
            return      # may be empty; what is missing shows in the content
        super().leak(st, oid, o)

    def parts(self, st, ghost='root'):
        """checks the tree object; returns (count, root value)"""
        an = self.an
        oid = st.ghost[ghost][1]
        o = st.heap[oid]
        F = self.F
        if o.status != 'live':
            an.violation(st, 'broken-container', 'the tree object was freed', ('map', 'alloc'))
        n = st.u(self.num(st, self.cell(st, o, F['count']), 'node count'))
        ss = st.u(self.num(st, self.cell(st, o, F['stack_size']), 'stack size'))
        p = self.cell(st, o, F['stack'])
        if not isP(p) or p[2] or st.heap[p[1]].status != 'live' or p[3] != ZERO or st.heap[p[1]].origin != 'malloc':
            an.violation(st, 'broken-container', 'the stack of the tree is no live allocation', ('struct', 'ub'))
        a = st.heap[p[1]]
        if not st.ge(a.size - ss.scale(8)) or not st.ge(ss - 1):
            an.report(st, 'capacity-mismatch', 'the stack is smaller than recorded', ('struct', 'ub'))
        if isinstance(a, Arr):
            st.heap[p[1]] = a.copy(runs=[(ZERO, st.norm(a.runs[-1][1] if a.runs else ZERO), ('junk',))])
        sp = self.cell(st, o, F['sp'])
        if isP(sp):
            # whatever is left on the stack does not count
            if o.cells[F['sp'][0]][1] != NULL:
                c = dict(o.cells)
                c[F['sp'][0]] = (8, JUNK)
                st.heap[oid] = o.copy(cells=c)
        fk = ('CB', 'free_key') if self.cfg.get('fk') else NULL
        fv = ('CB', 'free_value') if self.cfg.get('fv') else NULL
        po = F['pair'][0]
        for f, want in ((F['compare_keys'], ('CB', 'compare')), (F['free_key'], fk), (F['free_value'], fv),
                        (F['pool'], st.ghost.get('root_pool', NULL)), ((po + self.PF['free_value'][0], 8), fv)):
            v = self.cell(st, o, f)
            if v == ZERO:
                v = NULL
            if v != want:
                an.report(st, 'configuration-lost', 'the tree lost one of its settings', ('struct', 'release'))
        r = self.cell(st, o, F['root'])
        if r in (UNDEF,):
            an.violation(st, 'uninitialised', 'the root is not initialised', ('ub', 'struct'))
        if r == JUNK:
            raise Undecided('root unknown')
        return n, r

    def token(self, st, key, val):
        if key in (UNDEF, JUNK) or val in (UNDEF, JUNK):
            if UNDEF in (key, val):
                self.an.violation(st, 'uninitialised', 'a node holds an uninitialised key or value', ('ub', 'map'))
            raise Undecided('content of a node unknown')
        key, val = st.nv(key), st.nv(val)
        if val == ZERO:
            val = NULL
        if isinstance(key, tuple) and isinstance(val, tuple) and key[0] == 'E' and val[0] == 'E' and key[1] == val[1] and \
                key[2] == 'key' and val[2] == 'val' and st.eq(key[3], val[3]):
            return ('r', key[3], st.norm(key[3] + 1))
        return ('v', key, val)

    def ktoken(self, st):
        return self.token(st, st.ghost['kkey'], st.ghost['kval'])

    def walk(self, st, v, seen=(), live=None):
        """(tokens, black height, colour) of the subtree"""
        an = self.an
        if isnullv(st, v):
            return [], ZERO, ONE
        if v == UNDEF:
            an.violation(st, 'uninitialised', 'a child pointer is not initialised', ('ub', 'map'))
        if not isP(v) or v[3] != ZERO:
            if v == JUNK:
                raise Undecided('child pointer unknown')
            an.violation(st, 'broken-container', 'a child pointer does not point to a node', ('map', 'ub'))
        oid = v[1]
        o = st.heap[oid]
        if oid in seen or len(seen) > 60:
            an.violation(st, 'broken-container', 'a node is reached twice from the root', ('map', 'bal'))
        seen = seen + (oid,)
        if live is not None:
            if oid in live:
                an.violation(st, 'broken-container', 'a node is reached twice from the root', ('map', 'bal'))
            live.add(oid)
        x = st.ghost['x']
        if isinstance(o, Sub):
            if v[2] != 'root':
                raise Undecided('pointer into a subtree')
            t = [('r', o.lo, o.hi)]
            if o.has:
                t = [('r', o.lo, x), self.ktoken(st), ('r', x, o.hi)]
            return t, o.bh, o.col
        if isinstance(o, Ctx):
            t, bh, col = self.walk(st, o.hole, seen, live)
            if not st.eq(bh, o.h):
                self.unbalanced(st, 'the subtrees of a node differ in black height')
            if not st.ge(o.cl + col - 1):
                self.unbalanced(st, 'a red node has a red child')
            l, r = [('r', o.A, o.a)], [('r', o.b, o.B)]
            if o.has:
                if o.has == 2:
                    r = [('r', o.b, x), self.ktoken(st), ('r', x, o.B)]
                else:
                    l = [('r', o.A, x), self.ktoken(st), ('r', x, o.a)]
            return l + t + r, o.h + o.Bk, o.cf
        if o.status != 'live':
            an.violation(st, 'use-after-free', 'a node that was given back is still linked into the tree', ('map', 'uaf', 'ub'))
        if not isinstance(o, Blk) or st.norm(o.size) != con(self.T.size):
            an.violation(st, 'broken-container', 'a child pointer does not point to a node', ('map', 'ub'))
        if o.origin != self.origin:
            an.report(st, 'foreign-node', 'a node does not come from the allocator of the tree', ('alloc',))
        O = self.T.o
        c = self.cell(st, o, (O['black'], self.T.bw))
        if c == UNDEF:
            an.violation(st, 'uninitialised', 'the colour of a node is not set', ('ub', 'bal'))
        if not isinstance(c, Lin):
            raise Undecided('colour of a node unknown')
        if not (st.ge(c) and st.ge(con(1) - c)):
            c = ZERO if st.decide_eq(c) else ONE
        lt, lb, lc = self.walk(st, self.cell(st, o, (O['left'], 8)), seen, live)
        rt, rb, rc = self.walk(st, self.cell(st, o, (O['right'], 8)), seen, live)
        if not st.eq(lb, rb):
            self.unbalanced(st, 'the subtrees of a node differ in black height')
        if not (st.ge(c + lc - 1) and st.ge(c + rc - 1)):
            self.unbalanced(st, 'a red node has a red child')
        return lt + [self.token(st, self.cell(st, o, (O['key'], 8)), self.cell(st, o, (O['value'], 8)))] + rt, lb + c, c

    def unbalanced(self, st, msg):
        self.an.report(st, 'unbalanced', msg, ('bal',))

    def tidy(self, st, toks):
        out = []
        for t in toks:
            if t[0] == 'r':
                if st.decide_eq(t[2] - t[1]):
                    continue
                if out and out[-1][0] == 'r' and st.eq(out[-1][2], t[1]):
                    out[-1] = ('r', out[-1][1], t[2])
                    continue
            out.append(t)
        return out

    def chained(self, st, toks, expect):
        """toks and expect agree as they are: ranges follow each other without
        gaps (some may be empty)"""
        def parts(ts):
            out, cur = [], []
            for t in ts:
                if t[0] == 'r':
                    cur.append(t)
                else:
                    out += [cur, t]
                    cur = []
            return out + [cur]
        g, w = parts(toks), parts(expect)
        if len(g) != len(w):
            return False
        for i, (a, b) in enumerate(zip(g, w)):
            if i % 2:
                if not (self.same(st, a[1], b[1]) and self.same(st, a[2], b[2])):
                    return False
                continue
            ends = []
            for rs in (a, b):
                for x, y in zip(rs, rs[1:]):
                    if not st.eq(x[2], y[1]):
                        return False
                ends.append((rs[0][1], rs[-1][2]) if rs else None)
            if None in ends:
                if any(e is not None and not st.eq(e[0], e[1]) for e in ends):
                    return False
            elif not (st.eq(ends[0][0], ends[1][0]) and st.eq(ends[0][1], ends[1][1])):
                return False
        return True

    def content(self, st, root, expect, tags=('map',)):
        an = self.an
        live = set()
        toks, bh, col = self.walk(st, root, (), live)
        if not isnullv(st, root) and not st.eq(col, ONE):
            self.unbalanced(st, 'the root is red')
        if self.chained(st, toks, expect):
            return
        got, want = self.tidy(st, toks), self.tidy(st, expect)
        ok = len(got) == len(want)
        if ok:
            for g, w in zip(got, want):
                if g[0] != w[0]:
                    ok = False
                elif g[0] == 'r':
                    ok = ok and st.eq(g[1], w[1]) and st.eq(g[2], w[2])
                else:
                    ok = ok and self.same(st, g[1], w[1]) and self.same(st, g[2], w[2])
        if not ok:
            an.violation(st, 'wrong-content', 'the tree does not hold what the operation has to leave, or not in key order', tags)

    def same(self, st, a, b):
        if a == b:
            return True
        n = lambda v: v == NULL or st.facts.get(('null', v)) is True
        return n(a) and n(b)

    def expect(self, st, mid):
        x, n = st.ghost['x'], st.ghost['n']
        return [('r', ZERO, x)] + mid + [('r', x, n)]

    def old(self):
        return [('v', SK, SV)] if self.cfg.get('has') else []

    def nothing_released(self, st, but=()):
        for f, w in (('key', 'key'), ('val', 'value')):
            for a, b in self.rel(st, f):
                if f == 'val' and st.eq(b, a + 1) and st.facts.get(('null', st.nv(('E', 'A', 'val', a)))) is True:
                    continue
                self.an.report(st, 'released-kept', 'a %s that stays stored is released' % w, ('release', 'replace'))
            if st.flags.get('rel_' + f) and f not in but:
                self.an.report(st, 'released-kept', 'a %s that stays stored is released' % w, ('release', 'replace'))

    def must_release(self, st, f, what):
        if not self.cfg['fk' if f == 'key' else 'fv']:
            return
        if st.flags.get('rel_' + f):
            return
        if f == 'val' and st.facts.get(('null', SV)) is True:
            return
        self.an.report(st, 'not-released', 'the %s is not released' % what, ('release', 'replace'))

    def unchanged(self, st, tags=('map',)):
        n, r = self.parts(st)
        if not st.eq(n, st.ghost['n'] + self.cfg.get('has', 0)):
            self.an.violation(st, 'wrong-count', 'the number of nodes changed', tags)
        self.content(st, r, self.expect(st, self.old()), tags)
        self.nothing_released(st)

    def truth(self, st, ret):
        return self.an.decide_bool(st, self.an.num_of(st, ret))

    def post_set(self, st, ret):
        an = self.an
        n, r = self.parts(st)
        n0 = st.ghost['n']
        ret = st.norm(an.num_of(st, ret))
        if not self.cfg['has']:
            if not st.eq(ret, con(NEW)):
                an.report(st, 'wrong-result', 'insertion of a new key is not reported as NEW', ('map', 'replace'))
            if not st.eq(n, n0 + 1):
                an.violation(st, 'wrong-count', 'the number of nodes does not increase by one', ('map', 'replace'))
            self.content(st, r, self.expect(st, [('v', D, V)]), ('map', 'replace'))
            self.nothing_released(st)
            return
        if not st.eq(ret, con(REPLACED)):
            an.report(st, 'wrong-result', 'replacement is not reported as REPLACED', ('map', 'replace'))
        if not st.eq(n, n0 + 1):
            an.violation(st, 'wrong-count', 'the number of nodes changes on replacement', ('map', 'replace'))
        ow = self.cfg['ow']
        self.content(st, r, self.expect(st, [('v', D if ow else SK, V)]), ('map', 'replace'))
        but = ['val']
        self.must_release(st, 'val', 'old value')
        if ow:
            but.append('key')
            self.must_release(st, 'key', 'old key')
        self.nothing_released(st, but)

    def post_remove(self, st, ret):
        an = self.an
        t = self.truth(st, ret)
        if not self.cfg['has']:
            if t:
                an.report(st, 'wrong-result', 'a key that is not stored is reported as removed', ('map',))
            self.unchanged(st)
            return
        if not t:
            an.report(st, 'wrong-result', 'a stored key is reported as not removed', ('map',))
        n, r = self.parts(st)
        if not st.eq(n, st.ghost['n']):
            an.violation(st, 'wrong-count', 'the number of nodes does not decrease by one', ('map',))
        self.content(st, r, self.expect(st, []))
        self.must_release(st, 'key', 'removed key')
        self.must_release(st, 'val', 'removed value')
        self.nothing_released(st, ('key', 'val'))

    # destruction
    def all_gone(self, st):
        n0 = st.ghost['n']
        for f, w in (('key', 'key'), ('val', 'value')):
            if self.cfg['fk' if f == 'key' else 'fv'] and not self.all_released(st, f, ZERO, n0):
                self.an.report(st, 'not-released', 'not every %s is released' % w, ('release',))
        for oid, o in st.heap.items():
            if isinstance(o, Sub) and o.opt and not st.decide_ge(o.hi - o.lo + o.has - 1):
                continue
            if getattr(o, 'status', '') == 'live' and (isinstance(o, (Sub, Ctx)) or (isinstance(o, Blk) and o.kind == 'node')):
                self.an.report(st, 'leak', 'nodes of the tree are not given back', ('leak',))
                break

    def post_clear(self, st, ret):
        n, r = self.parts(st)
        if not st.eq(n, ZERO) or not isnullv(st, r):
            self.an.report(st, 'not-empty', 'the tree is not empty after clear', ('map', 'struct'))
        self.all_gone(st)

    def post_free(self, st, ret):
        self.all_gone(st)
        self.no_storage(st)

    def post_destroy(self, st, ret):
        self.all_gone(st)
        self.no_storage(st)
        if st.heap[st.ghost['root'][1]].status != 'freed':
            self.an.report(st, 'leak', 'the tree object is not freed', ('leak',))

    def no_storage(self, st):
        for o in st.heap.values():
            if isinstance(o, Arr) and o.status == 'live':
                self.an.report(st, 'leak', 'the stack of the tree is not freed', ('leak', 'release'))

    # construction
    def post_init(self, st, ret):
        n, r = self.parts(st)
        o = st.heap[st.ghost['root'][1]]
        if not st.eq(n, ZERO) or not isnullv(st, r):
            self.an.report(st, 'not-empty', 'a new tree is not empty', ('map', 'struct'))
        if not isnullv(st, self.cell(st, o, self.F['sp'])):
            raise Undecided('a new tree has a stack pointer')

    def post_new(self, st, ret):
        if not isP(ret) or st.heap[ret[1]].origin != 'malloc' or st.norm(st.heap[ret[1]].size) != con(self.prog.size('RBTree')):
            self.an.violation(st, 'wrong-result', 'new does not return a new tree', ('map', 'struct'))
        st.ghost['root'] = ret
        self.post_init(st, ret)

    # queries
    def post_lookup(self, st, ret):
        an = self.an
        po = self.F['pair'][0]
        oid = st.ghost['root'][1]
        o = st.heap[oid]
        nd = o.cells.get(po + self.PF['node'][0])
        has = self.cfg['has']
        if isnullv(st, ret):
            if has:
                an.report(st, 'missed-key', 'a stored key is not found', ('find',))
        elif ret != P(oid, con(po)):
            an.violation(st, 'wrong-result', 'lookup does not return the pair of the tree', ('find',))
        elif not has:
            an.report(st, 'wrong-key', 'lookup returns an entry for a key that is not stored', ('find',))
        else:
            v = nd[1]
            if not isP(v) or v[3] != ZERO:
                an.violation(st, 'wrong-key', 'the pair does not refer to a node', ('find', 'ub'))
            q = st.heap[v[1]]
            if not isinstance(q, Blk):
                self.T.materialise(st, v[1], v[2])
            if q.status != 'live' or self.cell(st, q, (self.T.o['key'], 8)) != SK:
                an.violation(st, 'wrong-key', 'the pair refers to another entry', ('find',))
        self.unchanged(st, ('map', 'ro'))

    def post_key_exists(self, st, ret):
        if self.truth(st, ret) != bool(self.cfg['has']):
            self.an.report(st, 'wrong-result', 'key_exists does not tell whether the key is stored', ('find',))
        self.unchanged(st, ('map', 'ro'))

    def post_count(self, st, ret):
        self.unchanged(st, ('map', 'ro'))
        if not st.eq(st.u(self.an.num_of(st, ret)), st.ghost['n'] + self.cfg.get('has', 0)):
            self.an.report(st, 'wrong-result', 'count is not the number of nodes', ('map',))

    # pairs
    def pairnode(self, st, want):
        nd = st.heap[st.ghost['root_node'][1]]
        if nd.status != 'live':
            self.an.violation(st, 'use-after-free', 'the node of the pair is given back', ('uaf', 'alloc'))
        if self.cell(st, nd, (self.T.o['key'], 8)) != SK or self.cell(st, nd, (self.T.o['value'], 8)) != want:
            self.an.report(st, 'wrong-content', 'the entry does not hold what the operation has to leave', ('map',))
        for k in ('left', 'right', 'black'):
            if nd.cells[self.T.o[k]][1] != JUNK:
                self.an.report(st, 'wrong-content', 'the links of the node are changed', ('map', 'bal'))

    def post_pair_get_key(self, st, ret):
        self.pairnode(st, SV)
        if ret != SK:
            self.an.report(st, 'wrong-result', 'the key of the pair is not returned', ('find',))
        self.nothing_released(st)

    post_pair_key = post_pair_get_key

    def post_pair_get_value(self, st, ret):
        self.pairnode(st, SV)
        if ret != SV and not (isnullv(st, ret) and st.facts.get(('null', SV)) is True):
            self.an.report(st, 'wrong-result', 'the value of the pair is not returned', ('find',))
        self.nothing_released(st)

    post_pair_value = post_pair_get_value

    def post_pair_set_value(self, st, ret):
        self.pairnode(st, V)
        self.must_release(st, 'val', 'old value')
        self.nothing_released(st, ('val',))

    # iteration
    def visited(self, st):
        n, r = self.parts(st)
        for o in st.heap.values():
            if isinstance(o, Sub) and o.seq == 'A' and o.attr != 'v':
                if o.opt and not st.decide_ge(o.hi - o.lo + o.has - 1):
                    continue
                self.an.violation(st, 'not-visited', 'the iteration ends although nodes were not visited', ('iter',))
            if isinstance(o, Ctx) and o.seq == 'A' and set(o.attr) != {'v'}:
                raise Undecided('a path is left after the iteration')
            if isinstance(o, Blk) and o.kind == 'node' and o.ident[0] == 'A' and o.ident[2] != 'v':
                self.an.violation(st, 'not-visited', 'the iteration ends although nodes were not visited', ('iter',))
        self.unchanged(st, ('map', 'ro'))

    def post_iterate(self, st, ret):
        self.visited(st)

    post_iterate_macros = post_iterate
    post_reuse = post_iterate

    def post_init_free(self, st, ret):
        self.unchanged(st, ('map', 'ro'))


PROPS = {'ub': [], 'oob': [], 'null': [], 'uaf': ['C08'], 'alloc': ['C08'], 'leak': ['C08', 'C16'], 'oom': ['C30'],
         'term': ['C30'], 'struct': ['C13'], 'map': ['C13'], 'find': ['C13'], 'replace': ['C20'], 'bal': ['C14'],
         'release': ['C16'], 'ro': ['C32'], 'iter': ['C15']}


def tasks(prog):
    out = []

    def add(op, args, extra=(), entry=None, **cfg):
        entry = entry or 'rbtree_' + op
        name = '%s[%s]' % (entry, ','.join('%s=%s' % x for x in sorted(cfg.items())))
        props = dict(PROPS)
        for tag, ops in (('replace', ('set',)), ('bal', ('set', 'remove')), ('iter', ITER), ('ro', ITER + QUERY)):
            if op not in ops:
                props[tag] = []

        def start():
            fn = prog.fn(entry)
            spec = TreeSpec(prog, entry, name, op, cfg)
            states = []
            for spnull in ((True, False) if op in ('set', 'remove', 'clear') else (True,)):
                st = spec.base_state(spnull)
                fk = ('CB', 'free_key') if cfg.get('fk') else NULL
                fv = ('CB', 'free_value') if cfg.get('fv') else NULL
                av = []
                for a in args:
                    if a == 'T':
                        av.append(st.ghost['root'])
                    elif a == 'FIRST':
                        av.append(st.ghost['root_first'])
                    elif a == 'PAIR':
                        av.append(st.ghost['root_it'])
                    elif a == 'CMP':
                        av.append(('CB', 'compare'))
                    elif a == 'FK':
                        av.append(fk)
                    elif a == 'FV':
                        av.append(fv)
                    elif a == 'POOL':
                        av.append(st.ghost.get('root_pool', NULL))
                    elif a == 'OW':
                        av.append(con(cfg['ow']))
                    elif a == 'RAW':
                        r = st.ghost['root']
                        o = st.heap[r[1]]
                        for k in list(st.heap):
                            if isinstance(st.heap[k], Arr):
                                del st.heap[k]
                        st.heap[r[1]] = o.copy(cells={}, default='uninit')
                        av.append(r)
                    else:
                        av.append(a)
                if op == 'new':
                    for k in list(st.heap):
                        if isinstance(st.heap[k], Arr) or st.heap[k].kind == 'tree':
                            del st.heap[k]
                    del st.ghost['root']
                if len(av) != len(fn.params):
                    raise MissingAPI('signature of %s' % entry)
                st.frames = [Frame(fn, {p['id']: a for p, a in zip(fn.params, av)})]
                states.append(st)
            return spec, states
        t = dict(name=name, group='rbtree', props=props, extra=list(extra), start=start, fn=entry)
        # the other variants walk the same loops
        t['finishes'] = all(cfg.get(k, 1) for k in ('fk', 'pool')) and (
            cfg.get('fv', 1) or op == 'remove' and cfg.get('has') == 1)
        if op == 'remove' and cfg.get('has'):
            t['weight'], t['timeout'] = 100, 500
            if cfg['fk'] and cfg.get('nul'):
                t['deep'] = True
        out.append(t)

    ALL = ['C08', 'C13']
    for pool in (0, 1):
        for fk, fv in ((0, 0), (1, 1), (0, 1), (1, 0)):
            both = fk == fv
            if both:
                for ow in (0, 1):
                    if ow == pool or fk:
                        add('set', ['T', D, V, 'OW'], ALL + ['C14'], fk=fk, fv=fv, ow=ow, pool=pool, has=0)
                    add('set', ['T', D, V, 'OW'], ALL + ['C14'], fk=fk, fv=fv, ow=ow, pool=pool, has=0, shape='empty')
                add('remove', ['T', D], ALL + ['C14'], fk=fk, fv=fv, pool=pool, has=0)
                add('remove', ['T', D], ALL + ['C14'], fk=fk, fv=fv, pool=pool, has=0, shape='empty')
            if pool == fk:
                # whether the stored value is NULL only matters to the release
                for nul in ((0, 1) if fv else (None,)):
                    add('remove', ['T', D], ALL + ['C14'], fk=fk, fv=fv, pool=pool, has=1, **({} if nul is None else {'nul': nul}))
            for ow in (0, 1):
                add('set', ['T', D, V, 'OW'], ALL + ['C20'], fk=fk, fv=fv, ow=ow, pool=pool, has=1)
            for shape in ('empty', 'any'):
                for op in ('clear', 'free', 'destroy'):
                    add(op, ['T'], ['C08', 'C16'], fk=fk, fv=fv, pool=pool, shape=shape)
            add('new', ['CMP', 'FK', 'FV', 'POOL'], ['C13'], fk=fk, fv=fv, pool=pool, shape='empty')
            add('init', ['RAW', 'CMP', 'FK', 'FV', 'POOL'], ['C13'], fk=fk, fv=fv, pool=pool, shape='empty')
    for has, shape in ((0, 'empty'), (0, 'any'), (1, 'any')):
        add('lookup', ['T', D], ['C13', 'C32'], has=has, shape=shape, ro=1)
        add('key_exists', ['T', D], ['C13', 'C32'], has=has, shape=shape, ro=1)
    for shape in ('empty', 'any'):
        add('count', ['T'], ['C13', 'C32'], shape=shape, ro=1)
        add('iterate', ['T', ('CB', 'visit'), ('CB', 'none'), ('CB', 'again')], ['C15', 'C32'], entry='vm_rbtree_iterate', shape=shape, ro=1)
        add('iterate_macros', ['T', ('CB', 'visit'), ('CB', 'again')], ['C15', 'C32'], entry='vm_rbtree_iterate_macros', shape=shape, ro=1)
        add('init_free', ['T'], ['C15', 'C32'], entry='vm_rbtree_init_free', shape=shape, ro=1)
        for first in ('empty', 'any', 'same'):
            add('reuse', ['FIRST', 'T', ('CB', 'more'), ('CB', 'visit'), ('CB', 'none'), ('CB', 'again')], ['C15', 'C32'],
                entry='vm_rbtree_reuse', shape=shape, first=first, ro=1)
    for fv in (0, 1):
        add('pair_set_value', ['PAIR', V], ['C13', 'C16'], fv=fv, fk=1)
    for op in ('pair_get_key', 'pair_get_value'):
        add(op, ['PAIR'], ['C13', 'C32'], ro=1)
        add(op.replace('get_', ''), ['PAIR'], ['C13', 'C32'], entry='vm_rbtree_' + op.replace('get_', ''), ro=1)
    return out
