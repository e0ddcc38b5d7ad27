"""list.c / slist.c / stack.c and the stack and queue macros."""
from absint import *
from interp import Analyzer, Retry
from base import Spec, BIG
from lists import Lists, NodeType
from num import Lin, con, sym, newsym, ZERO, ONE

D = ('O', 'datum')
ALLS = frozenset((-1, 0, 1))


def sgn_key(a, b):
    """canonical key for compare(a,b) and whether the result is negated"""
    if (0 if a[0] == 'E' else 1, repr(a)) <= (0 if b[0] == 'E' else 1, repr(b)):
        return ('sgn', a, b), 1
    return ('sgn', b, a), -1


class ListSpec(Spec):
    key_ghosts = ()

    def __init__(self, prog, dll, entry, case, op, free, pool, **kw):
        super().__init__(prog)
        self.dll = dll
        self.entry = entry
        self.op = op
        self.free = free
        self.pool = pool
        self.kw = kw
        self.case = case
        self.item_t = 'ListItem' if dll else 'SListItem'
        self.list_t = 'List' if dll else 'SList'
        f = prog.fields(self.item_t)
        self.F = prog.fields(self.list_t)
        self.L = Lists(self)
        self.node = NodeType('item', prog.size(self.item_t), f['next'][0], f['prev'][0] if dll else None,
                             {f['data'][0]: 'data'})
        self.doff = f['data'][0]
        self.L.add(self.node)
        self.plugins = [self.L]
        pre = 'list_' if dll else 'slist_'
        self.CONTAINER = ('root_list', self.list_t, ('head', 'tail', 'count', 'compare', 'free', 'pool'), (pre + 'free', pre + 'destroy'))
        self.searches = kw.get('searches', True)

    # ---- pre-states
    def base_state(self, ro=False, origin='user', empty=False, item=False):
        """states of a valid list; yields (state, list ptr, item oid)"""
        out = []
        for shape in (['empty'] if empty is True else ['any'] if empty is False else ['empty', 'any']):
            if shape == 'any' and item:
                combos = [(a, b) for a in (0, 1) for b in (0, 1)]
            else:
                combos = [None]
            for cmb in combos:
                st = State()
                n = newsym('n')
                st.ghost['n'] = n
                st.assume_ge(con(BIG) - n)
                st.seqs['D'] = []
                nodeorigin = 'upool' if self.pool else 'malloc'
                poolv = NULL
                if self.pool:
                    po = Blk('pool', con(self.prog.size('Pool')), {}, 'junk', 'user', 'live', None, False, 'pool')
                    pf = self.prog.fields('Pool')
                    po.cells = {pf['alloc'][0]: (8, ('CB', 'pool_alloc')), pf['free'][0]: (8, ('CB', 'pool_free'))}
                    poid = st.alloc_oid(po)
                    poolv = P(poid)
                    st.ghost['root_pool'] = poolv
                attr = self.attr('held', ALLS)
                parts = []
                if shape == 'empty':
                    st.assume_eq(n)
                    head = tail = NULL
                    itemoid = None
                else:
                    if cmb is None:
                        st.assume_ge(n - 1)
                        parts = [('S', ZERO, n)]
                    else:
                        i = newsym('i')
                        st.ghost['idx'] = i
                        if cmb[0]:
                            parts.append(('S', ZERO, i))
                            st.assume_ge(i - 1)
                        else:
                            st.assume_eq(i)
                        parts.append(('B', i, i + 1))
                        if cmb[1]:
                            parts.append(('S', i + 1, n))
                            st.assume_ge(n - i - 2)
                        else:
                            st.assume_eq(n - i - 1)
                    oids = [st.next_oid + k for k in range(len(parts))]
                    st.next_oid += len(parts)
                    itemoid = None
                    def first(k):
                        if k >= len(parts):
                            return NULL
                        return P(oids[k], ZERO, 'first' if parts[k][0] == 'S' else '')
                    def last(k):
                        if k < 0:
                            return NULL
                        return P(oids[k], ZERO, 'last' if parts[k][0] == 'S' else '')
                    for k, (t, lo, hi) in enumerate(parts):
                        if t == 'S':
                            st.heap[oids[k]] = Seg('item', 'D', lo, hi, first(k + 1), last(k - 1) if self.dll else NULL,
                                                   attr, None, None, ro, nodeorigin)
                        else:
                            st.heap[oids[k]] = self.L.mkblk(st, self.node, 'D', lo, first(k + 1), last(k - 1),
                                                            nodeorigin, ro)
                            itemoid = oids[k]
                        st.seqs['D'].append(('o', oids[k]))
                    head, tail = first(0), last(len(parts) - 1)
                cells = {}
                F = self.F
                for name, v in (('head', head), ('tail', tail), ('count', n), ('compare', ('CB', 'compare')),
                                ('free', ('CB', 'free') if self.free else NULL), ('pool', poolv)):
                    cells[F[name][0]] = (F[name][1], v)
                lo = Blk('list', con(self.prog.size(self.list_t)), cells, 'junk', origin, 'live', None, ro, 'list')
                loid = st.alloc_oid(lo)
                st.ghost['root_list'] = P(loid)
                if itemoid is not None:
                    st.ghost['item'] = P(itemoid)
                out.append((st, P(loid), itemoid, shape))
        return out

    # ---- element attributes
    def attr(self, dst, sgn):
        return (('dst', dst), ('sgn', tuple(sorted(sgn))))

    def sgn(self, st, e):
        if not self.searches:
            return ALLS
        return st.facts.get(('sgn', st.nv(e), D), ALLS)

    def elem_attr(self, st, seq, idx):
        e = st.nv(('E', seq, 'data', idx))
        d = st.dst.get(e, 'held')
        if self.free and d == 'held' and st.facts.get(('null', e)) is True:
            # nothing to release for a NULL datum
            d = 'held' if not self.removing(st) else 'rel'
        return self.attr(d, self.sgn(st, e))

    def removing(self, st):
        return st.flags.get('removing', False)

    def apply_attr(self, st, seq, idx, attr):
        a = dict(attr)
        e = st.nv(('E', seq, 'data', idx))
        if a['dst'] != 'held':
            st.dst[e] = a['dst']
        s = frozenset(a['sgn'])
        if s != ALLS:
            st.facts[('sgn', e, D)] = s

    def attr_joinable(self, a, b):
        x, y = dict(a), dict(b)
        if x.get('dst') != y.get('dst') or set(x) != set(y) or 'lost' in x:
            return False
        return 0 not in x['sgn'] and 0 not in y['sgn'] and self.op != 'insert_sorted'

    def attr_join(self, a, b):
        x, y = dict(a), dict(b)
        return self.attr(x['dst'], frozenset(x['sgn']) | frozenset(y['sgn']))

    # ---- callbacks
    def check_datum(self, st, v, what):
        if v == UNDEF:
            self.an.violation(st, 'uninitialised', 'uninitialised value passed to the %s function' % what, ('ub',))
        if isinstance(v, Lin) or v == NULL:
            return NULL
        if v[0] not in ('E', 'O'):
            if v == JUNK:
                raise Undecided('unknown value passed to callback')
            self.an.violation(st, 'bad-callback-argument', 'a pointer that is no stored or passed datum is given to the %s '
                              'function' % what, ('ub', 'find', 'edit', 'sorted', 'release'))
        v = st.nv(v)
        if st.dst.get(v) == 'rel':
            self.an.violation(st, 'use-after-release', 'a datum is passed to the %s function after it was released' % what,
                              ('release', 'ub'))
        return v

    def callback(self, st, role, args, ins):
        an = self.an
        if role == 'compare':
            a, b = [self.check_datum(st, x, 'compare') for x in args[:2]]
            return self.compare_result(st, a, b, ins)
        if role == 'free':
            v = args[0]
            if v == UNDEF:
                an.violation(st, 'uninitialised', 'free function called on an uninitialised value', ('release', 'ub'))
            if v == NULL or isinstance(v, Lin):
                an.violation(st, 'release-null', 'free function called with NULL', ('release',))
            if v[0] == 'O':
                an.violation(st, 'release-foreign', 'free function called on a datum that was not stored', ('release',))
            if v[0] != 'E':
                if v == JUNK:
                    raise Undecided('free of unknown value')
                an.violation(st, 'release-foreign', 'free function called on something that is no datum', ('release',))
            v = st.nv(v)
            if st.dst.get(v) == 'rel':
                an.violation(st, 'double-release', 'free function called twice on the same datum', ('release',))
            if st.facts.get(('null', v)) is not False:
                an.report(st, 'release-null', 'free function may be called with NULL', ('release',))
            st.dst[v] = 'rel'
            return None
        if role == 'pool_alloc':
            self.check_pool(st, args[0])
            o = Blk('item', con(self.node.size), {}, 'uninit', 'upool', 'live', None, False, 'item')
            return P(st.alloc_oid(o))
        if role == 'pool_free':
            self.check_pool(st, args[0])
            p = args[1]
            if p == UNDEF or p == NULL or isinstance(p, Lin) or p[0] != 'P':
                an.violation(st, 'bad-pool-free', 'something that is no item is given to the pool', ('alloc', 'ub'))
            self.release_storage(st, p, 'upool', 'return to the pool')
            return None
        raise Undecided('callback %s' % role)

    def check_pool(self, st, v):
        if st.nv(v) != st.ghost.get('root_pool'):
            self.an.violation(st, 'wrong-pool', 'pool function called with a different pool', ('alloc', 'ub'))

    def compare_result(self, st, a, b, ins):
        if a == NULL or b == NULL:
            r = newsym('cmp')
            st.assume_ge(r + (1 << 31)); st.assume_ge(con((1 << 31) - 1) - r)
            return r
        if a == b:
            return ZERO
        key, neg = sgn_key(a, b)
        s = st.facts.get(key, ALLS)
        if len(s) > 1:
            raise Split([(lambda x, v=v: x.setfact(key, frozenset((v,)))) for v in sorted(s)])
        v = next(iter(s)) * neg
        if v == 0:
            return ZERO
        r = newsym('cmp')
        st.assume_ge(r - 1); st.assume_ge(con((1 << 31) - (1 if v > 0 else 0)) - r)
        return r if v > 0 else -r

    def release_storage(self, st, p, origin, what):
        st.flags['removing'] = True
        super().release_storage(st, p, origin, what)
        del st.flags['removing']

    # ---- physical walk
    def walk(self, st, list_oid):
        """checks the links and returns the list of live parts in order"""
        an = self.an
        lb = st.heap[list_oid]
        F = self.F
        def cell(name):
            c = lb.cells.get(F[name][0])
            if c is None or c[0] != F[name][1]:
                if lb.default == 'zero' and (c is None):
                    return ZERO if name == 'count' else NULL
                an.violation(st, 'broken-list', 'list field %s holds no value' % name, ('struct',))
            v = c[1]
            if isinstance(v, Lin) and name != 'count' and st.norm(v) == ZERO:
                v = NULL
            if v == NULL and name == 'count':
                v = ZERO
            return st.nv(v)
        head, tail, count = cell('head'), cell('tail'), cell('count')
        parts = []
        prevp = NULL
        cur = head
        seen = set()
        total = ZERO
        while True:
            if isinstance(cur, Lin) and st.norm(cur) == ZERO:
                cur = NULL
            if cur == NULL:
                break
            if cur == UNDEF or cur[0] != 'P' or cur[3] != ZERO:
                if cur == JUNK:
                    raise Undecided('list link unknown')
                an.violation(st, 'broken-list', 'a link of the list is not a pointer to an item', ('struct',))
            oid = cur[1]
            if oid in seen:
                an.violation(st, 'broken-list', 'the list contains a cycle', ('struct',))
            seen.add(oid)
            o = st.heap.get(oid)
            if o is None or getattr(o, 'status', '') == 'freed':
                an.violation(st, 'dangling-item', 'the list still links an item that was given back', ('struct', 'uaf'))
            if isinstance(o, Seg):
                if cur[2] != 'first':
                    an.violation(st, 'broken-list', 'a link skips items of the list', ('struct', 'edit'))
                if self.dll and not self.same_ptr(st, o.prev, prevp):
                    an.violation(st, 'broken-prev', 'the prev link of an item does not lead to its predecessor', ('struct',))
                parts.append(('seg', oid, o))
                total = total + o.cnt
                prevp = P(oid, ZERO, 'last')
                cur = o.next
            elif isinstance(o, Blk) and oid != list_oid:
                nx = self.blkcell(st, o, self.node.next)
                if self.dll:
                    pv = self.blkcell(st, o, self.node.prev)
                    if not self.same_ptr(st, pv, prevp):
                        an.violation(st, 'broken-prev', 'the prev link of an item does not lead to its predecessor',
                                     ('struct',))
                parts.append(('blk', oid, o))
                total = total + 1
                prevp = P(oid)
                cur = nx
            else:
                an.violation(st, 'broken-list', 'a link of the list leads to something that is no item', ('struct',))
        if not self.same_ptr(st, tail, prevp):
            an.report(st, 'broken-tail', 'the tail of the list is not its last item', ('struct',))
        if not isinstance(count, Lin) or not st.eq(count, total):
            an.report(st, 'wrong-count', 'the item count differs from the number of items', ('struct', 'count'))
        return parts

    def blkcell(self, st, o, off):
        c = o.cells.get(off)
        if c is None:
            v = self.an.load_partial(st, o.cells, o.default, off, 8)
        else:
            v = c[1]
        if isinstance(v, Lin) and st.norm(v) == ZERO:
            return NULL
        return st.nv(v)

    def same_ptr(self, st, a, b):
        a = NULL if isinstance(a, Lin) and st.norm(a) == ZERO else st.nv(a)
        b = NULL if isinstance(b, Lin) and st.norm(b) == ZERO else st.nv(b)
        if a == b:
            return True
        if isP(a) and isP(b) and a[1] == b[1] and {a[2], b[2]} == {'first', 'last'}:
            return st.eq(st.heap[a[1]].cnt, ONE) and st.eq(a[3], b[3])
        return False

    # ---- comparing with the ghost sequence
    def check_order(self, st, parts, new_allowed=0):
        """every element that was not taken out is present once, in order, with
        its data; returns (list of live/removed entries, list of new oids)"""
        an = self.an
        live = [e for e in st.seqs['D'] if e[0] == 'o']
        new = []
        k = 0
        for kind, oid, o in parts:
            if kind == 'blk' and o.ident is None:
                new.append(oid)
                continue
            if k < len(live) and live[k][1] == oid:
                k += 1
                if kind == 'blk':
                    v = self.blkcell(st, o, self.doff)
                    e = st.nv(('E', 'D', 'data', o.ident[1]))
                    if v != e:
                        an.report(st, 'data-changed', 'an element no longer holds its datum', ('edit',))
                continue
            an.violation(st, 'order-changed', 'the elements are not in their original order', ('edit',))
        if k != len(live):
            an.violation(st, 'element-lost', 'an element is no longer linked into the list', ('edit', 'struct', 'leak'))
        if len(new) != new_allowed:
            an.violation(st, 'wrong-insert', 'the number of new items in the list is not %d' % new_allowed, ('edit',))
        return new

    def part_attr(self, st, part):
        kind, oid, o = part
        if kind == 'seg':
            return dict(o.attr)
        return dict(self.elem_attr(st, 'D', o.ident[1]))

    def check_released(self, st, removed_ok, out_idx=None):
        """kept data not released; data of removed elements released once"""
        an = self.an
        for e in st.seqs['D']:
            if e[0] == 'o':
                o = st.heap[e[1]]
                if isinstance(o, Seg):
                    if dict(o.attr)['dst'] != 'held':
                        an.report(st, 'released-kept', 'a datum that stays stored was released', ('release',))
                    if o.mix is not None:
                        self.check_gone(st, dict(o.mix))
                else:
                    v = st.nv(('E', 'D', 'data', o.ident[1]))
                    if st.dst.get(v, 'held') == 'rel' and v in list(leaves(o.parts())):
                        an.report(st, 'released-kept', 'a datum that stays stored was released', ('release',))
            else:
                if not st.eq(e[1], e[2]):
                    if out_idx is not None and st.eq(e[1], out_idx):
                        if dict(e[3])['dst'] == 'rel' and not st.facts.get(('null', st.nv(('E', 'D', 'data', e[1])))):
                            an.report(st, 'released-handed-out', 'a datum that is handed to the caller was released',
                                      ('release', 'edit'))
                    else:
                        self.check_gone(st, dict(e[3]))

    def check_gone(self, st, a):
        if a.get('lost'):
            self.an.report(st, 'element-lost', 'an element was dropped without being released', ('edit', 'release', 'leak'))
            return
        if self.free and a['dst'] != 'rel':
            self.an.report(st, 'not-released', 'the datum of a removed element was not released', ('release',))

    def removed(self, st):
        out = []
        for e in st.seqs['D']:
            if e[0] == 'x' and not st.eq(e[1], e[2]):
                out.append(e)
        return out

    def exact_one_removed(self, st, idx, what):
        rm = self.removed(st)
        if any(isinstance(st.heap.get(e[1]), Seg) and st.heap[e[1]].mix is not None for e in st.seqs['D'] if e[0] == 'o'):
            self.an.violation(st, 'wrong-removal', '%s: more than one element was removed' % what, ('edit',))
        if len(rm) != 1 or not st.eq(rm[0][2] - rm[0][1], ONE) or not st.eq(rm[0][1], idx):
            self.an.violation(st, 'wrong-removal', '%s: not exactly the named element was removed' % what, ('edit',))

    # ---- post conditions
    def finish(self, st, ret):
        an = self.an
        if st.flags.get('oom'):
            an.violation(st, 'failed-allocation-ignored', 'the function returns although memory was refused', ('oom',))
        getattr(self, 'post_' + self.op)(st, ret)
        self.collect(st)

    def lst(self, st):
        return st.ghost['root_list'][1]

    def field_kept(self, st):
        lb = st.heap[self.lst(st)]
        for n, v in (('compare', ('CB', 'compare')), ('free', ('CB', 'free') if self.free else NULL),
                     ('pool', st.ghost.get('root_pool', NULL))):
            c = lb.cells.get(self.F[n][0])
            x = c[1] if c else (NULL if lb.default == 'zero' else UNDEF)
            if isinstance(x, Lin) and st.norm(x) == ZERO:
                x = NULL
            if st.nv(x) != v:
                self.an.report(st, 'configuration-lost', 'the list lost its %s setting' % n, ('struct', 'edit', 'release', 'alloc'))

    def common(self, st, new=0):
        parts = self.walk(st, self.lst(st))
        nw = self.check_order(st, parts, new)
        self.field_kept(st)
        return parts, nw

    def check_new(self, st, oid, ret, data=D):
        o = st.heap[oid]
        if self.blkcell(st, o, self.doff) != data:
            self.an.report(st, 'wrong-datum', 'the new item does not hold the given datum', ('edit', 'sorted'))
        if ret is not None and st.nv(ret) != P(oid):
            self.an.report(st, 'wrong-result', 'the new item is not returned', ('edit', 'sorted'))
        if (st.heap[oid].origin != ('upool' if self.pool else 'malloc')):
            self.an.report(st, 'wrong-allocator', 'the new item does not come from %s' % (
                "the user's pool" if self.pool else 'the heap'), ('alloc',))

    def none_removed(self, st):
        if self.removed(st):
            self.an.violation(st, 'wrong-removal', 'an element was removed', ('edit',))
        self.check_released(st, False)

    def post_append(self, st, ret):
        parts, new = self.common(st, 1)
        if parts[-1][1] != new[0]:
            self.an.violation(st, 'wrong-position', 'the new element is not the last one', ('edit',))
        self.check_new(st, new[0], ret if self.kw.get('ret', True) else None)
        self.none_removed(st)

    def post_prepend(self, st, ret):
        parts, new = self.common(st, 1)
        if parts[0][1] != new[0]:
            self.an.violation(st, 'wrong-position', 'the new element is not the first one', ('edit',))
        self.check_new(st, new[0], ret if self.kw.get('ret', True) else None)
        self.none_removed(st)

    def post_insert_sorted(self, st, ret):
        parts, new = self.common(st, 1)
        self.check_new(st, new[0], ret)
        self.none_removed(st)
        i = [p[1] for p in parts].index(new[0])
        # any element known to be <= datum bounds everything before it
        left = parts[:i]
        right = parts[i + 1:]
        if left and not set(self.part_attr(st, left[-1])['sgn']) <= {-1, 0}:
            self.an.report(st, 'not-sorted', 'the new element may be placed behind a greater one', ('sorted',))
        if right and not set(self.part_attr(st, right[0])['sgn']) <= {0, 1}:
            self.an.report(st, 'not-sorted', 'the new element may be placed before a smaller one', ('sorted',))

    def post_remove(self, st, ret):
        parts, _ = self.common(st)
        self.exact_one_removed(st, st.ghost['idx'], 'remove')
        self.check_released(st, True)

    def post_remove_by_data(self, st, ret):
        parts, _ = self.common(st)
        rm = self.removed(st)
        allv = self.kw['all']
        mixes = [p for p in parts if p[0] == 'seg' and p[2].mix is not None]
        for e in rm:
            if set(dict(e[3])['sgn']) != {0}:
                self.an.report(st, 'wrong-removal', 'an element that does not compare equal was removed', ('edit',))
        for p in mixes:
            if set(dict(p[2].mix)['sgn']) != {0}:
                self.an.report(st, 'wrong-removal', 'an element that does not compare equal was removed', ('edit',))
        if not allv:
            if mixes or len(rm) > 1 or (rm and not st.eq(rm[0][2] - rm[0][1], ONE)):
                self.an.violation(st, 'wrong-removal', 'more than one element was removed', ('edit',))
            for p in parts:
                lo = p[2].lo if p[0] == 'seg' else p[2].ident[1]
                if rm and st.ge(lo - rm[0][2]):
                    break
                if 0 in self.part_attr(st, p)['sgn']:
                    self.an.report(st, 'missed-element', 'an equal element before the removed one was skipped' if rm else
                                   'an element that compares equal may stay in the list', ('edit',))
        else:
            for p in parts:
                if 0 in self.part_attr(st, p)['sgn']:
                    self.an.report(st, 'missed-element', 'an element that compares equal may stay in the list', ('edit',))
        self.check_released(st, True)

    def post_pop(self, st, ret):
        parts, _ = self.common(st)
        if self.kw['shape'] == 'empty':
            if st.nv(ret) != NULL:
                self.an.report(st, 'wrong-result', 'pop of an empty list does not return NULL', ('edit',))
            self.none_removed(st)
            return
        self.exact_one_removed(st, ZERO, 'pop')
        if st.nv(ret) != ('E', 'D', 'data', ZERO):
            self.an.report(st, 'wrong-result', 'pop does not return the first datum', ('edit',))
        self.check_released(st, True, ZERO)

    def post_clear(self, st, ret):
        parts, _ = self.common(st)
        if parts:
            self.an.violation(st, 'not-cleared', 'the list is not empty after clear', ('struct', 'edit'))
        self.check_released(st, True)

    def post_free(self, st, ret):
        for e in st.seqs['D']:
            if e[0] == 'o':
                self.an.violation(st, 'item-kept', 'an item is not given back', ('leak', 'alloc'))
        self.check_released(st, True)
        if self.op == 'destroy':
            o = st.heap.get(self.lst(st))
            if o is not None and o.status != 'freed':
                self.an.report(st, 'leak', 'the list itself is not freed', ('leak', 'alloc'))

    post_destroy = post_free

    def post_find(self, st, ret):
        """ret: item; first match semantics for slist"""
        self.common(st)
        self.none_removed(st)
        lo = st.ghost.get('idx', ZERO) if self.kw.get('offset') else ZERO
        ret = st.nv(ret)
        if ret == NULL:
            bound = None
        elif isP(ret) and ret[3] == ZERO:
            o = st.heap[ret[1]]
            if ret[2]:
                self.L.materialise(st, ret[1], ret[2])
                st.flags['retval'] = self.an_ret(st, ret)
                raise Retry()
            if o.ident is None:
                self.an.violation(st, 'wrong-result', 'the result is no item of the list', ('find',))
            bound = o.ident[1]
            if set(self.sgn(st, ('E', 'D', 'data', bound))) != {0}:
                self.an.report(st, 'wrong-result', 'the found element does not compare equal', ('find',))
            if not st.ge(bound - lo):
                self.an.report(st, 'wrong-result', 'the found element lies before the offset', ('find',))
        else:
            self.an.violation(st, 'wrong-result', 'the result is no item of the list', ('find',))
        self.no_equal(st, lo, bound if not self.dll else (None if bound is None else lo), bound)

    def an_ret(self, st, ret):
        return st.flags['retval']

    def no_equal(self, st, lo, hi, bound):
        """no element of [lo,hi) may compare equal (hi None: to the end)"""
        for e in st.seqs['D']:
            if e[0] != 'o':
                continue
            o = st.heap[e[1]]
            a, b = (o.lo, o.hi) if isinstance(o, Seg) else (o.ident[1], o.ident[1] + 1)
            if st.ge(lo - b):
                continue
            if hi is not None and st.ge(a - hi):
                continue
            s = set(dict(o.attr)['sgn']) if isinstance(o, Seg) else set(self.sgn(st, ('E', 'D', 'data', a)))
            if 0 in s:
                self.an.report(st, 'missed-element', 'an element that may compare equal is not found', ('find',))

    def post_contains(self, st, ret):
        self.common(st)
        self.none_removed(st)
        r = self.an.decide_bool(st, ret)
        if r:
            found = False
            for e in st.seqs['D']:
                if e[0] == 'o':
                    o = st.heap[e[1]]
                    s = set(dict(o.attr)['sgn']) if isinstance(o, Seg) else set(self.sgn(st, ('E', 'D', 'data', o.ident[1])))
                    found = found or s == {0}
            if not found:
                self.an.report(st, 'wrong-result', 'contains is true although no element was found equal', ('find',))
        else:
            self.no_equal(st, ZERO, None, None)

    def post_query(self, st, ret):
        self.common(st)
        self.none_removed(st)
        lb = st.heap[self.lst(st)]
        q = self.kw['q']
        ret = st.nv(ret)
        if q == 'count':
            if not isinstance(ret, Lin) or not st.eq(ret, st.ghost['n']):
                self.an.report(st, 'wrong-result', 'count is not the number of items', ('struct',))
        elif q in ('head', 'tail'):
            want = lb.cells[self.F[q][0]][1]
            if not self.same_ptr(st, ret, want):
                self.an.report(st, 'wrong-result', '%s is not the %s item' % (q, q), ('struct',))
        elif q == 'empty':
            r = self.an.decide_bool(st, ret)
            if r != (self.kw['shape'] == 'empty'):
                self.an.report(st, 'wrong-result', 'emptiness is reported wrongly', ('struct',))
        else:
            o = st.heap[st.ghost['item'][1]]
            if q == 'item_get_data':
                if ret != self.blkcell(st, o, self.doff):
                    self.an.report(st, 'wrong-result', 'the result is not the datum of the item', ('edit',))
            elif not self.same_ptr(st, ret, self.blkcell(st, o, self.node.next if q == 'item_next' else self.node.prev)):
                self.an.report(st, 'wrong-result', 'the result is not the neighbour of the item', ('edit',))

    def post_set_data(self, st, ret):
        parts = self.walk(st, self.lst(st))
        self.none_removed(st)
        for kind, oid, o in parts:
            if oid == st.ghost['item'][1] and self.blkcell(st, o, self.doff) != st.nv(D):
                self.an.report(st, 'wrong-datum', 'the item does not hold the new datum', ('edit',))

    def post_item_free_data(self, st, ret):
        parts = self.walk(st, self.lst(st))
        i = st.ghost['idx']
        for kind, oid, o in parts:
            if oid == st.ghost['item'][1]:
                if self.blkcell(st, o, self.doff) != NULL:
                    self.an.report(st, 'data-kept', 'the item still holds its datum', ('release',))
        e = st.nv(('E', 'D', 'data', i))
        null = st.facts.get(('null', e))
        if self.free and st.dst.get(e) != 'rel' and null is not True:
            self.an.report(st, 'not-released', 'the datum was not released', ('release',))
        if not self.free and st.dst.get(e) == 'rel':
            self.an.report(st, 'released', 'datum released', ('release',))

    def post_new(self, st, ret):
        ret = st.nv(ret) if ret is not None else None
        if self.op == 'new':
            if not isP(ret) or ret[3] != ZERO or st.heap[ret[1]].status != 'live' or st.heap[ret[1]].origin != 'malloc':
                self.an.violation(st, 'wrong-result', 'no new list is returned', ('struct', 'alloc'))
            st.ghost['root_list'] = ret
        parts = self.walk(st, self.lst(st))
        if parts:
            self.an.report(st, 'not-empty', 'a new list is not empty', ('struct',))
        self.field_kept(st)

    post_init = post_new

    # stack/queue
    def post_spop(self, st, ret):
        parts, _ = self.common(st)
        ok = self.an.decide_bool(st, ret)
        out = self.out(st)
        if self.kw['shape'] == 'empty':
            if ok:
                self.an.report(st, 'wrong-result', 'pop of an empty container reports success', ('lifo',))
            if out != NULL:
                self.an.report(st, 'wrong-result', 'pop of an empty container does not store NULL', ('lifo',))
            self.none_removed(st)
            return
        if not ok:
            self.an.report(st, 'wrong-result', 'pop of a non-empty container reports failure', ('lifo',))
        self.exact_one_removed(st, ZERO, 'pop')
        if out != ('E', 'D', 'data', ZERO):
            self.an.report(st, 'wrong-result', 'pop does not store the first datum', ('lifo',))
        self.check_released(st, True, ZERO)

    def post_shead(self, st, ret):
        self.common(st)
        self.none_removed(st)
        ok = self.an.decide_bool(st, ret)
        if ok != (self.kw['shape'] != 'empty'):
            self.an.report(st, 'wrong-result', 'head reports emptiness wrongly', ('lifo',))
        if ok and self.out(st) != ('E', 'D', 'data', ZERO):
            self.an.report(st, 'wrong-result', 'head does not store the first datum', ('lifo',))

    def out(self, st):
        o = st.heap[st.ghost['root_out'][1]]
        c = o.cells.get(0)
        if c is None:
            return UNDEF
        v = c[1]
        if isinstance(v, Lin) and st.norm(v) == ZERO:
            return NULL
        return st.nv(v)

    def leakable(self, st, oid, o):
        return o.origin in ('malloc', 'upool')


# ---------------------------------------------------------------- tasks
def tasks(prog):
    """list of (group, spec, initial states builder)"""
    T = []
    for dll in (True, False):
        pre = 'list_' if dll else 'slist_'
        S = 'C01' if dll else 'C02'
        base = {'ub': [S], 'oob': [S, 'C08'], 'null': [S], 'uaf': [S, 'C08'], 'alloc': ['C08'], 'leak': ['C08'],
                'oom': ['C30'], 'term': [S, 'C30'], 'struct': [S, 'C03'], 'count': [S], 'edit': ['C03'], 'sorted': ['C04'],
                'find': ['C05'], 'release': ['C07'], 'ro': ['C32'], 'lifo': ['C06']}
        for free in (0, 1):
            for pool in (0, 1):
                tag = 'free=%d,pool=%d' % (free, pool)

                def add(fn, op, states, args, extra=(), **kw):
                    T.append(dict(dll=dll, fn=fn, op=op, free=free, pool=pool, states=states, args=args,
                                  extra=list(extra), kw=kw, tag=tag, props=base, group='list' if dll else 'slist'))
                both = dict(empty=None)
                for shp in (True, False):
                    sh = 'empty' if shp else 'nonempty'
                    b = dict(empty=shp)
                    add(pre + 'append', 'append', b, ['L', D], ['C03'], shape=sh, searches=False)
                    add(pre + 'prepend', 'prepend', b, ['L', D], ['C03'], shape=sh, searches=False)
                    add(pre + 'insert_sorted', 'insert_sorted', b, ['L', D], ['C04'], shape=sh)
                    for al in (0, 1):
                        add(pre + 'remove_by_data', 'remove_by_data', b, ['L', D, con(al)], ['C03', 'C07'], shape=sh, all=al)
                    add(pre + 'pop', 'pop', b, ['L'], ['C03', 'C07'], shape='empty' if shp else 'any', searches=False)
                    add(pre + 'clear', 'clear', b, ['L'], ['C07'], shape=sh, searches=False)
                    add(pre + 'free', 'free', b, ['L'], ['C07'], shape=sh, searches=False)
                    add(pre + 'destroy', 'destroy', dict(empty=shp, origin='malloc'), ['L'], ['C07'], shape=sh, searches=False)
                add(pre + 'remove', 'remove', dict(empty=False, item=True), ['L', 'I'], ['C03', 'C07'], searches=False)
                add(pre + 'item_free_data', 'item_free_data', dict(empty=False, item=True), ['L', 'I'], ['C07'], searches=False)
                add(pre + 'new', 'new', None, [('CB', 'compare'), ('CB', 'free') if free else NULL, 'POOL'], [], searches=False)
                add(pre + 'init', 'init', None, ['RAW', ('CB', 'compare'), ('CB', 'free') if free else NULL, 'POOL'], [],
                    searches=False)
                if not dll:
                    # stack and queue
                    for nm, fnop in (('vm_stack_push', 'prepend'), ('vm_queue_push', 'append')):
                        for shp in (True, False):
                            add(nm, fnop, dict(empty=shp), ['L', D], ['C06'], shape='empty' if shp else 'any', ret=False,
                                searches=False)
                    for shp in (True, False):
                        sh = 'empty' if shp else 'any'
                        for nm in ('stack_pop', 'vm_queue_pop'):
                            add(nm, 'spop', dict(empty=shp), ['L', 'OUT'], ['C06', 'C07'], shape=sh, searches=False)
                        for nm in ('vm_stack_clear', 'vm_queue_clear'):
                            add(nm, 'clear', dict(empty=shp), ['L'], ['C06', 'C07'], shape=sh, searches=False)
                        for nm in ('vm_stack_free', 'vm_queue_free'):
                            add(nm, 'free', dict(empty=shp), ['L'], ['C06', 'C07'], shape=sh, searches=False)
                        for nm in ('vm_stack_destroy', 'vm_queue_destroy'):
                            add(nm, 'destroy', dict(empty=shp, origin='malloc'), ['L'], ['C06', 'C07'], shape=sh,
                                searches=False)
                    for nm in ('vm_stack_new', 'vm_queue_new'):
                        add(nm, 'new', None, [('CB', 'compare'), ('CB', 'free') if free else NULL, 'POOL'], ['C06'],
                            searches=False)
                    for nm in ('vm_stack_init', 'vm_queue_init'):
                        add(nm, 'init', None, ['RAW', ('CB', 'compare'), ('CB', 'free') if free else NULL, 'POOL'], ['C06'],
                            searches=False)
                if free == 0 and pool == 0:
                    for q in ('item_next', 'item_prev', 'item_get_data'):
                        if dll or q != 'item_prev':
                            add('vm_' + pre + q, 'query', dict(empty=False, item=True, ro=True), ['I'], ['C03', 'C32'], q=q,
                                searches=False)
                    add('vm_' + pre + 'item_set_data', 'set_data', dict(empty=False, item=True), ['I', D], ['C03'], searches=False)
                    for shp in (True, False):
                        sh = 'empty' if shp else 'any'
                        b = dict(empty=shp, ro=True)
                        for q in ('count', 'head', 'tail', 'empty'):
                            if not dll and q == 'tail':
                                continue
                            add(pre + q, 'query', b, ['L'], ['C32'], shape=sh, q=q, searches=False)
                        add(pre + 'find', 'find', b, ['L', NULL, D], ['C05', 'C32'], shape=sh)
                        add(pre + 'contains', 'contains', b, ['L', D], ['C05', 'C32'], shape=sh)
                        if not dll:
                            for nm in ('stack_head', 'vm_queue_head'):
                                add(nm, 'shead', b, ['L', 'OUT'], ['C06', 'C32'], shape=sh, searches=False)
                            for nm in ('vm_stack_count', 'vm_queue_count'):
                                add(nm, 'query', b, ['L'], ['C06', 'C32'], shape=sh, q='count', searches=False)
                    add(pre + 'find', 'find', dict(empty=False, item=True, ro=True), ['L', 'I', D], ['C05', 'C32'], offset=True)
    out = []
    for t in T:
        out.append(make_task(prog, t))
    return out


def make_task(prog, t):
    import hashlib
    name = '%s[%s,%s]' % (t['fn'], t['tag'], ','.join('%s=%s' % x for x in sorted(t['kw'].items()) if x[0] not in ('searches',)))

    def start():
        fn = prog.fn(t['fn'])
        spec = ListSpec(prog, t['dll'], t['fn'], name, t['op'], t['free'], t['pool'], **t['kw'])
        states = []
        if t['states'] is None:
            sts = spec.base_state(empty=True)
        else:
            sts = spec.base_state(**t['states'])
        for st, lp, item, shape in sts:
            args = []
            for a in t['args']:
                if a == 'L':
                    args.append(lp)
                elif a == 'I':
                    args.append(P(item))
                elif a == 'POOL':
                    args.append(st.ghost.get('root_pool', NULL))
                elif a == 'RAW':
                    o = st.heap[lp[1]]
                    st.heap[lp[1]] = o.copy(cells={}, default='uninit')
                    args.append(lp)
                elif a == 'OUT':
                    ob = Blk('out', con(8), {}, 'uninit', 'user', 'live', None, False, 'destination')
                    p = P(st.alloc_oid(ob))
                    st.ghost['root_out'] = p
                    args.append(p)
                else:
                    args.append(a)
            if t['op'] == 'new':
                del st.ghost['root_list']
                del st.heap[lp[1]]
            fr = Frame(fn, {p['id']: a for p, a in zip(fn.params, args)})
            if len(args) != len(fn.params):
                raise MissingAPI('signature of %s' % t['fn'])
            st.frames = [fr]
            states.append(st)
        return spec, states
    return dict(name=name, group=t['group'], props=t['props'], extra=t['extra'], start=start, fn=t['fn'])
