"""assocarray.c"""
import ir
from absint import *
from interp import Analyzer, Retry
from arrays import SeqArrays
from mapbase import MapSpec, D, V
from base import BIG
from num import Lin, con, sym, newsym, ZERO, ONE

NEW, REPLACED = 0, 1
MAXSIZE = (1 << 60) - 1
V2 = ('O', 'value')


class AssocSpec(MapSpec):
    key_ghosts = ('found',)
    key_signs = True

    CONTAINER = ('root', 'AssocArray', ('compare_keys', 'keys', 'values', 'free_key', 'free_value', 'size', 'count', 'pair'),
                 ('assoc_array_free', 'assoc_array_destroy'))

    def __init__(self, prog, entry, case, op, cfg):
        super().__init__(prog)
        self.entry, self.case, self.op, self.cfg = entry, case, op, cfg
        self.F = prog.fields('AssocArray')
        self.PF = prog.fields('_AssocArrayPair')
        self.A = SeqArrays(self)
        self.plugins = [self, self.A]

    def fold(self, st):
        self.absorb_nulls(st)

    # ---- pre-state
    def base_state(self):
        st = State()
        if ir.ASSERTS:          # keys are asserted to be non-null
            st.facts[('null', D)] = False
        n, s = newsym('n'), newsym('cap')
        st.ghost['n'], st.ghost['cap'] = n, s
        st.ghost['p'], st.ghost['q'] = con(-1), n
        st.ghost['found'] = ZERO
        st.assume_ge(s - 1)
        st.assume_ge(con(MAXSIZE) - s)
        st.assume_ge(n)
        st.assume_ge(s - n)
        shape = self.cfg.get('shape', 'any')
        if shape == 'empty':
            st.assume_eq(n)
        elif shape == 'full':
            st.assume_eq(s - n)
        elif shape == 'part':
            st.assume_ge(n - 1)
            st.assume_ge(s - n - 1)
        ro = self.cfg.get('ro', 0)
        def arr(f):
            runs = []
            if shape != 'empty':
                runs.append((ZERO, n, ('sq', 'A', f, ZERO)))
            if shape != 'full':
                runs.append((n, s, ('uninit',)))
            return st.alloc_oid(Arr(8, s.scale(8), runs, 'malloc', 'live', bool(ro), {'key': 'keys', 'val': 'values'}[f]))
        ka, va = arr('key'), arr('val')
        F = self.F
        ao = st.next_oid
        fk = ('CB', 'free_key') if self.cfg.get('fk') else NULL
        fv = ('CB', 'free_value') if self.cfg.get('fv') else NULL
        cells = {F['compare_keys'][0]: (8, ('CB', 'compare')), F['keys'][0]: (8, P(ka)), F['values'][0]: (8, P(va)),
                 F['free_key'][0]: (8, fk), F['free_value'][0]: (8, fv), F['size'][0]: (8, s), F['count'][0]: (8, n)}
        po = newsym('pairoff')
        cells[F['pair'][0] + self.PF['array'][0]] = (8, P(ao))
        cells[F['pair'][0] + self.PF['offset'][0]] = (8, JUNK)
        a = Blk('array', con(self.prog.size('AssocArray')), cells, 'junk', 'malloc' if self.op == 'destroy' else 'user', 'live',
                None, bool(ro), 'array')
        oid = st.alloc_oid(a)
        assert oid == ao
        st.ghost['root'] = P(oid)
        if self.op in ('pair_get_key', 'pair_get_value', 'pair_set_value', 'iter_get_key', 'iter_get_value', 'iter_next'):
            i = newsym('i')
            st.ghost['idx'] = i
            if self.op == 'iter_next':
                st.assume_ge(i + 1)
                st.assume_ge(n - 1 - i)
            else:
                st.assume_ge(i)
                st.assume_ge(n - 1 - i)
            it = Blk('pair', con(self.prog.size('_AssocArrayPair')), {self.PF['array'][0]: (8, P(oid)), self.PF['offset'][0]: (8, i)},
                     'junk', 'user', 'live', None, self.op != 'iter_next', 'pair')
            st.ghost['root_it'] = P(st.alloc_oid(it))
        if self.op == 'iter_init':
            st.ghost['root_it'] = P(st.alloc_oid(Blk('iter', con(self.prog.size('_AssocArrayPair')), {}, 'uninit', 'user', 'live',
                                                     None, False, 'iterator')))
        return st

    def ro_write(self, st, oid, obj, off):
        if isinstance(obj, Blk) and obj.kind == 'array' and self.op == 'lookup':
            lo = self.F['pair'][0]
            if off.is_const() and lo <= off.k < lo + self.F['pair'][1]:
                return
        super().ro_write(st, oid, obj, off)

    def head_facts(self, st):
        g = st.ghost
        st.assume_ge(g['p'] + 1)
        st.assume_ge(g['n'] - g['q'])
        st.assume_ge(g['q'] - g['p'] - 1)
        st.assume_ge(g['n'])
        st.assume_ge(g['cap'] - g['n'])
        st.assume_ge(con(MAXSIZE) - g['cap'])

    # ---- callbacks
    def callback(self, st, role, args, ins):
        if role == 'compare':
            a, b = self.user(st, args[0], 'compare'), self.user(st, args[1], 'compare')
            for x in (a, b):
                if x[0] == 'E':
                    if x[2] != 'key':
                        self.an.violation(st, 'bad-callback-argument', 'a value is given to the compare function', ('find', 'ub'))
                    if self.is_released(st, 'key', x[3]):
                        self.an.violation(st, 'use-after-release', 'a key is compared after it was released', ('release', 'ub'))
                elif x != D:
                    self.an.violation(st, 'bad-callback-argument', 'a value is given to the compare function', ('find', 'ub'))
                else:
                    self.caller_key(st)
            return self.order(st, a, b)
        if role == 'free_key':
            return self.release(st, 'key', args[0])
        if role == 'free_value':
            return self.release(st, 'val', args[0])
        raise Undecided('callback %s' % role)

    def result(self, st, sign):
        if sign == 0:
            return ZERO
        r = newsym('cmp')
        st.assume_ge(r - 1)
        st.assume_ge(con((1 << 31) - (1 if sign > 0 else 0)) - r)
        return r if sign > 0 else -r

    def order(self, st, a, b):
        if a == b:
            return ZERO
        if a[0] == 'E' and b[0] == 'E':
            if st.decide_eq(a[3] - b[3]):
                return ZERO
            return self.result(st, 1 if st.decide_ge(a[3] - b[3] - 1) else -1)
        if a[0] == 'E':
            return self.result(st, -self.side(st, b[0] and a[3]))
        return self.result(st, self.side(st, b[3]))

    def side(self, st, i):
        """sign of compare(D, key i)"""
        p, q = st.ghost['p'], st.ghost['q']
        found = st.norm(st.ghost['found']) == ONE
        if found:
            e = st.norm(p + 1)
            if st.decide_eq(i - e):
                return 0
            return -1 if st.decide_ge(i - e - 1) else 1
        if st.decide_ge(p - i):
            return 1
        if st.decide_ge(i - q):
            return -1
        def f(dp, dq, fnd):
            def g(s):
                if dp is not None:
                    s.ghost['p'] = s.norm(i + dp)
                if dq is not None:
                    s.ghost['q'] = s.norm(i + dq)
                if fnd:
                    s.ghost['found'] = ONE
                return True
            return g
        raise Split([f(0, None, 0), f(None, 0, 0), f(-1, 1, 1)])

    def allowed_abort(self, st):
        return st.eq(st.ghost['n'], con(MAXSIZE)) and self.op == 'set'

    # ---- post
    def finish(self, st, ret):
        if st.flags.get('oom'):
            self.an.violation(st, 'failed-allocation-ignored', 'the function returns although memory was refused', ('oom',))
        self.absorb_nulls(st)
        if self.cfg.get('again'):
            if not st.eq(st.u(self.an.num_of(st, ret)), ONE):
                self.an.report(st, 'wrong-result', 'an entry that was removed is still in use', ('find', 'map'))
            return
        getattr(self, 'post_' + self.op)(st, ret)
        self.collect(st)

    def parts(self, st):
        an = self.an
        o = st.heap[st.ghost['root'][1]]
        F = self.F
        n = self.num(st, self.cell(st, o, F['count']), 'entry count')
        s = self.num(st, self.cell(st, o, F['size']), 'capacity')
        n, s = st.u(n), st.u(s)
        out = []
        for f in ('keys', 'values'):
            p = self.cell(st, o, F[f])
            if not isPl(p) or st.heap[p[1]].status != 'live' or p[3] != ZERO:
                an.violation(st, 'broken-container', 'the %s storage is no live allocation' % f, ('struct', 'cap', 'ub'))
            a = st.heap[p[1]]
            if isinstance(a, Blk):
                a = an.to_array(st, p[1], 8)
            if not st.ge(a.size - s.scale(8)):
                an.report(st, 'capacity-mismatch', 'the %s storage is smaller than the recorded capacity' % f, ('cap', 'struct'))
            if a.origin != 'malloc':
                an.report(st, 'broken-container', 'the %s storage is no heap allocation' % f, ('struct', 'cap'))
            if a.stride != 8:
                a = an.restride(st, p[1], a, 8)
            out.append(a)
        if self.cell(st, o, F['keys']) == self.cell(st, o, F['values']):
            an.violation(st, 'broken-container', 'keys and values share their storage', ('struct', 'cap'))
        if not (st.ge(n) and st.ge(s - n)) or not st.ge(s - 1):
            an.violation(st, 'count-exceeds-capacity', 'the entry count may exceed the capacity', ('cap', 'struct'))
        for f, cb in (('compare_keys', ('CB', 'compare')), ('free_key', ('CB', 'free_key') if self.cfg.get('fk') else NULL),
                      ('free_value', ('CB', 'free_value') if self.cfg.get('fv') else NULL)):
            v = self.cell(st, o, F[f])
            if v == ZERO:
                v = NULL
            if v != cb:
                an.report(st, 'configuration-lost', 'the array lost its %s setting' % f, ('struct', 'release'))
        v = self.cell(st, o, (F['pair'][0] + self.PF['array'][0], 8))
        if v != st.ghost['root']:
            an.report(st, 'configuration-lost', 'the pair object no longer refers to the array', ('struct',))
        return n, s, out[0], out[1]

    def content(self, st, n, arr, field, expect, tags):
        """expect: list of tokens"""
        an = self.an
        got = self.A.tokens(st, arr, ZERO, n)
        want = []
        for t in expect:
            if t[0] == 'sq':
                if st.decide_eq(t[4] - t[3]):
                    continue
                if want and want[-1][0] == 'sq' and st.eq(want[-1][4], t[3]):
                    want[-1] = want[-1][:4] + (t[4],)
                    continue
            want.append(t)
        ok = len(got) == len(want)
        if ok:
            for g, w in zip(got, want):
                if g[0] != w[0]:
                    ok = False
                elif g[0] == 'sq':
                    ok = ok and g[1:3] == w[1:3] and st.eq(g[3], w[3]) and st.eq(g[4], w[4])
                else:
                    ok = ok and g[1] == w[1]
        if not ok:
            an.violation(st, 'wrong-content', 'the stored %s are not what the operation has to leave' % {
                'key': 'keys', 'val': 'values'}[field], tags)

    def sq(self, f, a, b):
        return ('sq', 'A', f, a, b)

    def unchanged(self, st, tags=('map',)):
        n, s, ka, va = self.parts(st)
        if not st.eq(n, st.ghost['n']):
            self.an.violation(st, 'wrong-count', 'the entry count changed', tags)
        for f, a in (('key', ka), ('val', va)):
            self.content(st, n, a, f, [self.sq(f, ZERO, n)], tags)
        self.nothing_released(st)

    def nothing_released(self, st, but=None, fields=('key', 'val')):
        for f in fields:
            for a, b in self.rel(st, f):
                if but is not None and f in but and st.eq(a, but[f]) and st.eq(b, but[f] + 1):
                    continue
                if f == 'val' and st.eq(b, a + 1) and st.facts.get(('null', st.nv(('E', 'A', 'val', a)))) is True:
                    continue
                self.an.report(st, 'released-kept', 'a %s that stays stored is released' % {'key': 'key', 'val': 'value'}[f],
                               ('release', 'replace'))

    def fully_searched(self, st):
        if st.norm(st.ghost['found']) == ONE:
            self.an.violation(st, 'missed-key', 'the key is present but treated as absent', ('find',))
        if not st.eq(st.ghost['q'], st.ghost['p'] + 1):
            self.an.violation(st, 'missed-key', 'the search ends although keys that may be equal were not compared', ('find',))

    def was_found(self, st):
        if st.norm(st.ghost['found']) != ONE:
            self.an.violation(st, 'wrong-key', 'the operation works on an entry whose key does not compare equal', ('find',))
        return st.norm(st.ghost['p'] + 1)

    def post_set(self, st, ret):
        an = self.an
        n0 = st.ghost['n']
        n, s, ka, va = self.parts(st)
        found = st.norm(st.ghost['found']) == ONE
        ret = st.norm(an.num_of(st, ret))
        if not found:
            self.fully_searched(st)
            x = st.norm(st.ghost['q'])
            if not st.eq(ret, con(NEW)):
                an.report(st, 'wrong-result', 'insertion of a new key is not reported as NEW', ('map', 'replace'))
            if not st.eq(n, n0 + 1):
                an.violation(st, 'wrong-count', 'the entry count does not increase by one', ('map', 'replace', 'struct'))
            self.content(st, n, ka, 'key', [self.sq('key', ZERO, x), ('v', D), self.sq('key', x, n0)], ('map', 'replace'))
            self.content(st, n, va, 'val', [self.sq('val', ZERO, x), ('v', V), self.sq('val', x, n0)], ('map', 'replace'))
            self.nothing_released(st)
            return
        e = self.was_found(st)
        if not st.eq(ret, con(REPLACED)):
            an.report(st, 'wrong-result', 'replacement is not reported as REPLACED', ('map', 'replace'))
        if not st.eq(n, n0):
            an.violation(st, 'wrong-count', 'the entry count changes on replacement', ('map', 'replace', 'struct'))
        ow = self.cfg['ow']
        kexp = [self.sq('key', ZERO, e), ('v', D), self.sq('key', e + 1, n0)] if ow else [self.sq('key', ZERO, n0)]
        self.content(st, n, ka, 'key', kexp, ('map', 'replace'))
        self.content(st, n, va, 'val', [self.sq('val', ZERO, e), ('v', V), self.sq('val', e + 1, n0)], ('map', 'replace'))
        but = {}
        if self.cfg['fv']:
            but['val'] = e
            if not self.all_released(st, 'val', e, e + 1):
                an.report(st, 'not-released', 'the old value is not released on replacement', ('release', 'replace'))
        if ow and self.cfg['fk']:
            but['key'] = e
            if not self.all_released(st, 'key', e, e + 1):
                an.report(st, 'not-released', 'the old key is not released although it is overwritten', ('release', 'replace'))
        self.nothing_released(st, but)

    def post_remove(self, st, ret):
        an = self.an
        n0 = st.ghost['n']
        if st.norm(st.ghost['found']) != ONE:
            self.fully_searched(st)
            self.unchanged(st)
            return
        n, s, ka, va = self.parts(st)
        e = self.was_found(st)
        if not st.eq(n, n0 - 1):
            an.violation(st, 'wrong-count', 'the entry count does not decrease by one', ('map', 'struct'))
        for f, a in (('key', ka), ('val', va)):
            self.content(st, n, a, f, [self.sq(f, ZERO, e), self.sq(f, e + 1, n0)], ('map',))
        but = {}
        if self.cfg['fk']:
            but['key'] = e
            if not self.all_released(st, 'key', e, e + 1):
                an.report(st, 'not-released', 'the removed key is not released', ('release',))
        if self.cfg['fv']:
            but['val'] = e
            if not self.all_released(st, 'val', e, e + 1):
                an.report(st, 'not-released', 'the removed value is not released', ('release',))
        self.nothing_released(st, but)

    def all_gone(self, st):
        n0 = st.ghost['n']
        for f, c in (('key', 'fk'), ('val', 'fv')):
            if self.cfg[c] and not self.all_released(st, f, ZERO, n0):
                self.an.report(st, 'not-released', 'not every %s is released' % {'key': 'key', 'val': 'value'}[f], ('release',))
            if not self.cfg[c]:
                self.nothing_released(st, fields=(f,))

    def post_clear(self, st, ret):
        n, s, ka, va = self.parts(st)
        if not st.eq(n, ZERO):
            self.an.violation(st, 'not-cleared', 'the array is not empty after clear', ('map', 'release', 'struct'))
        self.all_gone(st)

    def post_free(self, st, ret):
        self.all_gone(st)
        for oid, o in st.heap.items():
            if o.origin == 'malloc' and o.status == 'live':
                self.an.report(st, 'leak', '%s is not freed' % self.an.describe(o), ('leak',))

    post_destroy = post_free

    def post_new(self, st, ret):
        if self.op == 'new':
            ret = st.nv(ret)
            if not isPl(ret) or st.heap[ret[1]].origin != 'malloc' or ret[3] != ZERO:
                self.an.violation(st, 'wrong-result', 'no new array is returned', ('struct',))
            st.ghost['root'] = ret
        n, s, ka, va = self.parts(st)
        if not st.eq(n, ZERO):
            self.an.violation(st, 'not-empty', 'a new array is not empty', ('struct', 'map'))

    post_init = post_new

    def post_lookup(self, st, ret):
        ret = st.nv(ret)
        self.unchanged(st, ('map', 'ro'))
        if ret == NULL:
            self.fully_searched(st)
            return
        e = self.was_found(st)
        o = st.heap.get(ret[1]) if isPl(ret) else None
        if o is None or not isinstance(o, Blk):
            self.an.violation(st, 'wrong-result', 'lookup returns no pair', ('find',))
        b = st.norm(ret[3])
        arr = self.cell(st, o, (b.k + self.PF['array'][0], 8)) if b.is_const() else None
        off = self.cell(st, o, (b.k + self.PF['offset'][0], 8)) if b.is_const() else None
        if arr != st.ghost['root'] or not isinstance(off, Lin) or not st.eq(off, e):
            self.an.violation(st, 'wrong-result', 'the pair found by lookup is not the entry of the key', ('find',))

    def post_key_exists(self, st, ret):
        self.unchanged(st, ('map', 'ro'))
        if self.an.decide_bool(st, self.an.num_of(st, ret)):
            self.was_found(st)
        else:
            self.fully_searched(st)

    def post_count(self, st, ret):
        self.unchanged(st, ('map', 'ro'))
        if not st.eq(self.an.num_of(st, ret), st.ghost['n']):
            self.an.report(st, 'wrong-result', 'count is not the number of entries', ('map',))

    def post_size(self, st, ret):
        self.unchanged(st, ('map', 'ro'))
        if not st.eq(self.an.num_of(st, ret), st.ghost['cap']):
            self.an.report(st, 'wrong-result', 'size is not the capacity', ('cap',))

    def elem(self, st, ret, f):
        self.unchanged(st, ('map', 'ro'))
        if st.nv(ret) != st.nv(('E', 'A', f, st.ghost['idx'])):
            self.an.report(st, 'wrong-result', 'the %s of another entry is returned' % {'key': 'key', 'val': 'value'}[f], ('find', 'map'))

    def post_pair_get_key(self, st, ret):
        self.elem(st, ret, 'key')

    def post_pair_get_value(self, st, ret):
        self.elem(st, ret, 'val')

    post_iter_get_key = post_pair_get_key
    post_iter_get_value = post_pair_get_value

    def post_pair_set_value(self, st, ret):
        n, s, ka, va = self.parts(st)
        i = st.norm(st.ghost['idx'])
        n0 = st.ghost['n']
        if not st.eq(n, n0):
            self.an.violation(st, 'wrong-count', 'the entry count changed', ('map',))
        self.content(st, n, ka, 'key', [self.sq('key', ZERO, n0)], ('map',))
        self.content(st, n, va, 'val', [self.sq('val', ZERO, i), ('v', V), self.sq('val', i + 1, n0)], ('map',))
        but = {}
        if self.cfg['fv']:
            but['val'] = i
            if not self.all_released(st, 'val', i, i + 1):
                self.an.report(st, 'not-released', 'the old value is not released', ('release',))
        self.nothing_released(st, but)

    def itcells(self, st):
        o = st.heap[st.ghost['root_it'][1]]
        return self.cell(st, o, self.PF['array']), self.cell(st, o, self.PF['offset'])

    def post_iter_init(self, st, ret):
        self.unchanged(st, ('map', 'ro'))
        a, o = self.itcells(st)
        if a != st.ghost['root'] or not isinstance(o, Lin) or not st.eq(st.s(o), con(-1)):
            self.an.report(st, 'wrong-iterator', 'a new iterator does not stand before the first entry', ('map',))

    def post_iter_next(self, st, ret):
        self.unchanged(st, ('map', 'ro'))
        a, o = self.itcells(st)
        i = st.ghost['idx']
        if a != st.ghost['root'] or not isinstance(o, Lin) or not st.eq(st.s(o), i + 1):
            self.an.report(st, 'wrong-iterator', 'the iterator does not advance to the next entry', ('map',))
        r = self.an.decide_bool(st, self.an.num_of(st, ret))
        if r != st.decide_ge(st.ghost['n'] - i - 2):
            self.an.report(st, 'wrong-iterator', 'the iterator reports the end of the array wrongly', ('map',))


def isPl(v):
    return isinstance(v, tuple) and v and v[0] == 'P' and not v[2]


PROPS = {'ub': ['C17'], 'oob': ['C18'], 'null': ['C17'], 'uaf': ['C17', 'C18'], 'alloc': ['C19'], 'leak': ['C19'], 'oom': ['C30'],
         'term': ['C17', 'C18', 'C30'], 'struct': ['C17'], 'cap': ['C18'], 'map': ['C17'], 'find': ['C17'], 'replace': ['C20'],
         'release': ['C19'], 'ro': ['C32']}


def tasks(prog):
    out = []

    def add(op, args, extra=(), entry=None, **cfg):
        entry = entry or 'assoc_array_' + op
        name = '%s[%s]' % (entry, ','.join('%s=%s' % x for x in sorted(cfg.items())))

        def start():
            fn = prog.fn(entry)
            spec = AssocSpec(prog, entry, name, op, cfg)
            st = spec.base_state()
            fk = ('CB', 'free_key') if cfg.get('fk') else NULL
            fv = ('CB', 'free_value') if cfg.get('fv') else NULL
            av = []
            for a in args:
                if a == 'A':
                    av.append(st.ghost['root'])
                elif a == 'IT':
                    av.append(st.ghost['root_it'])
                elif a == 'CMP':
                    av.append(('CB', 'compare'))
                elif a == 'FK':
                    av.append(fk)
                elif a == 'FV':
                    av.append(fv)
                elif a == 'OW':
                    av.append(con(cfg['ow']))
                elif a == 'RAW':
                    r = st.ghost['root']
                    o = st.heap[r[1]]
                    for k in list(st.heap):
                        if isinstance(st.heap[k], Arr):
                            del st.heap[k]
                    st.heap[r[1]] = o.copy(cells={}, default='uninit')
                    av.append(r)
                else:
                    av.append(a)
            if op == 'new':
                st.heap.clear()
                del st.ghost['root']
            if len(av) != len(fn.params):
                raise MissingAPI('signature of %s' % entry)
            st.frames = [Frame(fn, {p['id']: a for p, a in zip(fn.params, av)})]
            return spec, [st]
        out.append(dict(name=name, group='assocarray', props=PROPS, extra=list(extra), start=start, fn=entry))

    for fk in (0, 1):
        for fv in (0, 1):
            for shape in ('empty', 'part', 'full'):
                for ow in (0, 1):
                    add('set', ['A', D, V, 'OW'], ['C20', 'C18'], fk=fk, fv=fv, ow=ow, shape=shape)
                add('remove', ['A', D], ['C18'], fk=fk, fv=fv, shape=shape)
                for op in ('clear', 'free', 'destroy'):
                    add(op, ['A'], ['C19'], fk=fk, fv=fv, shape=shape)
            add('new', ['CMP', 'FK', 'FV'], [], fk=fk, fv=fv, shape='empty')
            add('init', ['RAW', 'CMP', 'FK', 'FV'], [], fk=fk, fv=fv, shape='empty')
            for shape in ('part', 'full'):
                add('pair_set_value', ['IT', V], ['C19'], fk=fk, fv=fv, shape=shape)
    for shape in ('empty', 'part', 'full'):
        add('lookup', ['A', D], ['C32', 'C18'], shape=shape, ro=1)
        add('key_exists', ['A', D], ['C32', 'C18'], shape=shape, ro=1)
        add('count', ['A'], ['C32'], shape=shape, ro=1)
        add('size', ['A'], ['C32'], shape=shape, ro=1)
        add('iter_init', ['A', 'IT'], ['C32'], shape=shape, ro=1)
        add('iter_next', ['IT'], ['C32'], shape=shape, ro=1)
        if shape != 'empty':
            for op in ('pair_get_key', 'pair_get_value', 'iter_get_key', 'iter_get_value'):
                add(op, ['IT'], ['C32', 'C18'], shape=shape, ro=1)
                add(op, ['IT'], ['C32', 'C18'], shape=shape, ro=1, entry='vm_assoc_array_' + op.replace('get_', ''))
            for op in ('set', 'lookup', 'key_exists'):
                add(op, ['A', D, V] if op == 'set' else ['A', D], [], entry='vm_assoc_array_again_' + op, shape=shape, again=1)
    return out
