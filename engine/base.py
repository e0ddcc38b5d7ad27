"""Common environment model: memory allocation, diagnostics, termination,
leak accounting and the hooks a specification can override."""
from absint import *
from interp import Analyzer, Retry, NORETURN, DIAG
from num import Lin, con, sym, newsym, ZERO, ONE

BIG = 1 << 58
MAXALLOC = (1 << 63) - 1


class Spec:
    key_signs = False
    key_ghosts = ()
    soft_ghosts = ()
    frozen_consts = ()
    wide_pointers = False      # positions inside arrays are joined like integers
    join_on_return = False     # paths through a cycle of calls meet where it returns
    entry = ''
    case = ''

    def __init__(self, prog):
        self.prog = prog
        self.plugins = []
        self.an = None

    # ---- hooks with defaults
    def key_cells(self, o):
        """small integers in this object keep states apart"""
        return True

    def global_object(self, st, name, d):
        return None

    def dynamic_alloca(self, st, size, ins):
        pass

    def monomial(self, st, a, b):
        k = ('mul',) + tuple(sorted((a, b)))
        r = st.terms.get(k)
        if r is None:
            r = newsym('m')
            st.terms[k] = r
            if st.ge(sym(a)) and st.ge(sym(b)):
                st.assume_ge(r)
        return r

    def new_rem(self, st, a, b, r):
        pass

    def opaque_add(self, st, b, off):
        raise Undecided('arithmetic on a user pointer')

    def opaque_access(self, st, ptr, size, write):
        self.an.violation(st, 'user-data-access', 'access through a user data pointer', ('ub',))

    def opaque_eq(self, st, a, b):
        k = ('same',) + tuple(sorted((a, b), key=repr))
        r = st.facts.get(k)
        if r is None:
            raise Split([lambda s: s.setfact(k, True), lambda s: s.setfact(k, False)])
        return r

    def ptr_rel(self, st, a, b, pred):
        raise Undecided('ordering of pointers to different objects')

    def dangling_compare(self, st, a, b):
        pass

    def ro_write(self, st, oid, obj, off):
        self.an.report(st, 'query-modifies', 'a query writes to %s' % self.an.describe(obj), ('ro',))

    def on_load(self, st, oid, obj, off, size):
        pass

    def on_store(self, st, oid, obj, off, size, v):
        pass

    def on_blockwrite(self, st, oid, obj, off, n):
        pass

    def on_cycle_return(self, st, fr):
        pass

    def finished(self, an):
        pass

    def recursive_call(self, st, fr, ins, fn, args):
        return None

    def on_return(self, st, fr, v):
        return None

    def hints(self, st):
        return ()

    def head_facts(self, st):
        """facts about ghost variables that hold in every state of the case by
        construction; added again after a join lost them"""

    def keep_term(self, st, k, v, seen, r):
        return None

    def elem_attr(self, st, seq, idx):
        return ()

    def apply_attr(self, st, seq, idx, attr):
        pass

    def attr_joinable(self, a, b):
        return False

    def attr_join(self, a, b):
        return a

    def finish(self, st, ret):
        pass

    def callback(self, st, role, args, ins):
        raise Undecided('callback %s' % role)

    # ---- choices inside one instruction
    def choose(self, st, name, n=2):
        k = ('ch', name)
        if k in st.flags:
            return st.flags[k]
        def mk(i):
            def f(s):
                s.flags[k] = i
                return True
            return f
        raise Split([mk(i) for i in range(n)])

    def clear_choices(self, st):
        for k in [k for k in st.flags if isinstance(k, tuple) and k[0] == 'ch']:
            del st.flags[k]

    # ---- externals
    def extern(self, name):
        if name in self.prog.fns:
            return None
        m = getattr(self, 'x_' + name, None)
        if m:
            return m
        if name in NORETURN:
            return lambda st, args, ins: self.terminate(st, name)
        if name in DIAG:
            def diag(st, args, ins):
                st.flags['diag'] = True
                return JUNK
            return diag
        return None

    def terminate(self, st, name):
        if name in DIAG:
            st.flags['diag'] = True
        self.an.stats['aborts'] += 1
        if name == '__assert_fail':
            if self.unclear(st):
                self.an.undecide(st, 'an assertion about a value the analysis does not know exactly')
                return 'noreturn'
            self.an.report(st, 'assertion-fails', 'an assertion of the library fails in a correct program', ('assert',))
            return 'noreturn'
        why = st.flags.get('oom') or st.flags.get('syserr') or self.allowed_abort(st)
        if not why:
            self.an.report(st, 'unexpected-termination', 'the program is terminated although nothing failed', ('term',))
        elif not st.flags.get('diag'):
            self.an.report(st, 'silent-termination', 'the program is terminated without a diagnostic', ('oom',))
        return 'noreturn'

    def unclear(self, st):
        """the condition which led to the current block compares with the result of a
        multiplication, division, bit operation, or with something lost"""
        fr = st.frames[-1]
        if fr.prev is None or fr.prev >= len(fr.fn.blocks):
            return True
        vague = {s for k, v in st.terms.items() if isinstance(v, Lin) and
                 (k[0] in ('mul', 'udiv', 'urem') or len(k) == 3 and k[0] not in ('byte', 'tab'))
                 for s, _ in st.norm(v).t}
        defs = {i.get('id'): i for b in fr.fn.blocks for i in b if i.get('id') is not None}
        todo, seen = [fr.fn.blocks[fr.prev][-1]], 0
        while todo and seen < 30:
            i = todo.pop()
            seen += 1
            if i['op'] == 'load' or i['op'] == 'call':
                continue
            for o in i.get('ops', []):
                if i['op'] == 'phi':
                    o = o[0]
                if o[0] != 'v':
                    continue
                v = fr.env.get(o[1])
                if v == JUNK or isinstance(v, Lin) and not v.is_const() and any(s in vague for s, _ in st.norm(v).t):
                    return True
                if o[1] in defs:
                    todo.append(defs[o[1]])
        return False

    def allowed_abort(self, st):
        return False

    def newblk(self, st, size, default, label):
        if size.is_const():
            o = Blk('heap', size, {}, default, 'malloc', 'live', None, False, label)
        else:
            o = Arr(1, size, [(ZERO, size, (default,))], 'malloc', 'live', False, label)
        return st.alloc_oid(o)

    def x_malloc(self, st, args, ins):
        n = st.u(self.an.num_of(st, args[0]))
        if self.choose(st, 'malloc') == 1:
            st.flags['oom'] = True
            return NULL
        st.assume_ge(con(MAXALLOC) - n)
        return P(self.newblk(st, n, 'uninit', 'malloc'))

    def x_calloc(self, st, args, ins):
        a, b = st.u(self.an.num_of(st, args[0])), st.u(self.an.num_of(st, args[1]))
        n = a.scale(b.k) if b.is_const() else b.scale(a.k) if a.is_const() else self.an.product(st, a, b)
        if self.choose(st, 'calloc') == 1:
            st.flags['oom'] = True
            return NULL
        if not st.assume_ge(con(MAXALLOC) - n):
            raise Stop()
        oid = self.newblk(st, st.norm(n), 'zero', 'calloc')
        o = st.heap[oid]
        if isinstance(o, Arr):
            if b.is_const() and b.k > 1:
                st.heap[oid] = o.copy(stride=b.k, runs=[(ZERO, a, ('zero',))])
            elif a.is_const() and a.k > 1:
                st.heap[oid] = o.copy(stride=a.k, runs=[(ZERO, b, ('zero',))])
        return P(oid)

    def x_free(self, st, args, ins):
        p = args[0]
        if p == UNDEF:
            self.an.violation(st, 'uninitialised', 'free of an uninitialised pointer', ('ub', 'alloc'))
        if isinstance(p, Lin) or p == NULL:
            return None
        if p[0] in ('O', 'E'):
            self.an.violation(st, 'foreign-free', 'free() of a user pointer', ('ub', 'alloc'))
        if p[0] != 'P':
            if p[0] == 'Z':
                self.an.violation(st, 'bad-free', 'free of an invalid pointer', ('ub', 'alloc'))
            raise Undecided('free of an unknown pointer')
        self.release_storage(st, p, 'malloc', 'free()')
        return None

    def release_storage(self, st, p, origin, what):
        if p[2]:
            self.an.plug('materialise', st, p[1], p[2])
            raise Retry()
        o = st.heap[p[1]]
        if o.status == 'freed':
            self.an.violation(st, 'double-free', '%s of %s that was already given back' % (what, self.an.describe(o)),
                              ('ub', 'alloc'))
        if o.origin != origin:
            self.an.violation(st, 'wrong-allocator', '%s of %s that came from %s' % (
                what, self.an.describe(o), {'upool': "the user's pool", 'malloc': 'the heap'}.get(o.origin, o.origin)),
                ('ub', 'alloc'))
        if not st.eq(p[3], ZERO):
            self.an.violation(st, 'bad-free', '%s of a pointer into the middle of %s' % (what, self.an.describe(o)),
                              ('ub', 'alloc'))
        if o.ro:
            self.ro_write(st, p[1], o, ZERO)
        for pl in self.plugins:
            f = getattr(pl, 'on_free', None)
            if f and isinstance(o, Blk):
                f(st, p[1], o)
        st.heap[p[1]] = st.heap[p[1]].copy(status='freed')

    def x_realloc(self, st, args, ins):
        p, n = args[0], st.u(self.an.num_of(st, args[1]))
        if p == UNDEF:
            self.an.violation(st, 'uninitialised', 'realloc of an uninitialised pointer', ('ub', 'alloc'))
        if p == NULL or isinstance(p, Lin):
            return self.x_malloc(st, [n], ins)
        if p[0] != 'P':
            raise Undecided('realloc of an unknown pointer')
        if p[2]:
            self.an.plug('materialise', st, p[1], p[2])
            raise Retry()
        o = st.heap[p[1]]
        if o.status == 'freed' or o.origin != 'malloc' or not st.eq(p[3], ZERO):
            self.an.violation(st, 'bad-realloc', 'realloc of a pointer that is no live allocation', ('ub', 'alloc'))
        if self.choose(st, 'realloc') == 1:
            st.flags['oom'] = True
            return NULL
        if not st.assume_ge(con(MAXALLOC) - n):
            raise Stop()
        grow = st.decide_ge(n - o.size)
        if isinstance(o, Blk) and n.is_const() and o.size.is_const():
            cells = {q: c for q, c in o.cells.items() if q + c[0] <= n.k}
            if o.default == 'zero':
                for q in range(0, min(n.k, o.size.k), 8):
                    if not any(x < q + 8 and q < x + s for x, (s, _) in cells.items()):
                        cells[q] = (8, ZERO)
            nb = o.copy(size=n, cells=cells, default='uninit')
            nid = st.alloc_oid(nb)
        else:
            if isinstance(o, Blk):
                stride = 8
                if any(off % 8 or s != 8 for off, (s, _) in o.cells.items()):
                    stride = 1
                o = self.an.to_array(st, p[1], stride)
            if grow:
                hi, s = self.an.elem_index(st, o, n)
                old = self.run_end(st, o)
                runs = list(o.runs)
                if not st.eq(hi, old):
                    runs.append((old, hi, ('uninit',)))
                nb = o.copy(size=n, runs=runs)
            else:
                hi, s = self.an.elem_index(st, o, n)
                i = self.an.cut(st, p[1], hi)
                o = st.heap[p[1]]
                nb = o.copy(size=n, runs=o.runs[:i])
            nid = st.alloc_oid(nb)
        st.heap[p[1]] = st.heap[p[1]].copy(status='freed')
        st.flags.pop(('ch', 'malloc'), None)
        return P(nid)

    def run_end(self, st, o):
        if o.runs:
            return o.runs[-1][1]
        return ZERO

    # ---- leaks
    def phys_roots(self, st):
        """values the outside world (or the running function) still holds"""
        for f in st.frames:
            yield from f.env.values()
        for g, v in st.ghost.items():
            if g.startswith('root'):
                yield v
        rv = st.flags.get('retval')
        if rv is not None:
            yield rv

    # what the specification knows about the container: (ghost that refers to it,
    # struct, names of its fields, functions that release it)
    CONTAINER = None

    def unowned(self):
        """(ghost, offsets of fields added to the container that no function releasing
        it looks at): memory only such a field refers to is never given back"""
        c = self.CONTAINER
        if c is None:
            return None, ()
        memo = self.prog.__dict__.setdefault('unowned', {})
        if c not in memo:
            offs = set()
            try:
                have = self.prog.fields(c[1])
                funcs = self.prog.data['functions']
            except MissingAPI:
                have = {}
            for f, (off, size) in have.items():
                if f not in c[2] and size == 8:
                    offs.add(off)
            todo, seen = [f for f in c[3] if f in funcs] if offs else [], set()
            if not todo:
                offs = set()
            while todo and offs:
                f = todo.pop()
                if f in seen:
                    continue
                seen.add(f)
                for b in funcs[f]['blocks'] if not funcs[f]['decl'] else []:
                    for i in b:
                        if i['op'] == 'getelementptr':
                            offs.discard(i.get('coff'))
                        elif i['op'] == 'call':
                            if i['callee'][0] == 'f' and i['callee'][1].startswith('llvm.mem'):
                                offs = set()
                            elif i['callee'][0] == 'f' and i['callee'][1] in funcs:
                                todo.append(i['callee'][1])
            memo[c] = frozenset(offs)
        return c[0], memo[c]

    def collect(self, st):
        reach = set()
        own, skip = self.unowned()
        own = st.ghost.get(own) if skip else None
        todo = []
        for v in self.phys_roots(st):
            for p in leaves(v):
                if not isinstance(p, Lin) and p[0] == 'P':
                    todo.append(p[1])
        for oid, o in st.heap.items():
            if o.origin == 'global' or (isinstance(o.origin, str) and o.origin.startswith('global')):
                todo.append(oid)
        while todo:
            oid = todo.pop()
            if oid in reach:
                continue
            reach.add(oid)
            o = st.heap.get(oid)
            if o is None:
                continue
            if getattr(o, 'status', 'live') == 'freed':
                continue
            if own is not None and own[1] == oid and isinstance(o, Blk):
                o = o.copy(cells={k: v for k, v in o.cells.items() if k not in skip})
            for p in leaves(o.parts()):
                if not isinstance(p, Lin) and p[0] == 'P' and p[1] not in reach:
                    todo.append(p[1])
        ghostrefs = set()
        for v in st.ghost.values():
            for p in leaves(v):
                if not isinstance(p, Lin) and p[0] == 'P':
                    ghostrefs.add(p[1])
        for oid in list(st.heap):
            if oid in reach:
                continue
            o = st.heap[oid]
            status = getattr(o, 'status', 'live')
            if status == 'live' and self.leakable(st, oid, o):
                self.leak(st, oid, o)
            if oid not in ghostrefs:
                del st.heap[oid]
            elif status == 'live':
                if isinstance(o, (Blk, Arr)):
                    st.heap[oid] = o.copy(status='freed')
            for s in st.seqs:
                if ('o', oid) in st.seqs[s]:
                    if isinstance(o, Seg):
                        lo, hi = o.lo, o.hi
                        a = o.attr
                    else:
                        lo, hi = o.ident[1], o.ident[1] + 1
                        a = self.elem_attr(st, s, lo)
                    st.seqs[s] = [e if e != ('o', oid) else ('x', lo, hi, (('lost', True),) + tuple(a)) for e in st.seqs[s]]

    def leakable(self, st, oid, o):
        return o.origin in ('malloc', 'upool')

    def leak(self, st, oid, o):
        if st.flags.get('oom'):
            return
        self.an.report(st, 'leak', '%s becomes unreachable without being given back' % (
            'part of the container' if not isinstance(o, Blk) else self.an.describe(o)), ('leak',))
