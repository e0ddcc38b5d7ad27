"""Abstract interpreter over the LLVM IR of the library.

States are canonical abstract heaps (explicit objects plus summary objects that
stand for arbitrarily many nodes or array elements), a conjunction of linear
constraints and facts about callback results.  States are joined and widened at
loop heads until nothing new appears; every access, callback and exit is an
obligation that must follow from the abstract state."""
import itertools
from num import Lin, Store, con, sym, newsym, fresh, ZERO, ONE, make_store, affine_hull, _tight

NULL = ('N',)
UNDEF = ('U',)
JUNK = ('J',)

NONNULL = {'mem', 'slot', 'key'}      # ghost fields that never hold NULL

def P(oid, off=ZERO, anchor=''):
    return ('P', oid, anchor, off)

def isP(v):
    return isinstance(v, tuple) and v and v[0] == 'P'


class Split(Exception):
    def __init__(self, alts):
        self.alts = alts


class Stop(Exception):
    """path ends (termination of the program, or an error was reported)"""


class Undecided(Exception):
    pass


class MissingAPI(Exception):
    pass


# ---------------------------------------------------------------- objects
class Obj:
    pass


class Blk(Obj):
    """one concrete object"""
    __slots__ = ('kind', 'size', 'cells', 'default', 'origin', 'status', 'ident', 'ro', 'label')

    def __init__(self, kind, size, cells=None, default='uninit', origin='heap', status='live', ident=None, ro=False,
                 label=''):
        self.kind = kind; self.size = size; self.cells = cells or {}; self.default = default
        self.origin = origin; self.status = status; self.ident = ident; self.ro = ro; self.label = label

    def copy(self, **kw):
        b = Blk(self.kind, self.size, self.cells, self.default, self.origin, self.status, self.ident, self.ro, self.label)
        for k, v in kw.items():
            setattr(b, k, v)
        return b

    def parts(self):
        if self.status == 'freed':
            return (self.ident,)
        return (self.size, self.ident, tuple((o,) + self.cells[o] for o in sorted(self.cells)))

    def head(self):
        return ('Blk', self.kind, self.default, self.origin, self.status, self.ro)

    def rebuild(self, parts):
        if self.status == 'freed':
            return self.copy(ident=parts[0], cells={}, size=ZERO)
        return self.copy(size=parts[0], ident=parts[1], cells={c[0]: (c[1], c[2]) for c in parts[2]})


class Seg(Obj):
    """summary of cnt >= 1 list nodes that hold the elements of sequence seq in
    the index range [lo,hi).  mix: None, or the status of the elements of the
    range that were taken out (kept and removed ones interleave)."""
    __slots__ = ('nt', 'seq', 'lo', 'hi', 'cnt', 'mix', 'next', 'prev', 'attr', 'ro', 'origin')
    status = 'live'

    def __init__(self, nt, seq, lo, hi, next, prev, attr=(), cnt=None, mix=None, ro=False, origin='heap'):
        self.nt = nt; self.seq = seq; self.lo = lo; self.hi = hi; self.next = next; self.prev = prev
        self.attr = attr; self.cnt = cnt if cnt is not None else hi - lo; self.mix = mix; self.ro = ro
        self.origin = origin

    def copy(self, **kw):
        b = Seg(self.nt, self.seq, self.lo, self.hi, self.next, self.prev, self.attr, self.cnt, self.mix, self.ro,
                self.origin)
        for k, v in kw.items():
            setattr(b, k, v)
        return b

    def parts(self):
        return (self.lo, self.hi, self.cnt, self.next, self.prev, self.attr, self.mix)

    def head(self):
        return ('Seg', self.nt, self.seq, self.ro, self.origin)

    def rebuild(self, p):
        s = self.copy()
        s.lo, s.hi, s.cnt, s.next, s.prev, s.attr, s.mix = p
        return s


class Arr(Obj):
    """dynamic array: byte size, element stride, runs (lo, hi, desc) in elements.
    desc: ('cells', ((sub,size,val),...)) one explicit element, or
          ('uninit',) ('zero',) ('junk',), or a class handled by a plugin."""
    __slots__ = ('stride', 'size', 'runs', 'origin', 'status', 'ro', 'label')

    def __init__(self, stride, size, runs, origin='heap', status='live', ro=False, label=''):
        self.stride = stride; self.size = size; self.runs = runs; self.origin = origin
        self.status = status; self.ro = ro; self.label = label

    def copy(self, **kw):
        b = Arr(self.stride, self.size, self.runs, self.origin, self.status, self.ro, self.label)
        for k, v in kw.items():
            setattr(b, k, v)
        return b

    def parts(self):
        if self.status == 'freed':
            return ()
        return (self.size, tuple(self.runs))

    def head(self):
        return ('Arr', self.stride, self.origin, self.status, self.ro, self.label)

    def rebuild(self, p):
        if self.status == 'freed':
            return self.copy(runs=[], size=ZERO)
        return self.copy(size=p[0], runs=list(p[1]))


class Frame:
    __slots__ = ('fn', 'bi', 'ii', 'env', 'ret', 'prev', 'allocas', 'retslot', 'onret')

    def __init__(self, fn, env):
        self.fn = fn; self.bi = 0; self.ii = 0; self.env = env; self.prev = None; self.allocas = ()
        self.onret = None

    def copy(self):
        f = Frame(self.fn, dict(self.env))
        f.bi = self.bi; f.ii = self.ii; f.prev = self.prev; f.allocas = self.allocas; f.onret = self.onret
        return f


class State:
    def __init__(self):
        self.frames = []
        self.heap = {}
        self.num = Store()
        self.facts = {}      # ('null', v) -> bool ; ('sgn', a, b) -> frozenset ; others by plugins
        self.dst = {}        # element value -> status
        self.seqs = {}       # name -> list of entries
        self.terms = {}      # (op, args...) -> value
        self.ghost = {}
        self.trace = None
        self.taint = None
        self.next_oid = 1
        self.flags = {}      # scalar, part of the key

    def renorm(self):
        """rewrites facts in terms of the current normal forms"""
        norm = self.num.norm

        def nk(k):
            if isinstance(k, Lin):
                return norm(k)
            if isinstance(k, tuple):
                return tuple(nk(x) for x in k)
            return k
        eqs = self.num.eqs
        for name in ('facts', 'dst', 'terms'):
            d = self.__dict__[name]
            out = {}
            ch = False
            for k, v in d.items():
                k2 = nk(k)
                if k2 != k:
                    ch = True
                if k2 in out and out[k2] != v:
                    v = self.merge_fact(name, k2, out[k2], v)
                out[k2] = v
            if ch:
                self.__dict__[name] = out

    def merge_fact(self, name, k, a, b):
        if isinstance(a, frozenset) and isinstance(b, frozenset):
            if not (a & b):
                self.contradiction = True
            return a & b
        if name == 'facts':
            self.contradiction = True
        if name == 'terms' and isinstance(a, Lin) and isinstance(b, Lin):
            self.pending = self.__dict__.get('pending', ()) + (a - b,)
        return b

    contradiction = False
    pending = ()
    src = None           # the head state this one was reached from
    tree_links = None    # offsets of the child fields when the heap holds a tree
    waits = False        # the path waits for somebody else

    def setnum(self, n):
        old = self.num
        self.num = n
        if n.eqs is not old.eqs and n.eqs != old.eqs:
            self.renorm()
            while self.pending:
                p = self.pending
                self.pending = ()
                m = self.num
                for d in p:
                    m = m.add_eq(d)
                    if m is None:
                        self.contradiction = True
                        return False
                if m.eqs != self.num.eqs:
                    self.num = m
                    self.renorm()
        return not self.contradiction

    def copy(self):
        s = State.__new__(State)
        s.frames = [f.copy() for f in self.frames]
        s.heap = dict(self.heap)
        s.num = self.num
        s.facts = dict(self.facts)
        s.dst = dict(self.dst)
        s.seqs = {k: list(v) for k, v in self.seqs.items()}
        s.terms = dict(self.terms)
        s.ghost = dict(self.ghost)
        s.trace = self.trace
        s.taint = self.taint
        s.next_oid = self.next_oid
        s.flags = dict(self.flags)
        s.src = self.src
        s.waits = self.waits
        s.tree_links = self.tree_links
        return s

    # ---- numbers
    def norm(self, l):
        return self.num.norm(l)

    def assume_ge(self, l):
        n = self.num.add_ge(l)
        if n is None or not n.sat():
            return False
        return self.setnum(n)

    def assume_all(self, ls):
        n = self.num
        for l in ls:
            n = n.add_ge(l)
            if n is None:
                return False
        if n is self.num:
            return True
        return n.sat() and self.setnum(n)

    def assume_eq(self, l):
        n = self.num.add_eq(l)
        if n is None or not n.sat():
            return False
        return self.setnum(n)

    def ge(self, l):
        return self.num.entails_ge(l)

    def eq(self, a, b):
        return self.num.entails_eq(a - b)

    def decide_ge(self, l):
        """truth of l >= 0, splitting when it depends"""
        if self.num.entails_ge(l):
            return True
        m = -l - 1
        if self.num.entails_ge(m):
            return False
        raise Split([lambda s: s.assume_ge(l), lambda s: s.assume_ge(m)])

    def decide_eq(self, l):
        l = self.norm(l)
        if not l.t:
            return l.k == 0
        a = self.num.entails_ge(l)
        b = self.num.entails_ge(-l)
        if a and b:
            return True
        if self.num.entails_ge(l - 1) or self.num.entails_ge(-l - 1):
            return False
        alts = [lambda s: s.assume_eq(l)]
        if not b:
            alts.append(lambda s: s.assume_ge(l - 1))
        if not a:
            alts.append(lambda s: s.assume_ge(-l - 1))
        raise Split(alts)

    def window(self, l, lo, w):
        """representative of l modulo 2^w in [lo, lo+2^w)"""
        m = 1 << w
        l = self.norm(l)
        if not l.t:
            return con((l.k - lo) % m + lo)
        if self.num.entails_ge(l - lo) and self.num.entails_ge(con(lo + m - 1) - l):
            return l
        b0 = self.num.lower(l)
        b1 = self.num.lower(-l)
        if b0 is None or b1 is None:
            return self.modulo(l, lo, w, None, None)
        k0 = (b0 - lo) // m
        k1 = (-b1 - lo) // m
        if k1 - k0 > 8:
            return self.modulo(l, lo, w, k0, k1)
        if k0 == k1:
            return l - k0 * m
        alts = []
        for k in range(k0, k1 + 1):
            def f(s, k=k):
                return s.assume_ge(l - (lo + k * m)) and s.assume_ge(con(lo + k * m + m - 1) - l)
            alts.append(f)
        raise Split(alts)

    def modulo(self, l, lo, w, k0, k1):
        """exact: l - q * 2^w for an unknown integer q"""
        m = 1 << w
        q = self.terms.get(('wrap%d.%d' % (w, 1 if lo else 0), l))
        if q is None:
            q = newsym('q')
            self.terms[('wrap%d.%d' % (w, 1 if lo else 0), l)] = q
            if k0 is not None:
                self.assume_ge(q - k0)
                self.assume_ge(con(k1) - q)
            self.assume_ge(l - q.scale(m) - lo)
            self.assume_ge(con(lo + m - 1) - l + q.scale(m))
        return self.norm(l - q.scale(m))

    def u(self, l, w=64):
        return self.window(l, 0, w)

    def s(self, l, w=64):
        return self.window(l, -(1 << (w - 1)), w)

    # ---- values
    def nv(self, v):
        """normalise numbers inside a value"""
        if isinstance(v, Lin):
            return self.num.norm(v)
        if isinstance(v, tuple) and v and v[0] in ('P', 'E'):
            return tuple(self.num.norm(x) if isinstance(x, Lin) else x for x in v)
        return v

    def isnull(self, v):
        """truth of v == NULL"""
        if v == NULL:
            return True
        if isinstance(v, Lin):
            return self.decide_eq(v)
        t = v[0]
        if t in ('P', 'F', 'CB'):
            return False
        if t == 'Z':
            return self.decide_eq(v[1])
        if t in ('O', 'E'):
            if t == 'E' and v[2] in NONNULL:
                return False
            v = self.nv(v)
            r = self.facts.get(('null', v))
            if r is not None:
                return r
            raise Split([lambda s: s.setfact(('null', v), True), lambda s: s.setfact(('null', v), False)])
        raise Undecided('null test of %r' % (v,))

    def setfact(self, k, v):
        self.facts[k] = v
        return True

    def alloc_oid(self, obj):
        o = self.next_oid
        self.next_oid += 1
        self.heap[o] = obj
        return o

    def note(self, what):
        self.trace = (self.trace, what)


def leaves(v):
    """all leaf values (pointers, elements, numbers) inside a nested value"""
    if isinstance(v, tuple):
        if v and v[0] in ('P', 'E', 'O'):
            yield v
        else:
            for x in v:
                yield from leaves(x)
    elif isinstance(v, list):
        for x in v:
            yield from leaves(x)
    elif isinstance(v, Lin):
        yield v


def mapv(v, f):
    """apply f to every leaf"""
    if isinstance(v, tuple):
        if v and v[0] in ('P', 'E', 'O'):
            return f(v)
        return tuple(mapv(x, f) for x in v)
    if isinstance(v, list):
        return [mapv(x, f) for x in v]
    if isinstance(v, Lin):
        return f(v)
    return v


def mapp(v, f):
    """apply f to every pointer and element; the same object when nothing changes"""
    t = type(v)
    if t is tuple:
        if v:
            h = v[0]
            if type(h) is str and (h == 'P' or h == 'E' or h == 'O'):
                return f(v)
            for i, x in enumerate(v):
                tx = type(x)
                if tx is tuple or tx is list:
                    y = mapp(x, f)
                    if y is not x:
                        return v[:i] + (y,) + tuple([mapp(z, f) for z in v[i + 1:]])
        return v
    if t is list:
        for i, x in enumerate(v):
            tx = type(x)
            if tx is tuple or tx is list:
                y = mapp(x, f)
                if y is not x:
                    return v[:i] + [y] + [mapp(z, f) for z in v[i + 1:]]
    return v


def map_state(st, f):
    """in-place application of f to all pointer leaves of the state"""
    for fr in st.frames:
        for k, v in fr.env.items():
            fr.env[k] = mapp(v, f)
    for oid, o in list(st.heap.items()):
        p = o.parts()
        q = mapp(p, f)
        if q is not p and q != p:
            st.heap[oid] = o.rebuild(q)
    for k, v in st.ghost.items():
        st.ghost[k] = mapp(v, f)
    for k in st.terms:
        st.terms[k] = mapp(st.terms[k], f)


# ---------------------------------------------------------------- functions
class Fn:
    def __init__(self, name, d):
        self.name = name
        self.d = d
        self.file = d.get('file', '')
        self.params = d['params']
        self.blocks = d['blocks']
        self.ret = d['ret']
        self._analyse()

    def _analyse(self):
        n = len(self.blocks)
        self.succ = []
        for b in self.blocks:
            t = b[-1]
            self.succ.append(list(t.get('succ', [])) if t['op'] in ('br', 'switch') else [])
        # loop heads: targets of DFS back edges
        self.heads = set()
        color = [0] * n
        stack = [(0, iter(self.succ[0]))]
        color[0] = 1
        while stack:
            b, it = stack[-1]
            for s in it:
                if color[s] == 0:
                    color[s] = 1
                    stack.append((s, iter(self.succ[s])))
                    break
                if color[s] == 1:
                    self.heads.add(s)
            else:
                color[b] = 2
                stack.pop()
        # liveness
        use = [set() for _ in range(n)]
        de = [set() for _ in range(n)]
        phiuse = {}
        for i, b in enumerate(self.blocks):
            for ins in b:
                if ins['op'] == 'phi':
                    for opd, pb in ins['ops']:
                        if opd[0] == 'v':
                            phiuse.setdefault(pb, set()).add(opd[1])
                    de[i].add(ins['id'])
                    continue
                for v in self._uses(ins):
                    if v not in de[i]:
                        use[i].add(v)
                if 'id' in ins:
                    de[i].add(ins['id'])
        live_in = [set() for _ in range(n)]
        live_out = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for i in reversed(range(n)):
                o = set(phiuse.get(i, ()))
                for s in self.succ[i]:
                    o |= live_in[s]
                li = use[i] | (o - de[i])
                if o != live_out[i] or li != live_in[i]:
                    live_out[i] = o
                    live_in[i] = li
                    ch = True
        self.live_in, self.live_out = live_in, live_out
        self._live_cache = {}

    def _uses(self, ins):
        out = []
        for key in ('ops', 'voff'):
            for o in ins.get(key, ()):
                if ins['op'] == 'phi':
                    continue
                if isinstance(o, list) and o and o[0] == 'v':
                    out.append(o[1])
                elif isinstance(o, list) and o and isinstance(o[0], list) and o[0][0] == 'v':
                    out.append(o[0][1])
        c = ins.get('callee')
        if isinstance(c, list) and c[0] == 'v':
            out.append(c[1])
        return out

    def live_at(self, bi, ii):
        """values live just before instruction ii of block bi (phis at the block
        start count as already executed when ii is past them)"""
        k = (bi, ii)
        r = self._live_cache.get(k)
        if r is None:
            live = set(self.live_out[bi])
            for ins in reversed(self.blocks[bi][ii:]):
                if 'id' in ins:
                    live.discard(ins['id'])
                live.update(self._uses(ins))
            r = self._live_cache[k] = live
        return r


class Program:
    def __init__(self, data):
        self.data = data
        self.structs = data['structs']
        self.globals = data['globals']
        self.fns = {}
        self.decls = {}
        for n, d in data['functions'].items():
            if d.get('decl'):
                self.decls[n] = d
            else:
                self.fns[n] = Fn(n, d)

    def sname(self, n):
        if n in self.structs:
            return n
        t = self.data['typedefs'].get(n)
        if t in self.structs:
            return t
        raise MissingAPI('type %s' % n)

    def size(self, struct):
        return self.structs[self.sname(struct)]['size']

    def fields(self, struct):
        return {f['name']: (f['off'], f['size']) for f in self.structs[self.sname(struct)]['fields']}

    def fn(self, name):
        f = self.fns.get(name)
        if f is None:
            raise MissingAPI('function %s' % name)
        return f


def path_of(t):
    out = []
    while t is not None and len(out) < 400:
        out.append(t[1])
        t = t[0]
    out.reverse()
    return out


class Finding:
    def __init__(self, rule, msg, file, func, line, path, tags):
        self.rule = rule; self.msg = msg; self.file = file; self.func = func; self.line = line
        self.path = path; self.tags = tags

    def ident(self):
        return (self.rule, self.file, self.func, self.line, self.msg)
