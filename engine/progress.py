"""Termination: every cycle among the loop-head states of a task needs a measure.

The analysis of a task ends with a graph: its nodes are the loop-head states
(with their invariants), its edges the paths between them, each with the linear
relation between the numbers before and after.  A component of the graph
terminates when some integer that is bounded from below never grows on its
edges and drops on some; those edges are taken out and the rest is looked at
again (lexicographic ranking).  The integers are taken from the states: loop
variables, positions of pointers in a list, cells of the container, numbers of
elements that are left, and differences of two of them."""
from num import Lin, sym, con, newsym, ZERO, ONE
from absint import *


def subtree(st, v, depth):
    """number of nodes below a pointer into a tree"""
    if v == NULL or (isinstance(v, Lin) and st.norm(v) == ZERO):
        return ZERO
    if not (isinstance(v, tuple) and v[0] == 'P') or depth > 40:
        return None
    o = st.heap.get(v[1])
    if type(o).__name__ == 'Sub':
        return o.hi - o.lo + o.has
    L = st.tree_links
    if isinstance(o, Blk) and L:
        n = ONE
        for off in L:
            c = o.cells.get(off)
            c = subtree(st, c[1], depth + 1) if c else None
            if c is None:
                return None
            n = n + c
        return n
    return None


def extent(st, v, depth):
    """ranks below a pointer into a tree, None for an empty one"""
    o = st.heap.get(v[1]) if isinstance(v, tuple) and v[0] == 'P' else None
    if type(o).__name__ == 'Sub':
        return (o.lo, o.hi)
    if isinstance(o, Blk) and o.ident and len(o.ident) == 3 and isinstance(o.ident[1], Lin) and depth < 40:
        lo, hi = o.ident[1], o.ident[1] + 1
        c = [o.cells.get(x) for x in st.tree_links]
        l, r = [extent(st, x[1], depth + 1) if x else None for x in c]
        return (l[0] if l else lo, r[1] if r else hi)
    return None


def cursor(st, a, off, name, m):
    """the element of a traversal stack a pointer refers to: its node and how
    far the traversal is with it.  `at` is the place in the order of the tree
    the traversal has arrived at"""
    for lo, hi, d in a.runs:
        if d[0] == 'cells' and st.eq(lo.scale(a.stride), off):
            at = [x for x in d[1] if isinstance(x[2], tuple) and x[2] and x[2][0] == 'P']
            no = [x for x in d[1] if isinstance(x[2], Lin)]
            o = st.heap.get(at[0][2][1]) if len(at) == 1 else None
            sub = type(o).__name__ == 'Sub'
            if len(no) != 1 or not sub and not (isinstance(o, Blk) and o.kind == 'node'):
                return
            k = st.norm(no[0][2])
            m[('t', 'state') + name] = k
            e = extent(st, at[0][2], 0)
            n = subtree(st, at[0][2], 0)
            if n is not None:
                m[('t', 'size') + name] = n
            if e and not k.t:
                at = e[0] if k.k == 0 else e[1] if k.k > 1 or sub else o.ident[1]
                if not sub or k.k != 1:
                    m[('t', 'at') + name] = at


def measures(st):
    m = {}

    def put(name, v):
        if isinstance(v, Lin):
            m[('n',) + name] = v
        elif isinstance(v, tuple) and v:
            if v[0] == 'P':
                o = st.heap.get(v[1])
                if isinstance(o, Arr):
                    m[('o',) + name] = v[3]
                    if st.tree_links:
                        cursor(st, o, v[3], name, m)
                elif st.tree_links and (isinstance(o, Blk) and o.kind == 'node' or type(o).__name__ == 'Sub'):
                    n = subtree(st, v, 0)
                    if n is not None:
                        m[('s',) + name] = n
                elif isinstance(o, Blk) and o.ident:
                    if len(o.ident) == 2 and isinstance(o.ident[1], Lin):
                        m[('p',) + name] = o.ident[1]
                elif isinstance(o, Seg):
                    m[('p',) + name] = o.lo if v[2] == 'first' else o.hi - 1
            elif v[0] == 'E' and isinstance(v[3], Lin):
                m[('e',) + name] = v[3]
    for d, f in enumerate(st.frames):
        for k, v in f.env.items():
            put((d, k), v)
    for g, v in st.ghost.items():
        put(('g', g), v)
    kinds = {}
    for oid, o in st.heap.items():
        if isinstance(o, Blk) and o.status == 'live' and not o.ident and oid > -1000:
            kinds.setdefault(o.kind, []).append(o)
    for k, os in kinds.items():
        if len(os) == 1:
            for off, (s, v) in os[0].cells.items():
                put((k, off), v)
    for s, ent in st.seqs.items():
        n = con(0)
        for e in ent:
            if e[0] == 'o':
                o = st.heap.get(e[1])
                n = n + (o.hi - o.lo if isinstance(o, Seg) else 1)
        m[('len', s)] = n
    for k, f in EXTRA.items():
        f(st, m)
    return m


EXTRA = {}


def sccs(nodes, succ):
    """Tarjan, iterative"""
    idx, low, on, stack, out = {}, {}, set(), [], []
    n = 0
    for root in nodes:
        if root in idx:
            continue
        work = [(root, iter(succ.get(root, ())))]
        idx[root] = low[root] = n
        n += 1
        stack.append(root)
        on.add(root)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = n
                    n += 1
                    stack.append(w)
                    on.add(w)
                    work.append((w, iter(succ.get(w, ()))))
                    break
                elif w in on:
                    low[v] = min(low[v], idx[w])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == idx[v]:
                    c = []
                    while True:
                        w = stack.pop()
                        on.discard(w)
                        c.append(w)
                        if w == v:
                            break
                    out.append(c)
    return out


class Progress:
    def __init__(self):
        self.edges = {}      # K -> [(K2, num, measures, vec)]
        self.node = {}       # K -> measures over the symbols of the head
        self.n = {}
        self.stats = dict(components=0, edges=0, ranked=0, measures=[])

    def edge(self, src, dst, num, m, vec, path):
        self.edges.setdefault(src, []).append((dst, num, m, vec, path))

    def where(self, e):
        return e[5][0] if e[5] else ('', e[0][1][-1][0], 0)

    def solve(self):
        """-> list of components (node list, edge list) without a measure"""
        E = [(k, d, num, m, vec, path) for k, l in self.edges.items() for d, num, m, vec, path in l
             if k in self.node and d in self.node]
        self.stats['edges'] = len(E)
        return self.comps(E, 0)

    def comps(self, E, depth):
        succ = {}
        for e in E:
            succ.setdefault(e[0], set()).add(e[1])
        comp = {}
        for i, c in enumerate(sccs(list(succ), succ)):
            for k in c:
                comp[k] = i
        by = {}
        for e in E:
            if comp.get(e[0]) == comp.get(e[1]):
                by.setdefault(comp[e[0]], []).append(e)
        bad = []
        for c, es in by.items():
            self.stats['components'] += 1
            bad += self.component(es, depth)
        return bad

    def component(self, es, depth):
        nodes = set(e[0] for e in es) | set(e[1] for e in es)
        names = None
        for k in nodes:
            s = set(self.node[k])
            names = s if names is None else names & s
        # feasible edges only
        down = {}     # (name, sign) -> strictly decreasing edges, for those that never grow
        for nm in sorted(names, key=str):
            alive = {1: [], -1: []}
            for i, (k, d, num, m, vec, _) in enumerate(es):
                if nm not in m:
                    alive = {}
                    break
                delta = num.norm(self.node[k][nm] - m[nm])      # drop of the number
                for s in list(alive):
                    x = delta.scale(s)
                    if not x.t:
                        if x.k < 0:
                            del alive[s]
                        elif x.k > 0:
                            alive[s].append(i)
                    elif num.entails_ge(x - 1):
                        alive[s].append(i)
                    elif not num.entails_ge(x):
                        del alive[s]
                if not alive:
                    break
            for s, l in alive.items():
                down[nm, s] = l
            if nm[0] == 'n' and not alive:
                l = self.shifts(es, nm)
                if l:
                    down[nm, 'shift'] = l
        useful = sorted((x for x in down if down[x]), key=lambda x: (-len(down[x]), str(x)))
        for f in useful:
            strict = down[f]
            got = self.bounded([es[i] for i in strict], f, down)
            if got:
                self.stats['ranked'] += 1
                if len(self.stats['measures']) < 40:
                    self.stats['measures'].append(got)
                rest = [e for i, e in enumerate(es) if i not in set(strict)]
                return self.comps(rest, depth + 1)
        rest = self.live(es)
        if len(rest) < len(es):
            return self.comps(rest, depth + 1)
        return [es]

    def shifts(self, es, nm):
        """edges that shift a number to the left (until nothing is left of it)
        when no other edge touches it"""
        out = []
        for i, (k, d, num, m, vec, _) in enumerate(es):
            if nm not in m:
                return None
            a = self.node[k][nm]
            if num.entails_eq(m[nm] - a):
                continue
            x = num.norm(m[nm] - a.scale(2))
            if x.t or x.k not in (0, -(1 << 32), -(1 << 64)) or not num.entails_ge(a - 1):
                return None
            out.append(i)
        return out

    def live(self, es):
        """without the edges after which no edge of the component is possible"""
        if len(es) > 40:
            return es
        out = []
        for e in es:
            if any(self.follows(e, g) for g in es if g[0] == e[1]):
                out.append(e)
        return out

    def follows(self, e, g):
        num, vec = e[2], e[4]
        ren = {}

        def tr(l):
            x = con(l.k)
            for v, c in l.t:
                i = VIDX().get(v)
                if i is not None and i < len(vec):
                    y = vec[i]
                else:
                    y = ren.get(v)
                    if y is None:
                        y = ren[v] = newsym('c')
                x = x + y.scale(c)
            return x
        s = num
        for v, x in g[2].eqs.items():
            s = s.add_eq(tr(sym(v) - x))
            if s is None:
                return False
        for t, k in g[2].ineqs.items():
            s = s.add_ge(tr(Lin(k, t)))
            if s is None:
                return False
        return s.sat()

    def bounded(self, es, f, down):
        if f[1] == 'shift':
            return 'bits left in %s' % (f[0],)
        def low(g):
            for k, d, num, m, vec, _ in es:
                x = con(0)
                for nm, s in g:
                    x = x + self.node[k][nm].scale(s)
                if num.lower(x) is None:
                    return False
            return True
        if low((f,)):
            return '%s%s' % ('-' if f[1] < 0 else '', f[0])
        for g in sorted(down, key=str):
            if g[0] != f[0] and g[1] != 'shift' and low((f, g)):
                return '%s%s %s %s' % ('-' if f[1] < 0 else '', f[0], '-' if g[1] < 0 else '+', g[0])
        return None

    def standstill(self, es):
        """edges of a component on which nothing has to change"""
        out = []
        for k, d, num, m, vec, path in es:
            if k != d or not path:
                continue
            s = num
            for i, l in enumerate(vec):
                s = s.add_eq(l - sym(VS(i)))
                if s is None:
                    break
            if s is not None and s.sat():
                out.append(path)
        return out


def VS(i):
    from interp import vs
    return vs(i)


def VIDX():
    import interp
    return interp.VIDX
