"""Numeric abstract domain: conjunctions of linear equalities and inequalities
over integer symbols (convex polyhedra given by constraints), decided by
Gaussian elimination and Fourier-Motzkin projection with integer tightening.
Nothing outside this file is used to answer numeric questions."""
from math import gcd
import itertools

_fresh = itertools.count(1)
SYMNAME = {}

def fresh(name='s'):
    i = next(_fresh)
    SYMNAME[i] = '%s%d' % (name, i)
    return i


class Lin:
    __slots__ = ('k', 't', '_h')

    def __init__(self, k, t=()):
        self.k = k
        self.t = t
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.k, self.t))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Lin) and self.k == o.k and self.t == o.t

    def __ne__(self, o):
        return not self.__eq__(o)

    def is_const(self):
        return not self.t

    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.k + o, self.t)
        if not o.t:
            return Lin(self.k + o.k, self.t)
        if not self.t:
            return Lin(self.k + o.k, o.t)
        return Lin(self.k + o.k, _addt(self.t, o.t, 1))

    def __sub__(self, o):
        if isinstance(o, int):
            return Lin(self.k - o, self.t)
        if not o.t:
            return Lin(self.k - o.k, self.t)
        return Lin(self.k - o.k, _addt(self.t, o.t, -1))

    def __neg__(self):
        return Lin(-self.k, tuple((s, -c) for s, c in self.t))

    def scale(self, m):
        if m == 0:
            return ZERO
        if m == 1:
            return self
        return Lin(self.k * m, tuple((s, c * m) for s, c in self.t))

    def syms(self):
        return [s for s, _ in self.t]

    def __repr__(self):
        out = ''
        for s, c in self.t:
            n = SYMNAME.get(s, 's%d' % s)
            if c == 1:
                out += ('+' if out else '') + n
            elif c == -1:
                out += '-' + n
            else:
                out += ('+' if out and c > 0 else '') + '%d*%s' % (c, n)
        if self.k or not out:
            out += ('+' if out and self.k >= 0 else '') + str(self.k)
        return out


def _addt(a, b, m):
    d = dict(a)
    for s, c in b:
        n = d.get(s, 0) + m * c
        if n:
            d[s] = n
        else:
            d.pop(s, None)
    return tuple(sorted(d.items()))


ZERO = Lin(0)
ONE = Lin(1)

def con(k):
    return Lin(k)

def sym(s):
    return Lin(0, ((s, 1),))

def newsym(name='s'):
    return sym(fresh(name))


def _tight(t, k):
    """gcd-normalise t + k >= 0 over the integers"""
    g = 0
    for _, c in t:
        g = gcd(g, c)
        if g == 1:
            return t, k
    if g > 1:
        return tuple((s, c // g) for s, c in t), k // g
    return t, k


class Budget(Exception):
    pass

MAXCONS = 700

def fm_python(cons, keep):
    """cons: dict t -> k (t + k >= 0).  Eliminate every symbol not in keep.
    Returns the projected dict or None when infeasible.  Over-approximates
    (drops constraints) when it grows too large."""
    cons = dict(cons)
    while True:
        occ = {}
        for t in cons:
            for s, c in t:
                if s in keep:
                    continue
                p = occ.get(s)
                if p is None:
                    p = occ[s] = [0, 0]
                p[0 if c > 0 else 1] += 1
        if not occ:
            return cons
        best = min(occ, key=lambda s: (occ[s][0] * occ[s][1] - occ[s][0] - occ[s][1], s))
        pos, neg, rest = [], [], {}
        for t, k in cons.items():
            c = 0
            for s, cc in t:
                if s == best:
                    c = cc
                    break
            if c > 0:
                pos.append((t, k, c))
            elif c < 0:
                neg.append((t, k, -c))
            else:
                rest[t] = k
        if len(pos) * len(neg) > MAXCONS:
            cons = rest          # sound over-approximation of the projection
            continue
        for tp, kp, cp in pos:
            for tn, kn, cn in neg:
                g = gcd(cp, cn)
                a, b = cn // g, cp // g
                d = {}
                for s, c in tp:
                    d[s] = c * a
                for s, c in tn:
                    n = d.get(s, 0) + c * b
                    if n:
                        d[s] = n
                    else:
                        d.pop(s, None)
                d.pop(best, None)
                k = kp * a + kn * b
                if not d:
                    if k < 0:
                        return None
                    continue
                t, k = _tight(tuple(sorted(d.items())), k)
                o = rest.get(t)
                if o is None or k < o:
                    rest[t] = k
        if len(rest) > MAXCONS:
            items = sorted(rest.items(), key=lambda x: (len(x[0]), sum(abs(c) for _, c in x[0])))
            rest = dict(items[:MAXCONS])
        # cheap contradiction between opposite constraints
        for t, k in rest.items():
            nt = tuple((s, -c) for s, c in t)
            o = rest.get(nt)
            if o is not None and k + o < 0:
                return None
        cons = rest


_fm = []
_ROWS, _TERMS = 4096, 1 << 16
_M64 = (1 << 64) - 1
_BIGC = 1 << 60


class Native:
    """the elimination compiled from fm.cpp"""
    def __init__(self):
        import ctypes
        import ir
        lib = ctypes.CDLL(ir.fm_library())
        i32, i64, vp = ctypes.c_int32, ctypes.c_int64, ctypes.c_void_p
        self.i32, self.i64, self.u8 = i32, i64, ctypes.c_uint8
        lib.fm_store.restype = vp
        lib.fm_drop.argtypes = [vp]
        lib.fm_check.argtypes = [vp, i32, vp, vp, i64, i64, i32]
        lib.fm_lower.argtypes = [vp, i32, vp, vp, i64, i64, i32, vp, vp]
        lib.fm_reduce.argtypes = [vp, vp, vp, i32]
        lib.fm_project.argtypes = [vp, i32, vp, i32] + [vp] * 5 + [i32, i32]
        self.lib = lib
        self.out = ((i32 * (_ROWS + 1))(), (i32 * _TERMS)(), (i64 * _TERMS)(), (i64 * _ROWS)(), (i64 * _ROWS)())
        self.lo, self.hi = i64(), i64()
        self.plo, self.phi = ctypes.byref(self.lo), ctypes.byref(self.hi)
        self.c1, self.k1 = (i32 * 256)(), (i64 * 256)()

    def row(self, t):
        if len(t) > 250:
            return False
        c, k = self.c1, self.k1
        i = 0
        for s, v in t:
            if not -_BIGC < v < _BIGC:
                return False
            c[i] = s
            k[i] = v
            i += 1
        return True


class Handle:
    __slots__ = ('p', 'n')

    def __init__(self, N, cons):
        start, cols, coefs, lo, hi = [0], [], [], [], []
        for t, k in cons.items():
            for s, c in t:
                if not -_BIGC < c < _BIGC:
                    raise OverflowError
                cols.append(s)
                coefs.append(c)
            start.append(len(cols))
            h = k >> 64
            if not -(1 << 30) < h < (1 << 30):
                raise OverflowError
            l = k & _M64
            lo.append(l - (1 << 64) if l >> 63 else l)
            hi.append(h)
        i32, i64 = N.i32, N.i64
        n, m = len(lo), len(cols)
        self.n = N
        self.p = N.lib.fm_store(n, (i32 * (n + 1))(*start), (i32 * m)(*cols), (i64 * m)(*coefs), (i64 * n)(*lo), (i64 * n)(*hi))

    def __del__(self):
        try:
            self.n.lib.fm_drop(self.p)
        except Exception:
            pass


def native():
    if not _fm:
        try:
            _fm.append(Native())
        except Exception:
            _fm.append(None)
    return _fm[0]


def handle(cons):
    N = native()
    if N is None or len(cons) > 2000:
        return None
    try:
        return Handle(N, cons)
    except OverflowError:
        return None


def _split(k):
    l = k & _M64
    return (l - (1 << 64) if l >> 63 else l), k >> 64


def fm_eliminate(cons, keep):
    if not cons:
        return {}
    h = handle(cons)
    if h is None:
        return fm_python(cons, keep)
    N = h.n
    out = N.out
    keep = list(keep)
    n = len(keep)
    r = N.lib.fm_project(h.p, n, (N.i32 * n)(*keep), MAXCONS, out[0], out[1], out[2], out[3], out[4], _ROWS, _TERMS)
    if r == -1:
        return None
    if r < 0:
        return fm_python(cons, set(keep))
    res = {}
    os_, oc, of, ol, oh = out
    for i in range(r):
        a, b = os_[i], os_[i + 1]
        res[tuple(zip(oc[a:b], of[a:b]))] = (oh[i] << 64) + (ol[i] & _M64)
    return res


def reduce_rows(rows):
    """[(t, k)] without the rows that follow from the others, tested in order"""
    rows = list(rows)
    if len(rows) < 2:
        return rows
    h = handle(dict(rows))
    if h is not None:
        N = h.n
        n = len(rows)
        alive = (N.u8 * n)()
        if N.lib.fm_reduce(h.p, (N.i32 * n)(*range(n)), alive, MAXCONS) == 0:
            return [x for x, a in zip(rows, alive) if a]
    cur = dict(rows)
    for t, k in rows:
        rest = dict(cur)
        del rest[t]
        if Store({}, rest).entails_ge(Lin(k, t)):
            cur = rest
    return [x for x in rows if x[0] in cur]


def fm_sat(cons):
    return fm_eliminate(cons, ()) is not None


class Store:
    """immutable-by-convention conjunction; add_* return a new Store or None
    when the result is unsatisfiable"""
    __slots__ = ('eqs', 'ineqs', 'cache', '_ncache', '_h')

    def __init__(self, eqs=None, ineqs=None):
        self.eqs = eqs or {}
        self.ineqs = ineqs or {}
        self.cache = {}
        self._ncache = {}
        self._h = None

    def norm(self, l):
        if not l.t:
            return l
        eqs = self.eqs
        if not eqs:
            return l
        r = self._ncache.get(l)
        if r is not None:
            return r
        hit = False
        for s, _ in l.t:
            if s in eqs:
                hit = True
                break
        if not hit:
            return l
        k = l.k
        d = {}
        for s, c in l.t:
            e = eqs.get(s)
            if e is None:
                d[s] = d.get(s, 0) + c
            else:
                k += c * e.k
                for s2, c2 in e.t:
                    d[s2] = d.get(s2, 0) + c * c2
        r = Lin(k, tuple(sorted((s, c) for s, c in d.items() if c)))
        self._ncache[l] = r
        return r

    # ---- adding -------------------------------------------------------
    def add_ge(self, l):
        l = self.norm(l)
        if not l.t:
            return self if l.k >= 0 else None
        t, k = _tight(l.t, l.k)
        o = self.ineqs.get(t)
        if o is not None and o <= k:
            return self
        nt = tuple((s, -c) for s, c in t)
        no = self.ineqs.get(nt)
        if no is not None:
            if k + no < 0:
                return None
            if k + no == 0:
                return self.add_eq(Lin(k, t))
        n = dict(self.ineqs)
        n[t] = k
        return Store(self.eqs, n)

    def add_eq(self, l):
        l = self.norm(l)
        if not l.t:
            return self if l.k == 0 else None
        g = 0
        for _, c in l.t:
            g = gcd(g, c)
        if g > 1:
            if l.k % g:
                return None
            l = Lin(l.k // g, tuple((s, c // g) for s, c in l.t))
        unit = None
        for s, c in l.t:
            if c in (1, -1):
                if unit is None or s > unit[0]:
                    unit = (s, c)
        if unit is None:
            n = dict(self.ineqs)
            for m in (l, -l):
                o = n.get(m.t)
                if o is None or m.k < o:
                    n[m.t] = m.k
            return Store(self.eqs, n)
        s, c = unit
        rest = Lin(l.k, tuple(x for x in l.t if x[0] != s))
        e = rest.scale(-1) if c == 1 else rest
        eqs = {}
        for s2, e2 in self.eqs.items():
            eqs[s2] = _subst(e2, s, e)
        eqs[s] = e
        st = Store(eqs, {})
        pend = []
        for t, k in self.ineqs.items():
            for s2, _ in t:
                if s2 == s:
                    pend.append(_subst(Lin(k, t), s, e))
                    break
            else:
                st.ineqs[t] = k
        for p in pend:
            st = st.add_ge(p)
            if st is None:
                return None
        return st

    # ---- querying ------------------------------------------------------
    def component(self, syms):
        todo = set(syms)
        idx = {}
        for t in self.ineqs:
            for s, _ in t:
                idx.setdefault(s, []).append(t)
        seen = set()
        cons = {}
        while todo:
            s = todo.pop()
            if s in seen:
                continue
            seen.add(s)
            for t in idx.get(s, ()):
                if t not in cons:
                    cons[t] = self.ineqs[t]
                    for s2, _ in t:
                        if s2 not in seen:
                            todo.add(s2)
        return cons

    def entails_ge(self, l):
        l = self.norm(l)
        if not l.t:
            return l.k >= 0
        t, k = _tight(l.t, l.k)
        o = self.ineqs.get(t)
        if o is not None and o <= k:
            return True
        r = self.cache.get((t, k))
        if r is not None:
            return r
        # quick interval check
        lo = k
        for s, c in t:
            if c > 0:
                b = self.ineqs.get(((s, 1),))
                if b is None:
                    lo = None
                    break
                lo += c * -b
            else:
                b = self.ineqs.get(((s, -1),))
                if b is None:
                    lo = None
                    break
                lo += c * b
        if lo is not None and lo >= 0:
            self.cache[(t, k)] = True
            return True
        nt = tuple((s, -c) for s, c in t)
        nk = -k - 1
        h = self.native()
        if h is not None and -_BIGC < (nk >> 64) < _BIGC and h.n.row(nt):
            l, u = _split(nk)
            r = h.n.lib.fm_check(h.p, len(nt), h.n.c1, h.n.k1, l, u, MAXCONS)
            if r >= 0:
                r = not r
                self.cache[(t, k)] = r
                return r
        cons = self.component([s for s, _ in t])
        o = cons.get(nt)
        if o is None or nk < o:
            cons = dict(cons)
            cons[nt] = nk
        r = not fm_sat(cons)
        self.cache[(t, k)] = r
        return r

    def entails_eq(self, l):
        l = self.norm(l)
        if not l.t:
            return l.k == 0
        return self.entails_ge(l) and self.entails_ge(-l)

    def sat(self):
        r = self.cache.get('sat')
        if r is None:
            h = self.native()
            r = h.n.lib.fm_check(h.p, 0, None, None, 0, 0, MAXCONS) if h is not None else -2
            r = bool(r) if r >= 0 else fm_sat(self.ineqs)
            self.cache['sat'] = r
        return r

    def native(self):
        h = self._h
        if h is None:
            h = handle(self.ineqs)
            self._h = h if h is not None else False
        return h or None

    def lower(self, l):
        """greatest proven lower bound of l, or None"""
        l = self.norm(l)
        if not l.t:
            return l.k
        key = ('lo', l)
        if key in self.cache:
            return self.cache[key]
        h = self.native()
        if h is not None and -_BIGC < (l.k >> 64) < _BIGC and h.n.row(l.t):
            N = h.n
            a, b = _split(l.k)
            r = N.lib.fm_lower(h.p, len(l.t), N.c1, N.k1, a, b, MAXCONS, N.plo, N.phi)
            if r > -2:
                r = (N.hi.value << 64) + (N.lo.value & _M64) if r == 1 else None
                self.cache[key] = r
                return r
        z = fresh('z')
        cons = dict(self.component([s for s, _ in l.t]))
        e = l - sym(z)
        for m in (e, -e):
            cons[m.t] = m.k
        pr = fm_eliminate(cons, (z,))
        r = None
        if pr is not None:
            v = pr.get(((z, 1),))
            r = None if v is None else -v
        self.cache[key] = r
        return r

    def project(self, keep):
        """constraints over the symbols in keep (set) as (eqs list of Lin==0,
        ineqs list of Lin>=0)"""
        keep = set(keep)
        cons = dict(self.ineqs)
        eqs = []
        # solved symbols: those in keep become equalities, others vanish
        # (a solved symbol only occurs in its own equation)
        pend = [sym(s) - e for s, e in self.eqs.items() if s in keep]
        # eliminate non-kept symbols from the kept equations by substitution
        changed = True
        out = []
        while pend:
            q = pend.pop()
            un = None
            for s, c in q.t:
                if s not in keep and c in (1, -1):
                    un = (s, c)
                    break
            if un is None:
                if all(s in keep for s, _ in q.t):
                    out.append(q)
                else:
                    for m in (q, -q):
                        o = cons.get(m.t)
                        if o is None or m.k < o:
                            cons[m.t] = m.k
                continue
            s, c = un
            rest = Lin(q.k, tuple(x for x in q.t if x[0] != s))
            e = rest.scale(-1) if c == 1 else rest
            pend = [_subst(x, s, e) for x in pend]
            pend = [x for x in pend if x.t]
            n = {}
            for t, k in cons.items():
                l = Lin(k, t)
                for s2, _ in t:
                    if s2 == s:
                        l = _subst(l, s, e)
                        break
                if not l.t:
                    continue
                t2, k2 = _tight(l.t, l.k)
                o = n.get(t2)
                if o is None or k2 < o:
                    n[t2] = k2
            cons = n
        pr = fm_eliminate(cons, keep)
        if pr is None:
            return out, [con(-1)]
        return out, [Lin(k, t) for t, k in pr.items()]


def _subst(l, s, e):
    for s2, c in l.t:
        if s2 == s:
            rest = Lin(l.k, tuple(x for x in l.t if x[0] != s))
            return rest + e.scale(c)
    return l


def make_store(eqs, ineqs):
    st = Store()
    for e in eqs:
        st = st.add_eq(e)
        if st is None:
            return None
    for i in ineqs:
        st = st.add_ge(i)
        if st is None:
            return None
    return st


# ---- affine hull (Karr) -------------------------------------------------
def _reduce(rows, order):
    """row echelon form of sparse integer rows (dict column -> int), pivots
    fully cleared; `order` ranks the columns"""
    out = []                       # (pivot column, row)
    for r in rows:
        for c, p in out:
            v = r.get(c)
            if v:
                r = _comb(r, p[c], p, v)
        if not r:
            continue
        c = min(r, key=order)
        nout = []
        for c2, p in out:
            v = p.get(c)
            if v:
                p = _comb(p, r[c], r, v)
            nout.append((c2, p))
        nout.append((c, r))
        out = nout
    return out


def _comb(r, a, p, b):
    """a*r - b*p without common factor"""
    g = gcd(a, b)
    a //= g
    b //= g
    d = {}
    for k, v in r.items():
        v = a * v - b * p.get(k, 0)
        if v:
            d[k] = v
    for k, v in p.items():
        if k not in r:
            d[k] = -b * v
    g = 0
    for v in d.values():
        g = gcd(g, v)
        if g == 1:
            break
    if g > 1:
        d = {k: v // g for k, v in d.items()}
    return d


def _space(eqs, vars_):
    """denominator, point and direction basis of the affine space {eqs}"""
    rows = []
    for e in eqs:
        r = dict(e.t)
        if e.k:
            r[-1] = e.k
        rows.append(r)
    red = _reduce(rows, lambda c: (c == -1, -c))
    piv = {c: r for c, r in red}
    den = 1
    for c, r in red:
        v = abs(r[c])
        den = den * v // gcd(den, v)
    point = {}
    dirs = {}
    for c, r in red:
        k = r.get(-1, 0)
        if k:
            point[c] = -k * den // r[c]
    for v in vars_:
        if v not in piv:
            dirs[v] = {v: den}
    for c, r in red:
        for f, x in r.items():
            if f != c and f != -1:
                dirs[f][c] = -x * den // r[c]
    return den, point, list(dirs.values())


def affine_hull(eqsA, eqsB, vars_):
    """equations of the smallest affine space that holds both"""
    vars_ = list(vars_)
    da, pa, A = _space(eqsA, vars_)
    db, pb, B = _space(eqsB, vars_)
    d = {}
    for v in set(pa) | set(pb):
        x = pb.get(v, 0) * da - pa.get(v, 0) * db
        if x:
            d[v] = x
    red = _reduce(A + B + [d], lambda c: c)
    piv = {c: r for c, r in red}
    out = []
    cols = {}
    for c, r in red:
        for f, x in r.items():
            if f != c:
                cols.setdefault(f, []).append((c, x, r[c]))
    for f in vars_:
        if f in piv:
            continue
        den = 1
        for c, x, y in cols.get(f, ()):
            g = gcd(x, y)
            y = abs(y // g)
            den = den * y // gcd(den, y)
        a = {f: den}
        for c, x, y in cols.get(f, ()):
            a[c] = -x * den // y
        k = -sum(x * pa.get(v, 0) for v, x in a.items())
        # the point has denominator da
        a = {v: x * da for v, x in a.items()}
        g = abs(k)
        for x in a.values():
            g = gcd(g, x)
        out.append(Lin(k // g, tuple(sorted((v, x // g) for v, x in a.items()))))
    return out
