"""What the three map analyses share: key/value callbacks with ownership as
typestate, tracked as sets of released index ranges."""
from absint import *
from base import Spec, BIG
from num import Lin, con, sym, newsym, ZERO, ONE

D = ('O', 'key')        # key passed to the operation
V = ('O', 'value')      # value passed to the operation


class Released:
    """released elements per field: explicit elements and index ranges"""


class MapSpec(Spec):
    SEQ = 'A'

    def user(self, st, v, what):
        if v == UNDEF:
            self.an.violation(st, 'uninitialised', 'uninitialised value passed to the %s function' % what, ('ub',))
        if isinstance(v, Lin) or v == NULL:
            self.an.violation(st, 'null-argument', 'NULL passed to the %s function' % what, ('ub', 'release', 'find'))
        if v == JUNK:
            raise Undecided('unknown value passed to callback')
        if v[0] not in ('E', 'O'):
            self.an.violation(st, 'bad-callback-argument', 'something that is no key or value is given to the %s function'
                              % what, ('ub', 'release', 'find'))
        return st.nv(v)

    # ---- the caller may pass the stored key itself to a removal
    def note_release(self, st, field):
        if field == 'key' and self.entry.endswith('_remove'):
            st.flags['own_key'] = True

    def caller_key(self, st):
        if st.flags.get('own_key'):
            self.an.violation(st, 'use-after-release', 'the key passed to the function is used after the stored key, which it may be, '
                              'was released', ('release', 'ub'))

    # ---- released ranges: ghost 'rel_<field>' = ((lo,hi),...)
    def rel(self, st, field):
        return st.ghost.get('rel_' + field, ())

    def is_released(self, st, field, i):
        """decides (splitting) whether element i is released"""
        for lo, hi in self.rel(st, field):
            if st.decide_ge(i - lo) and st.decide_ge(hi - i - 1):
                return True
        return False

    def may_be_released(self, st, field, lo, hi):
        """some element of [lo,hi) is released"""
        for a, b in self.rel(st, field):
            if not (st.ge(lo - b) or st.ge(a - hi)):
                return True
        return False

    def all_released(self, st, field, lo, hi):
        """every element of [lo,hi) is released"""
        if st.ge(lo - hi):
            return True
        pos = lo
        todo = list(self.rel(st, field))
        prog = True
        while prog:
            prog = False
            for a, b in todo:
                if st.ge(pos - a) and st.ge(b - pos - 1):
                    pos = b
                    prog = True
                    if st.ge(pos - hi):
                        return True
        return False

    def add_released(self, st, field, i):
        out = []
        lo, hi = i, i + 1
        for a, b in self.rel(st, field):
            if st.eq(b, lo):
                lo = a
            elif st.eq(a, hi):
                hi = b
            else:
                out.append((a, b))
        out.append((st.norm(lo), st.norm(hi)))
        if len(out) > 3:
            raise Undecided('too many separate ranges of released elements')
        st.ghost['rel_' + field] = tuple(out)

    def absorb_nulls(self, st):
        """values known to be NULL need no release"""
        for k, v in list(st.facts.items()):
            if k[0] == 'null' and v is True and isinstance(k[1], tuple) and k[1][0] == 'E' and k[1][1] == self.SEQ:
                f, i = k[1][2], k[1][3]
                if not self.may_be_released(st, f, i, i + 1):
                    self.add_released(st, f, i)

    def release(self, st, field, v):
        an = self.an
        what = {'key': 'key', 'val': 'value'}[field]
        if v == UNDEF:
            an.violation(st, 'uninitialised', 'the %s free function is called on an uninitialised value' % what, ('release', 'ub'))
        if v == NULL or isinstance(v, Lin):
            an.violation(st, 'release-null', 'the %s free function is called with NULL' % what, ('release',))
        if v == JUNK:
            raise Undecided('release of an unknown value')
        if v[0] != 'E' or v[2] != field or v[1] != self.SEQ:
            an.violation(st, 'release-foreign', 'the %s free function is called on something that is no stored %s' % (what, what),
                         ('release', 'replace'))
        v = st.nv(v)
        if st.facts.get(('null', v)) is True:
            an.violation(st, 'release-null', 'the %s free function is called with NULL' % what, ('release',))
        if self.is_released(st, field, v[3]):
            an.violation(st, 'double-release', 'a %s is released twice' % what, ('release', 'replace'))
        if field == 'val' and st.facts.get(('null', v)) is not False:
            an.report(st, 'release-null', 'the value free function may be called with NULL', ('release',))
        self.add_released(st, field, v[3])
        self.note_release(st, field)
        return None

    def cell(self, st, o, f, sub=0):
        off = f[0] + sub
        c = o.cells.get(off)
        v = c[1] if c and c[0] == f[1] else self.an.load_partial(st, o.cells, o.default, off, f[1])
        return st.nv(v)

    def num(self, st, v, what):
        if not isinstance(v, Lin):
            if v == NULL:
                return ZERO
            if v == JUNK:
                raise Undecided('%s unknown' % what)
            self.an.violation(st, 'broken-container', 'the %s has no valid value' % what, ('struct', 'ub'))
        return v
