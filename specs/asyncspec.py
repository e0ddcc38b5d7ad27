"""asyncqueue.c: the calls are interpreted as monitors.

The mutex is a typestate; items and waiter bookkeeping may only be touched while
it is held.  Whatever other threads do happens while the mutex is free or given
up by a condition wait: there the queue is replaced by an arbitrary one.  Time is
a ghost (seconds, nanoseconds) handed out by the clock functions."""
from absint import *
from interp import Retry
from base import BIG
from listspec import ListSpec, D
from lists import Lists
from num import Lin, con, sym, newsym, ZERO, ONE

NS = 1000000000
BLOCKING = ('sleep', 'usleep', 'nanosleep', 'clock_nanosleep', 'poll', 'select', 'pselect', 'epoll_wait', 'read', 'sem_wait',
            'sem_timedwait', 'pthread_join', 'pthread_barrier_wait', 'pthread_rwlock_rdlock', 'pthread_rwlock_wrlock',
            'pthread_spin_lock', 'sigwait', 'pause', 'wait', 'waitpid', 'getchar', 'fgets')
ETIMEDOUT = 110


class AsyncSpec(ListSpec):
    def __init__(self, prog, entry, case, op, free, pool, **kw):
        super().__init__(prog, False, entry, case, op, free, pool, **kw)
        self.CONTAINER = None
        self.AF = prog.fields('AsyncQueue')
        qo = self.AF['queue'][0]
        self.SF = self.F
        self.F = {n: (o + qo, s) for n, (o, s) in self.SF.items()}
        self.asize = prog.size('AsyncQueue')
        self.shared = [self.F[n] for n in ('head', 'tail', 'count')] + [self.AF['waiting']]

    # ---- pre-state: an arbitrary queue
    def pre(self, shape, origin='user'):
        (st, lp, _, _), = self.base_state(empty=(shape == 'empty'), origin=origin)
        o = st.heap[lp[1]]
        w = newsym('w')
        st.assume_ge(w)
        st.assume_ge(con(BIG) - w)
        cells = dict(o.cells)
        cells[self.AF['waiting'][0]] = (8, w)
        st.heap[lp[1]] = o.copy(size=con(self.asize), cells=cells, label='async queue')
        st.ghost['w'] = w
        st.flags['lock'] = 'free'
        st.flags['shape'] = shape
        S, N = newsym('sec'), newsym('ns')
        for x, hi in ((S, 1 << 40), (N, NS - 1)):
            st.assume_ge(x)
            st.assume_ge(con(hi) - x)
        st.ghost['S'], st.ghost['N'] = S, N
        st.ghost['S0'], st.ghost['N0'] = S, N
        return st, lp

    # ---- lock discipline
    def guarded(self):
        return self.op in ('push', 'pop', 'clear', 'count')

    def private(self, st, obj):
        """storage that other threads cannot reach"""
        return not (isinstance(obj, Blk) and obj.kind == 'item' and obj.ident is not None)

    def touch(self, st, oid, obj, off, size, what):
        if not self.guarded() or st.flags['lock'] == 'held':
            return
        if oid == self.lst(st):
            lo = st.norm(off)
            n = size.k if isinstance(size, Lin) and size.is_const() else size
            if lo.is_const() and isinstance(n, int) and not any(lo.k < o + s and o < lo.k + n for o, s in self.shared):
                return
        elif self.private(st, obj):
            return
        self.an.report(st, 'unprotected-access', 'the %s is %s without holding the mutex' % (
            'queue' if oid == self.lst(st) else 'item', what), ('lock',) + (('oom',) if st.flags.get('syserr') else ()))

    def on_load(self, st, oid, obj, off, size):
        self.touch(st, oid, obj, off, size, 'read')

    def on_store(self, st, oid, obj, off, size, v):
        self.touch(st, oid, obj, off, size, 'changed')

    def on_blockwrite(self, st, oid, obj, off, n):
        self.touch(st, oid, obj, off, n, 'changed')

    def part(self, st, v, what):
        """the argument must be the queue's own mutex or condition"""
        v = st.nv(v)
        name = {'mutex': 'mutex', 'cond': 'condition variable'}[what]
        if v == UNDEF or v == NULL or not isP(v):
            self.an.violation(st, 'wrong-' + what, "the call does not use the queue's %s" % name, ('lock', 'wait', 'ub'))
        want = P(st.ghost['root_list'][1] if 'root_list' in st.ghost else self.newq(st, v), con(self.AF[what][0]))
        if v != st.nv(want):
            self.an.violation(st, 'wrong-' + what, "the call does not use the queue's %s" % name, ('lock', 'wait', 'ub'))

    def newq(self, st, v):
        """async_queue_new: the block the parts lie in is the new queue"""
        return v[1]

    def failing(self, st, name, n=2):
        return self.choose(st, name, n) == 1

    def err(self, st, what):
        st.flags['syserr'] = True
        st.flags[what] = True
        r = newsym('rc')
        st.assume_ge(r - 1)
        st.assume_ge(con(200) - r)
        return r

    def x_pthread_mutex_lock(self, st, args, ins):
        self.part(st, args[0], 'mutex')
        if self.failing(st, 'lock'):
            return self.err(st, 'mutexerr')
        if st.flags['lock'] == 'held':
            self.an.violation(st, 'self-deadlock', 'the mutex is locked again by its holder', ('lock',))
        if st.flags['lock'] == 'done':
            self.an.violation(st, 'split-section', 'the mutex is acquired a second time: the operation is not atomic', ('lock',))
        st.flags['lock'] = 'held'
        st.waits = True
        return ZERO

    def x_pthread_mutex_trylock(self, st, args, ins):
        self.part(st, args[0], 'mutex')
        if self.failing(st, 'lock'):
            return con(16)
        st.flags['lock'] = 'held'
        return ZERO

    def x_pthread_mutex_unlock(self, st, args, ins):
        self.part(st, args[0], 'mutex')
        if st.flags['lock'] != 'held':
            self.an.violation(st, 'bad-unlock', 'the mutex is released without being held', ('lock',))
        if self.failing(st, 'unlock'):
            return self.err(st, 'mutexerr')
        st.flags['lock'] = 'done'
        return ZERO

    def waiting(self, st):
        o = st.heap[self.lst(st)]
        c = o.cells.get(self.AF['waiting'][0])
        v = c[1] if c else (ZERO if o.default == 'zero' else UNDEF)
        if v == UNDEF or not isinstance(v, Lin):
            self.an.violation(st, 'uninitialised', 'the number of waiting consumers is not set', ('wait', 'ub'))
        return st.norm(v)

    def signal(self, st, args):
        self.part(st, args[0], 'cond')
        if self.failing(st, 'signal'):
            return self.err(st, 'conderr')
        if st.flags['lock'] in ('held', 'done'):
            st.flags['signalled'] = True
        return ZERO

    def x_pthread_cond_signal(self, st, args, ins):
        return self.signal(st, args)

    def x_pthread_cond_broadcast(self, st, args, ins):
        return self.signal(st, args)

    def x_pthread_cond_wait(self, st, args, ins):
        if self.kw.get('timed'):
            self.an.violation(st, 'endless-wait', 'a timed pop waits without a time limit', ('time',))
        return self.wait(st, args, False)

    def x_pthread_cond_timedwait(self, st, args, ins):
        if self.kw.get('timed'):
            self.deadline(st, args[2])
        return self.wait(st, args, True)

    def wait(self, st, args, timed):
        an = self.an
        st.waits = True
        self.part(st, args[0], 'cond')
        self.part(st, args[1], 'mutex')
        if st.flags['lock'] != 'held':
            an.violation(st, 'bad-wait', 'the condition wait is entered without holding the mutex', ('lock', 'wait'))
        if self.op != 'pop':
            an.violation(st, 'blocking-call', 'an operation that must not block waits for the condition', ('lock',))
        if ('ch', 'wake') not in st.flags:
            if self.walk(st, self.lst(st)):
                an.report(st, 'wait-with-items', 'a consumer goes to sleep although the queue may hold an item', ('wait',))
            if not st.eq(self.waiting(st), st.ghost['w'] + 1):
                an.report(st, 'unregistered-wait', 'a consumer goes to sleep without being counted as waiting exactly once', ('wait',))
        k = self.choose(st, 'wake', 4 if timed else 2)
        shape = 'any' if k & 1 else 'empty'
        # other threads ran: any queue, any number of waiters including this one
        for oid in [oid for oid, o in st.heap.items() if isinstance(o, Seg) or (isinstance(o, Blk) and o.kind == 'item' and o.ident)]:
            del st.heap[oid]
        st.seqs['D'] = []
        st.facts = {}
        st.dst = {}
        n, w = newsym('n'), newsym('w')
        st.assume_ge(w)
        st.assume_ge(con(BIG) - w)
        st.ghost['n'], st.ghost['w'] = n, w
        head = tail = NULL
        if shape == 'any':
            st.assume_ge(n - 1)
            st.assume_ge(con(BIG) - n)
            sg = st.alloc_oid(Seg('item', 'D', ZERO, n, NULL, NULL, self.attr('held', (-1, 0, 1)), None, None, False,
                                  'upool' if self.pool else 'malloc'))
            st.seqs['D'] = [('o', sg)]
            head, tail = P(sg, ZERO, 'first'), P(sg, ZERO, 'last')
        else:
            st.assume_eq(n)
        q = self.lst(st)
        cells = dict(st.heap[q].cells)
        for nme, v in (('head', head), ('tail', tail), ('count', n)):
            cells[self.F[nme][0]] = (self.F[nme][1], v)
        cells[self.AF['waiting'][0]] = (8, st.norm(w + 1))
        st.heap[q] = st.heap[q].copy(cells=cells)
        st.flags['shape'] = shape
        st.flags.pop('signalled', None)
        # time passed
        S, N = newsym('sec'), newsym('ns')
        for x, hi in ((S, 1 << 41), (N, NS - 1)):
            st.assume_ge(x)
            st.assume_ge(con(hi) - x)
        st.assume_ge(S.scale(NS) + N - st.ghost['S'].scale(NS) - st.ghost['N'])
        st.ghost['S'], st.ghost['N'] = S, N
        st.flags['timedout'] = k >= 2
        return con(ETIMEDOUT) if k >= 2 else ZERO

    # ---- time
    def put(self, st, p, vals):
        if p == NULL or (isinstance(p, Lin)):
            return
        for i, v in enumerate(vals):
            self.an.store(st, self.an.ptradd(st, p, con(8 * i)), 8, v)

    def usec(self, st):
        return self.an.divterm(st, st.norm(st.ghost['N']), con(1000), 64)

    def x_gettimeofday(self, st, args, ins):
        self.put(st, args[0], (st.ghost['S'], self.usec(st)))
        return ZERO

    def x_clock_gettime(self, st, args, ins):
        c = self.an.num_of(st, args[0])
        if c.is_const() and c.k == 0:
            self.put(st, args[1], (st.ghost['S'], st.ghost['N']))
        else:
            S, N = newsym('sec'), newsym('ns')
            for x, hi in ((S, 1 << 40), (N, NS - 1)):
                st.assume_ge(x)
                st.assume_ge(con(hi) - x)
            self.put(st, args[1], (S, N))
        return ZERO

    def x_timespec_get(self, st, args, ins):
        self.put(st, args[0], (st.ghost['S'], st.ghost['N']))
        return ONE

    def x_time(self, st, args, ins):
        self.put(st, args[0], (st.ghost['S'],))
        return st.ghost['S']

    def deadline(self, st, p):
        an = self.an
        s = an.load(st, p, 8)
        n = an.load(st, an.ptradd(st, p, con(8)), 8)
        if s == UNDEF or n == UNDEF:
            an.violation(st, 'uninitialised', 'the deadline is not initialised', ('time', 'ub'))
        s, n = an.num_of(st, s), an.num_of(st, n)
        if not (st.ge(n) and st.ge(con(NS - 1) - n)):
            an.violation(st, 'bad-deadline', 'the nanoseconds of the deadline may be outside 0..999999999', ('time',))
        # as long as nothing was waited for, now is the time of the call
        d = s.scale(NS) + n - st.ghost['S0'].scale(NS) - st.ghost['N0'] - st.ghost['ms'].scale(1000000)
        if not (st.ge(d + 999999) and st.ge(con(999999) - d)):
            an.violation(st, 'wrong-deadline', 'the deadline is not the time of the call plus the given milliseconds', ('time',))

    # ---- creation
    def x_pthread_mutex_init(self, st, args, ins):
        return self.made(st, args, 'mutex')

    def x_pthread_cond_init(self, st, args, ins):
        return self.made(st, args, 'cond')

    def made(self, st, args, what):
        self.part(st, args[0], what)
        if args[1] != NULL and not (isinstance(args[1], Lin) and st.norm(args[1]) == ZERO):
            raise Undecided('%s attributes' % what)
        if self.failing(st, what + 'init'):
            return self.err(st, 'mutexerr')
        if st.flags.get('made_' + what):
            self.an.violation(st, 'double-init', 'the %s is initialised twice' % what, ('life',))
        st.flags['made_' + what] = True
        return ZERO

    def x_pthread_mutex_destroy(self, st, args, ins):
        return self.gone(st, args, 'mutex')

    def x_pthread_cond_destroy(self, st, args, ins):
        return self.gone(st, args, 'cond')

    def gone(self, st, args, what):
        self.part(st, args[0], what)
        o = st.heap.get(self.lst(st))
        if o is None or o.status == 'freed':
            self.an.violation(st, 'use-after-free', 'the %s is destroyed after the queue was freed' % what, ('life', 'ub', 'uaf'))
        if st.flags['lock'] == 'held':
            self.an.violation(st, 'destroy-locked', 'the mutex is destroyed while it is held', ('life', 'lock'))
        if self.failing(st, what + 'destroy'):
            return self.err(st, 'mutexerr' if what == 'mutex' else 'conderr')
        if st.flags.get('gone_' + what):
            self.an.violation(st, 'double-destroy', 'the %s is destroyed twice' % what, ('life',))
        st.flags['gone_' + what] = True
        return ZERO

    def extern(self, name):
        if name in BLOCKING:
            def blocks(st, args, ins):
                self.an.violation(st, 'blocking-call', 'the operation blocks in %s()' % name, ('lock',))
            return blocks
        return super().extern(name)

    # ---- exits
    def finish(self, st, ret):
        an = self.an
        if st.flags.get('oom'):
            an.violation(st, 'failed-allocation-ignored', 'the function returns although memory was refused', ('oom',))
        if st.flags.get('mutexerr') and not st.flags.get('diag'):
            an.violation(st, 'failed-lock-ignored', 'a failing mutex operation is not reported', ('oom',))
        if st.flags.get('syserr'):
            if st.flags['lock'] == 'held' and not st.flags.get('mutexerr'):
                an.report(st, 'lock-kept', 'the function returns with the mutex held', ('lock',))
            return
        if self.guarded():
            if st.flags['lock'] == 'held':
                an.violation(st, 'lock-kept', 'the function returns with the mutex held', ('lock',))
            if st.flags['lock'] == 'free':
                an.violation(st, 'no-lock', 'the function never acquires the mutex', ('lock',))
            if not st.eq(self.waiting(st), st.ghost['w']):
                an.report(st, 'waiters-wrong', 'the number of waiting consumers is not restored', ('wait',))
        elif st.flags['lock'] == 'held':
            an.violation(st, 'lock-kept', 'the function returns with the mutex held', ('lock',))
        getattr(self, 'post_' + self.op)(st, ret)
        self.collect(st)

    def post_push(self, st, ret):
        self.kw['ret'] = False
        self.post_append(st, ret)
        if not st.flags.get('signalled') and not st.eq(st.ghost['w'], ZERO):
            self.an.report(st, 'no-signal', 'an item is added while a consumer may be waiting, but none is woken', ('wait',))

    def post_pop(self, st, ret):
        an = self.an
        ok = an.decide_bool(st, ret)
        shape = st.flags['shape']
        if not ok:
            self.common(st)
            self.none_removed(st)
            if not self.kw['timed']:
                an.violation(st, 'pop-without-item', 'a pop without timeout returns without an item', ('wait',))
            if not st.flags.get('timedout'):
                an.report(st, 'early-return', 'a timed pop fails before its deadline passed', ('time',))
            if shape != 'empty':
                an.report(st, 'item-ignored', 'a timed pop fails although an item is available', ('time',))
            return
        if shape == 'empty':
            an.violation(st, 'wrong-result', 'pop of an empty queue reports success', ('fifo', 'wait'))
        parts, _ = self.common(st)
        self.exact_one_removed(st, ZERO, 'pop')
        if self.out(st) != ('E', 'D', 'data', ZERO):
            an.report(st, 'wrong-result', 'pop does not store the datum of the oldest item', ('fifo',))
        self.check_released(st, True, ZERO)

    def post_count(self, st, ret):
        self.common(st)
        self.none_removed(st)
        if not isinstance(ret, Lin) or not st.eq(ret, st.ghost['n']):
            self.an.report(st, 'wrong-result', 'count is not the number of items', ('fifo',))

    def post_new(self, st, ret):
        super().post_new(st, ret)
        for w in ('mutex', 'cond'):
            if not st.flags.get('made_' + w):
                self.an.report(st, 'not-initialised', 'the %s of a new queue is not initialised' % w, ('life',))
        if not st.eq(self.waiting(st), ZERO):
            self.an.report(st, 'waiters-wrong', 'a new queue already has waiting consumers', ('life', 'wait'))

    post_init = post_new

    def post_free(self, st, ret):
        super().post_free(st, ret)
        for w in ('mutex', 'cond'):
            if not st.flags.get('gone_' + w):
                self.an.report(st, 'not-destroyed', 'the %s is not destroyed' % w, ('life',))

    post_destroy = post_free


PROPS = {'ub': ['C29'], 'oob': ['C29'], 'null': ['C29'], 'uaf': ['C08', 'C29'], 'alloc': ['C08', 'C29'], 'leak': ['C08', 'C29'],
         'oom': ['C30'], 'term': ['C29', 'C30'], 'struct': ['C29'], 'count': ['C29'], 'edit': ['C29'], 'fifo': ['C29'],
         'lifo': ['C29'], 'release': ['C29'], 'life': ['C29'], 'lock': ['C26'], 'wait': ['C27'], 'time': ['C28'], 'ro': ['C29']}


def tasks(prog):
    out = []

    def add(fn, op, shape, args, free, pool, origin='user', **kw):
        name = '%s[free=%d,pool=%d,shape=%s]' % (fn, free, pool, shape)
        kw = dict(kw, shape=shape, searches=False)

        def start():
            f = prog.fn(fn)
            spec = AsyncSpec(prog, fn, name, op, free, pool, **kw)
            st, lp = spec.pre(shape, origin)
            av = []
            for a in args:
                if a == 'Q':
                    av.append(lp)
                elif a == 'RAW':
                    st.heap[lp[1]] = st.heap[lp[1]].copy(cells={}, default='uninit')
                    av.append(lp)
                elif a == 'POOL':
                    av.append(st.ghost.get('root_pool', NULL))
                elif a == 'OUT':
                    ob = Blk('out', con(8), {}, 'uninit', 'user', 'live', None, False, 'destination')
                    p = P(st.alloc_oid(ob))
                    st.ghost['root_out'] = p
                    av.append(p)
                elif a == 'MS':
                    ms = newsym('ms')
                    st.assume_ge(ms)
                    st.assume_ge(con((1 << 32) - 1) - ms)
                    st.ghost['ms'] = ms
                    av.append(ms)
                else:
                    av.append(a)
            if op == 'new':
                del st.ghost['root_list']
                del st.heap[lp[1]]
            if len(av) != len(f.params):
                raise MissingAPI('signature of %s' % fn)
            st.frames = [Frame(f, {p['id']: a for p, a in zip(f.params, av)})]
            return spec, [st]
        out.append(dict(name=name, group='asyncqueue', props=PROPS, extra=[], start=start, fn=fn))
    CBS = lambda free: [('CB', 'compare'), ('CB', 'free') if free else NULL, 'POOL']
    for free in (0, 1):
        for pool in (0, 1):
            for sh in ('empty', 'any'):
                add('async_queue_push', 'push', sh, ['Q', D], free, pool)
                add('async_queue_pop', 'pop', sh, ['Q', 'OUT'], free, pool, timed=False)
                add('async_queue_pop_timeout', 'pop', sh, ['Q', 'OUT', 'MS'], free, pool, timed=True)
                add('async_queue_clear', 'clear', sh, ['Q'], free, pool)
                add('async_queue_count', 'count', sh, ['Q'], free, pool)
                add('async_queue_free', 'free', sh, ['Q'], free, pool)
                add('async_queue_destroy', 'destroy', sh, ['Q'], free, pool, origin='malloc')
            add('async_queue_new', 'new', 'empty', CBS(free), free, pool)
            add('async_queue_init', 'init', 'empty', ['RAW'] + CBS(free), free, pool)
    return out
