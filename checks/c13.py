"""C13: the counting thread runs exactly while an instance measures"""
from sa import build
from sa.lib import *
from .c04 import touches
from .c14 import operands

EC, CTX = sym('ec'), sym('ctx')
RE, RC = ('D', EC), ('D', CTX)
BIG = ((1 << 16, (1 << 64) - (1 << 20)),)


class Pair(Monitor):
    """start / use / stop on one entry point"""

    def __init__(self, c, F):
        self.c, self.F = c, F

    USE = ('jent_random_data', 'jent_measure_jitter', 'jent_measure_jitter_ntg1_memaccess', 'jent_measure_jitter_ntg1_sha3',
           'jent_get_nstime_internal')

    def tracked(self, E, st):
        return tuple(sorted(zclass(st, field_get(E, st, r, self.F, 'enable_notime')) for r in st.mem if st.mem[r].size == self.F.size))

    def plain(self, E, st, p):
        """the instance is known to have a hardware timer"""
        rid, off = E.deref(st, p)
        return rid in st.mem and is_zero(st, field_get(E, st, rid, self.F, 'enable_notime'))

    def on_call(self, E, st, name, args, I):
        if name == 'jent_zalloc':
            a = st.copy()
            p = E.fresh(st, I, 64, 'obj')
            st.facts[p] = BIG
            st.mem[('D', p)] = Region('zero', self.F.size if args[0] == C(self.F.size, 64) else None)
            st.owned.add(('D', p))
            return [(a, C(0, 64)), (st, p)]
        if name == 'jent_notime_settick':
            self.c.count('starts')
            if st.mon['t'] == 'on':
                E.violation('double', I, 'the counting thread is started again while it is running', st)
            a, b = st.copy(), st
            a.mon['t'] = 'on'
            b.mon['t'] = 'off'
            r = E.fresh(b, I, 32, 'tick')
            b.facts[r] = ((1, (1 << 32) - 1),)
            return [(a, C(0, 32)), (b, r)]
        if name == 'jent_notime_unsettick':
            self.c.count('stops')
            st.mon['t'] = 'off'
            return [(st, None)]
        if name == 'jent_entropy_collector_free':
            st.mon['t'] = 'off'
            return [(st, None)]
        if name in self.USE:
            self.c.count('measurements')
            if st.mon['t'] != 'on' and not self.plain(E, st, args[0]):
                E.violation('dead', I, 'the instance waits for a counter that nobody increments', st)
            fn = E.mod.funcs[name]
            return E.summary_call(st, fn, args, I, None if fn.ret.k == 'void' else fn.ret.n if fn.ret.k == 'int' else 64)

    def on_return(self, E, st, fn, ret, I):
        if len(E.stack) == 1:
            self.c.count('returns')
            if st.mon['t'] == 'on':
                E.violation('running', I, 'the call returns while the counting thread is still running', st)


class Tick(Monitor):
    """jent_notime_settick / jent_notime_unsettick"""

    def __init__(self, c, F, H, what):
        self.c, self.F, self.H, self.what = c, F, H, what

    def en(self, E, st):
        return zclass(st, field_get(E, st, RE, self.F, 'enable_notime'))

    def handler(self, E, st):
        return zclass(st, st.mon['_h']) if st.mon.get('_h') else 2

    def tracked(self, E, st):
        return (self.en(E, st), self.handler(E, st))

    def on_load(self, E, st, rid, off, size, val, I):
        if rid[0] == 'G' and size == 8 and st.mon.get('_h') is None:
            st.mon['_h'] = val
            st.mon['_keep'] += (val,)

    def on_call(self, E, st, name, args, I):
        if name is not None:
            return
        p = E.val(st, I.a[0], ir.PTR)
        h = st.mon.get('_h')
        slot = None
        if h is not None:
            rh, oh = E.deref(st, h)
            for f, (b, n, bf, t) in self.H.d.items():
                if E.read(st, rh, oh + b // 8, 8) == p:
                    slot = f
        want = 'jent_notime_start' if self.what == 'start' else 'jent_notime_stop'
        self.c.count('handler calls')
        if self.en(E, st) != 1:
            E.violation('idle', I, 'the handler is called for an instance without internal timer', st)
        if slot != want:
            E.violation('slot', I, 'another function of the timer handler than %s is called' % want, st)
        ctx = field_get(E, st, RE, self.F, 'notime_thread_ctx')
        if args[0] != ctx:
            E.violation('context', I, 'the handler is not given the context of the instance', st)
        intr = field_get(E, st, RE, self.F, 'notime_interrupt')
        if self.what == 'start':
            if not (is_zero(st, intr)):
                E.violation('order', I, 'the thread may be started while its stop mark is set', st)
            if not (is_zero(st, field_get(E, st, RE, self.F, 'notime_timer')) and
                    is_zero(st, field_get(E, st, RE, self.F, 'notime_prev_timer'))):
                E.violation('order', I, 'the thread may be started with a counter and reference that are not both zero', st)
            if len(args) != 3 or args[1][0] != 'F' or args[2] not in (EC, ('p', RE, 0)):
                E.violation('context', I, 'the thread is not given its routine and its instance', st)
            elif args[1][0] == 'F':
                st.mon['_routine'] = args[1][1]
                self.routine = args[1][1]
        else:
            if zclass(st, intr) != 1:
                E.violation('order', I, 'the thread is waited for without having been told to stop', st)
        st.mon['n'] = min(2, st.mon['n'] + 1)
        if self.what == 'start':
            r = E.fresh(st, I, 32, 'rc')
            st.mon['_rc'] = r
            st.mon['_keep'] += (r,)
            return [(st, r)]
        return [(st, None)]

    def on_return(self, E, st, fn, ret, I):
        if len(E.stack) != 1:
            return
        self.c.count('outcomes')
        n = st.mon['n']
        skip = self.en(E, st) == 0 or self.handler(E, st) == 0
        if n != (0 if skip else 1):
            E.violation('once', I, 'the handler is called %s for an instance %s internal timer' % (
                ('not at all', 'once', 'more than once')[n], 'without' if skip else 'with'), st)
        if self.what == 'start':
            if skip and not is_zero(st, ret):
                E.violation('code', I, 'an instance without internal timer is told that the thread could not start', st)
            if not skip and n and ret != st.mon.get('_rc') and not same_sign(st, ret, st.mon.get('_rc')):
                E.violation('code', I, 'the result of starting the thread is lost', st)


def same_sign(st, a, b):
    return b is not None and zclass(st, a) == zclass(st, b) and zclass(st, a) != 2


class Thr(Monitor):
    """the built-in handler on POSIX threads"""

    def __init__(self, c, X, what):
        self.c, self.X, self.what = c, X, what

    def started(self, E, st):
        return zclass(st, field_get(E, st, RC, self.X, 'notime_thread_started'))

    def tracked(self, E, st):
        return (self.started(E, st),)

    def fork(self, E, st, I, k):
        a, b = st.copy(), st
        a.mon[k], b.mon[k] = 'ok', 'fail'
        r = E.fresh(b, I, 32, k)
        b.facts[r] = ((1, 4095),)
        return [(a, C(0, 32)), (b, r)]

    def on_call(self, E, st, name, args, I):
        m = st.mon
        if name == 'pthread_attr_init':
            self.c.count('thread attributes')
            if m['attr'] == 'ok':
                E.violation('leak', I, 'thread attributes are set up twice', st)
            return self.fork(E, st, I, 'attr')
        if name == 'pthread_attr_destroy':
            if m['attr'] != 'ok':
                E.violation('attr', I, 'thread attributes are released that do not exist', st)
            m['attr'] = 'none'
            return [(st, C(0, 32))]
        if name == 'pthread_create':
            self.c.count('threads created')
            if m['attr'] != 'ok' and args[1] != C(0, 64):
                E.violation('attr', I, 'a thread is created with attributes that were not set up', st)
            if args[2] != sym('routine') or args[3] != sym('arg'):
                E.violation('routine', I, 'another routine or argument is handed to the thread', st)
            if args[0] != ('p', RC, self.X.off('notime_thread_id')):
                E.violation('routine', I, 'the thread identity is not kept in the context', st)
            return self.fork(E, st, I, 'thr')
        if name == 'pthread_join':
            self.c.count('threads joined')
            if m['thr'] != 'ok':
                E.violation('join', I, 'a thread may be waited for that was never created', st)
            if args[0] != field_get(E, st, RC, self.X, 'notime_thread_id'):
                E.violation('join', I, 'another thread is waited for', st)
            m['thr'] = 'none'
            return [(st, C(0, 32))]
        if name in ('pthread_cancel', 'pthread_detach'):
            E.violation('join', I, 'the counting thread is not waited for', st)

    def on_return(self, E, st, fn, ret, I):
        if len(E.stack) != 1:
            return
        self.c.count('outcomes')
        m = st.mon
        s = self.started(E, st)
        if self.what == 'create':
            z = zclass(st, ret)
            if z != 1 and m['thr'] != 'ok':
                E.violation('code', I, 'success may be reported although no thread was created', st)
            if z != 0 and m['thr'] == 'ok':
                E.violation('code', I, 'failure may be reported although the thread is running', st)
            if m['thr'] == 'ok' and s != 1:
                E.violation('mark', I, 'a running thread is not marked as started: it will never be waited for', st)
            if m['thr'] != 'ok' and s != 0:
                E.violation('mark', I, 'a thread that does not exist may be marked as started', st)
            if m['thr'] != 'ok' and m['attr'] == 'ok':
                E.violation('leak', I, 'the thread attributes are lost when the thread cannot be created', st)
        else:
            if m['thr'] == 'ok':
                E.violation('join', I, 'a running thread may not be waited for', st)
            if s != 0:
                E.violation('mark', I, 'a thread that was waited for may still be marked as started', st)
            if m['attr'] == 'ok':
                E.violation('leak', I, 'the thread attributes are lost when the thread ended', st)


class Loop(Monitor):
    """the routine of the counting thread"""

    def __init__(self, c, F):
        self.c, self.F = c, F

    def tracked(self, E, st):
        return (st.mon.get('look'),)

    def on_load(self, E, st, rid, off, size, val, I):
        o, n = self.F.bytes('notime_interrupt')
        if rid == RE and isinstance(off, int) and off <= o < off + size:
            self.c.count('looks at the stop mark')
            st.mon['_i'] = dom.bits(val, 8 * (o - off), 8)
            st.mon['_keep'] = (EC, st.mon['_i'])
            st.mon['look'] = 1

    def on_store(self, E, st, rid, off, size, val, I):
        if rid[0] == 'A':
            return
        o, n = self.F.bytes('notime_timer')
        if rid != RE or off != o:
            E.violation('effect', I, 'the counting thread writes something else than its counter', st)
            return
        self.c.count('counter updates')
        i = st.mon.get('_i')
        if st.mon['look'] == 0 and st.mon['wr'] == 1:
            E.violation('deaf', I, 'the counting thread counts again without looking at its stop mark', st)
        if st.mon['look'] == 1 and not is_zero(st, i):
            E.violation('deaf', I, 'the counting thread goes on although its stop mark is set', st)
        if st.mon['look'] == 1:
            st.mon['wr'] = 1
        st.mon['look'] = 0

    def on_return(self, E, st, fn, ret, I):
        if len(E.stack) == 1:
            self.c.count('ends of the thread')
            i = st.mon.get('_i')
            if st.mon['look'] != 1 or i is None or zclass(st, i) != 1:
                E.violation('early', I, 'the counting thread may end without having been told to', st)


def volatile(c, mod, F):
    """accesses to the fields shared with the thread"""
    sh = {f: F.bytes(f) for f in ('notime_timer', 'notime_interrupt')}
    S = Summaries(mod)
    for n in touches(mod, F):
        fn = mod.funcs[n]
        addr = {}
        for b in fn.blocks.values():
            for I in b.ins:
                if I.op == 'getelementptr' and I.a[0].k == 'named' and 'struct.rand_data' in I.a[0].name:
                    ops = I.a[1]
                    try:
                        idx = ops[2][1]
                        if idx[0] != 'c':
                            continue
                        o = mod.field_off(mod.resolve(I.a[0]), idx[1])
                    except (IndexError, TypeError):
                        continue
                    for f, (fo, fs) in sh.items():
                        if o == fo:
                            addr[I.res] = f
        for b in fn.blocks.values():
            for I in b.ins:
                if I.op in ('load', 'store'):
                    p = I.a[0] if I.op == 'load' else I.a[2]
                    if p[0] == 'r' and p[1] in addr:
                        vol = I.a[1] if I.op == 'load' else I.a[3]
                        order = I.a[2] if I.op == 'load' else I.a[4]
                        c.count('accesses to shared fields')
                        if not vol and not order:
                            f, l, _ = mod.loc(I.dbg)
                            c.violation('volatile', f, l, n, '%s is shared with the counting thread, but this access may be '
                                        'cached or dropped by the compiler' % addr[p[1]])


def check(c):
    c.rule('jent_read_entropy and jent_time_entropy_init (the allocation: see C24): time stamps are taken only between a successful '
           'start of the counting thread and its stop; every return is preceded by the stop or by the release')
    c.rule('start: stop mark, counter and reference are zero before the handler is called, once, with the context, routine '
           'and instance; its result is passed on. stop: the stop mark is set before the handler waits')
    c.rule('built-in handler: created / started mark / joined are in step, attributes are released on every path')
    c.rule('the routine writes nothing but its counter, looks at the stop mark before every further step and ends exactly '
           'when it is set; every access to a field shared with the thread is volatile or atomic')
    mod = build.build_user('default')
    F = Fields(mod)
    H = Fields(mod, 'jent_notime_thread')
    X = Fields(mod, 'jent_notime_ctx')
    for f, a in (('jent_read_entropy', None), ('jent_time_entropy_init', None)):
        fn = mod.funcs[f]
        args = [sym('a%d' % i, t.n if t.k == 'int' else 64) for i, (t, r) in enumerate(fn.params)]
        mon = Pair(c, F)
        names = Pair.USE + ('jent_zalloc', 'jent_notime_settick', 'jent_notime_unsettick', 'jent_entropy_collector_free')
        pol = Policy(mod, calls=names, never=Pair.USE[1:] + (
            'jent_zalloc', 'jent_zfree', 'jent_sha3_alloc', 'jent_notime_enable', 'jent_gcd_analyze', 'jent_health_failure'),
            small=20)
        E = Engine(mod, mon, opts=dict(skip=pol))
        st = State()
        st.mon['_keep'] = tuple(args)
        st.mon['t'] = 'off'
        E.run(f, args, st)
        c.absorb(E)
    routine = None
    for f, what in (('jent_notime_settick', 'start'), ('jent_notime_unsettick', 'stop')):
        mon = Tick(c, F, H, what)
        E = Engine(mod, mon, opts=dict(skip=Policy(mod, small=60)))
        st = State()
        st.facts[EC] = BIG
        st.mon.update(_keep=(EC,), n=0)
        E.run(f, [EC], st)
        c.absorb(E)
        routine = getattr(mon, 'routine', routine)
    c.need('handler calls', 2)
    if c.viol:
        return
    if routine is None or routine not in mod.funcs:
        raise AnalysisError('the routine of the counting thread was not found')
    for f, what in (('jent_notime_thread_create', 'create'), ('jent_notime_thread_join', 'join')):
        for run in ((0,) if what == 'create' else (0, 1)):
            mon = Thr(c, X, what)
            E = Engine(mod, mon, opts=dict(skip=Policy(mod, small=60)))
            st = State()
            st.facts[CTX] = BIG
            st.mon.update(_keep=(CTX, sym('routine'), sym('arg')), attr='ok' if run else 'none', thr='ok' if run else 'none')
            E.region(st, RC)
            E.write(st, RC, X.off('notime_thread_started'), 4, C(run, 32))
            E.run(f, [CTX, sym('routine'), sym('arg')][:len(mod.funcs[f].params)], st)
            c.absorb(E)
    mon = Loop(c, F)
    pol = Policy(mod, small=60, never=('jent_thread_pin_to_cpu',))
    E = Engine(mod, mon, opts=dict(skip=pol))
    o, n = F.bytes('notime_interrupt')
    E.volatile = lambda rid, off, size: rid == RE and off == o
    st = State()
    st.facts[EC] = BIG
    st.mon.update(_keep=(EC,), look=0, wr=0)
    E.run(routine, [EC], st)
    c.absorb(E)
    volatile(c, mod, F)
    c.borrow('C24', 'timer')
    c.need('counter updates', 1)
    c.need('accesses to shared fields', 6)
    c.need('threads created', 1)
    c.need('threads joined', 1)
