"""C22: the internal timer is used only where it was asked for or is the last resort, and never against the caller's will"""
from sa import build
from sa.lib import *
from .c03 import M64
from .c14 import Acc, uses

FORCE, DIS, NTG1, SEC = 3, 4, 6, 8
EC = sym('ec')
RE = ('D', EC)
BIG = ((1 << 16, (1 << 64) - (1 << 20)),)
NZ = ((1, (1 << 32) - 1),)
COMBO = [(f, d, n) for f in (0, 1) for d in (0, 1) for n in (0, 1)]


def word(f, d, n):
    s = sym('flags', 32)
    return dom.cat(((dom.bits(s, 0, 3), 3), (C(f, 1), 1), (C(d, 1), 1), (dom.bits(s, 5, 1), 1), (C(n, 1), 1),
                    (dom.bits(s, 7, 25), 25)))


def desc(f, d, n):
    return ', '.join(x for x, b in (('internal timer forced', f), ('internal timer disabled', d), ('NTG.1', n)) if b) or \
        'no timer option'


def fork(E, st, I, k, tag):
    """a callee that succeeds or fails"""
    a = st.copy()
    a.mon[k], st.mon[k] = 'ok', 'fail'
    r = E.fresh(st, I, 32, tag)
    st.facts[r] = NZ
    st.mon['_keep'] += (r,)
    return [(a, C(0, 32)), (st, r)]


class Ladder(Monitor):
    """jent_entropy_init / jent_entropy_init_ex"""

    def __init__(self, c, f, d, n, flags, osr, timer):
        self.c, self.f, self.d, self.n, self.flags, self.osr, self.timer = c, f, d, n, flags, osr, timer
        self.txt = desc(f, d, n)

    def on_call(self, E, st, name, args, I):
        if name in ('jent_sha3_tester', 'jent_gcd_selftest'):
            return fork(E, st, I, 'pre:' + name, 'pre')
        if name != 'jent_time_entropy_init':
            return
        m = st.mon
        self.c.count('start-up tests')
        fl = args[1]
        force, dis = dom.bits(fl, FORCE, 1), dom.bits(fl, DIS, 1)
        if args[0] != self.osr:
            E.violation('osr', I, '%s: the start-up test runs with another oversampling rate than requested' % self.txt, st)
        for lo, k in ((0, 3), (5, 3), (9, 23)):
            if dom.bits(fl, lo, k) != dom.bits(self.flags, lo, k):
                E.violation('flags', I, '%s: the start-up test runs with other options than requested' % self.txt, st)
                break
        zf, zd = cclass(st, force), cclass(st, dis)
        if zf not in (0, 1):
            E.violation('kind', I, '%s: which timer is tested is not determined by the request' % self.txt, st)
            zf = 1
        if zf:
            self.c.count('tests of the internal timer')
            if self.d or self.n or not self.timer:
                E.violation('forbidden', I, '%s: the internal timer is tried' % self.txt, st)
            if not self.f and m['clock'] != 'fail':
                E.violation('early', I, '%s: the internal timer is tried before the hardware timer failed' % self.txt, st)
            if zd != 0:
                E.violation('kind', I, '%s: the internal timer is tested while disabled' % self.txt, st)
            return fork(E, st, I, 'int', 'int')
        if self.f:
            E.violation('kind', I, '%s: the hardware timer is tested although the internal one was asked for' % self.txt, st)
        if zd != 1:
            E.violation('kind', I, '%s: the hardware timer is tested with the internal one enabled' % self.txt, st)
        return fork(E, st, I, 'clock', 'clock')

    def on_return(self, E, st, fn, ret, I):
        if len(E.stack) != 1:
            return
        m = st.mon
        self.c.count('initialisation outcomes')
        z = zclass(st, ret)
        pre = 'fail' in (m.get('pre:jent_sha3_tester'), m.get('pre:jent_gcd_selftest'))
        good = not pre and 'ok' in (m['clock'], m['int'])
        if z != 0 and good:
            E.violation('verdict', I, '%s: failure may be reported although a timer passed' % self.txt, st)
        if z != 1 and not good:
            E.violation('verdict', I, '%s: success may be reported although no timer passed' % self.txt, st)
        if not good and not pre and not self.d and not self.n and self.timer and m['int'] == 'none':
            E.violation('fallback', I, '%s: the internal timer is not tried although it is allowed' % self.txt, st)
        if not good and not pre and not self.f and m['clock'] == 'none':
            E.violation('fallback', I, '%s: the hardware timer is not tried' % self.txt, st)


class Inst(Monitor):
    """an instance gets the internal timer: jent_time_entropy_init and jent_entropy_collector_alloc"""

    def __init__(self, c, F, f, d, n, forced, G, test):
        self.c, self.F, self.f, self.d, self.n, self.forced, self.G, self.test = c, F, f, d, n, forced, G, test
        self.txt = desc(f, d, n) + (', internal timer in use by the process' if forced else '')

    def now(self, E, st):
        return cclass(st, E.read(st, ('G', self.G), 0, 4)) if self.G else 0

    def tracked(self, E, st):
        return (self.now(E, st),)

    def on_store(self, E, st, rid, off, size, val, I):
        if self.G and rid == ('G', self.G):
            self.c.count('switches to the internal timer')
            if not self.f or not self.test:
                E.violation('forced', I, '%s: the whole process is switched to the internal timer' % self.txt, st)
            if zclass(st, val) != 1:
                E.violation('one-way', I, '%s: the switch to the internal timer is taken back' % self.txt, st)

    def on_call(self, E, st, name, args, I):
        m = st.mon
        if name == 'jent_zalloc':
            a = st.copy()
            p = E.fresh(st, I, 64, 'obj')
            st.facts[p] = BIG
            E.ptrphi.add(p)
            st.mem[('D', p)] = Region('zero', None)
            st.owned.add(('D', p))
            if args[0] == C(self.F.size, 64):
                m['enable'] = 'none'
            return [(a, C(0, 64)), (st, p)]
        if name == 'jent_entropy_init_ex':
            return fork(E, st, I, 'init', 'init')
        if name == 'jent_notime_enable':
            self.c.count('instances with the internal timer')
            if self.d or self.n:
                E.violation('forbidden', I, '%s: an instance gets the internal timer' % self.txt, st)
            if self.test and not self.f:
                E.violation('forbidden', I, '%s: the test of the hardware timer uses the internal one' % self.txt, st)
            for b in (FORCE, DIS):
                if cclass(st, dom.bits(args[1], b, 1)) != (self.f if b == FORCE else 0):
                    E.violation('flags', I, '%s: the timer is set up with other options than requested' % self.txt, st)
            return fork(E, st, I, 'enable', 'en')
        if name in ('jent_random_data', 'jent_measure_jitter', 'jent_measure_jitter_ntg1_memaccess',
                    'jent_measure_jitter_ntg1_sha3'):
            self.c.count('uses of an instance')
            off = self.d or self.n or (self.test and not self.f)
            if off and self.forced:
                E.violation('mixed', I, '%s: an instance works with the hardware timer the process gave up' % self.txt, st)
            if self.f and self.d:
                E.violation('conflict', I, '%s: an instance works in spite of contradictory options' % self.txt, st)
            if not off and m['enable'] != 'ok' and self.G:
                E.violation('timer', I, '%s: an instance works without its timer having been set up' % self.txt, st)
            return [(st, None if name == 'jent_random_data' else E.fresh(st, I, 32, 'stuck'))] if self.test else []


class Enable(Monitor):
    """jent_notime_enable"""

    def __init__(self, c, F, f, forced):
        self.c, self.F, self.f, self.forced = c, F, f, forced
        self.txt = desc(f, 0, 0) + (', internal timer in use by the process' if forced else '')

    def tracked(self, E, st):
        return (zclass(st, field_get(E, st, RE, self.F, 'enable_notime')), zclass(st, field_get(E, st, RE, self.F, 'notime_thread_ctx')))

    def on_call(self, E, st, name, args, I):
        if name == 'jent_time_entropy_init':
            self.c.count('tests on the way')
            if not self.f:
                E.violation('forbidden', I, '%s: the internal timer is tested' % self.txt, st)
            if cclass(st, dom.bits(args[1], FORCE, 1)) != 1:
                E.violation('kind', I, '%s: another timer is tested than the instance will use' % self.txt, st)
            if args[0] != field_get(E, st, RE, self.F, 'osr'):
                E.violation('osr', I, '%s: the timer is tested for another rate than the instance will use' % self.txt, st)
            return fork(E, st, I, 'test', 'test')
        if name == 'jent_zalloc':
            a = st.copy()
            p = E.fresh(st, I, 64, 'obj')
            st.facts[p] = BIG
            a.mon['ctx'], st.mon['ctx'] = 'fail', 'ok'
            return [(a, C(0, 64)), (st, p)]
        if name in ('jent_ncpu', 'jent_cpu_highest'):
            # a small number, or a negative error code
            r = E.fresh(st, I, 64, 'cpu')
            st.facts[r] = ((0, 1 << 20), (M64 - 4095, M64 - 1))
            return [(st, r)]
        if name is None:
            self.c.count('handler set up')
            return fork(E, st, I, 'ctx', 'ctx')

    def on_return(self, E, st, fn, ret, I):
        if len(E.stack) != 1:
            return
        m = st.mon
        self.c.count('outcomes of enabling')
        en = zclass(st, field_get(E, st, RE, self.F, 'enable_notime'))
        want = self.f or self.forced
        z = zclass(st, ret)
        if not want:
            if en != 0 or m['ctx'] != 'none':
                E.violation('unasked', I, '%s: the instance gets the internal timer' % self.txt, st)
            if z != 0:
                E.violation('verdict', I, '%s: an instance with the hardware timer fails' % self.txt, st)
            return
        if z != 1:
            if en != 1:
                E.violation('ignored', I, '%s: success may be reported without the internal timer' % self.txt, st)
            if m['test'] == 'fail' or (not self.forced and m['test'] != 'ok'):
                E.violation('untested', I, '%s: the internal timer is used without having passed its test' % self.txt, st)
            if m['ctx'] == 'fail' or (m['ctx'] == 'none' and m['h'] != 0):
                E.violation('handler', I, '%s: success may be reported although the timer thread could not be set up' % self.txt, st)


class Stamp(Monitor):
    """jent_get_nstime_internal"""

    def __init__(self, c, F, en):
        self.c, self.F, self.en = c, F, en

    def on_call(self, E, st, name, args, I):
        if name == 'jent_get_nstime':
            self.c.count('hardware time stamps')
            if self.en:
                E.violation('mixed', I, 'an instance with the internal timer takes a hardware time stamp', st)
            rid, off = E.deref(st, args[0])
            v = E.fresh(st, I, 64, 'hw')
            E.write(st, rid, off, 8, v)
            st.mon['_v'] = (v,)
            return [(st, None)]

    def join_private(self, k, a, b):
        return () if k == '_seen' else Monitor.join_private(self, k, a, b)

    def settle(self, st):
        for x in st.mon['_seen']:
            if truth(st, 'eq', x, st.mon['_prev']) is False:
                st.mon['moved'] = 1

    def on_load(self, E, st, rid, off, size, val, I):
        if rid == RE and off == self.F.off('notime_timer'):
            self.c.count('looks at the counter')
            if not self.en:
                E.violation('mixed', I, 'an instance with the hardware timer reads the counter', st)
            self.settle(st)
            st.mon['_seen'] = st.mon['_seen'][-3:] + (val,)

    def on_store(self, E, st, rid, off, size, val, I):
        if rid == ('D', sym('out')) and self.en:
            if val not in st.mon['_seen']:
                E.violation('value', I, 'the time stamp is not a value of the counter', st)

    def on_return(self, E, st, fn, ret, I):
        if len(E.stack) != 1:
            return
        self.c.count('time stamps')
        v = E.read(st, ('D', sym('out')), 0, 8)
        if not self.en:
            if not st.mon['_v'] or (v,) != st.mon['_v']:
                E.violation('value', I, 'the time stamp of the hardware timer is not handed on', st)
            return
        self.settle(st)
        if field_get(E, st, RE, self.F, 'notime_prev_timer') != v:
            E.violation('reference', I, 'the value handed out is not remembered: the next one may be the same', st)
        if not st.mon['moved']:
            E.violation('ticked', I, 'a time stamp is handed out although the counter may not have moved since the last one', st)


from sa.absint import truth


def forcing(c, mod, g):
    """the mark of the process is set on the way of a start-up test only"""
    A = Acc(mod)
    w = {n for n, r in uses(mod, A, g).items() if any(k in ('w', 'rw', 'esc') for k, o, i in r)}
    S = Summaries(mod)
    callers, taken = call_sites(mod)
    todo, seen = list(w), set()
    pub = api(mod)
    while todo:
        n = todo.pop()
        if n in seen or n == 'jent_time_entropy_init':
            continue
        seen.add(n)
        c.count('functions that may switch the process')
        if n in pub or n in taken:
            c.violation('forced', mod.funcs[n].file if hasattr(mod.funcs[n], 'file') else 'src/jitterentropy-timer.c', 0, n,
                        'the process can be switched to the internal timer without a test of it')
        todo += callers.get(n, ())
    G = mod.globals[g]
    if not w:
        raise AnalysisError('nothing writes the mark of the internal timer')


def mark(mod):
    """the variable behind jent_notime_forced"""
    out = set()
    fn = mod.funcs.get('jent_notime_forced')
    if fn is None:
        raise AnalysisError('jent_notime_forced not found')

    def gs(v):
        if isinstance(v, tuple):
            if len(v) == 2 and v[0] == 'g':
                if v[1] in mod.globals and not mod.globals[v[1]].const:
                    out.add(v[1])
            else:
                for x in v:
                    gs(x)
        elif isinstance(v, list):
            for x in v:
                gs(x)
    for b in fn.blocks.values():
        for I in b.ins:
            gs(list(I.a))
    if len(out) != 1:
        raise AnalysisError('the mark of the internal timer was not found')
    return out.pop()


NEVER = ('jent_zfree', 'jent_sha3_alloc', 'jent_sha3_dealloc', 'jent_notime_disable', 'jent_shake256_init', 'jent_gcd_get',
         'jent_gcd_init', 'jent_gcd_fini', 'jent_gcd_analyze', 'jent_cache_size_roundup', 'jent_health_init', 'jent_health_failure',
         'jent_health_failure_reset', 'jent_notime_settick', 'jent_notime_unsettick', 'jent_uuid_generate', 'jent_fips_enabled',
         'jent_entropy_collector_free')


def ladder(c, mod, f, d, n, timer, entry):
    fl = word(f, d, n) if entry == 'jent_entropy_init_ex' else C(0, 32)
    osr = sym('osr', 32) if entry == 'jent_entropy_init_ex' else C(0, 32)
    mon = Ladder(c, f, d, n, fl, osr, timer)
    pol = Policy(mod, calls=('jent_sha3_tester', 'jent_gcd_selftest', 'jent_time_entropy_init'), small=60)
    E = Engine(mod, mon, opts=dict(skip=pol))
    st = State()
    st.mon.update(_keep=(sym('flags', 32), sym('osr', 32)), clock='none', int='none')
    E.run(entry, [osr, fl] if entry == 'jent_entropy_init_ex' else [], st)
    c.absorb(E)


def inst(c, mod, F, g, f, d, n, forced, entry):
    fl = word(f, d, n)
    mon = Inst(c, F, f, d, n, forced, g, entry == 'jent_time_entropy_init')
    calls = ('jent_zalloc', 'jent_entropy_init_ex', 'jent_notime_enable', 'jent_random_data', 'jent_measure_jitter',
             'jent_measure_jitter_ntg1_memaccess', 'jent_measure_jitter_ntg1_sha3')
    pol = Policy(mod, calls=calls, never=NEVER, small=60, tracked=(lambda E, st: [(('G', g), 0, 4)]) if g else None)
    E = Engine(mod, mon, opts=dict(skip=pol))
    st = State()
    st.mon.update(_keep=(sym('flags', 32), sym('osr', 32)), enable='none', init='none')
    E.cstack, E.curctx, E.stack = [], 0, []
    if g:
        E.region(st, ('G', g))
        E.write(st, ('G', g), 0, 4, C(forced, 32))
    E.run(entry, [sym('osr', 32), fl], st)
    c.absorb(E)


def enable(c, mod, F, g, f, forced):
    s = sym('flags', 32)
    fl = dom.cat(((dom.bits(s, 0, 3), 3), (C(f, 1), 1), (dom.bits(s, 4, 28), 28)))
    mon = Enable(c, F, f, forced)
    pol = Policy(mod, calls=('jent_zalloc', 'jent_ncpu', 'jent_cpu_highest', 'jent_time_entropy_init'), small=80)
    E = Engine(mod, mon, opts=dict(skip=pol))
    st = State()
    st.facts[EC] = BIG
    st.mon.update(_keep=(EC, s), test='none', ctx='none', h=2)
    E.cstack, E.curctx, E.stack = [], 0, []
    E.region(st, ('G', g))
    E.write(st, ('G', g), 0, 4, C(forced, 32))
    E.region(st, RE)
    field_put(E, st, RE, F, 'enable_notime', 0)
    # the handler is never absent: C15
    for x in mod.globals.values():
        if x.name == 'notime_thread':
            h = sym('handler')
            st.facts[h] = BIG
            E.region(st, ('G', x.name))
            E.write(st, ('G', x.name), 0, 8, h)
            st.mon['_keep'] += (h,)
    E.run('jent_notime_enable', [EC, fl], st)
    c.absorb(E)


def stamp(c, mod, F, en):
    out = sym('out')
    mon = Stamp(c, F, en)
    pol = Policy(mod, calls=('jent_get_nstime',), small=60, never=('jent_yield',))
    E = Engine(mod, mon, opts=dict(skip=pol))
    o, n = F.bytes('notime_timer')
    E.volatile = lambda rid, off, size: rid == RE and off == o
    st = State()
    st.facts[EC] = BIG
    st.facts[out] = BIG
    E.cstack, E.curctx, E.stack = [], 0, []
    E.region(st, RE)
    E.region(st, ('D', out))
    field_put(E, st, RE, F, 'enable_notime', en)
    prev = field_get(E, st, RE, F, 'notime_prev_timer')
    st.mon.update(_prev=prev, _keep=(EC, out, prev), _seen=(), _v=(), moved=0)
    E.run('jent_get_nstime_internal', [EC, out], st)
    c.absorb(E)


def check(c):
    c.rule('both initialisations, every combination of the three timer options: the hardware timer is tested unless the '
           'internal one is forced, the internal one only if it is forced or the hardware timer failed, and never if it is '
           'disabled or NTG.1 is asked for; rate and options reach the test unchanged, the verdict is that of the tests')
    c.rule('start-up test and allocation, every combination of the options and of the mark of the process: an instance gets '
           'the internal timer only without the options that forbid it; instances that may not use it are refused once the '
           'process uses it; contradictory options are refused')
    c.rule('the mark of the process is set only by a start-up test of the internal timer and never taken back; an instance '
           'uses the internal timer exactly if it asked for it or the mark is set, after the test passed')
    c.rule('a time stamp comes from the one timer the instance uses, and from the counter only after it moved')
    mods = {k: build.build_user(k) for k in ('default', 'notimer')}
    jobs = []
    for cfg, mod in mods.items():
        t = cfg == 'default'
        jobs.append((cfg, 'ladder', (0, 0, 0, t, 'jent_entropy_init')))
        for f, d, n in COMBO:
            jobs.append((cfg, 'ladder', (f, d, n, t, 'jent_entropy_init_ex')))
        for f, d, n in COMBO:
            for forced in (0, 1) if t else (0,):
                for e in ('jent_time_entropy_init', 'jent_entropy_collector_alloc'):
                    jobs.append((cfg, 'inst', (f, d, n, forced, e)))
    for f in (0, 1):
        for forced in (0, 1):
            jobs.append(('default', 'enable', (f, forced)))
    for en in (0, 1):
        jobs.append(('default', 'stamp', (en,)))
    jobs.append(('default', 'forcing', ()))
    G = mark(mods['default'])

    def run(c, j):
        cfg, k, a = j
        mod = mods[cfg]
        g = G if cfg == 'default' else None
        F = Fields(mod)
        if k == 'ladder':
            ladder(c, mod, *a)
        elif k == 'inst':
            inst(c, mod, F, g, *a)
        elif k == 'enable':
            enable(c, mod, F, g, *a)
        elif k == 'stamp':
            stamp(c, mod, F, *a)
        else:
            forcing(c, mod, G)
    # spread the small jobs over few processes
    groups = [jobs[i::8] for i in range(8)]
    pmap(c, groups, lambda c, js: [run(c, j) for j in js])
    c.need('start-up tests', 12)
    c.need('uses of an instance', 8)
    c.need('outcomes of enabling', 8)
    c.need('time stamps', 2)
