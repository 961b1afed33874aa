"""C08: no instance without passed self tests"""
import math
from sa import build
from sa.lib import *
from .rd import GH
from .c03 import M64

TESTS = ('jent_sha3_tester', 'jent_gcd_selftest', 'jent_time_entropy_init')
TEXT = {'jent_sha3_tester': 'known-answer test of the conditioner', 'jent_gcd_selftest': 'test of the divisor search',
        'jent_time_entropy_init': 'start-up test of the time source'}
MARK = 'jent_selftest_run'


def fork(E, st, I, key, w=32):
    a, b = st.copy(), st
    a.mon[key], b.mon[key] = 'pass', 'fail'
    r = E.fresh(b, I, w, key)
    b.facts[r] = ((1, (1 << w) - 1),)
    return [(a, C(0, w)), (b, r)]


class Init(Monitor):
    """results of the tests of this initialisation"""

    def __init__(self, c):
        self.c = c

    def tracked(self, E, st):
        return (zclass(st, E.read(st, ('G', MARK), 0, 4)),)

    def on_call(self, E, st, name, args, I):
        if name in TESTS:
            self.c.count('tests run')
            return fork(E, st, I, name)

    def missing(self, st):
        return [TEXT[t] for t in TESTS if st.mon.get(t) != 'pass']

    def on_store(self, E, st, rid, off, size, val, I):
        if rid == ('G', MARK):
            self.c.count('stores to the mark')
            st.mon['stored'] = True
            if zclass(st, val) != 0 and self.missing(st):
                E.violation('mark', I, 'the self tests may be marked as passed without: ' + ', '.join(self.missing(st)), st)

    def on_return(self, E, st, fn, ret, I):
        if len(E.stack) != 1:
            return
        self.c.count('returns of an initialisation')
        z = zclass(st, ret)
        m = zclass(st, E.read(st, ('G', MARK), 0, 4))
        if z != 1 and self.missing(st):
            E.violation('success', I, 'the initialisation may succeed without: ' + ', '.join(self.missing(st)), st)
        if z != 0 and not self.missing(st):
            # contradictory options may still be refused
            pass
        if z != 0 and (m != 0 or not st.mon.get('stored')):
            E.violation('unmark', I, 'an initialisation that fails may leave the self tests marked as passed', st)
        if z != 1 and (m != 1 or not st.mon.get('stored')):
            E.violation('success', I, 'an initialisation that succeeds may not mark the self tests as passed', st)


class Gate(Monitor):
    """an allocation: has the mark been found set or an initialisation succeeded"""

    def __init__(self, c):
        self.c = c

    def marks(self, st):
        return st.mon.get('_marks', ())

    def open(self, st):
        return st.mon.get('init') == 'pass' or any(zclass(st, m) == 1 for m in self.marks(st))

    def tracked(self, E, st):
        return (self.open(st), tuple(zclass(st, m) for m in self.marks(st)))

    def on_call(self, E, st, name, args, I):
        if name == 'jent_entropy_init_ex' or name == 'jent_entropy_init':
            self.c.count('initialisations by an allocation')
            if st.mon.get('init') == 'pass':
                # a further initialisation for the replacement: its verdict is C17's
                r = E.fresh(st, I, 32, 'again')
                return [(st, r)]
            return fork(E, st, I, 'init')
        if name == 'jent_random_data':
            self.c.count('uses of a new instance')
            if not self.open(st):
                E.violation('gate', I, 'an instance is put to work without passed self tests', st)
            return None

    def on_load(self, E, st, rid, off, size, val, I):
        if rid == ('G', MARK) and val[0] != 'c' and len(self.marks(st)) < 4 and not self.open(st):
            st.mon['_marks'] = self.marks(st) + (val,)
            st.mon['_keep'] = st.mon.get('_keep', ()) + (val,)

    def on_return(self, E, st, fn, ret, I):
        if len(E.stack) != 1 or is_zero(st, ret):
            return
        self.c.count('instances handed out')
        if not self.open(st):
            E.violation('gate', I, 'an instance is handed out without passed self tests', st)


def check(c):
    c.rule('jent_entropy_init and jent_entropy_init_ex for every argument and every verdict of the three self tests: the '
           'process-wide mark is set only after all of them passed, and a failing initialisation always ends with the '
           'mark cleared; success is only returned when all passed')
    c.rule('jent_entropy_collector_alloc: no instance is used or handed out unless the mark was read as set or an '
           'initialisation run by the allocation returned success')
    jobs = []
    mods = {cfg: build.build_user(cfg) for cfg in ('default', 'notimer')}
    for cfg in mods:
        jobs += [(cfg, f) for f in ('jent_entropy_init', 'jent_entropy_init_ex', 'jent_entropy_collector_alloc')]
    pmap(c, jobs, lambda c, j: one(c, mods[j[0]], j[1]))
    c.need('returns of an initialisation', 4)
    c.need('instances handed out', 2)
    c.need('stores to the mark', 4)
    c.rule('jent_gcd_selftest reports success only if the analysis of its test deltas gave their true common divisor')
    divisor(c, mods['default'])
    c.borrow('C09', 'verdict')


class Divisor(Monitor):
    def __init__(self, c):
        self.c = c

    def on_call(self, E, st, name, args, I):
        if name == 'jent_zalloc':
            a, p = st.copy(), E.fresh(st, I, 64, 'obj')
            st.facts[p] = ((1 << 16, (1 << 64) - (1 << 20)),)
            st.mem[('D', p)] = Region('zero', None)
            return [(a, C(0, 64)), (st, p)]
        if name == 'jent_gcd_analyze_internal':
            g, a = E.fresh(st, I, 64, 'divisor'), None
            args = [E.val(st, x, t) for t, x in I.a[1]]
            a = st.copy()
            rid, off = E.deref(st, args[0])
            n = rng(st, args[1])
            want = None
            if rid is not None and isinstance(off, int) and n[0][0] == n[-1][1] and n[0][0] <= 64:
                vs = [rng(st, E.read(st, rid, off + 8 * i, 8)) for i in range(n[0][0])]
                if all(v[0][0] == v[-1][1] for v in vs):
                    want = math.gcd(*[v[0][0] for v in vs])
            for p, v in ((args[2], g), (args[3], E.fresh(st, I, 64, 'sum'))):
                r, o = E.deref(st, p)
                E.write(st, r, o, 8, v)
            st.mon['_keep'] += (g,)
            st.mon['got'] = want if want is not None else -1
            st.mon['_g'] = g
            a.mon['got'] = None
            return [(a, C(-11 & 0xffffffff, 32)), (st, C(0, 32))]

    def on_return(self, E, st, fn, ret, I):
        if len(E.stack) != 1:
            return
        self.c.count('ends of the divisor self test')
        if zclass(st, ret) == 1:
            return
        if st.mon['got'] is None:
            E.violation('divisor', I, 'the self test of the divisor search passes without an analysis', st)
        elif st.mon['got'] >= 0 and rng(st, st.mon['_g']) != ((st.mon['got'],) * 2,):
            E.violation('divisor', I, 'the self test of the divisor search passes although another divisor than %d may have '
                        'been found' % st.mon['got'], st)


def divisor(c, mod):
    f = mod.funcs.get('jent_gcd_analyze_internal')
    if f is None or len(f.params) != 4 or 'jent_gcd_selftest' not in mod.funcs:
        c.assume('the analysis of the deltas was restructured: the divisor self test is not judged')
        return
    E = Engine(mod, Divisor(c), opts=dict(skip=Policy(mod, calls=('jent_zalloc', 'jent_gcd_analyze_internal'), small=200,
                                                      never=('jent_zalloc', 'jent_zfree'))))
    st = State()
    st.mon.update(got=None, _g=None, _keep=(sym('flags', 32),))
    E.run('jent_gcd_selftest', [sym('flags', 32)], st)
    c.absorb(E)


def one(c, mod, f):
    if MARK not in mod.globals:
        raise AnalysisError('anchor: %s is gone' % MARK)
    fn = mod.funcs[f]
    args = [sym('a%d' % i, t.n if t.k == 'int' else 64) for i, (t, r) in enumerate(fn.params)]
    st = State()
    st.mon['_keep'] = tuple(args)
    if f == 'jent_entropy_collector_alloc':
        mon = Gate(c)
        pol = Policy(mod, calls=('jent_entropy_init_ex', 'jent_entropy_init', 'jent_random_data'), reads=True,
                     tracked=lambda E, st: [(('G', MARK), 0, 4)], small=20,
                     never=('jent_random_data', 'jent_time_entropy_init', 'jent_zalloc', 'jent_zfree', 'jent_sha3_alloc',
                            'jent_entropy_collector_free', 'jent_notime_enable', 'jent_notime_disable'))
        E = Engine(mod, mon, opts=dict(skip=pol))
        E.volatile = lambda rid, off, size: rid == ('G', MARK)
    else:
        mon = Init(c)
        st.mon.update({t: None for t in TESTS}, stored=False)
        pol = Policy(mod, calls=TESTS, tracked=lambda E, st: [(('G', MARK), 0, 4)], never=TESTS)
        E = Engine(mod, mon, opts=dict(skip=pol))
    E.run(f, args, st)
    c.absorb(E)
