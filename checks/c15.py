"""C15: configuration is accepted only before the first initialisation, completely or not at all"""
from sa import build
from sa.lib import *
from .c14 import Acc, uses, entries

EAGAIN, EINVAL = 11, 22
TESTS = ('jent_sha3_tester', 'jent_gcd_selftest', 'jent_time_entropy_init', 'jent_zalloc', 'jent_sha3_alloc')
SETTERS = ('jent_entropy_switch_notime_impl', 'jent_entropy_set_notime_cpu', 'jent_set_fips_failure_callback')
CBS = 4


def neg(n):
    return C((1 << 32) - n, 32)


class Setter(Monitor):
    """loaded: windows looked at; stored: configuration changed"""

    def __init__(self, c, what, mod):
        self.c, self.what, self.mod = c, what, mod
        self.flags = set()
        self.cfg = set()

    def tracked(self, E, st):
        return (tuple(zclass(st, v) for v in st.mon.get('_fl', ())), st.mon.get('st'),
                tuple(zclass(st, v) for v in self.parts(E, st)))

    def parts(self, E, st):
        """what a complete handler consists of"""
        if self.what != SETTERS[0]:
            return ()
        a = sym('a0')
        if zclass(st, a) != 1:
            return (a,)
        return (a,) + tuple(E.read(st, ('D', a), 8 * i, 8) for i in range(CBS))

    def on_load(self, E, st, rid, off, size, val, I):
        if rid[0] != 'G' or self.mod.globals[rid[1]].const or size != 4 or val is None or val[0] == 'c':
            return
        self.flags.add(rid[1])
        if len(st.mon.get('_fl', ())) < 4:
            st.mon['_fl'] = st.mon.get('_fl', ()) + (val,)
            st.mon['_keep'] = st.mon.get('_keep', ()) + (val,)

    def on_store(self, E, st, rid, off, size, val, I):
        if rid[0] != 'G':
            return
        self.c.count('configuration stores')
        self.cfg.add(rid[1])
        fl = st.mon.get('_fl', ())
        st.mon['st'] = tuple(sorted(set(st.mon.get('st') or ()) | {rid[1]}))
        if not any(zclass(st, v) == 0 for v in fl) or any(zclass(st, v) == 1 for v in fl):
            E.violation('late', I, '%s can be changed although the configuration window is closed' % rid[1], st)
        if self.what == SETTERS[0]:
            if not all(zclass(st, v) == 1 for v in self.parts(E, st)) or len(self.parts(E, st)) != CBS + 1:
                E.violation('incomplete', I, 'a timer handler with a missing function can be installed', st)

    def on_return(self, E, st, fn, ret, I):
        if len(E.stack) != 1:
            return
        self.c.count('outcomes of a configuration call')
        done = st.mon.get('st') or ()
        z = zclass(st, ret)
        fl = [zclass(st, v) for v in st.mon.get('_fl', ())]
        if z != 0 and done:
            E.violation('partial', I, 'a refused configuration call has changed %s' % done[0], st)
        if z != 1:
            if not done:
                E.violation('dropped', I, 'the configuration call reports success without storing the setting', st)
            vals = [E.read(st, ('G', g), 0, self.mod.size(self.mod.globals[g].ty)) for g in done]
            if done and sym('a0') not in vals:
                E.violation('value', I, 'the configuration call reports success but stores another value', st)
        if (not fl or 1 in fl) and not (z == 1 and cclass(st, ret) == neg(EAGAIN)[1]):
            E.violation('code', I, 'a call after the window was closed may not be answered with -EAGAIN', st)
        if z != 0 and fl and 1 not in fl:
            p = [zclass(st, v) for v in self.parts(E, st)]
            if 0 not in p or cclass(st, ret) != neg(EINVAL)[1]:
                E.violation('code', I, 'a complete setting is refused while the window is open', st)


class Close(Monitor):
    def __init__(self, c, flags):
        self.c, self.flags = c, flags

    def tracked(self, E, st):
        return tuple(zclass(st, E.read(st, ('G', g), 0, 4)) for g in self.flags)

    def open(self, E, st):
        return [g for g in self.flags if zclass(st, E.read(st, ('G', g), 0, 4)) != 1]

    def on_call(self, E, st, name, args, I):
        if name in TESTS:
            self.c.count('work of an initialisation')
            for g in self.open(E, st):
                E.violation('open', I, 'the initialisation starts working while %s still allows changes' % g, st)
            r = E.fresh(st, I, 32 if name not in TESTS[3:] else 64, name)
            return [(st, r)]

    def on_return(self, E, st, fn, ret, I):
        if len(E.stack) == 1:
            self.c.count('outcomes of an initialisation')
            if zclass(st, ret) != 1:
                for g in self.open(E, st):
                    E.violation('open', I, 'the initialisation succeeds while %s still allows changes' % g, st)


class OneWay(Monitor):
    def __init__(self, c, g):
        self.c, self.g = c, g

    def on_store(self, E, st, rid, off, size, val, I):
        if rid == ('G', self.g):
            self.c.count('stores to a one-way mark')
            if zclass(st, val) != 1:
                E.violation('reopen', I, '%s can be taken back' % self.g, st)

    def on_write(self, E, st, rid, off, n, I, src):
        if rid == ('G', self.g) and src[0] != 'havoc':
            E.violation('reopen', I, '%s can be taken back' % self.g, st)


class Notify(Monitor):
    """reporting of a failure to the registered callback"""

    def __init__(self, c, F, ec):
        self.c, self.F, self.ec = c, F, ec

    def tracked(self, E, st):
        return (st.mon.get('n'), tuple(zclass(st, v) for v in st.mon.get('_cb', ())),
                zclass(st, field_get(E, st, ('D', self.ec), self.F, 'is_fips_enabled')),
                zclass(st, field_get(E, st, ('D', self.ec), self.F, 'health_failure')))

    def on_load(self, E, st, rid, off, size, val, I):
        if rid[0] == 'G' and size == 8 and len(st.mon.get('_cb', ())) < 3:
            st.mon['_cb'] = st.mon.get('_cb', ()) + (val,)
            st.mon['_keep'] = st.mon['_keep'] + (val,)

    def on_call(self, E, st, name, args, I):
        if name is None and I.a[0] is not None:
            p = E.val(st, I.a[0], ir.PTR)
            if p not in st.mon.get('_cb', ()):
                return
            self.c.count('notifications')
            st.mon['n'] = min(2, st.mon.get('n', 0) + 1)
            hf = field_get(E, st, ('D', self.ec), self.F, 'health_failure')
            en = field_get(E, st, ('D', self.ec), self.F, 'is_fips_enabled')
            if zclass(st, hf) != 1 or zclass(st, en) != 1:
                E.violation('spurious', I, 'the failure callback may be called without a failure of an enforcing instance',
                            st)
            if len(args) != 2 or args[0] != self.ec or args[1] != hf:
                E.violation('callback', I, 'the failure callback is not given the instance and its failure bits', st)
            return [(st, C(0, 32))]

    def on_return(self, E, st, fn, ret, I):
        if len(E.stack) != 1:
            return
        self.c.count('verdicts')
        hf = field_get(E, st, ('D', self.ec), self.F, 'health_failure')
        en = field_get(E, st, ('D', self.ec), self.F, 'is_fips_enabled')
        n = st.mon.get('n', 0)
        cb = [zclass(st, v) for v in st.mon.get('_cb', ())]
        if n > 1:
            E.violation('twice', I, 'one failure is reported to the callback more than once', st)
        if zclass(st, ret) != 0 and n == 0 and 0 not in cb:
            E.violation('silent', I, 'a failure verdict is returned without the registered callback having been told', st)
        if zclass(st, en) != 0 and zclass(st, hf) != 0 and ret != hf:
            E.violation('verdict', I, 'an enforcing instance with latched failures gets another verdict', st)


def args_of(mod, n):
    return [sym('a%d' % i, t.n if t.k == 'int' else 64) for i, (t, r) in enumerate(mod.funcs[n].params)]


def check(c):
    c.rule('the three configuration calls: a setting is stored only on paths on which the window was found open (atomic load '
           'equal to zero) and, for a timer handler, handler and all four functions were found non-null; success exactly '
           'when it was stored, -EAGAIN exactly when the window was closed, and a refused call stores nothing')
    c.rule('an initialisation has closed every window a configuration call looks at before it starts any test or '
           'allocation; every store to a window or to the forced-timer decision is non-zero')
    c.rule('the failure callback is called exactly once per failure verdict of an enforcing instance, with that instance '
           'and its failure bits')
    for cfg in ('default', 'notimer'):
        mod = build.build_user(cfg)
        flags = set()
        for s in SETTERS:
            if cfg == 'notimer' and s != SETTERS[2]:
                continue
            if s not in mod.funcs:
                raise AnalysisError('anchor: %s is gone' % s)
            mon = Setter(c, s, mod)
            E = Engine(mod, mon, opts=dict(skip=Policy(mod, small=60)))
            E.volatile = lambda rid, off, size: rid[0] == 'G' and size == 4 and not mod.globals[rid[1]].const
            st = State()
            a = args_of(mod, s)
            st.mon['_keep'] = tuple(a)
            st.mon['st'] = ()
            E.run(s, a, st)
            c.absorb(E)
            flags |= mon.flags - mon.cfg
        if not flags:
            raise AnalysisError('no configuration window found')
        c.count('configuration windows', len(flags))
        for s in ('jent_entropy_init', 'jent_entropy_init_ex'):
            mon = Close(c, sorted(flags))
            pol = Policy(mod, calls=TESTS, tracked=lambda E, st: [(('G', g), 0, 4) for g in flags], never=TESTS)
            E = Engine(mod, mon, opts=dict(skip=pol))
            st = State()
            a = args_of(mod, s)
            st.mon['_keep'] = tuple(a)
            E.run(s, a, st)
            c.absorb(E)
        A = Acc(mod)
        one = set(flags) | ({'jent_force_internal_timer'} & set(mod.globals))
        for g in sorted(one):
            us = uses(mod, A, g)
            wr = [n for n, l in us.items() if any(x[0] in ('w', 'rw', 'esc') for x in l)]
            for n, l in us.items():
                for x in l:
                    if x[0] == 'esc':
                        f, ln, _ = mod.loc(x[2].dbg)
                        c.violation('reopen', f, ln, n, 'the address of %s leaves the code that can be followed' % g)
            for n in sorted(entries(mod, wr)):
                E = Engine(mod, OneWay(c, g), opts=dict(skip=Policy(mod, calls=set(wr), small=30)))
                st = State()
                a = args_of(mod, n)
                st.mon['_keep'] = tuple(a)
                E.run(n, a, st)
                c.absorb(E)
        F = Fields(mod)
        ec = sym('a0')
        mon = Notify(c, F, ec)
        E = Engine(mod, mon, opts=dict(skip=Policy(mod, small=60)))
        st = State()
        st.facts[ec] = ((4096, (1 << 64) - 65537),)
        st.mon['_keep'] = (ec,)
        st.mon['n'] = 0
        E.run('jent_health_failure', [ec], st)
        c.absorb(E)
    c.need('configuration stores', 4)
    c.need('stores to a one-way mark', 3)
    c.need('work of an initialisation', 4)
    c.need('notifications', 2)
