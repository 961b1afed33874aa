"""C17: what survives the replacement of a collector after a health failure"""
from sa import build
from sa.lib import *
from .rd import eqv, GH
from .c04 import sup
from .c03 import ALLOC, RETRY, M64

KEEP = ('uuid', 'read_invocations', 'bytes_output', 'selftest_failed', 'max_mem_set')
LAG = ('lag_prediction_success_run', 'lag_prediction_success_count', 'lag_best_predictor', 'lag_observations',
       'lag_scoreboard', 'lag_delta_history')
MEM_BITS, HASH_BITS = (27, 5), (24, 3)
IOSR, IFLG, IRES = 0, 8, 16
USE = ('jent_read_entropy', 'jent_random_data')


class Repl(Monitor):
    """old: the collector in use, new: the one allocated for it"""

    def __init__(self, c, F, k, startup):
        self.c, self.F, self.k, self.startup = c, F, k, startup

    def s(self, E, st, o, v):
        E.write(st, GH, o, 8, v)

    def g(self, E, st, o):
        return E.read(st, GH, o, 8)

    def tracked(self, E, st):
        o = st.mon.get('_old')
        mm = None
        if o is not None:
            mm = (zclass(st, field_get(E, st, ('D', o), self.F, 'max_mem_set')),
                  zclass(st, field_get(E, st, ('D', o), self.F, 'apt_observations')),
                  zclass(st, field_get(E, st, ('D', o), self.F, 'is_fips_enabled')))
        return (mm, st.mon['n'], st.mon.get('fail'), st.mon.get('_old'), st.mon.get('_new'), zclass(st, self.g(E, st, IRES)))

    def newec(self, E, st, I, tag):
        n = E.fresh(st, I, 64, tag)
        st.facts[n] = ((4096, M64 - 4096),)
        E.ptrphi.add(n)
        return n

    def seed_old(self, E, st, p):
        """a collector in use: its oversampling rate was established by the allocation"""
        o, n = self.F.bytes('osr')
        E.write(st, ('D', p), o, n, C(self.k, 8 * n))
        st.mon['_old'] = p

    def on_call(self, E, st, name, args, I):
        if name in USE:
            p = args[0]
            if st.mon['n'] == 0:
                if not self.startup:
                    self.seed_old(E, st, p)
                st.mon['n'] = 1
                if self.startup:
                    for f in ('health_failure', 'startup_state'):
                        E.havoc(st, ('D', p), *self.F.bytes(f))
                    return [(st, None)]
                out = []
                for k in RETRY:
                    s = st.copy()
                    s.mon['fail'] = k
                    out.append((s, C(k % M64, 64)))
                return out
            # the collector that is used from now on
            if p != st.mon['_old']:
                self.compare(E, st, p, I)
            return []
        if name == 'jent_entropy_init_ex':
            r = E.fresh(st, I, 32, 'init')
            self.s(E, st, IOSR, dom.zext(args[0], 64))
            self.s(E, st, IFLG, dom.zext(args[1], 64))
            self.s(E, st, IRES, dom.zext(r, 64))
            return [(st, r)]
        if name in ALLOC and not (self.startup and name in ALLOC[:2]):
            if '_old' not in st.mon:
                p = self.newec(E, st, I, 'old')
                self.seed_old(E, st, p)
                st.mon['_keep'] = (p,)
                return [(st, p)]
            self.c.count('reallocations')
            self.args(E, st, args, I)
            a = st.copy()
            p = self.newec(E, st, I, 'new')
            st.mon['_new'] = p
            return [(a, C(0, 64)), (st, p)]
        if name == 'jent_entropy_collector_free':
            return [(st, None)]

    def args(self, E, st, args, I):
        F = self.F
        osr, flags = args[0], args[1]
        lo, hi = dom.hull(rng(st, osr))
        if lo <= self.k:
            E.violation('osr', I, 'the replacement may be allocated with an oversampling rate that is not above the '
                        'one that failed (%d)' % self.k, st)
        if hi > 20:
            E.violation('osr', I, 'the replacement may be allocated with an oversampling rate above the maximum', st)
        if not (self.g(E, st, IOSR) == dom.zext(osr, 64) and self.g(E, st, IFLG) == dom.zext(flags, 64)
                and is_zero(st, self.g(E, st, IRES))):
            E.violation('startup-test', I, 'the replacement is allocated without the start-up test having passed for '
                        'the same oversampling rate and flags', st)
        old = ('D', st.mon['_old'])
        of = E.read(st, old, F.off('flags'), 4)
        if not eqv(st, dom.bits(flags, 0, 24), dom.bits(of, 0, 24)):
            E.violation('flags', I, 'the replacement is allocated with other option flags', st)
        mm = field_get(E, st, old, F, 'max_mem_set')
        if not is_zero(st, mm):
            if not eqv(st, dom.bits(flags, *MEM_BITS), dom.bits(of, *MEM_BITS)):
                E.violation('mem-cap', I, 'the memory size may be changed although the caller has capped it', st)

    def compare(self, E, st, p, I):
        self.c.count('continuations on the replacement')
        F = self.F
        n, o = ('D', p), ('D', st.mon['_old'])
        if p != st.mon.get('_new'):
            E.violation('handle', I, 'the read continues on an unknown collector', st)
            return
        for f in KEEP + LAG:
            if f not in F.d:
                if f in LAG:
                    continue
            b, w = F.bits(f)
            for i in range(b, b + w, 64):
                x = min(64, b + w - i)
                self.c.count('carried-over units')
                if not eqv(st, bit_get(E, st, n, i, x), bit_get(E, st, o, i, x)):
                    E.violation('carry-' + f, I, '%s of the replacement differs from the replaced collector' % f, st)
                    break
        a = field_get(E, st, n, F, 'reinit_count')
        if not eqv(st, dom.lsub(a, field_get(E, st, o, F, 'reinit_count')), C(1, dom.width(a))):
            E.violation('carry-reinit_count', I, 'the reallocation is not counted', st)
        fo, fn = (field_get(E, st, x, F, 'is_fips_enabled') for x in (o, n))
        if not is_zero(st, fo) and zclass(st, fn) != 1 and not sup(st, fn, fo):
            E.violation('carry-mode', I, 'the replacement of a collector that enforces the health tests may not enforce '
                        'them', st)
        # a streak that made the old collector fail has to go on counting
        if not eqv(st, dom.zext(field_get(E, st, n, F, 'rct_count'), 64),
                   dom.zext(field_get(E, st, n, F, 'rct_cutoff'), 64)):
            E.violation('carry-rct', I, 'the repetition count of the replacement does not start at the intermittent '
                        'cutoff', st)
        ao = field_get(E, st, o, F, 'apt_observations')
        if not is_zero(st, ao):
            s2 = st.copy()
            from sa.absint import narrow
            narrow(s2, ao, ((1, (1 << dom.width(ao)) - 1),))
            for f in ('apt_observations', 'apt_base'):
                if not eqv(s2, field_get(E, s2, n, F, f), field_get(E, s2, o, F, f)):
                    E.violation('carry-apt', I, 'the adaptive proportion test of the replacement does not continue '
                                'the window of the old collector (%s)' % f, st)


def bit_get(E, st, rid, b, n):
    reg = E.region(st, rid)
    for co, (cs, v) in reg.cells.items():
        if co * 8 <= b and b + n <= (co + cs) * 8:
            return dom.bits(v, b - co * 8, n)
    o = b // 8
    s = (b + n + 7) // 8 - o
    return dom.bits(E.read(st, rid, o, s), b - o * 8, n)


def check(c):
    c.rule('every reallocation in jent_read_entropy_safe and during the start-up of jent_entropy_collector_alloc, for '
           'every oversampling rate 1..20 of the failed collector and every content of old and new collector: the '
           'arguments of the allocation and the fields of the new collector when it is used first are compared with '
           'the old collector')
    c.assume('the start-up test and the allocation are arbitrary: any verdict, any content')
    mods = {cfg: build.build_user(cfg) for cfg in ('default', 'notimer')}
    jobs = [(cfg, startup, k) for cfg in mods for startup in (0, 1) for k in range(1, 21)]
    pmap(c, jobs, lambda c, j: one(c, mods[j[0]], j[1], j[2]))
    c.need('reallocations', 30)
    c.need('continuations on the replacement', 30)


def one(c, mod, startup, k):
    F = Fields(mod)
    mon = Repl(c, F, k, startup)
    pol = Policy(mod, calls=USE + ('jent_entropy_init_ex', 'jent_entropy_collector_free') + ALLOC,
                 writes=True, small=160,
                 tracked=lambda E, st: [(('D', st.mon[x]), None, None) for x in ('_new',) if x in st.mon])
    E = Engine(mod, mon, opts=dict(skip=pol))
    st = State()
    g = Region('zero', 32)
    for o in (IOSR, IFLG, IRES):
        g.cells[o] = (8, C(0, 64))
    st.mem[GH] = g
    st.mon['n'] = 0
    if startup:
        E.run('jent_entropy_collector_alloc', [sym('osr', 32), sym('flags', 32)], st)
    else:
        ecp, data, ln = sym('ecp'), sym('data'), sym('len')
        st.mon['_keep'] = (ecp, data, ln)
        E.run('jent_read_entropy_safe', [ecp, data, ln], st)
    c.absorb(E)
