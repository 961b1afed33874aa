"""C07: every block rests on enough accepted measurements of the right noise source"""
from sa import build
from sa.lib import *
from sa.absint import narrow
from .rd import eqv, GH

SRC = ('jent_measure_jitter_ntg1_memaccess', 'jent_measure_jitter_ntg1_sha3', 'jent_measure_jitter')
MEMORY, SHA3, DONE = 2, 1, 0
W = (16, 32, 64)


def slot(k, w):
    return 64 * k + w // 2


def down(k, w):
    return 64 * k + (44 if w == 32 else 48)


def need(osr, fips):
    return (256 + (65 if fips else 0)) * osr


class Coll(Monitor):
    def __init__(self, c, F, EC, osr, fips, state, fp):
        self.c, self.F, self.EC, self.osr, self.fips, self.state, self.fp = c, F, EC, osr, fips, state, fp
        self.req = need(osr, fips)

    def tracked(self, E, st):
        F, EC = self.F, self.EC
        return (zclass(st, field_get(E, st, EC, F, 'health_failure')),
                cclass(st, field_get(E, st, EC, F, 'startup_state')), st.mon['prime'])

    def on_call(self, E, st, name, args, I):
        if name in SRC:
            self.c.count('measurement call sites visited')
            if args[0] != self.ec:
                E.violation('instance', I, 'the measurement is taken for another instance', st)
            if args[1] != C(0, 64):
                E.violation('loops', I, 'the measurement is not taken with the configured loop counts', st)
            k = SRC.index(name)
            F, EC = self.F, self.EC
            hf = field_get(E, st, EC, F, 'health_failure')
            for f in self.fp:
                if f in ('startup_state', 'osr', 'flags', 'is_fips_enabled', 'mem', 'hash_state'):
                    continue
                o, n = F.bytes(f)
                if f in ('health_failure', 'rct_mem_nosr'):
                    continue
                E.havoc(st, EC, o, n, I, f)
            narrow(st, field_get(E, st, EC, F, 'is_fips_enabled'), ((self.fips, self.fips),))
            o, n = F.bytes('rct_mem_nosr')
            v = E.fresh(st, I, n * 8, 'nosr')
            st.facts[v] = ((self.req, (1 << (8 * n)) - 1),)
            E.write(st, EC, o, n, v)
            o, n = F.bytes('health_failure')
            v = E.fresh(st, I, n * 8, 'hf')
            E.write(st, EC, o, n, v)
            if zclass(st, hf) == 1:
                st.facts[v] = ((1, (1 << (8 * n)) - 1),)
            s2 = st.copy()
            # accepted
            if name == 'jent_measure_jitter' and not s2.mon['prime']:
                s2.mon['prime'] = st.mon['prime'] = 1
            else:
                for w in W:
                    x = E.read(s2, GH, slot(k, w), w // 8)
                    E.write(s2, GH, slot(k, w), w // 8, dom.binop('add', x, C(1, w), w))
                    if w > 16:
                        # the same count downwards, for loops that count down
                        x = E.read(s2, GH, down(k, w), w // 8)
                        E.write(s2, GH, down(k, w), w // 8, dom.binop('sub', x, C(1, w), w))
            r = E.fresh(st, I, 32, 'rej')
            st.facts[r] = ((1, (1 << 32) - 1),)
            return [(s2, C(0, 32)), (st, r)]

    def on_store(self, E, st, rid, off, size, val, I):
        F = self.F
        if rid != self.EC or not isinstance(off, int):
            return
        fs = F.at(off, size)
        if 'rct_mem_nosr' in fs:
            self.c.count('window sizes')
            o, n = F.bytes('rct_mem_nosr')
            if off != o or size != n or rng(st, val)[0][0] < self.req:
                E.violation('window', I, 'the number of measurements per block may be below %d (oversampling rate %d)' %
                            (self.req, self.osr), st)
        for f in ('osr', 'is_fips_enabled', 'flags'):
            if f in fs and not F.d[f][2]:
                E.violation('config', I, 'the collection changes %s' % f, st)

    def on_return(self, E, st, fn, ret, I):
        if fn.name != 'jent_random_data' or len(E.stack) != 1:
            return
        F, EC = self.F, self.EC
        self.c.count('ends of a collection')
        ss = field_get(E, st, EC, F, 'startup_state')
        if not is_zero(st, ss):
            E.violation('startup', I, 'the start-up is not completed after the collection', st)
        hf = field_get(E, st, EC, F, 'health_failure')
        if self.fips and zclass(st, hf) == 1:
            self.c.count('ends with a health failure')
            return
        for k in {MEMORY: (0, 1), SHA3: (1,), DONE: (2,)}[self.state]:
            ok = False
            for w in W:
                ok = ok or rng(st, E.read(st, GH, slot(k, w), w // 8))[0][0] >= self.req
                if w > 16:
                    r = rng(st, E.read(st, GH, down(k, w), w // 8))
                    ok = ok or (r[-1][1] <= (1 << w) - self.req and r[0][0] > 0)
            if not ok:
                E.violation('samples', I, 'the collection may end without a health failure and with fewer than %d accepted '
                            'measurements by %s (oversampling rate %d, %s)' % (
                                self.req, SRC[k], self.osr, 'enforced' if self.fips else 'not enforced'), st)


def footprint(mod, F):
    """fields of the instance the measurement functions may write"""
    from sa.summary import Summaries
    S = Summaries(mod)
    E = Engine(mod, Monitor())
    E.cstack, E.curctx, E.stack = [], 0, []
    st = State()
    p = sym('fp')
    out = set()
    for n in SRC:
        w, anyw = S.effects(E, st, S.w, mod.funcs[n], [p, sym('a'), C(0, 64)])
        for r, o, s in w:
            if r == ('D', p):
                out |= set(F.d) if o is None else set(F.at(o, s))
    return out


def one(c, mod, fp, osr, fips, state):
    F = Fields(mod)
    ec = sym('ec')
    EC = ('D', ec)
    mon = Coll(c, F, EC, osr, fips, state, fp)
    mon.ec = ec
    pol = Policy(mod, calls=SRC, writes=True, small=60,
                 tracked=lambda E, st: [(EC,) + F.bytes(f) for f in ('health_failure', 'startup_state', 'rct_mem_nosr')])
    E = Engine(mod, mon, opts=dict(skip=pol))
    E.bitrids = {EC}
    E.bitunits = F.bitfields()
    st = State()
    st.facts[ec] = ((4096, (1 << 64) - 4097),)
    g = Region('zero', 192)
    for k in range(3):
        for w in W:
            g.cells[slot(k, w)] = (w // 8, C(0, w))
            if w > 16:
                g.cells[down(k, w)] = (w // 8, C(0, w))
    st.mem[GH] = g
    st.mon['_keep'] = (ec,)
    st.mon['prime'] = 0
    E.cstack, E.curctx, E.stack = [], 0, []
    for f, v in (('osr', osr), ('startup_state', state)):
        o, n = F.bytes(f)
        E.write(st, EC, o, n, C(v, 8 * n))
    # one bit of the instance: whether the health tests are enforced
    v = field_get(E, st, EC, F, 'is_fips_enabled')
    narrow(st, v, ((fips, fips),))
    E.run('jent_random_data', [ec], st)
    c.absorb(E)


def check(c):
    c.rule('jent_random_data for every oversampling rate 1..20, both modes and all start-up states, every sequence of '
           'accepted and rejected measurements: at the end a health failure is latched (enforced mode) or the noise '
           'source(s) of that state delivered at least (256 + 65 in enforced mode) * osr accepted measurements, the '
           'priming measurement not counted; the start-up state ends as completed')
    c.assume('a measurement leaves oversampling rate, mode and start-up state as they are (decided in C06 and C04)')
    mods = {}
    for cfg in ('default', 'notimer'):
        m = build.build_user(cfg)
        mods[cfg] = m, footprint(m, Fields(m))
    osrs = range(1, 21)
    jobs = [(cfg, o, f, s) for cfg in mods for o in osrs for f in (0, 1) for s in (MEMORY, SHA3, DONE)
            if cfg == 'default' or o in (1, 20)]
    pmap(c, jobs, lambda c, j: one(c, *mods[j[0]], *j[1:]))
    c.need('ends of a collection', 100)
    c.need('ends with a health failure', 40)
    c.need('window sizes', 100)
    # what counts as accepted is what the measurement functions return
    c.borrow('C05', 'verdict')
