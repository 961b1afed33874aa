"""C24: an allocation hands out only a started, judged and identified instance, and loses none on the way"""
from sa import build
from sa.lib import *
from .c03 import M64

OFF = 1 << 20           # ghost word behind the instance
LIVE, COLL, UUID, TICK = 1, 2, 4, 8


class Alloc(Monitor):
    def __init__(self, c, F, mod):
        self.c, self.F, self.mod = c, F, mod

    def stat(self, E, st, rid):
        return E.read(st, rid, OFF, 8)[1]

    def put(self, E, st, rid, v):
        E.write(st, rid, OFF, 8, C(v, 64))

    def insts(self, E, st):
        return [rid for rid, r in st.mem.items() if rid[0] == 'D' and OFF in r.cells]

    def tracked(self, E, st):
        return tuple(sorted((repr(r[1]), self.stat(E, st, r), zclass(st, field_get(E, st, r, self.F, 'is_fips_enabled')),
                             zclass(st, field_get(E, st, r, self.F, 'health_failure')))
                            for r in self.insts(E, st)))

    def inst(self, E, st, p, I, what):
        """the instance p points to; None when it is not one"""
        if is_zero(st, p):
            return None
        rid, off = E.deref(st, p)
        if rid is None or rid not in st.mem or OFF not in st.mem[rid].cells:
            E.violation('unknown', I, '%s something that is not a new instance' % what, st)
            return None
        if not self.stat(E, st, rid) & LIVE:
            E.violation('released', I, '%s an instance that was released before' % what, st)
            return None
        return rid

    def on_call(self, E, st, name, args, I):
        if name == 'jent_zalloc':
            n = args[0]
            a = st.copy()
            p = E.fresh(st, I, 64, 'obj')
            st.facts[p] = ((4096, M64 - (1 << 24)),)
            E.ptrphi.add(p)
            if n == C(self.F.size, dom.width(n)):
                self.c.count('instances allocated')
                for r in self.insts(E, st):
                    # objects released before are of no interest any more
                    if not self.stat(E, st, r) & LIVE:
                        st.mem.pop(r)
                st.mem[('D', p)] = Region('zero', None)
                st.owned.add(('D', p))
                self.put(E, st, ('D', p), LIVE)
            return [(a, C(0, 64)), (st, p)]
        if name == 'jent_entropy_collector_free':
            self.c.count('releases')
            r = self.inst(E, st, args[0], I, 'the allocation releases')
            if r is not None:
                self.put(E, st, r, 0)
            return [(st, None)]
        if name == 'jent_notime_settick':
            r = self.inst(E, st, args[0], I, 'the timer is started for')
            a = st.copy()
            if r is not None:
                self.put(E, st, r, self.stat(E, st, r) | TICK)
            f = E.fresh(a, I, 32, 'tick')
            a.facts[f] = ((1, (1 << 32) - 1),)
            return [(a, f), (st, C(0, 32))]
        if name == 'jent_notime_unsettick':
            r = self.inst(E, st, args[0], I, 'the timer is stopped for')
            if r is not None:
                self.put(E, st, r, self.stat(E, st, r) & ~TICK)
            return [(st, None)]
        if name == 'jent_random_data':
            self.c.count('collections during start-up')
            r = self.inst(E, st, args[0], I, 'noise is collected for')
            if r is not None:
                s = self.stat(E, st, r)
                if not s & TICK:
                    E.violation('timer', I, 'noise is collected although the timer of the instance was not started', st)
                self.put(E, st, r, s | COLL)
                fips = field_get(E, st, r, self.F, 'is_fips_enabled')
                for f in ('health_failure',):
                    E.havoc(st, r, *self.F.bytes(f), I, 'hf')
                o, n = self.F.bytes('startup_state')
                E.write(st, r, o, n, C(0, 8 * n))
            return [(st, None)]
        if name == 'jent_uuid_generate':
            rid, off = E.deref(st, args[0])
            if rid is not None and rid in st.mem and OFF in st.mem[rid].cells and off == self.F.off('uuid'):
                self.put(E, st, rid, self.stat(E, st, rid) | UUID)
            return [(st, None)]
        if name == 'jent_notime_enable':
            # the enforced mode is not touched (C04)
            return [(st, E.fresh(st, I, 32, 'timer'))]
        if name == 'jent_entropy_init_ex':
            return [(st, E.fresh(st, I, 32, 'init'))]

    def on_return(self, E, st, fn, ret, I):
        if len(E.stack) != 1:
            return
        self.c.count('returns of the allocation')
        keep = None
        if not is_zero(st, ret):
            if zclass(st, ret) != 1:
                E.violation('unknown', I, 'the allocation returns something that is not a new instance', st)
                return
            keep = self.inst(E, st, ret, I, 'the allocation returns')
            if keep is not None:
                self.c.count('instances handed out')
                s = self.stat(E, st, keep)
                F = self.F
                if not s & COLL:
                    E.violation('collected', I, 'an instance is handed out that never collected noise', st)
                if not s & UUID:
                    E.violation('uuid', I, 'an instance is handed out without an identifier', st)
                if s & TICK:
                    E.violation('timer', I, 'an instance is handed out with its timer running', st)
                if not is_zero(st, field_get(E, st, keep, F, 'startup_state')):
                    E.violation('startup', I, 'an instance is handed out before its start-up is completed', st)
                if not is_zero(st, field_get(E, st, keep, F, 'is_fips_enabled')) and \
                        not is_zero(st, field_get(E, st, keep, F, 'health_failure')):
                    E.violation('failed', I, 'an instance that enforces the health tests is handed out with a health '
                                'failure from its start-up', st)
        for r in self.insts(E, st):
            if r != keep and self.stat(E, st, r) & LIVE:
                E.violation('leak', I, 'an instance is neither handed out nor released', st)


def check(c):
    c.rule('jent_entropy_collector_alloc for every argument, every outcome of memory allocations, timer start, start-up '
           'tests and noise collection, any number of start-up repetitions: the state of the instance handed out and '
           'of all instances created on the way is examined at every return')
    c.assume('the noise collection completes the start-up stages (decided by C07)')
    mods = {cfg: build.build_user(cfg) for cfg in ('default', 'notimer')}
    pmap(c, list(mods), lambda c, cfg: one(c, mods[cfg]))
    for w in ('instances allocated', 'collections during start-up', 'instances handed out', 'releases'):
        c.need(w, 2)


def one(c, mod):
    F = Fields(mod)
    mon = Alloc(c, F, mod)
    names = ('jent_zalloc', 'jent_entropy_collector_free', 'jent_notime_settick', 'jent_notime_unsettick',
             'jent_random_data', 'jent_uuid_generate', 'jent_entropy_init_ex', 'jent_notime_enable')
    fields = [F.bytes(f) for f in ('startup_state', 'is_fips_enabled', 'health_failure')]
    pol = Policy(mod, calls=names, never=('jent_sha3_alloc', 'jent_time_entropy_init',
                                          'jent_notime_disable', 'jent_health_init'), small=20,
                 tracked=lambda E, st: [(r, o, n) for r in mon.insts(E, st) for o, n in fields])
    E = Engine(mod, mon, opts=dict(skip=pol))
    E.bitunits = F.bitfields()
    st = State()
    args = [sym('osr', 32), sym('flags', 32)]
    st.mon['_keep'] = tuple(args)
    E.run('jent_entropy_collector_alloc', args, st)
    c.absorb(E)
