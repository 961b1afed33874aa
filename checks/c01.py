"""C01 output gate."""
from sa import build
from sa.lib import *


class Gate(Monitor):
    def __init__(self, c, F, EC, OUT):
        self.c, self.F, self.EC, self.OUT = c, F, EC, OUT
        self.st_off, self.st_sz = F.bytes('selftest_failed')

    def tracked(self, E, st):
        F, EC = self.F, self.EC
        return (zclass(st, field_get(E, st, EC, F, 'health_failure')),
                zclass(st, field_get(E, st, EC, F, 'is_fips_enabled')),
                zclass(st, field_get(E, st, EC, F, 'selftest_failed')))

    def tick(self, st):
        st.mon['fresh'] = 1

    def on_call(self, E, st, name, args, I):
        if name in TIMER_CALLS or name in self.may:
            self.tick(st)

    def on_asm(self, E, st, asm, args, I):
        if any(a in asm[0] for a in TIMER_ASM):
            self.tick(st)

    def on_load(self, E, st, rid, off, size, val, I):
        if rid == self.EC and isinstance(off, int):
            fs = self.F.at(off, size)
            if 'selftest_failed' in fs:
                st.mon['looked'] = 1
            if 'notime_timer' in fs:
                self.tick(st)

    def on_store(self, E, st, rid, off, size, val, I):
        if rid == self.OUT:
            self.emit(E, st, I)

    def on_write(self, E, st, rid, off, n, I, src):
        if rid == self.OUT:
            self.emit(E, st, I)

    def emit(self, E, st, I):
        self.c.count('writes into the caller buffer')
        F, EC = self.F, self.EC
        h = field_get(E, st, EC, F, 'health_failure')
        f = field_get(E, st, EC, F, 'is_fips_enabled')
        t = field_get(E, st, EC, F, 'selftest_failed')
        if not is_zero(st, h) and not is_zero(st, f):
            E.violation('health-gate', I, 'random bytes are written to the caller although the health state of the '
                        'instance is not known to be clean (and FIPS mode is not known to be off)', st)
        if not st.mon.get('looked'):
            E.violation('selftest-gate', I, 'random bytes are written without looking at the self-test mark since '
                        'the previous block', st)
        elif not is_zero(st, t):
            E.violation('selftest-gate', I, 'random bytes are written although the self-test mark may be set', st)
        if not st.mon.get('fresh'):
            E.violation('fresh-gate', I, 'random bytes are written without any time stamp having been collected '
                        'since the previous block', st)
        st.mon['looked'] = 0
        st.mon['fresh'] = 0


def check(c):
    for cfg in ('default', 'notimer'):
        mod = build.build_user(cfg)
        F = Fields(mod)
        ec, data, ln = sym('ec'), sym('data'), sym('len')
        EC, OUT = ('D', ec), ('D', data)
        mon = Gate(c, F, EC, OUT)
        tr = [(EC,) + F.bytes(f) for f in ('health_failure', 'is_fips_enabled', 'selftest_failed')]
        pol = Policy(mod, writes=False, tracked=lambda E, st: tr + [(OUT, None, None)])
        mon.may = may_reach(mod, pol.S)
        E = Engine(mod, mon, opts=dict(skip=pol))
        E.bitrids = {EC}
        E.bitunits = F.bitfields()
        so, ss = F.bytes('selftest_failed')
        E.volatile = lambda rid, off, size: rid == EC and off < so + ss and so < off + size
        st = State()
        st.mon = {'fresh': 0, 'looked': 0}
        E.run('jent_read_entropy', [ec, data, ln], st)
        c.absorb(E)
        c.need('writes into the caller buffer')
