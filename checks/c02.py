"""C02: every failed read is reported with the documented code of its cause"""
from .rd import *


class Codes(Read):
    def start(self, E, st):
        st.mon['coll'] = 0

    def on_call(self, E, st, name, args, I):
        if name in self.may:
            st.mon['coll'] = 1

    def tracked(self, E, st):
        return Read.tracked(self, E, st) + (zclass(st, self.ec), zclass(st, self.data), zclass(st, self.len))

    def returned(self, E, st, ret, I):
        F, EC = self.F, self.EC
        ecr, dr, lr = rng(st, self.ec), rng(st, self.data), rng(st, self.len)
        r = rng(st, ret)
        neg = [x for x in r if x[1] > SSIZE_MAX]
        hf = field_get(E, st, EC, F, 'health_failure')
        fips = field_get(E, st, EC, F, 'is_fips_enabled')
        stf = field_get(E, st, EC, F, 'selftest_failed')
        if neg and not (len(r) == 1 and r[0][0] == r[0][1]):
            E.violation('single-code', I, 'jent_read_entropy may return a negative value that is not one documented '
                        'error code on this path', st)
            return
        code = dom.sgn(r[0][0], 64) if neg else 0
        if ecr == ((0, 0),) or (dr == ((0, 0),) and lr[0][0] > 0):
            if code != -1:
                E.violation('misuse', I, 'a missing instance or buffer is not reported as -1 (got %s)' % code, st)
            self.codes.add(code)
            return
        if code == -1:
            E.violation('misuse', I, '-1 is returned although instance and buffer may be valid', st)
        elif code == -4:
            if st.mon['coll']:
                E.violation('notime', I, '-4 (timer not available) is returned after entropy was collected', st)
        elif code == -11:
            if rng(st, stf)[0][0] == 0:
                E.violation('selftest-code', I, '-11 is returned although the self-test mark need not be set', st)
        elif code < 0:
            if rng(st, fips)[0][0] == 0:
                E.violation('health-code', I, 'a health failure code is returned outside FIPS mode', st)
            for m in masks(st, hf):
                if m & 0xf000f and expected(m) != code:
                    E.violation('health-code', I, 'with the failure mask 0x%x the code %d is returned, documented '
                                'is %d' % (m, code, expected(m)), st)
                    break
                if m & 0xf000f == 0 and rng(st, hf)[0][0] == 0:
                    E.violation('health-code', I, 'the code %d is returned although no health failure is recorded'
                                % code, st)
                    break
            self.c.count('failure masks examined', len(masks(st, hf)))
        self.codes.add(code)


def check(c):
    c.rule('value analysis of jent_read_entropy over all instance states: each returned code is compared with the '
           'failure mask, self-test mark and argument facts that hold on that path')
    for cfg in ('default', 'notimer'):
        Codes.codes = set()
        mod = build.build_user(cfg)
        Codes.may = may_reach(mod, Summaries(mod))
        run(c, cfg, Codes)
        c.need('returns of jent_read_entropy')
        want = {-1, -2, -3, -5, -6, -7, -8, -9, -10, -11, 0}
        if cfg == 'default':
            want.add(-4)
        miss = want - Codes.codes
        if miss:
            c.violation('missing-code', '/repo/src/jitterentropy-base.c', 0, 'jent_read_entropy',
                        'documented codes %s are never returned (%s configuration)' % (sorted(miss), cfg))
        c.cov['codes_' + cfg] = sorted(Codes.codes)
