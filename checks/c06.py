"""C06: the transition of every health test for one measurement"""
from sa import build
from sa.lib import *
from sa.absint import narrow, assume
from .rd import eqv, hf_units

PERM = 16
BIT = {'RCT': 0, 'APT': 1, 'LAG': 2, 'MEM': 3}
FIELDS = {
    'RCT': ('rct_count',),
    'APT': ('apt_base_set', 'apt_base', 'apt_count', 'apt_observations'),
    'LAG': ('lag_prediction_success_run', 'lag_prediction_success_count', 'lag_observations'),
    'MEM': ('rct_mem_count', 'rct_mem_ctr', 'in_recovery', 'startup_state'),
    'STUCK': (),
    'SCORE': ('lag_scoreboard',),
}
CUT = {
    'RCT': ('rct_cutoff', 'rct_cutoff_permanent'),
    'APT': ('apt_cutoff', 'apt_cutoff_permanent'),
    'LAG': ('lag_global_cutoff', 'lag_global_cutoff_permanent', 'lag_local_cutoff', 'lag_local_cutoff_permanent'),
    'MEM': ('rct_mem_cutoff', 'rct_mem_cutoff_permanent', 'rct_mem_nosr'),
    'STUCK': (),
    'SCORE': (),
}
NREC = 10


def wider(a, b):
    n = max(dom.width(a), dom.width(b))
    return dom.zext(a, n), dom.zext(b, n)


def cmp(p, a, b):
    return dom.icmp(p, *wider(a, b))


def split(st, cond):
    for v in (True, False):
        s = st.copy()
        if assume(s, cond, v):
            yield v, s


def inc(v):
    return dom.binop('add', v, C(1, dom.width(v)), dom.width(v))


def lin8(t):
    """t modulo 8 as a linear form over its atoms"""
    out = {}

    def go(t, m):
        if t[0] == 'c':
            out[None] = (out.get(None, 0) + m * t[1]) % 8
        elif t[0] == 'e' and t[1] in ('add', 'sub'):
            go(t[3], m)
            go(t[4], m if t[1] == 'add' else -m)
        elif t[0] == 'e' and t[1] in ('zext', 'sext') and dom.width(t[3]) >= 3:
            go(t[3], m)
        elif t[0] == 'e' and t[1] == 'bits' and t[4] == 0 and t[2] >= 3:
            go(t[3], m)
        elif t[0] == 'b' and t[2][0][1] >= 3:
            go(t[2][0][0], m)
        else:
            out[t] = (out.get(t, 0) + m) % 8
    go(t, 1)
    return {a: m for a, m in out.items() if m}


class Health(Monitor):
    def __init__(self, c, F, EC, test, delta, pred=0):
        self.k = pred
        self.c, self.F, self.EC, self.test, self.delta = c, F, EC, test, delta
        self.pre = {}

    # ---- helpers -------------------------------------------------------
    def f(self, E, st, name):
        return field_get(E, st, self.EC, self.F, name)

    def bit(self, E, st, perm):
        v = self.f(E, st, 'health_failure')
        return dom.bits(v, BIT[self.test] + (PERM if perm else 0), 1)

    def prebit(self, perm):
        return dom.bits(self.pre['health_failure'], BIT[self.test] + (PERM if perm else 0), 1)

    def snapshot(self, E, st):
        if self.test == 'SCORE':
            self.pre['score'] = self.score(E, st)
        for n in ('health_failure',) + FIELDS[self.test] * (self.test != 'SCORE') + CUT[self.test]:
            self.pre[n] = self.f(E, st, n)
        if 'lag_observations' in self.F.d:
            for n in ('lag_observations', 'lag_best_predictor'):
                self.pre[n] = self.f(E, st, n)

    def score(self, E, st):
        n = self.F.bits('lag_scoreboard')[1] // 64
        return E.read(st, self.EC, self.F.off('lag_scoreboard') + self.k * n, n)

    def end_SCORE(self, E, st, I, stuck):
        """the k-th predictor scores exactly when it is right"""
        w = dom.width(self.pre['lag_observations'])
        old = self.pre['score']
        for fill, s in split(st, dom.icmp('ult', self.pre['lag_observations'], C(8, w))):
            for end, s2 in split(s, dom.icmp('uge', inc(self.pre['lag_observations']), C(1 << 17, w))):
                for hit, s3 in split(s2, dom.icmp('eq', self.h[self.k], self.delta)):
                    self.c.count('transition obligations')
                    want = C(0, dom.width(old)) if end else old if fill or not hit else inc(old)
                    if not eqv(s3, self.score(E, s3), want):
                        self.bad(E, s3, I, 'scoreboard', 'LAG: the score of the predictor of lag %d is not %s' % (
                            self.k + 1, 'reset with the window' if end else 'unchanged' if fill or not hit else
                            'increased when it is right'))

    def disjuncts(self):
        """the cases the specification distinguishes by more than one comparison: kept apart"""
        P = self.pre
        if self.test == 'STUCK':
            return self.derivatives()
        if self.test == 'LAG':
            run, cnt = inc(P['lag_prediction_success_run']), inc(P['lag_prediction_success_count'])
            return (cmp('uge', run, P['lag_local_cutoff_permanent']), cmp('uge', cnt, P['lag_global_cutoff_permanent']),
                    cmp('uge', run, P['lag_local_cutoff']), cmp('uge', cnt, P['lag_global_cutoff']))
        if self.test == 'MEM':
            ctr, w = P['rct_mem_ctr'], dom.width(P['rct_mem_ctr'])
            return (dom.icmp('eq', ctr, C(0, w)), cmp('ult', ctr, P['rct_mem_nosr']),
                    dom.icmp('eq', dom.binop('urem', ctr, C(3, w), w), C(0, w)),
                    P['in_recovery']) + tuple(
                        cmp('eq', x, P['rct_mem_cutoff'])
                        for x in (P['rct_mem_count'], inc(P['rct_mem_count']), C(0, 16), C(1, 16)))
        return ()

    def tracked(self, E, st):
        t = self.test
        if t == 'STUCK':
            return tuple(rng(st, x) for x in self.conds)
        if t == 'SCORE':
            return (self.score(E, st), rng(st, dom.icmp('eq', self.h[self.k], self.delta)))
        return tuple(self.f(E, st, n) for n in FIELDS[t]) + (self.bit(E, st, 0), self.bit(E, st, 1)) + \
            tuple(rng(st, x) for x in self.conds)

    # ---- history of time deltas -------------------------------------------
    def hindex(self, st, off):
        """which entry of the history: linear form modulo 8, or None"""
        hb = self.F.off('lag_delta_history')
        t = dom.lsub(off, C(hb, 64))
        if dom.bits(t, 0, 3) != C(0, 3):
            return None
        lo, hi = dom.hull(rng(st, t))
        if hi > 56:
            return None
        return lin8(dom.bits(t, 3, 3))

    def entry(self, loc):
        out = {self.pre['lag_observations']: 1, None: 7}
        if isinstance(loc, int):
            out[None] = (7 - loc) % 8
        else:
            out[loc] = 7
        return {a: m for a, m in out.items() if m}

    def in_history(self, off):
        F = self.F
        if isinstance(off, int):
            return F.off('lag_delta_history') <= off < F.off('lag_delta_history') + 64
        return True

    def load_value(self, E, st, rid, off, size, I):
        if rid != self.EC or size != 8 or st.mon['hist'] or isinstance(off, int):
            return None
        h = self.hindex(st, off)
        if h is None:
            return None
        for loc in range(8):
            if h == self.entry(loc):
                return self.h[loc]
        if h == self.entry(self.pre['lag_best_predictor']):
            return self.prediction
        return None

    def on_store(self, E, st, rid, off, size, val, I):
        if rid == self.EC and size == 8 and not isinstance(off, int) and self.test == 'LAG':
            h = self.hindex(st, off)
            if h == {self.pre['lag_observations']: 1} and val == self.delta:
                st.mon['hist'] = 1
            else:
                st.mon['hist'] = 2
        elif rid == self.EC and isinstance(off, int) and self.test == 'LAG' and size == 8 and self.in_history(off):
            # reset of the window
            if is_zero(st, val):
                st.mon['rst'] = st.mon['rst'] | (1 << ((off - self.F.off('lag_delta_history')) // 8))

    def on_write(self, E, st, rid, off, n, I, src):
        if rid == self.EC and self.test == 'LAG' and isinstance(off, int) and src[0] == 'set' and is_zero(st, src[1]):
            k = rng(st, n)[0][0] if not isinstance(n, int) else n
            hb = self.F.off('lag_delta_history')
            for i in range(8):
                if off <= hb + 8 * i and hb + 8 * i + 8 <= off + k:
                    st.mon['rst'] = st.mon['rst'] | (1 << i)

    def on_call(self, E, st, name, args, I):
        if name == 'jent_random_data':
            self.c.count('recovery collections')
            if self.test == 'MEM':
                if args[0] != self.ec:
                    E.violation('mem-recovery', I, 'the recovery collects for another instance', st)
                if zclass(st, self.f(E, st, 'in_recovery')) != 1:
                    E.violation('mem-recovery', I, 'the recovery collection may recurse', st)
                if not is_zero(st, self.f(E, st, 'startup_state')):
                    E.violation('mem-recovery', I, 'the recovery runs inside an unfinished start-up stage', st)
                if not is_zero(st, self.f(E, st, 'rct_mem_count')) and st.mon['rec'] == 0:
                    E.violation('mem-recovery', I, 'the recovery does not start with a cleared counter', st)
                st.mon['rec'] = min(st.mon['rec'] + 1, NREC + 1)
                for n in ('rct_mem_count', 'rct_mem_ctr'):
                    E.havoc(st, self.EC, *self.F.bytes(n), I, n)
                v = self.f(E, st, 'health_failure')
                x = E.fresh(st, I, 32, 'rec')
                o, s = self.F.bytes('health_failure')
                E.write(st, self.EC, o, s, dom.binop('or', v, x, 32))
            return [(st, None)]

    # ---- what has to hold at the end -----------------------------------------
    def on_return(self, E, st, fn, ret, I):
        if fn.name != 'jent_stuck' or len(E.stack) != 1:
            return
        self.c.count('returns (%s)' % self.test)
        for stuck, s in split(st, dom.icmp('ne', ret, C(0, dom.width(ret)))):
            getattr(self, 'end_' + self.test)(E, s, I, stuck)

    def bad(self, E, st, I, rule, msg):
        E.violation(self.test.lower() + '-' + rule, I, msg, st)

    def same(self, E, st, I, name, val, what):
        self.c.count('transition obligations')
        if not eqv(st, self.f(E, st, name), val):
            self.bad(E, st, I, name, '%s: %s is not %s' % (self.test, name, what))

    def bits_are(self, E, st, I, inter_, perm, why):
        """expected bits: True set, None unchanged"""
        for p, want in ((0, inter_), (1, perm)):
            self.c.count('transition obligations')
            b = self.bit(E, st, p)
            name = '%s failure %s' % ('permanent' if p else 'intermittent', 'bit')
            if want:
                if rng(st, b) != ((1, 1),):
                    self.bad(E, st, I, 'latch', '%s: %s is not latched: %s' % (self.test, name, why))
            elif b != self.prebit(p) and not eqv(st, b, self.prebit(p)):
                self.bad(E, st, I, 'latch', '%s: %s changes although %s' % (self.test, name, why))

    def cutoffs(self, E, st, I, cnt):
        """count against permanent (>=) and intermittent (==) cutoff"""
        lo, hi = (self.pre[x] for x in CUT[self.test][:2])
        for perm, s in split(st, cmp('uge', cnt, hi)):
            if perm:
                self.bits_are(E, s, I, None, True, 'the permanent cutoff is reached')
                continue
            for eq, s2 in split(s, cmp('eq', cnt, lo)):
                if eq:
                    self.bits_are(E, s2, I, True, None, 'the intermittent cutoff is reached')
                else:
                    self.bits_are(E, s2, I, None, None, 'no cutoff is reached')

    def end_RCT(self, E, st, I, stuck):
        n = self.pre['rct_count']
        if stuck:
            self.same(E, st, I, 'rct_count', inc(n), 'one more after a stuck measurement')
            self.cutoffs(E, st, I, inc(n))
        else:
            self.same(E, st, I, 'rct_count', C(0, dom.width(n)), 'zero after a good measurement')
            self.bits_are(E, st, I, None, None, 'the measurement is not stuck')

    def end_APT(self, E, st, I, stuck):
        P = self.pre
        n, obs = P['apt_count'], P['apt_observations']
        for is_set, s in split(st, dom.icmp('ne', P['apt_base_set'], C(0, dom.width(P['apt_base_set'])))):
            if not is_set:
                self.same(E, s, I, 'apt_base', self.delta, 'the first value of the window')
                self.same(E, s, I, 'apt_count', C(1, dom.width(n)), 'one at the start of a window')
                self.same(E, s, I, 'apt_observations', C(1, dom.width(obs)), 'one at the start of a window')
                if zclass(s, self.f(E, s, 'apt_base_set')) != 1:
                    self.bad(E, s, I, 'base', 'APT: a window without base value')
                self.bits_are(E, s, I, None, None, 'the window starts')
                continue
            self.same(E, s, I, 'apt_base', P['apt_base'], 'kept within the window')
            self.same(E, s, I, 'apt_observations', inc(obs), 'one more')
            for end, s2 in split(s, dom.icmp('uge', inc(obs), C(512, dom.width(obs)))):
                z = zclass(s2, self.f(E, s2, 'apt_base_set'))
                if z != (0 if end else 1):
                    self.bad(E, s2, I, 'window', 'APT: the window does not %s' % ('end after 512 observations' if end else
                                                                                'go on for 512 observations'))
            for eq, s2 in split(s, dom.icmp('eq', self.delta, P['apt_base'])):
                if eq:
                    self.same(E, s2, I, 'apt_count', inc(n), 'one more after an occurrence of the base value')
                    self.cutoffs(E, s2, I, inc(n))
                else:
                    self.same(E, s2, I, 'apt_count', n, 'unchanged for another value')
                    self.bits_are(E, s2, I, None, None, 'the value differs from the base')

    def end_LAG(self, E, st, I, stuck):
        P = self.pre
        obs = P['lag_observations']
        run, cnt = P['lag_prediction_success_run'], P['lag_prediction_success_count']
        w = dom.width(obs)
        for fill, s in split(st, dom.icmp('ult', obs, C(8, w))):
            if fill:
                self.same(E, s, I, 'lag_observations', inc(obs), 'one more')
                self.hist(E, s, I)
                self.bits_are(E, s, I, None, None, 'the history is being filled')
                self.same(E, s, I, 'lag_prediction_success_run', run, 'unchanged')
                self.same(E, s, I, 'lag_prediction_success_count', cnt, 'unchanged')
                continue
            for hit, s2 in split(s, dom.icmp('eq', self.prediction, self.delta)):
                r2, c2 = (inc(run), inc(cnt)) if hit else (C(0, dom.width(run)), cnt)
                for end, s3 in split(s2, dom.icmp('uge', inc(obs), C(1 << 17, w))):
                    if end:
                        for n in FIELDS['LAG'] + ('lag_best_predictor',):
                            self.same(E, s3, I, n, C(0, self.F.bits(n)[1]), 'reset at the end of the window')
                        if s3.mon['rst'] != 255:
                            self.bad(E, s3, I, 'window', 'LAG: the history survives the end of the window')
                        continue
                    self.same(E, s3, I, 'lag_observations', inc(obs), 'one more')
                    self.same(E, s3, I, 'lag_prediction_success_run', r2,
                              'one more' if hit else 'ended by a wrong prediction')
                    self.same(E, s3, I, 'lag_prediction_success_count', c2, 'one more' if hit else 'unchanged')
                    self.hist(E, s3, I)
                if not hit:
                    self.bits_are(E, s2, I, None, None, 'the prediction was wrong')
                    continue
                g, gp, l, lp = (P[x] for x in CUT['LAG'])
                for a, x in split(s2, cmp('uge', r2, lp)):
                    for b, y in split(x, cmp('uge', c2, gp)):
                        if a or b:
                            self.bits_are(E, y, I, None, True, 'a permanent cutoff is reached')
                            continue
                        for d, z in split(y, cmp('uge', r2, l)):
                            for e, q in split(z, cmp('uge', c2, g)):
                                self.bits_are(E, q, I, True if d or e else None, None,
                                              'an intermittent cutoff is reached' if d or e else 'no cutoff is reached')

    def hist(self, E, st, I):
        self.c.count('transition obligations')
        if st.mon['hist'] != 1:
            self.bad(E, st, I, 'history', 'LAG: the time delta is not recorded in the history slot of this observation')

    def end_MEM(self, E, st, I, stuck):
        P = self.pre
        ctr, cnt, nosr = P['rct_mem_ctr'], P['rct_mem_count'], P['rct_mem_nosr']
        lo, hi = P['rct_mem_cutoff'], P['rct_mem_cutoff_permanent']
        w, wc = dom.width(ctr), dom.width(cnt)
        for first, s in split(st, dom.icmp('eq', ctr, C(0, w))):
            for win, s2 in split(s, cmp('ult', ctr, nosr)):
                for third, s3 in split(s2, dom.icmp('eq', dom.binop('urem', ctr, C(3, w), w), C(0, w))):
                    if first and not third:
                        continue
                    c1 = C(0, wc) if first else cnt
                    if stuck and win and third:
                        c1 = inc(c1)
                    self.mem_case(E, s3, I, c1, win, lo, hi)

    def mem_case(self, E, st, I, c1, win, lo, hi):
        P = self.pre
        for perm, s in split(st, cmp('uge', c1, hi)):
            if perm:
                self.mem_plain(E, s, I, c1, win, None, True if win else None,
                               'the permanent cutoff is reached' if win else 'the window is over')
                continue
            for eq, s2 in split(s, cmp('eq', c1, lo)):
                if not eq:
                    self.mem_plain(E, s2, I, c1, win, None, None, 'no cutoff is reached')
                    continue
                for rec, s3 in split(s2, dom.icmp('ne', P['in_recovery'], C(0, dom.width(P['in_recovery'])))):
                    if rec:
                        self.mem_plain(E, s3, I, c1, win, True if win else None, None,
                                       'the intermittent cutoff is reached during recovery' if win else 'the window is over')
                        continue
                    self.c.count('recoveries')
                    if s3.mon['rec'] != NREC:
                        self.bad(E, s3, I, 'recovery', 'MEM: the intermittent cutoff is reached and neither the recovery of '
                                 '%d collections is performed nor a failure latched' % NREC)
                    self.restored(E, s3, I)

    def restored(self, E, st, I):
        for n in ('in_recovery', 'startup_state'):
            self.same(E, st, I, n, self.pre[n], 'restored')

    def mem_plain(self, E, st, I, c1, win, i, p, why):
        if st.mon['rec']:
            self.bad(E, st, I, 'recovery', 'MEM: recovery collections although %s' % why)
            return
        self.bits_are(E, st, I, i, p, why)
        self.same(E, st, I, 'rct_mem_count', c1, 'the number of stuck values among every third one of the window')
        ctr = self.pre['rct_mem_ctr']
        self.same(E, st, I, 'rct_mem_ctr', inc(ctr) if win else ctr, 'advanced within the window only')
        self.restored(E, st, I)

    def derivatives(self):
        d, h0, h1 = self.delta, self.h[0], self.h[1]
        z = C(0, 64)
        return (dom.icmp('eq', d, z), dom.icmp('eq', dom.lsub(d, h0), z),
                dom.icmp('eq', dom.lsub(dom.lsub(d, h0), dom.lsub(h0, h1)), z))

    def end_STUCK(self, E, st, I, stuck):
        conds = self.derivatives()
        self.c.count('transition obligations')
        if stuck:
            s = st
            for x in conds:
                s = s.copy()
                if not assume(s, x, False):
                    return
            self.bad(E, s, I, 'verdict', 'a measurement is called stuck although none of its derivatives is zero')
        else:
            for x, n in zip(conds, ('time delta', 'second', 'third derivative')):
                s = st.copy()
                if assume(s, x, True):
                    self.bad(E, s, I, 'verdict', 'a measurement with a zero %s is accepted' % n)


def one(c, mod, test, k=0):
    F = Fields(mod)
    ec, delta = sym('ec'), sym('delta')
    EC = ('D', ec)
    mon = Health(c, F, EC, test, delta, k)
    mon.ec = ec
    mon.h = [sym('h%d' % i) for i in range(8)]
    mon.prediction = sym('prediction')
    pol = Policy(mod, calls=('jent_random_data',), writes=True, small=400,
                 tracked=lambda E, st: [(EC, None, None)])
    E = Engine(mod, mon, opts=dict(skip=pol))
    E.bitrids = {EC}
    E.bitunits = F.bitfields() + hf_units(F)
    st = State()
    st.facts[ec] = ((4096, (1 << 64) - 4097),)
    st.mon['_keep'] = (ec, delta, mon.prediction) + tuple(mon.h)
    st.mon.update(hist=0, rst=0, rec=0)
    E.cstack, E.curctx, E.stack = [], 0, []
    mon.snapshot(E, st)
    mon.conds = mon.disjuncts()
    st.mon['_keep'] += tuple(mon.pre.values())
    narrow(st, mon.pre['lag_observations'], ((0, (1 << 17) - 1),))
    narrow(st, mon.pre['lag_best_predictor'], ((0, 7),))
    E.run('jent_stuck', [ec, delta], st)
    c.absorb(E)
    c.need('returns (%s)' % test)


# bits a counter needs to reach the largest documented cutoff or window, and a recorded time delta
NEED = dict(rct_count=11, rct_cutoff=10, rct_cutoff_permanent=11, apt_count=10, apt_observations=10, apt_cutoff=10,
            apt_cutoff_permanent=10, apt_base=64, rct_mem_ctr=13, rct_mem_nosr=13, rct_mem_count=12, rct_mem_cutoff=12,
            rct_mem_cutoff_permanent=12, lag_observations=18, lag_prediction_success_count=17,
            lag_prediction_success_run=11, lag_global_cutoff=17, lag_global_cutoff_permanent=17, lag_local_cutoff=10,
            lag_local_cutoff_permanent=11, lag_best_predictor=3, lag_scoreboard=8 * 17, lag_delta_history=8 * 64,
            health_failure=20)


def widths(c, mod):
    F = Fields(mod)
    bad = 0
    for f, n in NEED.items():
        if f not in F.d:
            continue
        c.count('counter widths')
        if F.bits(f)[1] < n:
            bad = 1
            c.violation('width', 'src/jitterentropy-internal.h', 0, 'struct rand_data',
                        '%s holds %d bits, its largest documented value needs %d' % (f, F.bits(f)[1], n))
    return not bad


def check(c):
    c.rule('jent_stuck, run for every time delta on every instance content: the post state of each health test equals '
           'the transition its definition prescribes (SP800-90B RCT and APT, lag predictor, RCT with memory), the '
           'failure bits are latched exactly when a cutoff is reached, and a measurement is stuck exactly when one of its '
           'first three derivatives is zero')
    c.assume('counters of the window tests are within their windows (C20)')
    mods = {cfg: build.build_user(cfg) for cfg in ('default',)}
    c.rule('every counter, cutoff and latch of the health tests is wide enough for its documented range')
    if not all(widths(c, m) for m in mods.values()):
        return
    pmap(c, [(cfg, t) for cfg in mods for t in FIELDS if t != 'SCORE'] +
         [(cfg, 'SCORE', k) for cfg in mods for k in range(8)], lambda c, j: one(c, mods[j[0]], *j[1:]))
    c.need('transition obligations', 50)
    c.need('recovery collections', 10)
