"""C05: every measurement is judged by the health tests and mixed into the entropy pool"""
from sa import build
from sa.lib import *
from sa.absint import narrow
from .rd import eqv, GH

M64 = (1 << 64) - 1
NJ, DELTA, NH, LAST, REF0 = 0, 8, 16, 24, 32


def linear(t):
    """t = stamp - earlier stamp / reference: (new, old) or None"""
    acc = {k: dom.sgn(n & M64, 64) for k, n in dom.lin(t, 64).items() if n & M64}
    pos = [k for k, n in acc.items() if n == 1 and k is not None]
    neg = [k for k, n in acc.items() if n == -1 and k is not None]
    if len(acc) == 2 and len(pos) == 1 and len(neg) == 1:
        return pos[0], neg[0]
    return None


class Meas(Monitor):
    def __init__(self, c, F, EC, name, retp):
        self.c, self.F, self.EC, self.name, self.retp = c, F, EC, name, retp

    def s(self, E, st, o, v):
        E.write(st, GH, o, 8, v)

    def g(self, E, st, o):
        return E.read(st, GH, o, 8)

    def tracked(self, E, st):
        return (cclass(st, self.g(E, st, NJ)), cclass(st, self.g(E, st, NH)), st.mon.get('stuck'))

    def stamp(self, E, st, rid, off, I):
        v = E.fresh(st, I, 64, 'stamp')
        E.write(st, rid, off, 8, v)
        self.s(E, st, LAST, v)
        self.c.count('time stamps')

    def on_call(self, E, st, name, args, I):
        if name == 'jent_get_nstime_internal':
            rid, off = E.deref(st, args[1])
            if rid is None or not isinstance(off, int):
                raise AnalysisError('time stamp stored to an unknown place')
            self.stamp(E, st, rid, off, I)
            return [(st, None)]
        if name == 'jent_stuck':
            self.c.count('judged measurements')
            n = self.g(E, st, NJ)
            if n != C(0, 64):
                E.violation('judged-once', I, '%s submits more than one value per measurement to the health tests' %
                            self.name, st)
            self.s(E, st, NJ, C(1, 64))
            if args[0] != self.ec:
                E.violation('judge', I, '%s judges the measurement on another instance' % self.name, st)
            self.delta(E, st, args[1], I)
            self.s(E, st, DELTA, args[1])
            s2 = st.copy()
            st.mon['stuck'] = 0
            s2.mon['stuck'] = 1
            r = E.fresh(s2, I, 32, 'stuck')
            s2.facts[r] = ((1, (1 << 32) - 1),)
            return [(st, C(0, 32)), (s2, r)]
        if name == 'jent_sha3_update':
            hs = E.read(st, self.EC, self.F.off('hash_state'), 8)
            if args[0] == hs:
                self.mixed(E, st, args[1], args[2], I)
            elif args[0][0] == 'p' and args[0][1][0] == 'A':
                E.havoc(st, args[0][1], None, None, I, 'upd')
            return [(st, None)]

    def delta(self, E, st, d, I):
        """the judged value is the duration between the last stamp and an earlier one, in timer units"""
        F = self.F
        if is_zero(st, d):
            mem = E.read(st, self.EC, F.off('mem'), 8)
            if not is_zero(st, mem):
                E.violation('delta', I, '%s judges the constant zero although the noise source is there' % self.name, st)
            return
        gcd = E.read(st, self.EC, F.off('jent_common_timer_gcd'), 8)
        x = d
        if d[0] == 'e' and d[1] == 'udiv' and d[4] == gcd:
            x = d[3]
        elif gcd != C(1, 64):
            E.violation('delta', I, '%s: the judged value is not a time difference in units of the common timer '
                        'divisor' % self.name, st)
            return
        p = linear(x)
        if p is None or p[0] != self.g(E, st, LAST):
            E.violation('delta', I, '%s: the judged value is not the difference of the latest time stamp to an earlier '
                        'one' % self.name, st)
            return
        ref = p[1]
        if ref == self.g(E, st, REF0):
            st.mon['ref'] = 'prev'
        elif ref[0] == 's' and dom.nm(ref)[0] == 'v' and dom.nm(ref)[4] == 'stamp':
            st.mon['ref'] = 'stamp'
        else:
            E.violation('delta', I, '%s: the reference of the judged value is no time stamp' % self.name, st)

    def mixed(self, E, st, p, n, I):
        self.c.count('pool updates')
        rid, off = E.deref(st, p)
        r = rng(st, n)
        if rid is None or not isinstance(off, int) or len(r) != 1 or r[0][0] != r[0][1]:
            raise AnalysisError('pool update with unknown extent')
        d = self.g(E, st, DELTA)
        k = r[0][0]
        if self.g(E, st, NJ) == C(1, 64):
            s2 = st.copy()
            cells = set(E.region(st, rid).cells)
            for o in range(off, off + k - 7):
                if o not in cells and not is_zero(st, d):
                    continue
                v = E.read(s2, rid, o, 8)
                if v == d or (is_zero(st, d) and is_zero(st, v)):
                    self.s(E, st, NH, C(1, 64))
                    return

    def on_return(self, E, st, fn, ret, I):
        if fn.name != self.name or len(E.stack) != 1:
            return
        self.c.count('returns')
        if self.g(E, st, NJ) != C(1, 64):
            E.violation('judged', I, '%s returns without the health tests having judged the measurement' % self.name, st)
            return
        if self.g(E, st, NH) != C(1, 64):
            E.violation('mixed', I, '%s returns without the judged value having been mixed into the entropy pool' %
                        self.name, st)
        z = zclass(st, ret)
        if z != st.mon['stuck']:
            E.violation('verdict', I, '%s does not return the verdict of the stuck test' % self.name, st)
        if st.mon.get('ref') == 'prev':
            v = E.read(st, self.EC, self.F.off('prev_time'), 8)
            if not eqv(st, v, self.g(E, st, LAST)):
                E.violation('reference', I, '%s: the next measurement would not start at the end of this one' %
                            self.name, st)
        if self.retp is not None:
            v = E.read(st, ('D', self.retp), 0, 8)
            if v != self.g(E, st, DELTA):
                E.violation('raw', I, '%s hands out another raw value than the judged one' % self.name, st)


ENTRY = ('jent_measure_jitter', 'jent_measure_jitter_ntg1_memaccess', 'jent_measure_jitter_ntg1_sha3')


def one(c, mod, name, withret):
    F = Fields(mod)
    ec, cnt = sym('ec'), sym('loops')
    EC = ('D', ec)
    rp = sym('retp') if withret else None
    mon = Meas(c, F, EC, name, rp)
    mon.ec = ec
    hs = sym('hs')
    pol = Policy(mod, calls=('jent_get_nstime_internal', 'jent_stuck', 'jent_sha3_update'), writes=True, small=200,
                 tracked=lambda E, st: [(EC,) + F.bytes('prev_time')])
    E = Engine(mod, mon, opts=dict(skip=pol))
    st = State()
    st.facts[hs] = ((4096, (1 << 64) - 4097),)
    st.facts[ec] = ((4096, (1 << 64) - 4097),)
    g = Region('zero', 40)
    for o in (NJ, NH, LAST):
        g.cells[o] = (8, C(0, 64))
    st.mem[GH] = g
    E.write(st, GH, DELTA, 8, sym('nodelta'))
    E.write(st, EC, F.off('hash_state'), 8, hs)
    HF = Fields(mod, 'jent_sha_ctx')
    rate = (1600 - 2 * 256) // 8
    for f in ('r', 'rword'):
        if f in HF.d:
            o, n = HF.bytes(f)
            E.write(st, ('D', hs), o, n, C(rate if f == 'r' else rate // 8, 8 * n))
    E.write(st, GH, REF0, 8, E.read(st, EC, F.off('prev_time'), 8))
    st.mon['_keep'] = (ec, cnt, hs) + ((rp,) if rp else ())
    E.curctx = 0
    if rp:
        st.facts[rp] = ((4096, (1 << 64) - 4097),)
    E.run(name, [ec, cnt, rp if rp else C(0, 64)], st)
    c.absorb(E)


def check(c):
    c.rule('on every path through each of the three measurement functions, for every instance content, loop count and '
           'time stamp: exactly one value is submitted to the stuck test, it is the difference of the latest time stamp '
           'to an earlier one divided by the common timer divisor, the same value lies in the data absorbed by the '
           'instance\'s entropy pool, the stuck verdict is returned')
    c.assume('the entropy pool is set up with the 136 byte rate of SHAKE-256 (C16)')
    mods = {cfg: build.build_user(cfg) for cfg in ('default', 'notimer')}
    pmap(c, [(cfg, n, w) for cfg in mods for n in ENTRY for w in (0, 1)], lambda c, j: one(c, mods[j[0]], j[1], j[2]))
    c.need('judged measurements', 12)
    c.need('pool updates', 12)
    c.need('time stamps', 12)
