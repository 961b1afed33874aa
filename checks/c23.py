"""C23: the start-up test of a time source passes only on what it was specified to accept"""
from sa import build
from sa.lib import *
from sa.absint import narrow, assume, truth
from sa.dom import icmp
from .rd import eqv, le, GH
from .c03 import M64

N, BACK, STUCK = 1024, 3, 1024 * 9 // 10
PAST = (4096, M64 - (1 << 40))
SLOT = dict(n=0, back=16, stuck=32)         # 32-bit counter, +4 the same negated, +8 64 bits
CODES = dict(nostamp=(3,), coarse=(4,), back=(5,), stuck=(8,))
BITS = dict(nostamp=1, coarse=2, timer=4)
HEALTH_UNKNOWN, HEALTH_OK, HEALTH_BAD, HEALTH_RCT = 0, 1, 2, 3


class Start(Monitor):
    def __init__(self, c, F, codes):
        self.c, self.F, self.codes = c, F, codes

    # st.mon: ev (flags seen), last (class of the last measurement), health, gcd, force
    def tracked(self, E, st):
        m = st.mon
        return (m['ev'], m['last'], m['health'], m['gcd'], m['first'],
                zclass(st, E.read(st, GH, SLOT['n'], 4)))

    def bump(self, E, st, k, d):
        for o, n, s in ((0, 4, 1), (4, 4, -1), (8, 8, 1)):
            x = E.read(st, GH, SLOT[k] + o, n)
            E.write(st, GH, SLOT[k] + o, n, dom.binop('add', x, C(s * d & ((1 << 8 * n) - 1), 8 * n), 8 * n))

    def bounds(self, E, st, k):
        """(lowest, highest) number of events"""
        lo, hi = 0, None
        for o, n, s in ((0, 4, 1), (4, 4, -1), (8, 8, 1)):
            v = E.read(st, GH, SLOT[k] + o, n)
            if s < 0:
                v = dom.lsub(C(0, 8 * n), v)
            r = rng(st, v)
            lo = max(lo, r[0][0])
            hi = r[-1][1] if hi is None else min(hi, r[-1][1])
        return lo, hi

    def inst(self, E, st, p, I, what):
        rid, off = E.deref(st, p)
        if st.mon['inst'] is None:
            st.mon['inst'] = p
        elif st.mon['inst'] != p:
            E.violation('instance', I, '%s for another instance than the one that is measured' % what, st)
        return rid

    def on_call(self, E, st, name, args, I):
        F = self.F
        if name == 'jent_zalloc':
            a = st.copy()
            p = E.fresh(st, I, 64, 'obj')
            st.facts[p] = (PAST,)
            E.ptrphi.add(p)
            st.mem[('D', p)] = Region('zero', None)
            st.owned.add(('D', p))
            return [(a, C(0, 64)), (st, p)]
        if name == 'jent_zfree':
            return [(st, None)]
        if name == 'jent_notime_settick':
            a = st.copy()
            r = E.fresh(a, I, 32, 'err')
            a.facts[r] = ((1, (1 << 32) - 1),)
            st.mon['ev'] |= BITS['timer']
            return [(a, r), (st, C(0, 32))]
        if name == 'jent_notime_unsettick':
            st.mon['ev'] &= ~BITS['timer']
            return [(st, None)]
        if name in ('jent_notime_disable',):
            return [(st, None)]
        if name in ('jent_notime_enable',):
            return [(st, E.fresh(st, I, 32, 'res'))]
        if name == 'jent_measure_jitter':
            return self.measure(E, st, args, I)
        if name == 'jent_health_failure':
            rid = self.inst(E, st, args[0], I, 'the health tests are asked')
            self.c.count('health verdicts')
            if zclass(st, field_get(E, st, rid, F, 'is_fips_enabled')) != 1:
                E.violation('enforced', I, 'the measured instance may not enforce the health tests', st)
            out = [(st, C(0, 32))]
            for rct in (0, 1, 0x10000):
                a = st.copy()
                r = E.fresh(a, I, 32, 'failures')
                a.mon['health'] = HEALTH_RCT + (rct > 1) if rct else HEALTH_BAD
                v = dom.cat(((C(rct & 1, 1), 1), (dom.bits(r, 1, 15), 15), (C(rct >> 16, 1), 1), (dom.bits(r, 17, 15), 15)))
                narrow(a, v, ((1, (1 << 32) - 1),))
                out.append((a, v))
            st.mon['health'] = HEALTH_OK
            return out
        if name == 'jent_gcd_analyze':
            self.c.count('divisor analyses')
            rid, off = E.deref(st, args[0])
            i = st.mon['inst']
            if rid != st.mon['hist']:
                E.violation('history', I, 'something else than the recorded deltas is analysed', st)
            if not eqv(st, args[1], C(N, 64)) or self.bounds(E, st, 'n')[0] < N:
                E.violation('history', I, 'not all %d recorded deltas are analysed' % N, st)
            if i is not None:
                osr = dom.zext(field_get(E, st, E.deref(st, i)[0], F, 'osr'), 64)
                if not eqv(st, args[2], osr):
                    E.violation('rate', I, 'the deltas are not judged for the oversampling rate of the instance', st)
            a = st.copy()
            r = E.fresh(a, I, 32, 'bad')
            a.facts[r] = ((1, (1 << 32) - 1),)
            a.mon['gcd'], st.mon['gcd'] = 2, 1
            a.mon['_gcd'] = r
            return [(a, r), (st, C(0, 32))]

    def measure(self, E, st, args, I):
        """every combination of a stamp, a delta and a stuck verdict"""
        F = self.F
        self.c.count('measurements')
        rid = self.inst(E, st, args[0], I, 'a measurement is taken')
        if not st.mon['ev'] & BITS['timer']:
            E.violation('timer', I, 'a measurement is taken although the timer was not started', st)
        if not eqv(st, args[1], C(0, 64)):
            E.violation('loops', I, 'the measurement is not taken with the configured loop counts', st)
        st.mon['health'] = HEALTH_UNKNOWN
        st.mon['gcd'] = 0
        o, n = F.bytes('prev_time')
        new = E.fresh(st, I, 64, 'stamp')
        d = E.fresh(st, I, 64, 'delta')
        ref = E.fresh(st, I, 64, 'reference')
        old = E.read(st, rid, o, n)
        if old[0] == 's' and old != ref:
            # one name for the reference whichever way it came about
            E.retitle(st, {old: ref})
            old = E.read(st, rid, o, n)
        out = []
        first, st.mon['first'] = st.mon['first'], 0
        for s0 in (0, 1):                               # end stamp zero?
            for d0 in (0, 1):
                for fwd in (0, 1, 2):                   # earlier, same, later
                    for stuck in (0, 1):
                        s = st.copy()
                        t = C(0, 64) if s0 else new
                        if fwd == 1 and not s0:
                            t = old
                        if not s0 and not narrow(s, t, ((1, M64 - 1),)):
                            continue
                        if first:
                            # only primes the reference
                            if fwd or d0 or stuck:
                                continue
                        elif fwd != 1 and not assume(s, icmp('ugt' if fwd == 2 else 'ult', t, old), True):
                            continue
                        elif fwd == 1 and not eqv(s, t, old):
                            if not s0 or not narrow(s, old, ((0, 0),)):
                                continue
                        dv = C(0, 64) if d0 else d
                        if not d0 and not narrow(s, d, ((1, M64 - 1),)):
                            continue
                        E.write(s, rid, o, n, t)
                        if not is_zero(s, args[2]):
                            r2, o2 = E.deref(s, args[2])
                            E.write(s, r2, o2, 8, dv)
                        elif not first:
                            E.violation('delta', I, 'a measurement is taken without looking at its delta', s)
                        if not first:
                            if s0 or zclass(s, old) != 1:
                                if not s0 and zclass(s, old) == 2:
                                    q = s.copy()
                                    if narrow(q, old, ((0, 0),)):
                                        self.done(E, q, stuck, fwd, 1, d0, out, I)
                                    if not narrow(s, old, ((1, M64 - 1),)):
                                        continue
                                    self.done(E, s, stuck, fwd, 0, d0, out, I)
                                    continue
                                self.done(E, s, stuck, fwd, 1, d0, out, I)
                            else:
                                self.done(E, s, stuck, fwd, 0, d0, out, I)
                        else:
                            s.mon['last'] = None
                            out.append((s, C(0, 32)))
        return out

    def done(self, E, s, stuck, fwd, zero, d0, out, I):
        if zero:
            s.mon['ev'] |= BITS['nostamp']
        if d0:
            s.mon['ev'] |= BITS['coarse']
        s.mon['last'] = (stuck, int(fwd != 2), fwd)
        r = C(0, 32)
        if stuck:
            r = E.fresh(s, I, 32, 'stuck')
            s.facts[r] = ((1, (1 << 32) - 1),)
        s.mon['_delta'] = None
        out.append((s, r))

    def on_store(self, E, st, rid, off, size, val, I):
        if rid is None or rid[0] != 'D' or size != 8 or rid == E.deref(st, st.mon['inst'] or C(0, 64))[0] or not E.stack or \
                len(E.stack) != 1:
            return
        # a delta is recorded
        self.c.count('recorded deltas')
        if st.mon['hist'] is None:
            st.mon['hist'] = rid
        if rid != st.mon['hist']:
            return
        last = st.mon['last']
        if last is None:
            E.violation('twice', I, 'a measurement is recorded twice', st)
            return
        n = E.read(st, GH, SLOT['n'] + 8, 8)
        if not eqv(st, dom.offterm(off), dom.binop('mul', n, C(8, 64), 64)):
            n = dom.zext(E.read(st, GH, SLOT['n'], 4), 64)
            n2 = dom.sext(E.read(st, GH, SLOT['n'], 4), 64)
            if not any(eqv(st, dom.offterm(off), dom.binop('mul', x, C(8, 64), 64)) for x in (n, n2)):
                E.violation('slot', I, 'the deltas are not recorded one after the other', st)
        self.bump(E, st, 'n', 1)
        self.bump(E, st, 'stuck', last[0])
        self.bump(E, st, 'back', last[1])
        # never more of them than measurements
        hi = min(self.bounds(E, st, 'n')[1], (1 << 31) - 1)
        for k in ('stuck', 'back'):
            for o, n in ((0, 4), (8, 8)):
                narrow(st, E.read(st, GH, SLOT[k] + o, n), ((0, hi),))
        st.mon['last'] = None

    def on_return(self, E, st, fn, ret, I):
        if len(E.stack) != 1:
            return
        self.c.count('ends of the start-up test')
        m = st.mon
        r = rng(st, ret)
        if r[0][0] == 0:
            if r[-1][1] != 0:
                st = st.copy()
                narrow(st, ret, ((0, 0),))
            self.c.count('passed tests')
            bad = []
            if m['ev'] & BITS['nostamp']:
                bad.append('although a time stamp was zero')
            if m['ev'] & BITS['coarse']:
                bad.append('although a delta was zero')
            lo, hi = self.bounds(E, st, 'n')
            if lo < N:
                bad.append('with fewer than %d recorded measurements' % N)
            if self.bounds(E, st, 'back')[1] > BACK:
                bad.append('although the time went backwards more than %d times' % BACK)
            if self.bounds(E, st, 'stuck')[1] > STUCK:
                bad.append('with more than %d stuck measurements' % STUCK)
            if m['health'] != HEALTH_OK:
                bad.append('without a clean bill of the health tests after the last measurement')
            if m['gcd'] != 1:
                bad.append('without a passed analysis of the deltas')
            for b in bad:
                E.violation('accept', I, 'the start-up test passes ' + b, st)
        elif m['health'] != HEALTH_UNKNOWN or m['ev'] & 3:
            # the code names a cause that was present
            X = self.codes
            ok = set()
            if m['ev'] & BITS['nostamp']:
                ok.add(X['ENOTIME'])
            if m['ev'] & BITS['coarse']:
                ok.add(X['ECOARSETIME'])
            if self.bounds(E, st, 'back')[1] > BACK:
                ok.add(X['ENOMONOTONIC'])
            if m['health'] == HEALTH_BAD:
                ok.add(X['EHEALTH'])
            if m['health'] >= HEALTH_RCT:
                ok.add(X['ERCT'])
            if self.bounds(E, st, 'stuck')[1] > STUCK:
                ok.add(X['ESTUCK'])
            self.c.count('named causes')
            if m['gcd'] == 2 and ret == m['_gcd']:
                return
            if len(r) != 1 or r[0][0] != r[0][1] or r[0][0] not in ok:
                E.violation('code', I, 'the code of the start-up test names something else than what it found', st)


CALLS = ('jent_zalloc', 'jent_zfree', 'jent_notime_settick', 'jent_notime_unsettick', 'jent_notime_disable',
         'jent_notime_enable', 'jent_measure_jitter', 'jent_health_failure', 'jent_gcd_analyze')
NEVER = ('jent_cache_size_roundup', 'jent_shake256_init', 'jent_gcd_get', 'jent_health_init')


def codes():
    import re
    out = {}
    src = open(build.REPO + '/jitterentropy.h').read()
    for n, v in re.findall(r'#define\s+(E[A-Z]+)\s+(\d+)', src):
        out[n] = int(v)
    return out


DOC = dict(ENOTIME=1, ECOARSETIME=2, ENOMONOTONIC=3, EMINVARIATION=4, EVARVAR=5, EMINVARVAR=6, EPROGERR=7, ESTUCK=8,
           EHEALTH=9, ERCT=10, EHASH=11, EMEM=12, EGCD=13)


class Analyse(Monitor):
    """verdict on the deltas, for any divisor and any sum of differences"""

    def __init__(self, c):
        self.c = c

    def on_call(self, E, st, name, args, I):
        if name == 'jent_gcd_analyze_internal':
            a = st.copy()
            g, s = sym('divisor'), sym('sum')
            for p, v in ((args[2], g), (args[3], s)):
                r, o = E.deref(st, p)
                E.write(st, r, o, 8, v)
            st.mon['got'] = 1
            return [(a, C(-11 & 0xffffffff, 32)), (st, C(0, 32))]

    def on_return(self, E, st, fn, ret, I):
        if len(E.stack) != 1 or not st.mon['got'] or zclass(st, ret) == 1:
            return
        self.c.count('accepted histories')
        st = st.copy()
        narrow(st, ret, ((0, 0),))
        g, s, n, osr = sym('divisor'), sym('sum'), sym('nelem'), sym('osr')
        if rng(st, g)[-1][1] >= (1 << 32) // 2 - 1:
            E.violation('divisor', I, 'the deltas are accepted although their divisor may be 2^31 or more', st)
        if not le(st, n, dom.binop('mul', s, osr, 64)):
            E.violation('variation', I, 'the deltas are accepted although they may vary by less than one in osr '
                        'measurements', st)


def analyse(c, mod):
    if 'jent_gcd_analyze_internal' not in mod.funcs:
        c.assume('the analysis of the deltas was restructured and is not judged')
        return
    mon = Analyse(c)
    pol = Policy(mod, calls=('jent_gcd_analyze_internal',), small=400)
    E = Engine(mod, mon, opts=dict(skip=pol))
    st = State()
    h = sym('history')
    st.facts[h] = (PAST,)
    st.mon.update(got=0, _keep=(h, sym('nelem'), sym('osr'), sym('divisor'), sym('sum')))
    E.run('jent_gcd_analyze', [h, sym('nelem'), sym('osr')], st)
    c.absorb(E)


class Fold(Monitor):
    """ghost: number of deltas in the sum (0, 8 times that at 8), in the divisor (16, 24), the sum (32), the divisor (40)
    and the delta added last (48)"""
    load_const = True

    def __init__(self, c, hist):
        self.c, self.hist = c, hist

    def g(self, E, st, o):
        return E.read(st, GH, o, 8)

    def is_at(self, E, st, off, o, k):
        """byte offset off is that of delta number ghost[o] - k"""
        return eqv(st, off, dom.binop('sub', self.g(E, st, o + 8), C(8 * k, 64), 64)) or \
            eqv(st, off, dom.binop('mul', dom.binop('sub', self.g(E, st, o), C(k, 64), 64), C(8, 64), 64))

    def load_value(self, E, st, rid, off, size, I):
        if rid != self.hist or size != 8:
            return None
        o = dom.offterm(off)
        if self.is_at(E, st, o, 0, 1):
            return self.g(E, st, 48)
        return ('e', 'elem', 64, o)

    def tracked(self, E, st):
        last, out = self.g(E, st, 48), set()
        for t, v in st.facts.items():
            if t[0] == 'e' and t[1] == 'icmp' and last in t[4:6] and any(
                    x[0] == 'e' and x[1] == 'elem' and self.is_at(E, st, x[3], 0, 0) for x in t[4:6]):
                out.add((t[3], t[4] == last, v))
        return tuple(sorted(out))

    def on_value(self, E, st, v, I):
        """the sum is extended by the distance of the next delta to the one before"""
        if dom.width(v) != 64 or v[0] == 'p':
            return
        last = self.g(E, st, 48)
        d = dom.lsub(v, self.g(E, st, 32))
        for cur in elems(d):
            if not self.is_at(E, st, cur[3], 0, 0):
                continue
            up, down = dom.lsub(cur, last), dom.lsub(last, cur)
            ok = d == up and truth(st, 'uge', cur, last) is True or d == down and truth(st, 'ule', cur, last) is True
            if not ok and d[0] == 'e' and d[1] == 'select' and (d[4], d[5]) in ((up, down), (down, up)):
                ok = True
                for w in (True, False):
                    s = st.copy()
                    if assume(s, d[3], w):
                        x = d[4] if w else d[5]
                        ok = ok and truth(s, 'uge' if x == up else 'ule', cur, last) is True
            if ok:
                self.c.count('deltas summed')
                self.step(E, st, 0)
                E.write(st, GH, 32, 8, v)
                E.write(st, GH, 48, 8, cur)
                return

    def step(self, E, st, o):
        for p, k in ((o, 1), (o + 8, 8)):
            E.write(st, GH, p, 8, dom.binop('add', self.g(E, st, p), C(k, 64), 64))

    def on_call(self, E, st, name, args, I):
        if name != 'jent_gcd64':
            return
        if eqv(st, args[0], C(0, 64)) or eqv(st, args[1], C(0, 64)):
            return [(st, args[1] if eqv(st, args[0], C(0, 64)) else args[0])]
        r = E.fresh(st, I, 64, 'gcd')
        args = [E.val(st, x, t) for t, x in I.a[1]]
        for x, y in (args, args[::-1]):
            if eqv(st, x, self.g(E, st, 40)) and self.next(E, st, y):
                self.c.count('deltas folded')
                self.step(E, st, 16)
                E.write(st, GH, 40, 8, r)
                break
        return [(st, r)]

    def next(self, E, st, y):
        """y is the delta the divisor has to take up next"""
        if y[0] == 'e' and y[1] == 'elem' and self.is_at(E, st, y[3], 16, 0):
            return True
        return y == self.g(E, st, 48) and (self.is_at(E, st, self.g(E, st, 24), 0, 1) or
                                           eqv(st, self.g(E, st, 0), dom.binop('add', self.g(E, st, 16), C(1, 64), 64)))

    def on_return(self, E, st, fn, ret, I):
        if len(E.stack) != 1 or zclass(st, ret) == 1:
            return
        self.c.count('ends of the analysis')
        n = sym('nelem')
        for w, k, o, p in (('divisor', 16, 40, 'gcdp'), ('sum of the differences', 0, 32, 'sump')):
            if not eqv(st, self.g(E, st, k), n) and \
                    not eqv(st, self.g(E, st, k + 8), dom.binop('mul', n, C(8, 64), 64)) or \
                    not eqv(st, E.read(st, ('D', sym(p)), 0, 8), self.g(E, st, o)):
                E.violation('fold', I, 'the %s handed out is not that of all recorded deltas' % w, st)


def elems(t):
    out = []

    def go(t):
        if t[0] == 'e':
            if t[1] == 'elem':
                out.append(t)
            else:
                for x in t[3:]:
                    if isinstance(x, tuple):
                        go(x)
    go(t)
    return out


def fold(c, mod):
    if 'jent_gcd_analyze_internal' not in mod.funcs or 'jent_gcd64' not in mod.funcs or \
            len(mod.funcs['jent_gcd_analyze_internal'].params) != 4:
        c.assume('the analysis of the deltas was restructured and is not judged')
        return
    f = mod.funcs['jent_gcd_analyze_internal']
    if len(f.loops) != 1 or any(
            I.op == 'phi' and I.ty.k == 'ptr' or I.op == 'add' and I.ty.k == 'int' and ('c', -1) in I.a or
            I.op == 'add' and I.ty.k == 'int' and ('c', (1 << I.ty.n) - 1) in I.a
            for b in f.blocks.values() for I in b.ins):
        c.assume('the deltas are not walked by index in one loop: divisor and sum are not judged')
        return
    h = sym('history')
    mon = Fold(c, ('D', h))
    E = Engine(mod, mon, opts=dict(skip=Policy(mod, calls=('jent_gcd64',), small=400)))
    st = State()
    g = Region('zero', 64)
    for o, v in ((0, C(1, 64)), (8, C(8, 64)), (16, C(1, 64)), (24, C(8, 64)), (32, C(0, 64)), (40, sym('first')),
                 (48, sym('first'))):
        g.cells[o] = (8, v)
    st.mem[GH] = g
    a = [h, sym('nelem'), sym('gcdp'), sym('sump')]
    for x in (h,) + tuple(a[2:]):
        st.facts[x] = (PAST,)
    st.facts[a[1]] = ((0, 1 << 48),)
    st.mon['_keep'] = tuple(a)
    st.mon['_bounds'] = (a[1], dom.binop('mul', a[1], C(8, 64), 64))
    E.run('jent_gcd_analyze_internal', a, st)
    c.absorb(E)
    c.need('ends of the analysis')


def one(c, mod, force):
    F = Fields(mod)
    mon = Start(c, F, DOC)
    pol = Policy(mod, calls=CALLS, never=NEVER, small=160, writes=False)
    E = Engine(mod, mon, opts=dict(skip=pol))
    E.bitunits = F.bitfields()
    st = State()
    g = Region('zero', 64)
    for k, o in SLOT.items():
        g.cells[o] = (4, C(0, 32))
        g.cells[o + 4] = (4, C(0, 32))
        g.cells[o + 8] = (8, C(0, 64))
    st.mem[GH] = g
    st.mon.update(ev=0, last=None, health=0, gcd=0, first=1, inst=None, hist=None, _gcd=None,
                  _keep=(sym('osr', 32), sym('flags', 32)))
    fl = sym('flags', 32)
    fl = dom.cat(((dom.bits(fl, 0, 3), 3), (C(force, 1), 1), (dom.bits(fl, 4, 28), 28)))
    E.run('jent_time_entropy_init', [sym('osr', 32), fl], st)
    c.absorb(E)


def check(c):
    c.rule('jent_time_entropy_init for every oversampling rate, flag word, sequence of time stamps, deltas and stuck '
           'verdicts, and every outcome of the calls in it: success only after 1024 recorded measurements without a zero '
           'stamp or a zero delta, with at most 3 not increasing and at most 921 stuck ones, a clean enforced health '
           'verdict after the last one and a passed analysis of exactly those deltas for the rate of the instance; '
           'otherwise the code names a cause that was present')
    c.rule('jent_gcd_analyze: deltas are accepted only if sum of differences * osr >= their number and divisor < 2^31; '
           'divisor and sum are those of every recorded delta (fold over a symbolic history of any length)')
    mods = {cfg: build.build_user(cfg) for cfg in ('default', 'notimer')}
    pmap(c, [(one, cfg, f) for cfg in mods for f in (0, 1)] + [(analyse, 'default'), (fold, 'default')],
         lambda c, j: j[0](c, mods[j[1]], *j[2:]))
    for w in ('measurements', 'recorded deltas', 'passed tests', 'named causes', 'health verdicts', 'divisor analyses'):
        c.need(w, 1)
