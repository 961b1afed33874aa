"""C31: an instance is configured as requested: mode, oversampling rate, cutoffs, memory, loop counts"""
from sa import build
from sa.lib import *
from sa.absint import narrow
from .rd import eqv
from .c03 import M64
from .c07 import SRC, footprint, MEMORY, SHA3, DONE

NOMEM, FORCE_T, NO_T, FIPS, NTG1 = 2, 3, 4, 5, 6
MINOSR, MAXOSR = 3, 20

# intermittent / permanent cutoffs per oversampling rate 1..20, see tests/health/cutoffs.py
APT = ((325, 422, 459, 477, 488, 494, 499, 502, 505, 507, 508, 509, 510, 511) + (512,) * 6,
       (355, 447, 479, 494, 502, 507, 510) + (512,) * 13)
APT8 = ((17, 71, 136, 191, 236, 272, 301, 325, 345, 361, 375, 388, 398, 407, 415, 422, 429, 434, 439, 444),
        (26, 92, 162, 221, 267, 303, 332, 355, 375, 390, 404, 415, 425, 433, 440, 447, 453, 458, 462, 466))
LAGG = ((66443, 93504, 104761, 110875, 114707, 117330, 119237, 120686, 121823, 122739, 123493, 124124, 124660, 125120,
         125520, 125871, 126181, 126457, 126704, 126926),
        (66876, 93896, 105108, 111188, 114993, 117596, 119486, 120920, 122045, 122951, 123696, 124318, 124847, 125301,
         125695, 126041, 126346, 126617, 126860, 127079))
LAGL = ((38, 75, 111, 146, 181, 215, 250, 284, 318, 351, 385, 419, 452, 485, 518, 551, 584, 617, 650, 683),
        (60, 119, 177, 234, 291, 347, 404, 460, 516, 571, 627, 683, 738, 793, 848, 903, 958, 1013, 1068, 1123))
MEM = (tuple(107 * k for k in range(1, 21)), tuple(107 * k + 1 for k in range(1, 21)))
MEM8 = ((4, 46, 134, 255, 399, 560, 733) + MEM[0][7:], (5, 50, 142, 265, 410, 572, 746) + MEM[1][7:])


def expected(osr, ntg1):
    d = {}
    for name, t in (('apt_cutoff', APT8 if ntg1 else APT), ('lag_global_cutoff', LAGG), ('lag_local_cutoff', LAGL),
                    ('rct_mem_cutoff', MEM8 if ntg1 else MEM)):
        d[name], d[name + '_permanent'] = t[0][osr - 1], t[1][osr - 1]
    for name, m in (('rct_cutoff', 30), ('rct_cutoff_permanent', 60)):
        d[name] = -(-m * osr // 8) if ntg1 else m * osr
    return d


def compare(c, E, st, rid, F, exp, I, where):
    for f, v in exp.items():
        if f not in F.d:
            continue
        c.count('cutoffs compared')
        x = field_get(E, st, rid, F, f)
        if rng(st, x) != ((v, v),):
            E.violation('cutoff-' + f, I, '%s: %s may differ from %d' % (where, f, v), st)


def pow2(st, n):
    """a power of two from 1 kB to 512 MB"""
    r = rng(st, n)
    if all(lo == hi and lo & (lo - 1) == 0 for lo, hi in r):
        return 1 << 10 <= r[0][0] and r[-1][1] <= 1 << 29
    while n[0] == 'e' and n[1] in ('zext', 'trunc'):
        n = n[3]
    if n[0] == 'e' and n[1] == 'shl' and n[3][0] == 'c' and n[3][1] > 0 and n[3][1] & (n[3][1] - 1) == 0:
        b = n[3][1].bit_length() - 1
        lo, hi = dom.hull(rng(st, n[4]))
        return b + lo >= 10 and b + hi <= 29
    return False


class Conf(Monitor):
    def __init__(self, c, F, osr, ntg1, mem, hashl):
        self.c, self.F, self.osr, self.ntg1, self.memc, self.hashl = c, F, osr, ntg1, mem, hashl
        self.plain = False

    def tracked(self, E, st):
        out = [st.mon['fips'], cclass(st, dom.bits(self.flags, FIPS, 1)), cclass(st, dom.bits(self.flags, NOMEM, 1))]
        e = st.mon.get('_ec')
        if e:
            for f in ('is_fips_enabled', 'startup_state'):
                out.append(cclass(st, field_get(E, st, ('D', e), self.F, f)))
        return tuple(out)

    def on_call(self, E, st, name, args, I):
        F = self.F
        if name == 'jent_zalloc':
            p = E.fresh(st, I, 64, 'obj')
            st.facts[p] = ((4096, M64 - (1 << 40)),)
            E.ptrphi.add(p)
            n = args[0]
            if n == C(F.size, dom.width(n)):
                st.mem[('D', p)] = Region('zero', None)
                st.owned.add(('D', p))
                st.mon['_ec'] = p
                E.write(st, ('D', p), 1 << 20, 8, C(0, 64))
            elif '_ec' in st.mon:
                E.write(st, ('D', st.mon['_ec']), 1 << 20, 8, dom.zext(n, 64))
                E.write(st, ('D', st.mon['_ec']), (1 << 20) + 8, 8, p)
            return [(st, p)]
        if name == 'jent_fips_enabled':
            a = st.copy()
            a.mon['fips'] |= 1
            st.mon['fips'] |= 2
            r = E.fresh(st, I, 32, 'fips')
            st.facts[r] = ((1, (1 << 32) - 1),)
            return [(a, C(0, 32)), (st, r)]
        if name in ('jent_entropy_init_ex', 'jent_notime_enable', 'jent_sha3_alloc', 'jent_notime_settick'):
            # the failing outcomes are decided in C08 and C24
            if name == 'jent_sha3_alloc':
                rid, off = E.deref(st, args[0])
                E.write(st, rid, off, 8, E.fresh(st, I, 64, 'hash'))
            return [(st, C(0, 32))]
        if name == 'jent_random_data':
            self.examine(E, st, args[0], I)
            return []

    def on_store(self, E, st, rid, off, size, val, I):
        F = self.F
        if rid == ('D', st.mon.get('_ec')) and isinstance(off, int) and off == F.off('memmask'):
            # remember whether the mask belongs to the memory, the relation is lost when paths join
            w = 8 * size
            n = E.read(st, rid, 1 << 20, 8)
            ok = eqv(st, dom.binop('add', val, C(1, w), w), dom.bits(n, 0, w)) and rng(st, n)[-1][1] < 1 << w and \
                rng(st, n)[0][0] > 0
            E.write(st, rid, (1 << 20) + 16, 8, C((3 if pow2(st, n) else 1) if ok else 4, 64))

    def examine(self, E, st, p, I):
        F, c = self.F, self.c
        rid, off = E.deref(st, p)
        if rid is None or off != 0 or rid != ('D', st.mon.get('_ec')):
            E.violation('instance', I, 'noise is collected for something that is not the new instance', st)
            return
        c.count('configured instances')
        get = lambda f: field_get(E, st, rid, F, f)
        if self.osr is not None:
            if self.osr > MAXOSR:
                E.violation('osr', I, 'an instance is set up for an oversampling rate above the maximum', st)
                return
            k = max(self.osr, MINOSR)
            if rng(st, get('osr')) != ((k, k),):
                E.violation('osr', I, 'the instance may not use oversampling rate %d' % k, st)
            compare(c, E, st, rid, F, expected(k, self.ntg1), I, 'after the allocation (oversampling rate %d%s)' % (
                k, ', NTG.1' if self.ntg1 else ''))
        else:
            h = dom.hull(rng(st, get('osr')))
            if h[0] < MINOSR or h[1] > MAXOSR:
                E.violation('osr', I, 'the oversampling rate may lie outside %d..%d' % (MINOSR, MAXOSR), st)
        ff = cclass(st, dom.bits(self.flags, FIPS, 1))
        fips, ss = get('is_fips_enabled'), get('startup_state')
        want = None
        if self.ntg1 or ff == 1 or st.mon['fips'] == 2:
            want = 1
        elif ff == 0 and st.mon['fips'] in (0, 1):
            want = 0
            if st.mon['fips'] == 0:
                E.violation('mode', I, 'an instance is set up without asking whether the system is in FIPS mode', st)
        if want == 1:
            c.count('enforced instances')
            if zclass(st, fips) != 1:
                E.violation('mode', I, 'an instance for which the compliance mode was requested may not enforce the '
                            'health tests', st)
            if rng(st, ss) != ((MEMORY, MEMORY),):
                E.violation('startup', I, 'an instance that enforces the health tests may not start with the separate '
                            'test of both noise sources', st)
        elif want == 0:
            c.count('plain instances')
            if not is_zero(st, fips):
                E.violation('mode', I, 'health tests may be enforced although nobody requested it', st)
        fl = get('flags')
        keep = [b for b in range(24) if b not in (NO_T, 8)]
        for b in keep:
            if not eqv(st, dom.bits(fl, b, 1), dom.bits(self.flags, b, 1)):
                E.violation('flags', I, 'option bit %d of the instance differs from what the caller asked for' % b, st)
                break
        if self.ntg1 and rng(st, dom.bits(fl, NO_T, 1)) != ((1, 1),):
            E.violation('flags', I, 'an NTG.1 instance may use the internal timer', st)
        if self.ntg1 or ff == 1:
            if rng(st, dom.bits(fl, 8, 1)) != ((1, 1),):
                E.violation('secure-memory', I, 'an instance in a compliance mode is allocated without requiring '
                            'protected memory', st)
        nomem = cclass(st, dom.bits(self.flags, NOMEM, 1))
        if nomem == 1 and want == 1:
            E.violation('no-memory', I, 'a compliance mode is entered with the memory noise source disabled', st)
        mm = get('max_mem_set')
        if self.memc is not None and cclass(st, mm) != (1 if self.memc else 0):
            E.violation('mem-cap', I, 'the instance does not record that the caller %s the memory size' % (
                'capped' if self.memc else 'did not cap'), st)
        if nomem == 1:
            c.count('instances without memory source')
            if not is_zero(st, get('mem')):
                E.violation('memory', I, 'memory is attached although the memory source is disabled', st)
        elif nomem == 0:
            c.count('instances with memory source')
            q = E.read(st, rid, (1 << 20) + 8, 8)
            if not eqv(st, get('mem'), q):
                E.violation('memory', I, 'the memory noise source has no memory', st)
            m = dom.zext(get('memmask'), 64)
            r = rng(st, dom.binop('add', m, C(1, 64), 64))
            if rng(st, E.read(st, rid, (1 << 20) + 16, 8))[-1][1] > 3:
                E.violation('memory', I, 'the mask for the memory noise source may not fit the memory it has', st)
            if self.memc:
                w = 1 << (min(self.memc, 20) + 9)
                if r != ((w, w),):
                    E.violation('memory', I, 'the memory may not have the %d bytes the caller asked for' % w, st)
            elif rng(st, E.read(st, rid, (1 << 20) + 16, 8))[0][0] < 3:
                E.violation('memory', I, 'the size of the memory may not be a power of two of 1 kB to 512 MB', st)
            if rng(st, get('memaccessloops')) != ((128, 128),):
                E.violation('loops', I, 'the number of memory accesses per measurement may not be 128', st)
        if self.hashl is not None:
            w = 1 << self.hashl
            if rng(st, get('hashloopcnt')) != ((w, w),):
                E.violation('loops', I, 'the number of hash operations per measurement may not be %d' % w, st)

    def on_return(self, E, st, fn, ret, I):
        if len(E.stack) == 1:
            self.c.count('refused allocations')
            if self.plain:
                E.violation('refused', I, 'an instance with a permitted oversampling rate may be refused although nothing '
                            'failed and no conflicting option was given', st)
            if not is_zero(st, ret):
                E.violation('instance', I, 'an instance is handed out that never collected noise', st)


class Stage(Monitor):
    """the cutoffs stay those of the mode through the start-up stages"""

    def __init__(self, c, F, EC, exp, fp, osr, ntg1):
        self.c, self.F, self.EC, self.exp, self.fp, self.osr, self.ntg1 = c, F, EC, exp, fp, osr, ntg1

    def tracked(self, E, st):
        return (cclass(st, field_get(E, st, self.EC, self.F, 'startup_state')),)

    def on_call(self, E, st, name, args, I):
        if name in SRC:
            self.c.count('measurements')
            compare(self.c, E, st, self.EC, self.F, self.exp, I, 'at a measurement')
            for f in self.fp:
                if f in self.exp or f in ('startup_state', 'osr', 'flags'):
                    continue
                o, n = self.F.bytes(f)
                E.havoc(st, self.EC, o, n, I, f)
            return [(st, E.fresh(st, I, 32, 'rej'))]

    def on_return(self, E, st, fn, ret, I):
        if len(E.stack) == 1:
            self.c.count('ends of a collection')
            compare(self.c, E, st, self.EC, self.F, self.exp, I, 'after a collection')


def conf(c, mod, osr, ntg1, mem, hashl, plain=False):
    F = Fields(mod)
    mon = Conf(c, F, osr, ntg1, mem, hashl)
    names = ('jent_zalloc', 'jent_fips_enabled', 'jent_random_data', 'jent_entropy_init_ex', 'jent_notime_enable',
             'jent_sha3_alloc', 'jent_notime_settick')
    pol = Policy(mod, calls=names, never=('jent_cache_size_roundup', 'jent_zfree', 'jent_sha3_dealloc',
                                          'jent_notime_disable', 'jent_shake256_init', 'jent_gcd_get',
                                          'jent_entropy_collector_free', 'jent_health_failure_reset'),
                 writes=True, small=160,
                 tracked=lambda E, st: [(('D', st.mon['_ec']), None, None)] if '_ec' in st.mon else [])
    E = Engine(mod, mon, opts=dict(skip=pol, trip=40))
    st = State()
    flags = sym('flags', 32)
    mon.flags = flags
    from sa.absint import narrow
    o = sym('osr', 32)
    st.mon.update(fips=0, _keep=(flags, o))
    narrow(st, dom.bits(flags, NTG1, 1), ((ntg1, ntg1),))
    args = [C(osr, 32) if osr is not None else o, flags]
    if mem is not None:
        args[1] = mon.flags = dom.cat(((dom.bits(flags, 0, NTG1), NTG1), (C(ntg1, 1), 1), (dom.bits(flags, 7, 17), 17),
                                          (C(hashl, 3), 3), (C(mem, 5), 5)))
    else:
        args[1] = mon.flags = dom.cat(((dom.bits(flags, 0, NTG1), NTG1), (C(ntg1, 1), 1), (dom.bits(flags, 7, 25), 25)))
    if plain:
        # none of the options that exclude each other: bits 2..6
        mon.plain = True
        args[1] = mon.flags = dom.cat(((dom.bits(flags, 0, NOMEM), NOMEM), (C(0, 5), 5), (dom.bits(flags, 7, 25), 25)))
        c.count('permitted requests')
    E.bitunits = F.bitfields()
    E.run('jent_entropy_collector_alloc', args, st)
    c.absorb(E)


def stage(c, mod, fp, osr, ntg1, state):
    F = Fields(mod)
    ec = sym('ec')
    EC = ('D', ec)
    exp = expected(osr, ntg1)
    mon = Stage(c, F, EC, exp, fp, osr, ntg1)
    pol = Policy(mod, calls=SRC, writes=True, small=60,
                 tracked=lambda E, st: [(EC,) + F.bytes(f) for f in list(exp) + ['startup_state'] if f in F.d])
    E = Engine(mod, mon, opts=dict(skip=pol))
    E.bitrids = {EC}
    E.bitunits = F.bitfields()
    st = State()
    st.facts[ec] = ((4096, (1 << 64) - 4097),)
    st.mon['_keep'] = (ec,)
    E.cstack, E.curctx, E.stack = [], 0, []
    for f, v in [('osr', osr), ('startup_state', state)] + [(f, v) for f, v in exp.items() if f in F.d]:
        o, n = F.bytes(f)
        E.write(st, EC, o, n, C(v, 8 * n))
    fl = sym('flags', 32)
    E.write(st, EC, F.off('flags'), 4, dom.cat(((dom.bits(fl, 0, NTG1), NTG1), (C(ntg1, 1), 1), (dom.bits(fl, 7, 25), 25))))
    E.run('jent_random_data', [ec], st)
    c.absorb(E)


class Judge(Monitor):
    def __init__(self, c, F, EC):
        self.c, self.EC = c, EC
        self.span = [(f,) + F.bytes(f) for f in expected(1, 0) if f in F.d]

    def on_call(self, E, st, name, args, I):
        if name == 'jent_random_data':
            E.havoc_all(st, I) if hasattr(E, 'havoc_all') else None
            return [(st, None)]

    def touch(self, E, st, rid, off, n, I):
        self.c.count('stores while a measurement is judged')
        if rid != self.EC:
            return
        k = n if isinstance(n, int) else dom.hull(rng(st, n))[1]
        lo, hi = (off, off) if isinstance(off, int) else dom.hull(rng(st, dom.offterm(off)))
        for f, o, s in self.span:
            if lo < o + s and o < hi + k:
                E.violation('cutoff-store', I, 'judging a measurement may change %s' % f, st)

    def on_store(self, E, st, rid, off, size, val, I):
        self.touch(E, st, rid, off, size, I)

    def on_write(self, E, st, rid, off, n, I, src):
        if src[0] != 'havoc':
            self.touch(E, st, rid, off, n, I)


def judge(c, mod):
    F = Fields(mod)
    ec = sym('ec')
    EC = ('D', ec)
    mon = Judge(c, F, EC)
    E = Engine(mod, mon, opts=dict(skip=Policy(mod, calls=('jent_random_data',), writes=True, small=400,
                                               tracked=lambda E, st: [(EC, None, None)])))
    E.bitrids = {EC}
    E.bitunits = F.bitfields()
    st = State()
    st.facts[ec] = ((4096, (1 << 64) - 4097),)
    st.mon['_keep'] = (ec,)
    E.run('jent_stuck', [ec, sym('delta')], st)
    c.absorb(E)


def check(c):
    c.rule('jent_entropy_collector_alloc for every oversampling rate (0..22 one by one, all others as one class), both '
           'NTG.1 settings, every other flag, every memory and hash loop code, and both answers of the system: the '
           'instance is examined when it collects noise for the first time')
    c.rule('jent_random_data for every oversampling rate, NTG.1 setting and start-up state: the cutoffs at every '
           'measurement and at the end are those of the oversampling rate and mode')
    c.rule('... for every rate up to 20, without conflicting options and with every operation succeeding: no path refuses '
           'the instance')
    c.rule('judging a measurement (jent_stuck, for every instance content) stores nothing to a cutoff')
    mods = {}
    for cfg in ('default', 'notimer'):
        m = build.build_user(cfg)
        F = Fields(m)
        fp = footprint(m, F)
        mods[cfg] = m, fp
    jobs = []
    for cfg in mods:
        d = cfg == 'default'
        for n in (0, 1):
            jobs += [(0, cfg, k, n, None, None) for k in (list(range(0, 23)) if d else (0, 3, 20, 21))]
            jobs += [(0, cfg, None, n, m, m % 8) for m in (range(32) if d else (0, 1, 20))]
            jobs += [(1, cfg, k, n, s) for k in (range(1, 21) if d else (1, 20)) for s in (MEMORY, SHA3, DONE)]
    jobs += [(2, cfg) for cfg in mods]
    jobs += [(0, 'default', k, 0, None, None, True) for k in range(0, 21)]

    def run(c, j):
        m, fp = mods[j[1]]
        if j[0] == 0:
            conf(c, m, *j[2:])
        elif j[0] == 1:
            stage(c, m, fp, *j[2:])
        else:
            judge(c, m)
    pmap(c, jobs, run)
    for w in ('configured instances', 'enforced instances', 'plain instances', 'refused allocations', 'measurements',
              'instances without memory source', 'instances with memory source', 'ends of a collection'):
        c.need(w, 10)
