"""C10: every object with entropy state is released exactly once, wiped over its full size, and never used afterwards"""
from sa import build
from sa.lib import *
from sa.absint import narrow
from .rd import eqv, GH
from .c03 import M64

SIZE, LIVE, REL = 0, 8, 16          # ghost cells beside an object
OWNED = ('mem', 'hash_state', 'notime_thread_ctx')
OTHER = ('free', 'munmap', 'realloc', 'VirtualFree')


class Heap(Monitor):
    """objects come from jent_zalloc and go through jent_zfree"""

    def __init__(self, c, F, entry):
        self.c, self.F, self.entry = c, F, entry

    def objs(self, st):
        return [('D', r[1]) for r in st.mem if r[0] == 'GO']

    def known(self, st, r):
        return r is not None and r[0] == 'D' and ('GO', r[1]) in st.mem

    def get(self, E, st, r, o):
        return E.read(st, ('GO', r[1]), o, 8)

    def put(self, E, st, r, o, v):
        E.write(st, ('GO', r[1]), o, 8, v)

    def member(self, E, st, r, off):
        if self.known(st, r) and eqv(st, self.get(E, st, r, SIZE), C(self.F.size, 64)):
            for f in self.F.at(off):
                if self.F.off(f) == off:
                    return self.F.bytes(f)

    def drop(self, st, r):
        st.mem.pop(r, None)
        st.mem.pop(('GO', r[1]), None)

    def live(self, E, st, r):
        return cclass(st, self.get(E, st, r, LIVE))

    def tracked(self, E, st):
        return tuple(sorted((repr(r[1]), self.live(E, st, r), repr(cclass(st, self.get(E, st, r, REL))))
                            for r in self.objs(st)))

    def add(self, E, st, p, n):
        r = ('D', p)
        st.mem[r] = Region('zero', None)
        st.owned.add(r)
        self.put(E, st, r, SIZE, n)
        self.put(E, st, r, LIVE, C(1, 64))
        self.put(E, st, r, REL, C(0, 64))

    def on_call(self, E, st, name, args, I):
        F = self.F
        if name == 'jent_zalloc':
            self.c.count('allocations')
            a = st.copy()
            for r in self.objs(st):
                if self.live(E, st, r) == 0 and r[1][0] == 's' and r[1] not in self.given:
                    self.drop(st, r)
            p = E.fresh(st, I, 64, 'obj')
            st.facts[p] = ((4096, M64 - (1 << 40)),)
            E.ptrphi.add(p)
            self.add(E, st, p, dom.zext(args[0], 64))
            return [(a, C(0, 64)), (st, p)]
        if name == 'jent_zfree':
            self.free(E, st, args[0], dom.zext(args[1], 64), I)
            return [(st, None)]
        if name in OTHER:
            r = E.deref(st, args[0])[0]
            if self.known(st, r):
                E.violation('release', I, 'memory with entropy state is released without being wiped', st)
            return [(st, None if name != 'munmap' else C(0, 32))]
        if name == 'jent_notime_enable':
            rid, off = E.deref(st, args[0])
            if rid is None or rid not in st.mem:
                return
            a = st.copy()
            b = st.copy()
            r = E.fresh(a, I, 32, 'err')
            a.facts[r] = ((1, (1 << 32) - 1),)
            if 'notime_thread_ctx' not in F.d:
                return [(a, r), (b, C(0, 32))]
            p = E.fresh(st, I, 64, 'timer')
            st.facts[p] = ((4096, M64 - (1 << 40)),)
            E.ptrphi.add(p)
            self.add(E, st, p, C(0, 64))
            E.write(st, rid, F.off('notime_thread_ctx'), 8, p)
            return [(a, r), (b, C(0, 32)), (st, C(0, 32))]
        if name == 'jent_notime_disable':
            rid, off = E.deref(st, args[0])
            if rid is None or rid not in st.mem:
                return
            self.use(E, st, rid, I)
            if 'notime_thread_ctx' in F.d:
                self.free(E, st, E.read(st, rid, F.off('notime_thread_ctx'), 8), None, I)
            return [(st, None)]
        if name in ('jent_notime_settick', 'jent_entropy_init_ex'):
            return [(st, E.fresh(st, I, 32, 'res'))]
        if name == 'jent_notime_unsettick':
            self.use(E, st, E.deref(st, args[0])[0], I)
            return [(st, None)]
        if name == 'jent_random_data':
            return [(st, None)]
        if name == 'jent_health_failure':
            return [(st, C(0, 32))]

    def free(self, E, st, p, n, I):
        if is_zero(st, p):
            return
        self.c.count('releases')
        if zclass(st, p) == 2:
            st2 = st.copy()
        rid, off = E.deref(st, p)
        if not self.known(st, rid) or off != 0:
            E.violation('unknown', I, 'something is released that is not an object of the library', st)
            return
        if self.live(E, st, rid) != 1:
            E.violation('double', I, 'an object may be released twice', st)
        if n is not None:
            s = self.get(E, st, rid, SIZE)
            if not eqv(st, n, s) and not self.related(E, st, p, n):
                E.violation('size', I, 'an object is wiped and released with a size that may differ from its own', st)
        self.put(E, st, rid, LIVE, C(0, 64))

    def related(self, E, st, p, n):
        """the noise memory: its size is the address mask plus one"""
        F = self.F
        for r in self.objs(st):
            if cclass(st, self.get(E, st, r, REL)) == 1 and eqv(st, field_get(E, st, r, F, 'mem'), p):
                m = dom.binop('add', dom.zext(field_get(E, st, r, F, 'memmask'), 64), C(1, 64), 64)
                if eqv(st, m, n):
                    return True
        return False

    def use(self, E, st, rid, I):
        if self.known(st, rid) and self.live(E, st, rid) != 1:
            E.violation('use-after-free', I, 'an object is used after it was released', st)

    def on_load(self, E, st, rid, off, size, val, I):
        if True:
            self.use(E, st, rid, I)

    def on_store(self, E, st, rid, off, size, val, I):
        F = self.F
        if not self.known(st, rid):
            return
        self.use(E, st, rid, I)
        if off in (F.off('memmask'), F.off('mem')) and eqv(st, self.get(E, st, rid, SIZE), C(F.size, 64)):
            # in whichever order the two are set
            mask, mem = field_get(E, st, rid, F, 'memmask'), field_get(E, st, rid, F, 'mem')
            if off == F.off('mem'):
                mem = val
            else:
                mask = val
            w = 8 * F.bytes('memmask')[1]
            r = E.deref(st, mem)[0]
            ok = False
            if self.known(st, r):
                n = self.get(E, st, r, SIZE)
                ok = eqv(st, dom.binop('add', mask, C(1, w), w), dom.bits(n, 0, w)) and rng(st, n)[-1][1] < 1 << w \
                    and rng(st, n)[0][0] > 0
            self.put(E, st, rid, REL, C(1 if ok else 0, 64))

    def on_return(self, E, st, fn, ret, I):
        if len(E.stack) != 1:
            return
        self.c.count('ends of an operation')
        keep = set()
        if self.entry == 'alloc' and not is_zero(st, ret):
            rid = E.deref(st, ret)[0]
            if not self.known(st, rid):
                E.violation('unknown', I, 'the instance handed out was not allocated', st)
                return
            self.c.count('instances handed out')
            keep.add(rid)
            if not eqv(st, self.get(E, st, rid, SIZE), C(self.F.size, 64)):
                E.violation('size', I, 'the instance has not the size of an instance', st)
            for f in OWNED:
                if f not in self.F.d:
                    continue
                p = field_get(E, st, rid, self.F, f)
                if is_zero(st, p):
                    continue
                r = E.deref(st, p)[0]
                if not self.known(st, r) or self.live(E, st, r) != 1:
                    E.violation('dangling', I, '%s of the instance handed out may point to released memory' % f, st)
                    continue
                keep.add(r)
                s = self.get(E, st, r, SIZE)
                if f == 'mem':
                    if cclass(st, self.get(E, st, rid, REL)) != 1:
                        E.violation('size', I, 'the size of the noise memory is not known to the instance', st)
                elif f == 'hash_state':
                    self.sizes.add(cclass(st, s))
        if self.entry == 'init' and self.out is not None and is_zero(st, ret):
            rid, off = E.deref(st, self.out)
            r = E.deref(st, E.read(st, rid, 0, 8))[0]
            if self.known(st, r):
                keep.add(r)
                self.sizes.add(cclass(st, self.get(E, st, r, SIZE)))
        for r in self.objs(st):
            if r not in keep and self.live(E, st, r) != 0:
                E.violation('leak', I, 'an object is neither released nor reachable from the result', st)


BASIC = ('jent_zalloc', 'jent_zfree')
HOOK = BASIC + ('jent_notime_enable', 'jent_notime_disable', 'jent_notime_settick', 'jent_notime_unsettick',
                'jent_entropy_init_ex', 'jent_random_data', 'jent_health_failure') + OTHER
NEVER = ('jent_cache_size_roundup', 'jent_shake256_init', 'jent_gcd_get', 'jent_health_init', 'jent_uuid_generate',
         'jent_measure_jitter', 'jent_gcd_analyze', 'jent_gcd_analyze_internal', 'jent_sha3_tester',
         'jent_health_failure_reset')


def engine(c, mod, entry, hooks=HOOK):
    F = Fields(mod)
    mon = Heap(c, F, entry)
    mon.sizes, mon.given, mon.out = set(), (), None
    if hooks != HOOK:
        base = mon.on_call
        mon.on_call = lambda E, st, name, args, I: base(E, st, name, args, I) if name in hooks else None

    pol = Policy(mod, calls=hooks, never=NEVER, writes=True, small=160,
                 tracked=lambda E, st: [(r, F.off(f), F.bytes(f)[1]) for r in mon.objs(st) for f in OWNED + ('memmask',) if f in F.d])
    pol.S.member = lambda E, st, rid, off: mon.member(E, st, rid, off)
    E = Engine(mod, mon, opts=dict(skip=pol))
    st = State()
    return F, mon, E, st


def alloc(c, mod, q):
    F, mon, E, st = engine(c, mod, 'alloc')
    st.mon['_keep'] = (sym('osr', 32), sym('flags', 32))
    E.run('jent_entropy_collector_alloc', [sym('osr', 32), sym('flags', 32)], st)
    c.absorb(E)
    if len(mon.sizes) != 1 or '*' in mon.sizes:
        if not E.viol:
            raise AnalysisError('size of the hash state not determined: %s' % mon.sizes)
    return list(mon.sizes)[0] if mon.sizes else 0


def free(c, mod, hs):
    """any instance the allocation can have handed out"""
    F, mon, E, st = engine(c, mod, 'free')
    ec = sym('ec')
    mon.given = (ec, sym('mem'), sym('hash'), sym('timer'))
    E.cstack, E.curctx, E.stack = [], 0, []
    mm = sym('memmask', 8 * F.bytes('memmask')[1])
    for p, n in ((sym('mem'), dom.binop('add', dom.zext(mm, 64), C(1, 64), 64)), (sym('hash'), C(hs, 64)),
                 (sym('timer'), C(0, 64)), (ec, C(F.size, 64))):
        st.facts[p] = ((4096, M64 - (1 << 40)),)
        E.ptrphi.add(p)
        mon.add(E, st, p, n)
    out = []
    st.mem[('D', ec)].default = 'sym'
    mon.put(E, st, ('D', ec), REL, C(1, 64))
    E.write(st, ('D', ec), F.off('memmask'), F.bytes('memmask')[1], mm)
    for m in (0, 1):
        for h in (1,):          # only partially built instances lack it, see alloc()
            for t in (0, 1):
                s = st.copy()
                for x, f, n in ((m, 'mem', 'mem'), (h, 'hash_state', 'hash'), (t, 'notime_thread_ctx', 'timer')):
                    if f in F.d:
                        E.write(s, ('D', ec), F.off(f), 8, sym(n) if x else C(0, 64))
                    else:
                        x = 0
                    if not x:
                        mon.drop(s, ('D', sym(n)))
                s.mon['_keep'] = (ec, mm) + mon.given
                out.append(s)
    for s in out:
        E.run('jent_entropy_collector_free', [ec], s)
        c.count('instances released')
    c.absorb(E)


def nullfree(c, mod):
    F, mon, E, st = engine(c, mod, 'free')
    E.run('jent_entropy_collector_free', [C(0, 64)], st)
    c.absorb(E)


def simple(c, mod, fn):
    F, mon, E, st = engine(c, mod, fn)
    args = [sym('a%d' % i, t.n if t.k == 'int' else 64) for i, (t, r) in enumerate(mod.funcs[fn].params)]
    st.mon['_keep'] = tuple(args)
    E.run(fn, args, st)
    c.absorb(E)


def timer(c, mod):
    if not Summaries(mod).reach('jent_notime_init') & {'jent_zalloc'}:
        return
    F, mon, E, st = engine(c, mod, 'init', BASIC + OTHER)
    out = sym('out')
    mon.out = out
    st.facts[out] = ((4096, M64 - 4097),)
    E.cstack, E.curctx, E.stack = [], 0, []
    E.write(st, ('D', out), 0, 8, C(0, 64))
    st.mon['_keep'] = (out,)
    E.run('jent_notime_init', [out], st)
    c.absorb(E)
    if len(mon.sizes) != 1:
        raise AnalysisError('size of the timer context not determined')
    F, m2, E, st = engine(c, mod, 'free', BASIC + OTHER)
    p = sym('timer')
    E.cstack, E.curctx, E.stack = [], 0, []
    st.facts[p] = ((4096, M64 - (1 << 40)),)
    m2.add(E, st, p, C(list(mon.sizes)[0], 64))
    m2.given = (p,)
    st.mon['_keep'] = (p,)
    E.run('jent_notime_fini', [p], st)
    c.count('timer contexts released')
    c.absorb(E)


def check(c):
    c.rule('all allocations and releases in jent_entropy_collector_alloc (every outcome), jent_entropy_collector_free (every '
           'instance the allocation can have produced), the start-up test, the divisor self test and the internal timer: '
           'an object is released at most once, with exactly its own size, is not used afterwards, and at the end only '
           'what the result owns is left')
    mods = {cfg: build.build_user(cfg) for cfg in ('default', 'notimer')}

    def run(c, j):
        mod = mods[j[0]]
        if j[1] == 'life':
            hs = alloc(c, mod, None)
            free(c, mod, hs)
            nullfree(c, mod)
        elif j[1] == 'timer':
            timer(c, mod)
        else:
            simple(c, mod, j[1])
    pmap(c, [(cfg, w) for cfg in mods for w in ('life', 'timer', 'jent_time_entropy_init', 'jent_gcd_selftest')], run)
    for w in ('allocations', 'releases', 'instances handed out', 'instances released', 'ends of an operation',
              'timer contexts released'):
        c.need(w, 1)
    # the release itself
    c.borrow('C12', 'wipe', 'unmap')
