"""C12: memory for the entropy state is isolated, locked, kept out of dumps, cleared, and released as a whole"""
from sa import build
from sa.lib import *
from .rd import eqv, le
from .c03 import M64

FORCE = 8
DONTDUMP = 16
PAGES = (4096, 16384, 65536)
GOT, GUARD0, GUARD1, DUMP, TRIED, LOCKED, CLEARED, GONE, BARRIER = (1 << i for i in range(9))


def low_cleared(t):
    """(x, k) when t is x with its k low bits cleared"""
    if t[0] == 'b' and t[2][0][0] == ('c', 0, t[2][0][1]) or t[0] == 'b' and t[2][0][0][0] == 'c' and t[2][0][0][1] == 0:
        k = t[2][0][1]
        if len(t[2]) == 2:
            p, n = t[2][1]
            if p[0] == 'e' and p[1] == 'bits' and p[4] == k and dom.width(p[3]) == k + n:
                return p[3], k
    if t[0] == 'e' and t[1] == 'and' and t[4][0] == 'c':
        m = ~t[4][1] & (M64 - 1)
        if m & (m + 1) == 0:
            return t[3], m.bit_length()
    return None


def at_least(st, t, ln):
    """t >= ln, where t may be ln rounded up to a power of two; sums known not to wrap"""
    if le(st, ln, t):
        return True
    acc = dom.lin(t, 64)
    terms, const = list(acc.items()), 0
    low = C(0, 64)
    for x, k in terms:
        if x in (None,):
            low = dom.binop('add', low, C(k % (1 << 64), 64), 64)
            continue
        r = low_cleared(x)
        if r and k == 1:
            low = dom.binop('add', low, dom.binop('sub', r[0], C((1 << r[1]) - 1, 64), 64), 64)
        else:
            low = dom.binop('add', low, dom.binop('mul', x, C(k % (1 << 64), 64), 64), 64)
    d = dom.lsub(low, ln)
    return d[0] == 'c' and d[1] < 1 << 62


class Map(Monitor):
    """status word in the ghost region; the mapping is [base, base + total)"""

    def __init__(self, c, page):
        self.c, self.page = c, page

    def tracked(self, E, st):
        return (st.mon['s'],)

    def set(self, st, b):
        st.mon['s'] |= b

    def off(self, st, p):
        """offset of p in the mapping, None when it is another object"""
        b = st.mon.get('_base')
        if b is None:
            return None
        if p[0] == 'p':
            return dom.offterm(p[2]) if p[1] == ('D', b) else None
        if p == b:
            return C(0, 64)
        d = dom.lsub(p, b)
        return d if b not in dom.symset(d) else None

    def on_call(self, E, st, name, args, I):
        P = self.page
        if name == 'sysconf':
            return [(st, C(P, 64))]
        if name == 'mmap':
            self.c.count('mappings')
            a = st.copy()
            p = E.fresh(st, I, 64, 'map')
            st.facts[p] = ((1 << 16, 1 << 47),)
            E.ptrphi.add(p)
            if st.mon['s'] & GOT:
                E.violation('mapping', I, 'more than one mapping for one object', st)
            st.mon['_base'] = p
            st.mon['_total'] = args[1]
            st.mem[('D', p)] = Region('zero', None)
            st.owned.add(('D', p))
            self.set(st, GOT | CLEARED)
            fl, prot = cclass(st, args[3]), cclass(st, args[2])
            if fl == '*' or not fl & 0x20 or not fl & 2 or fl & 1:
                E.violation('mapping', I, 'the memory is not a private anonymous mapping', st)
            return [(a, C(M64 - 1, 64)), (st, p)]
        if name in ('mprotect', 'mlock', 'madvise', 'munmap', 'mlock2'):
            o = self.off(st, args[0])
            if o is None:
                if name == 'munmap':
                    E.violation('mapping', I, 'something else than the mapping is unmapped', st)
                return
            n = args[1]
            T = st.mon['_total']
            a = st.copy()
            if name == 'mprotect':
                self.c.count('protection changes')
                if is_zero(st, args[2]) and rng(st, n) == ((P, P),):
                    if is_zero(st, o):
                        self.set(st, GUARD0)
                    elif eqv(st, dom.binop('add', o, n, 64), T):
                        self.set(st, GUARD1)
                    else:
                        E.violation('guard', I, 'memory inside the object may be made inaccessible', st)
                elif is_zero(st, args[2]):
                    E.violation('guard', I, 'memory inside the object may be made inaccessible', st)
            elif name in ('mlock', 'mlock2'):
                self.c.count('locks')
                a.mon['s'] |= TRIED
                st.mon['s'] |= TRIED
                if eqv(st, o, C(P, 64)) and at_least(st, n, self.len):
                    self.set(st, LOCKED)
                else:
                    E.violation('lock', I, 'not the whole object is locked', st)
            elif name == 'madvise':
                self.c.count('dump exclusions')
                if cclass(st, args[2]) == DONTDUMP:
                    if eqv(st, o, C(P, 64)) and at_least(st, n, self.len):
                        self.set(st, DUMP)
                        a.mon['s'] |= DUMP      # advisory: a failure is tolerated
                    else:
                        E.violation('dump', I, 'not the whole object is kept out of core dumps', st)
            else:
                self.c.count('unmappings')
                if not is_zero(st, o) or not eqv(st, n, T):
                    E.violation('unmap', I, 'not exactly the mapping is released', st)
                self.set(st, GONE)
                return [(st, C(0, 32))]
            r = E.fresh(a, I, 32, name)
            a.facts[r] = ((1, (1 << 32) - 1),)
            return [(a, r), (st, C(0, 32))]

    def on_return(self, E, st, fn, ret, I):
        if len(E.stack) != 1:
            return
        s = st.mon['s']
        if is_zero(st, ret):
            self.c.count('refused allocations')
            if s & GOT and not s & GONE:
                E.violation('leak', I, 'the mapping is lost when the allocation is refused', st)
            return
        self.c.count('successful allocations')
        o = self.off(st, ret)
        if o is None or s & GONE:
            E.violation('mapping', I, 'the memory handed out is not a live mapping', st)
            return
        P, T = self.page, st.mon['_total']
        if not eqv(st, o, C(P, 64)):
            E.violation('mapping', I, 'the memory handed out does not start behind the leading guard page', st)
        pay = dom.lsub(T, C(2 * P, 64))
        if not at_least(st, pay, self.len):
            E.violation('size', I, 'the memory between the guard pages may be smaller than requested', st)
        for b, t in ((GUARD0, 'no guard page in front of'), (GUARD1, 'no guard page behind'),
                     (TRIED, 'no lock was requested for'), (DUMP, 'core dumps may contain')):
            if not s & b:
                E.violation('protect', I, '%s the memory handed out' % t, st)
        f = cclass(st, dom.bits(self.flags, FORCE, 1))
        if f != 0 and not s & LOCKED:
            E.violation('force', I, 'unlocked memory may be handed out although protected memory was required', st)
        if f == 1:
            self.c.count('allocations with protection required')


class Free(Monitor):
    def __init__(self, c, page):
        self.c, self.page = c, page

    def tracked(self, E, st):
        return (st.mon['s'], zclass(st, self.ptr))

    def on_call(self, E, st, name, args, I):
        P = self.page
        if name == 'sysconf':
            return [(st, C(P, 64))]
        if name in ('munmap', 'free'):
            self.c.count('releases')
            p = args[0]
            want = self.ptr
            ok = False
            if p[0] == 'p':
                ok = p[1] == ('D', self.ptr) and eqv(st, dom.offterm(p[2]), C(-P % (1 << 64), 64))
            else:
                ok = eqv(st, dom.lsub(p, self.ptr), C(-P % (1 << 64), 64))
            if not ok:
                E.violation('unmap', I, 'the release does not start at the leading guard page', st)
            if dom.subst(self.total, {sym('len'): self.len}) != args[1] and not eqv(st, self.total, args[1]):
                E.violation('unmap', I, 'the released length differs from the mapping', st)
            if not st.mon['s'] & CLEARED:
                E.violation('wipe', I, 'memory is released that was not wiped over its full length', st)
            if not st.mon['s'] & BARRIER:
                E.violation('wipe', I, 'the wipe before the release may be removed by the compiler', st)
            if st.mon['s'] & GONE:
                E.violation('unmap', I, 'the memory is released twice', st)
            st.mon['s'] |= GONE
            return [(st, C(0, 32))]
        if name in ('explicit_bzero', 'memset_explicit'):
            if args[0] == self.ptr and at_least(st, args[1], self.len):
                st.mon['s'] |= CLEARED | BARRIER
            return [(st, None)]

    def on_write(self, E, st, rid, off, n, I, src):
        if rid != ('D', self.ptr):
            return
        if src[0] == 'set' and is_zero(st, dom.bits(src[1], 0, 8)) and off == 0 and at_least(st, n, self.len):
            self.c.count('wipes')
            st.mon['s'] = (st.mon['s'] | CLEARED) & ~BARRIER
        else:
            st.mon['s'] &= ~CLEARED

    def on_store(self, E, st, rid, off, size, val, I):
        if rid == ('D', self.ptr):
            st.mon['s'] &= ~CLEARED

    def on_asm(self, E, st, asm, args, I):
        if 'memory' in str(asm):
            st.mon['s'] |= BARRIER

    def on_return(self, E, st, fn, ret, I):
        if len(E.stack) == 1:
            self.c.count('ends of a release')
            if is_zero(st, self.ptr):
                return
            if not st.mon['s'] & GONE:
                E.violation('leak', I, 'the memory is not released', st)


def one(c, mod, page, force):
    mon = Map(c, page)
    mon.len, mon.flags = sym('len'), sym('flags', 32)
    E = Engine(mod, mon, opts=dict(skip=Policy(mod, small=400)))
    st = State()
    st.mon.update(s=0, _keep=(mon.len, mon.flags))
    mon.flags = dom.cat(((dom.bits(mon.flags, 0, FORCE), FORCE), (C(force, 1), 1),
                         (dom.bits(mon.flags, FORCE + 1, 31 - FORCE), 31 - FORCE)))
    E.run('jent_zalloc', [mon.len, mon.flags], st)
    c.absorb(E)


def rel(c, mod, page):
    # the length of the mapping, taken from the allocation
    tot = []

    class T(Map):
        def on_call(self, E, st, name, args, I):
            if name == 'mmap':
                tot.append(args[1])
            return Map.on_call(self, E, st, name, args, I)
    q = Check(c.pid, c.tier)
    mon = T(q, page)
    mon.len, mon.flags = sym('len'), sym('flags', 32)
    E = Engine(mod, mon, opts=dict(skip=Policy(mod, small=400)))
    st = State()
    st.mon.update(s=0, _keep=(mon.len, mon.flags))
    E.run('jent_zalloc', [mon.len, mon.flags], st)
    if len(set(tot)) != 1:
        raise AnalysisError('the length of the mapping could not be determined')
    mon = Free(c, page)
    mon.ptr, mon.len, mon.total = sym('ptr'), sym('len'), tot[0]
    E = Engine(mod, mon, opts=dict(skip=Policy(mod, small=400)))
    st = State()
    st.facts[mon.ptr] = ((0, 0), (1 << 17, 1 << 47))
    st.mon.update(s=0, _keep=(mon.ptr, mon.len))
    E.run('jent_zfree', [mon.ptr, mon.len], st)
    c.absorb(E)


class Ask(Monitor):
    def __init__(self, c):
        self.c = c

    def on_return(self, E, st, fn, ret, I):
        if len(E.stack) == 1:
            self.c.count('answers about protection')
            if not is_zero(st, ret):
                E.violation('claim', I, 'memory is called protected although the protection was not required when it was '
                            'allocated', st)


def ask(c, mod):
    fl = sym('flags', 32)
    fl = dom.cat(((dom.bits(fl, 0, FORCE), FORCE), (C(0, 1), 1), (dom.bits(fl, FORCE + 1, 31 - FORCE), 31 - FORCE)))
    E = Engine(mod, Ask(c), opts=dict(skip=Policy(mod, small=400)))
    st = State()
    E.run('jent_memory_is_secure', [fl], st)
    c.absorb(E)


def check(c):
    c.rule('jent_zalloc for every length, flag word, outcome of the system calls and page sizes 4, 16 and 64 kB: what is '
           'handed out lies between two guard pages of one private mapping that is excluded from dumps, with a lock '
           'requested for every byte and obtained if it was required; a refused allocation leaves no mapping')
    c.rule('jent_zfree for every pointer and length: every byte is overwritten with zero in a way the compiler has to '
           'keep, then exactly the mapping of the allocation with that length is released, once')
    c.rule('jent_memory_is_secure: yes only for flags that make the protection a condition of the allocation')
    mod = build.build_user('default')
    pmap(c, [(one, p, f) for p in PAGES for f in (0, 1)] + [(rel, p) for p in PAGES] + [(ask,)],
         lambda c, j: j[0](c, mod, *j[1:]))
    for w in ('successful allocations', 'refused allocations', 'allocations with protection required', 'locks',
              'dump exclusions', 'releases', 'wipes', 'ends of a release'):
        c.need(w, 3)
    c.need('answers about protection', 1)
    # the wipe covers the object only if the callers hand over its size
    c.borrow('C10', 'size')
