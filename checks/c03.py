"""C03: retry policy of the self-healing read"""
from sa import build
from sa.lib import *
from .rd import eqv, le, GH

TERM = (-1, -4, -6, -7, -8, -10, -11)
RETRY = (-2, -3, -5, -9)
ALLOC = ('_jent_entropy_collector_alloc', 'jent_entropy_collector_alloc', 'jent_entropy_collector_alloc_internal',
         'jent_entropy_collector_alloc_common')
M64 = 1 << 64
# ghost cells
DONE, USED, NEW, IOSR, IFLG, IRES = 0, 8, 16, 24, 32, 40
FREED_OLD, FREED_NEW, REQ = 48, 56, 64


class Safe(Monitor):
    def __init__(self, c, F, ecp, data, ln):
        self.c, self.F, self.ecp, self.data, self.len = c, F, ecp, data, ln

    def g(self, E, st, o):
        return E.read(st, GH, o, 8)

    def s(self, E, st, o, v):
        E.write(st, GH, o, 8, v)

    def tracked(self, E, st):
        return (st.mon.get('rc'), st.mon.get('alloc'), cclass(st, self.g(E, st, FREED_OLD)),
                cclass(st, self.g(E, st, FREED_NEW)), self.which(E, st), zclass(st, self.len), zclass(st, self.data))

    def cur(self, E, st):
        return E.read(st, ('D', self.ecp), 0, 8)

    def which(self, E, st):
        """does *ec hold the collector used before (0), the freshly allocated one (1), something else (2)"""
        c = self.cur(E, st)
        if st.mon.get('alloc') == 1 and c == self.g(E, st, NEW):
            return 1
        if c == self.g(E, st, USED):
            return 0
        return 2

    def settled(self, E, st, I, what):
        """*ec is a live collector, nothing leaked"""
        w = self.which(E, st)
        al = st.mon.get('alloc')
        fo, fn = cclass(st, self.g(E, st, FREED_OLD)), cclass(st, self.g(E, st, FREED_NEW))
        if w == 2:
            E.violation('handle', I, '%s with a handle that is neither the collector used so far nor a freshly '
                        'allocated one' % what, st)
        elif w == 1 and (fo != 1 or fn != 0):
            E.violation('handle', I, '%s after the replacement, but the old collector was not released exactly once '
                        '(or the new one was released)' % what, st)
        elif w == 0 and fo != 0:
            E.violation('handle', I, '%s although the collector behind the handle was released' % what, st)
        elif w == 0 and al == 1 and fn != 1:
            E.violation('handle', I, '%s: the newly allocated collector is lost' % what, st)

    def on_call(self, E, st, name, args, I):
        if name == 'jent_read_entropy':
            self.c.count('inner reads')
            rc = st.mon.get('rc')
            first = rc is None
            cur = self.cur(E, st)
            if not eqv(st, args[0], cur):
                E.violation('args', I, 'the inner read is not done on the collector of the handle', st)
            done = self.g(E, st, DONE)
            if not eqv(st, args[1], self.data if done == C(0, 64) else E_add(self.data, done)):
                E.violation('args', I, 'the inner read does not continue behind the bytes already delivered', st)
            if not first:
                self.settled(E, st, I, 'the read is repeated')
                if rc in TERM:
                    E.violation('terminal', I, 'the read is repeated after the inner read reported %d' % rc, st)
                if rc in RETRY and self.which(E, st) != 1:
                    E.violation('retry', I, 'the read is repeated after %d on a collector that was not replaced' % rc,
                                st)
                if rc == 'other':
                    E.violation('terminal', I, 'the read is repeated after an unknown error', st)
            if not eqv(st, dom.binop('add', done, args[2], 64), self.len):
                # clamped request
                if not eqv(st, dom.binop('add', done, args[2], 64), C((1 << 63) - 1, 64)) or \
                        dom.hull(rng(st, self.len))[0] < (1 << 63) - 1:
                    E.violation('args', I, 'the inner read does not ask for exactly the missing bytes', st)
            out = []
            for k in TERM + RETRY:
                s = st.copy()
                self.reset(E, s, k, cur)
                out.append((s, C(k % M64, 64)))
            s = st.copy()
            self.reset(E, s, 'other', cur)
            r = E.fresh(s, I, 64, 'neg')
            s.facts[r] = ((M64 >> 1, M64 - 12),)
            out.append((s, r))
            s = st.copy()
            self.reset(E, s, 'ok', cur)
            # contract of the inner read (C19): everything that was asked for
            n = args[2]
            self.s(E, s, DONE, dom.binop('add', done, n, 64))
            E.havoc(s, ('D', self.data), None, None, I, 'out')
            out.append((s, n))
            return out
        if name == 'jent_entropy_init_ex':
            self.c.count('start-up tests before a reallocation')
            r = E.fresh(st, I, 32, 'init')
            self.s(E, st, IOSR, dom.zext(args[0], 64))
            self.s(E, st, IFLG, dom.zext(args[1], 64))
            self.s(E, st, IRES, dom.zext(r, 64))
            return [(st, r)]
        if name in ALLOC:
            self.c.count('reallocations')
            rc = st.mon.get('rc')
            if rc not in RETRY:
                E.violation('terminal', I, 'a collector is allocated although the inner read reported %s' % rc, st)
            if st.mon.get('alloc'):
                E.violation('retry', I, 'a second collector is allocated for one failure', st)
            a = st.copy()
            a.mon['alloc'] = 0
            b = st
            b.mon['alloc'] = 1
            n = E.fresh(b, I, 64, 'new')
            b.facts[n] = ((4096, M64 - 4096),)
            E.ptrphi.add(n)
            self.s(E, b, NEW, n)
            self.s(E, b, FREED_NEW, C(0, 64))
            return [(a, C(0, 64)), (b, n)]
        if name == 'jent_entropy_collector_free':
            self.c.count('releases')
            x = args[0]
            if rng(st, x) == ((0, 0),):
                return [(st, None)]
            for g, o in ((self.g(E, st, USED), FREED_OLD), (self.g(E, st, NEW), FREED_NEW)):
                if x == g:
                    if cclass(st, self.g(E, st, o)) != 0:
                        E.violation('handle', I, 'a collector is released twice', st)
                    self.s(E, st, o, C(1, 64))
                    return [(st, None)]
            E.violation('handle', I, 'an unexpected pointer is released', st)
            return [(st, None)]

    def reset(self, E, st, rc, cur):
        st.mon['rc'] = rc
        st.mon['alloc'] = None
        self.s(E, st, USED, cur)
        self.s(E, st, NEW, C(0, 64))
        self.s(E, st, FREED_OLD, C(0, 64))
        self.s(E, st, FREED_NEW, C(0, 64))
        rid = ('D', cur)
        if rid in st.mem:
            for f in ('health_failure', 'selftest_failed', 'read_invocations', 'bytes_output'):
                o, n = self.F.bytes(f)
                E.havoc(st, rid, o, n)

    def on_return(self, E, st, fn, ret, I):
        if fn.name != 'jent_read_entropy_safe' or len(E.stack) != 1:
            return
        self.c.count('returns')
        rc = st.mon.get('rc')
        r = rng(st, ret)
        k = dom.sgn(r[0][0], 64) if len(r) == 1 and r[0][0] == r[0][1] else None
        if rc is None:
            bad = is_zero(st, self.ecp) or (is_zero(st, self.data) and not is_zero(st, self.len)
                                             and rng(st, self.len)[0][0] > 0)
            if is_zero(st, self.ecp) or (is_zero(st, self.data) and rng(st, self.len)[0][0] > 0):
                if k != -1:
                    E.violation('misuse', I, 'an invalid argument is not answered with the invalid-argument error', st)
            elif not (k == 0 and is_zero(st, self.len)):
                E.violation('misuse', I, 'the call returns without having read although the arguments are usable', st)
            return
        self.settled(E, st, I, 'the call returns')
        if rc in TERM:
            if k != rc:
                E.violation('terminal', I, 'the inner read reported %d but the call returns something else' % rc, st)
            if self.which(E, st) != 0:
                E.violation('terminal', I, 'the collector is replaced although the inner read reported %d' % rc, st)
        elif rc in RETRY:
            if k != rc:
                E.violation('retry', I, 'the inner read reported %d and the retry failed, but the call returns '
                            'something else' % rc, st)
            if self.which(E, st) != 0:
                E.violation('retry', I, 'the error %d is returned although the collector was replaced' % rc, st)
        elif rc == 'other':
            if r[0][0] < (1 << 63):
                E.violation('terminal', I, 'an unknown error of the inner read is turned into a success', st)
        else:
            done = self.g(E, st, DONE)
            if r[-1][1] >> 63 or not eqv(st, ret, done):
                E.violation('success', I, 'the call does not return the number of delivered bytes', st)
            elif not eqv(st, ret, self.len) and not (r == (((1 << 63) - 1,) * 2,)
                                                     and dom.hull(rng(st, self.len))[0] >= (1 << 63) - 1):
                E.violation('success', I, 'the call returns before the request is fulfilled', st)


def E_add(p, o):
    return ('p', ('D', p), o) if o[0] != 'c' else ('p', ('D', p), o[1])


def check(c):
    c.rule('abstract interpretation of jent_read_entropy_safe for every handle, buffer, length and every answer of the '
           'inner read, the start-up test and the allocation; after each answer the reaction is compared with the '
           'documented policy')
    c.assume('contract of jent_read_entropy (decided by C02 and C19): error code or the full (clamped) length')
    for cfg in ('default', 'notimer'):
        mod = build.build_user(cfg)
        F = Fields(mod)
        ecp, data, ln = sym('ecp'), sym('data'), sym('len')
        mon = Safe(c, F, ecp, data, ln)
        pol = Policy(mod, calls=('jent_read_entropy', 'jent_entropy_init_ex', 'jent_entropy_collector_free') + ALLOC,
                     tracked=lambda E, st: [(('D', ecp), 0, 8)])
        E = Engine(mod, mon, opts=dict(skip=pol))
        st = State()
        g = Region('zero', 80)
        for o in (DONE, USED, NEW, IOSR, IFLG, IRES, FREED_OLD, FREED_NEW):
            g.cells[o] = (8, C(0, 64))
        st.mem[GH] = g
        st.mon.update(rc=None, alloc=None, _keep=(ecp, data, ln))
        E.run('jent_read_entropy_safe', [ecp, data, ln], st)
        c.absorb(E)
    for w in ('inner reads', 'reallocations', 'releases', 'returns', 'start-up tests before a reallocation'):
        c.need(w)
