"""C09: the known-answer self test judges every output byte, and a failure is bound to the instance"""
from sa import build
from sa.lib import *
from .rd import eqv

M64 = 1 << 64
MODES = {'jent_sha3_256_init': 'sha3', 'jent_shake256_init': 'shake'}
OUT = ('jent_sha3_final', 'jent_xdrbg256_generate_block', 'jent_drbg_generate_block')


class Kat(Monitor):
    def __init__(self, c, F, EC, null):
        self.c, self.F, self.EC, self.null = c, F, EC, null

    def pins(self, st):
        """per mode the number of known bytes in the best judged digest"""
        out = {}
        for mode, syms in st.mon.get('_dig', ()):
            n = sum(1 for s in syms if cclass(st, s) != '*')
            out[mode] = max(n, out.get(mode, 0))
        return tuple(sorted(out.items()))

    def tracked(self, E, st):
        return (st.mon.get('_mode'), self.pins(st), len(st.mon.get('_dig', ())),
                None if self.null else zclass(st, field_get(E, st, self.EC, self.F, 'selftest_failed')))

    def on_call(self, E, st, name, args, I):
        if name in MODES:
            st.mon['_mode'] = MODES[name]
            return None
        if name in OUT:
            p = args[1]
            rid, off = E.deref(st, p)
            reg = E.region(st, rid)
            if not isinstance(off, int) or not isinstance(reg.size, int):
                return None
            n = reg.size - off
            if len(args) > 2:
                if args[2][0] != 'c' or args[2][1] > n:
                    E.violation('overflow', I, 'the known-answer buffer is too small', st)
                    return None
                n = args[2][1]
            self.c.count('digests computed by the self test')
            # a digest replaces what an earlier one left in the same buffer
            k = len(st.mon.get('_dig', ()))
            syms = []
            for i in range(n):
                s = ('s', 'o%d_%d' % (k, i), 8)
                E.write(st, rid, off + i, 1, s)
                syms.append(s)
            st.mon['_dig'] = st.mon.get('_dig', ()) + ((st.mon.get('_mode'), tuple(syms)),)
            st.mon['_keep'] = st.mon.get('_keep', ()) + tuple(syms)
            return [(st, None if I.ty is None or I.ty.k == 'void' else E.fresh(st, I, 32, 'r'))]
        if name in ('memcmp', 'bcmp'):
            n = args[2]
            if n[0] == 'c' and n[1] <= 256:
                A = [E.deref(st, a) for a in args[:2]]
                if all(isinstance(o, int) for _, o in A):
                    self.c.count('comparisons')
                    eq, ne = st.copy(), st
                    from sa.absint import assume
                    ok = True
                    for i in range(n[1]):
                        a, b = (E.read(eq, r, o + i, 1) for r, o in A)
                        ok = ok and assume(eq, dom.icmp('eq', a, b), True)
                    r = E.fresh(ne, I, 32, 'cmp')
                    ne.facts[r] = ((1, (1 << 32) - 1),)
                    return ([(eq, C(0, 32))] if ok else []) + [(ne, r)]
        return None

    def on_return(self, E, st, fn, ret, I):
        if len(E.stack) != 1:
            return
        self.c.count('verdicts')
        z = zclass(st, ret)
        if z != 1:
            p = dict(self.pins(st))
            for mode, text in (('sha3', 'SHA3-256'), ('shake', 'SHAKE-256/XDRBG-256')):
                if p.get(mode, 0) < 32:
                    E.violation('verdict', I, 'the self test may pass although only %d bytes of a %s known answer were '
                                'compared' % (p.get(mode, 0), text), st)
        if not self.null:
            v = field_get(E, st, self.EC, self.F, 'selftest_failed')
            if z != 0 and zclass(st, v) != 1:
                E.violation('bind', I, 'a failed self test may leave the instance it is bound to unmarked', st)
            if z != 1 and not eqv(st, v, st.mon['_old']):
                E.violation('bind', I, 'a passed self test changes the mark of the instance', st)


def check(c):
    dom.MAXDEPTH = 150      # accumulated comparisons
    c.rule('jent_selftest for every instance or none, with the conditioner returning arbitrary bytes: on every path that '
           'reports success each of the 32 bytes of a SHA3-256 and of a SHAKE/XDRBG output is known to be one particular '
           'constant; on every other path the mark of the bound instance is set; a success leaves the mark alone')
    for cfg in ('default', 'notimer'):
        mod = build.build_user(cfg)
        F = Fields(mod)
        for null in (1, 0):
            ec = sym('ec')
            EC = ('D', ec)
            mon = Kat(c, F, EC, null)
            o, n = F.bytes('selftest_failed')
            pol = Policy(mod, calls=OUT + tuple(MODES), never=OUT + tuple(MODES), writes=True, small=20,
                         tracked=lambda E, st: [(EC, o, n)])
            E = Engine(mod, mon, opts=dict(skip=pol, trip=40))
            st = State()
            if not null:
                st.facts[ec] = ((4096, M64 - 4097),)
                E.write(st, EC, o, n, sym('mark', 8 * n))
                st.mon['_old'] = field_get(E, st, EC, F, 'selftest_failed')
                st.mon['_keep'] = (ec, sym('mark', 8 * n))
            E.run('jent_selftest', [C(0, 64) if null else ec], st)
            c.absorb(E)
    c.need('digests computed by the self test', 4)
    c.need('verdicts', 4)
