"""shared set-up: jent_read_entropy analysed for every instance state, buffer and length"""
from sa import build
from sa.lib import *

HBITS = {'RCT': 1, 'APT': 2, 'LAG': 4, 'RCT_MEM': 8}
# documented precedence: permanent failures first
ORDER = [(1 << 16, -6), (2 << 16, -7), (4 << 16, -8), (8 << 16, -10), (1, -2), (2, -3), (8, -9)]
SSIZE_MAX = (1 << 63) - 1


def expected(mask):
    for b, code in ORDER:
        if mask & b:
            return code
    return -5 if mask else 0


def masks(st, v):
    """the failure masks a state admits (defined bits only)"""
    out = [0]
    for b in (0, 1, 2, 3, 16, 17, 18, 19):
        r = rng(st, dom.bits(v, b, 1))
        n = []
        for m in out:
            if r[0][0] == 0:
                n.append(m)
            if r[-1][1] == 1:
                n.append(m | (1 << b))
        out = n
    whole = rng(st, v)
    return [m for m in out if any(lo <= m <= hi for lo, hi in whole)]


def hf_units(F):
    b, n = F.bits('health_failure')
    return tuple((b + i, 1) for i in (0, 1, 2, 3, 16, 17, 18, 19)) + ((b + 4, 12), (b + 20, n - 20))


GH = ('GH', 'ghost')


class Read(Monitor):
    """ghost cell 0: number of bytes written into the caller's buffer"""

    def __init__(self, c, F, EC, OUT):
        self.c, self.F, self.EC, self.OUT = c, F, EC, OUT

    def tracked(self, E, st):
        F, EC = self.F, self.EC
        return (zclass(st, field_get(E, st, EC, F, 'is_fips_enabled')),
                zclass(st, field_get(E, st, EC, F, 'selftest_failed')))

    def pos(self, E, st):
        return E.read(st, GH, 0, 8)

    def on_store(self, E, st, rid, off, size, val, I):
        if rid == self.OUT:
            self.emit(E, st, off, C(size, 64), I)

    def on_write(self, E, st, rid, off, n, I, src):
        if rid == self.OUT:
            if src[0] == 'havoc':
                raise AnalysisError('the caller buffer is written by a summarised call')
            self.emit(E, st, off, n, I)

    def emit(self, E, st, off, n, I):
        self.c.count('writes into the caller buffer')
        if rng(st, n) == ((0, 0),):
            return
        p = self.pos(E, st)
        self.written(E, st, dom.offterm(off), n, p, I)
        E.write(st, GH, 0, 8, dom.binop('add', p, n, 64))

    def written(self, E, st, off, n, p, I):
        pass

    def on_return(self, E, st, fn, ret, I):
        if fn.name == 'jent_read_entropy' and len(E.stack) == 1:
            self.c.count('returns of jent_read_entropy')
            self.returned(E, st, ret, I)


def eqv(st, a, b):
    d = dom.lsub(a, b)
    return d == C(0, dom.width(a)) or rng(st, d) == ((0, 0),) or rng(st, dom.lsub(b, a)) == ((0, 0),)


def le(st, a, b):
    """a <= b (unsigned) provable"""
    ra, rb = rng(st, a), rng(st, b)
    if dom.hull(ra)[1] <= dom.hull(rb)[0]:
        return True
    from sa.absint import known, truth
    if a == b or known(st, 'ule', a, b) or truth(st, 'ule', a, b):
        return True
    if a[0] == 'e' and a[1] == 'select':
        s1, s2 = st.copy(), st.copy()
        from sa.absint import assume
        ok = True
        if assume(s1, a[3], True):
            ok = ok and le(s1, a[4], b)
        if assume(s2, a[3], False):
            ok = ok and le(s2, a[5], b)
        return ok
    # b - a known not to wrap
    d = dom.lsub(b, a)
    f = st.facts.get(d)
    if f is not None and dom.hull(f)[1] <= dom.hull(rb)[1] and dom.hull(f)[1] < (1 << 63):
        return True
    return False


def run(c, cfg, Mon, extra=()):
    mod = build.build_user(cfg)
    F = Fields(mod)
    ec, data, ln = sym('ec'), sym('data'), sym('len')
    EC, OUT = ('D', ec), ('D', data)
    mon = Mon(c, F, EC, OUT)
    mon.ec, mon.data, mon.len = ec, data, ln
    tr = [(EC,) + F.bytes(f) for f in ('health_failure', 'is_fips_enabled', 'selftest_failed') + tuple(extra)]
    pol = Policy(mod, writes=False, tracked=lambda E, st: tr + [(OUT, None, None)])
    # writers of the caller buffer have to be looked into
    out_w = lambda E, st: [(OUT, None, None)]

    def skip(E, st, fn, av, I):
        if not pol(E, st, fn, av, I):
            return False
        w, anyw = pol.S.effects(E, st, pol.S.w, fn, av)
        return not any(r == OUT for r, _, _ in w)
    E = Engine(mod, mon, opts=dict(skip=skip))
    E.bitrids = {EC}
    E.bitunits = F.bitfields() + hf_units(F)
    so, ss = F.bytes('selftest_failed')
    E.volatile = lambda rid, off, size: rid == EC and off < so + ss and so < off + size
    st = State()
    g = Region('zero', 8)
    g.cells[0] = (8, C(0, 64))
    st.mem[GH] = g
    st.mon['_keep'] = (ec, data, ln)
    mon.start(E, st)
    E.run('jent_read_entropy', [ec, data, ln], st)
    c.absorb(E)
    return E
