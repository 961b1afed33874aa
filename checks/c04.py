"""C04: failure latches and the enforced mode of an instance are never taken back"""
from sa import build
from sa.lib import *
from .rd import eqv

LATCH = ('health_failure', 'selftest_failed', 'is_fips_enabled')
WIPE = {'jent_zfree'}


def sup(st, new, old, d=0):
    """every bit set in old is set in new"""
    if new == old or eqv(st, new, old) or is_zero(st, old):
        return True
    w = dom.width(new)
    if new[0] == 'c':
        return new[1] == (1 << w) - 1 or (rng(st, old)[-1][1] & ~new[1] == 0 and len(rng(st, old)) == 1 and
                                         rng(st, old)[0][0] == rng(st, old)[0][1])
    if d > 8:
        return False
    if new[0] == 'b':
        pos = 0
        for p, n in new[2]:
            if not sup(st, p, dom.bits(old, pos, n), d + 1):
                return False
            pos += n
        return True
    if new[0] == 'e' and new[1] == 'or':
        return sup(st, new[3], old, d + 1) or sup(st, new[4], old, d + 1)
    if new[0] == 'e' and new[1] == 'bits' and new[3][0] == 'e' and new[3][1] == 'or':
        return any(sup(st, dom.bits(x, new[4], w), old, d + 1) for x in new[3][3:5])
    if new[0] == 'e' and new[1] == 'select':
        return sup(st, new[4], old, d + 1) and sup(st, new[5], old, d + 1)
    return rng(st, new) == (((1 << w) - 1, (1 << w) - 1),)


def roots(t):
    """names of the symbols a pointer is derived from"""
    return [dom.nm(s) if not isinstance(s[1], str) else s[1] for s in dom.symset(t)] if t[0] != 'c' else []


class Latch(Monitor):
    def __init__(self, c, F, mod, S):
        self.c, self.F, self.mod, self.S = c, F, mod, S
        self.rd = set()
        self.ty = mod.types.get('struct.rand_data')
        self.span = [F.bytes(f) for f in LATCH]

    def on_gep(self, E, st, I, p):
        t = I.a[0]
        if t.k == 'named' and t.name.lstrip('%').strip('"') == 'struct.rand_data' and p[0] == 'p' and p[1][0] == 'D':
            self.rd.add(p[1])

    def typed(self, rid):
        return rid in self.rd

    def fresh(self, rid):
        """allocated within this function: not an instance in use"""
        if rid[0] == 'A':
            return True
        if rid[0] == 'D':
            t = rid[1]
            if t[0] == 's':
                n = dom.nm(t)
                return n[0] == 'v' and n[-1] != 'arg'
        return False

    def hits(self, off, n):
        return [f for f, (o, s) in zip(LATCH, self.span) if off < o + s and o < off + n]

    def on_store(self, E, st, rid, off, size, val, I):
        if not self.typed(rid) or not isinstance(off, int):
            return
        fs = self.hits(off, size)
        if not fs or self.fresh(rid):
            return
        s2 = st.copy()
        old = E.read(s2, rid, off, size)
        for f in fs:
            b, n = self.F.bits(f)
            lo = b - 8 * off
            if lo < 0 or lo + n > 8 * size:
                E.violation(f, I, '%s is partly overwritten' % f, st)
                continue
            self.c.count('stores to a latch')
            o, v = dom.bits(old, lo, n), dom.bits(val, lo, n)
            if f == 'selftest_failed' and zclass(st, v) == 1:
                continue
            if not sup(s2, v, o):
                E.violation(f, I, '%s of an instance in use may lose a value it was set to' % f, st)

    def on_write(self, E, st, rid, off, n, I, src):
        if src[0] == 'havoc' or not self.typed(rid) or self.fresh(rid) or not isinstance(off, int):
            return
        k = n if isinstance(n, int) else dom.hull(rng(st, n))[1]
        for f in self.hits(off, k):
            E.violation(f, I, '%s of an instance in use is overwritten as part of a larger object' % f, st)

    def on_call(self, E, st, name, args, I):
        if name in WIPE:
            return [(st, None)]

    def on_skip(self, E, st, fn, args, I):
        """callees are analysed on their own; an instance handed on under another type is looked at here"""
        ty = self.mod.fparams(fn)
        if ty is None:
            return
        for i, a in enumerate(args):
            if a[0] == 'p' and a[1] in self.rd and i < len(ty) and not ty[i].startswith('rand_data'):
                w, _ = self.S.effects(E, st, self.S.w, fn, args)
                for rid, o, s in w:
                    if rid == a[1] and o is not None and not self.fresh(rid):
                        for f in self.hits(o, s):
                            E.violation(f, I, '%s of an instance in use is overwritten by %s' % (f, fn.name), st)


def one(c, mod, S, name, inline=()):
    F = Fields(mod)
    fn = mod.funcs[name]
    ty = mod.fparams(fn) or []
    mon = Latch(c, F, mod, S)
    pol = Policy(mod, writes=False, reads=False, small=30, always=inline)
    pol.S = S
    E = Engine(mod, mon, opts=dict(skip=pol))
    E.summ = S
    st = State()
    args, keep = [], []
    for i, (t, r) in enumerate(fn.params):
        a = sym('arg%d' % i, 64 if t.k != 'int' else t.n)
        keep.append(a)
        if i < len(ty) and ty[i] == 'rand_data*':
            mon.rd.add(('D', a))
            st.facts[a] = ((4096, (1 << 64) - 4097),)
        if t.k not in ('int', 'ptr'):
            return
        args.append(a)
    st.mon['_keep'] = tuple(keep)
    c.count('functions analysed')
    E.run(name, args, st)
    c.absorb(E)


def touches(mod, F):
    """functions with an access to struct rand_data or a parameter of that type"""
    out = []
    for n, f in mod.funcs.items():
        ty = mod.fparams(f) or []
        if any('rand_data' in t for t in ty):
            out.append(n)
            continue
        for b in f.blocks.values():
            if any(I.op == 'getelementptr' and I.a[0].k == 'named' and 'struct.rand_data' in I.a[0].name for I in b.ins):
                out.append(n)
                break
    return out


def check(c):
    c.rule('every store to the health-failure word, the self-test mark or the enforced-mode bit of an instance, in every '
           'function of the library that handles instances: the new value contains every bit of the old one (the '
           'self-test mark: stays non-zero); bulk writes over these fields only for the wipe before release or an object '
           'allocated by the function itself')
    jobs = []
    mods, sums = {}, {}
    for cfg in ('default', 'notimer'):
        mods[cfg] = build.build_user(cfg)
        sums[cfg] = Summaries(mods[cfg])
        F = Fields(mods[cfg])
        jobs += [(cfg, n) for n in touches(mods[cfg], F)]
    modular(c, jobs, mods, lambda c, j, inl: one(c, mods[j[0]], sums[j[0]], j[1], inl))
    c.need('functions analysed', 30)
    c.need('stores to a latch', 10)
