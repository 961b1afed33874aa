"""C11: temporary buffers of the noise collection and output generation hold only zeros when their function returns"""
from sa import build
from sa.lib import *
from .rd import eqv
from .c12 import at_least

# state of a buffer: 0 touched, 1 zero but the compiler may drop it, 2 zero for sure
WIPERS = ('explicit_bzero', 'memset_explicit', 'OPENSSL_cleanse', 'memset_s')


def buffers(mod, f):
    """byte buffers and hash contexts on the stack of f"""
    out = []
    for b in f.blocks.values():
        for I in b.ins:
            if I.op == 'alloca':
                t = I.a[0]
                s = str(t)
                if t.k == 'array' and s.endswith('x i8]') and mod.size(t) >= 16:
                    out.append((I.uid, mod.size(t)))
                elif t.k == 'named' and 'jent_sha_ctx' in s:
                    out.append((I.uid, mod.size(t)))
    return out


class Temp(Monitor):
    def __init__(self, c, mod, fn, bufs):
        self.c, self.mod, self.fn, self.size = c, mod, fn, dict(bufs)

    def regs(self, E, st):
        """regions of the buffers"""
        return {r: self.size[r[3]] for r in st.mem if r[0] == 'A' and r[2] == self.fn.name and r[3] in self.size}

    def flag(self, E, st, rid):
        return dict(st.mon['f']).get(rid[3], 2)        # never written: nothing to wipe

    def put(self, E, st, rid, v):
        d = dict(st.mon['f'])
        d[rid[3]] = v
        st.mon['f'] = tuple(sorted(d.items()))

    def tracked(self, E, st):
        return st.mon['f']

    def touched(self, E, st, rid, off, n, zero, I, vol=False):
        R = self.regs(E, st)
        if rid not in R:
            return
        if zero and off == 0 and at_least(st, n, C(R[rid], 64)):
            self.c.count('wipes')
            self.put(E, st, rid, 2 if vol else 1)
        else:
            self.put(E, st, rid, 0)

    def on_store(self, E, st, rid, off, size, val, I):
        if rid in self.regs(E, st):
            self.put(E, st, rid, 0)

    def on_write(self, E, st, rid, off, n, I, src):
        if isinstance(n, int):
            n = C(n, 64)
        self.touched(E, st, rid, off, n, src[0] == 'set' and is_zero(st, dom.bits(src[1], 0, 8)), I)

    def on_call(self, E, st, name, args, I):
        if name in WIPERS:
            rid, off = E.deref(st, args[0])
            self.touched(E, st, rid, off, dom.zext(args[1], 64), True, I, True)
            return [(st, None)]

    def on_asm(self, E, st, asm, args, I):
        if 'memory' in str(asm):
            for r in self.regs(E, st):
                if self.flag(E, st, r) == 1:
                    self.put(E, st, r, 2)

    def on_return(self, E, st, fn, ret, I):
        if len(E.stack) != 1:
            return
        for r, n in self.regs(E, st).items():
            self.c.count('buffers at a return')
            f = self.flag(E, st, r)
            if f == 1:
                E.violation('removable', I, 'the wipe of a temporary buffer of %d bytes may be removed by the compiler' % n, st)
            elif f != 2:
                E.violation('residue', I, 'a temporary buffer of %d bytes is left on the stack without being wiped' % n, st)


def one(c, mod, S, name, bufs):
    fn = mod.funcs[name]
    mon = Temp(c, mod, fn, bufs)
    def skip(E, st, f, av, I):
        if E.summ is None:
            E.summ = S
        if f.name.startswith('jent_sha3_') or f.name.startswith('jent_keccak') or f.name.startswith('jent_shake'):
            return True
        # look into whatever gets hold of a buffer
        R = mon.regs(E, st)
        return not any(a[0] == 'p' and a[1] in R for a in av)
    E = Engine(mod, mon, opts=dict(skip=skip))
    st = State()
    args = []
    for i, (t, r) in enumerate(fn.params):
        a = sym('arg%d' % i, 64 if t.k != 'int' else t.n)
        if t.k != 'int':
            st.facts[a] = ((4096, (1 << 64) - 4097),)
        args.append(a)
    st.mon['_keep'] = tuple(args)
    st.mon['f'] = ()
    E.run(name, args, st)
    c.count('functions with temporary buffers')
    c.absorb(E)


def check(c):
    c.rule('every function reachable from jent_read_entropy that has a byte buffer of 16 bytes or more or a hash context '
           'on its stack: at every return each of them was never written or was overwritten with zeros over its full '
           'length after the last write, followed by a compiler barrier')
    c.assume('temporaries of the permutation itself (64-bit lanes) are not covered')
    mods, sums, jobs = {}, {}, []
    for cfg in ('default', 'notimer'):
        mod = mods[cfg] = build.build_user(cfg)
        S = sums[cfg] = Summaries(mod)
        reach = {'jent_read_entropy'} | set(S.reach('jent_read_entropy'))
        # noise collection is reached through function pointers
        for n, f in mod.funcs.items():
            ty = mod.fparams(f) or []
            if ty and ty[0] == 'rand_data*' and n.startswith('jent_measure'):
                reach |= {n} | set(S.reach(n))
        for n in sorted(x for x in reach if x in mod.funcs):
            b = buffers(mod, mod.funcs[n])
            if b:
                jobs.append((cfg, n, b))
    pmap(c, jobs, lambda c, j: one(c, mods[j[0]], sums[j[0]], j[1], j[2]))
    c.need('functions with temporary buffers', 8)
    c.need('wipes', 8)
