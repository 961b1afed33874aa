"""C16: the conditioner absorbs every byte once and in order, and what it hands out never includes what it keeps"""
from sa import build
from sa.lib import *
from .c03 import M64
from sa.absint import assume
from .rd import eqv, GH

CTX = sym('ctx')
RC = ('D', CTX)
IN = sym('in')
RI = ('D', IN)
BIG = ((1 << 16, (1 << 63) - (1 << 20)),)
RATE, WORDS = 136, 17
PERM = 'jent_keccakp_1600'


def byte(off, k):
    """byte at offset off + k of the input: a name for it"""
    t = dom.binop('add', off if isinstance(off, tuple) else C(off, 64), C(k, 64), 64)
    return dom.mk('in[%s]' % (t,), 8)


def norm(v):
    """one form for a value put together from pieces"""
    if v[0] == 'e' and v[1] == 'xor':
        return ('xor', tuple(sorted((norm(v[3]), norm(v[4])), key=repr)))
    out = []

    def add(x, n):
        if x[0] == 'b':
            for y, k in x[2]:
                add(y, k)
        elif x[0] == 'e' and x[1] == 'zext':
            k = dom.width(x[3])
            add(x[3], k)
            add(C(0, n - k), n - k)
        elif x[0] == 'c' and out and out[-1][0][0] == 'c':
            y, k = out.pop()
            out.append((C(y[1] | x[1] << k, k + n), k + n))
        else:
            out.append((x, n))
    add(v, dom.width(v))
    return ('cat', tuple(out))


def same(a, b):
    return a == b or norm(a) == norm(b)


class Sponge(Monitor):
    """ghost cells: 0 = bytes of the input taken, 8 = fill of the buffer; NEXT = words of the block put into the state"""

    def __init__(self, c, F, start, has_perm):
        self.c, self.F, self.start, self.has = c, F, start, has_perm
        self.sb, self.pb = F.off('state'), F.off('partial')

    def tracked(self, E, st):
        return (cclass(st, self.fill(E, st)),)

    def at(self, E, st):
        """offset of the first byte not taken yet; kept as a pointer like the one of the code"""
        rid, off = E.deref(st, E.read(st, GH, 0, 8))
        return off if isinstance(off, tuple) else C(off, 64)

    def put(self, E, st, off):
        E.write(st, GH, 0, 8, dom.padd(('p', RI, 0), off))

    def fill(self, E, st):
        return E.read(st, GH, 8, 8)

    def load_value(self, E, st, rid, off, size, I):
        if rid == RI:
            return dom.cat(tuple((byte(off, k), 8) for k in range(size)))

    def take(self, E, st, off, n, I):
        """n bytes of the input from offset off on"""
        k = self.at(E, st)
        self.c.count('pieces of input')
        if not eqv(st, off, k):
            E.violation('order', I, 'a piece of the input is skipped or taken twice', st)
        self.put(E, st, dom.binop('add', k, n, 64))

    def fillup(self, E, st, off, n, I):
        f = self.fill(E, st)
        if not eqv(st, off, dom.binop('add', f, C(self.pb, 64), 64)):
            E.violation('buffer', I, 'buffered input is overwritten or left with a gap', st)
        new = dom.binop('add', f, n, 64)
        if rng(st, new)[-1][1] > RATE:
            E.violation('buffer', I, 'more is buffered than a block', st)
        E.write(st, GH, 8, 8, new)

    def inbuf(self, st, off):
        if isinstance(off, int):
            return self.pb <= off < self.pb + RATE
        r = rng(st, off)
        return not (r[-1][1] < self.pb or r[0][0] >= self.pb + RATE)

    def on_write(self, E, st, rid, off, n, I, src):
        if rid != RC:
            return
        if src[0] == 'copy' and src[1] == RI and self.inbuf(st, off):
            if is_zero(st, n):
                return
            o = off if isinstance(off, tuple) else C(off, 64)
            self.fillup(E, st, o, n, I)
            self.take(E, st, src[2] if isinstance(src[2], tuple) else C(src[2], 64), n, I)
        elif src[0] == 'havoc' and st.mon['perm']:
            return
        elif src[0] != 'havoc' and not is_zero(st, n):
            E.violation('foreign', I, 'the state is overwritten while data is absorbed', st)

    def on_store(self, E, st, rid, off, size, val, I):
        if rid != RC:
            return
        sb = self.sb
        o = off if isinstance(off, int) else rng(st, off)[0][0] if rng(st, off)[0][0] == rng(st, off)[-1][1] else None
        if o is None:
            if self.inbuf(st, off) and size == 1:
                return self.one(E, st, off, val, I)
            E.violation('foreign', I, 'the state is overwritten at an unknown place', st)
            return
        if sb <= o < sb + 200:
            return self.absorb(E, st, o - sb, size, val, I)
        if self.inbuf(st, o) and size == 1:
            return self.one(E, st, C(o, 64), val, I)
        if o == self.F.off('msg_len') and size == 8:
            return
        if val != E.read(st, rid, o, size):
            E.violation('foreign', I, 'the parameters of the hash change while data is absorbed', st)

    def one(self, E, st, off, val, I):
        k = self.at(E, st)
        if val != byte(k, 0) and not any(val == byte(x, 0) for x in self.seen(st) if eqv(st, x, k)):
            E.violation('buffer', I, 'something else than the next byte of the input is buffered', st)
        self.fillup(E, st, off, C(1, 64), I)
        self.take(E, st, k, C(1, 64), I)

    def seen(self, st):
        return st.mon['_at']

    def on_load(self, E, st, rid, off, size, val, I):
        if rid == RI and not (st.mon['_at'] and st.mon['_at'][-1] == off):
            st.mon['_at'] = st.mon['_at'][-15:] + (off,)

    def join_private(self, k, a, b):
        if k == '_at':
            return ()
        return Monitor.join_private(self, k, a, b)

    def absorb(self, E, st, o, size, val, I):
        m = st.mon
        old = E.read(st, RC, self.sb + o, 8)
        n = m['next']
        if size == 8 and o == 8 * n and n < WORDS and m['src'] in ('none', 'buf'):
            if self.fillis(E, st, RATE) and same(val, dom.binop('xor', old, self.buffer(E, st, 8 * n), 64)):
                m['next'], m['src'] = n + 1, 'buf'
                if n + 1 == WORDS:
                    E.write(st, GH, 8, 8, C(0, 64))
                    self.c.count('blocks absorbed from the buffer')
                return
        if size == 8 and o == 8 * n and n < WORDS and m['src'] in ('none', 'in'):
            k = self.at(E, st)
            for x in (k,) + self.seen(st):
                # the words before were taken from the same block
                for base in (x, dom.binop('sub', x, C(8 * n, 64), 64)) if x is not k else (k,):
                    if eqv(st, base, k):
                        w = dom.cat(tuple((byte(base, 8 * n + i), 8) for i in range(8)))
                        if same(val, dom.binop('xor', old, w, 64)):
                            if not self.fillis(E, st, 0):
                                E.violation('order', I, 'input is absorbed ahead of buffered data', st)
                            m['next'], m['src'] = n + 1, 'in'
                            if n + 1 == WORDS:
                                self.put(E, st, dom.binop('add', k, C(RATE, 64), 64))
                                self.c.count('blocks absorbed from the input')
                            return
        if not self.has and n in (0, WORDS):
            # the permutation, written out
            if n == WORDS:
                m['next'], m['src'] = 0, 'none'
            return
        E.violation('absorb', I, 'a word of the block goes into the state at a wrong place or not at all', st)
        m['next'], m['src'] = min(n + 1, WORDS), 'none'

    def buffer(self, E, st, k):
        return dom.cat(tuple((E.read(st, RC, self.pb + k + i, 1), 8) for i in range(8)))

    def fillis(self, E, st, n):
        return eqv(st, self.fill(E, st), C(n, 64))

    def on_call(self, E, st, name, args, I):
        if name == PERM and self.has:
            rid, off = E.deref(st, args[0])
            if rid != RC or off != self.sb:
                return
            self.c.count('permutations')
            if st.mon['next'] != WORDS:
                E.violation('absorb', I, 'the state is permuted without a whole block having been added to it', st)
            st.mon['next'], st.mon['src'] = 0, 'none'
            st.mon['perm'] = 1
            E.havoc(st, RC, self.sb, 200, I, 'perm')
            st.mon['perm'] = 0
            return [(st, None)]

    def on_return(self, E, st, fn, ret, I):
        if len(E.stack) != 1:
            return
        self.c.count('ends of absorbing')
        if not eqv(st, self.at(E, st), dom.binop('add', self.start, sym('len'), 64)):
            E.violation('lost', I, 'not all of the input is absorbed', st)
        f = rng(st, self.fill(E, st))
        if f[-1][1] >= RATE:
            E.violation('lost', I, 'a full block is left unabsorbed', st)
        if st.mon['next'] not in (0,) and self.has:
            E.violation('absorb', I, 'a block is added without permuting the state', st)
        if not eqv(st, E.read(st, RC, self.F.off('msg_len'), 8), dom.binop('add', st.mon['_len0'], sym('len'), 64)):
            E.violation('count', I, 'the count of absorbed bytes does not follow the input', st)


class Final(Monitor):
    def __init__(self, c, F, p, pad, d, has):
        self.c, self.F, self.p, self.pad, self.d, self.has = c, F, p, pad, d, has
        self.sb, self.pb = F.off('state'), F.off('partial')

    def on_call(self, E, st, name, args, I):
        if name == PERM:
            rid, off = E.deref(st, args[0])
            if rid != RC or off != self.sb:
                return
            m = st.mon
            self.c.count('final blocks')
            m['n'] += 1
            if m['n'] == 1:
                blk = block(self.p, self.pad, m['_old'])
                for i in range(25):
                    v = E.read(st, RC, self.sb + 8 * i, 8)
                    w = m['_st'][i]
                    if i < WORDS:
                        w = dom.binop('xor', w, dom.cat(tuple((x, 8) for x in blk[8 * i:8 * i + 8])), 64)
                    if not same(v, w):
                        E.violation('padding', I, 'with %d bytes buffered, word %d of the final block is not the buffered '
                                    'data followed by the padding' % (self.p, i), st)
                        break
            sq = tuple(dom.mk('sq%d' % i, 64) for i in range(25))
            for i, x in enumerate(sq):
                E.write(st, RC, self.sb + 8 * i, 8, x)
            m['_keep'] = m['_base'] + sq
            return [(st, None)]

    def on_store(self, E, st, rid, off, size, val, I):
        if rid == ('D', sym('out')):
            r = (off, off) if isinstance(off, int) else (rng(st, off)[0][0], rng(st, off)[-1][1])
            if r[1] + size > self.d:
                E.violation('bounds', I, 'more output is written than the digest size', st)

    def on_return(self, E, st, fn, ret, I):
        if len(E.stack) != 1:
            return
        m = st.mon
        self.c.count('digests')
        if m['n'] != 1:
            E.violation('padding', I, 'the state is not permuted exactly once for the final block', st)
        for i in range(self.d // 8):
            if E.read(st, ('D', sym('out')), 8 * i, 8) != dom.mk('sq%d' % i, 64):
                E.violation('digest', I, 'word %d of the output is not that of the state' % i, st)
                break
        if any(E.read(st, RC, self.sb + 8 * i, 8) != C(0, 64) for i in range(25)):
            E.violation('trace', I, 'the state is not empty after the digest was taken', st)
        if any(E.read(st, RC, self.pb + i, 1) != C(0, 8) for i in range(RATE)):
            E.violation('trace', I, 'buffered data is left after the digest was taken', st)
        if E.read(st, RC, self.F.off('msg_len'), 8) != C(0, 64):
            E.violation('trace', I, 'the hash does not start anew after the digest was taken', st)
        for f in ('r', 'rword', 'padding', 'initially_seeded'):
            if field_get(E, st, RC, self.F, f) != m['_' + f]:
                E.violation('foreign', I, '%s changes when the digest is taken' % f, st)


def block(p, pad, old):
    b = [old[i] for i in range(p)] + [C(0, 8)] * (RATE - p)
    b[p] = C(pad, 8)
    if b[RATE - 1][0] == 'c':
        b[RATE - 1] = C(b[RATE - 1][1] | 0x80, 8)
    else:
        b[RATE - 1] = dom.binop('or', b[RATE - 1], C(0x80, 8), 8)
    return b


def context(E, st, F, p):
    st.facts[CTX] = BIG
    E.cstack, E.curctx, E.stack = [], 0, []
    E.region(st, RC)
    field_put(E, st, RC, F, 'r', RATE)
    field_put(E, st, RC, F, 'rword', WORDS)


def update(c, mod, F, ps):
    has = PERM in mod.funcs
    for p, big in ps:
        s = sym('base')
        mon = Sponge(c, F, s, has)
        E = Engine(mod, mon, opts=dict(unroll=200, maxkeys=300))
        st = State()
        context(E, st, F, p)
        l0 = C(p + RATE * big, 64)
        E.write(st, RC, F.off('msg_len'), 8, l0)
        mon.put(E, st, s)
        E.write(st, GH, 8, 8, C(p, 64))
        ln = sym('len')
        st.facts[ln] = ((0, 1 << 50),)
        st.facts[s] = ((0, 1 << 50),)
        st.mon.update(next=0, src='none', perm=0, _at=(), _len0=l0, _keep=(CTX, IN, s, ln))
        st.facts[IN] = BIG
        E.run('jent_sha3_update', [CTX, dom.padd(('p', RI, 0), s), ln], st)
        c.absorb(E)


def final(c, mod, F, jobs):
    has = PERM in mod.funcs
    for p, big, pad, d in jobs:
        mon = Final(c, F, p, pad, d, has)
        E = Engine(mod, mon, opts=dict(unroll=200, maxkeys=300))
        st = State()
        context(E, st, F, p)
        E.write(st, RC, F.off('msg_len'), 8, C(p + RATE * big, 64))
        field_put(E, st, RC, F, 'padding', pad)
        field_put(E, st, RC, F, 'digestsize', d)
        old = tuple(dom.mk('old%d' % i, 8) for i in range(RATE))
        for i, x in enumerate(old):
            E.write(st, RC, mon.pb + i, 1, x)
        w = tuple(dom.mk('st%d' % i, 64) for i in range(25))
        for i, x in enumerate(w):
            E.write(st, RC, mon.sb + 8 * i, 8, x)
        st.facts[sym('out')] = BIG
        st.mon.update(n=0, _old=old, _st=w, _base=(CTX, sym('out')) + old + w, _keep=(CTX, sym('out')) + old + w,
                      **{'_' + f: field_get(E, st, RC, F, f) for f in ('r', 'rword', 'padding', 'initially_seeded')})
        E.run('jent_sha3_final', [CTX, sym('out')], st)
        c.absorb(E)


class Gen(Monitor):
    """jent_drbg_generate_block: what goes into the sponge and what comes out, byte by byte"""

    def __init__(self, c, F, seeded):
        self.c, self.F, self.seeded = c, F, seeded

    def tracked(self, E, st):
        r = rng(st, sym('len'))
        lo, hi = r[0][0], r[-1][1]
        return (0 if hi == 0 else 1 if lo > 0 else 2, 0 if hi <= 32 else 1 if lo >= 32 else 2)

    def on_call(self, E, st, name, args, I):
        m = st.mon
        if name == 'jent_sha3_update':
            n = cclass(st, args[2])
            rid, off = E.deref(st, args[1])
            if E.deref(st, args[0])[0] != RC or rid is None:
                return
            if not isinstance(n, int) or not isinstance(off, int) or n > 256:
                E.violation('input', I, 'data of unknown size is absorbed', st)
                return [(st, None)]
            self.c.count('inputs of the generator')
            m['_abs'] += tuple(E.read(st, rid, off + i, 1) for i in range(n))
            m['n'] += n
            return [(st, None)]
        if name == 'jent_sha3_final':
            rid, off = E.deref(st, args[1])
            if E.deref(st, args[0])[0] != RC or rid is None or not isinstance(off, int):
                return
            self.c.count('squeezes of the generator')
            d = cclass(st, field_get(E, st, RC, self.F, 'digestsize'))
            k = m['fin']
            want = self.want(k)
            if m['_abs'] != want[0]:
                E.violation('input', I, 'the %s squeeze does not follow exactly %s' % (('first', 'second', 'next')[min(k, 2)], want[2]), st)
            if d != want[1]:
                E.violation('size', I, 'the %s squeeze has %s bytes instead of %d' % (('first', 'second', 'next')[min(k, 2)], d, want[1]), st)
                d = want[1]
            for i in range(d):
                E.write(st, rid, off + i, 1, dom.mk('T%d_%d' % (k, i), 8))
            m['fin'], m['_abs'], m['n'] = k + 1, (), 0
            return [(st, None)]

    def want(self, k):
        if k == 0:
            return (C(85 * self.seeded, 8),), 64, 'the code of the %s seeding' % ('later' if self.seeded else 'first')
        if k == 1:
            return tuple(dom.mk('T0_%d' % i, 8) for i in range(64)) + (C(170, 8),), 96, 'the state and the code of a generation'
        return (), 0, 'nothing'

    def copied(self, E, st, off, n, I):
        pos = E.read(st, GH, 0, 8)
        if not eqv(st, off if isinstance(off, tuple) else C(off, 64), pos):
            E.violation('output', I, 'the output has a gap or is written twice', st)
        E.write(st, GH, 0, 8, dom.binop('add', pos, n, 64))

    def on_write(self, E, st, rid, off, n, I, src):
        if rid != ('D', sym('dst')) or is_zero(st, n):
            return
        self.c.count('outputs of the generator')
        hi = rng(st, n)[-1][1]
        if src[0] != 'copy' or not isinstance(src[2], int) or hi > 32 or st.mon['fin'] != 2 or any(
                E.read(st, src[1], src[2] + i, 1) != dom.mk('T1_%d' % (64 + i), 8) for i in range(min(hi, 32))):
            E.violation('output', I, 'something else than the output part of the second squeeze is handed out', st)
        self.copied(E, st, off, n, I)

    def on_load(self, E, st, rid, off, size, val, I):
        if isinstance(off, tuple) and size == 1:
            st.mon['_at'] = st.mon['_at'][-1:] + ((val, rid, off),)

    def join_private(self, k, a, b):
        return () if k == '_at' else Monitor.join_private(self, k, a, b)

    def on_store(self, E, st, rid, off, size, val, I):
        if rid != ('D', sym('dst')):
            return
        ok = False
        if size == 1:
            o = off if isinstance(off, tuple) else C(off, 64)
            for v, r, so in st.mon['_at']:
                # byte loops: the source runs along
                x = dom.lsub(so, o)
                if v == val and x[0] == 'c' and all(E.read(st, r, x[1] + i, 1) == dom.mk('T1_%d' % (64 + i), 8) for i in range(32)) \
                        and rng(st, o)[-1][1] < 32:
                    ok = True
            if isinstance(off, int) and val == dom.mk('T1_%d' % (64 + off), 8):
                ok = True
        if not ok:
            E.violation('output', I, 'something else than the output part of the second squeeze is handed out', st)
        self.copied(E, st, off, C(size, 64), I)

    def on_return(self, E, st, fn, ret, I):
        if len(E.stack) != 1:
            return
        m = st.mon
        self.c.count('generations')
        if m['fin'] != 2:
            E.violation('input', I, 'a generation is not one seeding and one squeeze for the output', st)
        if m['_abs'] != tuple(dom.mk('T1_%d' % i, 8) for i in range(64)):
            E.violation('feedback', I, 'the new state does not go back into the sponge', st)
        if field_get(E, st, RC, self.F, 'initially_seeded') != C(1, 1):
            E.violation('seeded', I, 'the generator does not count as seeded afterwards', st)
        n, ln = E.read(st, GH, 0, 8), sym('len')
        r = rng(st, ln)
        if r[-1][1] == 0 and is_zero(st, n):
            return
        if not (eqv(st, n, ln) and rng(st, n)[-1][1] <= 32) and not (eqv(st, n, C(32, 64)) and r[0][0] >= 32):
            if not minterm(n, ln):
                E.violation('output', I, 'other than the requested number of bytes, at most 32, is handed out', st)


def minterm(n, ln):
    """min(len, 32) as a select"""
    return any(n == x for x in (dom.select(dom.icmp('ugt', ln, C(32, 64)), C(32, 64), ln),
                                dom.select(dom.icmp('ult', ln, C(32, 64)), ln, C(32, 64)),
                                dom.select(dom.icmp('ule', ln, C(32, 64)), ln, C(32, 64)),
                                dom.select(dom.icmp('uge', ln, C(32, 64)), C(32, 64), ln)))


def generate(c, mod, F, seeded):
    mon = Gen(c, F, seeded)
    E = Engine(mod, mon, opts=dict(skip=Policy(mod, calls=('jent_sha3_update', 'jent_sha3_final'), small=200)))
    E.bitunits = ()
    st = State()
    st.facts[CTX] = BIG
    st.facts[sym('dst')] = BIG
    E.cstack, E.curctx, E.stack = [], 0, []
    E.region(st, RC)
    field_put(E, st, RC, F, 'initially_seeded', seeded)
    E.write(st, GH, 0, 8, C(0, 64))
    st.mon.update(fin=0, n=0, _abs=(), _at=(), _keep=(CTX, sym('dst'), sym('len')))
    E.run('jent_drbg_generate_block', [CTX, sym('dst'), sym('len')], st)
    c.absorb(E)


class Init(Monitor):
    def __init__(self, c, F, pad, d):
        self.c, self.F, self.pad, self.d = c, F, pad, d

    def on_return(self, E, st, fn, ret, I):
        if len(E.stack) != 1:
            return
        self.c.count('initialised hashes')
        F = self.F
        w = [(f, v) for f, v in (('r', RATE), ('rword', WORDS), ('padding', self.pad), ('digestsize', self.d), ('msg_len', 0))
             if v is not None]
        if self.pad == 0x1f:
            w.append(('initially_seeded', 0))
        for f, v in w:
            x = field_get(E, st, RC, F, f)
            if x != C(v, dom.width(x)):
                E.violation('init', I, 'a new hash has another %s than its algorithm' % f, st)
        if any(E.read(st, RC, F.off('state') + 8 * i, 8) != C(0, 64) for i in range(25)):
            E.violation('init', I, 'a new hash does not start from the empty state', st)


def init(c, mod, F, fn, pad, d):
    E = Engine(mod, Init(c, F, pad, d), opts=dict(unroll=200, maxkeys=300))
    st = State()
    st.facts[CTX] = BIG
    E.cstack, E.curctx, E.stack = [], 0, []
    E.region(st, RC)
    st.mon['_keep'] = (CTX,)
    E.run(fn, [CTX], st)
    c.absorb(E)


class Tester(Monitor):
    """the known-answer test: every byte of the digests is judged"""

    def __init__(self, c, exp=None, wrong=None):
        self.c, self.exp, self.wrong, self.pair, self.open = c, exp, wrong, {}, set()

    def on_call(self, E, st, name, args, I):
        m = st.mon
        if name in ('jent_sha3_update', 'jent_shake256_init', 'jent_sha3_256_init'):
            return [(st, None)]
        if name in ('jent_sha3_final', 'jent_drbg_generate_block', 'jent_xdrbg256_generate_block'):
            rid, off = E.deref(st, args[1])
            g = m['runs']
            m['runs'] = g + 1
            for i in range(32):
                v = dom.mk('D%d_%d' % (g, i), 8)
                if self.exp and (g, i) in self.exp and (g, i) != self.wrong:
                    v = C(self.exp[g, i], 8)
                E.write(st, rid, off + i, 1, v)
            m['gen' if name != 'jent_sha3_final' else 'sha'] = g + 1
            return [(st, None)]
        if name == 'memcmp' or name == 'bcmp':
            n = cclass(st, args[2])
            (r1, o1), (r2, o2) = E.deref(st, args[0]), E.deref(st, args[1])
            if not isinstance(n, int) or n > 256 or not isinstance(o1, int) or not isinstance(o2, int):
                return [(st, E.fresh(st, I, 32, 'cmp'))]
            eq = st.copy()
            ok = True
            for i in range(n):
                x, y = E.read(st, r1, o1 + i, 1), E.read(st, r2, o2 + i, 1)
                if not assume(eq, dom.icmp('eq', x, y), True):
                    ok = False
                    break
            r = E.fresh(st, I, 32, 'cmp')
            st.facts[r] = ((1, (1 << 32) - 1),)
            return [(st, r)] + ([(eq, C(0, 32))] if ok else [])

    def on_load(self, E, st, rid, off, size, val, I):
        # a byte of a digest and the constant it is compared with: loaded at the same offset
        if size != 1:
            return
        m = st.mon
        last = m['_last']
        m['_last'] = (off, val)
        for (o, x), y in ((last, val), ((off, val), last[1])):
            if last[0] == off and x is not None and y is not None and x[0] == 's' and y[0] == 'c':
                for g in range(m['runs']):
                    for i in range(32):
                        if x == dom.mk('D%d_%d' % (g, i), 8):
                            self.pair[g, i] = y[1]

    def join_private(self, k, a, b):
        return (None, None) if k == '_last' else Monitor.join_private(self, k, a, b)

    def on_return(self, E, st, fn, ret, I):
        if len(E.stack) != 1:
            return
        self.c.count('outcomes of the known-answer test')
        m = st.mon
        if zclass(st, ret) == 1:
            return
        for k, t in (('sha', 'hash'), ('gen', 'generator')):
            g = m[k]
            if not g:
                E.violation('unjudged', I, 'the known-answer test passes without having tried the %s' % t, st)
                continue
            bad = [i for i in range(32) if len(set(rng(st, dom.mk('D%d_%d' % (g - 1, i), 8))[0])) > 1 or
                   len(rng(st, dom.mk('D%d_%d' % (g - 1, i), 8))) > 1]
            if self.wrong:
                if self.wrong[0] == g - 1:
                    E.violation('unjudged', I, 'the known-answer test passes although byte %d of the %s differs' % (
                        self.wrong[1], t), st)
            else:
                self.open |= {(g - 1, i, t) for i in bad}


def tester(c, mod):
    hooks = ('jent_sha3_update', 'jent_sha3_final', 'jent_drbg_generate_block', 'jent_xdrbg256_generate_block',
             'jent_shake256_init', 'jent_sha3_256_init', 'memcmp', 'bcmp')

    def once(mon):
        E = Engine(mod, mon, opts=dict(skip=Policy(mod, calls=hooks, small=200), unroll=200, maxkeys=300))
        st = State()
        st.mon.update(runs=0, sha=0, gen=0, _last=(None, None),
                      _keep=tuple(dom.mk('D%d_%d' % (g, i), 8) for g in range(4) for i in range(32)))
        if mon.wrong:
            x = mon.exp[mon.wrong]
            st.facts[dom.mk('D%d_%d' % mon.wrong, 8)] = dom.iset([r for r in ((0, x - 1), (x + 1, 255)) if r[0] <= r[1]])
        E.run('jent_sha3_tester', [], st)
        return E
    mon = Tester(c)
    E = once(mon)
    # bytes the result does not pin down on every path: compared without a branch?
    for g, i, t in sorted(mon.open):
        if (g, i) not in mon.pair:
            E.viol['unjudged', i] = dict(rule='unjudged', file='src/jitterentropy-sha3.c', line=0, function='jent_sha3_tester',
                               message='the known-answer test passes although byte %d of the %s differs' % (i, t),
                               callstack=[], path=[])
            break
        m2 = Tester(c, mon.pair, (g, i))
        c.absorb(once(m2))
    c.absorb(E)


def check(c):
    c.rule('absorbing, every fill level of the block buffer and every length: each byte of the input goes exactly once and in '
           'order into the buffer or the state, a block enters the state whole and is permuted, the count follows')
    c.rule('finishing, every fill level: the last block is the buffered data with the padding, the digest is the state, and '
           'nothing of the message is left behind')
    c.rule('generating: state := squeeze(input, code of the seeding); block := squeeze(state, code 170); the last 32 bytes are '
           'handed out as far as asked for, the first 64 go back into the sponge')
    c.rule('the known-answer test passes only if every byte of both digests has one value')
    mods = {cfg: build.build_user(cfg) for cfg in ('default',)}
    mod = mods['default']
    F = Fields(mod, 'jent_sha_ctx')
    if F.bits('msg_len')[1] < 64:
        c.violation('count', 'src/jitterentropy-sha3.h', 0, 'struct jent_sha_ctx', 'the count of absorbed bytes may wrap')
    u = [(p, 0 if p % 2 else 0x123456789 + p) for p in range(RATE)]
    jobs = [('update', u[i::8]) for i in range(8)]
    f = [(p, big, pad, d) for p, big in u for pad, d in ((6, 32), (0x1f, 64), (0x1f, 96))]
    jobs += [('final', f[i::8]) for i in range(8)]
    jobs += [('rest', ())]

    def run(c, j):
        if j[0] == 'update':
            update(c, mod, F, j[1])
        elif j[0] == 'final':
            final(c, mod, F, j[1])
        else:
            for s in (0, 1):
                generate(c, mod, F, s)
            init(c, mod, F, 'jent_sha3_256_init', 6, 32)
            init(c, mod, F, 'jent_shake256_init', 0x1f, None)
            tester(c, mod)
    pmap(c, jobs, run)
    c.need('blocks absorbed from the input', RATE)
    c.need('blocks absorbed from the buffer', RATE - 1)
    c.need('digests', 3 * RATE)
    c.need('generations', 2)
    c.need('outcomes of the known-answer test', 2)
