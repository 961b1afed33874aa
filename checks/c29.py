"""C29: status and identifier queries tell the truth, disclose no secret and stay within the caller's buffer"""
import re
from sa import build
from sa.lib import *
from sa.absint import truth, refine_cmp

SECRET = ('hash_state', 'mem', 'memlocation', 'prev_time', 'apt_base', 'notime_timer', 'notime_prev_timer',
          'notime_thread_ctx', 'lag_delta_history', 'lag_scoreboard')
PERM = 16
HF = dict(rct=0, apt=1, lag=2, rctMemory=3)
FLAG = dict(JENT_DISABLE_MEMORY_ACCESS=2, JENT_FORCE_INTERNAL_TIMER=3, JENT_DISABLE_INTERNAL_TIMER=4, JENT_FORCE_FIPS=5,
            JENT_NTG1=6, JENT_CACHE_ALL=7, JENT_FORCE_SECURE_MEM=8)
EC, BUF, LEN = sym('ec'), sym('buf'), sym('buflen')
RE, RB = ('D', EC), ('D', BUF)


class Bad(Exception):
    pass


class Json:
    """incremental recogniser: state is a tuple (mode, stack of keys, partial token)"""
    START = ('val', (), ())

    @staticmethod
    def feed(s, ch, emit):
        """ch: one character or ('arg', kind, term)"""
        mode, stk, acc = s
        if isinstance(ch, tuple):
            if mode in ('str', 'kstr'):
                return (mode, stk, acc + (ch,))
            if mode == 'val':
                if ch[1] == 's':
                    emit(stk, ch)
                    return ('after', stk, ())
                emit(stk, ch)
                return ('after', stk, ())
            raise Bad('a value appears where none is allowed')
        if mode in ('str', 'kstr'):
            if ch == '"':
                if mode == 'kstr':
                    return ('colon', stk[:-1] + (''.join(acc),), ())
                emit(stk, ('text', acc))
                return ('after', stk, ())
            return (mode, stk, acc + (ch,))
        if mode == 'lit':
            if ch.isalnum() or ch in '.-+':
                return (mode, stk, acc + (ch,))
            emit(stk, ('lit', ''.join(acc)))
            s = mode, stk, acc = ('after', stk, ())
        if ch in ' \t\n':
            return s
        if mode == 'val':
            if ch == '{':
                return ('key0', stk + ('',), ())
            if ch == '"':
                return ('str', stk, ())
            if ch.isalnum() or ch == '-':
                return ('lit', stk, (ch,))
        elif mode in ('key0', 'key'):
            if ch == '"':
                return ('kstr', stk, ())
            if ch == '}' and mode == 'key0':
                return ('after', stk[:-1], ())
        elif mode == 'colon':
            if ch == ':':
                return ('val', stk, ())
        elif mode == 'after':
            if ch == ',' and stk:
                return ('key', stk, ())
            if ch == '}' and stk:
                return ('after', stk[:-1], ())
        raise Bad('unexpected %r in the document' % ch)


def cstr(E, p):
    """constant string a pointer designates"""
    if p[0] != 'p' or p[1][0] != 'G' or not isinstance(p[2], int):
        return None
    g = E.mod.globals.get(p[1][1])
    if g is None or not g.const or g.init is None:
        return None
    if g.init[0] == 'zero':
        return ''
    if g.init[0] != 'str':
        return None
    return bytes(g.init[1][p[2]:]).split(b'\0')[0].decode('latin1')


class Common(Monitor):
    def __init__(self, c, F):
        self.c, self.F = c, F
        self.sec = [(f,) + F.bytes(f) for f in SECRET if f in F.d or f in ('hash_state', 'mem')]

    def on_load(self, E, st, rid, off, size, val, I):
        if rid == RE and isinstance(off, int):
            self.c.count('reads of the instance')
            for f, o, s in self.sec:
                if off < o + s and o < off + size:
                    E.violation('secret', I, 'a query reads %s of the instance' % f, st)
        elif rid == RE:
            E.violation('secret', I, 'a query reads the instance at a computed position', st)
        elif rid[0] == 'D' and rid not in (RE, RB) and self.from_ec(rid):
            E.violation('secret', I, 'a query reads memory owned by the instance', st)

    def from_ec(self, rid):
        return False

    def on_store(self, E, st, rid, off, size, val, I):
        self.written(E, st, rid, off, C(size, 64), I)

    def on_write(self, E, st, rid, off, n, I, src):
        if src[0] == 'havoc':
            return
        self.written(E, st, rid, off, n if not isinstance(n, int) else C(n, 64), I)

    def written(self, E, st, rid, off, n, I):
        if rid == RE:
            E.violation('pure', I, 'a query changes the instance', st)
        if rid == RB:
            self.c.count('writes to the caller buffer')
            o = C(off, 64) if isinstance(off, int) else off
            if not self.fits(st, o, n):
                E.violation('bound', I, 'a query may write beyond the buffer of the caller', st)

    def fits(self, st, o, n):
        if rng(st, n) == ((0, 0),):
            return True
        if not isin(st, o, LEN):
            return False
        e = bop('add', o, n)
        return e == LEN or truth(st, 'ult', bop('sub', e, C(1, 64)), LEN) is True or truth(st, 'ule', e, LEN) is True or truth(st, 'ule', n, bop('sub', LEN, o)) is True


def bop(op, a, b):
    return binop(op, a, b, dom.width(a))


def isin(st, a, b):
    return truth(st, 'ule', a, b) is True


class Bound(Common):
    """every write of jent_status within the buffer; the verdict says whether it was complete"""
    wrote = asked = False

    def tracked(self, E, st):
        return (st.mon.get('term'), st.mon.get('cur'), zclass(st, BUF), zclass(st, LEN))

    def on_call(self, E, st, name, args, I):
        if name in ('snprintf', 'vsnprintf', 'scnprintf'):
            self.c.count('formatted writes')
            if args[0][0] == 'p' and args[0][1] == RB or args[0] == BUF:
                off = args[0][2] if args[0][0] == 'p' else 0
                self.written(E, st, RB, off, args[1], I)
                if zclass(st, args[1]) == 1 or is_len(st, args[1]):
                    st.mon['term'] = True
                st.mon['cur'] = False
                self.wrote = True
            elif not local(args[0]):
                E.violation('bound', I, 'formatted output goes to unknown memory', st)
            n = E.fresh(st, I, 32, 'n')
            st.facts[n] = ((1, 1 << 20),)
            return [(st, n)]
        if name in ('strlen', 'strnlen'):
            if args[0] == BUF or args[0] == ('p', RB, 0):
                self.asked = True
                self.c.count('length queries')
                if not st.mon.get('term'):
                    E.violation('bound', I, 'the length of a buffer that holds no string yet is taken', st)
                u = E.fresh(st, I, 64, 'len')
                refine_cmp(st, 'ult', u, LEN)
                st.mon['_u'] = u
                st.mon['_keep'] = tuple(x for x in st.mon['_keep'] if x in (EC, BUF, LEN)) + (u,)
                st.mon['cur'] = True
                return [(st, u)]
            return [(st, E.fresh(st, I, 64, 'len'))]
        if name in ('sprintf', 'strcpy', 'strcat', 'vsprintf', 'strncat', 'strncpy', 'gets'):
            E.violation('bound', I, '%s writes without a known bound' % name, st)

    def on_return(self, E, st, fn, ret, I):
        if len(E.stack) != 1:
            return
        self.c.count('outcomes of a query')
        z = zclass(st, ret)
        nobuf = zclass(st, BUF) == 0 or zclass(st, LEN) == 0
        u = st.mon.get('_u')
        room = bop('sub', LEN, C(1, 64))
        if self.wrote and not self.asked:
            # the length is counted in another way, the verdict is not judged
            self.c.assume('the verdict about truncation is not judged: the text is not measured with strlen')
            return
        if z != 1:
            if nobuf or zclass(st, BUF) != 1:
                E.violation('code', I, 'success may be reported without a buffer', st)
            elif not st.mon.get('cur') or not (truth(st, 'ult', u, room) is True or
                                               truth(st, 'ult', bop('add', u, C(1, 64)), LEN) is True):
                E.violation('code', I, 'success may be reported although the output was cut off', st)
        if z != 0 and not nobuf and zclass(st, BUF) == 1 and not (
                u is not None and (truth(st, 'uge', u, room) is True or
                                   truth(st, 'uge', bop('add', u, C(1, 64)), LEN) is True)):
            E.violation('code', I, 'failure may be reported although the output was complete', st)


def is_len(st, n):
    return n == LEN and zclass(st, LEN) == 1


def local(p):
    return p[0] == 'p' and p[1][0] == 'A'


class Truth(Common):
    """the document printed into a large buffer"""

    def __init__(self, c, F, want, flags, ids):
        Common.__init__(self, c, F)
        self.want, self.flags, self.ids = want, flags, ids
        self.done = {}

    def tracked(self, E, st):
        return (st.mon.get('json'), st.mon.get('seen'))

    def on_call(self, E, st, name, args, I):
        if name in ('snprintf', 'scnprintf'):
            f = cstr(E, args[2])
            if f is None:
                raise AnalysisError('format string of %s is not constant' % E.locs(I))
            self.c.count('formatted writes')
            j = st.mon['json']
            seen = list(st.mon['seen'])

            def emit(stk, v):
                key = '.'.join(stk)
                seen.append(key)
                self.value(E, st, key, v, I)
            k = 3
            try:
                for m in re.finditer(r'%[-+ #0]*\d*(?:\.\d+)?(hh|h|ll|l|z|j|t)?([diuxXscp%])|[\s\S]', f):
                    t = m.group(0)
                    if t[0] == '%' and len(t) > 1:
                        if t == '%%':
                            j = Json.feed(j, '%', emit)
                            continue
                        a = args[k]
                        k += 1
                        txt = cstr(E, a) if m.group(2) == 's' else None
                        if txt is not None:
                            for ch in txt:
                                j = Json.feed(j, ch, emit)
                        else:
                            j = Json.feed(j, ('arg', m.group(2), a), emit)
                    else:
                        j = Json.feed(j, t, emit)
            except Bad as e:
                E.violation('json', I, 'the status is not well-formed: %s' % e, st)
                return []
            st.mon['json'] = j
            st.mon['seen'] = tuple(seen)
            # there is room for everything: the lengths themselves do not matter
            return [(st, C(64, 32))]
        if name == 'strlen':
            return [(st, C(1024, 64))]
        if name in self.ids:
            a = cclass(st, args[0]) if args else 0
            if name == 'jent_memory_is_secure' and args and args[0] != self.flags:
                a = 'other'
            self.done[name] = 1
            v = sym('%s_%s' % (name, a), I.ty.n)
            return [(st, v)]

    def value(self, E, st, key, v, I):
        w = self.want(E, st, key)
        if w is None:
            return
        self.c.count('status entries')
        kind, e = w

        def bad(what):
            E.violation('truth', I, 'status entry "%s" %s' % (key, what), st)
        if kind == 'bool':
            if v[0] != 'lit' or v[1] not in ('true', 'false'):
                return bad('is not a truth value')
            if zclass(st, e) != (1 if v[1] == 'true' else 0):
                bad('may be printed as %s although the instance says otherwise' % v[1])
        elif kind == 'num':
            if v[0] == 'lit' and e[0] == 'c' and v[1] == str(e[1]):
                return
            if v[0] != 'arg' or v[1] not in 'dui':
                return bad('is not printed as a number')
            a = v[2]
            k = dom.width(e)
            if dom.width(a) < k and rng(st, e)[-1][1] >> dom.width(a):
                return bad('is cut down to %d bits' % dom.width(a))
            k = min(dom.width(a), dom.width(e))
            if not (a == e or dom.bits(a, 0, k) == dom.bits(e, 0, k) or
                    (cclass(st, a) != '*' and cclass(st, a) == cclass(st, e))):
                bad('is not the value the instance holds')
        elif kind == 'ptr':
            t = v[1] if v[0] == 'text' else ()
            if len(t) != 1 or not isinstance(t[0], tuple) or t[0][1] != 's' or t[0][2] != e:
                bad('is not what the instance holds')

    def on_return(self, E, st, fn, ret, I):
        if len(E.stack) != 1:
            return
        if is_zero(st, BUF) or is_zero(st, LEN):
            return
        self.c.count('complete documents')
        j = st.mon['json']
        if j[0] != 'after' or j[1]:
            E.violation('json', I, 'the status is not a complete document', st)
        if len(set(st.mon['seen'])) != len(st.mon['seen']):
            E.violation('json', I, 'the status names an entry twice', st)
        for k in self.need:
            if k not in st.mon['seen']:
                E.violation('truth', I, 'the status lacks the entry "%s"' % k, st)


def wants(F, flags, hl, ms, mod):
    def g(E, st, f):
        return field_get(E, st, RE, F, f)
    T = {
        'uuid': lambda E, st: ('ptr', ('p', RE, F.off('uuid'))),
        'reinitializations': lambda E, st: ('num', g(E, st, 'reinit_count')),
        'output.invocations': lambda E, st: ('num', g(E, st, 'read_invocations')),
        'output.bytes': lambda E, st: ('num', g(E, st, 'bytes_output')),
        'output.bits': lambda E, st: ('num', bop('mul', g(E, st, 'bytes_output'), C(8, 64))),
        'configuration.osr': lambda E, st: ('num', g(E, st, 'osr')),
        'configuration.memoryLoopCount.runtime': lambda E, st: ('num', g(E, st, 'memaccessloops')),
        'configuration.memoryLoopCount.initialization':
            lambda E, st: ('num', bop('mul', g(E, st, 'memaccessloops'), C(3, 32))),
        'configuration.hashLoopCount.runtime': lambda E, st: ('num', C(1 << hl, 32)),
        'configuration.hashLoopCount.initialization': lambda E, st: ('num', C(3 << hl, 32)),
        'configuration.memoryBlockSizeBytes': lambda E, st: ('num', C(1 << (9 + min(ms, 20)), 32)) if ms else None,
        'configuration.internalTimer': lambda E, st: ('bool', g(E, st, 'enable_notime')),
        'configuration.fipsMode': lambda E, st: ('bool', g(E, st, 'is_fips_enabled')),
        'configuration.ntg1Mode': lambda E, st: ('bool', dom.bits(g(E, st, 'flags'), 6, 1)),
        'configuration.secureMemory': lambda E, st: ('bool', sym('jent_memory_is_secure_*', 32)),
        'runtimeEnvironment.cpuCache.l1Bytes': lambda E, st: ('num', sym('jent_cache_size_roundup_0', 32)),
        'runtimeEnvironment.cpuCache.allBytes': lambda E, st: ('num', sym('jent_cache_size_roundup_1', 32)),
        'runtimeEnvironment.cpuCores': lambda E, st: ('num', sym('jent_ncpu_0', 64)),
    }
    for n, b in HF.items():
        T['healthFailure.%s.intermittent' % n] = lambda E, st, b=b: ('bool', dom.bits(g(E, st, 'health_failure'), b, 1))
        T['healthFailure.%s.permanent' % n] = \
            lambda E, st, b=b: ('bool', dom.bits(g(E, st, 'health_failure'), b + PERM, 1))
    for n, b in FLAG.items():
        T['configuration.flags.' + n] = lambda E, st, b=b: ('bool', dom.bits(g(E, st, 'flags'), b, 1))
    return T


IDS = ('jent_memory_is_secure', 'jent_cache_size_roundup', 'jent_ncpu')


def base(mod, F, ec=True):
    st = State()
    if ec:
        st.facts[EC] = ((4096, (1 << 64) - 65537),)
    else:
        st.facts[EC] = ((0, 0),)
    st.mon['_keep'] = (EC, BUF, LEN)
    return st


def job(c, cfg, kind, v):
    mod = MODS[cfg]
    F = Fields(mod)
    if kind == 'bound':
        mon = Bound(c, F)
        E = Engine(mod, mon, opts=dict(skip=Policy(mod, small=60, never=IDS, calls=('snprintf', 'strlen'))))
        st = base(mod, F, v)
        st.facts[BUF] = ((0, 0), (1 << 20, (1 << 64) - (1 << 21)))
        st.mon.update(term=False, cur=False)
        E.run('jent_status', [EC if v else C(0, 64), BUF, LEN], st)
        c.absorb(E)
    elif kind == 'truth':
        hl, ms = v
        st = base(mod, F, True)
        st.facts[BUF] = ((1 << 20, (1 << 64) - (1 << 21)),)
        st.facts[LEN] = ((1 << 30, 1 << 31),)
        flags = dom.cat(((sym('flags', 24), 24), (C(hl, 3), 3), (C(ms, 5), 5)))
        T = wants(F, flags, hl, ms, mod)
        ids = [n for n in IDS if n in mod.funcs]
        used = Summaries(mod).reach('jent_status')

        def want(E, st, key):
            f = T.get(key)
            if f is None:
                return None
            for n in IDS:
                if n in ('jent_ncpu', 'jent_cache_size_roundup', 'jent_memory_is_secure') and n not in used and \
                        n.split('jent_')[1] in repr(f(E, st)):
                    return None
            return f(E, st)
        mon = Truth(c, F, want, flags, ids)
        mon.need = [k for k in T]
        E = Engine(mod, mon, opts=dict(skip=Policy(mod, small=60, calls=('snprintf', 'strlen'))))
        E.region(st, RE)
        E.write(st, RE, F.off('flags'), 4, flags)
        E.write(st, RE, F.off('hashloopcnt'), 4, C(1 << hl, 32))
        if ms:
            E.write(st, RE, F.off('memmask'), 4, C((1 << (9 + min(ms, 20))) - 1, 32))
        st.mon['json'] = Json.START
        st.mon['seen'] = ()
        E.run('jent_status', [EC, BUF, LEN], st)
        c.absorb(E)
    elif kind == 'uuid':
        uuid(c, mod, F)
    elif kind == 'gen':
        gen(c, mod, F)
    elif kind == 'self':
        pure(c, mod, F)


class Uuid(Common):
    def tracked(self, E, st):
        return (zclass(st, EC), zclass(st, BUF), zclass(st, LEN), st.mon.get('cp'))

    def on_call(self, E, st, name, args, I):
        if name == 'strlen' and args[0] == ('p', RE, self.F.off('uuid')):
            u = E.fresh(st, I, 64, 'len')
            st.facts[u] = ((0, self.F.bytes('uuid')[1] - 1),)
            st.mon['_u'] = u
            st.mon['_keep'] = (EC, BUF, LEN, u)
            return [(st, u)]

    def on_write(self, E, st, rid, off, n, I, src):
        Common.on_write(self, E, st, rid, off, n, I, src)
        if rid == RB and src[0] != 'havoc':
            u = st.mon.get('_u')
            n = n if not isinstance(n, int) else C(n, 64)
            full = C(self.F.bytes('uuid')[1], 64)
            txt = off == 0 and src[0] == 'copy' and src[1] == RE and src[2] == self.F.off('uuid')
            if txt and (n == full or u is not None and n == bop('add', u, C(1, 64))):
                self.step(st, 'ok')
            elif txt and u is not None and n == u:
                self.step(st, 'text')
            else:
                self.step(st, 'bad')

    def on_store(self, E, st, rid, off, size, val, I):
        Common.on_store(self, E, st, rid, off, size, val, I)
        if rid == RB:
            u = st.mon.get('_u')
            o = C(off, 64) if isinstance(off, int) else off
            self.step(st, 'end' if size == 1 and is_zero(st, val) and u is not None and o == u else 'bad')

    def step(self, st, w):
        # text and end mark, in any order
        o = st.mon.get('cp')
        st.mon['cp'] = w if o is None else 'ok' if {o, w} == {'text', 'end'} else 'bad'

    def on_return(self, E, st, fn, ret, I):
        if len(E.stack) != 1:
            return
        self.c.count('outcomes of a query')
        z = zclass(st, ret)
        if z != 1 and st.mon.get('cp') != 'ok':
            E.violation('truth', I, 'success may be reported without the identifier and its end mark having been copied', st)
        if z != 0:
            u = st.mon.get('_u')
            if not (is_zero(st, EC) or is_zero(st, BUF) or is_zero(st, LEN) or
                    truth(st, 'ult', LEN, C(self.F.bytes('uuid')[1], 64)) is True or
                    u is not None and truth(st, 'ule', LEN, u) is True):
                E.violation('code', I, 'the identifier may be refused although the buffer is large enough', st)
            if st.mon.get('cp'):
                E.violation('code', I, 'failure may be reported after the buffer was written', st)


def uuid(c, mod, F):
    mon = Uuid(c, F)
    E = Engine(mod, mon, opts=dict(skip=Policy(mod, small=60)))
    st = base(mod, F)
    big = ((0, 0), (1 << 20, (1 << 64) - (1 << 21)))
    st.facts[EC] = big
    st.facts[BUF] = big
    st.mon['cp'] = None
    E.run('jent_uuid', [EC, BUF, LEN], st)
    c.absorb(E)


class Gen(Monitor):
    """the identifier: 36 characters at their places, end mark, version and variant bits"""

    def __init__(self, c):
        self.c = c

    def tracked(self, E, st):
        return (st.mon.get('os'),)

    def on_call(self, E, st, name, args, I):
        if name == 'jent_os_random_bytes':
            self.c.count('random identifiers')
            a, b = st.copy(), st
            rid, off = E.deref(a, args[0])
            a.mon['os'] = 'ok'
            b.mon['os'] = 'fail'
            for s in (a, b):
                r, o = E.deref(s, args[0])
                n = cclass(s, args[1])
                for i in range(n if isinstance(n, int) else 0):
                    E.write(s, r, o + i, 1, sym(s.mon['os'] + '%d' % i, 8))
                s.mon['_keep'] = s.mon['_keep'] + tuple(sym(s.mon['os'] + '%d' % i, 8) for i in range(16))
            r = E.fresh(b, I, 32, 'os')
            b.facts[r] = ((1, (1 << 32) - 1),)
            return [(a, C(0, 32)), (b, r)]

    def on_store(self, E, st, rid, off, size, val, I):
        if rid != RB:
            return
        self.c.count('characters')
        if not isinstance(off, int) or off < 0 or off + size > 37:
            E.violation('bound', I, 'the identifier may be written beyond its field', st)
            return
        done = set(st.mon['done'])
        for i in range(off, off + size):
            v = dom.bits(val, 8 * (i - off), 8)
            done.discard(i)
            if self.char(st, i, v):
                done.add(i)
        st.mon['done'] = tuple(sorted(done))

    def on_write(self, E, st, rid, off, n, I, src):
        if rid == RB and src[0] != 'havoc':
            if src[0] == 'set' and isinstance(off, int) and cclass(st, n if not isinstance(n, int) else C(n, 64)) != '*':
                k = cclass(st, n) if not isinstance(n, int) else n
                if off + k <= 37:
                    done = set(st.mon['done']) - set(range(off, off + k))
                    done |= {i for i in range(off, off + k) if self.char(st, i, src[1])}
                    st.mon['done'] = tuple(sorted(done))
                    return
            E.violation('bound', I, 'the identifier may be written beyond its field', st)

    def char(self, st, i, v):
        """is v a character RFC 4122 allows at position i"""
        if i == 36:
            return is_zero(st, v)
        r = rng(st, v)
        if i in (8, 13, 18, 23):
            return r == ((45, 45),)
        hexd = {ord(x) for x in '0123456789abcdef'}
        if i == 14 and st.mon['os'] == 'ok':
            hexd = {ord('4')}
        if i == 19 and st.mon['os'] == 'ok':
            hexd = {ord(x) for x in '89ab'}
        vals = set()
        for a, b in r:
            vals |= set(range(a, min(b, a + 60) + 1))
        return vals <= hexd

    def on_return(self, E, st, fn, ret, I):
        if len(E.stack) != 1:
            return
        self.c.count('identifiers')
        for i in range(37):
            if i not in st.mon['done']:
                E.violation('uuid', I, 'the identifier is not terminated' if i == 36 else
                            'character %d of the identifier is not what RFC 4122 prescribes' % i, st)
                break


def gen(c, mod, F):
    E = Engine(mod, Gen(c), opts=dict(skip=None, trip=40))
    st = State()
    st.facts[BUF] = ((4096, (1 << 64) - 65537),)
    st.mon['_keep'] = (BUF,)
    st.mon['os'] = None
    st.mon['done'] = ()
    E.run('jent_uuid_generate', [BUF], st)
    c.absorb(E)


def pure(c, mod, F):
    """jent_selftest: effects"""
    S = Summaries(mod)
    fn = mod.funcs['jent_selftest']
    b, n = F.bits('selftest_failed')
    c.count('effect summaries')
    for r in S.w['jent_selftest']:
        c.count('effects of the self test')
        if not eff_ok(r, b // 8, n // 8):
            c.violation('pure', '/repo/src/jitterentropy-base.c', 0, 'jent_selftest',
                        'the self test writes %r, which is neither its own stack nor the mark of the instance' % (r,))
    ext = {x for x in S.reach('jent_selftest') if x and x not in mod.funcs}
    if None in S.reach('jent_selftest'):
        c.violation('pure', '/repo/src/jitterentropy-base.c', 0, 'jent_selftest', 'the self test calls through a pointer')
    for x in sorted(ext):
        c.count('external calls of the self test')
        if not (x.startswith(('llvm.', 'mem', '__mem', 'asm:')) or x in ('explicit_bzero', 'bcmp')):
            c.violation('pure', '/repo/src/jitterentropy-base.c', 0, 'jent_selftest',
                        'the self test calls %s: it may block, allocate or touch shared state' % x)


def eff_ok(r, off, n):
    return r[0] == ('p', 0) and r[1] is not None and r[1] >= off and r[1] + r[2] <= off + n


MODS = {}


def check(c):
    c.rule('jent_status for every instance, buffer and length: each formatted write starts inside the buffer and its limit '
           'ends at or before its end; success exactly when the text left room for more than its end mark; no field with '
           'secret content is read and the instance is not written')
    c.rule('jent_status with enough room: the text is one well-formed JSON document; each documented entry is printed from '
           'the field, flag bit or failure bit of that name (truth values for both values of the bit; all 31 memory sizes, '
           'all loop counts)')
    c.rule('jent_uuid copies the identifier with its end mark or refuses; jent_uuid_generate writes 36 characters of the '
           'RFC 4122 form and an end mark, nothing beyond')
    c.rule('jent_selftest: its effect summary contains no write but to its own stack and to the failure mark of the '
           'instance, and it calls no external function')
    jobs = []
    for cfg in ('default', 'notimer'):
        MODS[cfg] = build.build_user(cfg)
        jobs += [(cfg, 'bound', True), (cfg, 'bound', False), (cfg, 'uuid', 0), (cfg, 'gen', 0), (cfg, 'self', 0)]
    jobs += [('default', 'truth', (m % 8, m)) for m in range(32)] + [('notimer', 'truth', (3, 3))]
    va = any(x.startswith('vs') for x in Summaries(MODS['default']).reach('jent_status') if x)
    if va:
        c.assume('jent_status prints through a variadic helper: its text is not judged')
        jobs = [j for j in jobs if j[1] not in ('bound', 'truth')]
    pmap(c, jobs, lambda c, j: job(c, *j))
    if not va:
        c.need('status entries', 100)
        c.need('formatted writes', 100)
    c.need('characters', 30)
    c.need('effect summaries', 1)
