"""C30: what the operating system answers is used only when it is complete, and no descriptor is lost on the way"""
from sa import build
from sa.lib import *
from sa.absint import assume
from .rd import eqv, le
from .c29 import cstr

GH = ('GH', 'ghost')
BUF, LEN = sym('buf'), sym('len')
RB = ('D', BUF)
ERR = ('D', sym('errno_cell'))
EINTR = 4
STR = ('strtol', 'strtoul', 'strtoll', 'strtoull', 'strlen', 'strcmp', 'strncmp', 'strstr', 'strchr', 'strrchr', 'sscanf', 'atoi',
       'atol')
OPEN = ('open', 'open64', 'openat', 'openat64', 'creat')
READ = ('read', 'pread', 'pread64')
OTHER = ('fopen', 'fopen64', 'fdopen', 'opendir', 'dup', 'dup2', 'dup3', 'socket', 'pipe', 'pipe2', 'eventfd', 'memfd_create')


class Os(Monitor):
    """mon: fd = descriptors open now; intr = an interrupted call not yet repeated; ans = first byte of the file
    (None: no byte read, '1', 'x': something else); pos = whether a byte of the open file was read already;
    term = a buffer filled from a file that carries no terminator"""

    def __init__(self, c, what):
        self.c, self.what = c, what

    def filled(self, E, st):
        return E.read(st, GH, 0, 8)

    def fail(self, E, st, I, lo, hi, no=None):
        e = E.fresh(st, I, 32, 'errno')
        st.facts[e] = ((lo, hi),) if no is None else ((lo, no - 1), (no + 1, hi))
        E.write(st, ERR, 0, 4, e if lo != hi else C(lo, 32))

    def on_call(self, E, st, name, args, I):
        m = st.mon
        if name == '__errno_location':
            return [(st, ('p', ERR, 0))]
        if name in OPEN:
            self.c.count('opens')
            p = cstr(E, args[1 if name.startswith('openat') else 0])
            want = {'random': ('/dev/urandom', '/dev/random'), 'fips': ('/proc/sys/crypto/fips_enabled',)}.get(self.what)
            if want and p not in want:
                E.violation('path', I, 'the answer is taken from %s' % (p or 'a file that is not known'), st)
            bad = st.copy()
            self.fail(E, bad, I, 1, 133)
            bad.mon['intr'] = 0
            fd = E.fresh(st, I, 32, 'fd')
            st.facts[fd] = ((0, (1 << 31) - 1),)
            if fd in m['fd']:
                E.violation('leak', I, 'a file is opened again while the descriptor from the last time is still open', st)
            m['fd'] = tuple(sorted(set(m['fd']) | {fd}, key=repr))
            m['_keep'] = tuple(m['_keep']) + ((fd,) if fd not in m['_keep'] else ())
            m['pos'], m['intr'] = 0, 0
            return [(bad, C((1 << 32) - 1, 32)), (st, fd)]
        if name in READ or name == 'getrandom':
            r = E.fresh(st, I, 64, 'got')
            # operands as they are called now
            v = [E.val(st, x, t) for t, x in I.a[1]]
            if name == 'getrandom':
                p, n = v[0], v[1]
            else:
                self.live(E, st, v[0], I, 'read from')
                p, n = v[1], v[2]
            return self.fill(E, st, p, n, r, I, name == 'getrandom')
        if name == 'close':
            self.c.count('closes')
            fd = self.live(E, st, args[0], I, 'closed')
            if m['intr'] and self.short(E, st):
                E.violation('interrupted', I, 'a read that a signal interrupted is taken for the answer', st)
            m['intr'] = 0
            if fd is not None:
                m['fd'] = tuple(x for x in m['fd'] if x != fd)
                m['_keep'] = tuple(x for x in m['_keep'] if x != fd)
            return [(st, E.fresh(st, I, 32, 'close'))]
        if name in OTHER:
            raise AnalysisError('descriptor from %s is not modelled' % name)
        if name in STR:
            rid, off = E.deref(st, args[0])
            if rid == m['term']:
                E.violation('terminator', I, 'text read from a file is searched without a terminator behind it', st)
            self.c.count('texts interpreted')
            return

    def short(self, E, st):
        """bytes are missing for sure (the loop condition of the interrupted round may be repeated)"""
        f = self.filled(E, st)
        return self.what != 'random' or (rng(st, dom.lsub(LEN, f))[0][0] > 0 and not le(st, LEN, f))

    def live(self, E, st, v, I, what):
        for f in st.mon['fd']:
            if eqv(st, v, f):
                return f
        E.violation('descriptor', I, 'a descriptor is %s that is not open' % what, st)
        return None

    def fill(self, E, st, p, n, r, I, rnd):
        self.c.count('reads')
        rid, off = E.deref(st, p)
        off = dom.offterm(off)
        mine = self.what == 'random' and rid == RB
        size = LEN if mine else None
        if not mine and rid in st.mem and st.mem[rid].size:
            size = C(st.mem[rid].size, 64)
        if size is None and rid is not None and rid[0] == 'G' and rid[1] in E.mod.globals:
            size = C(E.mod.size(E.mod.globals[rid[1]].ty), 64)
        if size is None:
            raise AnalysisError('the object the system writes to is not known')
        # the part asked for lies in the object
        if not (le(st, off, size) and le(st, n, dom.binop('sub', size, off, 64))):
            E.violation('bounds', I, 'the system is asked for more bytes than the buffer can take', st)
        out = []
        intr = st.copy()
        intr.mon['intr'] = 1
        self.fail(E, intr, I, EINTR, EINTR)
        out.append((intr, C((1 << 64) - 1, 64)))
        bad = st.copy()
        bad.mon['intr'] = 0
        self.fail(E, bad, I, 1, 133, EINTR)
        out.append((bad, C((1 << 64) - 1, 64)))
        st.mon['intr'] = 0
        if not rnd:
            eof = st.copy()
            out.append((eof, C(0, 64)))
        for x, _ in out:
            # nothing was received there
            x.born = set(x.born) - {r}
        if rng(st, n) == ((0, 0),):
            return out
        st.facts[r] = ((1, (1 << 63) - 1),)
        if not assume(st, dom.icmp('ule', r, n), True):
            return out
        st.mon['_keep'] = tuple(st.mon['_keep']) + ((r,) if r not in st.mon['_keep'] else ())
        if mine:
            f = self.filled(E, st)
            if eqv(st, off, f):
                f = dom.binop('add', f, r, 64)
            elif rng(st, off) == ((0, 0),):
                f = r
            else:
                E.violation('gap', I, 'the bytes of the system are not placed behind those it gave before', st)
            E.write(st, GH, 0, 8, f)
            st.mon['pos'] = 1
            return out + [(st, r)]
        o = off[1] if off[0] == 'c' else None
        k = rng(st, n)
        E.havoc(st, rid, o, k[-1][1] if o is not None else None, I, 'file')
        # a terminator left behind the part that was read?
        end = None
        if o is not None:
            for q in range(o + k[-1][1], size[1]):
                if is_zero(st, E.read(st, rid, q, 1)):
                    end = q
                    break
        st.mon['term'] = None if end is not None else rid
        st.mon['_got'] = (rid, dom.binop('add', off, r, 64))
        if self.what == 'fips' and o == 0:
            if not st.mon['pos']:
                st.mon['pos'] = 1
                one, two = st.copy(), st
                one.mon['ans'], two.mon['ans'] = '1', 'x'
                E.write(one, rid, o, 1, C(0x31, 8))
                b = E.fresh(two, I, 8, 'first')
                two.facts[b] = ((0, 0x30), (0x32, 255))
                E.write(two, rid, o, 1, b)
                return out + [(one, r), (two, r)]
        return out + [(st, r)]

    def on_store(self, E, st, rid, off, size, val, I):
        if rid == st.mon['term'] and size == 1 and is_zero(st, val):
            g = st.mon.get('_got')
            if isinstance(off, int) or (g and g[0] == rid and le(st, dom.offterm(off), g[1])):
                st.mon['term'] = None
        if self.what == 'random' and rid == RB:
            E.violation('own', I, 'the library writes into the buffer itself', st)

    def on_write(self, E, st, rid, off, n, I, src):
        if rid == st.mon['term'] and src[0] == 'set' and is_zero(st, src[1]):
            st.mon['term'] = None
        if self.what == 'random' and rid == RB and src[0] != 'set':
            E.violation('own', I, 'the library writes into the buffer itself', st)

    def join_private(self, k, a, b):
        if k == '_keep':
            return tuple(sorted(set(a) | set(b), key=repr))
        return a if a == b else () if k == '_bounds' else None

    def on_return(self, E, st, fn, ret, I):
        if len(E.stack) != 1:
            return
        self.c.count('outcomes')
        m = st.mon
        if m['fd']:
            E.violation('leak', I, 'a descriptor is still open when %s returns' % fn.name, st)
        if m['intr'] and self.short(E, st):
            E.violation('interrupted', I, 'a call that a signal interrupted is taken for the answer', st)
        if self.what == 'random':
            z = zclass(st, ret)
            if z != 1:
                self.c.count('random bytes delivered')
                if not eqv(st, self.filled(E, st), LEN):
                    E.violation('short', I, 'success is reported although the system did not give every byte', st)
        if self.what == 'fips':
            z = zclass(st, ret)
            if z == 2:
                raise AnalysisError('the mode is not decided at the return')
            self.c.count('mode %s' % ('enabled' if z else 'not enabled'))
            if z == 1 and m['ans'] != '1':
                E.violation('mode', I, 'the mode is reported as enabled although the system did not say so', st)
            if z == 0 and m['ans'] == '1':
                E.violation('mode', I, 'the mode is reported as not enabled although the system says it is', st)


ENTRIES = {'jent_os_random_bytes': 'random', 'jent_fips_enabled': 'fips'}


def check(c):
    c.rule('every function that asks the system (random bytes, FIPS indicator, cache sizes, number of CPUs) with every outcome '
           'of open, read and getrandom at every call: error, interruption, end of file, fewer bytes than asked for. The bytes '
           'placed in the buffer, the descriptors open and the first byte of the indicator are followed to every return')
    c.assume('read and getrandom write no byte outside the range they are given and return at most the number asked for')
    mod = build.build_user('default')
    from sa.summary import Summaries
    S = Summaries(mod)
    sys = set(OPEN) | set(READ) | {'getrandom', 'close'}
    users = {n for n in mod.funcs if S.calls[n] & sys}
    jobs = [e for e in ENTRIES if e in mod.funcs]
    done = set()
    for e in jobs:
        done |= {e} | S.reach(e)
    # functions outside those two: the outermost callers within the platform layer
    todo, seen = sorted(users - done), set()
    while todo:
        n = todo.pop()
        if n in seen:
            continue
        seen.add(n)
        if mod.funcs[n].linkage == 'internal' and any(n in S.calls[m] for m in mod.funcs):
            todo += [m for m in mod.funcs if n in S.calls[m]]
        elif n not in jobs:
            jobs.append(n)
    pmap(c, jobs, lambda c, n: one(c, mod, n, ENTRIES.get(n, 'file'), sys))
    for w, k in (('opens', 4), ('closes', 4), ('reads', 5), ('random bytes delivered', 1), ('mode enabled', 1), ('mode not enabled', 1)):
        c.need(w, k)


def one(c, mod, name, what, sys):
    mon = Os(c, what)
    pol = Policy(mod, calls=sys, small=60)
    E = Engine(mod, mon, opts=dict(skip=pol, **(dict(maxkeys=4, maxexits=3) if what == 'file' else {})))
    st = State()
    g = Region('zero', 8)
    g.cells[0] = (8, C(0, 64))
    st.mem[GH] = g
    st.mem[ERR] = Region('sym', 4)
    st.mon.update(fd=(), intr=0, ans=None, pos=0, term=None, _got=None)
    fn = mod.funcs[name]
    args, keep = [], []
    for i, (t, r) in enumerate(fn.params):
        a = (BUF, LEN)[i] if what == 'random' else sym('arg%d' % i, t.n if t.k == 'int' else 64)
        if t.k != 'int':
            st.facts[a] = ((1 << 16, (1 << 63)),)
        args.append(a)
    if what == 'random':
        st.facts[LEN] = ((0, (1 << 63) - 1),)
        st.mon['_bounds'] = (LEN,)
    st.mon['_keep'] = tuple(args)
    E.run(name, args, st)
    c.absorb(E)
