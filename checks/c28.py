"""C28: kernel interfaces hand out nothing but what was asked for, to those who may ask"""
from .kern import *

GH = ('GH', 'copied')
CMDS = ('JENT_IOCSTATUS', 'JENT_IOCLOOPCNT', 'JENT_IOCUUID', 'JENT_IOCVERSION', 'JENT_IOCOSR', 'JENT_IOCFLAGS', 'JENT_IOCHEALTH',
        'JENT_IOCOUTPUT', 'JENT_IOCREINIT', 'JENT_IOCSELFTEST')
FIELD = {'JENT_IOCOSR': ('osr',), 'JENT_IOCFLAGS': ('flags',), 'JENT_IOCHEALTH': ('health_failure',),
         'JENT_IOCREINIT': ('reinit_count',), 'JENT_IOCOUTPUT': ('read_invocations', 'bytes_output')}
SIZES = {'JENT_IOCOUTPUT': 16, 'JENT_IOCUUID': 37}
CAP_SYS_ADMIN = 21


def undefd(v):
    """may contain bytes nobody wrote"""
    return "'undef'" in repr(v)


def below(st, q):
    return [q] + [k[4] for k, v in st.facts.items() if k[0] == 'e' and k[1] == 'icmp' and k[3] == 'ule' and k[5] == q
                  and v == ((1, 1),)]


class Out(K):
    cmd = None

    def start(self, st):
        K.start(self, st)
        st.mon.update(cap=0, ld=None, secret=(), _buf=None, _len=None, _left=None, _user=None, _slen=None, out=None)

    def join_private(self, k, a, b):
        return None if k in ('_buf', '_len', '_left', '_user', '_slen') else K.join_private(self, k, a, b)

    def tracked(self, E, st):
        u, n = st.mon['_user'], st.mon['_slen']
        # whether there is room for the status text
        return K.tracked(self, E, st) + ((le(st, n, u[1]),) if u and n else ())

    def k_strlen(self, E, st, b, args, I):
        out = K.k_strlen(self, E, st, b, args, I)
        for s, r in out:
            s.mon['_slen'] = dom.binop('add', r, C(1, 64), 64)
        return out

    # -- gates ---------------------------------------------------------------
    def k_capable(self, E, st, b, args, I):
        no = st.copy()
        if args[0] == C(CAP_SYS_ADMIN, 32):
            st.mon['cap'] = 1
        w = self.width(I)
        return [(st, C(1, w)), (no, C(0, w))]

    k_ns_capable = K.opaque

    def k_security_locked_down(self, E, st, b, args, I):
        no = st.copy()
        if self.reason is None or args[0] == C(self.reason, 32):
            st.mon['ld'] = 0
        r = E.fresh(no, I, 32, 'ld')
        no.facts[r] = ((1, (1 << 32) - 1),)
        return [(st, C(0, 32)), (no, r)]

    def on_call(self, E, st, name, args, I):
        b = base(name)
        m = st.mon
        if b in ('debugfs_create_dir', 'debugfs_create_file', 'jent_entropy_collector_alloc_raw'):
            self.c.count('raw noise gates')
            if m['ld'] != 0:
                E.violation('lockdown', I, '%s although the kernel may be locked down' % b, st)
        if b == 'debugfs_create_file':
            v = cclass(st, args[1])
            if v == '*' or v & 0o377:
                E.violation('mode', I, 'the raw noise can be accessed by others than the owner, or written', st)
        if b in ('proc_create_single_data', 'proc_create_data', 'proc_create'):
            v = cclass(st, args[1])
            if v == '*' or v & 0o222:
                E.violation('mode', I, 'a proc entry is writable', st)
        if name is None and len(args) == 3:
            # a measurement delivers one sample
            return self.sample(E, st, args, I)
        return K.on_call(self, E, st, name, args, I)

    # -- producers -------------------------------------------------------------
    def do_jent_selftest(self, E, st, b, args, I):
        if self.ioctl:
            self.c.count('self tests on request')
            if not st.mon['cap']:
                E.violation('capability', I, 'the self test can be run without CAP_SYS_ADMIN', st)
        return self.opaque(E, st, b, args, I)

    def do_jent_read_entropy_safe(self, E, st, b, args, I):
        m = st.mon
        no = st.copy()
        r = E.fresh(no, I, 64, 'rc')
        no.facts[r] = ((1 << 63, M64),)
        no.mon['_buf'] = None
        rid, off = E.deref(st, args[1])
        h = [x for x in m['heap'] if x[0] == rid]
        if h:
            self.c.count('reads into a buffer')
            if off != 0 or not le(st, args[2], h[0][1]):
                E.violation('overrun', I, 'more bytes are read than the buffer holds', st)
        for s in (st, no):
            if rid not in s.mon['secret']:
                s.mon['secret'] += (rid,)
        m['_buf'], m['_len'] = (rid, off), args[2]
        return [(st, args[2]), (no, r)]

    def sample(self, E, st, args, I):
        p = args[2]
        if is_zero(st, p):
            return self.opaque(E, st, '', args, I)
        rid, off = E.deref(st, p)
        h = [x for x in st.mon['heap'] if x[0] == rid]
        if h:
            self.c.count('raw samples')
            o = C(off, 64) if isinstance(off, int) else off
            # samples are 64-bit values, so their places are multiples of 8
            if not ((rng(st, o)[-1][1] & ~7) + 8 <= rng(st, h[0][1])[0][0]):
                E.violation('overrun', I, 'more samples are recorded than the buffer holds', st)
            if rid not in st.mon['secret']:
                st.mon['secret'] += (rid,)
        return self.opaque(E, st, '', args, I)

    def do_jent_measure_jitter(self, E, st, b, args, I):
        return self.sample(E, st, args, I)

    def do_jent_status(self, E, st, b, args, I):
        rid, off = E.deref(st, args[1])
        h = [x for x in st.mon['heap'] if x[0] == rid]
        self.c.count('status texts')
        if not h or off != 0 or not le(st, args[2], h[0][1]):
            E.violation('overrun', I, 'the status may be longer than the buffer', st)
        return self.opaque(E, st, b, args, I)

    def do_jent_uuid(self, E, st, b, args, I):
        rid, off = E.deref(st, args[1])
        n = cclass(st, args[2])
        size = st.mem[rid].size if rid in st.mem else None
        if n == '*' or not isinstance(off, int) or isinstance(size, int) and off + n > size:
            E.violation('overrun', I, 'the identifier may be longer than the buffer', st)
        else:
            E.havoc(st, rid, off, n, I, 'uuid')
            st.mon['out'] = 'uuid'
        r = E.fresh(st, I, 32, 'r')
        return [(st, r)]

    def k_jent_version(self, E, st, b, args, I):
        r = E.fresh(st, I, 32, 'version')
        st.mon['_keep'] += (r,)
        self.version = r
        return [(st, r)]

    # -- user space ---------------------------------------------------------------
    def k_copy_from_user(self, E, st, b, args, I):
        no = st.copy()
        rid, off = E.deref(st, args[0])
        n = cclass(st, args[2])
        size = st.mem[rid].size if rid in st.mem else None
        self.c.count('copies from the user')
        if n == '*' or not isinstance(size, int) or not isinstance(off, int) or off + n > size:
            E.violation('overrun', I, 'more is copied in than the object holds', st)
        else:
            E.havoc(st, rid, off, n, I, 'cfu')
            d = self.struct('jent_status_ioctl')
            if self.cmd == 'JENT_IOCSTATUS' and d and n >= d['length'][0] // 8 + 4:
                u = [E.read(st, rid, off + d[f][0] // 8, k) for f, k in (('buf', 8), ('length', 4))]
                st.mon['_user'] = (u[0], dom.zext(u[1], 64))
                st.mon['_keep'] += tuple(u)
        r = E.fresh(no, I, 64, 'left')
        no.facts[r] = ((1, M64),)
        return [(st, C(0, 64)), (no, r)]

    def k_copy_to_user(self, E, st, b, args, I):
        m = st.mon
        dst, src, n = args
        rid, off = E.deref(st, src)
        self.c.count('copies to the user')
        h = [x for x in m['heap'] if x[0] == rid]
        if h and rid in m['secret']:
            self.data(E, st, dst, rid, off, n, h[0], I)
        elif h:
            if not h[0][2]:
                E.violation('uninitialised', I, 'memory nobody wrote is handed out', st)
            if off != 0 or not le(st, n, h[0][1]):
                E.violation('overrun', I, 'more is handed out than the buffer holds', st)
            lim = self.userlimit(E, st, dst)
            if lim is None or not le(st, n, lim):
                E.violation('limit', I, 'more is handed out than the user made room for', st)
        elif rid is not None and rid[0] == 'A':
            hi = rng(st, n)[-1][1]
            size = st.mem[rid].size if rid in st.mem else None
            if not isinstance(off, int) or not isinstance(size, int) or off + hi > size:
                E.violation('overrun', I, 'more is handed out than the object holds', st)
            else:
                for i in range(hi):
                    if undefd(E.read(st, rid, off + i, 1)):
                        E.violation('uninitialised', I, 'kernel stack nobody wrote is handed out', st)
                        break
            self.field(E, st, dst, rid, off, n, I)
        else:
            E.violation('origin', I, 'it is not known what is handed out', st)
        no = st.copy()
        r = E.fresh(no, I, 64, 'left')
        no.facts[r] = ((1, M64),)
        if rng(st, n)[-1][1] < M64:
            assume(no, dom.icmp('ule', r, n), True)
        if m['out'] != 'uuid':
            m['out'] = 'yes'
        no.mon['out'] = 'fault'
        if h and rid in m['secret']:
            E.write(st, GH, 0, 8, dom.binop('add', E.read(st, GH, 0, 8), n, 64))
            E.write(no, GH, 0, 8, dom.binop('add', E.read(no, GH, 0, 8), dom.binop('sub', n, r, 64), 64))
        return [(st, C(0, 64)), (no, r)]

    def data(self, E, st, dst, rid, off, n, h, I):
        """entropy or raw samples"""
        m = st.mon
        if off != 0:
            E.violation('origin', I, 'the data is not taken from the start of the buffer', st)
        if not self.entropy:
            # raw samples: how many were recorded is not known here
            if rng(st, n)[-1][1] > rng(st, h[1])[0][0]:
                E.violation('overrun', I, 'more is handed out than the buffer holds', st)
            return
        if not (m['_buf'] == (rid, 0) and le(st, n, m['_len'])):
            E.violation('uninitialised', I, 'more is handed out than was read', st)
        g = E.read(st, GH, 0, 8)
        u = sym('arg1')
        # the destination follows what was handed out, and stays inside the user's buffer
        d = dom.binop('sub', E.val_addr(dst) if hasattr(E, 'val_addr') else addr(dst), u, 64)
        if not eqv(st, d, g):
            E.violation('place', I, 'the data does not go behind what was handed out before', st)
        e = dom.binop('add', g, n, 64)
        if not any(le(st, e, q) or le(st, g, q) and le(st, n, dom.lsub(q, g)) for q in below(st, sym('arg2'))):
            E.violation('limit', I, 'more is handed out than the user asked for', st)

    def userlimit(self, E, st, dst):
        """the length the user gave, whatever became of it since"""
        u = st.mon['_user']
        return u[1] if u and eqv(st, addr(u[0]), addr(dst)) else None

    def field(self, E, st, dst, rid, off, n, I):
        if self.cmd == 'JENT_IOCSTATUS':
            return
        if self.cmd is None or not eqv(st, addr(dst), sym('arg2')):
            E.violation('place', I, 'the answer does not go where the user asked for', st)
            return
        self.c.count('answers')
        want = SIZES.get(self.cmd, 4)
        if cclass(st, n) != want:
            E.violation('size', I, 'the answer to %s does not have %d bytes' % (self.cmd, want), st)
        if self.cmd == 'JENT_IOCVERSION':
            if not eqv(st, E.read(st, rid, off, 4), self.version):
                E.violation('truth', I, 'the version is not that of the library', st)
        elif self.cmd == 'JENT_IOCUUID':
            if st.mon['out'] != 'uuid':
                E.violation('truth', I, 'the identifier is not that of the instance', st)
        elif self.cmd in FIELD:
            o = off
            for f in FIELD[self.cmd]:
                ok = False
                k = 8 if len(FIELD[self.cmd]) > 1 else 4
                v = E.read(st, rid, o, k)
                for r, b, s in self.bases('rand_data'):
                    if r in st.mem:
                        x = field_get(E, st, r, self.F, f)
                        x = dom.zext(x, 8 * k) if dom.width(x) < 8 * k else x
                        ok = ok or eqv(st, v, x)
                if not ok:
                    E.violation('truth', I, 'the answer to %s is not %s of the instance' % (self.cmd, f), st)
                o += k
        else:
            E.violation('truth', I, 'bytes are handed out for a request that has no answer', st)

    def on_write(self, E, st, rid, off, n, I, src):
        pass

    def released(self, E, st, rid, off, wipe, n, I):
        m = st.mon
        h = [x for x in m['heap'] if x[0] == rid]
        if rid in m['secret'] and h:
            self.c.count('buffers wiped')
            if not wipe or n is None or not eqv(st, n, h[0][1]):
                E.violation('wipe', I, 'a buffer with entropy is released without being wiped over its full size', st)

    def on_return(self, E, st, fn, ret, I):
        if len(E.stack) != 1:
            return
        m = st.mon
        self.c.count('outcomes')
        if m['heap'] and not self.keeps:
            E.violation('leak', I, 'the call leaves memory behind', st)
        if self.cmd and ret is not None:
            if is_zero(st, ret):
                if self.cmd not in ('JENT_IOCLOOPCNT', 'JENT_IOCSELFTEST') and m['out'] not in ('yes', 'uuid'):
                    E.violation('result', I, '%s succeeds without an answer' % self.cmd, st)
                if self.cmd == 'other':
                    E.violation('result', I, 'an unknown request succeeds', st)
            if m['out'] == 'fault' and cclass(st, ret) != (-EFAULT & M64):
                E.violation('result', I, 'a failed copy is not reported', st)
            if self.cmd == 'other' and cclass(st, ret) not in (-ENOTTY & M64, -EFAULT & M64):
                E.violation('result', I, 'an unknown request is not refused as such', st)


def addr(p):
    if p[0] == 'p' and p[1][0] == 'D':
        return dom.binop('add', p[1][1], C(p[2] & M64, 64) if isinstance(p[2], int) else p[2], 64)
    return p


def one(c, mod, n, cmd, val):
    S = Summaries(mod)
    r = S.reach(n)
    mon = Out(c, mod, n)
    mon.F = Fields(mod)
    mon.version = None
    mon.cmd = cmd
    mon.ioctl = cmd is not None
    mon.entropy = 'jent_read_entropy_safe' in r
    mon.keeps = 'jent_entropy_collector_alloc_raw' in r or 'jent_entropy_collector_alloc' in r
    e = mod.dienum('lockdown_reason')
    mon.reason = e['LOCKDOWN_DEBUGFS'] if e else None

    def setup(E, st, args):
        E.write(st, GH, 0, 8, C(0, 64))
        if cmd is None and len(args) == 4 and mod.fparams(mod.funcs[n])[0] == 'file*':
            # the kernel cuts a read down to MAX_RW_COUNT
            st.facts[args[2]] = ((0, 0x7ffff000),)
            st.mon['_bounds'] = (args[2],)
        if cmd and cmd != 'other':
            args[1] = C(val, 32)
        elif cmd:
            from sa.dom import inter
            s, lo = [], 0
            for v in sorted(val):
                s.append((lo, v - 1))
                lo = v + 1
            s.append((lo, (1 << 32) - 1))
            st.facts[args[1]] = tuple(s)
        return args
    run(c, mod, mon, n, setup)


def check(c):
    mod = module()
    c.rule('every copy to user space: the source is initialised memory of sufficient size; entropy and raw samples only as many '
           'as were read, in order, inside the buffer and length the user gave; the status only if the user made room')
    c.rule('every single-value request is answered with exactly that value of the instance in its documented size; unknown '
           'requests are refused; failed copies are reported')
    c.rule('buffers that held entropy or raw samples are wiped over their full size when released; no call leaks memory')
    c.rule('self tests on request need CAP_SYS_ADMIN; the raw noise interface is neither created nor opened on a locked-down '
           'kernel and is readable by its owner only; proc entries are read-only')
    k = consts(CMDS)
    jobs = []
    for n in entries(mod):
        ty = mod.fparams(mod.funcs[n]) or ['']
        if ty[0] == 'file*' and len(ty) == 3:
            for x in CMDS:
                jobs.append((n, x, k[x]))
            jobs.append((n, 'other', tuple(k.values())))
        else:
            jobs.append((n, None, None))
    pmap(c, jobs, lambda c, j: one(c, mod, *j))
    for w in ('raw noise gates', 'self tests on request', 'reads into a buffer', 'raw samples', 'status texts', 'copies to the user',
              'answers', 'buffers wiped'):
        c.need(w)
    # memory that a failing open leaves behind
    c.borrow('C27', 'leak')
