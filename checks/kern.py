"""model of the kernel interfaces (linux_kernel/*.c) shared by C25 - C28"""
import os, re, subprocess, tempfile, shutil
from sa import build
from sa.lib import *
from sa.absint import truth, assume
from .rd import eqv, le

M64 = (1 << 64) - 1
BIG = ((4096, M64 - (1 << 32)),)
EPERM, EIO, EAGAIN, ENOMEM, EFAULT, EINVAL, ENOTTY, ENODATA, EOVERFLOW, ERESTARTSYS = 1, 5, 11, 12, 14, 22, 25, 61, 75, 512
ALLOC = {'kvmalloc': 0, 'kmalloc': 0, 'kvzalloc': 1, 'kzalloc': 1, 'vmalloc': 0, 'vzalloc': 1}
FREE = {'kvfree': 0, 'kfree': 0, 'vfree': 0, 'kvfree_sensitive': 1, 'kfree_sensitive': 1, 'kzfree': 1}
PERM = (-6, -7, -8, -10, -11)
INTER = (-2, -3, -5, -9)
GEN = (-1, -4)
MAP = dict([(k, -EFAULT) for k in PERM] + [(k, -EAGAIN) for k in INTER] + [(k, -EINVAL) for k in GEN] + [('other', -EFAULT)])
USES = {'jent_read_entropy_safe': None, 'jent_read_entropy': 0, 'jent_status': 0, 'jent_uuid': 0, 'jent_selftest': 0,
        'jent_measure_jitter': 0, 'jent_measure_jitter_ntg1_sha3': 0, 'jent_measure_jitter_ntg1_memaccess': 0}
# calls that wait for callbacks which take the lock of an instance
WAITS = ('cancel_delayed_work_sync', 'cancel_work_sync', 'flush_work', 'flush_delayed_work', 'proc_remove', 'hwrng_unregister',
         'debugfs_remove', 'debugfs_remove_recursive')
QUEUE = ('queue_delayed_work', 'queue_delayed_work_on', 'schedule_delayed_work', 'mod_delayed_work', 'mod_delayed_work_on')


# registrations and the like: nothing the analysed code looks at changes
NOEFFECT = ('proc_', 'hwrng_', 'misc_', 'crypto_', 'debugfs_', 'cancel_', 'security_', 'capable', 'mutex_')


def base(n):
    return n.split('.')[0] if n and not n.startswith('llvm.') else n


def s32(v):
    return v & 0xffffffff


_mod = []


def module():
    if not _mod:
        _mod.append(build.build_kernel(extra=['-DCONFIG_CRYPTO_FIPS=1']))
    return _mod[0]


def entries(mod):
    """functions the kernel calls: everything whose address is taken, and the module entry and exit"""
    callers, taken = call_sites(mod)
    out = {n for n in taken if srcfile(mod, n)}
    for a, n in mod.aliases.items():
        if n in mod.funcs and srcfile(mod, n):
            out.add(n)
    return sorted(out)


def srcfile(mod, n):
    """file of linux_kernel/ the function is defined in, None: a kernel header"""
    f = mod.funcs.get(n)
    if f is None or not f.blocks:
        return None
    for b in f.blocks.values():
        for I in b.ins:
            if I.dbg:
                p = mod.loc(I.dbg)
                if p[2] == base(n) or p[2] == n:
                    return os.path.basename(p[0]) if '/linux_kernel/' in p[0] else None
    return None


def consts(names, header='jitterentropy_uapi.h'):
    """values of macros of the UAPI header"""
    tmp = tempfile.mkdtemp(prefix='jentk')
    try:
        with open(tmp + '/x.c', 'w') as f:
            f.write('#include <linux/ioctl.h>\n#include <linux/types.h>\n#include "%s"\n' % header)
            for n in names:
                f.write('unsigned long long v_%s = %s;\n' % (n, n))
        r = build.run([build.CLANG, '-S', '-emit-llvm', '-w', '-I' + build.REPO + '/linux_kernel', tmp + '/x.c', '-o', '-'])
        return {m[0]: int(m[1]) & 0xffffffff for m in re.findall(r'@v_(\w+) = .*global i64 (-?\d+)', r)}
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


class K(Monitor):
    """locks, collectors, heap objects, callbacks; the checks add their obligations"""

    def __init__(self, c, mod, entry):
        self.c, self.mod, self.entry = c, mod, entry
        self.types = {}
        self.di = {}
        for n, g in mod.globals.items():
            if g.ty.k == 'named':
                self.types[(('G', n), 0)] = sname(g.ty)

    # -- types -----------------------------------------------------------
    def struct(self, n):
        if n not in self.di:
            self.di[n] = self.mod.distruct(n) or {}
        return self.di[n]

    def on_gep(self, E, st, I, p):
        t = I.a[0]
        if t.k != 'named' or not self.struct(sname(t)):
            return
        ops = I.a[1]
        if len(ops) < 2:
            return
        rid, off = E.deref(st, p)
        if rid is None or not isinstance(off, int):
            return
        x = E.val(st, ops[1][1], ops[1][0])
        if x[0] != 'c' or x[1] != 0:
            return
        t2, o = self.mod.resolve(t), 0
        for it, iv in ops[2:]:
            x = E.val(st, iv, it)
            if x[0] != 'c' or t2.k != 'struct':
                return
            o += self.mod.field_off(t2, x[1])
            t2 = self.mod.resolve(t2.el[x[1]])
        self.types[(rid, off - o)] = sname(t)

    def bases(self, *names):
        return [(rid, o, n) for (rid, o), n in self.types.items() if n in names]

    def having(self, ty):
        """(rid, offset of the member, struct, base) for every known object with a member of that type"""
        out = []
        for (rid, o), n in list(self.types.items()):
            for f, (b, k, bf, t) in self.struct(n).items():
                if t == ty:
                    out.append((rid, o + b // 8, n, o))
        return out

    def eccells(self, E, st):
        out = [(rid, o, n, bo) for rid, o, n, bo in self.having('rand_data*')]
        for rid, o, n, bo in self.having('rand_data**'):
            if rid in st.mem:
                v = E.read(st, rid, o, 8)
                if v[0] != 'c':
                    r2, o2 = E.deref(st, v)
                    out.append((r2, o2, n, (rid, bo)))
        return out

    # -- life of things ---------------------------------------------------
    def start(self, st):
        st.mon.update(held=(), mine=(), heap=(), _keep=())

    def lockid(self, E, st, p):
        return E.deref(st, p)

    def fail(self, E, st, I, v=None):
        r = E.fresh(st, I, 32, 'err')
        st.facts[r] = ((1 << 31, (1 << 32) - 1),) if v is None else ((s32(v), s32(v)),)
        return r

    def acquired(self, E, st, k, I):
        st.mon['held'] = tuple(sorted(st.mon['held'] + (k,), key=repr))
        # meanwhile somebody else may have replaced the collector
        for i, (rid, o, n, bo) in enumerate(self.eccells(E, st)):
            if rid in st.mem and not (rid in st.mon['mine'] or self.private(st, rid)):
                E.havoc(st, rid, o, 8, I, 'ec%d' % i)

    def private(self, st, rid):
        """object created in this call"""
        return rid in st.mon['mine'] or any(h[0] == rid for h in st.mon['heap'])

    def obj(self, E, st, I, tag):
        p = E.fresh(st, I, 64, tag)
        st.facts[p] = BIG
        E.ptrphi.add(p)
        st.mon['_keep'] = tuple(x for x in st.mon['_keep'] if x != p) + (p,)
        return p

    def on_call(self, E, st, name, args, I):
        b = base(name)
        m = st.mon
        if b in ('mutex_lock', 'mutex_lock_interruptible', 'mutex_lock_killable', 'mutex_trylock'):
            k = self.lockid(E, st, args[0])
            self.c.count('lock acquisitions')
            self.lock(E, st, k, b, I)
            if b == 'mutex_lock':
                self.acquired(E, st, k, I)
                return [(st, None)]
            no = st.copy()
            self.acquired(E, st, k, I)
            if b == 'mutex_trylock':
                return [(st, C(1, 32)), (no, C(0, 32))]
            return [(st, C(0, 32)), (no, self.fail(E, no, I))]
        if b == 'mutex_unlock':
            k = self.lockid(E, st, args[0])
            self.c.count('lock releases')
            if k not in m['held']:
                self.bad(E, st, I, 'unlock', 'a lock is released that is not held')
            m['held'] = tuple(x for x in m['held'] if x != k)
            return [(st, None)]
        if b == '__mutex_init':
            rid, off = self.lockid(E, st, args[0])
            if rid not in m['mine']:
                m['mine'] += (rid,)
            return [(st, None)]
        if b in ALLOC:
            no = st.copy()
            p = self.obj(E, st, I, 'heap')
            st.mem[('D', p)] = Region('zero' if ALLOC[b] else 'undef', None)
            st.owned.add(('D', p))
            m['heap'] += ((('D', p), args[0], ALLOC[b]),)
            self.allocated(E, st, ('D', p), args[0], ALLOC[b], I)
            return [(no, C(0, 64)), (st, p)]
        if b in FREE:
            if is_zero(st, args[0]):
                return [(st, None)]
            rid, off = E.deref(st, args[0])
            self.released(E, st, rid, off, FREE[b], args[1] if FREE[b] and len(args) > 1 else None, I)
            m['heap'] = tuple(h for h in m['heap'] if h[0] != rid)
            return [(st, None)]
        if b in USES and name not in self.mod.funcs:
            self.use(E, st, b, args, I)
            return getattr(self, 'do_' + b, self.opaque)(E, st, b, args, I)
        if b == 'panic':
            self.panic(E, st, I)
            return []
        if b in WAITS:
            self.c.count('waits for callbacks')
            if [k for k in m['held'] if k]:
                self.bad(E, st, I, 'deadlock', '%s waits for a callback while the lock that callback takes is held' % b)
        if b in ('jent_entropy_collector_alloc', 'jent_entropy_collector_alloc_raw'):
            no = st.copy()
            p = self.obj(E, st, I, 'ec')
            m['mine'] += (('D', p),)
            self.ecalloc(E, st, p, b, args, I)
            return [(no, C(0, 64)), (st, p)]
        if b == 'jent_entropy_collector_free':
            self.ecfree(E, st, args[0], I)
            return [(st, None)]
        h = getattr(self, 'k_' + (b or ''), None)
        if h:
            return h(E, st, b, args, I)
        if b in ('_printk', 'seq_puts', 'seq_printf', 'seq_write', 'atomic_inc', 'atomic_dec', 'atomic64_inc', 'pr_info', '___ratelimit',
                 'mutex_destroy', '__might_resched', '_cond_resched', 'schedule', '__init_work', 'init_timer_key') or b in QUEUE or \
                (b and name not in self.mod.funcs and b.startswith(NOEFFECT)):
            w = self.width(I)
            return [(st, E.fresh(st, I, w, 'r') if w else None)]

    def width(self, I):
        return None if I.ty.k == 'void' else (I.ty.n if I.ty.k == 'int' else 64)

    def opaque(self, E, st, b, args, I):
        w = self.width(I)
        return [(st, E.fresh(st, I, w, 'r') if w else None)]

    def k_strlen(self, E, st, b, args, I):
        r = E.fresh(st, I, 64, 'len')
        st.facts[r] = ((0, 1 << 31),)
        rid, off = E.deref(st, args[0])
        for h in st.mon['heap']:
            if h[0] == rid and h[1][0] == 'c' and off == 0:
                st.facts[r] = ((0, h[1][1] - 1),)
        st.mon['_keep'] += (r,) if r not in st.mon['_keep'] else ()
        return [(st, r)]

    # -- to be refined by the checks ---------------------------------------------
    def bad(self, E, st, I, rule, msg):
        pass

    def lock(self, E, st, k, how, I):
        pass

    def use(self, E, st, b, args, I):
        pass

    def panic(self, E, st, I):
        pass

    def allocated(self, E, st, rid, n, zero, I):
        pass

    def released(self, E, st, rid, off, wipe, n, I):
        pass

    def ecalloc(self, E, st, p, b, args, I):
        pass

    def ecfree(self, E, st, p, I):
        pass

    def join_private(self, k, a, b):
        return Monitor.join_private(self, k, a, b)


def sname(t):
    n = t.name.lstrip('%').strip('"')
    return n[7:] if n.startswith('struct.') else n


def big(mod):
    return {n for n, f in mod.funcs.items() if sum(len(b.ins) for b in f.blocks.values()) > 60}


def skipper(mod):
    """kernel inline functions the monitor does not model and that are large are replaced by their effects"""
    src = {n: srcfile(mod, n) for n in mod.funcs}
    szs = {n: sum(len(b.ins) for b in f.blocks.values()) for n, f in mod.funcs.items()}
    S = Summaries(mod)

    def skip(E, st, fn, av, I):
        if E.summ is None:
            E.summ = S
        return not src[fn.name] and szs[fn.name] > 40
    return skip


def run(c, mod, mon, name, setup=None, opts=None):
    fn = mod.funcs[name]
    E = Engine(mod, mon, opts=dict(skip=skipper(mod), **(opts or {})))
    st = State()
    mon.start(st)
    E.cstack, E.curctx, E.stack = [], 0, []
    args = []
    for i, (t, r) in enumerate(fn.params):
        if t.k not in ('int', 'ptr'):
            return None
        a = sym('arg%d' % i, 64 if t.k != 'int' else t.n)
        if t.k == 'ptr':
            st.facts[a] = BIG
        args.append(a)
    st.mon['_keep'] += tuple(args)
    if setup:
        args = setup(E, st, args) or args
    c.count('entry points')
    E.run(name, args, st)
    c.absorb(E)
    return E
