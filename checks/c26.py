"""C26: kernel interfaces turn failures into the documented reaction"""
from .kern import *

GH = ('GH', 'copied')
FLAGS = {'ntg1': 1 << 6, 'force_fips': 1 << 5, 'cache_all': 1 << 7}
REG = ('crypto_register_rng', 'hwrng_register', 'misc_register', 'debugfs_create_dir', 'debugfs_create_file', 'proc_mkdir',
       'proc_create_single_data')


class React(K):
    def start(self, st):
        K.start(self, st)
        st.mon.update(rc=None, why=None, test=None, incs=(), init=None, queued=0, _want=None, _len=None, _buf=None)

    def join_private(self, k, a, b):
        return None if k in ('_want', '_len', '_buf') else K.join_private(self, k, a, b)

    def fips(self, E, st):
        return zclass(st, E.read(st, ('G', 'fips_enabled'), 0, 4))

    def permanent(self, st):
        m = st.mon
        return m['rc'] in PERM or m['test'] == 'fail' or m['init'] == 'fail'

    def panic(self, E, st, I):
        self.c.count('panics')
        if not self.permanent(st):
            E.violation('panic', I, 'the kernel panics without a permanent failure', st)
        elif self.fips(E, st) != 1:
            E.violation('panic', I, 'the kernel panics although it does not run in FIPS mode', st)

    def on_call(self, E, st, name, args, I):
        b = base(name)
        m = st.mon
        if b in ('mutex_trylock', 'mutex_lock_interruptible', 'mutex_lock_killable'):
            r = K.on_call(self, E, st, name, args, I)
            r[1][0].mon['why'] = 'busy' if b == 'mutex_trylock' else 'intr'
            return r
        if b in REG and self.entry_init and m['init'] != 'pass':
            E.violation('order', I, '%s is called before the library was initialised successfully' % b, st)
        if b in QUEUE:
            m['queued'] = 1
            d = self.struct('jent_selftest_instance')
            if self.work and not any(self.clear(E, st, (r0, o0 + d[g][0] // 8))
                                     for r0, o0, n in self.bases('jent_selftest_instance') for g in d if d[g][3] == 'bool'):
                E.violation('again', I, 'the self test of a failed instance is scheduled again', st)
            return self.opaque(E, st, b, args, I)
        if b == 'atomic64_inc' and args[0][0] == 'p' and args[0][1][0] == 'G' and m['test']:
            m['incs'] = tuple(sorted(m['incs'] + (args[0][1][1],)))
        return K.on_call(self, E, st, name, args, I)

    def do_jent_read_entropy_safe(self, E, st, b, args, I):
        self.c.count('reads')
        out = []
        if st.mon['rc'] not in (None, 'ok'):
            E.violation('retry', I, 'reading goes on after a failed read', st)
        rid, off = E.deref(st, args[0])
        if rid is not None and isinstance(off, int):
            # recovery may have replaced the instance
            E.havoc(st, rid, off, 8, I, 'moved')
        for code in list(range(-11, 0)) + ['other']:
            s = st.copy()
            s.mon['rc'] = code
            if code == 'other':
                v = E.fresh(s, I, 64, 'rc')
                s.facts[v] = ((1 << 63, M64 - 11),)
            else:
                v = C(code & M64, 64)
            s.mon['_buf'] = None
            out.append((s, v))
        st.mon['rc'] = 'ok'
        st.mon['_len'], st.mon['_buf'] = args[2], E.deref(st, args[1])
        hi = rng(st, args[2])
        if hi[-1][1] > (1 << 31) - 1:
            # longer requests are cut down by the library
            v = E.fresh(st, I, 64, 'n')
            assume(st, dom.icmp('ule', args[2], C((1 << 31) - 1, 64)), True)
        out.append((st, args[2]))
        return out

    def k_copy_to_user(self, E, st, b, args, I):
        m = st.mon
        no = st.copy()
        no.mon['why'] = 'fault'
        if self.reader:
            self.c.count('bytes handed to a reader')
            if m['rc'] != 'ok' or m['_buf'] is None or E.deref(st, args[1]) != m['_buf'] or (
                    m['_len'] is not None and not (eqv(st, args[2], m['_len']) or le(st, args[2], m['_len']))):
                E.violation('unread', I, 'bytes are handed out that no successful read delivered', st)
            E.write(st, GH, 0, 8, dom.binop('add', E.read(st, GH, 0, 8), args[2], 64))
        r = E.fresh(no, I, 64, 'left')
        no.facts[r] = ((1, M64),)
        return [(st, C(0, 64)), (no, r)]

    def k_copy_from_user(self, E, st, b, args, I):
        no = st.copy()
        no.mon['why'] = 'fault'
        rid, off = E.deref(st, args[0])
        if rid is not None:
            E.havoc(st, rid, None, None, I, 'cfu')
        r = E.fresh(no, I, 64, 'left')
        no.facts[r] = ((1, M64),)
        return [(st, C(0, 64)), (no, r)]

    def clear(self, E, st, t):
        """a bool is known to be false"""
        return is_zero(st, dom.bits(E.read(st, t[0], t[1], 1), 0, 1))

    def tests(self, E, st, ec):
        """self-test records of that instance"""
        d = self.struct('jent_selftest_instance')
        for rid, o, n in self.bases('jent_selftest_instance'):
            for f in d:
                if d[f][3] == 'rand_data**' and rid in st.mem:
                    r2, o2 = E.deref(st, E.read(st, rid, o + d[f][0] // 8, 8))
                    if r2 in st.mem and eqv(st, E.read(st, r2, o2, 8), ec):
                        return rid, o + [d[g][0] // 8 for g in d if d[g][3] == 'bool'][0]

    def own(self, E, st):
        """the caller belongs to an instance with a self-test record of its own"""
        d = self.struct('jent_selftest_instance')
        for rid, o, n in self.bases('jent_selftest_instance'):
            for f in d:
                if d[f][3] == 'rand_data**' and rid in st.mem:
                    r2, o2 = E.deref(st, E.read(st, rid, o + d[f][0] // 8, 8))
                    if r2 not in st.mem or not is_zero(st, E.read(st, r2, o2, 8)):
                        return True
        return False

    def do_jent_selftest(self, E, st, b, args, I):
        self.c.count('self tests')
        st.mon['_want'] = None
        if args[0] != C(0, 64) and not is_zero(st, args[0]):
            t = self.tests(E, st, args[0])
            if t is None:
                E.violation('bind', I, 'the self test is run for an instance whose verdict is not recorded', st)
            else:
                if not self.clear(E, st, t):
                    E.violation('again', I, 'a failed instance is tested again', st)
                st.mon['_want'] = t
        elif self.work or self.own(E, st):
            E.violation('bind', I, 'the self test of an instance is run without the instance', st)
        no = st.copy()
        st.mon['test'] = 'pass'
        no.mon['test'] = 'fail'
        st.mon['incs'] = no.mon['incs'] = ()
        r = E.fresh(no, I, 32, 'st')
        no.facts[r] = ((1, (1 << 32) - 1),)
        return [(st, C(0, 32)), (no, r)]

    def k_jent_entropy_init_ex(self, E, st, b, args, I):
        self.c.count('initialisations')
        f0 = self.flags0
        x = f0
        for n, bit in FLAGS.items():
            if self.combo[n]:
                x = dom.binop('or', x, C(bit, 32), 32)
        if not eqv(st, args[1], x) or not eqv(st, E.read(st, ('G', 'flags'), 0, 4), x):
            E.violation('flags', I, 'the options of the module are not what its parameters ask for', st)
        if not eqv(st, args[0], E.read(st, ('G', 'osr'), 0, 4)):
            E.violation('flags', I, 'the library is not initialised with the oversampling rate of the module', st)
        st.mon['_want'] = x
        no = st.copy()
        st.mon['init'] = 'pass'
        no.mon['init'] = 'fail'
        r = E.fresh(no, I, 32, 'ini')
        no.facts[r] = ((1, (1 << 32) - 1),)
        return [(st, C(0, 32)), (no, r)]

    def ecalloc(self, E, st, p, b, args, I):
        self.c.count('instances allocated')
        pre = 'testing_' if b.endswith('raw') else ''
        for i, n in enumerate(('osr', 'flags')):
            if not eqv(st, args[i], E.read(st, ('G', pre + n), 0, 4)):
                E.violation('params', I, 'the instance is not allocated with the module parameter %s%s' % (pre, n), st)

    def on_return(self, E, st, fn, ret, I):
        if len(E.stack) != 1:
            return
        m = st.mon
        self.c.count('outcomes')
        if self.permanent(st) and self.fips(E, st) != 0:
            E.violation('nopanic', I, 'a permanent failure in FIPS mode does not stop the kernel', st)
        ty = (self.mod.fparams(fn) or [''])[0]
        if self.reader:
            self.read_result(E, st, ty, ret, I)
        if m['test']:
            self.test_result(E, st, ret, I)
        if self.entry_init:
            if m['init'] == 'fail' and ret != C(s32(-EFAULT), 32):
                E.violation('load', I, 'the module load is not refused after a failed initialisation', st)
            if m['init'] is None:
                E.violation('load', I, 'the module is loaded without an initialisation of the library', st)
            if is_zero(st, ret) or rng(st, ret)[0][0] == 0:
                v = rng(st, E.read(st, ('G', 'selftest_interval'), 0, 4))
                if v[-1][1] > 30 * 24 * 3600:
                    E.violation('interval', I, 'the interval of the self tests may be longer than 30 days', st)
                if m['_want'] is not None and not eqv(st, E.read(st, ('G', 'flags'), 0, 4), m['_want']):
                    E.violation('flags', I, 'the options of the module change after the initialisation', st)

    def read_result(self, E, st, ty, ret, I):
        m = st.mon
        w = dom.width(ret)
        rc = m['rc']
        if ty == 'file*':
            g = E.read(st, GH, 0, 8)
            if eqv(st, ret, g):
                if rc in MAP or rc == 'other':
                    if rng(st, g)[0][0] == 0:
                        E.violation('code', I, 'a failed read ends as success', st)
                return
            if not is_zero(st, g):
                E.violation('count', I, 'the returned value is not the number of bytes handed out', st)
                return
            want = [MAP[rc]] if rc in MAP else {'busy': [-EAGAIN], 'intr': [-ERESTARTSYS], 'fault': [-EFAULT]}.get(
                m['why'], [-ENOMEM, -EFAULT, -ERESTARTSYS])
        elif rc in MAP:
            want = [MAP[rc]]
        elif rc == 'ok':
            ok = is_zero(st, ret) if ty == 'crypto_rng*' else eqv(st, ret, dom.bits(m['_len'], 0, w) if m['_len'] is not None and dom.width(m['_len']) > w else m['_len'])
            if not ok:
                E.violation('code', I, 'a successful read is not reported as success', st)
            return
        else:
            want = {'busy': [0], 'intr': [-ERESTARTSYS]}.get(m['why'], [0])
        if cclass(st, ret) not in [x & ((1 << w) - 1) for x in want]:
            E.violation('code', I, 'the outcome %s of a read is not reported as %s' % (rc if rc else m['why'], want), st)

    def test_result(self, E, st, ret, I):
        m = st.mon
        t = m['_want']
        if m['test'] == 'fail':
            if isinstance(t, tuple) and rng(st, dom.bits(E.read(st, t[0], t[1], 1), 0, 1))[0][0] == 0:
                E.violation('sticky', I, 'a failed self test is not recorded for its instance', st)
            if ret is not None and self.ioctl and cclass(st, ret) != (-EFAULT & M64):
                E.violation('code', I, 'a failed self test is not reported', st)
            if len(m['incs']) != 2 or len(set(m['incs'])) != 2:
                E.violation('stats', I, 'a failed self test is not counted as a run and as a failure', st)
        else:
            if isinstance(t, tuple) and not self.clear(E, st, t):
                E.violation('sticky', I, 'a passed self test marks its instance as failed', st)
            if ret is not None and self.ioctl and not is_zero(st, ret):
                E.violation('code', I, 'a passed self test is not reported as passed', st)
            if len(m['incs']) != 1:
                E.violation('stats', I, 'a passed self test is not counted as one run', st)
            if self.work and not m['queued']:
                E.violation('periodic', I, 'the periodic self test is not scheduled again', st)


def one(c, mod, n, combo):
    S = Summaries(mod)
    r = S.reach(n)
    mon = React(c, mod, n)
    mon.reader = 'jent_read_entropy_safe' in r
    mon.entry_init = 'jent_entropy_init_ex' in r
    ty = (mod.fparams(mod.funcs[n]) or [''])
    mon.work = ty[0] == 'work_struct*'
    mon.ioctl = 'jent_selftest' in r and not mon.work
    mon.combo = combo

    def setup(E, st, args):
        E.write(st, GH, 0, 8, C(0, 64))
        if combo:
            for k, v in combo.items():
                E.write(st, ('G', k), 0, 1, C(v, 8))
        mon.flags0 = E.read(st, ('G', 'flags'), 0, 4)
        st.mon['_keep'] += (mon.flags0,)
        if mon.ioctl:
            pass
    run(c, mod, mon, n, setup)


def check(c):
    mod = module()
    c.rule('the three delivery interfaces, every result of the library\'s read: success hands out exactly the bytes of that '
           'read; a permanent failure panics in FIPS mode and is -EFAULT otherwise, an unrecovered intermittent one is '
           '-EAGAIN, a generic one -EINVAL; nothing is read or handed out afterwards; a partial count is kept')
    c.rule('self tests: a failure panics in FIPS mode, otherwise it is recorded for the instance, reported, counted and not '
           'repeated; a pass is reported, counted and the periodic run goes on')
    c.rule('module load: parameters folded into the options, refused (panic in FIPS mode) unless the library initialised, '
           'nothing is registered before')
    jobs = []
    S = Summaries(mod)
    for n in entries(mod):
        r = S.reach(n)
        if 'jent_entropy_init_ex' in r:
            for i in range(8):
                jobs.append((n, dict(zip(FLAGS, ((i >> k) & 1 for k in range(3))))))
        elif r & {'jent_read_entropy_safe', 'jent_selftest', 'jent_entropy_collector_alloc', 'jent_entropy_collector_alloc_raw'}:
            jobs.append((n, {}))
    pmap(c, jobs, lambda c, j: one(c, mod, *j))
    for w in ('reads', 'panics', 'self tests', 'initialisations', 'bytes handed to a reader', 'instances allocated'):
        c.need(w)
