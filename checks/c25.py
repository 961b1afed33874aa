"""C25: kernel interfaces use an instance only under its lock"""
from .kern import *

O_NONBLOCK = 0o4000


class Locks(K):
    def start(self, st):
        K.start(self, st)
        st.mon['_ff'] = None
        st.mon['paired'] = ()

    def join_private(self, k, a, b):
        return None if k == '_ff' else K.join_private(self, k, a, b)

    def bad(self, E, st, I, rule, msg):
        E.violation(rule, I, msg, st)

    def lock(self, E, st, k, how, I):
        if k in st.mon['held']:
            E.violation('twice', I, 'the lock is taken again while it is held', st)
        ty = self.mod.fparams(self.mod.funcs[self.entry]) or []
        if how == 'mutex_trylock' or not self.reader:
            return
        if ty and ty[0].replace('const ', '') == 'file*':
            self.c.count('waiting readers')
            v = st.mon['_ff']
            if v is None or not is_zero(st, dom.binop('and', v, C(O_NONBLOCK, dom.width(v)), dom.width(v))):
                E.violation('nonblock', I, 'a reader with O_NONBLOCK may wait for the lock', st)
        if ty and ty[0] == 'hwrng*' and len(ty) > 3:
            self.c.count('waiting readers')
            w = st.mon['_keep'][3]
            if rng(st, w)[0][0] == 0:
                E.violation('nonblock', I, 'a caller that must not wait may wait for the lock', st)

    def on_load(self, E, st, rid, off, size, val, I):
        if rid == ('D', sym('arg0')) and self.types.get((rid, 0)) == 'file' and off == self.struct('file')['f_flags'][0] // 8:
            st.mon['_ff'] = val
        if self.types.get((rid, 0)) == 'rand_data':
            self.touch(E, st, rid[1], I, 'a field of the instance is read')

    def need(self, E, st, cell):
        rid, o, n, bo = cell
        if isinstance(bo, int):
            mx = [(rid, bo + b // 8) for f, (b, k, bf, t) in self.struct(n).items() if t == 'mutex']
            if mx:
                return mx
            return [k for k in st.mon['held'] if k[0][0] == 'G']
        r0, b0 = bo
        return [E.deref(st, E.read(st, r0, b0 + b // 8, 8)) for f, (b, k, bf, t) in self.struct(n).items() if t == 'mutex*']

    def cells(self, E, st, ec):
        return [x for x in self.eccells(E, st) if x[0] in st.mem and eqv(st, E.read(st, x[0], x[1], 8), ec)]

    def acquired(self, E, st, k, I):
        st.mon['held'] = tuple(sorted(st.mon['held'] + (k,), key=repr))
        for i, x in enumerate(self.eccells(E, st)):
            rid, o, n, bo = x
            lk = not isinstance(bo, int) or any(t == 'mutex' for b, _, bf, t in self.struct(n).values())
            if rid in st.mem and lk and not self.private(st, rid):
                E.havoc(st, rid, o, 8, I, 'ec%d' % i)

    def judged(self, E, st, cs, I, what):
        self.c.count('uses of an instance')
        for x in cs:
            if self.private(st, x[0]):
                return
            if any(k in st.mon['held'] for k in self.need(E, st, x)):
                return
        E.violation('unlocked', I, '%s without the lock that protects the instance' % what, st)

    def touch(self, E, st, ec, I, what):
        if ec[0] == 'c' or is_zero(st, ec):
            return
        if ('D', ec) in st.mon['mine'] or self.teardown:
            return
        cs = self.cells(E, st, ec)
        if not cs:
            E.violation('stale', I, '%s through a pointer that was not read under the lock' % what, st)
            return
        self.judged(E, st, cs, I, what)

    def use(self, E, st, b, args, I):
        i = USES[b]
        if i is not None:
            self.touch(E, st, args[i], I, b + ' is called')
        else:
            rid, off = E.deref(st, args[0])
            cs = [x for x in self.eccells(E, st) if x[0] == rid and x[1] == off]
            self.judged(E, st, cs, I, b + ' is called')
            if cs:
                # recovery may have replaced the instance
                E.havoc(st, rid, off, 8, I, 'moved')

    def on_call(self, E, st, name, args, I):
        if name is None and args:
            self.touch(E, st, args[0], I, 'a measurement is taken')
        return K.on_call(self, E, st, name, args, I)

    def on_store(self, E, st, rid, off, size, val, I):
        for r0, o0, n in self.bases('jent_selftest_instance'):
            if r0 != rid:
                continue
            d = self.struct(n)
            for f, (b, k, bf, t) in d.items():
                if off != o0 + b // 8:
                    continue
                if t in ('mutex*', 'rand_data**') and (rid, o0) not in st.mon['paired']:
                    st.mon['paired'] += ((rid, o0),)
                if t == 'bool':
                    self.c.count('stores of the verdict')
                    if self.private(st, rid):
                        continue
                    lk = [E.deref(st, E.read(st, rid, o0 + d[g][0] // 8, 8)) for g in d if d[g][3] == 'mutex*']
                    if not any(x in st.mon['held'] for x in lk):
                        E.violation('verdict', I, 'the verdict of the self test is recorded without the lock', st)
                    if rng(st, val)[0][0] == 0 and not is_zero(st, dom.bits(E.read(st, rid, off, 1), 0, 1)):
                        E.violation('verdict', I, 'a recorded failure of the self test may be taken back', st)
        for r0, o0, n, bo in self.having('rand_data*'):
            if r0 == rid and o0 == off and not self.private(st, rid) and not self.teardown:
                self.judged(E, st, [(r0, o0, n, bo)], I, 'the instance is replaced')

    def on_return(self, E, st, fn, ret, I):
        if len(E.stack) != 1:
            return
        self.c.count('returns')
        if st.mon['held']:
            E.violation('leak', I, 'the call returns with a lock held', st)
        for rid, o in st.mon['paired']:
            self.c.count('self tests set up')
            d = self.struct('jent_selftest_instance')
            lk = [E.deref(st, E.read(st, rid, o + d[g][0] // 8, 8)) for g in d if d[g][3] == 'mutex*']
            ec = [E.deref(st, E.read(st, rid, o + d[g][0] // 8, 8)) for g in d if d[g][3] == 'rand_data**']
            cells = [x for x in self.eccells(E, st) if isinstance(x[3], int) and (x[0], x[1]) == ec[0]]
            if not cells or not any(lk[0] in self.need(E, st, x) for x in cells):
                E.violation('pair', I, 'the self test is not given an instance together with the lock that protects it', st)


def one(c, mod, n):
    S = Summaries(mod)
    mon = Locks(c, mod, n)
    r = S.reach(n)
    mon.teardown = 'jent_entropy_collector_free' in r
    mon.reader = 'jent_read_entropy_safe' in r
    run(c, mod, mon, n)


def check(c):
    mod = module()
    c.rule('every callback of the kernel interfaces (file operations, ioctl, procfs, hwrng, crypto API, work): an instance is '
           'used, and the pointer to it read or replaced, only while its own lock is held (objects created by the call and '
           'teardown: C27); what was read before the lock was obtained is not used after')
    c.rule('every lock is released on every path, never taken twice, never released unheld, never held while waiting for a '
           'callback that takes it; readers that must not wait only try the lock')
    c.rule('the verdict of an instance\'s self test is recorded under the lock and never taken back')
    es = entries(mod)
    pmap(c, es, lambda c, n: one(c, mod, n))
    c.need('uses of an instance', 8)
    c.need('lock acquisitions', 8)
    c.need('waiting readers', 2)
    c.need('stores of the verdict', 2)
    c.need('self tests set up', 2)
