"""C27: kernel interfaces: what is registered or allocated is undone, in a safe order"""
from .kern import *

REGS = {'crypto_register_rng': 'rng', 'hwrng_register': 'hwrng', 'misc_register': 'misc'}
UNREGS = {'crypto_unregister_rng': 'rng', 'hwrng_unregister': 'hwrng', 'misc_deregister': 'misc'}


def refs(mod, n, seen=None):
    """globals a function and what it calls refer to"""
    seen = seen if seen is not None else set()
    out = set()
    if n in seen or n not in mod.funcs:
        return out
    seen.add(n)

    def walk(v):
        if isinstance(v, tuple):
            if len(v) == 2 and v[0] == 'g' and isinstance(v[1], str):
                x = mod.aliases.get(v[1], v[1])
                out.add(x)
                if x in mod.funcs:
                    out.update(refs(mod, x, seen))
            else:
                for x in v:
                    walk(x)
        elif isinstance(v, list):
            for x in v:
                walk(x)
    for b in mod.funcs[n].blocks.values():
        for I in b.ins:
            walk(list(I.a))
    return out


class Life(K):
    def __init__(self, c, mod, entry, kind, known):
        K.__init__(self, c, mod, entry)
        self.kind, self.known = kind, known
        self.shows, self.parents, self.final = {}, {}, set()
        self.incs, self.cells = set(), set()

    def start(self, st):
        K.start(self, st)
        st.mon.update(reg=tuple(sorted(self.known['reg'])) if self.kind == 'exit' else (), ecs=(), freed=(), stopped=(), removed=(),
                      gone=(), work=(), inc=(), proc=())

    # -- registrations -------------------------------------------------------
    def on_call(self, E, st, name, args, I):
        b = base(name)
        m = st.mon
        if b in REGS:
            k = REGS[b]
            self.c.count('registrations')
            if k in m['reg']:
                E.violation('twice', I, '%s although it is registered' % b, st)
            no = st.copy()
            m['reg'] = tuple(sorted(m['reg'] + (k,)))
            return [(st, C(0, 32)), (no, self.fail(E, no, I))]
        if b in UNREGS:
            k = UNREGS[b]
            self.c.count('registrations undone')
            if self.kind == 'init' and k == 'misc':
                E.violation('order', I, 'the device is withdrawn again although it may be open already', st)
            if k not in m['reg']:
                E.violation('unregister', I, '%s although it is not registered' % b, st)
            m['reg'] = tuple(x for x in m['reg'] if x != k)
            return [(st, E.fresh(st, I, 32, 'u') if self.width(I) else None)]
        if b == 'debugfs_create_dir':
            no = st.copy()
            p = self.obj(E, st, I, 'dbg')
            m['reg'] = tuple(sorted(m['reg'] + ('debugfs',)))
            e = E.fresh(no, I, 64, 'err')
            no.facts[e] = ((M64 - 4094, M64),)
            return [(st, p), (no, e)]
        if b == 'debugfs_create_file':
            no = st.copy()
            p = self.obj(E, st, I, 'dbgf')
            e = E.fresh(no, I, 64, 'err')
            no.facts[e] = ((M64 - 4094, M64),)
            return [(st, p), (no, e)]
        if b in ('debugfs_remove', 'debugfs_remove_recursive'):
            if not is_zero(st, args[0]):
                m['reg'] = tuple(x for x in m['reg'] if x != 'debugfs')
            return [(st, None)]
        if b in ('proc_mkdir', 'proc_create_single_data', 'proc_create_data', 'proc_create', 'proc_create_seq_private'):
            no = st.copy()
            p = self.obj(E, st, I, 'proc')
            par = args[1] if b == 'proc_mkdir' else args[2]
            show = args[3] if b == 'proc_create_single_data' else None
            m['proc'] += ((p, par, show[1] if show and show[0] == 'F' else None),)
            return [(no, C(0, 64)), (st, p)]
        if b == 'proc_remove':
            self.unproc(E, st, args[0], I)
            return [(st, None)]
        if b in ('cancel_delayed_work_sync', 'cancel_work_sync'):
            k = E.deref(st, args[0])
            if k not in m['stopped']:
                m['stopped'] += (k,)
            return [(st, E.fresh(st, I, self.width(I) or 8, 'c'))]
        if b in ('__init_work', 'init_timer_key'):
            k = E.deref(st, args[0])[0]
            if k not in m['work']:
                m['work'] += (k,)
            return [(st, None)]
        if b in ('atomic_inc', 'atomic_dec') and args[0][0] == 'p' and args[0][1][0] == 'G':
            m['inc'] += ((b[7:], args[0][1][1]),)
            return [(st, None)]
        if b in USES and name not in self.mod.funcs:
            i = USES[b]
            v = args[i] if i is not None else E.read(st, *E.deref(st, args[0]), 8)
            if any(eqv(st, x, v) for x in m['freed']):
                E.violation('after', I, 'the instance is used after it was released', st)
        return K.on_call(self, E, st, name, args, I)

    def cellsof(self, E, st, v):
        out = []
        for rid, o, n, bo in self.having('proc_dir_entry*'):
            if rid in st.mem and eqv(st, E.read(st, rid, o, 8), v):
                out.append((rid, o))
        for rid in list(st.mem):
            if rid[0] == 'G' and rid not in [x[0] for x in out] and st.mem[rid].size == 8 and eqv(st, E.read(st, rid, 0, 8), v):
                out.append((rid, 0))
        return out

    def unproc(self, E, st, v, I):
        m = st.mon
        if is_zero(st, v):
            return
        self.c.count('proc entries removed')
        for p, par, show in m['proc']:
            if eqv(st, p, v):
                # created in this run
                if p in m['gone']:
                    E.violation('twice', I, 'the proc entry was removed already', st)
                if par in m['gone']:
                    E.violation('order', I, 'the proc entry is removed after the directory it lies in', st)
                if p not in m['gone']:
                    m['gone'] += (p,)
        for cell in self.cellsof(E, st, v):
            if self.kind == 'exit':
                if cell in m['removed']:
                    E.violation('twice', I, 'the proc entry was removed already', st)
                if self.known['parents'].get(cell) in m['removed']:
                    E.violation('order', I, 'the proc entry is removed after the directory it lies in', st)
            if cell not in m['removed']:
                m['removed'] += (cell,)

    def on_store(self, E, st, rid, off, size, val, I):
        for p, par, show in st.mon['proc']:
            if val == p and rid[0] == 'G':
                self.shows[(rid, off)] = show
                for cell in self.cellsof(E, st, par):
                    if cell[0][0] == 'G':
                        self.parents[(rid, off)] = cell

    # -- instances ------------------------------------------------------------
    def ecalloc(self, E, st, p, b, args, I):
        st.mon['ecs'] += (p,)

    def ecfree(self, E, st, p, I):
        m = st.mon
        if is_zero(st, p):
            return
        self.c.count('instances released')
        if any(eqv(st, x, p) for x in m['freed']):
            E.violation('double', I, 'the instance is released twice', st)
        for rid, o, n, bo in self.having('rand_data*'):
            if rid not in st.mem or not eqv(st, E.read(st, rid, o, 8), p):
                continue
            for f, (b, k, bf, t) in self.struct(n).items():
                at = bo + b // 8
                if t == 'jent_selftest_instance' and (rid in m['work'] or not self.private(st, rid)):
                    if not any(r == rid and at <= x < at + k // 8 for r, x in m['stopped']):
                        E.violation('work', I, 'the instance is released while its periodic self test may run', st)
                if t == 'proc_dir_entry*' and not is_zero(st, E.read(st, rid, at, 8)) and not self.private(st, rid):
                    if (rid, at) not in m['removed']:
                        E.violation('proc', I, 'the instance is released while its status file can still be read', st)
            if rid[0] == 'G':
                if 'hwrng' in m['reg']:
                    E.violation('hwrng', I, 'the instance is released while it is registered as hardware RNG', st)
                for cell, show in (self.known['shows'] if self.kind == 'exit' else self.shows).items():
                    if show and rid[1] in refs(self.mod, show) and cell not in m['removed'] and \
                            not is_zero(st, E.read(st, cell[0], cell[1], 8)):
                        E.violation('proc', I, 'the instance is released while its status file can still be read', st)
        m['freed'] += (p,)
        m['ecs'] = tuple(x for x in m['ecs'] if x != p)

    def released(self, E, st, rid, off, wipe, n, I):
        m = st.mon
        if rid in m['gone']:
            E.violation('double', I, 'the object is released twice', st)
        for r, o, s, bo in self.having('rand_data*'):
            if r == rid:
                v = E.read(st, rid, o, 8)
                self.c.count('contexts released')
                if not is_zero(st, v) and not any(eqv(st, x, v) for x in m['freed']):
                    E.violation('leak', I, 'the context is released without its instance', st)
                for f, (b, k, bf, t) in self.struct(s).items():
                    at = bo + b // 8
                    if t == 'proc_dir_entry*' and not self.private(st, rid) and (rid, at) not in m['removed'] and \
                            not is_zero(st, E.read(st, rid, at, 8)):
                        E.violation('proc', I, 'the context is released while its status file can still be read', st)
        m['gone'] += (rid,)

    def on_load(self, E, st, rid, off, size, val, I):
        if rid in st.mon['gone']:
            E.violation('after', I, 'the context is used after it was released', st)

    def on_return(self, E, st, fn, ret, I):
        if len(E.stack) != 1:
            return
        m = st.mon
        self.c.count('outcomes')
        ok = ret is None or is_zero(st, ret)
        if ret is not None and not ok and rng(st, ret)[0][0] == 0:
            ok = None
        k = self.kind
        # cells that keep a released instance
        for rid, o, n, bo in self.having('rand_data*'):
            if rid in st.mem and rid not in m['gone']:
                v = E.read(st, rid, o, 8)
                if any(eqv(st, x, v) for x in m['freed']):
                    E.violation('dangling', I, 'a released instance is still referred to', st)
        ctx = [h[0] for h in m['heap']]
        keep = [E.read(st, rid, o, 8) for rid, o, n, bo in self.having('rand_data*') if rid in st.mem and rid not in m['gone']]
        lost = [p for p in m['ecs'] if not any(eqv(st, p, v) for v in keep)]
        if k in ('open', 'tfm', 'init'):
            if ok is None:
                E.violation('result', I, 'success and failure cannot be told apart', st)
            if not ok:
                if ctx:
                    E.violation('leak', I, 'the failing call leaves memory behind', st)
                if m['ecs']:
                    E.violation('leak', I, 'the failing call leaves an instance behind', st)
                if m['reg']:
                    E.violation('leak', I, 'the failing call leaves %s registered' % ', '.join(m['reg']), st)
                if k == 'init':
                    for p, par, show in m['proc']:
                        if p not in m['gone'] and (is_zero(st, par) or par not in m['gone']) and not self.under(st, par):
                            E.violation('leak', I, 'the failing call leaves a proc entry behind', st)
                if any(x == 'inc' for x, g in m['inc']):
                    E.violation('account', I, 'a failed open is counted', st)
            else:
                if lost or not m['ecs'] and k != 'init':
                    E.violation('lost', I, 'the instance is not kept', st)
                if len(ctx) > (1 if k == 'open' else 0):
                    E.violation('leak', I, 'the call leaves memory behind', st)
                if k == 'open':
                    self.incs |= {g for x, g in m['inc'] if x == 'inc'}
                    if self.c and len([1 for x, g in m['inc'] if x == 'inc']) != len({g for x, g in m['inc']}):
                        E.violation('account', I, 'the open is counted more than once', st)
                    d = self.struct('file')['private_data'][0] // 8
                    v = E.read(st, ('D', sym('arg1')), d, 8)
                    if not ctx or E.deref(st, v)[0] != ctx[0]:
                        E.violation('lost', I, 'the context is not kept with the open file', st)
                if k == 'init':
                    self.final.add(m['reg'])
                    for rid, o, n, bo in self.having('rand_data*'):
                        if rid[0] == 'G' and rid in st.mem and any(eqv(st, p, E.read(st, rid, o, 8)) for p in m['ecs']):
                            self.cells.add((rid, o))
        elif k == 'release':
            d = self.struct('file')['private_data'][0] // 8
            v = self.pd
            if rng(st, v)[0][0] > 0 or not is_zero(st, v):
                if not any(r == ('D', v) for r in m['gone']):
                    E.violation('leak', I, 'the context of the file is not released', st)
                elif not m['freed'] and rng(st, v)[0][0] > 0:
                    # no instance: only if there was none
                    pass
            self.decs = {g for x, g in m['inc'] if x == 'dec'} if rng(st, v)[0][0] > 0 else None
            if self.decs is not None and self.known['incs'] is not None and not self.decs <= self.known['incs'] or \
                    self.decs is not None and self.known['incs'] and not self.decs:
                E.violation('account', I, 'the count of open instances is not what open made it', st)
            left = E.read(st, ('D', sym('arg1')), d, 8)
            if not is_zero(st, left) and E.deref(st, left)[0] in m['gone']:
                E.violation('dangling', I, 'the file still refers to the released context', st)
        elif k == 'exit':
            if m['reg']:
                E.violation('leak', I, 'the module is removed while %s is registered' % ', '.join(m['reg']), st)
            for cell in self.known['shows']:
                par = cell
                ok = False
                for _ in range(4):
                    if par in m['removed']:
                        ok = True
                    par = self.known['parents'].get(par)
                    if par is None:
                        break
                if not ok and not is_zero(st, E.read(st, cell[0], cell[1], 8)) and not self.wasnull(E, st, cell):
                    E.violation('leak', I, 'the module is removed while its proc entries are there', st)
            for rid, o in self.known['cells']:
                if not is_zero(st, E.read(st, rid, o, 8)):
                    E.violation('leak', I, 'the module is removed without releasing its instance', st)
        elif k == 'cleanup':
            self.undone(E, st, I)

    def undone(self, E, st, I):
        seen = 0
        for rid, o, n, bo in self.having('rand_data*'):
            if rid in st.mem and rid[0] != 'A' and rid not in st.mon['gone']:
                seen += 1
                if not is_zero(st, E.read(st, rid, o, 8)):
                    E.violation('leak', I, 'the instance is not released', st)
        if not seen:
            E.violation('leak', I, 'the instance is not released', st)

    def wasnull(self, E, st, cell):
        return False

    def under(self, st, par):
        """lies below a removed directory"""
        m = st.mon
        for _ in range(6):
            if par in m['gone']:
                return True
            up = [q for p, q, s in m['proc'] if p == par]
            if not up:
                return False
            par = up[0]
        return False


def one(c, mod, n, kind, known):
    mon = Life(c, mod, n, kind, known)

    def setup(E, st, args):
        if kind == 'release':
            d = mon.struct('file')['private_data'][0] // 8
            mon.pd = E.read(st, ('D', args[1]), d, 8)
            st.mon['_keep'] += (mon.pd,)
            st.facts[mon.pd] = ((0, 0),) + BIG
        if kind in ('init',):
            # zero-initialised data of a fresh module
            for g, x in mod.globals.items():
                if x.init is not None and not x.const and x.ty.k == 'ptr' and srcglob(x):
                    E.write(st, ('G', g), 0, 8, C(0, 64))
    E = run(c, mod, mon, n, setup)
    return mon


def srcglob(g):
    i = g.init
    return i == ('null',) or i == ('zero',) or i is None or (isinstance(i, tuple) and i and i[0] in ('null', 'zeroinit', 'zeroinitializer', 'c'))


def kind(mod, S, n):
    r = S.reach(n)
    ty = mod.fparams(mod.funcs[n]) or ['']
    if 'misc_register' in r:
        return 'init'
    if 'misc_deregister' in r:
        return 'exit'
    if ty[0] == 'inode*':
        return 'open' if r & {'jent_entropy_collector_alloc', 'jent_entropy_collector_alloc_raw'} else 'release' if 'jent_entropy_collector_free' in r else None
    if ty[0] == 'crypto_tfm*':
        return 'tfm' if 'jent_entropy_collector_alloc' in r else 'cleanup'
    return None


def check(c):
    mod = module()
    c.rule('open, crypto transform set-up and module load, every outcome of every step: a failure leaves no memory, instance, '
           'registration or proc entry behind; a success keeps exactly one context with its instance')
    c.rule('release, transform clean-up and module removal: everything is undone once; an instance is released only after its '
           'self test was cancelled, its status file removed and its device unregistered; nothing is used afterwards; a proc '
           'entry is removed before its directory')
    S = Summaries(mod)
    ks = {n: kind(mod, S, n) for n in entries(mod)}
    c.cov['entry points'] = {n: k for n, k in ks.items() if k}
    known = dict(reg=(), shows={}, parents={}, incs=None, cells=())
    for n, k in ks.items():
        if k == 'init':
            mon = one(c, mod, n, k, known)
            known['shows'], known['parents'], known['cells'] = mon.shows, mon.parents, mon.cells
            f = [set(x) for x in mon.final]
            if not f:
                raise AnalysisError('the module load never succeeds')
            known['reg'] = set.intersection(*f)
    files = {}
    for n, k in ks.items():
        if k == 'open':
            mon = one(c, mod, n, k, known)
            files[srcfile(mod, n)] = mon.incs
    for n, k in ks.items():
        if k in ('release', 'exit', 'tfm', 'cleanup'):
            kn = dict(known, incs=files.get(srcfile(mod, n)) if k == 'release' else None)
            one(c, mod, n, k, kn)
    for w in ('registrations', 'registrations undone', 'instances released', 'contexts released', 'proc entries removed'):
        c.need(w)
    if sorted(x for x in ks.values() if x) != sorted(['init', 'exit', 'open', 'open', 'release', 'release', 'tfm', 'cleanup']):
        raise AnalysisError('the entry points of the module are not recognised: %s' % c.cov['entry points'])
