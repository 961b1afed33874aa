"""C14: process-wide state is reached in a race free way"""
import re
from sa import build
from sa.lib import *

STRONG_LD = {'acquire', 'seq_cst'}
STRONG_ST = {'release', 'seq_cst'}
STRONG_RMW = {'acq_rel', 'seq_cst'}
# the documented configuration calls: only before the library is in use
CONFIG = {'jent_entropy_switch_notime_impl', 'jent_entropy_set_notime_cpu', 'jent_set_fips_failure_callback',
          'jent_notime_switch', 'jent_notime_set_cpu', 'jent_set_fips_failure_callback_internal'}
SYNC = ('pthread_', 'mtx_', 'call_once')


def api(mod):
    txt = open(build.REPO + '/jitterentropy.h').read()
    return {n for n in re.findall(r'\b(jent_\w+)\s*\(', txt) if n in mod.funcs}


class Acc:
    """accesses reached from an address: (kind, strength, instruction)"""

    def __init__(self, mod):
        self.mod = mod
        self.memo = {}

    def base(self, v):
        """global a constant operand points into"""
        while v is not None and v[0] == 'ce' and v[1] in ('gep', 'getelementptr', 'bitcast', 'addrspacecast'):
            x = v[3][0] if len(v) > 3 and v[3] else v[2]
            v = x[1] if isinstance(x, tuple) and len(x) == 2 and not isinstance(x[0], str) else x
        return v

    def of_reg(self, fn, is_base, stack=()):
        """is_base(operand) -> the operand is the tracked address"""
        mod = self.mod
        der = set()
        out = []

        def D(v):
            return v is not None and (is_base(self.base(v)) or (v[0] == 'r' and v[1] in der))
        ch = True
        while ch:
            ch = False
            for b in fn.blocks.values():
                for I in b.ins:
                    if I.res and I.res not in der and I.op in ('getelementptr', 'bitcast', 'phi', 'select', 'addrspacecast',
                                                              'freeze'):
                        ops = operands(I)
                        if any(D(v) for v in ops):
                            der.add(I.res)
                            ch = True
        for b in fn.blocks.values():
            for I in b.ins:
                if I.op == 'load' and D(I.a[0]):
                    out.append(('r', I.a[2] if len(I.a) > 2 else None, I))
                elif I.op == 'store':
                    if D(I.a[2]):
                        out.append(('w', I.a[4] if len(I.a) > 4 else None, I))
                    if D(I.a[1]):
                        out.append(('esc', None, I))
                elif I.op == 'atomicrmw':
                    if D(I.a[1]):
                        out.append(('rw', I.a[4], I))
                elif I.op == 'cmpxchg':
                    if any(D(v) for v in operands(I)):
                        out.append(('rw', cmpord(I), I))
                elif I.op in ('call', 'callbr', 'invoke'):
                    cal, args = I.a[0], I.a[1]
                    for i, (t, v) in enumerate(args):
                        if v is None or not isinstance(v, tuple) or not D(v):
                            continue
                        if cal is None or cal[0] != 'g':
                            out.append(('esc', None, I))
                            continue
                        n = mod.aliases.get(cal[1], cal[1])
                        if n.startswith('llvm.dbg') or n.startswith('llvm.lifetime'):
                            continue
                        if n in mod.funcs:
                            out += self.param(n, i, stack)
                        elif n.startswith('llvm.mem') or n.startswith('mem'):
                            out.append(('w' if i == 0 else 'r', None, I))
                        elif n.startswith(SYNC):
                            out.append(('sync', None, I))
                        else:
                            out.append(('esc', None, I))
                elif I.op == 'ret':
                    if any(D(v) for v in operands(I)):
                        out.append(('esc', None, I))
                elif I.op == 'ptrtoint':
                    if any(D(v) for v in operands(I)):
                        out.append(('esc', None, I))
        return out

    def param(self, name, i, stack=()):
        k = (name, i)
        if k in self.memo:
            return self.memo[k]
        if k in stack:
            return []
        fn = self.mod.funcs[name]
        if i >= len(fn.params):
            return []
        reg = fn.params[i][1]
        r = self.of_reg(fn, lambda v: v == ('r', reg), stack + (k,))
        self.memo[k] = r
        return r


def cmpord(I):
    m = re.findall(r'\b(monotonic|acquire|release|acq_rel|seq_cst)\b', I.text)
    return m[0] if m else None


def operands(I):
    out = []

    def walk(x):
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] in ('r', 'g') and isinstance(x[1], str):
                out.append(x)
                return
            if len(x) > 1 and x[0] == 'ce':
                out.append(x)
                return
            for y in x:
                walk(y)
        elif isinstance(x, list):
            for y in x:
                walk(y)
    walk(I.a)
    return out


def strong(k, order):
    return order in {'r': STRONG_LD, 'w': STRONG_ST, 'rw': STRONG_RMW}[k]


def uses(mod, A, g):
    """direct accesses per function"""
    out = {}
    for n, fn in mod.funcs.items():
        r = A.of_reg(fn, lambda v: v == ('g', g))
        if r:
            out[n] = r
    return out


def entries(mod, names):
    """where an analysis of these functions starts: the nearest functions visible outside their file"""
    callers = {}
    taken = set()
    for n, fn in mod.funcs.items():
        for b in fn.blocks.values():
            for I in b.ins:
                if I.op in ('call', 'callbr'):
                    if I.a[0] is not None and I.a[0][0] == 'g':
                        callers.setdefault(mod.aliases.get(I.a[0][1], I.a[0][1]), set()).add(n)
    out, seen, todo = set(), set(), list(names)
    while todo:
        n = todo.pop()
        if n in seen:
            continue
        seen.add(n)
        if mod.funcs[n].linkage not in ('internal', 'private') or not callers.get(n):
            out.add(n)
        else:
            todo += callers[n]
    return out


class Pub(Monitor):
    """typestate of value/flag publication, other threads may change every global at any time"""

    def __init__(self, c, vals, flags, claim, plain):
        self.c, self.vals, self.flags, self.claim, self.plain = c, vals, flags, claim, plain
        self.bad = []

    def tracked(self, E, st):
        return (st.mon.get('w'), tuple(zclass(st, v) for v in st.mon.get('_fl', ())), st.mon.get('own'),
                tuple(zclass(st, v) for v in st.mon.get('_cl', ())))

    def keep(self, st, k, v):
        st.mon[k] = st.mon.get(k, ()) + (v,)
        st.mon['_keep'] = st.mon.get('_keep', ()) + (v,)

    def seen(self, st):
        return st.mon.get('own') or any(zclass(st, v) == 1 for v in st.mon.get('_fl', ()))

    def on_load(self, E, st, rid, off, size, val, I):
        if rid[0] != 'G':
            return
        if rid[1] in self.flags and I.op == 'load':
            self.c.count('loads of a flag')
            if val is not None and val[0] != 'c' and len(st.mon.get('_fl', ())) < 4:
                self.keep(st, '_fl', val)
        if rid[1] in self.claim and I.op != 'load':
            if val is not None and val[0] != 'c' and len(st.mon.get('_cl', ())) < 4:
                self.keep(st, '_cl', val)
        if rid[1] in self.vals:
            self.c.count('loads of a published value')
            if not self.seen(st):
                E.violation('early', I, '%s is read without its flag having been found set' % rid[1], st)

    def on_store(self, E, st, rid, off, size, val, I):
        if rid[0] != 'G':
            return
        if rid[1] in self.vals:
            self.c.count('stores of a published value')
            w = set(st.mon.get('w') or ())
            w.add((rid[1], off))
            st.mon['w'] = tuple(sorted(w, key=repr))
            if rid[1] in self.plain:
                if not any(zclass(st, v) == 0 for v in st.mon.get('_cl', ())):
                    E.violation('claim', I, '%s is written without an exclusive claim on it' % rid[1], st)
                elif zclass(st, E.read(st, rid, off, size)) == 2 and False:
                    pass
            if st.mon.get('own'):
                E.violation('late', I, '%s is written after it was published' % rid[1], st)
        if rid[1] in self.flags and I.op == 'store' and zclass(st, val) != 0:
            self.c.count('publications')
            miss = [v for v in self.cells() if v not in (st.mon.get('w') or ())]
            if miss:
                E.violation('publish', I, '%s is set before %s is complete' % (rid[1], miss[0][0]), st)
            st.mon['own'] = True

    def cells(self):
        return self._cells

    def on_return(self, E, st, fn, ret, I):
        if len(E.stack) == 1 and st.mon.get('w') and not st.mon.get('own'):
            E.violation('unpublished', I, 'a value is established but its flag is not set', st)


class Cb(Monitor):
    """pointers in process-wide state: the value called is the value tested"""

    def __init__(self, c, gs):
        self.c, self.gs = c, gs

    def on_load(self, E, st, rid, off, size, val, I):
        if rid[0] == 'G' and rid[1] in self.gs:
            vs = st.mon.get('_v', ())
            if len(vs) < 4:
                st.mon['_v'] = vs + (val,)
                st.mon['_keep'] = st.mon.get('_keep', ()) + (val,)

    def tracked(self, E, st):
        return tuple(zclass(st, v) for v in st.mon.get('_v', ()))

    def on_call(self, E, st, name, args, I):
        if name is None and I.a[0] is not None:
            p = E.val(st, I.a[0], ir.PTR)
            if p in st.mon.get('_v', ()):
                self.c.count('calls through process-wide pointers')
                if zclass(st, p) != 1:
                    E.violation('retest', I, 'a pointer loaded from process-wide state is called without that loaded '
                                'value having been tested', st)


def check(c):
    c.rule('every non-constant variable with static storage: all accesses, followed through pointers and calls, are atomic '
           '(loads acquire, stores release, exchanges both) - or the variable is never written - or it is configuration '
           'only written by the documented configuration calls - or it is published: written only under an exclusive '
           'claim, flag stored after it, flag loaded as set before it is read')
    for cfg in ('default', 'notimer'):
        mod = build.build_user(cfg)
        S = Summaries(mod)
        A = Acc(mod)
        work = set()
        for r in api(mod) - CONFIG:
            work |= S.reach(r)
            work.add(r)
        for n, fn in mod.funcs.items():
            if any('rand_data' in t for t in (mod.fparams(fn) or ())) or 'sample_timer' in n:
                work.add(n)
                work |= S.reach(n)
        work -= CONFIG
        atomic, published, fnptr = {}, {}, set()
        for g, G in sorted(mod.globals.items()):
            if G.const or G.tls or G.init is None or g.startswith(('llvm.', '.str', 'str.')):
                continue
            us = uses(mod, A, g)
            if not us:
                continue
            c.count('variables')
            allacc = [(f, a) for f, l in us.items() for a in l]
            c.count('accesses', len(allacc))
            c.functions |= set(us)
            plain = [(f, a) for f, a in allacc if a[0] in ('r', 'w', 'rw') and a[1] is None]
            weak = [(f, a) for f, a in allacc if a[0] in ('r', 'w', 'rw') and a[1] is not None and not strong(a[0], a[1])]
            esc = [(f, a) for f, a in allacc if a[0] == 'esc']
            written = any(a[0] in ('w', 'rw', 'esc') for _, a in allacc)
            if not written:
                continue
            for f, a in weak:
                viol(c, mod, 'order', g, f, a, 'is accessed with a memory order that does not publish or acquire what it '
                     'stands for (%s)' % a[1])
            if not plain and not esc:
                atomic[g] = us
                continue
            pw = [(f, a) for f, a in plain + esc if a[0] in ('w', 'rw', 'esc')]
            if not any(f in work for f, _ in pw) and not any(a[1] for _, a in allacc):
                c.count('configuration variables')
                continue
            if esc:
                for f, a in esc:
                    viol(c, mod, 'escape', g, f, a, 'is handed to code where its accesses cannot be followed')
                continue
            published[g] = (us, plain)
        flagcand = [g for g in atomic]
        # values published through a flag: plain ones must be, arrays of results are
        memo = {}
        for g, us in atomic.items():
            t = mod.resolve(mod.globals[g].ty)
            if t.k == 'array' and any(a[0] == 'w' for l in us.values() for a in l):
                memo[g] = us
        for g, us, pl in [(g, u, p) for g, (u, p) in published.items()] + [(g, u, []) for g, u in memo.items()]:
            ent = entries(mod, us)
            # flags: atomics written in the same entries
            went = entries(mod, [n for n, l in us.items() if any(a[0] in ('w', 'rw') for a in l)])
            fl = []
            for x in flagcand:
                if x == g:
                    continue
                xe = entries(mod, [n for n, l in atomic[x].items() if any(a[0] in ('w', 'rw') for a in l)])
                if xe & went:
                    fl.append(x)
            best = None
            for f in fl:
                if not any(a[0] == 'w' for l in atomic[f].values() for a in l):
                    continue
                r = publication(c, mod, g, f, fl, ent, bool(pl))
                if best is None or len(r.viol) < len(best.viol):
                    best = r
                if not r.viol:
                    break
            if best is None:
                l = pl or [(n, a) for n, u in us.items() for a in u]
                f, a = sorted(l, key=lambda x: (x[1][0] == 'r', x[0]))[0]
                viol(c, mod, 'plain', g, f, a, 'is accessed non-atomically while other threads may use it')
                continue
            c.count('published values')
            c.merge(best)
        # callbacks
        for g, us in atomic.items():
            if mod.globals[g].ty.k != 'ptr':
                continue
            for n in entries(mod, us):
                E = Engine(mod, Cb(c, {g}), opts=dict(skip=Policy(mod, calls=set(us), small=30)))
                E.volatile = lambda rid, off, size: rid[0] == 'G' and rid[1] == g
                st = State()
                args = [sym('a%d' % i, t.n if t.k == 'int' else 64) for i, (t, r) in enumerate(mod.funcs[n].params)]
                st.mon['_keep'] = tuple(args)
                E.run(n, args, st)
                c.absorb(E)
    c.need('variables', 10)
    c.need('accesses', 30)


def publication(c, mod, g, f, fl, ent, plain):
    """one hypothesis: value g is published by flag f"""
    c2 = Check(c.pid, c.tier)
    G = mod.globals[g]
    t = mod.resolve(G.ty)
    es = mod.size(t.el) if t.k == 'array' else mod.size(t)
    A = Acc(mod)
    touch = set(uses(mod, A, g)) | set(uses(mod, A, f))
    wr = {n for n in touch}
    for n in sorted(ent | entries(mod, uses(mod, A, f))):
        mon = Pub(c2, {g}, {f}, set(fl) - {f}, {g} if plain else set())
        mon._cells = [(g, o) for o in range(0, mod.size(t), es)]
        pol = Policy(mod, calls=touch | {x for x in mod.funcs if x.startswith('jent_atomic')}, small=30)
        E = Engine(mod, mon, opts=dict(skip=pol))
        E.volatile = lambda rid, off, size: rid[0] == 'G' and rid[1] in ({g, f} | set(fl))
        st = State()
        args = [sym('a%d' % i, x.n if x.k == 'int' else 64) for i, (x, r) in enumerate(mod.funcs[n].params)]
        st.mon['_keep'] = tuple(args)
        st.mon['w'] = ()
        st.mon['own'] = False
        E.run(n, args, st)
        c2.absorb(E)
    return c2


def viol(c, mod, rule, g, f, a, msg):
    I = a[2]
    l = mod.loc(I.dbg)
    file, line = (l[0], l[1]) if l else ('?', 0)
    c.violation(rule, file, line, I.fn.name if I.fn else f, '%s %s' % (g, msg), ['accessed from %s' % f])
