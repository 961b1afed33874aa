"""Bottom-up may-write / may-call summaries (used for functions outside the
interest of a check and for recursive calls)."""
from . import dom


class Summaries:
    def __init__(self, mod):
        self.mod = mod
        self.w = {}       # fn -> set of (root, off|None, size|None) written
        self.r = {}       # same for reads
        self.calls = {}   # fn -> names called directly; None = indirect
        self.trans = {}
        for f in mod.funcs.values():
            self.scan_calls(f)
        self.compute()

    def scan_calls(self, f):
        s = set()
        taken = set()
        for b in f.blocks.values():
            for I in b.ins:
                if I.op in ('call', 'callbr'):
                    c = I.a[0]
                    if c is None:
                        s.add('asm:' + I.a[2][0])
                    elif c[0] == 'g':
                        s.add(self.mod.aliases.get(c[1], c[1]))
                    else:
                        s.add(None)
                    for t, v in I.a[1]:
                        if v[0] == 'g' and v[1] in self.mod.funcs:
                            taken.add(v[1])
        self.calls[f.name] = s | taken

    def reach(self, name):
        """all functions/externals/asm reachable from name"""
        r = self.trans.get(name)
        if r is None:
            r = set()
            st = [name]
            while st:
                x = st.pop()
                for y in self.calls.get(x, ()):
                    if y not in r:
                        r.add(y)
                        st.append(y)
            self.trans[name] = r
        return r

    # -- roots of pointers ------------------------------------------------
    def roots(self, f):
        mod = self.mod
        defs = {I.res: I for b in f.blocks.values() for I in b.ins if I.res}
        params = {r: i for i, (t, r) in enumerate(f.params)}
        memo = {}
        prog, cyc = set(), set()

        def root(v, d=0):
            """-> list of (root, off|None)"""
            k = v[0]
            if k == 'g':
                return [(('g', v[1]), 0, 0)]
            if k == 'ce' and v[1] == 'gep':
                o, sp = self.gepoff(v[2], v[3][1:])
                return [addoff(x, o, sp) for x in root(v[3][0][1], d + 1)]
            if k != 'r':
                return []
            if v[1] in params:
                return [(('p', params[v[1]]), 0, 0)]
            if v[1] in prog:
                cyc.add(v[1])
                return []
            if v[1] in memo:
                return memo[v[1]]
            before = set(memo)
            prog.add(v[1])
            I = defs.get(v[1])
            res = []
            if I is None or d > 30:
                res = [('?', None, 0)]
            elif I.op == 'alloca':
                res = [(('a', v[1]), 0, 0)]
            elif I.op == 'getelementptr':
                o, sp = self.gepoff(I.a[0], I.a[1][1:])
                res = [addoff(x, o, sp) for x in root(I.a[1][0][1], d + 1)]
            elif I.op == 'phi':
                s = set()
                for x, _ in I.a:
                    for r, o, sp in root(x, d + 1):
                        s.add((r, o, sp))
                roots_ = {}
                for r, o, sp in s:
                    roots_.setdefault(r, set()).add((o, sp))
                res = []
                for r, os in roots_.items():
                    if len(os) == 1:
                        o, sp = list(os)[0]
                        res.append((r, o, sp))
                    else:
                        res.append((r, None, 0))
            elif I.op == 'select':
                res = root(I.a[1], d + 1) + root(I.a[2], d + 1)
            elif I.op in ('bitcast', 'inttoptr', 'ptrtoint', 'freeze'):
                res = root(I.a[0], d + 1)
            elif I.op in ('add', 'sub', 'and', 'or'):
                res = [(r, None, 0) for r, o, sp in root(I.a[0], d + 1) + root(I.a[1], d + 1)]
            elif I.op == 'load':
                for r, o, sp in root(I.a[0], d + 1):
                    if r == '?' or o is None or sp or depth(r) > 3:
                        res.append(('?', None, 0))
                    elif r[0] == 'a':
                        # pointer kept in a local: look at what is stored there
                        hit = False
                        for b in f.blocks.values():
                            for S in b.ins:
                                if S.op == 'store' and S.a[2] == ('r', r[1]) and S.a[1][0] in ('r', 'g'):
                                    res += root(S.a[1], d + 1)
                                    hit = True
                        if not hit:
                            res.append(('?', None, 0))
                    else:
                        res.append((('ld', r, o), 0, 0))
            elif I.op == 'call':
                res = [(('ret',), 0, 0)]
            else:
                res = [('?', None, 0)]
            prog.discard(v[1])
            if v[1] in cyc:
                # loop-carried pointer: any offset; values computed meanwhile are stale
                for k2 in set(memo) - before:
                    del memo[k2]
                res = [(r, None, 0) for r in {x[0] for x in res}]
                cyc.discard(v[1])
            memo[v[1]] = res
            return res
        return root

    def compute(self):
        fs = self.mod.funcs
        own = {}
        ownr = {}
        for f in fs.values():
            root = self.roots(f)
            w = set()
            rd = set()
            cs = []
            for b in f.blocks.values():
                for I in b.ins:
                    if I.op == 'load':
                        for r, o, sp in root(I.a[0]):
                            rd.add((r, o, sp + self.mod.size(I.ty)))
                    elif I.op == 'store':
                        for r, o, sp in root(I.a[2]):
                            w.add((r, o, sp + self.mod.size(I.a[0])))
                    elif I.op in ('cmpxchg',):
                        for r, o, sp in root(I.a[0]):
                            w.add((r, o, sp + self.mod.size(I.a[3])))
                    elif I.op == 'atomicrmw':
                        for r, o, sp in root(I.a[1]):
                            w.add((r, o, sp + self.mod.size(I.a[3])))
                    elif I.op in ('call', 'callbr'):
                        c = I.a[0]
                        argr = [root(v) if v[0] in ('r', 'g', 'ce') else [] for t, v in I.a[1]]
                        argt = [t for t, v in I.a[1]]
                        if c is not None and c[0] == 'g':
                            cn = self.mod.aliases.get(c[1], c[1])
                            if cn.startswith(('llvm.memset', 'llvm.memcpy', 'llvm.memmove')) or cn in (
                                    'memset', 'memcpy', 'memmove'):
                                n = I.a[1][2][1]
                                for r, o, sp in argr[0]:
                                    w.add((r, o, sp + n[1]) if n[0] == 'c' else (r, None, None))
                                if 'memset' not in cn:
                                    for r, o, sp in argr[1]:
                                        rd.add((r, o, sp + n[1]) if n[0] == 'c' else (r, None, None))
                            elif cn.startswith('llvm.'):
                                pass
                            elif cn in fs:
                                cs.append((cn, argr))
                            else:
                                for t, a in zip(argt, argr):
                                    if t.k == 'ptr':
                                        for r, o, sp in a:
                                            w.add((r, None, None))
                        elif c is None:
                            for t, a in zip(argt, argr):
                                if t.k == 'ptr' and '*m' in I.a[2][1]:
                                    for r, o, sp in a:
                                        w.add((r, o, sp + 8))
            own[f.name] = (w, cs)
            ownr[f.name] = (rd, cs)
            self.w[f.name] = norm(w)
            self.r[f.name] = norm(rd)
        self.close(own, self.w)
        self.close(ownr, self.r)

    def close(self, own, tab):
        ch = True
        it = 0
        while ch and it < 60:
            ch = False
            it += 1
            for fn, (w, cs) in own.items():
                new = set(w)
                for cn, argr in cs:
                    for r, o, s in tab[cn]:
                        for r2, o2, sp in self.inst(r, argr):
                            oo = None if (o is None or o2 is None) else o + o2
                            new.add((r2, oo, s + sp if oo is not None else None))
                new = norm(new)
                if new != tab[fn]:
                    tab[fn] = new
                    ch = True

    def inst(self, r, argr):
        if r == '?':
            return [('?', None, 0)]
        if r[0] == 'g':
            return [(r, 0, 0)]
        if r[0] == 'p':
            return argr[r[1]] if r[1] < len(argr) else []
        if r[0] == 'ld':
            out = []
            for b, o, sp in self.inst(r[1], argr):
                if b == '?' or o is None or sp or depth(b) > 3:
                    out.append(('?', None, 0))
                elif b[0] in ('a', 'ret'):
                    out.append((('al',), None, 0))
                else:
                    out.append((('ld', b, o + r[2]), 0, 0))
            return out
        return []

    def gepoff(self, t, idx):
        """-> (constant offset | None, extent of a variable index inside an array)"""
        mod = self.mod
        o, sp = 0, 0
        for i, (it, iv) in enumerate(idx):
            if i == 0:
                if iv[0] != 'c':
                    return None, 0
                o += dom.sgn(iv[1], it.n) * mod.size(t)
                continue
            t = mod.resolve(t)
            if t.k == 'struct':
                o += mod.field_off(t, iv[1])
                t = t.el[iv[1]]
            else:
                if iv[0] == 'c':
                    o += iv[1] * mod.size(t.el)
                else:
                    sp += (t.n - 1) * mod.size(t.el)
                t = t.el
        return o, sp

    member = None       # callable(E, st, rid, off) -> (off, size) of the member there

    def effects(self, E, st, tab, fn, av):
        """concrete footprint of a call: [(rid, off|None, size)], any?"""
        def ev(r):
            if r[0] == 'p':
                return av[r[1]] if r[1] < len(av) else None
            if r[0] == 'g':
                return ('p', ('G', r[1]), 0)
            if r[0] == 'ld':
                b = ev(r[1])
                if b is None or b == 'any' or b[0] in 'cF':
                    return None
                rid, off = E.deref(st, b)
                if not isinstance(off, int):
                    return 'any'
                return E.read(st, rid, off + r[2], 8)
            return None
        anyh = False
        out = {}
        for r, o, s in tab[fn.name]:
            if r == '?' or r == ('al',):
                anyh = True
                continue
            if r[0] in ('a', 'ret'):
                continue
            b = ev(r)
            if b is None:
                continue
            if b == 'any':
                anyh = True
                continue
            if b[0] == 'c' or b[0] == 'F':
                continue
            rid, off = E.deref(st, b)
            if o is None and r[0] == 'p' and isinstance(off, int) and off > 0 and self.member:
                # a pointer to a member: the callee stays inside it
                m = self.member(E, st, rid, off)
                if m:
                    if out.get(rid, 0) is not None:
                        out.setdefault(rid, set()).add(m)
                    continue
            if o is None or not isinstance(off, int):
                out[rid] = None
            elif out.get(rid, 0) is not None:
                out.setdefault(rid, set()).add((off + o, s))
        res = []
        for rid, os in sorted(out.items(), key=repr):
            if os is None:
                res.append((rid, None, None))
            else:
                for o, s in sorted(os):
                    res.append((rid, o, s))
        return res, anyh

    def apply(self, E, st, fn, av, I):
        """havoc what fn may write"""
        eff, anyh = self.effects(E, st, self.w, fn, av)
        for rid, o, s in eff:
            E.mon_havoc(st, rid, o, s, I)
        if anyh:
            E.warn.setdefault('havoc-all', set()).add(fn.name)
            for rid in list(st.mem):
                if rid[0] in ('A',) or (rid[0] == 'G' and E.gconst(rid[1])):
                    continue
                E.mon_havoc(st, rid, None, None, I)


def depth(r):
    d = 0
    while isinstance(r, tuple) and r and r[0] == 'ld':
        d += 1
        r = r[1]
    return d


def norm(w):
    """drop local roots, collapse ranges per root when there are many"""
    by = {}
    for r, o, s in w:
        if r != '?' and r[0] in ('a', 'ret'):
            continue
        by.setdefault(r, set()).add((o, s))
    out = set()
    for r, os in by.items():
        if any(o is None for o, _ in os) or len(os) > 80:
            out.add((r, None, None))
        else:
            for o, s in os:
                out.add((r, o, s))
    return out


def addoff(x, o, sp):
    r, ro, rs = x
    if o is None or ro is None:
        return (r, None, 0)
    return (r, ro + o, rs + sp)
