"""Forward abstract interpreter over the IR (see DESIGN.md, "engine").

Interprocedural by abstract inlining, flow sensitive, with trace partitioning:
abstract states that reach the same block are joined unless they differ in the
monitor state, in a tracked predicate or in a constant/pointer held by a live
register.  Loop heads are joined and widened until stable, so every execution
(any number of iterations) is covered.  No solver, no concrete execution."""
import heapq
import sys
from . import dom
from .dom import (C, TRUE, FALSE, NULL, width, bits, cat, zext, sext, binop, icmp, select, lnot, padd,
                  full, inter, union, iset, compl, pred_set, shift_map, syms, symset, subst, mk, nm, offterm, sgn, NEGP, SWAP,
                  hull)

sys.setrecursionlimit(20000)


class AnalysisError(Exception):
    """the analysis cannot decide (unknown construct, missing anchor, budget)"""


class Region:
    __slots__ = ('cells', 'default', 'size', 'ver', 'summary')

    def __init__(self, default='sym', size=None):
        self.cells = {}
        self.default = default      # 'zero' | 'undef' | 'sym' | ('init', global)
        self.size = size
        self.ver = 0
        self.summary = False

    def copy(self):
        r = Region(self.default, self.size)
        r.cells = dict(self.cells)
        r.ver = self.ver
        r.summary = self.summary
        return r


class State:
    __slots__ = ('frames', 'mem', 'facts', 'mon', 'trail', 'born', 'owned')

    def __init__(self):
        self.frames = [{}]
        self.mem = {}
        self.facts = {}
        self.mon = {}
        self.trail = None
        self.born = set()
        self.owned = set()

    def copy(self):
        s = State()
        s.frames = self.frames[:-1] + [dict(self.frames[-1])]
        s.mem = dict(self.mem)
        s.facts = dict(self.facts)
        s.mon = dict(self.mon)
        s.trail = self.trail
        s.born = set(self.born)
        self.owned = set()
        return s

    def wr(self, rid):
        """writable region"""
        r = self.mem[rid]
        if rid not in self.owned:
            r = r.copy()
            self.mem[rid] = r
            self.owned.add(rid)
        return r


# --------------------------------------------------------------- ranges -----
def rng(st, v, d=0):
    k = v[0]
    if k == 'c':
        return ((v[1], v[1]),)
    if k == 'F':
        return ((1, (1 << 64) - 1),)
    if k == 'p':
        b = v[1]
        if b[0] in 'GA':
            return ((1, (1 << 64) - 1),)
        if b[0] == 'D':
            # pointer derived from an object: non-null when the base is
            f = st.facts.get(v)
            r = rng(st, b[1], d + 1) if v[2] == 0 else ((1, (1 << 64) - 1),)
            return inter(r, f) if f else r
        return full(64)
    f = st.facts.get(v)
    if k == 's':
        return f if f is not None else full(v[2])
    w = width(v)
    if d > 12:
        return f if f is not None else full(w)
    r = full(w)
    if k == 'b':
        lo = hi = 0
        pos = 0
        for p, n in v[2]:
            pr = hull(rng(st, p, d + 1) or full(n))
            lo |= pr[0] << pos
            hi |= pr[1] << pos
            pos += n
        r = ((lo, hi),)
    else:
        op = v[1]
        m = (1 << w) - 1
        if op == 'zext':
            r = rng(st, v[3], d + 1)
        elif op == 'sext':
            iw = width(v[3])
            h = 1 << (iw - 1)
            out = []
            for lo, hi in rng(st, v[3], d + 1):
                if hi < h:
                    out.append((lo, hi))
                elif lo >= h:
                    e = (1 << w) - (1 << iw)
                    out.append((lo + e, hi + e))
                else:
                    e = (1 << w) - (1 << iw)
                    out += [(lo, h - 1), (h + e, hi + e)]
            r = iset(out)
        elif op == 'bits':
            x = rng(st, v[3], d + 1)
            if x:
                lo, hi = hull(x)
                s = v[4]
                if (hi >> s) < (1 << w):
                    r = ((lo >> s, hi >> s),) if len(x) > 1 or s else x
                elif s == 0 and len(x) <= 8:
                    out = []
                    for lo, hi in x:
                        if (lo >> w) == (hi >> w):
                            out.append((lo & m, hi & m))
                        else:
                            out = None
                            break
                    if out:
                        r = iset(out)
            iw = width(v[3])
            if w + v[4] < iw and v[3][0] == 's':
                # what is known of the field up to the top
                g = st.facts.get(('e', 'bits', iw - v[4], v[3], v[4])) or \
                    st.facts.get(('b', iw, ((('e', 'bits', iw - v[4], v[3], v[4]), iw - v[4]), (('c', 0, v[4]), v[4]))))
                if g and hull(g)[1] <= m:
                    r = inter(r, g) or r
        elif op == 'add':
            a, b = rng(st, v[3], d + 1), rng(st, v[4], d + 1)
            if v[4][0] == 'c':
                r = shift_map(a, v[4][1], w)
            elif a and b:
                ah, bh = hull(a), hull(b)
                if ah[1] + bh[1] <= m:
                    r = ((ah[0] + bh[0], ah[1] + bh[1]),)
        elif op == 'sub':
            a, b = rng(st, v[3], d + 1), rng(st, v[4], d + 1)
            if a and b:
                ah, bh = hull(a), hull(b)
                if ah[0] == ah[1] and len(b) > 1 and bh[1] <= ah[0]:
                    r = iset([(ah[0] - hi, ah[0] - lo) for lo, hi in b])
                elif ah[0] >= bh[1]:
                    r = ((ah[0] - bh[1], ah[1] - bh[0]),)
                elif v[3][0] == 'c' and len(b) <= 8:
                    out = []
                    for lo, hi in b:
                        x, y = (ah[0] - hi) & m, (ah[0] - lo) & m
                        out += [(x, y)] if x <= y else [(x, m), (0, y)]
                    r = iset(out)
                elif known(st, 'uge', v[3], v[4]):
                    r = ((0, ah[1] - bh[0]),) if ah[1] >= bh[0] else full(w)
        elif op == 'mul':
            a, b = rng(st, v[3], d + 1), rng(st, v[4], d + 1)
            if a and b:
                ah, bh = hull(a), hull(b)
                if ah[1] * bh[1] <= m:
                    r = ((ah[0] * bh[0], ah[1] * bh[1]),)
        elif op == 'shl':
            a = rng(st, v[3], d + 1)
            if v[4][0] == 'c' and a:
                ah = hull(a)
                if (ah[1] << v[4][1]) <= m:
                    r = ((ah[0] << v[4][1], ah[1] << v[4][1]),)
            elif a:
                b = rng(st, v[4], d + 1)
                ah, bh = hull(a), hull(b)
                if bh[1] < 4096 and (ah[1] << bh[1]) <= m:
                    r = ((ah[0] << bh[0], ah[1] << bh[1]),)
        elif op == 'and':
            a, b = rng(st, v[3], d + 1), rng(st, v[4], d + 1)
            if a and b:
                r = ((0, min(hull(a)[1], hull(b)[1])),)
        elif op == 'or':
            a, b = rng(st, v[3], d + 1), rng(st, v[4], d + 1)
            if a and b:
                ah, bh = hull(a), hull(b)
                r = ((max(ah[0], bh[0]), dom.bitlen_mask(ah[1] | bh[1])),)
        elif op == 'xor':
            a, b = rng(st, v[3], d + 1), rng(st, v[4], d + 1)
            if a and b:
                z = dom.bitlen_mask(hull(a)[1] | hull(b)[1])
                r = ((0 if inter(a, b) or not z else 1, z),)
        elif op == 'udiv':
            a, b = rng(st, v[3], d + 1), rng(st, v[4], d + 1)
            if a and b:
                ah, bh = hull(a), hull(b)
                r = ((ah[0] // max(bh[1], 1), ah[1] // max(bh[0], 1)),)
        elif op == 'urem':
            a, b = rng(st, v[3], d + 1), rng(st, v[4], d + 1)
            if a and b:
                r = ((0, min(hull(a)[1], max(hull(b)[1] - 1, 0))),)
        elif op == 'lshr':
            a, b = rng(st, v[3], d + 1), rng(st, v[4], d + 1)
            if a and b:
                r = ((hull(a)[0] >> min(hull(b)[1], 200), hull(a)[1] >> min(hull(b)[0], 200)),)
        elif op == 'select':
            c = rng(st, v[3], d + 1)
            if c == ((1, 1),):
                r = rng(st, v[4], d + 1)
            elif c == ((0, 0),):
                r = rng(st, v[5], d + 1)
            else:
                r = union(rng(st, v[4], d + 1), rng(st, v[5], d + 1))
        elif op == 'icmp':
            t = truth(st, v[3], v[4], v[5], d + 1)
            if t is not None:
                r = ((int(t), int(t)),)
        elif op == 'not':
            a = rng(st, v[3], d + 1)
            if len(a) == 1 and a[0][0] == a[0][1]:
                r = ((1 - a[0][0], 1 - a[0][0]),)
        elif op in ('umin', 'umax'):
            a, b = hull(rng(st, v[3], d + 1)), hull(rng(st, v[4], d + 1))
            f2 = min if op == 'umin' else max
            r = ((f2(a[0], b[0]), f2(a[1], b[1])),)
    if f is not None:
        r2 = inter(r, f)
        return r2 if r2 else f
    return r if r else full(w)


IMPL = {'ult': ('ult',), 'ule': ('ule', 'ult', 'eq'), 'ugt': ('ugt',), 'uge': ('uge', 'ugt', 'eq'),
        'slt': ('slt',), 'sle': ('sle', 'slt', 'eq'), 'sgt': ('sgt',), 'sge': ('sge', 'sgt', 'eq'),
        'eq': ('eq',), 'ne': ('ne', 'ult', 'ugt', 'slt', 'sgt')}


STRICT = ('ult', 'ule', 'ugt', 'uge')


def _fact(st, p, a, b):
    """recorded truth that a p b"""
    f = st.facts
    t = f.get(('e', 'icmp', 1, p, a, b))
    if t == ((1, 1),):
        return True
    t = f.get(('e', 'icmp', 1, NEGP[p], a, b))
    if t == ((0, 0),):
        return True
    t = f.get(('e', 'icmp', 1, SWAP[p], b, a))
    if t == ((1, 1),):
        return True
    t = f.get(('e', 'icmp', 1, NEGP[SWAP[p]], b, a))
    return t == ((0, 0),)


def known(st, p, a, b):
    for q in IMPL[p]:
        if _fact(st, q, a, b):
            return True
    return False


def truth(st, p, a, b, d=0):
    w = width(a)
    if b[0] == 'c':
        r = rng(st, a, d)
        s = pred_set(p, b[1], w)
        i = inter(r, s)
        if not i:
            return False
        if i == r:
            return True
        return None
    if known(st, p, a, b):
        return True
    if known(st, NEGP[p], a, b):
        return False
    if a[0] == 's' or b[0] == 's' or a[0] == 'e' or b[0] == 'e':
        ra, rb = rng(st, a, d + 1), rng(st, b, d + 1)
        if ra and rb:
            (al, ah), (bl, bh) = hull(ra), hull(rb)
            if p == 'ult':
                if ah < bl:
                    return True
                if al >= bh:
                    return False
            elif p == 'ule':
                if ah <= bl:
                    return True
                if al > bh:
                    return False
            elif p == 'ugt':
                if al > bh:
                    return True
                if ah <= bl:
                    return False
            elif p == 'uge':
                if al >= bh:
                    return True
                if ah < bl:
                    return False
            elif p in ('eq', 'ne'):
                if not inter(ra, rb):
                    return p == 'ne'
    if p in STRICT and a[0] in 'se' and b[0] in 'se':
        # x <= y and a distance that is not zero: x < y
        for x, y, r in ((a, b, p in ('ult', 'ule')), (b, a, p in ('ugt', 'uge'))):
            f = st.facts.get(dom.lsub(y, x))
            if f is not None and f[0][0] > 0 and (known(st, 'ule', x, y) or
                                                  hull(rng(st, x, d + 1))[1] + f[-1][1] < 1 << w):
                return r
    if p in ('eq', 'ne') and a[0] in 'seb' and b[0] in 'seb':
        for x, y in ((a, b), (b, a)):
            df = dom.lsub(x, y)
            if df[0] == 'c':
                if not dom.tainted(a):
                    return (df[1] == 0) == (p == 'eq')
                return None
            f = st.facts.get(df)
            if f is not None and f[0][0] > 0:
                return p == 'ne'
            if f == ((0, 0),):
                return p == 'eq'
    return None


def negset(n, w):
    m1 = (1 << w) - 1
    ng = []
    for lo, hi in n:
        if lo == 0:
            ng.append((0, 0))
            if hi > 0:
                ng.append((m1 + 1 - hi, m1))
        else:
            ng.append((m1 + 1 - hi, m1 + 1 - lo))
    return iset(ng)


def ule(st, a, b, d=0):
    """a <= b (unsigned) provable, also for a = p + t with p <= b and t <= b - p"""
    if a == b or hull(rng(st, a))[1] <= hull(rng(st, b))[0]:
        return True
    if a[0] == 'c' or b[0] == 'c':
        return False
    if known(st, 'ule', a, b):
        return True
    if d > 2:
        return False
    w = width(a)
    acc = dom.lin(a, w)
    for p, k in acc.items():
        if p is None or k != 1 or p == a:
            continue
        if not ule(st, p, b, d + 1):
            continue
        t, rest = dom.lsub(a, p), dom.lsub(b, p)
        if ule(st, t, rest, d + 1):
            return True
    return False


def narrow(st, v, s, d=0):
    """v in s; False when infeasible"""
    k = v[0]
    if k == 'c':
        return any(lo <= v[1] <= hi for lo, hi in s)
    r = rng(st, v)
    n = inter(r, s)
    if not n:
        return False
    if n == r and k == 's' and v in st.facts:
        return True
    if k == 'p' or k == 'F':
        if k == 'p' and v[1][0] == 'D' and v[2] == 0:
            return narrow(st, v[1][1], s, d + 1)
        return True
    if k != 'b':
        st.facts[v] = n
    if d > 8:
        return True
    if k == 'e':
        op = v[1]
        w = v[2]
        if op == 'zext':
            return narrow(st, v[3], n, d + 1)
        if op == 'sext':
            iw = width(v[3])
            e = (1 << w) - (1 << iw)
            h = 1 << (iw - 1)
            out = []
            for lo, hi in n:
                if lo < h:
                    out.append((lo, min(hi, h - 1)))
                if hi >= h + e:
                    out.append((max(lo, h + e) - e, hi - e))
            return narrow(st, v[3], iset(out), d + 1)
        if op == 'add' and v[4][0] == 'c':
            return narrow(st, v[3], shift_map(n, -v[4][1], w), d + 1)
        if op == 'sub' and v[3][0] == 'c':
            return narrow(st, v[4], shift_map(negset(n, w), v[3][1], w), d + 1)
        if op == 'icmp':
            if n == ((1, 1),):
                return refine_cmp(st, v[3], v[4], v[5], d + 1)
            if n == ((0, 0),):
                return refine_cmp(st, NEGP[v[3]], v[4], v[5], d + 1)
        if op == 'not':
            return narrow(st, v[3], tuple(sorted((1 - hi, 1 - lo) for lo, hi in n)), d + 1)
        if op == 'and' and w == 1 and n == ((1, 1),):
            return narrow(st, v[3], n, d + 1) and narrow(st, v[4], n, d + 1)
        if op == 'or' and w == 1 and n == ((0, 0),):
            return narrow(st, v[3], n, d + 1) and narrow(st, v[4], n, d + 1)
        if op == 'and' and w == 1 and n == ((0, 0),):
            for x, y in ((v[3], v[4]), (v[4], v[3])):
                if rng(st, x) == ((1, 1),):
                    return narrow(st, y, n, d + 1)
        if op == 'or' and w == 1 and n == ((1, 1),):
            for x, y in ((v[3], v[4]), (v[4], v[3])):
                if rng(st, x) == ((0, 0),):
                    return narrow(st, y, n, d + 1)
        if op == 'or' and w > 1 and n == ((0, 0),):
            return narrow(st, v[3], n, d) and narrow(st, v[4], n, d)
        if op == 'xor' and v[4][0] == 'c' and len(n) == 1 and n[0][0] == n[0][1]:
            x = n[0][0] ^ v[4][1]
            return narrow(st, v[3], ((x, x),), d + 1)
        if op == 'bits' and n == ((0, 0),) and v[3][0] == 'e' and v[3][1] == 'or':
            return narrow(st, bits(v[3][3], v[4], w), n, d) and narrow(st, bits(v[3][4], v[4], w), n, d)
        if op == 'bits' and v[3][0] == 'e' and v[3][1] == 'xor' and v[3][4][0] == 'c' and len(n) == 1 and n[0][0] == n[0][1]:
            x = n[0][0] ^ ((v[3][4][1] >> v[4]) & ((1 << w) - 1))
            return narrow(st, bits(v[3][3], v[4], w), ((x, x),), d + 1)
        if op == 'select':
            ia = inter(rng(st, v[4]), n)
            ib = inter(rng(st, v[5]), n)
            if not ia and not ib:
                return False
            if not ia:
                return narrow(st, v[3], ((0, 0),), d + 1) and narrow(st, v[5], n, d + 1)
            if not ib:
                return narrow(st, v[3], ((1, 1),), d + 1) and narrow(st, v[4], n, d + 1)
        if op == 'bits' and v[4] == 0 and False:
            pass
        if op == 'shl' and v[4][0] == 'c' and n == ((0, 0),):
            x = bits(v[3], 0, w - v[4][1])
            return narrow(st, x, n, d + 1)
    if k == 'b':
        if len(n) == 1 and n[0][0] == n[0][1]:
            c = n[0][0]
            pos = 0
            for p, pn in v[2]:
                x = (c >> pos) & ((1 << pn) - 1)
                if not narrow(st, p, ((x, x),), d + 1):
                    return False
                pos += pn
        elif n[0][0] > 0:
            nc = [p for p in v[2] if p[0][0] != 'c']
            if len(nc) == 1 and all(p[0][1] == 0 for p in v[2] if p[0][0] == 'c'):
                return narrow(st, nc[0][0], ((1, (1 << nc[0][1]) - 1),), d + 1)
            st.facts[v] = n
        else:
            st.facts[v] = n
    return True


def refine_cmp(st, p, a, b, d=0):
    w = width(a)
    if a[0] == 'c' and b[0] != 'c':
        a, b, p = b, a, SWAP[p]
    if b[0] == 'c':
        return narrow(st, a, pred_set(p, b[1], w), d)
    if truth(st, p, a, b) is False:
        return False
    st.facts[('e', 'icmp', 1, p, a, b)] = ((1, 1),)
    ra, rb = rng(st, a), rng(st, b)
    (al, ah), (bl, bh) = hull(ra), hull(rb)
    m = (1 << w) - 1
    if p in STRICT and a[0] in 'se' and b[0] in 'se':
        # x <= y and a distance that is not zero: x < y
        for x, y, r in ((a, b, p in ('ult', 'ule')), (b, a, p in ('ugt', 'uge'))):
            f = st.facts.get(dom.lsub(y, x))
            if f is not None and f[0][0] > 0 and (known(st, 'ule', x, y) or
                                                  hull(rng(st, x, d + 1))[1] + f[-1][1] < 1 << w):
                return r
    if p in ('eq', 'ne') and a[0] in 'seb' and b[0] in 'seb':
        for x, y in ((a, b), (b, a)):
            df = dom.lsub(x, y)
            if df[0] == 'e':
                n = inter(rng(st, df), ((0, 0),) if p == 'eq' else ((1, m),))
                if not n:
                    return False
                st.facts[df] = n
    if p == 'eq':
        return narrow(st, a, rb, d + 1) and narrow(st, b, ra, d + 1)
    if p == 'ult':
        if not (bh > 0 and narrow(st, a, ((0, bh - 1),), d + 1) and al < m and narrow(st, b, ((al + 1, m),), d + 1)):
            return False
        if a[0] not in 'pF' and b[0] not in 'pF':
            df = dom.lsub(b, a)
            if df[0] == 'e':
                x = inter(rng(st, df), ((1, hull(rng(st, b))[1] - hull(rng(st, a))[0]),))
                if x:
                    st.facts[df] = x
        return True
    if p == 'ule':
        if not (narrow(st, a, ((0, bh),), d + 1) and narrow(st, b, ((al, m),), d + 1)):
            return False
        if a[0] not in 'pF' and b[0] not in 'pF':
            df = dom.lsub(b, a)
            if df[0] == 'e':
                x = inter(rng(st, df), ((0, hull(rng(st, b))[1] - hull(rng(st, a))[0]),))
                x = inter(x, negset(rng(st, dom.lsub(a, b)), w))
                if x:
                    st.facts[df] = x
                    if x == ((0, 0),):
                        st.facts[dom.lsub(a, b)] = x
        return True
    if p == 'ugt':
        return refine_cmp(st, 'ult', b, a, d + 1)
    if p == 'uge':
        return refine_cmp(st, 'ule', b, a, d + 1)
    if p == 'ne':
        if bl == bh:
            return narrow(st, a, compl(((bl, bl),), w), d + 1)
        if al == ah:
            return narrow(st, b, compl(((al, al),), w), d + 1)
    return True


def assume(st, cond, val):
    if cond[0] == 'c':
        return bool(cond[1]) == val
    return narrow(st, cond, ((1, 1),) if val else ((0, 0),))


# --------------------------------------------------------------- monitor ----
class Monitor:
    """property automaton run alongside the interpretation"""

    def on_call(self, E, st, name, args, I):
        pass

    def on_store(self, E, st, rid, off, size, val, I):
        pass

    def on_load(self, E, st, rid, off, size, val, I):
        pass

    def on_write(self, E, st, rid, off, n, I, src):
        """bulk write: n bytes (term) to rid+off; src = ('set',v)|('copy',rid,off)|('havoc',)"""
        pass

    def on_return(self, E, st, fn, ret, I):
        pass

    def join_private(self, k, a, b):
        """where paths meet whose private notes (_x) differ"""
        if k == '_keep':
            a, b = a or (), b or ()
            return a + tuple(x for x in b if x not in a)
        raise AnalysisError('paths meet with different notes %s' % k)

    def on_skip(self, E, st, fn, args, I):
        """call of fn is being summarised"""

    def on_asm(self, E, st, asm, args, I):
        pass

    def on_null(self, E, st, I):
        pass

    load_const = False      # load_value is asked for constant offsets as well

    def load_value(self, E, st, rid, off, size, I):
        """value of a load at an unknown offset, None: unknown"""

    def tracked(self, E, st):
        return ()

    def rename(self, E, st, mp):
        pass

    def havoc_cell(self, E, st, rid):
        pass


class Engine:
    def __init__(self, mod, monitor=None, models=None, opts=None):
        self.mod = mod
        self.mon = monitor or Monitor()
        self.models = models or {}
        o = dict(maxkeys=96, budget=4000000, trailmax=60, noinline=(), skip=None, maxexits=48, trip=17, unroll=False)
        o.update(opts or {})
        self.o = o
        self.viol = {}
        self.steps = 0
        self.stack = []
        self.ctxs = {}
        self.sites_seen = set()
        self.funcs_seen = set()
        self.bitcells = {}
        self.warn = {}
        self.ptrphi = set()
        self._live = {}
        self._ind = {}
        self._tiny = {}
        self.regions_init = {}
        self.summ = None
        self.volatile = None
        self.ongep = getattr(self.mon, 'on_gep', None)
        self.inits = {}

    # ---- reporting -----------------------------------------------------
    def violation(self, rule, I, msg, st):
        f, l, fn = self.mod.loc(I.dbg) if I is not None else ('?', 0, '?')
        k = (rule, f, l, fn)
        if k not in self.viol:
            self.viol[k] = dict(rule=rule, file=f, line=l, function=fn, message=msg,
                                callstack=list(self.stack), path=self.path(st))

    def path(self, st):
        out, t = [], st.trail
        while t and len(out) < self.o['trailmax']:
            out.append(t[1])
            t = t[0]
        return out[::-1]

    def note(self, st, text):
        st.trail = (st.trail, text)

    def locs(self, I):
        f, l, fn = self.mod.loc(I.dbg)
        return '%s:%d' % (f.replace('/repo/', ''), l)

    # ---- symbols ---------------------------------------------------------
    def ctx(self):
        t = tuple(self.cstack)
        c = self.ctxs.get(t)
        if c is None:
            c = len(self.ctxs)
            self.ctxs[t] = c
        return c

    def fresh(self, st, I, w, tag=''):
        s = mk(('v', self.curctx, I.fn.name, I.uid, tag), w)
        if s in st.born:
            self.rename(st, {s})
            self.dropfacts(st, {s})
        else:
            st.born.add(s)
        return s

    def dropfacts(self, st, S):
        for k in [k for k in st.facts if (k in S if k[0] == 's' else not S.isdisjoint(symset(k)))]:
            del st.facts[k]

    def rename(self, st, S):
        """earlier generation of the symbols S become the summary symbols old(s)"""
        alive = self.alive(st)
        dead = {s for s in S if s not in alive}
        if dead:
            # nothing refers to that generation any more: what is known about it must not be taken for the next one
            st.facts = {t: r for t, r in st.facts.items() if not (symset(t) & dead)}
        S = {s for s in S if s in alive}
        if not S:
            return
        mp = {}
        for s in S:
            n = nm(s)
            if n[0] == 'older':
                continue
            if n[0] == 'old':
                mp[s] = mk(('older', n[1]), s[2])
                continue
            o = mk(('old', s[1]), s[2])
            mp[s] = o
            if o in alive:
                mp[o] = mk(('older', s[1]), s[2])
        self.retitle(st, mp)

    def retitle(self, st, mp):
        """the symbols of mp get other names"""
        S = set(mp)
        if not S:
            return

        def has(v):
            k = v[0]
            if k == 'c' or k == 'F':
                return False
            if k == 's':
                return v in S
            return not S.isdisjoint(symset(v))
        for i, fr in enumerate(st.frames):
            new = None
            for k, v in fr.items():
                if has(v):
                    if new is None:
                        new = dict(fr)
                    new[k] = subst(v, mp)
            if new is not None:
                st.frames[i] = new
        for rid in list(st.mem):
            nr = self.ren_rid(rid, S, mp)
            reg = st.mem[rid]
            ch = [(k, sz, v) for k, (sz, v) in reg.cells.items() if has(v)]
            if ch:
                reg = st.wr(rid)
                for k, sz, v in ch:
                    reg.cells[k] = (sz, subst(v, mp))
            if nr != rid:
                del st.mem[rid]
                st.owned.discard(rid)
                r2 = reg.copy()
                if dom.tainted(nr[1]):
                    r2.cells = {}
                    r2.default = 'sym'
                    r2.ver = ('sum', nr)
                    r2.summary = True
                st.mem[nr] = r2
                st.owned.add(nr)
        S = S | {o for o in mp.values() if nm(o)[0] == 'older'}
        mv = [(k, r) for k, r in st.facts.items() if has(k)]
        for k, r in mv:
            del st.facts[k]
        for k, r in mv:
            # what was known about the value goes along with it
            k2 = subst(k, mp)
            if k2[0] != 'c' and not dom.tainted(k2):
                st.facts[k2] = r
        self.mon.rename(self, st, mp)

    def alive(self, st):
        """symbols that occur in registers, memory or monitor state"""
        out = set()
        up = out.update
        for fr in st.frames:
            for v in fr.values():
                k = v[0]
                if k == 's':
                    out.add(v)
                elif k != 'c' and k != 'F':
                    up(symset(v))
        for rid, reg in st.mem.items():
            if rid[0] == 'D':
                up(symset(rid[1]))
            for s, v in reg.cells.values():
                k = v[0]
                if k == 's':
                    out.add(v)
                elif k != 'c' and k != 'F':
                    up(symset(v))
        for v in st.mon.get('_keep', ()):
            up(symset(v))
        return out

    def initsym(self, name, w):
        s = mk(name, w)
        self.inits.setdefault((name[1], name[2]), set()).add(s)
        return s

    def ren_rid(self, rid, S, mp):
        if rid[0] == 'D':
            t = rid[1]
            if not S.isdisjoint(symset(t)):
                return ('D', subst(t, mp))
        return rid

    # ---- memory ------------------------------------------------------------
    def region(self, st, rid):
        r = st.mem.get(rid)
        if r is None:
            if rid[0] == 'G':
                g = self.mod.globals.get(rid[1])
                r = Region('sym')
                if g is not None:
                    r.size = self.mod.size(g.ty)
                    if g.const and g.init is not None:
                        r.default = ('init',)
            else:
                r = Region('sym')
            st.mem[rid] = r
            st.owned.add(rid)
        return r

    def deref(self, st, p):
        k = p[0]
        if k == 'p':
            return p[1], p[2]
        if k == 's':
            return ('D', p), 0
        if k == 'F':
            return ('X', p[1]), 0
        if k == 'c':
            return None, None
        return ('D', p), 0

    def default_val(self, st, rid, reg, off, size, isptr=False):
        d = reg.default
        w = size * 8
        if d == 'zero':
            return C(0, w)
        if d == 'undef':
            return self.initsym(('undef', rid, reg.ver, off, size), w)
        if d == ('init',):
            v = self.ginit(rid[1], off, size)
            if v is not None:
                return v
        if (off, size) in self.bitcells.get(rid, ()) or self.isbit(rid, off, size):
            ps = []
            for bo, bn in self.bitlayout(rid, off, size):
                ps.append((self.initsym(('init', rid, reg.ver, off, bo), bn), bn))
            return cat(ps) if len(ps) > 1 else ps[0][0]
        return self.initsym(('init', rid, reg.ver, off, size), w)

    # bitfield storage: callback configured by the checks (rand_data layout)
    bitunits = ()

    def isbit(self, rid, off, size):
        if rid not in self.bitrids:
            return False
        return any(off * 8 < b + n and b < (off + size) * 8 for b, n in self.bitunits)

    bitrids = frozenset()

    def bitlayout(self, rid, off, size):
        out = []
        lo, hi = off * 8, (off + size) * 8
        pos = lo
        for b, n in sorted(self.bitunits):
            if b >= lo and b + n <= hi:
                if b > pos:
                    out.append((pos, b - pos))
                out.append((b, n))
                pos = b + n
        if pos < hi:
            out.append((pos, hi - pos))
        return out

    def ginit(self, name, off, size):
        g = self.mod.globals[name]

        def walk(t, v, o):
            t = self.mod.resolve(t)
            if v is None or v[0] == 'u':
                return None
            if v[0] == 'zero':
                return C(0, size * 8)
            if v[0] == 'str':
                b = v[1][o:o + size]
                return C(int.from_bytes(b, 'little'), size * 8) if len(b) == size else None
            if v[0] == 'agg':
                if t.k == 'struct':
                    for i in range(len(t.el) - 1, -1, -1):
                        fo = self.mod.field_off(t, i)
                        if fo <= o:
                            return walk(t.el[i], v[1][i][1], o - fo)
                else:
                    es = self.mod.size(t.el)
                    i = o // es
                    if i < len(v[1]):
                        return walk(t.el, v[1][i][1], o - i * es)
                return None
            if o == 0 and self.mod.size(t) == size:
                if v[0] == 'c':
                    return C(v[1], size * 8)
                if v[0] in ('g', 'ce'):
                    return self.const(v, t)
            return None
        return walk(g.ty, g.init, off)

    def read(self, st, rid, off, size):
        reg = self.region(st, rid)
        c = reg.cells.get(off)
        if c is not None and c[0] == size:
            return c[1]
        # overlapping cells
        ov = [(o, s, v) for o, (s, v) in reg.cells.items() if o < off + size and off < o + s]
        if not ov:
            v = self.default_val(st, rid, reg, off, size)
            if not reg.summary:
                st.wr(rid).cells[off] = (size, v)
            return v
        ps, pos = [], off
        for o, s, v in sorted(ov, key=lambda x: x[0]):
            if o > pos:
                ps.append((self.default_val(st, rid, reg, pos, o - pos), (o - pos) * 8))
                pos = o
            a, b = max(o, off), min(o + s, off + size)
            ps.append((bits(v, (a - o) * 8, (b - a) * 8), (b - a) * 8))
            pos = b
        if pos < off + size:
            ps.append((self.default_val(st, rid, reg, pos, off + size - pos), (off + size - pos) * 8))
        return cat(ps)

    def punch(self, st, reg, off, n):
        """remove [off, off+n) from cells, keeping the remaining parts"""
        for o in list(reg.cells):
            s, v = reg.cells[o]
            if o < off + n and off < o + s:
                del reg.cells[o]
                if o < off:
                    reg.cells[o] = (off - o, bits(v, 0, (off - o) * 8))
                if o + s > off + n:
                    k = off + n - o
                    reg.cells[off + n] = (o + s - off - n, bits(v, k * 8, (s - k) * 8))

    def write(self, st, rid, off, size, val):
        self.region(st, rid)
        reg = st.wr(rid)
        if reg.summary:
            reg.cells = {}
            reg.ver += 1
            return
        c = reg.cells.get(off)
        if c is None or c[0] != size:
            self.punch(st, reg, off, size)
        if self.isbit(rid, off, size):
            ps = [(bits(val, b - off * 8, n), n) for b, n in self.bitlayout(rid, off, size)]
            ps2 = []
            for (p, n), (b, _) in zip(ps, self.bitlayout(rid, off, size)):
                ps2.append((p, n))
            val = ('b', size * 8, tuple(ps2)) if len(ps2) > 1 else ps2[0][0]
        reg.cells[off] = (size, val)

    def havoc(self, st, rid, off=None, n=None, I=None, tag=''):
        """forget rid[off, off+n) (whole region when off is None)"""
        self.region(st, rid)
        reg = st.wr(rid)
        self.mon.havoc_cell(self, st, rid)
        if off is None or n is None or not isinstance(off, int) or not isinstance(n, int):
            reg.cells = {}
            reg.ver = (self.curctx, I.fn.name if I else '', I.uid if I else 0, tag) if I is not None else (reg.ver, 'h')
            if reg.default in ('zero', ('init',), 'undef'):
                reg.default = 'sym'
            self.refresh_init(st, rid, reg)
            return
        if n == 0:
            return
        self.punch(st, reg, off, n)
        if n <= 16 and n in (1, 2, 4, 8):
            s = self.fresh(st, I, n * 8, ('h', tag, rid, off)) if I is not None else dom.anon(n * 8)
            self.write(st, rid, off, n, s)
        else:
            # keep cells elsewhere, poison this range chunkwise
            if n <= 4096:
                o = off
                while o < off + n:
                    k = 8 if (o % 8 == 0 and o + 8 <= off + n) else 4 if (o % 4 == 0 and o + 4 <= off + n) else 1
                    s = self.fresh(st, I, k * 8, ('h', tag, rid, o)) if I is not None else dom.anon(k * 8)
                    self.write(st, rid, o, k, s)
                    o += k
            else:
                reg.cells = {}
                reg.ver = (self.curctx, I.fn.name, I.uid, tag) if I is not None else (reg.ver, 'h')
                if reg.default in ('zero', ('init',), 'undef'):
                    reg.default = 'sym'
                self.refresh_init(st, rid, reg)

    def refresh_init(self, st, rid, reg):
        """symbols of this version that are still in use belong to an earlier visit"""
        S = self.inits.get((rid, reg.ver))
        if S:
            self.rename(st, S)
            self.dropfacts(st, S)

    # ---- operands ----------------------------------------------------------
    def const(self, v, ty):
        k = v[0]
        if k == 'c':
            w = ty.n if ty is not None and ty.k == 'int' else 64
            return C(v[1], w)
        if k == 'g':
            n = self.mod.aliases.get(v[1], v[1])
            if n in self.mod.funcs or (n in self.mod.decls and n not in self.mod.globals):
                return ('F', n)
            return ('p', ('G', n), 0)
        if k == 'ce':
            if v[1] == 'gep':
                return self.gep(None, v[2], v[3])
            if v[1] in ('ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'):
                return self.const(v[3], v[2])
            if v[1] == 'bin':
                return binop(v[2], self.const(v[4], v[3]), self.const(v[5], v[3]), v[3].n)
            if v[1] == 'trunc':
                return bits(self.const(v[3], v[2]), 0, v[4].n)
            if v[1] == 'zext':
                return zext(self.const(v[3], v[2]), v[4].n)
        if k == 'zero':
            r = self.mod.resolve(ty)
            if r.k == 'int':
                return C(0, r.n)
            return ('agg0',)
        if k == 'u':
            w = ty.n if ty is not None and ty.k == 'int' else 64
            return mk(('undefval',), w)
        return dom.anon(64)

    def val(self, st, v, ty):
        if v[0] == 'r':
            r = st.frames[-1].get(v[1])
            if r is None:
                raise AnalysisError('unbound register %s in %s' % (v[1], self.stack[-1:]))
            return r
        return self.const(v, ty)

    def gep(self, st, sty, ops):
        base = self.val(st, ops[0][1], ops[0][0]) if st is not None else self.const(ops[0][1], ops[0][0])
        off = 0
        sym = None
        t = sty
        for k, (it, iv) in enumerate(ops[1:]):
            x = self.val(st, iv, it) if st is not None else self.const(iv, it)
            if k == 0:
                es = self.mod.size(t)
            else:
                t = self.mod.resolve(t)
                if t.k == 'struct':
                    off += self.mod.field_off(t, x[1])
                    t = t.el[x[1]]
                    continue
                es = self.mod.size(t.el)
                t = t.el
            if x[0] == 'c':
                off += sgn(x[1], width(x)) * es
            else:
                xs = sext(x, 64)
                y = binop('mul', xs, C(es, 64), 64)
                sym = y if sym is None else binop('add', sym, y, 64)
        if base[0] == 'c':
            n = binop('add', base, C(off, 64), 64)
            return n if sym is None else binop('add', n, sym, 64)
        if off == 0 and sym is None:
            return base
        if base[0] == 'F':
            return base
        if base[0] != 'p':
            base = ('p', ('D', base), 0)
        r = base
        if sym is not None:
            r = padd(r, sym)
        if off:
            r = padd(r, C(off, 64))
        if r[0] == 'p' and r[2] == 0 and r[1][0] == 'D':
            return r[1][1]
        return r

    # ---- running -------------------------------------------------------------
    def liveness(self, fn):
        L = self._live.get(fn.name)
        if L is not None:
            return L
        use, defs = {}, {}
        phiuse = {}

        def regs_of(v, out):
            if isinstance(v, tuple):
                if len(v) == 2 and v[0] == 'r':
                    out.add(v[1])
                else:
                    for x in v:
                        regs_of(x, out)
            elif isinstance(v, list):
                for x in v:
                    regs_of(x, out)
        for b in fn.blocks.values():
            u, d = set(), set()
            for I in b.phis:
                d.add(I.res)
                for v, p in I.a:
                    if v[0] == 'r':
                        phiuse.setdefault(p, {}).setdefault(b.name, set()).add(v[1])
            for I in b.body:
                s = set()
                regs_of(I.a, s)
                u |= s - d
                if I.res:
                    d.add(I.res)
            use[b.name], defs[b.name] = u, d
        live = {b: set(use[b]) for b in fn.blocks}
        ch = True
        while ch:
            ch = False
            for nm in reversed(fn.rpo):
                b = fn.blocks[nm]
                out = set()
                for s in b.succ:
                    out |= live[s] - {I.res for I in fn.blocks[s].phis}
                    out |= phiuse.get(nm, {}).get(s, set())
                # phis of this block are live-in "after phi"
                n = use[nm] | (out - defs[nm])
                if n != live[nm]:
                    live[nm] = n
                    ch = True
        # after phi evaluation: live set includes own phis that are used
        res = {}
        for nm, b in fn.blocks.items():
            out = set()
            for s in b.succ:
                out |= live[s] - {I.res for I in fn.blocks[s].phis}
                out |= phiuse.get(nm, {}).get(s, set())
            body = set()
            d = set()
            for I in b.body:
                s = set()
                regs_of(I.a, s)
                body |= s - d
                if I.res:
                    d.add(I.res)
            res[nm] = body | (out - d)
        self._live[fn.name] = res
        return res

    def induction(self, fn):
        """header phis updated arithmetically from themselves"""
        r = self._ind.get(fn.name)
        if r is not None:
            return r
        r = set()
        defs = {I.res: I for b in fn.blocks.values() for I in b.ins if I.res}
        for h in fn.loops:
            for I in fn.blocks[h].phis:
                # transitive arithmetic dependence on itself
                seen, st = set(), [v[1] for v, p in I.a if v[0] == 'r']
                hit = False
                while st:
                    x = st.pop()
                    if x in seen:
                        continue
                    seen.add(x)
                    D = defs.get(x)
                    if D is None:
                        continue
                    if D.op in dom.COMM or D.op in ('sub', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'zext', 'sext', 'trunc',
                                                    'getelementptr', 'select', 'phi'):
                        ops = []

                        def rr(v):
                            if isinstance(v, tuple):
                                if len(v) == 2 and v[0] == 'r':
                                    ops.append(v[1])
                                else:
                                    for y in v:
                                        rr(y)
                            elif isinstance(v, list):
                                for y in v:
                                    rr(y)
                        rr(D.a)
                        if D.op != 'phi' and D.op != 'select' and I.res in ops:
                            hit = True
                        st += ops
                if hit:
                    r.add(I.res)
        # short counted loops (constant trip count) are followed iteration by iteration
        for h in fn.loops:
            if self.counted(fn, h, defs):
                r -= {I.res for I in fn.blocks[h].phis}
        self._ind[fn.name] = r
        return r

    def counted(self, fn, h, defs):
        body = fn.loops[h]
        n = sum(len(fn.blocks[b].ins) for b in body)
        if any(I.op == 'call' and I.a[0] is not None and I.a[0][0] == 'g' and I.a[0][1] in self.mod.funcs
               and self.mod.funcs[I.a[0][1]].loops for b in body for I in fn.blocks[b].ins):
            return False
        if any(x != h and x in body for x in fn.loops):
            return False
        for I in fn.blocks[h].phis:
            init = [v for v, p in I.a if p not in body]
            back = [v for v, p in I.a if p in body]
            if not (len(init) == 1 and init[0][0] == 'c' and len(set(back)) == 1 and back[0][0] == 'r'):
                continue
            D = defs.get(back[0][1])
            if D is None or D.op not in ('add', 'sub') or D.a[0] != ('r', I.res) or D.a[1][0] != 'c':
                continue
            w = I.ty.n
            step = sgn(D.a[1][1], w) * (1 if D.op == 'add' else -1)
            # values compared against a constant bound, possibly after widening casts
            names = {I.res, back[0][1]}
            for b in body:
                for J in fn.blocks[b].ins:
                    if J.op in ('zext', 'sext') and J.a[0][0] == 'r' and J.a[0][1] in names:
                        names.add(J.res)
            for b in body:
                for J in fn.blocks[b].ins:
                    if J.op == 'icmp' and J.a[2][0] == 'r' and J.a[2][1] in names and J.a[3][0] == 'c' and step:
                        trip = abs(sgn(J.a[3][1], J.a[1].n) - sgn(init[0][1], w)) // abs(step) + 1
                        if trip <= self.o['trip'] and trip * n <= 900 + 60 * (self.o['trip'] - 17):
                            return True
        return False

    def tiny(self, fn, h):
        """call-free loops of a few instructions: the first iterations on constants are kept apart"""
        k = (fn.name, h)
        r = self._tiny.get(k)
        if r is None:
            ins = [I for b in fn.loops[h] for I in fn.blocks[b].ins]
            r = self._tiny[k] = len(ins) <= 20 and not any(I.op in ('call', 'callbr', 'store') for I in ins)
        return r

    def key(self, st, fn, bname, coarse, v_const=True):
        m = tuple(sorted((k, v) for k, v in st.mon.items() if not k.startswith('_')))
        t = self.mon.tracked(self, st)
        if coarse:
            return (m, t)
        sig = []
        ind = self.induction(fn) if bname in fn.loops else ()
        if ind and v_const and (self.o['unroll'] or self.tiny(fn, bname)):
            ind = {r for r in ind if st.frames[-1].get(r, ('x',))[0] != 'c'}
        for r, v in sorted(st.frames[-1].items()):
            if r in ind:
                continue
            k = v[0]
            if k == 'c' or k == 'F':
                sig.append((r, v))
            elif k == 'p':
                sig.append((r, v[1]))
            elif k == 's' and v[2] == 64:
                if nm(v)[0] == 'v' or v in st.facts:
                    x = rng(st, v)
                    z = 0 if x == ((0, 0),) else 1 if x[0][0] > 0 else 2
                    if z != 2:
                        sig.append((r, 'n', z))
            elif v in st.facts:
                x = st.facts[v]
                if len(x) == 1 and x[0][0] == x[0][1]:
                    sig.append((r, 'k', x[0][0]))
        # scalar locals that stay in memory
        for rid, reg in st.mem.items():
            if rid[0] == 'A' and reg.size is not None and isinstance(reg.size, int) and reg.size <= 8:
                c = reg.cells.get(0)
                if c is not None and c[1][0] in 'cFp':
                    sig.append((rid, c[1] if c[1][0] != 'p' else c[1][1]))
        return (m, t, tuple(sorted(sig, key=repr)))

    def join(self, A, B, where, widen):
        """least common generalisation; returns (state, changed-relative-to-A)"""
        A0 = A
        A, B = A.copy(), B.copy()
        nfr = len(A.frames)

        def locs():
            for i in range(nfr):
                fa, fb = A.frames[i], B.frames[i]
                for r in fa:
                    if r in fb and fa[r] != fb[r]:
                        yield ('r', i, r), fa[r], fb[r]
        # memory one side has not touched yet is there with its initial contents
        for X, Y in ((A, B), (B, A)):
            for rid in X.mem:
                if rid not in Y.mem and (rid[0] == 'G' or rid[0] == 'D' and all(
                        t not in X.born or t in Y.born for t in symset(rid[1]))):
                    self.region(Y, rid)
        # materialise cells so that both sides have the same layout
        for rid in list(A.mem):
            if rid not in B.mem:
                continue
            ra, rb = A.mem[rid], B.mem[rid]
            if ra is rb:
                continue
            if (ra.cells == rb.cells and ra.default == rb.default and ra.ver == rb.ver):
                continue
            if ra.summary or rb.summary:
                for S in (A, B):
                    w = S.wr(rid)
                    w.summary = True
                    w.cells = {}
                    w.default = 'sym'
                    w.ver = ('sum', where)
                continue
            offs = {}
            for o, (s, v) in list(ra.cells.items()) + list(rb.cells.items()):
                offs.setdefault(o, set()).add(s)
            for o in sorted(offs):
                s = min(offs[o])
                # trim by next offset
                nxt = [x for x in offs if x > o and x < o + s]
                if nxt:
                    s = min(nxt) - o
                for S in (A, B):
                    reg = S.mem[rid]
                    c = reg.cells.get(o)
                    if c is None or c[0] != s:
                        v = self.read(S, rid, o, s)
                        w = S.wr(rid)
                        old = w.cells.get(o)
                        rest = None
                        if old is not None and old[0] > s:
                            rest = (o + s, old[0] - s, bits(old[1], s * 8, (old[0] - s) * 8))
                        else:
                            # a preceding cell may cover this one
                            self.punch(S, w, o, s)
                        w.cells[o] = (s, v)
                        if rest and rest[0] not in w.cells:
                            w.cells[rest[0]] = (rest[1], rest[2])
            if ra.default != rb.default or ra.ver != rb.ver:
                # outside the common cells both are unknown
                for S in (A, B):
                    w = S.wr(rid)
                    if not (ra.default == 'zero' and rb.default == 'zero'):
                        w.default = 'sym'
                        w.ver = ('j', where) if ra.ver != ('j', where) else ra.ver
                        if ra.ver != w.ver and rb.ver != w.ver:
                            pass
        diffs = list(locs())
        for rid in A.mem:
            if rid in B.mem:
                ra, rb = A.mem[rid], B.mem[rid]
                if ra is rb:
                    continue
                for o, (s, v) in ra.cells.items():
                    c = rb.cells.get(o)
                    if c is not None and c[0] == s and c[1] != v:
                        diffs.append((('m', rid, o), v, c[1]))
        # symbols for the differing locations
        P = {}

        def mkp(loc, va, vb):
            va, vb = pnorm(va, vb)
            sp = split(va, vb)
            if sp:
                for i, (x, y, n) in sp:
                    if x != y:
                        mkp((loc, i), x, y)
                return
            if va[0] == 'p' and vb[0] == 'p' and va[1] == vb[1]:
                mkp((loc, 'off'), offterm(va[2]), offterm(vb[2]))
                return
            P[loc] = mk(('phi', where, loc), width(va))
        for loc, va, vb in diffs:
            if width(va) != width(vb):
                P[loc] = mk(('phi', where, loc), max(width(va), width(vb)))
            else:
                mkp(loc, va, vb)
        vals = {}

        def collect(loc, va, vb):
            if loc not in P:
                va, vb = pnorm(va, vb)
            if loc in P:
                vals[loc] = (va, vb)
                return
            sp = split(va, vb)
            if sp:
                for i, (x, y, n) in sp:
                    if x != y:
                        collect((loc, i), x, y)
            elif va[0] == 'p' and vb[0] == 'p':
                collect((loc, 'off'), offterm(va[2]), offterm(vb[2]))
        for loc, va, vb in diffs:
            collect(loc, va, vb)
        # generation change
        renA, renB = set(), set()
        for loc, p in P.items():
            va, vb = vals[loc]
            if va != p and p in A.born:
                renA.add(p)
            if vb != p and p in B.born:
                renB.add(p)
        if renA:
            self.rename(A, renA)
        if renB:
            self.rename(B, renB)
        # linear relations between the differing locations (x + y or x - y unchanged)
        expr = {}
        if len(P) > 1:
            if renA or renB:
                vals = {}
                for loc, va, vb in diffs:
                    if loc[0] == 'r':
                        va, vb = A.frames[loc[1]][loc[2]], B.frames[loc[1]][loc[2]]
                    else:
                        try:
                            va, vb = A.mem[loc[1]].cells[loc[2]][1], B.mem[loc[1]].cells[loc[2]][1]
                        except KeyError:
                            continue        # the region itself was renamed
                    collect(loc, va, vb)
            reps, byd = [], {}
            pairs = {}
            for loc in sorted(P, key=repr):
                if loc not in vals:
                    continue
                va, vb = vals[loc]
                w = P[loc][2]
                if not (dom.tainted(va) or dom.tainted(vb)) and width(va) == width(vb) == w:
                    first = pairs.setdefault((va, vb), loc)
                    if first is not loc:
                        # the same value on both sides stays one value
                        expr[loc] = expr.get(first, P[first])
                        if va[0] in 'pF' or vb[0] in 'pF':
                            self.ptrphi.add(P[first])
                        continue
                if w not in (32, 64) or va[0] in 'pFTa' or vb[0] in 'pFTa' or width(va) != w or width(vb) != w:
                    continue
                if dom.tainted(va) or dom.tainted(vb):
                    continue
                D = dom.lsub(vb, va)
                weak = D[0] == 'c' and va[0] == 'c' and w == 32
                ghost = loc[0] == 'm' and loc[1][0] == 'GH'
                nD = dom.lsub(C(0, w), D)
                cand = byd.get((w, D), [])
                if nD != D:
                    cand = sorted(cand + byd.get((w, nD), []))
                for k in cand:
                    pj, vaj, Dj, weakj, gj = reps[k]
                    if (weak or weakj) and not (ghost or gj):
                        continue
                    if D == Dj:
                        e = binop('add', dom.lsub(va, vaj), pj, w)
                    else:
                        e = dom.lsub(binop('add', va, vaj, w), pj)
                    if e[0] == 's' and nm(e)[0] == 'anon':
                        continue
                    expr[loc] = e
                    break
                else:
                    byd.setdefault((w, D), []).append(len(reps))
                    reps.append((P[loc], va, D, weak, ghost))
        J = A

        def put(t, r):
            o = newfacts.get(t)
            newfacts[t] = r if o is None else inter(o, r) or r

        def jv(loc, va, vb):
            if va == vb:
                return va
            if loc in expr:
                e = expr[loc]
                if e[0] in 'es':
                    put(e, union(rng(A, va), rng(B, vb)))
                return e
            if loc in P:
                p = P[loc]
                put(p, union(rng(A, va), rng(B, vb)))
                if va[0] in 'pF' or vb[0] in 'pF':
                    self.ptrphi.add(p)
                return p
            va, vb = pnorm(va, vb)
            sp = split(va, vb)
            if sp:
                r = dom.cat([(jv((loc, i), x, y), n) for i, (x, y, n) in sp])
                if va in A.facts or vb in B.facts:
                    u = union(rng(A, va), rng(B, vb))
                    if u[0][0] > 0:
                        newfacts[r] = ((1, full(va[1])[0][1]),)
                return r
            if va[0] == 'p' and vb[0] == 'p' and va[1] == vb[1]:
                o = jv((loc, 'off'), offterm(va[2]), offterm(vb[2]))
                if o[0] == 'c':
                    o = sgn(o[1], 64)
                return ('p', va[1], o)
            p = mk(('phi', where, loc), width(va))
            if p in A.born or p in B.born:
                # a generation of it may be around: an unrelated unknown
                p = mk(('older', p[1]), width(va))
                return p
            P[loc] = p
            newfacts[p] = union(rng(A, va), rng(B, vb))
            return p
        newfacts = {}
        if P and where[0][2] != 'exit':
            # bounded distance of a changing value to the unchanged ones
            inv = [(r, v) for r, v in A.frames[-1].items()
                   if v[0] in 'se' and width(v) == 64 and B.frames[-1].get(r) == v and not dom.tainted(v)]
            seenq = set()
            bnd = list(A.mon.get('_bounds', ()))
            if bnd:
                # and what both sides know to be below a bound
                bnd += [k[4] for k, v in A.facts.items() if k[0] == 'e' and k[1] == 'icmp' and k[3] == 'ule' and k[5] in bnd
                        and v == ((1, 1),) and B.facts.get(k) == v and k[4][0] == 's'][:4]
            for r, q in [(None, q) for q in bnd] + inv[:12]:
                if q in seenq:
                    continue
                seenq.add(q)
                for loc, p in P.items():
                    if p[2] != 64 or loc not in vals or loc in expr:
                        continue
                    va, vb = vals[loc]
                    if va[0] not in 'sec' or vb[0] not in 'sec' or dom.tainted(va) or dom.tainted(vb) \
                            or width(va) != 64 or width(vb) != 64:
                        continue
                    if p in symset(q):
                        continue
                    x = rng(A, dom.lsub(q, va))
                    if x[-1][1] >> 63:
                        continue
                    y = rng(B, dom.lsub(q, vb))
                    if y[-1][1] >> 63:
                        continue
                    e = dom.lsub(q, p)
                    if e[0] == 'e':
                        newfacts[e] = union(x, y)
                    if ule(A, va, q) and ule(B, vb, q):
                        newfacts[('e', 'icmp', 1, 'ule', p, q)] = ((1, 1),)
        frames, mem = [], {}
        for i in range(nfr):
            fa, fb = A.frames[i], B.frames[i]
            if fa is fb:
                frames.append(fa)
                continue
            fr = {}
            for r, va in fa.items():
                if r in fb:
                    fr[r] = jv(('r', i, r), va, fb[r])
            frames.append(fr)
        for rid in list(A.mem) + [x for x in B.mem if x not in A.mem]:
            ra, rb = A.mem.get(rid), B.mem.get(rid)
            if ra is None or rb is None or ra is rb:
                mem[rid] = ra if ra is not None else rb
                continue
            n = Region(ra.default, ra.size if ra.size == rb.size else None)
            n.ver = ra.ver
            n.summary = ra.summary or rb.summary
            for o, (s, va) in ra.cells.items():
                c = rb.cells.get(o)
                if c is not None and c[0] == s:
                    n.cells[o] = (s, jv(('m', rid, o), va, c[1]))
            mem[rid] = n
        facts = {}
        pset = set(P.values())
        for t in set(A.facts) | set(B.facts):
            if t in pset:
                continue
            ina, inb = A.facts.get(t), B.facts.get(t)
            if ina is not None and ina == inb:
                facts[t] = ina
                continue
            ra, rb = rng(A, t), rng(B, t)
            u = union(ra, rb)
            if widen and ina is not None and not subset_(u, ina):
                u = self.widen(ina, u, width(t))
            if u != full(width(t)):
                facts[t] = u
        for p, r in newfacts.items():
            old = A0.facts.get(p)
            if widen and (p in A0.born if p[0] == 's' else old is not None):
                old = old if old is not None else full(width(p))
                if not subset_(r, old):
                    r = self.widen(old, union(old, r), width(p))
                else:
                    r = old
            if r != full(width(p)):
                facts[p] = r
        J = State()
        J.frames, J.mem, J.facts = frames, mem, facts
        for p in newfacts:
            if p[0] == 'e' and p in facts:
                narrow(J, p, facts[p])
        J.mon = A.mon if A.mon == B.mon else self.join_mon(A, B)
        J.trail = A0.trail
        J.born = A.born | B.born | set(P.values())
        changed = not same(J, A0)
        return J, changed

    def join_mon(self, A, B):
        m = dict(A.mon)
        for k, v in B.mon.items():
            if m.get(k) != v:
                if k.startswith('_'):
                    m[k] = self.mon.join_private(k, m.get(k), v)
        return m

    THR = (0, 1, 2, 3, 4, 7, 8, 15, 16, 20, 31, 32, 63, 64, 127, 128, 255, 256, 511, 512, 1023, 1024, 65535, 65536)

    def widen(self, old, new, w):
        ol, oh = hull(old)
        nl, nh = hull(new)
        thr = self.thresholds
        top = 1 << (w - 1)
        if w in (32, 64) and len(new) > 1 and new[0][0] == 0 and nh == 2 * top - 1:
            # counts across zero: widen as a signed range
            neg = [i for i in new if i[0] >= top]
            pos = [i for i in new if i[1] < top]
            if len(neg) + len(pos) == len(new) and neg and pos:
                a, b = neg[0][0] - 2 * top, pos[-1][1]
                on = [i for i in old if i[0] >= top]
                op = [i for i in old if i[1] < top]
                if len(on) + len(op) == len(old):
                    oa = on[0][0] - 2 * top if on else op[0][0]
                    ob = op[-1][1] if op else on[-1][1] - 2 * top
                    sthr = [t - 2 * top if t >= top else t for t in thr if t < 2 * top]
                    if a < oa:
                        a = max([t for t in sthr if t <= a], default=-top)
                    if b > ob:
                        b = min([t for t in sthr if t >= b], default=top - 1)
                    return ((0, b), (a + 2 * top, 2 * top - 1))
        if nl < ol:
            nl = max([t for t in thr if t <= nl], default=0)
        if nh > oh:
            nh = min([t for t in thr if t >= nh], default=(1 << w) - 1)
            nh = min(nh, (1 << w) - 1)
        if len(new) > 1 and nl == hull(new)[0] and nh == hull(new)[1]:
            # only gaps changed: keep outer bounds
            return ((nl, nh),)
        return ((nl, nh),)

    thresholds = THR

    def run(self, fname, args, st):
        self.cstack = []
        self.curctx = self.ctx()
        self.stack = []
        fn = self.mod.funcs.get(fname)
        if fn is None:
            raise AnalysisError('anchor function %s not found in the analysed module' % fname)
        th = set(self.THR)
        for f in self.mod.funcs.values():
            for b in f.blocks.values():
                for I in b.ins:
                    if I.op == 'icmp' and I.a[3][0] == 'c':
                        th.add(I.a[3][1])
                        if I.a[3][1]:
                            th.add(I.a[3][1] - 1)
        self.thresholds = sorted(th)
        return self.exec_fn(fn, args, st, None)

    def exec_fn(self, fn, args, st, site):
        self.funcs_seen.add(fn.name)
        self.stack.append(fn.name)
        if site is not None:
            self.cstack.append((site.fn.name, site.uid))
            if self.loopdepth_changed:
                pass
        octx = self.curctx
        self.curctx = self.ctx()
        fr = {}
        for (t, r), a in zip(fn.params, args):
            if t.k == 'int' and width(a) != t.n:
                a = bits(a, 0, t.n) if width(a) > t.n else zext(a, t.n)
            fr[r] = a
        st.frames = st.frames + [fr]
        live = self.liveness(fn)
        pend = {fn.entry.name: [st]}
        heap = [(fn.entry.rpo, fn.entry.name)]
        seen = {}
        visits = {}
        exits = []
        maxkeys = self.o['maxkeys']
        while heap:
            _, bn = heapq.heappop(heap)
            sts = pend.pop(bn, None)
            if not sts:
                continue
            b = fn.blocks[bn]
            lv = live[bn]
            for s in sts:
                f = s.frames[-1]
                if len(f) != len(lv):
                    s.frames = s.frames[:-1] + [{r: v for r, v in f.items() if r in lv}]
            where = (self.curctx, fn.name, bn)
            if bn in fn.loops:
                tab = seen.setdefault(bn, {})
                todo = []
                for s in sts:
                    k = self.key(s, fn, bn, False, len(tab) < (self.o['unroll'] or 6))
                    if k not in tab and len(tab) >= maxkeys:
                        k = self.key(s, fn, bn, True)
                    o = tab.get(k)
                    if o is None:
                        tab[k] = s
                        todo.append(k)
                    else:
                        vk = (bn, k)
                        visits[vk] = visits.get(vk, 0) + 1
                        if visits[vk] > 400:
                            raise AnalysisError('no fixpoint in %s at %s' % (fn.name, bn))
                        j, ch = self.join(o, s, (where, hash(k) & 0xffffff), visits[vk] > 2)
                        if ch:
                            tab[k] = j
                            if k not in todo:
                                todo.append(k)
                work = [tab[k].copy() for k in todo]
            else:
                if len(sts) == 1:
                    work = sts
                else:
                    tab = {}
                    for s in sts:
                        k = self.key(s, fn, bn, False)
                        if k not in tab and len(tab) >= maxkeys:
                            k = self.key(s, fn, bn, True)
                        o = tab.get(k)
                        if o is None:
                            tab[k] = s
                        else:
                            tab[k], _ = self.join(o, s, (where, hash(k) & 0xffffff), False)
                    work = list(tab.values())
            for s in work:
                for dst, ns in self.exec_block(fn, b, s, exits):
                    pend.setdefault(dst, []).append(ns)
                    heapq.heappush(heap, (fn.blocks[dst].rpo, dst))
        # merge exits
        tab = {}
        out = []
        for s, r, I in exits:
            s.frames = s.frames[:-1]
            if r is not None:
                k0 = r if len(tab) < self.o['maxexits'] else None
                if r[0] == 's' or r[0] == 'e':
                    x = rng(s, r)
                    k0 = (k0, 0 if x == ((0, 0),) else 1 if x[0][0] > 0 else 2)
            else:
                k0 = None
            s.frames[-1:] = [dict(s.frames[-1], __ret=r)] if r is not None else [s.frames[-1]]
            m = tuple(sorted((k, v) for k, v in s.mon.items() if not k.startswith('_')))
            loc = []
            for rid, reg in s.mem.items():
                if rid[0] == 'A' and isinstance(reg.size, int) and reg.size <= 8 and rid[1] != self.curctx:
                    c = reg.cells.get(0)
                    if c is not None and c[1][0] in 'cF':
                        loc.append((rid, c[1]))
            k = (m, self.mon.tracked(self, s), k0, tuple(sorted(loc, key=repr)))
            # locals of this activation die
            for rid in [x for x in s.mem if x[0] == 'A' and x[1] == self.curctx and x[2] == fn.name]:
                del s.mem[rid]
            o = tab.get(k)
            if o is None:
                tab[k] = s
            else:
                tab[k], _ = self.join(o, s, ((self.curctx, fn.name, 'exit'), hash(k) & 0xffffff), False)
        for s in tab.values():
            r = None
            if '__ret' in s.frames[-1]:
                f = dict(s.frames[-1])
                r = f.pop('__ret')
                s.frames = s.frames[:-1] + [f]
            self.gcfacts(s)
            out.append((s, r))
        self.stack.pop()
        if site is not None:
            self.cstack.pop()
        self.curctx = octx
        return out

    loopdepth_changed = False

    def gcfacts(self, st):
        if len(st.facts) < 40 and len(st.born) < 60:
            return
        alive = self.alive(st)
        st.facts = {t: r for t, r in st.facts.items() if (t in alive if t[0] == 's' else symset(t) <= alive)}
        st.born = st.born & alive

    def goto(self, fn, b, st, dst, out):
        d = fn.blocks[dst]
        if d.phis:
            f = st.frames[-1]
            new = {}
            for I in d.phis:
                for v, p in I.a:
                    if p == b.name:
                        new[I.res] = self.val(st, v, I.ty)
                        break
            f.update(new)
        out.append((dst, st))

    def exec_block(self, fn, b, st, exits):
        out = []
        stack = [(st, 0)]
        body = b.body
        n = len(body)
        while stack:
            st, i = stack.pop()
            while i < n:
                I = body[i]
                self.steps += 1
                if self.steps > self.o['budget']:
                    raise AnalysisError('budget exhausted in ' + '/'.join(self.stack[-6:]))
                op = I.op
                if op == 'br':
                    c, x, y = I.a
                    if c is None:
                        self.goto(fn, b, st, x, out)
                        break
                    cv = self.val(st, c, dom_i1)
                    r = rng(st, cv) if cv[0] != 'c' else ((cv[1], cv[1]),)
                    both = len(r) > 1 or r[0][0] != r[0][1]
                    if both:
                        s2 = st.copy()
                        if assume(s2, cv, False):
                            s2.trail = (s2.trail, '%s: %s false' % (self.locs(I), c[1] if c[0] == 'r' else c))
                            self.goto(fn, b, s2, y, out)
                        if assume(st, cv, True):
                            st.trail = (st.trail, '%s: %s true' % (self.locs(I), c[1] if c[0] == 'r' else c))
                            self.goto(fn, b, st, x, out)
                    elif r[0][0]:
                        if assume(st, cv, True):
                            self.goto(fn, b, st, x, out)
                    else:
                        if assume(st, cv, False):
                            self.goto(fn, b, st, y, out)
                    break
                if op == 'switch':
                    c, t, cases, d = I.a
                    cv = self.val(st, c, t)
                    r = rng(st, cv)
                    rest = r
                    for k, lab in cases:
                        hit = inter(rest, ((k, k),))
                        if hit:
                            s2 = st.copy()
                            if narrow(s2, cv, ((k, k),)):
                                s2.trail = (s2.trail, '%s: case %d' % (self.locs(I), sgn(k, t.n)))
                                self.goto(fn, b, s2, lab, out)
                        rest = inter(rest, compl(((k, k),), t.n))
                    if rest and narrow(st, cv, rest):
                        st.trail = (st.trail, '%s: default' % self.locs(I))
                        self.goto(fn, b, st, d, out)
                    break
                if op == 'ret':
                    t, v = I.a
                    r = None if t is None else self.val(st, v, t)
                    self.mon.on_return(self, st, fn, r, I)
                    exits.append((st, r, I))
                    break
                if op == 'unreachable':
                    break
                if op == 'call' or op == 'callbr':
                    res = self.call(st, I)
                    if op == 'callbr':
                        for s, r in res:
                            if I.res:
                                s.frames[-1][I.res] = r if r is not None else dom.anon(64)
                            for k, d in enumerate(I.a[3]):
                                s2 = s.copy() if k + 1 < len(I.a[3]) else s
                                self.goto(fn, b, s2, d, out)
                        break
                    if len(res) == 1:
                        st, r = res[0]
                        if I.res:
                            st.frames[-1][I.res] = r
                        i += 1
                        continue
                    for s, r in res:
                        if I.res:
                            s.frames[-1][I.res] = r
                        stack.append((s, i + 1))
                    break
                if op == 'select':
                    c, x, y = I.a
                    cv = self.val(st, c, dom_i1)
                    a, bb = self.val(st, x, I.ty), self.val(st, y, I.ty)
                    r = rng(st, cv)
                    if r == ((1, 1),):
                        v = a
                    elif r == ((0, 0),):
                        v = bb
                    elif a != bb and (I.ty.k == 'ptr' or (a[0] == 'c' and bb[0] == 'c')):
                        s2 = st.copy()
                        if assume(s2, cv, False):
                            s2.frames[-1][I.res] = bb
                            stack.append((s2, i + 1))
                        if not assume(st, cv, True):
                            break
                        v = a
                    else:
                        v = select(cv, a, bb)
                    st.frames[-1][I.res] = v
                    i += 1
                    continue
                ok = self.simple(st, I)
                if ok is False:
                    break
                i += 1
        return out

    def ptrcmp(self, st, p, a, b, v):
        """two positions in the same object whose order is known"""
        def at(x):
            if x[0] == 'p':
                return x[1], C(x[2] & ((1 << 64) - 1), 64) if isinstance(x[2], int) else x[2]
            return ('D', x), C(0, 64)
        (ra, oa), (rb, ob) = at(a), at(b)
        if ra != rb or oa is None or ob is None or dom.tainted(oa) or dom.tainted(ob):
            return v
        # addresses within an object do not wrap around, so their order is that of the (signed) offsets
        if p not in ('eq', 'ne') and max(hull(rng(st, oa))[1], hull(rng(st, ob))[1]) >= 1 << 62:
            p = 's' + p[1:]
        w = icmp(p, oa, ob)
        r = rng(st, w)
        return C(r[0][0], 1) if len(r) == 1 and r[0][0] == r[0][1] else w

    def simple(self, st, I):
        op = I.op
        if op == 'load':
            x, vol, order = I.a
            p = self.val(st, x, None)
            st.frames[-1][I.res] = self.load(st, I, p, I.ty, vol)
            if st.frames[-1][I.res] is None:
                return False
            return True
        if op == 'store':
            t, v, x, vol, order = I.a
            p = self.val(st, x, None)
            if self.mod.resolve(t).k in ('struct', 'array', 'vector'):
                rid, off = self.deref(st, p)
                if rid is None:
                    self.mon.on_null(self, st, I)
                    return False
                self.havoc(st, rid, off if isinstance(off, int) else None, self.mod.size(t), I)
                return True
            vv = self.val(st, v, t)
            return self.store(st, I, p, t, vv)
        if op == 'getelementptr':
            st.frames[-1][I.res] = self.gep(st, I.a[0], I.a[1])
            if self.ongep is not None:
                self.ongep(self, st, I, st.frames[-1][I.res])
            return True
        if op in CASTOPS:
            x, t = I.a
            v = self.val(st, x, t)
            if I.ty.k not in ('int', 'ptr') or t.k not in ('int', 'ptr'):
                st.frames[-1][I.res] = dom.anon(64)
                return True
            if op == 'trunc':
                v = bits(v, 0, I.ty.n)
            elif op == 'zext':
                v = zext(v, I.ty.n)
            elif op == 'sext':
                v = sext(v, I.ty.n)
            elif op == 'ptrtoint' and I.ty.n != 64:
                v = bits(v, 0, I.ty.n)
            st.frames[-1][I.res] = v
            return True
        if op == 'icmp':
            p, t, x, y = I.a
            a, b = self.val(st, x, t), self.val(st, y, t)
            v = icmp(p, a, b)
            if v[0] != 'c':
                r = rng(st, v)
                if len(r) == 1 and r[0][0] == r[0][1]:
                    v = C(r[0][0], 1)
                elif t.k == 'ptr' and (a[0] == 'p' or b[0] == 'p'):
                    v = self.ptrcmp(st, p, a, b, v)
            st.frames[-1][I.res] = v
            return True
        if op in BIN:
            if I.ty.k != 'int':
                st.frames[-1][I.res] = dom.anon(64)
                return True
            a, b = self.val(st, I.a[0], I.ty), self.val(st, I.a[1], I.ty)
            if op in ('udiv', 'urem', 'sdiv', 'srem', 'shl', 'lshr', 'ashr'):
                h = getattr(self.mon, 'on_arith', None)
                if h:
                    h(self, st, op, a, b, I)
            if a[0] not in 'cp':
                ra = rng(st, a)
                if len(ra) == 1 and ra[0][0] == ra[0][1]:
                    a = C(ra[0][0], I.ty.n)
            if b[0] not in 'cp':
                rb = rng(st, b)
                if len(rb) == 1 and rb[0][0] == rb[0][1]:
                    b = C(rb[0][0], I.ty.n)
            if op == 'shl' and b[0] == 'c' and a[0] in 'se' and b[1] < I.ty.n:
                # bits known to be zero
                hi = hull(rng(st, a))[1].bit_length()
                if 0 < hi < I.ty.n - b[1]:
                    a = dom.cat([(bits(a, 0, hi), hi), (C(0, I.ty.n - hi), I.ty.n - hi)])
            v = binop(op, a, b, I.ty.n)
            if v[0] == 's' and nm(v)[0] == 'anon':
                v = self.fresh(st, I, I.ty.n, 'deep')
            st.frames[-1][I.res] = v
            if op in ('add', 'sub'):
                h = getattr(self.mon, 'on_value', None)
                if h:
                    h(self, st, v, I)
            return True
        if op == 'alloca':
            t, n = I.a
            nv = self.val(st, n, None)
            rid = ('A', self.curctx, I.fn.name, I.uid)
            st.mem[rid] = Region('undef', self.mod.size(t) * nv[1] if nv[0] == 'c' else None)
            st.owned.add(rid)
            st.frames[-1][I.res] = ('p', rid, 0)
            return True
        if op == 'extractvalue':
            v = self.val(st, I.a[0], None)
            w = I.ty.n if I.ty.k == 'int' else 64
            if v[0] == 'T':
                e = v
                for k in I.a[1]:
                    e = e[1][k] if e[0] == 'T' else dom.anon(w)
                st.frames[-1][I.res] = e
            else:
                st.frames[-1][I.res] = self.fresh(st, I, w)
            return True
        if op == 'insertvalue':
            st.frames[-1][I.res] = mk(('agg', I.uid), 64)
            return True
        if op == 'cmpxchg':
            x, c, nw, t, order = I.a
            p = self.val(st, x, None)
            old = self.load(st, I, p, t, True)
            if old is None:
                return False
            st.frames[-1][I.res] = ('T', (old, self.fresh(st, I, 1, 'ok')))
            self.store(st, I, p, t, self.fresh(st, I, t.n, 'cx'), quiet=False)
            return True
        if op == 'atomicrmw':
            o, x, v, t, order = I.a
            p = self.val(st, x, None)
            vv = self.val(st, v, t)
            old = self.load(st, I, p, t, True)
            if old is None:
                return False
            st.frames[-1][I.res] = old
            m = {'add': 'add', 'sub': 'sub', 'and': 'and', 'or': 'or', 'xor': 'xor'}
            nv = vv if o == 'xchg' else binop(m[o], old, vv, t.n) if o in m else self.fresh(st, I, t.n, 'rmw')
            self.store(st, I, p, t, nv)
            return True
        if op == 'fence':
            return True
        if op == 'freeze':
            st.frames[-1][I.res] = self.val(st, I.a[0], I.ty)
            return True
        raise AnalysisError('unsupported instruction ' + I.text)

    def load(self, st, I, p, ty, vol):
        rid, off = self.deref(st, p)
        if rid is None:
            self.mon.on_null(self, st, I)
            return None
        if ty.k not in ('int', 'ptr'):
            self.mon.on_load(self, st, rid, off, self.mod.size(ty), None, I)
            return dom.anon(64)
        size = self.mod.size(ty)
        if isinstance(off, tuple):
            r = rng(st, off)
            if len(r) == 1 and r[0][0] == r[0][1]:
                off = sgn(r[0][0], 64)
        v = self.mon.load_value(self, st, rid, off, size, I) if self.mon.load_const and isinstance(off, int) else None
        if v is not None:
            pass
        elif isinstance(off, int):
            if self.volatile is not None and self.volatile(rid, off, size):
                v = self.fresh(st, I, size * 8, 'vol')
                self.write(st, rid, off, size, v)
            else:
                v = self.read(st, rid, off, size)
        else:
            v = self.mon.load_value(self, st, rid, off, size, I)
            if v is not None:
                self.mon.on_load(self, st, rid, off, size, v, I)
                return v
            v = self.fresh(st, I, size * 8)
            reg = self.region(st, rid)
            if reg.default == ('init',) and (not reg.cells or self.gconst(rid[1])) and size <= 8 and isinstance(reg.size, int):
                lo, hi = hull(rng(st, off))
                if hi > reg.size - size:
                    lo, hi = 0, reg.size - size
                vals = [self.ginit(rid[1], o, size) for o in range(lo, hi + 1, size)]
                if vals and all(x is not None and x[0] == 'c' for x in vals):
                    st.facts[v] = iset([(x[1], x[1]) for x in vals])
        if ty.k == 'int' and ty.n != size * 8:
            v = bits(v, 0, ty.n)
        self.mon.on_load(self, st, rid, off, size, v, I)
        return v

    def store(self, st, I, p, ty, v, quiet=False):
        rid, off = self.deref(st, p)
        if rid is None:
            self.mon.on_null(self, st, I)
            return False
        size = self.mod.size(ty)
        if ty.k == 'int' and ty.n != size * 8:
            v = zext(v, size * 8)
        if v[0] == 'agg0' or v[0] == 'T':
            v = dom.anon(size * 8)
        if isinstance(off, tuple):
            r = rng(st, off)
            if len(r) == 1 and r[0][0] == r[0][1]:
                off = sgn(r[0][0], 64)
        self.mon.on_store(self, st, rid, off, size, v, I)
        if isinstance(off, int):
            self.write(st, rid, off, size, v)
        else:
            r = rng(st, off)
            lo, hi = hull(r)
            reg = self.region(st, rid)
            if hi < (1 << 62) and hi - lo < 4096:
                # weak update of the covered cells
                w = st.wr(rid)
                for o in list(w.cells):
                    s, _ = w.cells[o]
                    if o < hi + size and lo < o + s:
                        w.cells[o] = (s, self.fresh(st, I, s * 8, ('w', rid, o)))
                        w = st.wr(rid)
                w = st.wr(rid)
                if w.default in ('zero', 'undef', ('init',)):
                    # default cells in the range become unknown
                    for o in range(lo // 8 * 8, hi + size, 8):
                        if not any(x < o + 8 and o < x + s for x, (s, _) in w.cells.items()):
                            w.cells[o] = (8, self.fresh(st, I, 64, ('w', rid, o)))
                            w = st.wr(rid)
            else:
                self.havoc(st, rid, None, None, I)
        return True

    # ---- calls -----------------------------------------------------------
    def call(self, st, I):
        callee, args, asm, dest = I.a
        rw = None if I.ty.k == 'void' else (I.ty.n if I.ty.k == 'int' else 64)
        if asm is not None:
            av = [self.val(st, v, t) if t.k != 'metadata' else None for t, v in args]
            self.mon.on_asm(self, st, asm, av, I)
            for a in av:
                if a is not None and a[0] in 'ps' and width(a) == 64:
                    # asm memory operand: contents become unknown ("=*m")
                    if '*m' in asm[1]:
                        rid, off = self.deref(st, a)
                        if rid is not None:
                            self.havoc(st, rid, off, 8, I, 'asm')
            if I.ty.k == 'struct':
                return [(st, ('T', tuple(self.fresh(st, I, e.n if e.k == 'int' else 64, i)
                                         for i, e in enumerate(I.ty.el))))]
            return [(st, self.fresh(st, I, rw) if rw else None)]
        fv = self.val(st, callee, None)
        av = []
        for t, v in args:
            if t.k == 'metadata':
                av.append(C(0, 64))
            elif t.k in ('int', 'ptr'):
                av.append(self.val(st, v, t))
            else:
                av.append(dom.anon(64))
        if fv[0] == 'F':
            return self.call_named(st, fv[1], av, I, rw)
        if fv[0] == 'c':
            self.mon.on_null(self, st, I)
            return []
        # unknown function pointer
        x = self.mon.on_call(self, st, None, av, I)
        if x is not None:
            return x
        h = self.models.get(None)
        if h:
            r = h(self, st, None, av, I)
            if r is not None:
                return r
        self.warn.setdefault('indirect', set()).add(self.locs(I))
        return [(st, self.fresh(st, I, rw) if rw else None)]

    def call_named(self, st, name, av, I, rw):
        if name.startswith('llvm.'):
            return self.intrinsic(st, name, av, I, rw)
        self.sites_seen.add((I.fn.name, I.uid))
        r = self.mon.on_call(self, st, name, av, I)
        if r is not None:
            return r
        m = self.models.get(name)
        if m is not None:
            r = m(self, st, name, av, I)
            if r is not None:
                return r
        m = MODELS.get(name)
        if m is not None:
            r = m(self, st, name, av, I)
            if r is not None:
                return r
        fn = self.mod.funcs.get(name)
        if fn is not None:
            if name in self.stack:
                self.warn.setdefault('recursion', set()).add(name)
                return self.summary_call(st, fn, av, I, rw)
            if self.o['skip'] and self.o['skip'](self, st, fn, av, I):
                return self.summary_call(st, fn, av, I, rw)
            return self.exec_fn(fn, av, st, I)
        # external: its pointees may change
        for k, a in enumerate(av):
            if a[0] in 'ps' and width(a) == 64 and (a[0] == 'p' or a in st.facts or ('D', a) in st.mem):
                rid, off = self.deref(st, a)
                if rid is not None and rid in st.mem and not (rid[0] == 'G' and self.gconst(rid[1])):
                    self.havoc(st, rid, None, None, I, 'x%d' % k)
        return [(st, self.fresh(st, I, rw) if rw else None)]

    def mon_havoc(self, st, rid, off, n, I):
        self.mon.on_write(self, st, rid, off, n, I, ('havoc',))
        self.havoc(st, rid, off, n, I, 'sum')

    def gconst(self, name):
        g = self.mod.globals.get(name)
        return g is not None and g.const

    def summary_call(self, st, fn, av, I, rw):
        if self.summ is None:
            from .summary import Summaries
            self.summ = Summaries(self.mod)
        self.summ.apply(self, st, fn, av, I)
        self.mon.on_skip(self, st, fn, av, I)
        return [(st, self.fresh(st, I, rw) if rw else None)]

    def intrinsic(self, st, name, av, I, rw):
        if name.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.stacksave', 'llvm.stackrestore',
                            'llvm.va_', 'llvm.prefetch', 'llvm.experimental.noalias')):
            return [(st, dom.anon(rw) if rw else None)]
        if name.startswith('llvm.memset'):
            rid, off = self.deref(st, av[0])
            if rid is None:
                self.mon.on_null(self, st, I)
                return []
            self.mon.on_write(self, st, rid, off, av[2], I, ('set', av[1]))
            self.memset(st, rid, off, av[1], av[2], I)
            return [(st, None)]
        if name.startswith(('llvm.memcpy', 'llvm.memmove')):
            return self.memcpy(st, av, I)
        if name.startswith('llvm.bswap') or name.startswith('llvm.fshl') or name.startswith('llvm.fshr') \
                or name.startswith('llvm.ctpop') or name.startswith('llvm.ctlz') or name.startswith('llvm.cttz'):
            return [(st, self.fresh(st, I, rw))]
        if name.startswith('llvm.expect'):
            return [(st, av[0])]
        if name.startswith('llvm.is.constant'):
            return [(st, C(0, 1))]
        if name.startswith('llvm.objectsize'):
            return [(st, C(-1, rw))]
        if name.startswith('llvm.umin') or name.startswith('llvm.umax'):
            c = icmp('ult', av[0], av[1])
            a, b = (av[0], av[1]) if 'umin' in name else (av[1], av[0])
            return [(st, select(c, a, b))]
        if name.startswith('llvm.smin') or name.startswith('llvm.smax'):
            c = icmp('slt', av[0], av[1])
            a, b = (av[0], av[1]) if 'smin' in name else (av[1], av[0])
            return [(st, select(c, a, b))]
        if '.with.overflow' in name:
            op = 'add' if 'add' in name else 'sub' if 'sub' in name else 'mul'
            return [(st, ('T', (binop(op, av[0], av[1], width(av[0])), self.fresh(st, I, 1, 'ov'))))]
        if name.startswith(('llvm.trap', 'llvm.ubsantrap', 'llvm.debugtrap')):
            return []
        self.mon.on_call(self, st, name, av, I)
        if rw:
            return [(st, self.fresh(st, I, rw))]
        return [(st, None)]

    def memset(self, st, rid, off, v, n, I):
        nr = rng(st, n)
        if isinstance(off, int) and len(nr) == 1 and nr[0][0] == nr[0][1] and v[0] == 'c':
            k = nr[0][0]
            if k == 0:
                return
            reg = self.region(st, rid)
            if off == 0 and v[1] == 0 and isinstance(reg.size, int) and reg.size <= k:
                w = st.wr(rid)
                w.cells = {}
                w.default = 'zero'
                return
            w = st.wr(rid)
            self.punch(st, w, off, k)
            if k <= 8192:
                o = off
                b = v[1] & 0xff
                while o < off + k:
                    s = 8 if o % 8 == 0 and o + 8 <= off + k else 4 if o % 4 == 0 and o + 4 <= off + k else \
                        2 if o % 2 == 0 and o + 2 <= off + k else 1
                    self.write(st, rid, o, s, C(int.from_bytes(bytes([b]) * s, 'little'), s * 8))
                    o += s
            else:
                self.havoc(st, rid, None, None, I, 'ms')
            return
        reg = self.region(st, rid)
        if off == 0 and v[0] == 'c' and v[1] == 0 and reg.default in ('zero', 'undef', 'sym') and \
                reg.size is not None and not isinstance(reg.size, int) and reg.size == n:
            w = st.wr(rid)
            w.cells = {}
            w.default = 'zero'
            return
        self.havoc(st, rid, off if isinstance(off, int) else None,
                   nr[0][0] if len(nr) == 1 and nr[0][0] == nr[0][1] else None, I, 'ms')

    def memcpy(self, st, av, I):
        rid, off = self.deref(st, av[0])
        rs, os = self.deref(st, av[1])
        n = av[2]
        if rid is None or rs is None:
            r = rng(st, n)
            if r == ((0, 0),):
                return [(st, None)]
            self.mon.on_null(self, st, I)
            return []
        self.mon.on_write(self, st, rid, off, n, I, ('copy', rs, os))
        nr = rng(st, n)
        k = nr[0][0] if len(nr) == 1 and nr[0][0] == nr[0][1] else None
        if k is not None and isinstance(off, int) and isinstance(os, int) and k <= 4096:
            if k == 0:
                return [(st, None)]
            src = self.region(st, rs)
            # copy along the source's cell boundaries
            cuts = {0, k}
            for o, (s, _) in src.cells.items():
                if o < os + k and os < o + s:
                    cuts.add(min(max(o - os, 0), k))
                    cuts.add(min(max(o + s - os, 0), k))
            if src.default == ('init',) or True:
                c = sorted(cuts)
                fine = set(c)
                for a, b in zip(c, c[1:]):
                    while b - a > 8:
                        a += 8 - (a + off) % 8 if (a + off) % 8 else 8
                        fine.add(a)
                cuts = fine
            c = sorted(cuts)
            vals = []
            for a, b in zip(c, c[1:]):
                vals.append((a, b - a, self.read(st, rs, os + a, b - a)))
            for a, s, v in vals:
                self.write(st, rid, off + a, s, v)
        elif isinstance(off, int) and k is not None:
            self.havoc(st, rid, off, k, I, 'mc')
        elif isinstance(off, int) and nr[-1][1] <= 4096:
            self.havoc(st, rid, off, nr[-1][1], I, 'mc')
        else:
            self.havoc(st, rid, None, None, I, 'mc')
        return [(st, None)]


def pnorm(va, vb):
    """base pointer against derived pointer of the same object"""
    if va[0] == 'p' and vb[0] == 's' and va[1] == ('D', vb):
        return va, ('p', va[1], 0)
    if vb[0] == 'p' and va[0] == 's' and vb[1] == ('D', va):
        return ('p', vb[1], 0), vb
    return va, vb


def split(va, vb):
    """bit pieces of two values, at least one of which is a concatenation: [(index, (x, y, n))]"""
    if (va[0] != 'b' and vb[0] != 'b') or va[0] in 'pFTa' or vb[0] in 'pFTa' or width(va) != width(vb):
        return None
    cut = set()
    for v in (va, vb):
        if v[0] == 'b':
            pos = 0
            for _, n in v[2]:
                pos += n
                cut.add(pos)
    out, pos = [], 0
    for e in sorted(cut):
        out.append((pos if pos else 0, (bits(va, pos, e - pos), bits(vb, pos, e - pos), e - pos)))
        pos = e
    return out


def subset_(a, b):
    return inter(a, b) == a


def cat_keep(w, ps):
    return ('b', w, tuple(ps))


def same(X, Y):
    if X.frames != Y.frames or X.facts != Y.facts:
        return False
    if X.mem.keys() != Y.mem.keys():
        # regions only read lazily may be added; compare conservatively
        if not (Y.mem.keys() <= X.mem.keys()):
            return False
        extra = X.mem.keys() - Y.mem.keys()
        if any(X.mem[r].cells and X.mem[r].ver == 0 and X.mem[r].default != 'sym' for r in extra):
            return False
        if extra:
            return False
    for r, a in X.mem.items():
        b = Y.mem[r]
        if a is b:
            continue
        if a.cells != b.cells or a.default != b.default or a.summary != b.summary:
            return False
    return True


class _I1:
    k = 'int'
    n = 1


dom_i1 = _I1()
CASTOPS = {'trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'}
BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'}


# ---- models of external functions ----------------------------------------------
def m_memset(E, st, name, av, I):
    rid, off = E.deref(st, av[0])
    if rid is None:
        if rng(st, av[2]) == ((0, 0),):
            return [(st, av[0])]
        E.mon.on_null(E, st, I)
        return []
    E.mon.on_write(E, st, rid, off, av[2], I, ('set', bits(av[1], 0, 8)))
    E.memset(st, rid, off, bits(av[1], 0, 8), av[2], I)
    return [(st, av[0])]


def m_memcpy(E, st, name, av, I):
    r = E.memcpy(st, av, I)
    return [(s, av[0]) for s, _ in r]


def m_pure(w):
    def f(E, st, name, av, I):
        return [(st, E.fresh(st, I, w))]
    return f


MODELS = {
    'memset': m_memset, 'memcpy': m_memcpy, 'memmove': m_memcpy,
    'strlen': m_pure(64), 'memcmp': m_pure(32), 'strcmp': m_pure(32), 'strncmp': m_pure(32),
}
