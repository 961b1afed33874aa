"""Abstract values: hash-consed terms plus unsigned interval sets.

Terms (plain tuples):
  ('c', n, w)            constant of w bits
  ('s', name, w)         opaque symbol (unknown but fixed value)
  ('p', base, off)       address base+off; off is an int or a 64-bit term
  ('F', name)            address of a function
  ('b', w, ((v,n),...))  concatenation of pieces, least significant first
  ('e', op, w, args...)  operation over terms
No solver is involved: terms are normalised by local rewriting and their value
sets are bounded by intervals."""

MAXDEPTH = 9


def C(n, w):
    return ('c', n & ((1 << w) - 1), w)


TRUE = ('c', 1, 1)
FALSE = ('c', 0, 1)
NULL = ('c', 0, 64)


def width(v):
    k = v[0]
    if k == 'c' or k == 's':
        return v[2]
    if k == 'p' or k == 'F':
        return 64
    if k == 'b':
        return v[1]
    return v[2]


_depth = {}


def depth(v):
    if v[0] == 'e':
        d = _depth.get(v)
        if d is None:
            d = 1 + max([0] + [depth(a) for a in v[3:] if isinstance(a, tuple) and a and isinstance(a[0], str)])
            _depth[v] = d
        return d
    if v[0] == 'b':
        return 1 + max(depth(p[0]) for p in v[2])
    if v[0] == 'p' and isinstance(v[2], tuple):
        return 1 + depth(v[2])
    return 0


# ---- interval sets ----------------------------------------------------------
def full(w):
    return ((0, (1 << w) - 1),)


def iset(ivs):
    ivs = sorted(ivs)
    out = []
    for lo, hi in ivs:
        if lo > hi:
            continue
        if out and lo <= out[-1][1] + 1:
            if hi > out[-1][1]:
                out[-1] = (out[-1][0], hi)
        else:
            out.append((lo, hi))
    while len(out) > 40:
        g = min(range(len(out) - 1), key=lambda i: out[i + 1][0] - out[i][1])
        out[g:g + 2] = [(out[g][0], out[g + 1][1])]
    return tuple(out)


def inter(a, b):
    if a is b or a == b:
        return a
    out = []
    i = j = 0
    while i < len(a) and j < len(b):
        lo = max(a[i][0], b[j][0])
        hi = min(a[i][1], b[j][1])
        if lo <= hi:
            out.append((lo, hi))
        if a[i][1] < b[j][1]:
            i += 1
        else:
            j += 1
    return tuple(out)


def union(a, b):
    if a == b:
        return a
    return iset(list(a) + list(b))


def subset(a, b):
    return inter(a, b) == a


def hull(a):
    return (a[0][0], a[-1][1])


def compl(a, w):
    out = []
    p = 0
    for lo, hi in a:
        if lo > p:
            out.append((p, lo - 1))
        p = hi + 1
    m = (1 << w) - 1
    if p <= m:
        out.append((p, m))
    return tuple(out)


def shift_map(a, k, w):
    """{x+k mod 2^w}"""
    m = 1 << w
    out = []
    for lo, hi in a:
        lo += k
        hi += k
        if hi - lo >= m - 1:
            return full(w)
        lo2, hi2 = lo % m, hi % m
        if lo2 <= hi2:
            out.append((lo2, hi2))
        else:
            out += [(lo2, m - 1), (0, hi2)]
    return iset(out)


def bitlen_mask(n):
    return (1 << n.bit_length()) - 1


class Fresh:
    """allocator of anonymous symbols for values that leave the term domain"""
    n = 0


# symbol names are interned: ('s', int, w); nm() gives the structured name back
_ids = {}
_names = []


def mk(name, w):
    i = _ids.get(name)
    if i is None:
        i = len(_names)
        _ids[name] = i
        _names.append(name)
    return ('s', i, w)


def nm(v):
    n = v[1]
    return _names[n] if n.__class__ is int else n


def anon(w, why='anon'):
    Fresh.n += 1
    return mk((why, Fresh.n), w)


# ---- term construction --------------------------------------------------------
def const_mask_run(c, w):
    """if c is a contiguous run of ones -> (lo, n)"""
    if c == 0:
        return None
    lo = (c & -c).bit_length() - 1
    x = c >> lo
    if x & (x + 1) == 0:
        return lo, x.bit_length()
    return None


def bits(v, lo, n):
    """bits [lo, lo+n) of v as an n-bit term"""
    w = width(v)
    if lo == 0 and n == w:
        return v
    k = v[0]
    if k == 'c':
        return C(v[1] >> lo, n)
    if k == 'b':
        out, pos = [], 0
        for p, pn in v[2]:
            a, b = max(lo, pos), min(lo + n, pos + pn)
            if a < b:
                out.append((bits(p, a - pos, b - a), b - a))
            pos += pn
        return cat(out)
    if k == 'e':
        op = v[1]
        if op == 'and' and v[4][0] == 'c':
            m = (v[4][1] >> lo) & ((1 << n) - 1)
            if m == 0:
                return C(0, n)
            if m == (1 << n) - 1:
                return bits(v[3], lo, n)
        elif op in ('or', 'xor') :
            a, b = bits(v[3], lo, n), bits(v[4], lo, n)
            if a == C(0, n):
                return b
            if b == C(0, n):
                return a
            if a[0] == 'c' and b[0] == 'c':
                return C(a[1] | b[1] if op == 'or' else a[1] ^ b[1], n)
        elif op == 'and':
            a, b = bits(v[3], lo, n), bits(v[4], lo, n)
            if a == C(0, n) or b == C(0, n):
                return C(0, n)
        elif op == 'zext':
            iw = width(v[3])
            if lo >= iw:
                return C(0, n)
            if lo + n <= iw:
                return bits(v[3], lo, n)
            return zext(bits(v[3], lo, iw - lo), n)
        elif op == 'sext':
            iw = width(v[3])
            if lo + n <= iw:
                return bits(v[3], lo, n)
        elif op == 'shl' and v[4][0] == 'c':
            s = v[4][1]
            if lo >= s:
                return bits(v[3], lo - s, n)
            if lo + n <= s:
                return C(0, n)
        elif op == 'bits':
            return bits(v[3], v[4] + lo, n)
        elif op == 'select':
            a, b = bits(v[4], lo, n), bits(v[5], lo, n)
            if a == b:
                return a
            if a[0] == 'c' or b[0] == 'c':
                return select(v[3], a, b)
        elif op in ('add', 'sub', 'mul') and lo == 0 and n < w:
            # low bits of modular arithmetic depend on low bits only
            return binop(op, bits(v[3], 0, n), bits(v[4], 0, n), n)
    if k == 'p' or k == 'F':
        return ('e', 'bits', n, v, lo)
    if depth(v) > MAXDEPTH:
        return anon(n)
    return ('e', 'bits', n, v, lo)


def cat(pieces):
    """pieces LSB first [(v,n)]"""
    out = []
    for v, n in pieces:
        if v[0] == 'b':
            sub = list(v[2])
        else:
            sub = [(v, n)]
        for sv, sn in sub:
            if out and out[-1][0][0] == 'c' and sv[0] == 'c':
                pv, pn = out[-1]
                out[-1] = (C(pv[1] | (sv[1] << pn), pn + sn), pn + sn)
            elif out and sv[0] == 'e' and sv[1] == 'bits' and out[-1][0][0] == 'e' and out[-1][0][1] == 'bits' \
                    and out[-1][0][3] == sv[3] and out[-1][0][4] + out[-1][1] == sv[4]:
                pv, pn = out[-1]
                out[-1] = (bits(sv[3], pv[4], pn + sn), pn + sn)
            else:
                out.append((sv, sn))
    w = sum(n for _, n in out)
    if len(out) == 1:
        return out[0][0]
    # zext shape
    if len(out) == 2 and out[1][0][0] == 'c' and out[1][0][1] == 0:
        return zext(out[0][0], w)
    return ('b', w, tuple(out))


def zext(v, w):
    iw = width(v)
    if iw == w:
        return v
    if v[0] == 'c':
        return C(v[1], w)
    if v[0] == 'e' and v[1] == 'zext':
        return ('e', 'zext', w, v[3])
    if v[0] == 'e' and v[1] == 'select' and (v[4][0] == 'c' or v[5][0] == 'c'):
        return select(v[3], zext(v[4], w), zext(v[5], w))
    return ('e', 'zext', w, v)


def sext(v, w):
    iw = width(v)
    if iw == w:
        return v
    if v[0] == 'c':
        n = v[1]
        if n >> (iw - 1):
            n -= 1 << iw
        return C(n, w)
    if v[0] == 'e' and v[1] == 'zext':
        return ('e', 'zext', w, v[3])
    if v[0] == 'b' and v[2][-1][0][0] == 'c' and not v[2][-1][0][1] >> (v[2][-1][1] - 1):
        return zext(v, w)
    if v[0] == 'e' and v[1] == 'select' and (v[4][0] == 'c' or v[5][0] == 'c'):
        return select(v[3], sext(v[4], w), sext(v[5], w))
    return ('e', 'sext', w, v)


COMM = ('add', 'mul', 'and', 'or', 'xor')


def lin(v, w, k=1, acc=None):
    """v as a linear form modulo 2^w: {atom: coef}, the constant under None"""
    if acc is None:
        acc = {}
    t = v[0]
    if t == 'c':
        acc[None] = acc.get(None, 0) + k * v[1]
        return acc
    if t == 'e':
        op = v[1]
        if op == 'add':
            lin(v[3], w, k, acc)
            return lin(v[4], w, k, acc)
        if op == 'sub':
            lin(v[3], w, k, acc)
            return lin(v[4], w, -k, acc)
        if op == 'shl' and v[4][0] == 'c':
            return lin(v[3], w, k << v[4][1], acc)
        if op == 'mul' and v[4][0] == 'c':
            return lin(v[3], w, k * v[4][1], acc)
    acc[v] = acc.get(v, 0) + k
    return acc


def unlin(acc, w):
    """canonical term of a linear form"""
    m = (1 << w) - 1
    c = acc.get(None, 0) & m
    pos, negs = [], []
    for a, k in acc.items():
        if a is None:
            continue
        k &= m
        if k == 0:
            continue
        k = sgn(k, w)
        (pos if k > 0 else negs).append((a, abs(k)))
    if not pos and not negs:
        return C(c, w)

    def scale(a, k):
        if k == 1:
            return a
        if k & (k - 1) == 0:
            return shl_c(a, k.bit_length() - 1, w)
        return ('e', 'mul', w, a, C(k, w))
    pos.sort(key=_ord)
    negs.sort(key=_ord)
    r = None
    for a, k in pos:
        x = scale(a, k)
        r = x if r is None else ('e', 'add', w, r, x)
    for a, k in negs:
        x = scale(a, k)
        if r is None:
            r = C(c, w)
            c = 0
        r = ('e', 'sub', w, r, x)
    if c:
        r = ('e', 'add', w, r, C(c, w))
    if depth(r) > MAXDEPTH:
        return anon(w)
    return r


def _ord(x):
    return repr(x[0])


def lsub(a, b):
    """canonical a - b"""
    w = width(a)
    acc = lin(a, w)
    lin(b, w, -1, acc)
    return unlin(acc, w)


def sgn(n, w):
    return n - (1 << w) if n >> (w - 1) else n


def binop(op, a, b, w):
    m = (1 << w) - 1
    if a[0] == 'c' and b[0] == 'c':
        x, y = a[1], b[1]
        if op == 'add':
            return C(x + y, w)
        if op == 'sub':
            return C(x - y, w)
        if op == 'mul':
            return C(x * y, w)
        if op == 'and':
            return C(x & y, w)
        if op == 'or':
            return C(x | y, w)
        if op == 'xor':
            return C(x ^ y, w)
        if op == 'shl':
            return C(x << y, w) if y < w else C(0, w)
        if op == 'lshr':
            return C(x >> y, w) if y < w else C(0, w)
        if op == 'ashr':
            return C(sgn(x, w) >> min(y, w - 1), w)
        if op == 'udiv' and y:
            return C(x // y, w)
        if op == 'urem' and y:
            return C(x % y, w)
        if op in ('sdiv', 'srem') and y:
            sx, sy = sgn(x, w), sgn(y, w)
            q = abs(sx) // abs(sy)
            if (sx < 0) != (sy < 0):
                q = -q
            return C(q if op == 'sdiv' else sx - q * sy, w)
        return anon(w)
    if op in ('sdiv', 'srem') and a[0] in 'sebc' and b[0] in 'sebc' and \
            (knownzero(a) >> (w - 1)) & 1 and (knownzero(b) >> (w - 1)) & 1:
        op = 'u' + op[1:]
    if op in ('udiv', 'urem') and b[0] == 'c' and b[1] and a[0] == 'e' and a[1] == 'zext' and b[1] >> width(a[3]) == 0:
        return zext(binop(op, a[3], C(b[1], width(a[3])), width(a[3])), w)
    if op in COMM and (a[0] == 'c' or (b[0] != 'c' and repr(a) > repr(b))):
        a, b = b, a
    bc = b[1] if b[0] == 'c' else None
    # pointers
    if op == 'sub' and a[0] == 'p' and a[1][0] == 'D' and a[1][1] == b:
        return offterm(a[2])
    if op == 'sub' and b[0] == 'p' and b[1][0] == 'D' and b[1][1] == a:
        return neg(offterm(b[2]), w)
    if op in ('add', 'sub') and a[0] == 'p' and b[0] != 'p':
        return padd(a, b if op == 'add' else neg(b, w))
    if op == 'add' and b[0] == 'p' and a[0] != 'p':
        return padd(b, a)
    if op == 'sub' and a[0] == 'p' and b[0] == 'p' and a[1] == b[1]:
        return binop('sub', offterm(a[2]), offterm(b[2]), 64)
    if bc is not None:
        if op == 'ashr' and a[0] == 'e' and a[1] == 'zext' and width(a[3]) < w:
            op = 'lshr'
        if bc == 0 and op in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            return a
        if bc == 0 and op in ('mul', 'and'):
            return C(0, w)
        if bc == m and op == 'and':
            return a
        if bc == 1 and op in ('mul', 'udiv', 'sdiv'):
            return a
        if bc == 1 and op == 'urem':
            return C(0, w)
        if op == 'sub':
            return binop('add', a, C(-bc, w), w)
        if op == 'mul' and bc & (bc - 1) == 0:
            return binop('shl', a, C(bc.bit_length() - 1, w), w)
        if op == 'udiv' and bc & (bc - 1) == 0:
            return binop('lshr', a, C(bc.bit_length() - 1, w), w)
        if op == 'urem' and bc & (bc - 1) == 0:
            return binop('and', a, C(bc - 1, w), w)
        if op == 'and':
            r = const_mask_run(bc, w)
            if r:
                lo, n = r
                x = bits(a, lo, n)
                return shl_c(zext(x, w), lo, w)
            inv = const_mask_run(bc ^ m, w)
            if a[0] == 'b' or (a[0] == 'e' and a[1] in ('or', 'and')) or inv:
                if inv:
                    lo, n = inv
                    ps = []
                    if lo:
                        ps.append((bits(a, 0, lo), lo))
                    ps.append((C(0, n), n))
                    if lo + n < w:
                        ps.append((bits(a, lo + n, w - lo - n), w - lo - n))
                    return cat(ps)
            if a[0] == 'b' and any(x[0] == 'c' for x, k in a[2]):
                ps, pos = [], 0
                while pos < w and len(ps) < 10:
                    bit = (bc >> pos) & 1
                    e = pos
                    while e < w and ((bc >> e) & 1) == bit:
                        e += 1
                    ps.append((bits(a, pos, e - pos) if bit else C(0, e - pos), e - pos))
                    pos = e
                if pos == w:
                    return cat(ps)
        if op == 'or' and a[0] != 'p':
            # split at runs of ones
            ps, pos = [], 0
            x = bc
            cnt = 0
            while pos < w:
                bit = (x >> pos) & 1
                e = pos
                while e < w and ((x >> e) & 1) == bit:
                    e += 1
                ps.append((C(-1, e - pos) if bit else bits(a, pos, e - pos), e - pos))
                pos = e
                cnt += 1
            if cnt <= 9:
                return cat(ps)
        if op == 'lshr':
            if bc >= w:
                return C(0, w)
            return zext(bits(a, bc, w - bc), w)
        if op == 'shl':
            if bc >= w:
                return C(0, w)
            return shl_c(a, bc, w)
        if op == 'xor' and w == 1:
            return lnot(a)
    if a == b and not tainted(a):
        if op in ('sub', 'xor'):
            return C(0, w)
        if op in ('and', 'or'):
            return a
    if op == 'or':
        r = or_disjoint(a, b, w)
        if r is not None:
            return r
    if w == 1:
        if op == 'and':
            if a[0] == 'c':
                return b if a[1] else FALSE
            if b[0] == 'c':
                return a if b[1] else FALSE
        if op == 'or':
            if a[0] == 'c':
                return TRUE if a[1] else b
            if b[0] == 'c':
                return TRUE if b[1] else a
    if op in ('add', 'sub') and a[0] != 'p' and b[0] != 'p' and a[0] != 'F' and b[0] != 'F':
        if tainted(a) and tainted(b):
            return anon(w)
        acc = lin(a, w)
        lin(b, w, 1 if op == 'add' else -1, acc)
        return unlin(acc, w)
    r = ('e', op, w, a, b)
    if depth(r) > MAXDEPTH:
        return anon(w)
    return r


def shl_c(a, k, w):
    if k == 0:
        return a
    if a[0] == 'c':
        return C(a[1] << k, w)
    if a[0] == 'e' and a[1] == 'zext' and width(a[3]) + k <= w:
        iw = width(a[3])
        ps = [(C(0, k), k), (a[3], iw)]
        if iw + k < w:
            ps.append((C(0, w - iw - k), w - iw - k))
        return cat(ps)
    r = ('e', 'shl', w, a, C(k, w))
    if depth(r) > MAXDEPTH:
        return anon(w)
    return r


def knownzero(v):
    """bit mask of bits known to be zero"""
    w = width(v)
    m = (1 << w) - 1
    if v[0] == 'c':
        return m ^ v[1]
    if v[0] == 'b':
        r, pos = 0, 0
        for p, n in v[2]:
            r |= knownzero(p) << pos
            pos += n
        return r
    if v[0] == 'e':
        if v[1] == 'zext':
            iw = width(v[3])
            return (m ^ ((1 << iw) - 1)) | knownzero(v[3])
        if v[1] == 'shl' and v[4][0] == 'c':
            k = v[4][1]
            return ((knownzero(v[3]) << k) & m) | ((1 << k) - 1)
        if v[1] == 'and' and v[4][0] == 'c':
            return knownzero(v[3]) | (m ^ v[4][1])
        if v[1] == 'select':
            return knownzero(v[4]) & knownzero(v[5])
        if v[1] in ('or', 'xor'):
            return knownzero(v[3]) & knownzero(v[4])
    return 0


def or_disjoint(a, b, w):
    za, zb = knownzero(a), knownzero(b)
    m = (1 << w) - 1
    if (za | zb) != m or (za == 0 and zb == 0):
        return None
    ps, pos, cnt = [], 0, 0
    while pos < w:
        fa = (za >> pos) & 1
        e = pos
        while e < w and ((za >> e) & 1) == fa:
            e += 1
        ps.append((bits(b if fa else a, pos, e - pos), e - pos))
        pos = e
        cnt += 1
        if cnt > 9:
            return None
    return cat(ps)


def neg(v, w):
    return binop('sub', C(0, w), v, w)


def offterm(o):
    return C(o, 64) if isinstance(o, int) else o


def padd(p, t):
    o = p[2]
    if t[0] == 'c':
        n = sgn(t[1], 64)
        if isinstance(o, int):
            return ('p', p[1], o + n)
        return ('p', p[1], binop('add', o, t, 64))
    return ('p', p[1], binop('add', offterm(o), t, 64) if o != 0 else t)


def lnot(v):
    if v[0] == 'c':
        return C(1 - v[1], 1)
    if v[0] == 'e' and v[1] == 'icmp':
        return ('e', 'icmp', 1, NEGP[v[3]], v[4], v[5])
    if v[0] == 'e' and v[1] == 'not':
        return v[3]
    return ('e', 'not', 1, v)


NEGP = {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt',
        'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt'}
SWAP = {'eq': 'eq', 'ne': 'ne', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule',
        'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle'}


def cmp_const(p, x, y, w):
    if p[0] == 's':
        x, y = sgn(x, w), sgn(y, w)
    return {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[
        p if p in ('eq', 'ne') else p[1:]]


def pred_set(p, c, w):
    """values x of w bits with  x p c"""
    m = (1 << w) - 1
    h = 1 << (w - 1)
    if p == 'eq':
        return ((c, c),)
    if p == 'ne':
        return compl(((c, c),), w)
    if p == 'ult':
        return ((0, c - 1),) if c else ()
    if p == 'ule':
        return ((0, c),)
    if p == 'ugt':
        return ((c + 1, m),) if c < m else ()
    if p == 'uge':
        return ((c, m),)
    # signed: map through bias
    b = c ^ h
    if p == 'slt':
        s = ((0, b - 1),) if b else ()
    elif p == 'sle':
        s = ((0, b),)
    elif p == 'sgt':
        s = ((b + 1, m),) if b < m else ()
    else:
        s = ((b, m),)
    return shift_map(s, h, w) if s else ()


def select(c, a, b):
    if c[0] == 'c':
        return a if c[1] else b
    if a == b:
        return a
    w = width(a)
    if w == 1 and a[0] == 'c' and b[0] == 'c':
        return c if a[1] else lnot(c)
    if w == 1:
        if b == FALSE:
            return ('e', 'and', 1, c, a) if depth(a) < MAXDEPTH and depth(c) < MAXDEPTH else anon(1)
        if a == TRUE:
            return ('e', 'or', 1, c, b) if depth(b) < MAXDEPTH and depth(c) < MAXDEPTH else anon(1)
    r = ('e', 'select', w, c, a, b)
    if depth(r) > MAXDEPTH:
        return anon(w)
    return r


def icmp(p, a, b):
    w = width(a)
    if a[0] == 'c' and b[0] != 'c':
        a, b, p = b, a, SWAP[p]
    if a[0] == 'c' and b[0] == 'c':
        return C(cmp_const(p, a[1], b[1], w), 1)
    if a == b and not tainted(a):
        return C(p in ('eq', 'ule', 'uge', 'sle', 'sge'), 1)
    if a[0] == 'F' or b[0] == 'F':
        if a[0] == 'F' and (b[0] == 'F' or (b[0] == 'c' and b[1] == 0)):
            if p == 'eq':
                return FALSE
            if p == 'ne':
                return TRUE
    if a[0] == 'p' and b[0] == 'p' and p in ('eq', 'ne'):
        if a[1] == b[1] and isinstance(a[2], int) and isinstance(b[2], int):
            return C((a[2] == b[2]) == (p == 'eq'), 1)
        if a[1] != b[1] and (a[1][0] in 'GA' and b[1][0] in 'GA'):
            return C(p == 'ne', 1)
    if b[0] == 'c':
        c = b[1]
        if a[0] == 'e':
            if a[1] == 'zext':
                x = a[3]
                iw = width(x)
                if c < (1 << iw):
                    if p[0] == 's' and iw < w:
                        p = 'u' + p[1:]
                        return icmp(p, x, C(c, iw))
                    if p[0] != 's':
                        return icmp(p, x, C(c, iw))
                else:
                    s = pred_set(p, c, w)
                    f = full(iw)
                    r = inter(f, s)
                    if r == f:
                        return TRUE
                    if not r:
                        return FALSE
            if a[1] == 'sext' and p in ('eq', 'ne'):
                x = a[3]
                iw = width(x)
                if sext(C(c, iw), w) == b:
                    return icmp(p, x, C(c, iw))
                return C(p == 'ne', 1)
            if a[1] == 'sext' and p[0] == 's':
                x = a[3]
                iw = width(x)
                if sext(C(c, iw), w) == b:
                    return icmp(p, x, C(c, iw))
            if a[1] == 'select' and a[4][0] == 'c' and a[5][0] == 'c':
                x, y = cmp_const(p, a[4][1], c, w), cmp_const(p, a[5][1], c, w)
                if x and y:
                    return TRUE
                if not x and not y:
                    return FALSE
                return a[3] if x else lnot(a[3])
            if a[1] == 'add' and a[4][0] == 'c' and p in ('eq', 'ne'):
                return icmp(p, a[3], C(c - a[4][1], w))
            if a[1] == 'xor' and p in ('eq', 'ne') and c == 0:
                return icmp(p, a[3], a[4])
            if a[1] == 'sub' and p in ('eq', 'ne') and c == 0:
                return icmp(p, a[3], a[4])
        if a[0] == 'b' and p in ('eq', 'ne'):
            nc = [(v, n) for v, n in a[2]]
            pos, rest = 0, []
            for v, n in nc:
                cv = (c >> pos) & ((1 << n) - 1)
                if v[0] == 'c':
                    if v[1] != cv:
                        return C(p == 'ne', 1)
                else:
                    rest.append((v, cv, n))
                pos += n
            if len(rest) == 1:
                return icmp(p, rest[0][0], C(rest[0][1], rest[0][2]))
        if w == 1:
            if p == 'eq':
                return a if c else lnot(a)
            if p == 'ne':
                return lnot(a) if c else a
    if b[0] != 'c' and w > 1 and a[0] in 'seb' and b[0] in 'seb':
        if p[0] == 's' and (knownzero(a) >> (w - 1)) & 1 and (knownzero(b) >> (w - 1)) & 1:
            p = 'u' + p[1:]
        if p[0] != 's' and a[0] == 'e' and b[0] == 'e' and a[1] == 'zext' and b[1] == 'zext':
            # compare in the narrowest type
            n = max(width(a[3]), width(b[3]))
            if n < w:
                return icmp(p, zext(a[3], n), zext(b[3], n))
    if p in ('eq', 'ne') and repr(a) > repr(b) and b[0] != 'c':
        a, b = b, a
    r = ('e', 'icmp', 1, p, a, b)
    if depth(r) > MAXDEPTH + 2:
        return anon(1)
    return r


def tainted(v):
    """does the term mention a symbol of an earlier loop generation"""
    return _scan(v)


_tc = {}


def _scan(v):
    if v[0] == 's':
        n = v[1]
        return n.__class__ is int and _names[n][0] == 'older'
    if v[0] in ('e', 'b', 'p'):
        r = _tc.get(v)
        if r is None:
            if v[0] == 'e':
                r = any(_scan(a) for a in v[3:] if isinstance(a, tuple))
            elif v[0] == 'b':
                r = any(_scan(p[0]) for p in v[2])
            else:
                r = (isinstance(v[2], tuple) and _scan(v[2])) or (v[1][0] == 'D' and _scan(v[1][1]))
            _tc[v] = r
        return r
    return False


_symc = {}
_none = frozenset()


def symset(v):
    """symbols occurring in v (memoised)"""
    k = v[0]
    if k == 'c' or k == 'F':
        return _none
    r = _symc.get(v)
    if r is None:
        r = frozenset(syms(v, set()))
        _symc[v] = r
    return r


def syms(v, out):
    k = v[0]
    if k == 's':
        out.add(v)
    elif k == 'e':
        for a in v[3:]:
            if isinstance(a, tuple):
                syms(a, out)
    elif k == 'b':
        for p in v[2]:
            syms(p[0], out)
    elif k == 'p':
        if v[1][0] == 'D':
            syms(v[1][1], out)
        if isinstance(v[2], tuple):
            syms(v[2], out)
    return out


def subst(v, mp):
    """replace symbols by terms (mp: sym -> term)"""
    k = v[0]
    if k == 's':
        return mp.get(v, v)
    if k in ('c', 'F'):
        return v
    if k == 'e':
        na = tuple(subst(a, mp) if isinstance(a, tuple) else a for a in v[3:])
        if na == v[3:]:
            return v
        op, w = v[1], v[2]
        if op == 'icmp':
            return icmp(na[0], na[1], na[2])
        if op == 'zext':
            return zext(na[0], w)
        if op == 'sext':
            return sext(na[0], w)
        if op == 'bits':
            return bits(na[0], na[1], w)
        if op == 'select':
            return select(*na)
        if op == 'not':
            return lnot(na[0])
        if op in ('and', 'or', 'xor', 'add', 'sub', 'mul', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'):
            return binop(op, na[0], na[1], w)
        return ('e', op, w) + na
    if k == 'b':
        return cat([(subst(p, mp), n) for p, n in v[2]])
    if k == 'p':
        b = v[1]
        if b[0] == 'D':
            nb = subst(b[1], mp)
            if nb != b[1]:
                if nb[0] == 'p':
                    return padd(nb, offterm(v[2]))
                b = ('D', nb)
        o = subst(v[2], mp) if isinstance(v[2], tuple) else v[2]
        if isinstance(o, tuple) and o[0] == 'c':
            o = sgn(o[1], 64)
        return ('p', b, o)
    return v
