"""Parser for textual LLVM IR (clang/LLVM 18) - the program representation every
check in /verif inspects.  Only the syntax clang emits for C is supported; an
instruction that cannot be parsed raises, it is never skipped silently."""
import re

TOK = re.compile(r'''
   c?"(?:[^"\\]|\\.)*"
 | %"[^"]*" | @"[^"]*"
 | %[-\w.$]+ | @[-\w.$]+ | ![-\w.$]* | \#\d+
 | 0x[0-9A-Fa-f]+ | -?\d+\.\d+(?:e[-+]?\d+)? | -?\d+
 | \.\.\. | [A-Za-z_][\w.]*
 | <\{ | \}>
 | [\[\](){}<>,=*:]
''', re.X)


class ParseError(Exception):
    pass


# ----------------------------------------------------------------- types ----
class Ty:
    __slots__ = ('k', 'n', 'el', 'name', 'packed', '_sz', '_al', '_offs')

    def __init__(self, k, n=0, el=None, name=None, packed=False):
        self.k, self.n, self.el, self.name, self.packed = k, n, el, name, packed
        self._sz = self._al = self._offs = None

    def __repr__(self):
        if self.k == 'int':
            return 'i%d' % self.n
        if self.k == 'array':
            return '[%d x %r]' % (self.n, self.el)
        if self.k == 'named':
            return '%' + self.name
        if self.k == 'struct':
            return '{%s}' % ', '.join(map(repr, self.el))
        return self.k


PTR = Ty('ptr')
VOID = Ty('void')
_INTS = {}


def INT(n):
    if n not in _INTS:
        _INTS[n] = Ty('int', n)
    return _INTS[n]


class Instr:
    __slots__ = ('op', 'res', 'ty', 'a', 'dbg', 'fn', 'blk', 'idx', 'uid', 'text')

    def __repr__(self):
        return '<%s %s>' % (self.fn.name if self.fn else '?', self.text)


class Block:
    __slots__ = ('name', 'ins', 'succ', 'preds', 'rpo', 'phis', 'body', 'dead')


class Func:
    def __init__(self, name):
        self.name = name
        self.params = []      # [(type, regname)]
        self.ret = None
        self.blocks = {}
        self.order = []
        self.entry = None
        self.dbg = None
        self.linkage = ''
        self.mod = None
        self.vararg = False


class Glob:
    __slots__ = ('name', 'ty', 'init', 'const', 'linkage', 'tls', 'dbg')


class Module:
    def __init__(self):
        self.types = {}
        self.globals = {}
        self.funcs = {}
        self.decls = set()
        self.md = {}
        self.aliases = {}
        self._loc = {}

    # ---- layout -------------------------------------------------------
    def resolve(self, t):
        while t.k == 'named':
            t = self.types[t.name]
        return t

    def align(self, t):
        t = self.resolve(t)
        if t._al is None:
            if t.k == 'int':
                b = (t.n + 7) // 8
                a = 1
                while a < b and a < 16:
                    a *= 2
                t._al = a
            elif t.k == 'ptr':
                t._al = 8
            elif t.k in ('array', 'vector'):
                t._al = self.align(t.el)
            elif t.k == 'struct':
                t._al = 1 if t.packed else max([1] + [self.align(e) for e in t.el])
            elif t.k == 'double':
                t._al = 8
            elif t.k == 'float':
                t._al = 4
            elif t.k == 'x86_fp80' or t.k == 'fp128':
                t._al = 16
            else:
                t._al = 1
        return t._al

    def size(self, t):
        t = self.resolve(t)
        if t._sz is None:
            if t.k == 'int':
                a = self.align(t)
                b = (t.n + 7) // 8
                t._sz = (b + a - 1) // a * a
            elif t.k == 'ptr':
                t._sz = 8
            elif t.k in ('array', 'vector'):
                t._sz = t.n * self.size(t.el)
            elif t.k == 'struct':
                offs, o = [], 0
                for e in t.el:
                    a = 1 if t.packed else self.align(e)
                    o = (o + a - 1) // a * a
                    offs.append(o)
                    o += self.size(e)
                a = self.align(t)
                t._sz = (o + a - 1) // a * a
                t._offs = offs
            elif t.k == 'double':
                t._sz = 8
            elif t.k == 'float':
                t._sz = 4
            elif t.k in ('x86_fp80', 'fp128'):
                t._sz = 16
            else:
                t._sz = 0
        return t._sz

    def field_off(self, t, i):
        t = self.resolve(t)
        self.size(t)
        return t._offs[i]

    # ---- debug locations ------------------------------------------------
    def loc(self, dbg):
        """-> (file, line, function) of a !dbg id"""
        if dbg is None:
            return ('?', 0, '?')
        if dbg in self._loc:
            return self._loc[dbg]
        m = self.md.get(dbg, '')
        line = int((re.search(r'line: (\d+)', m) or [0, 0])[1])
        sc = re.search(r'scope: !(\d+)', m)
        f, fn = '?', '?'
        sid = sc and sc[1]
        seen = 0
        while sid and seen < 50:
            s = self.md.get(sid, '')
            seen += 1
            if 'DISubprogram' in s:
                fn = (re.search(r'name: "([^"]*)"', s) or [0, '?'])[1]
                fm = re.search(r'file: !(\d+)', s)
                if fm:
                    f = self.difile(fm[1])
                break
            fm = re.search(r'file: !(\d+)', s)
            if fm and f == '?':
                f = self.difile(fm[1])
            nx = re.search(r'scope: !(\d+)', s)
            sid = nx and nx[1]
        self._loc[dbg] = (f, line, fn)
        return self._loc[dbg]

    def difile(self, i):
        m = self.md.get(i, '')
        n = re.search(r'filename: "([^"]*)"', m)
        d = re.search(r'directory: "([^"]*)"', m)
        n = n[1] if n else '?'
        if not n.startswith('/') and d:
            n = d[1] + '/' + n
        import os
        return os.path.normpath(n)

    # ---- DWARF struct layout ---------------------------------------------
    def distruct(self, name):
        """fields of struct `name`: {field: (bitoff, bitsize, is_bitfield, typestr)}"""
        out = None
        for i, m in self.md.items():
            if 'DICompositeType(tag: DW_TAG_structure_type' in m and 'name: "%s"' % name in m:
                e = re.search(r'elements: !(\d+)', m)
                if not e:
                    continue
                out = {}
                for x in re.findall(r'!(\d+)', self.md[e[1]]):
                    mm = self.md[x]
                    if 'DW_TAG_member' not in mm:
                        continue
                    nm = re.search(r'name: "([^"]*)"', mm)
                    if not nm:
                        continue
                    off = re.search(r' offset: (\d+)', mm)
                    sz = re.search(r' size: (\d+)', mm)
                    bt = re.search(r'baseType: !(\d+)', mm)
                    out[nm[1]] = (int(off[1]) if off else 0, int(sz[1]) if sz else 0,
                                  'DIFlagBitField' in mm, self.ditype(bt[1]) if bt else '?')
                return out
        return out

    def ditype(self, i, depth=0):
        m = self.md.get(i, '')
        if depth > 8:
            return '?'
        nm = re.search(r'name: "([^"]*)"', m)
        if 'DW_TAG_pointer_type' in m:
            b = re.search(r'baseType: !(\d+)', m)
            return (self.ditype(b[1], depth + 1) if b else 'void') + '*'
        if nm:
            return nm[1]
        b = re.search(r'baseType: !(\d+)', m)
        if 'DW_TAG_array_type' in m:
            return (self.ditype(b[1], depth + 1) if b else '?') + '[]'
        q = 'volatile ' if 'volatile' in m else ''
        return q + (self.ditype(b[1], depth + 1) if b else '?')

    def fparams(self, fn):
        """types of the parameters of a function, from the debug information; None if unknown"""
        m = self.md.get(fn.dbg or '', '')
        t = re.search(r' type: !(\d+)', m)
        if not t:
            return None
        t = re.search(r'types: !(\d+)', self.md.get(t[1], ''))
        if not t:
            return None
        ids = re.findall(r'(null|!\d+)', self.md[t[1]].split('!{', 1)[-1])
        return [self.ditype(x[1:]) if x != 'null' else 'void' for x in ids[1:]]

    def distruct_size(self, name):
        for i, m in self.md.items():
            if 'DICompositeType(tag: DW_TAG_structure_type' in m and 'name: "%s"' % name in m:
                s = re.search(r' size: (\d+)', m)
                if s:
                    return int(s[1]) // 8
        return None

    def dienum(self, name):
        for i, m in self.md.items():
            if 'DW_TAG_enumeration_type' in m and 'name: "%s"' % name in m:
                e = re.search(r'elements: !(\d+)', m)
                out = {}
                for x in re.findall(r'!(\d+)', self.md[e[1]]):
                    mm = self.md[x]
                    nm = re.search(r'name: "([^"]*)", value: (-?\d+)', mm)
                    if nm:
                        out[nm[1]] = int(nm[2])
                return out
        return None


# ---------------------------------------------------------------- parsing ---
class P:
    """token cursor"""
    __slots__ = ('t', 'i', 'm')

    def __init__(self, toks, mod):
        self.t, self.i, self.m = toks, 0, mod

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        v = self.t[self.i]
        self.i += 1
        return v

    def accept(self, s):
        if self.peek() == s:
            self.i += 1
            return True
        return False

    def expect(self, s):
        if self.next() != s:
            raise ParseError('expected %s in %s' % (s, ' '.join(self.t)))

    def type(self):
        v = self.next()
        if v == 'ptr':
            t = PTR
            if self.peek() == 'addrspace':
                self.next(); self.expect('('); self.next(); self.expect(')')
        elif v[0] == 'i' and v[1:].isdigit():
            t = INT(int(v[1:]))
        elif v in ('void',):
            t = VOID
        elif v in ('float', 'double', 'x86_fp80', 'fp128', 'half', 'label', 'metadata', 'token', 'opaque'):
            t = Ty(v)
        elif v == '[' or v == '<':
            n = int(self.next()); self.expect('x')
            e = self.type()
            self.expect(']' if v == '[' else '>')
            t = Ty('array' if v == '[' else 'vector', n, e)
        elif v == '{' or v == '<{':
            els = []
            close = '}' if v == '{' else '}>'
            while not self.accept(close):
                els.append(self.type())
                self.accept(',')
            t = Ty('struct', el=els, packed=(v == '<{'))
        elif v[0] == '%':
            t = Ty('named', name=v[1:].strip('"'))
        else:
            raise ParseError('type? %s in %s' % (v, ' '.join(self.t[:60])))
        while self.peek() == '*':
            self.next(); t = PTR
        # function type
        if self.peek() == '(' and t.k != 'label':
            # lookahead: function type only in call context "T (args) @f("
            j, d = self.i, 0
            while True:
                if self.t[j] == '(':
                    d += 1
                elif self.t[j] == ')':
                    d -= 1
                    if d == 0:
                        break
                j += 1
            nxt = self.t[j + 1] if j + 1 < len(self.t) else ''
            if nxt and (nxt[0] in '@%' or nxt == 'asm' or nxt == '*'):
                self.i = j + 1
        return t

    def value(self, ty):
        v = self.next()
        c = v[0]
        if c == '%':
            return ('r', v[1:].strip('"'))
        if c == '@':
            return ('g', v[1:].strip('"'))
        if v in ('null',):
            return ('c', 0)
        if v == 'true':
            return ('c', 1)
        if v == 'false':
            return ('c', 0)
        if v in ('undef', 'poison'):
            return ('u',)
        if v == 'none':
            return ('u',)
        if v == 'zeroinitializer':
            return ('zero',)
        if c.isdigit() or (c == '-' and len(v) > 1):
            if v.startswith('0x') or '.' in v:
                return ('u',)
            n = int(v)
            if ty is not None and ty.k == 'int':
                n &= (1 << ty.n) - 1
            return ('c', n)
        if v in ('getelementptr',):
            while self.peek() in ('inbounds', 'nuw', 'nusw'):
                self.next()
            if self.peek() == 'inrange':
                self.next()
            self.expect('(')
            st = self.type(); self.expect(',')
            ops = []
            while True:
                while self.peek() == 'inrange':
                    self.next()
                t = self.type(); ops.append((t, self.value(t)))
                if not self.accept(','):
                    break
            self.expect(')')
            return ('ce', 'gep', st, ops)
        if v in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
            self.expect('(')
            t = self.type(); x = self.value(t); self.expect('to')
            t2 = self.type(); self.expect(')')
            return ('ce', v, t, x, t2)
        if v in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            while self.peek() in ('nuw', 'nsw', 'exact'):
                self.next()
            self.expect('(')
            t = self.type(); x = self.value(t); self.expect(',')
            t2 = self.type(); y = self.value(t2); self.expect(')')
            return ('ce', 'bin', v, t, x, y)
        if v == 'icmp' or v == 'select':
            d = 0
            while True:
                w = self.next()
                if w == '(':
                    d += 1
                if w == ')':
                    d -= 1
                    if d == 0:
                        break
            return ('u',)
        if v in ('dso_local_equivalent', 'no_cfi'):
            return ('g', self.next()[1:].strip('"'))
        if v == 'blockaddress':
            self.expect('(')
            while self.next() != ')':
                pass
            return ('u',)
        if c == 'c' and v[1:2] == '"':
            s = v[2:-1]
            b = bytearray()
            i = 0
            while i < len(s):
                if s[i] == '\\':
                    b.append(int(s[i + 1:i + 3], 16)); i += 3
                else:
                    b += s[i].encode(); i += 1
            return ('str', bytes(b))
        if c == '[' or c == '{' or v == '<{' or c == '<':
            close = {'[': ']', '{': '}', '<{': '}>', '<': '>'}[v]
            out = []
            while not self.accept(close):
                t = self.type(); out.append((t, self.value(t)))
                self.accept(',')
            return ('agg', out)
        if v == 'asm':
            return ('u',)
        raise ParseError('value? %s in %s' % (v, ' '.join(self.t[:80])))

    def tv(self):
        t = self.type()
        self.skip_attrs()
        return t, self.value(t)

    ATTR = set('''noundef nonnull signext zeroext inreg nocapture readonly readnone
        writeonly returned noalias nofree nest immarg swiftself inalloca dead_on_unwind writable
        allocalign allocptr'''.split())

    def skip_attrs(self):
        while True:
            p = self.peek()
            if p in self.ATTR:
                self.next()
            elif p in ('align',):
                self.next()
                if self.accept('('):
                    self.next(); self.expect(')')
                else:
                    self.next()
            elif p in ('dereferenceable', 'dereferenceable_or_null', 'sret', 'byval',
                       'elementtype', 'range', 'preallocated', 'byref', 'memory'):
                self.next(); d = 0
                while True:
                    w = self.next()
                    if w == '(':
                        d += 1
                    elif w == ')':
                        d -= 1
                        if d == 0:
                            break
            else:
                return


BINOPS = set('add sub mul udiv sdiv urem srem and or xor shl lshr ashr'.split())
CASTS = set('trunc zext sext ptrtoint inttoptr bitcast addrspacecast'.split())
FLAGS = set('nuw nsw exact disjoint nneg inbounds fast'.split())
CALLFLAGS = set('tail musttail notail fastcc ccc coldcc dso_local signext zeroext'.split())


def parse_instr(line, mod, fn):
    dbg = None
    dm = re.search(r', !dbg !(\d+)', line)
    if dm:
        dbg = dm[1]
    cut = re.search(r', ![a-zA-Z_.]+ !', line)
    core = line[:cut.start()] if cut else line
    toks = TOK.findall(core)
    p = P(toks, mod)
    I = Instr()
    I.res = None
    I.ty = VOID
    I.dbg = dbg
    I.fn = fn
    I.text = core.strip()
    if len(toks) > 2 and toks[1] == '=' and toks[0][0] == '%':
        I.res = toks[0][1:].strip('"')
        p.i = 2
    op = p.next()
    while op in ('tail', 'musttail', 'notail'):
        op = p.next()
    I.op = op
    if op in BINOPS:
        while p.peek() in FLAGS:
            p.next()
        t = p.type(); x = p.value(t); p.expect(','); y = p.value(t)
        I.ty = t
        I.a = (x, y)
    elif op in CASTS:
        while p.peek() in FLAGS:
            p.next()
        t, x = p.tv(); p.expect('to')
        I.ty = p.type()
        I.a = (x, t)
    elif op == 'icmp':
        pred = p.next()
        t = p.type(); x = p.value(t); p.expect(','); y = p.value(t)
        I.ty = INT(1)
        I.a = (pred, t, x, y)
    elif op == 'alloca':
        p.accept('inalloca')
        t = p.type(); n = ('c', 1); nt = INT(32)
        if p.accept(','):
            if p.peek() not in ('align', 'addrspace'):
                nt, n = p.tv()
        I.ty = PTR
        I.a = (t, n)
    elif op == 'load':
        atomic = p.accept('atomic')
        vol = p.accept('volatile')
        t = p.type(); p.expect(','); _, x = p.tv()
        order = None
        while p.peek() and p.peek() != ',':
            w = p.next()
            if w in ('acquire', 'release', 'monotonic', 'seq_cst', 'unordered', 'acq_rel'):
                order = w
        I.ty = t
        I.a = (x, vol, order if atomic else None)
    elif op == 'store':
        atomic = p.accept('atomic')
        vol = p.accept('volatile')
        t, v = p.tv(); p.expect(','); _, x = p.tv()
        order = None
        while p.peek() and p.peek() != ',':
            w = p.next()
            if w in ('acquire', 'release', 'monotonic', 'seq_cst', 'unordered', 'acq_rel'):
                order = w
        I.a = (t, v, x, vol, order if atomic else None)
    elif op == 'getelementptr':
        while p.peek() in FLAGS or p.peek() in ('nusw',):
            p.next()
        st = p.type(); p.expect(',')
        ops = []
        while True:
            ops.append(p.tv())
            if not p.accept(','):
                break
        I.ty = PTR
        I.a = (st, ops)
    elif op == 'phi':
        t = p.type()
        inc = []
        while True:
            p.expect('['); v = p.value(t); p.expect(','); b = p.next()[1:].strip('"'); p.expect(']')
            inc.append((v, b))
            if not p.accept(','):
                break
        I.ty = t
        I.a = inc
    elif op == 'select':
        while p.peek() in FLAGS:
            p.next()
        ct, c = p.tv(); p.expect(','); t, x = p.tv(); p.expect(','); _, y = p.tv()
        I.ty = t
        I.a = (c, x, y)
    elif op == 'br':
        if p.peek() == 'label':
            p.next()
            I.a = (None, p.next()[1:].strip('"'), None)
        else:
            t, c = p.tv(); p.expect(','); p.expect('label'); x = p.next()[1:].strip('"')
            p.expect(','); p.expect('label'); y = p.next()[1:].strip('"')
            I.a = (c, x, y)
    elif op == 'switch':
        t, c = p.tv(); p.expect(','); p.expect('label'); d = p.next()[1:].strip('"')
        cases = []
        p.expect('[')
        while not p.accept(']'):
            ct, cv = p.tv(); p.expect(','); p.expect('label')
            cases.append((cv[1], p.next()[1:].strip('"')))
        I.a = (c, t, cases, d)
    elif op == 'ret':
        if p.peek() == 'void':
            I.a = (None, None)
        else:
            t, v = p.tv()
            I.a = (t, v)
    elif op == 'unreachable':
        I.a = ()
    elif op in ('call', 'callbr', 'invoke'):
        while p.peek() in CALLFLAGS or p.peek() in P.ATTR or p.peek() in ('align', 'range', 'dereferenceable', 'dereferenceable_or_null'):
            if p.peek() in CALLFLAGS:
                p.next()
            else:
                p.skip_attrs()
        rt = p.type()
        callee = None
        asm = None
        if p.peek() == 'asm':
            p.next()
            fl = []
            while p.peek() in ('sideeffect', 'alignstack', 'inteldialect', 'unwind'):
                fl.append(p.next())
            s = p.next(); p.expect(','); cons = p.next()
            asm = (s[1:-1], cons[1:-1], 'sideeffect' in fl)
        else:
            callee = p.value(PTR)
        p.expect('(')
        args = []
        while not p.accept(')'):
            if p.peek() == 'metadata':
                # debug intrinsics
                d = 0
                while True:
                    w = p.peek()
                    if w in ('(',):
                        d += 1
                    if w == ')':
                        if d == 0:
                            break
                        d -= 1
                    if w == ',' and d == 0:
                        break
                    p.next()
                args.append((Ty('metadata'), ('u',)))
            else:
                args.append(p.tv())
            p.accept(',')
        I.ty = rt
        dest = None
        if op == 'callbr':
            while p.peek() != 'to':
                p.next()
            p.next(); p.expect('label'); d = p.next()[1:].strip('"')
            p.expect('['); ind = []
            while not p.accept(']'):
                p.expect('label'); ind.append(p.next()[1:].strip('"')); p.accept(',')
            dest = [d] + ind
        I.a = (callee, args, asm, dest)
    elif op == 'extractvalue':
        t, v = p.tv(); idx = []
        while p.accept(','):
            idx.append(int(p.next()))
        e = t
        for k in idx:
            e = mod.resolve(e)
            e = e.el if e.k == 'array' else e.el[k]
        I.ty = e
        I.a = (v, idx)
    elif op == 'insertvalue':
        t, v = p.tv(); p.expect(','); t2, x = p.tv(); idx = []
        while p.accept(','):
            idx.append(int(p.next()))
        I.ty = t
        I.a = (v, x, idx)
    elif op == 'cmpxchg':
        p.accept('weak'); p.accept('volatile')
        _, x = p.tv(); p.expect(','); t, c = p.tv(); p.expect(','); _, n = p.tv()
        order = p.next()
        if order == 'syncscope':
            order = 'seq_cst'
        I.ty = Ty('struct', el=[t, INT(1)])
        I.a = (x, c, n, t, order)
    elif op == 'atomicrmw':
        p.accept('volatile')
        o = p.next(); _, x = p.tv(); p.expect(','); t, v = p.tv()
        I.ty = t
        I.a = (o, x, v, t, p.next())
    elif op == 'fence':
        I.a = (toks[-1],)
    elif op == 'freeze':
        t, v = p.tv()
        I.ty = t
        I.a = (v,)
    else:
        raise ParseError('unknown instruction: ' + line)
    return I


def parse(text):
    mod = Module()
    lines = text.split('\n')
    i, n = 0, len(lines)
    while i < n:
        L = lines[i]
        if not L or L[0] == ';':
            i += 1
            continue
        c = L[0]
        if c == '!':
            m = re.match(r'!(\d+) = (.*)', L)
            if m:
                mod.md[m[1]] = m[2]
        elif c == '%':
            m = re.match(r'%("?[^" =]+"?) = type (.*)', L)
            nm = m[1].strip('"')
            if m[2] == 'opaque':
                mod.types[nm] = Ty('struct', el=[])
            else:
                mod.types[nm] = P(TOK.findall(m[2]), mod).type()
        elif c == '@':
            m = re.match(r'@("[^"]+"|[-\w.$]+) = (.*)', L)
            nm = m[1].strip('"')
            rest = m[2]
            if re.match(r'[\w ]*\balias ', rest):
                mod.aliases[nm] = re.findall(r'@([-\w.$]+)', rest)[-1]
            else:
                g = Glob()
                g.name = nm
                dm = re.search(r', !dbg !(\d+)', rest)
                g.dbg = dm[1] if dm else None
                km = re.search(r'\b(global|constant)\b', rest)
                g.linkage = rest[:km.start()]
                g.tls = 'thread_local' in g.linkage
                g.const = km[1] == 'constant'
                p = P(TOK.findall(rest[km.end():]), mod)
                g.ty = p.type()
                g.init = None
                if 'external' not in g.linkage or 'extern_weak' in g.linkage:
                    if p.peek() is not None and p.peek() != ',':
                        try:
                            g.init = p.value(g.ty)
                        except ParseError:
                            g.init = ('u',)
                mod.globals[nm] = g
        elif L.startswith('declare'):
            m = re.search(r'@("[^"]+"|[-\w.$]+)\(', L)
            mod.decls.add(m[1].strip('"'))
        elif L.startswith('define'):
            m = re.search(r'@("[^"]+"|[-\w.$]+)\(', L)
            f = Func(m[1].strip('"'))
            f.mod = mod
            f.linkage = 'internal' if re.search(r'\binternal\b', L[:m.start()]) else 'external'
            f.hidden = bool(re.search(r'\bhidden\b', L[:m.start()]))
            dm = re.search(r'!dbg !(\d+)', L)
            f.dbg = dm[1] if dm else None
            toks = TOK.findall(L[m.end():])
            p = P(toks, mod)
            while not p.accept(')'):
                if p.accept('...'):
                    f.vararg = True
                    continue
                t = p.type()
                p.skip_attrs()
                r = p.next()[1:].strip('"')
                f.params.append((t, r))
                p.accept(',')
            # return type: last type before @
            pre = TOK.findall(L[:m.start()])[1:]
            k = 0
            while k < len(pre) and (pre[k] in ('dso_local', 'hidden', 'internal', 'weak', 'weak_odr', 'linkonce_odr', 'available_externally', 'protected', 'signext', 'zeroext', 'noundef', 'private', 'nonnull', 'noalias', 'fastcc')):
                k += 1
            try:
                f.ret = P(pre[k:], mod).type()
            except (ParseError, IndexError):
                f.ret = PTR
            i += 1
            cur = None
            uid = 0
            while lines[i] != '}':
                S = lines[i]
                if not S or S.lstrip().startswith(';'):
                    i += 1
                    continue
                lm = re.match(r'("[^"]+"|[-\w.$]+):', S)
                if lm and S[0] != ' ':
                    cur = Block()
                    cur.name = lm[1].strip('"')
                    cur.ins = []
                    f.blocks[cur.name] = cur
                    f.order.append(cur.name)
                    i += 1
                    continue
                if cur is None:
                    cur = Block()
                    cur.name = '__entry'
                    cur.ins = []
                    f.blocks[cur.name] = cur
                    f.order.append(cur.name)
                if re.match(r'\s+switch ', S) and S.rstrip().endswith('['):
                    while not lines[i].strip().startswith(']'):
                        i += 1
                        S += ' ' + lines[i].strip()
                if S.lstrip().startswith(('to label', ']')) :
                    i += 1
                    continue
                if re.match(r'\s+(%\S+ = )?(callbr|invoke) ', S) and ' to label' not in S:
                    i += 1
                    S += ' ' + lines[i].strip()
                I = parse_instr(S, mod, f)
                I.blk = cur
                I.idx = len(cur.ins)
                I.uid = uid
                uid += 1
                if not (I.op == 'call' and I.a[0] and I.a[0][0] == 'g' and I.a[0][1].startswith('llvm.dbg')):
                    cur.ins.append(I)
                else:
                    uid -= 1
                i += 1
            finish(f)
            mod.funcs[f.name] = f
        i += 1
    return mod


def finish(f):
    f.entry = f.blocks[f.order[0]]
    for b in f.blocks.values():
        b.preds = []
        b.phis = [x for x in b.ins if x.op == 'phi']
        b.body = [x for x in b.ins if x.op != 'phi']
        for k, x in enumerate(b.body):
            x.idx = k
        t = b.ins[-1]
        if t.op == 'br':
            b.succ = [t.a[1]] if t.a[0] is None else [t.a[1], t.a[2]]
        elif t.op == 'switch':
            b.succ = [x for _, x in t.a[2]] + [t.a[3]]
        elif t.op == 'callbr':
            b.succ = list(t.a[3])
        else:
            b.succ = []
    # reachable + RPO
    seen, post = set(), []
    stack = [(f.entry.name, iter(f.entry.succ))]
    seen.add(f.entry.name)
    while stack:
        nm, it = stack[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                stack.append((s, iter(f.blocks[s].succ)))
                break
        else:
            post.append(nm)
            stack.pop()
    f.rpo = post[::-1]
    for k, nm in enumerate(f.rpo):
        f.blocks[nm].rpo = k
    for b in f.blocks.values():
        b.dead = b.name not in seen
        if not b.dead:
            for s in b.succ:
                f.blocks[s].preds.append(b.name)
    # dominators
    idom = {f.rpo[0]: f.rpo[0]}
    ch = True
    pos = {nm: k for k, nm in enumerate(f.rpo)}
    while ch:
        ch = False
        for nm in f.rpo[1:]:
            new = None
            for pr in f.blocks[nm].preds:
                if pr in idom:
                    if new is None:
                        new = pr
                    else:
                        a, b2 = pr, new
                        while a != b2:
                            while pos[a] > pos[b2]:
                                a = idom[a]
                            while pos[b2] > pos[a]:
                                b2 = idom[b2]
                        new = a
            if idom.get(nm) != new:
                idom[nm] = new
                ch = True
    f.idom = idom
    # natural loops (irreducible edges: treated as loop heads as well)
    f.heads = {}
    for nm in f.rpo:
        for s in f.blocks[nm].succ:
            if pos[s] <= pos[nm]:
                f.heads.setdefault(s, set()).add(nm)
    f.loops = {}
    for h, latches in f.heads.items():
        body = {h}
        st = list(latches)
        while st:
            x = st.pop()
            if x in body:
                continue
            body.add(x)
            st.extend(f.blocks[x].preds)
        f.loops[h] = body


def dominates(f, a, b):
    """block a dominates block b"""
    while True:
        if a == b:
            return True
        n = f.idom.get(b)
        if n is None or n == b:
            return False
        b = n
