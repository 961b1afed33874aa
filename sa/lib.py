"""Shared plumbing of the checks: anchors, skip policy, verdict and evidence."""
import json
import os
import sys
import time
from . import build, ir, dom
from .dom import C, binop
from .absint import Engine, Monitor, State, Region, AnalysisError, rng
from .summary import Summaries

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get('VERIF_EVIDENCE', VERIF + '/evidence')
T0 = time.time()


class Fields:
    """layout of a struct, taken from the debug information of this tree"""

    def __init__(self, mod, name='rand_data'):
        self.d = mod.distruct(name)
        if not self.d:
            raise AnalysisError('anchor: struct %s not found in the debug information' % name)
        self.name = name
        self.size = mod.distruct_size(name)

    def bits(self, f):
        if f not in self.d:
            raise AnalysisError('anchor: field %s.%s is gone' % (self.name, f))
        return self.d[f][0], self.d[f][1]

    def off(self, f):
        b, n = self.bits(f)
        return b // 8

    def bytes(self, f):
        """byte range touched by f"""
        b, n = self.bits(f)
        return b // 8, (b + n + 7) // 8 - b // 8

    def bitfields(self):
        return tuple((b, n) for b, n, bf, _ in self.d.values() if bf)

    def at(self, off, size=1):
        """fields overlapping [off, off+size)"""
        return [f for f, (b, n, bf, t) in self.d.items() if b < (off + size) * 8 and off * 8 < b + n]


def field_put(E, st, rid, F, f, v):
    """store a constant into a field or bit field"""
    b, n = F.bits(f)
    o, k = b // 8, (b + n + 7) // 8 - b // 8
    lo = b - 8 * o
    if lo or n % 8:
        old = E.read(st, rid, o, k)
        ps = [(dom.bits(old, 0, lo), lo)] if lo else []
        ps.append((C(v, n), n))
        if lo + n < 8 * k:
            ps.append((dom.bits(old, lo + n, 8 * k - lo - n), 8 * k - lo - n))
        E.write(st, rid, o, k, dom.cat(tuple(ps)))
    else:
        E.write(st, rid, o, k, C(v, n))


def field_get(E, st, rid, F, f):
    b, n = F.bits(f)
    o, s = F.bytes(f)
    # read the storage unit that is present
    reg = E.region(st, rid)
    for co, (cs, v) in reg.cells.items():
        if co * 8 <= b and b + n <= (co + cs) * 8:
            return dom.bits(v, b - co * 8, n)
    v = E.read(st, rid, o, s)
    return dom.bits(v, b - o * 8, n)


def zclass(st, v):
    r = rng(st, v)
    if r == ((0, 0),):
        return 0
    if r[0][0] > 0:
        return 1
    return 2


def is_zero(st, v):
    return rng(st, v) == ((0, 0),)


def cclass(st, v):
    """constant or '*' """
    r = rng(st, v)
    if len(r) == 1 and r[0][0] == r[0][1]:
        return r[0][0]
    return '*'


class Policy:
    """which calls are summarised instead of inlined"""

    def __init__(self, mod, calls=(), tracked=None, reads=True, writes=True, always=(), never=(), asm=(), small=40):
        self.S = Summaries(mod)
        self.calls = set(calls)
        self.asm = tuple(asm)
        self.tracked = tracked      # callable(E, st) -> [(rid, off|None, size)]
        self.reads = reads
        self.writes = writes        # inline writers of tracked cells (else they are havocked)
        self.never = set(never)
        self.always = set(always)
        self.small = small
        self.sz = {n: sum(len(b.ins) for b in f.blocks.values()) for n, f in mod.funcs.items()}
        self.loop = {n: bool(f.loops) for n, f in mod.funcs.items()}
        self.skipped = set()

    def interesting_calls(self, fn):
        r = self.S.reach(fn.name)
        if r & self.calls:
            return True
        if self.asm:
            for x in r:
                if x and x.startswith('asm:') and any(a in x for a in self.asm):
                    return True
        return False

    def hit(self, eff, tr):
        for rid, o, s in eff:
            for r2, o2, s2 in tr:
                if rid == r2 and (o is None or o2 is None or (o < o2 + s2 and o2 < o + s)):
                    return True
        return False

    def __call__(self, E, st, fn, av, I):
        if E.summ is None:
            E.summ = self.S
        if fn.name in self.always:
            return False
        if fn.name in self.never:
            self.skipped.add(fn.name)
            return True
        if self.interesting_calls(fn):
            return False
        if self.sz[fn.name] <= self.small and not self.loop[fn.name]:
            return False
        if self.sz[fn.name] <= 80 and not self.S.w[fn.name] and fn.ret.k != 'void':
            return False
        tr = self.tracked(E, st) if self.tracked else ()
        w, anyw = self.S.effects(E, st, self.S.w, fn, av)
        if self.writes and (anyw or self.hit(w, tr)):
            return False
        if self.reads and fn.ret.k != 'void':
            # precision only: a value computed from a tracked cell
            r, _ = self.S.effects(E, st, self.S.r, fn, av)
            if self.hit([x for x in r if x[1] is not None], tr):
                return False
        self.skipped.add(fn.name)
        return True


def sym(name, w=64):
    return ('s', name, w)


def must_reach(mod, calls=(), asm=(), pred=None):
    """functions in which every path from entry to a return performs one of the
    named calls / inline assembler templates / instructions accepted by pred
    (greatest set over the call graph, path insensitive)"""
    calls = set(calls)
    M = set()
    ch = True
    while ch:
        ch = False
        for n, f in mod.funcs.items():
            if n in M:
                continue

            def hit(b):
                for I in b.ins:
                    if I.op in ('call', 'callbr'):
                        c = I.a[0]
                        if c is None:
                            if any(a in I.a[2][0] for a in asm):
                                return True
                        elif c[0] == 'g':
                            t = mod.aliases.get(c[1], c[1])
                            if t in calls or t in M:
                                return True
                    if pred is not None and pred(f, I):
                        return True
                return False
            blk = {b.name for b in f.blocks.values() if hit(b)}
            seen, st = set(), [f.entry.name]
            ok = True
            while st and ok:
                x = st.pop()
                if x in seen or x in blk:
                    continue
                seen.add(x)
                b = f.blocks[x]
                if b.ins and b.ins[-1].op == 'ret':
                    ok = False
                st += b.succ
            if ok and blk:
                M.add(n)
                ch = True
    return M


TIMER_CALLS = {'clock_gettime', 'clock_gettime_nsec_np', 'mach_absolute_time', 'read_real_time',
               'llvm.x86.rdtsc', 'llvm.x86.rdtscp', 'llvm.readcyclecounter', 'ktime_get_ns', 'random_get_entropy'}
TIMER_ASM = ('rdtsc', 'mrs ', 'stckf', 'mftb', 'rdtime')


def timer_must(mod):
    """functions that read a time source on every path (volatile load: the counter thread)"""
    return must_reach(mod, TIMER_CALLS, TIMER_ASM, pred=lambda f, I: I.op == 'load' and I.a[1] and I.ty.n == 64
                      if I.op == 'load' and I.ty.k == 'int' else False)


def may_reach(mod, S, calls=TIMER_CALLS, asm=TIMER_ASM):
    out = set()
    for n in mod.funcs:
        r = S.reach(n)
        if r & set(calls) or any(x and x.startswith('asm:') and any(a in x for a in asm) for x in r):
            out.add(n)
    return out


class Check:
    """collects obligations, violations and coverage; writes the evidence"""

    def __init__(self, pid, tier=None):
        self.pid = pid
        self.tier = tier or os.environ.get('VERIF_TIER', 'quick')
        self.viol = []
        self.cov = {}
        self.functions = set()
        self.callsites = set()
        self.obligations = 0
        self.rules = []
        self.assumptions = []
        self.instances = {}
        self.warn = {}
        self.steps = 0
        self.nested = False

    def rule(self, text):
        self.rules.append(text)

    def assume(self, text):
        if text not in self.assumptions:
            self.assumptions.append(text)

    def count(self, what, n=1):
        self.instances[what] = self.instances.get(what, 0) + n
        self.obligations += n

    def absorb(self, E):
        self.functions |= E.funcs_seen
        self.callsites |= E.sites_seen
        self.steps += E.steps
        for v in E.viol.values():
            self.viol.append(v)
        for k, v in E.warn.items():
            self.warn.setdefault(k, set()).update(v)

    def merge(self, o):
        self.functions |= o.functions
        self.callsites |= o.callsites
        self.steps += o.steps
        self.viol += o.viol
        self.obligations += o.obligations
        for k, v in o.instances.items():
            self.instances[k] = self.instances.get(k, 0) + v
        for k, v in o.warn.items():
            self.warn.setdefault(k, set()).update(v)
        for a in o.assumptions:
            self.assume(a)

    def violation(self, rule, file, line, function, message, path=()):
        self.viol.append(dict(rule=rule, file=file, line=line, function=function, message=message,
                              callstack=[], path=list(path)))

    def borrow(self, pid, *rules):
        """rules of another check that this property rests on as well: their violations count here too"""
        if self.nested:
            return
        import importlib
        o = Check(pid, self.tier)
        o.nested = True
        try:
            importlib.import_module('checks.' + pid.lower()).check(o)
        except AnalysisError as e:
            self.assume('the rules of %s are not judged here: %s' % (pid, e))
            return
        o.viol = [v for v in o.viol if v['rule'] in rules]
        self.rule('rules of %s this property rests on: %s' % (pid, ', '.join(rules)))
        self.merge(o)

    def need(self, what, n=1):
        """a rule that matched nothing has decided nothing"""
        if self.instances.get(what, 0) < n and not self.viol:
            raise AnalysisError('no instance of "%s" was found in the analysed tree' % what)

    def finish(self):
        pid = self.pid
        os.makedirs(EVID, exist_ok=True)
        known = load_known()
        out, supp = [], []
        seen = set()
        for v in self.viol:
            ident = '%s|%s|%s' % (v['rule'], v['function'], v['file'].replace('/repo/', ''))
            k = (ident, v['line'])
            if k in seen:
                continue
            seen.add(k)
            if (pid, ident) in known:
                supp.append((ident, known[(pid, ident)]))
            else:
                out.append(v)
        ev = dict(property=pid, tier=self.tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1),
                  level='other',
                  coverage=dict(rules=self.rules, obligations=self.obligations, instances=self.instances,
                                functions=sorted(self.functions), n_functions=len(self.functions),
                                n_callsites=len(self.callsites), abstract_steps=self.steps,
                                known_findings=[s[0] for s in supp],
                                warnings={k: sorted(v) for k, v in self.warn.items()}, **self.cov),
                  assumptions=self.assumptions, wall_s=round(time.time() - T0, 2), violations=len(out))
        with open('%s/%s.json' % (EVID, pid), 'w') as f:
            json.dump(ev, f, indent=1)
        for ident, text in supp:
            print('KNOWN-FINDING: property=%s %s' % (pid, text))
        if out:
            rp = '%s/%s.violation.json' % (EVID, pid)
            with open(rp, 'w') as f:
                json.dump(out, f, indent=1)
            for v in out:
                print('%s:%d: in %s: [%s] %s' % (v['file'], v['line'], v['function'], v['rule'], v['message']))
                for p in v['path'][-14:]:
                    print('    via %s' % p)
            print('VIOLATION property=%s replay=%s' % (pid, rp))
            return 1
        print('OK property=%s obligations=%d functions=%d steps=%d wall=%.1fs' % (
            pid, self.obligations, len(self.functions), self.steps, time.time() - T0))
        return 0


def pmap(c, items, f, jobs=8, collect=False):
    """run f(c', item) for every item in forked workers and merge what they found into c"""
    import multiprocessing as mp
    ctx = mp.get_context('fork')
    items = list(items)

    def work(i, q):
        sys.setrecursionlimit(200000)
        try:
            c2 = Check(c.pid, c.tier)
            f(c2, items[i])
            q.put((i, None, c2))
        except AnalysisError as e:
            q.put((i, 'A' + str(e), None))
        except BaseException as e:
            import traceback
            q.put((i, 'X' + repr(e) + traceback.format_exc(), None))

    q = ctx.Queue()
    run, todo, res = {}, list(range(len(items))), {}
    import threading
    threading.stack_size(256 << 20)

    def start(i):
        def tgt():
            t = threading.Thread(target=work, args=(i, q))
            t.start()
            t.join()
        p = ctx.Process(target=tgt)
        p.start()
        run[i] = p
    while todo or run:
        while todo and len(run) < jobs:
            start(todo.pop(0))
        import queue
        try:
            i, err, c2 = q.get(timeout=5)
        except queue.Empty:
            for i, p in run.items():
                if not p.is_alive() and q.empty():
                    raise AnalysisError('worker %d died' % i)
            continue
        run.pop(i).join()
        if err:
            for p in run.values():
                p.kill()
            if err[0] == 'A':
                raise AnalysisError(err[1:])
            raise RuntimeError(err[1:])
        res[i] = c2
    if collect:
        return [res[i] for i in range(len(items))]
    for i in sorted(res):
        c.merge(res[i])


def load_known():
    """known_findings.txt: lines 'finding: property=<id> <rule|function|file> :: <text>'"""
    out = {}
    try:
        for L in open(VERIF + '/known_findings.txt'):
            if L.startswith('finding: property='):
                rest = L[len('finding: property='):].strip()
                pid, rest = rest.split(' ', 1)
                ident, text = rest.split(' :: ', 1)
                out[(pid, ident.strip())] = text.strip()
    except FileNotFoundError:
        pass
    return out


def call_sites(mod):
    """(function -> functions that call it directly, functions whose address is used otherwise)"""
    callers, taken = {}, set()

    def gs(v, out):
        if isinstance(v, tuple):
            if len(v) == 2 and v[0] == 'g' and isinstance(v[1], str):
                out.add(mod.aliases.get(v[1], v[1]))
            else:
                for x in v:
                    gs(x, out)
        elif isinstance(v, list):
            for x in v:
                gs(x, out)
    for n, fn in mod.funcs.items():
        for b in fn.blocks.values():
            for I in b.ins:
                o = set()
                if I.op in ('call', 'callbr', 'invoke') and I.a[0] is not None and I.a[0][0] == 'g':
                    callers.setdefault(mod.aliases.get(I.a[0][1], I.a[0][1]), set()).add(n)
                    gs(list(I.a[1:]), o)
                else:
                    gs(list(I.a), o)
                taken |= {x for x in o if x in mod.funcs}
    for g in mod.globals.values():
        o = set()
        gs(g.init, o)
        taken |= {x for x in o if x in mod.funcs}
    return callers, taken


def api(mod):
    """functions of the public header"""
    import re
    txt = open(build.REPO + '/jitterentropy.h').read()
    return {n for n in re.findall(r'\b(jent_\w+)\s*\(', txt) if n in mod.funcs}


def modular(c, jobs, mods, runner):
    """runner(c, (configuration, function), inline) for every job; what a function of the library does wrong for arbitrary
    arguments counts only if nobody but known callers can call it and it is wrong there as well"""
    site = {k: call_sites(m) for k, m in mods.items()}
    pub = {k: api(m) for k, m in mods.items()}
    inline = {k: set() for k in mods}
    done = {}
    todo = list(jobs)
    for rnd in range(6):
        bad = []

        def work(c2, j):
            runner(c2, j, frozenset(inline[j[0]] - {j[1]}))
        res = pmap(c, todo, work, collect=True)
        for j, r in zip(todo, res):
            done[j] = r
        nxt = set()
        for j in todo:
            if not done[j].viol:
                continue
            callers, taken = site[j[0]]
            if rnd == 5 or j[1] in pub[j[0]] or j[1] in taken or not callers.get(j[1]) or j[1] in callers[j[1]]:
                continue
            inline[j[0]].add(j[1])
            done[j].viol = []
            nxt |= {(j[0], x) for x in callers[j[1]]}
        for j in list(nxt):
            # the callers of a function that is itself inlined
            if j[1] in inline[j[0]]:
                nxt.discard(j)
                nxt |= {(j[0], x) for x in site[j[0]][0].get(j[1], ()) if x not in inline[j[0]]}
        if not nxt:
            break
        todo = sorted(nxt)
    for r in done.values():
        c.merge(r)
