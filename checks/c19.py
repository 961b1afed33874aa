"""C19: a successful read fills exactly the requested bytes, and no read writes outside them"""
from .rd import *


class Exact(Read):
    def start(self, E, st):
        pass

    def limit(self, st):
        """number of bytes the caller allows"""
        return self.len

    def written(self, E, st, off, n, p, I):
        if not eqv(st, off, p):
            E.violation('contiguous', I, 'output is not written right behind the bytes delivered so far', st)
        if not le(st, dom.binop('add', off, n, 64), self.len):
            # pos + n <= len
            rest = dom.lsub(self.len, p)
            if not le(st, n, rest):
                E.violation('bounds', I, 'the write may reach beyond the length given by the caller', st)
        hi = dom.hull(rng(st, n))[1]
        if hi > 32:
            E.violation('block', I, 'more than one 256 bit block (%d bytes) is written at once' % hi, st)

    def returned(self, E, st, ret, I):
        r = rng(st, ret)
        if r[-1][0] > SSIZE_MAX and len(r) == 1:
            return
        if r[-1][1] > SSIZE_MAX:
            E.violation('sign', I, 'the returned length may be negative', st)
            return
        self.c.count('successful returns')
        p = self.pos(E, st)
        if not eqv(st, p, ret):
            E.violation('length', I, 'the returned length differs from the number of bytes written', st)
        if not eqv(st, ret, self.len):
            # only the clamp to the signed maximum may shorten a request
            lo = dom.hull(rng(st, self.len))[0]
            if not (r == ((SSIZE_MAX, SSIZE_MAX),) and lo >= SSIZE_MAX):
                E.violation('length', I, 'a successful read may return less than the requested length', st)


def check(c):
    c.rule('ghost counter of the bytes written to the caller buffer, related to buffer offset, remaining length and '
           'return value by linear loop invariants; holds for every length and number of iterations')
    for cfg in ('default', 'notimer'):
        run(c, cfg, Exact)
    c.need('writes into the caller buffer')
    c.need('successful returns')
