"""C18: the usage counters of an instance count exactly the successful reads and the bytes they delivered"""
from .rd import *


class Account(Read):
    def start(self, E, st):
        F, EC = self.F, self.EC
        self.inv0, self.by0 = sym('inv0'), sym('bytes0')
        E.write(st, EC, F.off('read_invocations'), 8, self.inv0)
        E.write(st, EC, F.off('bytes_output'), 8, self.by0)
        st.mon['_keep'] += (self.inv0, self.by0)

    def returned(self, E, st, ret, I):
        if is_zero(st, self.ec):
            return
        F, EC = self.F, self.EC
        inv = field_get(E, st, EC, F, 'read_invocations')
        by = field_get(E, st, EC, F, 'bytes_output')
        r = rng(st, ret)
        ok = r[-1][1] <= SSIZE_MAX
        bad = r[0][0] > SSIZE_MAX
        if not ok and not bad:
            raise AnalysisError('outcome of the read is not decided at the return')
        if ok:
            self.c.count('successful returns')
            if not eqv(st, inv, dom.binop('add', self.inv0, C(1, 64), 64)):
                E.violation('invocations', I, 'a successful read does not add exactly one to the invocation counter', st)
            if not eqv(st, by, dom.binop('add', self.by0, self.pos(E, st), 64)):
                E.violation('bytes', I, 'a successful read does not add exactly the delivered bytes to the byte '
                            'counter', st)
        else:
            self.c.count('failed returns')
            if not eqv(st, inv, self.inv0) or not eqv(st, by, self.by0):
                E.violation('failed', I, 'a failed read changes the usage counters', st)


def check(c):
    c.rule('symbolic counter values at every return of jent_read_entropy against the ghost count of delivered bytes; '
           'no other function than the read and the reallocation writes the counters (write footprints)')
    for cfg in ('default', 'notimer'):
        run(c, cfg, Account, extra=('read_invocations', 'bytes_output'))
    c.need('successful returns')
    c.need('failed returns')
