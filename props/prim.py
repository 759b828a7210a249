"""Running VMpr_* primitives on a symbolic Smalltalk stack."""
from .vmlib import *


class Prim:
    """A primitive called with receiver+args on the stack.

    failed(s): the primitive reports failure (Smalltalk fallback code runs)
    top(s):    the object left where the receiver was"""
    def __init__(self, ex, st, name, vals, pid=0):
        self.ex = ex
        self.name = name
        self.vals = vals
        self.n = len(vals)
        self.pid = pid
        self.r, self.off = setup_stack(ex, st, concrete=True)
        push_args(ex, st, self.r, self.off, vals)
        self.base = add64(self.off, (-(self.n - 1) * 8) & M64)   # receiver slot
        self.st0 = None

    def run(self, st):
        self.st0 = st.clone()
        self.ex.start(st, self.name, [self.pid, self.n - 1])
        return self.ex.run(st)

    def failed(self, s):
        return not self.ex.decide(s, eq(s.ret, 0))

    def ok(self, s):
        return not self.failed(s)

    def slot(self, s, i=0):
        return self.ex.read(s, self.r, add64(self.base, i * 8), 8)

    def top(self, s):
        return self.slot(s, 0)

    def sp_is(self, s, i):
        """sp points at receiver slot + i"""
        p = sp_of(self.ex, s)
        return eq(p, Ptr(self.r, add64(self.base, (i * 8) & M64)))

    def succeeded(self, s, what, pops=None):
        """obligations common to success: exactly the arguments are popped and
        nothing below the receiver changes"""
        ex = self.ex
        ex.oblige(s, self.sp_is(s, 0), what + ': replaces receiver and arguments by one result')
        self.below(s, what)

    def unchanged(self, s, what):
        ex = self.ex
        ex.oblige(s, self.sp_is(s, self.n - 1), what + ': failure leaves the stack pointer')
        for i, v in enumerate(self.vals):
            ex.oblige(s, eq(self.slot(s, i), v), what + ': failure leaves receiver and arguments in place')
        self.below(s, what)

    def below(self, s, what):
        ex = self.ex
        m = s.mem.get(self.r.name)
        if not isinstance(m, Cells):
            raise Unsupported('stack accessed at a computed offset')
        for o, (n, v) in sorted(m.d.items()):
            if o < self.base:
                old = ex.read(self.st0, self.r, o, n)
                if old is not v:
                    ex.oblige(s, eq(old, v), what + ': the stack below the receiver is unchanged')

    def frame(self, s, allowed, what):
        al = dict(allowed)
        al[self.r.name] = None
        al['@_gst_sp'] = None
        al['@_gst_primitives_executed'] = None
        frame(self.ex, self.st0, s, al, what)


def is_int_oop(v):
    return (bv(v) & 1) == 1
