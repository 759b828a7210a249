"""Running the real bytecode interpreter function on symbolic state.

The code region holds the bytecodes under contract followed by a send bytecode:
the send is where the interpreter publishes its instruction and stack pointers
(EXPORT_REGS), so effects are judged at the message send that follows."""
from .vmlib import *

TABLES = ('normal', 'true', 'false', 'monitored')
CODE0 = 1 << 20


class Interp:
    def __init__(self, ex, st, stack, code, ntemps=0, self_oop=None, temps=None, literals=None):
        """stack: values, last = top.  code: bytes (int or BV8), placed at ip."""
        self.ex = ex
        for t in TABLES:
            ex.frozen.add('@_gst_interpret.%s_byte_codes' % t)
        self.vals = stack
        self.r, self.off = setup_stack(ex, st, concrete=True)
        push_args(ex, st, self.r, self.off, stack)
        self.code_r = ex.region('code', None, ex.byte_init('code'))
        self.code = list(code)
        for i, b in enumerate(self.code):
            if b is not None:
                ex.write(st, self.code_r, CODE0 + i, 1, b)
        self.setg(st, '_gst_ip', Ptr(self.code_r, CODE0))
        self.self_oop = self_oop if self_oop is not None else ex.fresh('self')
        self.setg(st, '_gst_self', self.self_oop)
        if temps is None:
            # temporaries lie below the operands of the same context
            self.temp_r = ex.region('temps', None, ex.word_init('temps', 8))
            self.setg(st, '_gst_temporaries', Ptr(self.temp_r, 0))
        else:
            self.setg(st, '_gst_temporaries', temps)
        if literals is None:
            self.lit_r = ex.region('literals', None, ex.word_init('literals', 8))
            literals = Ptr(self.lit_r, 0)
        self.setg(st, '_gst_literals', literals)
        self.nsel = {}
        self.nil, self.true, self.false = set_builtins(ex, st)
        for g, n in (('async_queue_enabled', 4), ('time_to_preempt', 4), ('_gst_execution_tracing', 4),
                     ('_gst_abort_execution', 8)):
            if '@' + g in ex.mods[0].globals:
                self.setg(st, g, 0, n)
        self.setg(st, 'switch_to_process', self.nil)
        self.proc = ex.fresh('process')
        ex.contracts['push_jmp_buf'] = lambda e, s, a: None
        ex.contracts['_setjmp'] = lambda e, s, a: 0
        ex.contracts['__sigsetjmp'] = lambda e, s, a: 0
        ex.contracts['is_process_terminating'] = lambda e, s, a: 0
        ex.used_trusted.add('interpreter entered with no pending asynchronous call-in, process switch, tracing or abort')
        self.outs = []


    def setg(self, st, name, v, n=8):
        self.ex.write(st, self.ex.global_region('@' + name, st), 0, n, v)

    def getg(self, st, name, n=8):
        return self.ex.read(st, self.ex.global_region('@' + name, st), 0, n)

    def run(self, st):
        ex = self.ex
        self.st0 = st.clone()
        ex.start(st, '_gst_interpret', [self.proc])
        ex.max_steps = 400000

        def stop(s, ins):
            if ins.op == 'call':
                callee = ins.a[1]
                if callee[0] == 'g' and callee[1] in ('@_gst_send_message_internal', '@_gst_send_method'):
                    fr = s.frames[-1]
                    vals = [ex.operand(s, fr, at, av) for at, av in ins.a[2]]
                    s.ghost = dict(s.ghost)
                    s.ghost['sent'] = (callee[1][1:], vals)
                    return True
            return False
        return ex.run(st, stop=stop)

    def set_numargs(self, st, n, k):
        g = self.ex.global_region('@_gst_builtin_selectors', st)
        es = g.size // 256
        mod = g.info['mod']
        off = mod.field_off(('named', '%struct.builtin_selector'), 2)[0]
        self.ex.write(st, g, n * es + off, 4, k)

    def selector(self, s, n):
        g = self.ex.global_region('@_gst_builtin_selectors', s)
        es = g.size // 256
        return self.ex.read(s, g, n * es + 8, 8)

    # observations at a send
    def sent(self, s):
        return s.ghost.get('sent')

    def ip(self, s):
        return self.getg(s, '_gst_ip')

    def ip_at(self, s, k):
        return eq(self.ip(s), Ptr(self.code_r, CODE0 + k))

    def sp_at(self, s, d):
        """sp is d slots above where it was"""
        return eq(self.getg(s, '_gst_sp'), Ptr(self.r, add64(self.off, (8 * d) & M64)))

    def slot(self, s, d):
        return self.ex.read(s, self.r, add64(self.off, (8 * d) & M64), 8)

    def stack_frame(self, s, d, what):
        """slots at offset <= d (from the old top) are unchanged"""
        ex = self.ex
        m = s.mem.get(self.r.name)
        if not isinstance(m, Cells):
            raise Unsupported('stack accessed at a computed offset')
        for o, (n, v) in sorted(m.d.items()):
            if o <= self.off + 8 * d:
                old = ex.read(self.st0, self.r, o, n)
                if old is v:
                    continue
                ex.oblige(s, eq(old, v), what + ': the rest of the stack is unchanged')


BUILTIN_OFF = [None, None, None]


def builtin_oop(ex, st, name):
    k = {'_gst_nil_oop': 0, '_gst_true_oop': 1, '_gst_false_oop': 2}[name]
    return simp(bv(ot_base(ex, st, ex.mods[0])) + BUILTIN_OFF[k] * 16)


def set_builtins(ex, st):
    """the global variables hold nil, true and false"""
    r = []
    for n in ('_gst_nil_oop', '_gst_true_oop', '_gst_false_oop'):
        v = builtin_oop(ex, st, n)
        ex.write(st, ex.global_region('@' + n, st), 0, 8, v)
        r.append(v)
    ex.assume(st, z3.And(z3.UGT(bv(r[0]), 1 << 20), z3.ULT(bv(r[0]), 1 << 47), (bv(r[0]) & 15) == 0))
    return r
