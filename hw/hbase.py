"""Harness base (PyPy / nmigen).  A harness instantiates the *real* module from
migen_src, leaves its input ports free (solver variables), attaches a reference
monitor written here, and exposes 1-bit outputs:
   bad_*   must never be 1 while the assumptions held up to and including now
   cover_* must be reachable (vacuity witness)
Monitors refer only to the modules' public ports, never to internal signals."""
from nmigen import *
import clk_domains


class Harness(Elaboratable):
    def __init__(self):
        self.inputs = []          # (name, Signal)
        self.outputs = []         # (name, Signal)
        self.mod = Module()
        self.dom = "full"
        self._assumes = []
        self._bads = []
        self._covers = []
        self._n = 0
        clk_domains.load_clk(self.mod)

    # -- building blocks ------------------------------------------------
    def inp(self, name, width=1):
        s = Signal(width, name="i_" + name)
        self.inputs.append((name, s))
        return s

    def drive(self, port, name):
        """free input driving a port of the module under test"""
        s = self.inp(name, len(port))
        self.mod.d.comb += port.eq(s)
        return s

    def reg(self, width, name="mon", reset=0):
        self._n += 1
        return Signal(width, name="%s_%d" % (name, self._n), reset=reset)

    def wire(self, expr, width=None, name="w"):
        self._n += 1
        s = Signal(width or len(expr), name="%s_%d" % (name, self._n))
        self.mod.d.comb += s.eq(expr)
        return s

    @property
    def sync(self):
        return self.mod.d[self.dom]

    @property
    def comb(self):
        return self.mod.d.comb

    def setsync(self, *stmts):
        self.mod.d[self.dom] += list(stmts)

    def bit(self, vec, idx):
        """vec[idx] (0 when idx is out of range)"""
        return self.wire((self.wire(vec, len(vec)) >> idx)[0:1], 1, "bit")

    def choose(self, sel, values, width):
        """values[sel], last value when sel is out of range"""
        e = Const(values[-1], width)
        for i in reversed(range(len(values) - 1)):
            e = Mux(sel == i, Const(values[i], width), e)
        return self.wire(e, width, "choose")

    def choose_sig(self, sel, sigs, width):
        """sigs[sel], last one when sel is out of range"""
        e = sigs[-1]
        for i in reversed(range(len(sigs) - 1)):
            e = Mux(sel == i, sigs[i], e)
        return self.wire(e, width, "chs")

    def past(self, expr, reset=0):
        r = self.reg(len(expr), "past", reset)
        self.mod.d[self.dom] += r.eq(expr)
        return r

    def rigid(self, name, width):
        """a free constant: latched from an input in the first cycle"""
        i = self.inp(name, width)
        first = self.first()
        r = self.reg(width, "rig_" + name)
        self.mod.d[self.dom] += r.eq(Mux(first, i, r))
        return self.wire(Mux(first, i, r), width)

    def follow(self, push, pop, payload, tag="", depth=8, through=False):
        """Order-preserving queue monitor.  One arbitrary pushed item (input `track`) is
        remembered with its payload and compared when its turn comes at the output.
        Returns (hit, stored payload fields).  Emits bad_invent/bad_lost."""
        trk = self.inp("track" + tag)
        W = 8
        cnt = self.reg(W, "outst")
        on = self.reg(1, "trkon")
        was = self.reg(1, "trkwas")
        ahead = self.reg(W, "ahead")
        push, pop = self.wire(push, 1), self.wire(pop, 1)
        stored = [self.reg(len(p), "trkval") for p in payload]
        start = self.wire(push & trk & ~was)
        self.setsync(cnt.eq(cnt + push - pop))
        if through:
            self.bad("invent" + tag, pop & (cnt == 0) & ~push)
        else:
            self.bad("invent" + tag, pop & (cnt == 0))
        with self.mod.If(start):
            self.setsync(on.eq(1), was.eq(1), ahead.eq(cnt - pop), *[r.eq(p) for r, p in zip(stored, payload)])
        with self.mod.Elif(on & pop):
            self.setsync(ahead.eq(ahead - 1), on.eq(ahead != 0))
        hit = self.wire(on & pop & (ahead == 0))
        self.cnt = cnt
        return hit, stored

    def stuck(self, name, cond, k):
        """bad when cond stays true for more than k consecutive cycles"""
        c = self.reg(8, "stk")
        c_ = self.wire(cond, 1)
        self.setsync(c.eq(Mux(c_, Mux(c == 255, c, c + 1), 0)))
        self.bad(name, c > k)

    def cat(self, *xs):
        return self.wire(Cat(*xs), sum(len(x) for x in xs))

    def first(self):
        if not hasattr(self, "_first"):
            self._first = self.reg(1, "first", 1)
            self.mod.d[self.dom] += self._first.eq(0)
        return self._first

    def assume(self, cond):
        self._assumes.append(self.wire(cond, 1, "asm"))

    def bad(self, name, cond):
        self._bads.append((name, self.wire(cond, 1, "bad")))

    def cover(self, name, cond):
        self._covers.append((name, self.wire(cond, 1, "cov")))

    def watch(self, name, sig):
        """extra observable recorded in replay traces"""
        o = Signal(len(sig), name="o_" + name)
        self.mod.d.comb += o.eq(sig)
        self.outputs.append(("w_" + name, o))

    # -- finish ------------------------------------------------------------
    def finish(self):
        m = self.mod
        now = Signal(1, name="assume_now")
        past = Signal(1, reset=1, name="assume_past")
        e = Const(1, 1)
        for a in self._assumes:
            e = e & a
        ok = Signal(1, name="assume_ok")
        m.d.comb += [now.eq(e), ok.eq(now & past)]
        m.d[self.dom] += past.eq(ok)
        for pre, lst in (("bad_", self._bads), ("cover_", self._covers)):
            for name, c in lst:
                o = Signal(1, name=pre + name)
                m.d.comb += o.eq(c & ok)
                self.outputs.append((pre + name, o))
        o = Signal(1, name="ok_out")
        m.d.comb += o.eq(ok)
        self.outputs.append(("ok", o))

    def elaborate(self, platform):
        return self.mod
