"""force_end, auto_reset, delayer, debug counters, reverser, constant register file"""
from nmigen import *
import constraints


def build(h, cfg):
    globals()["b_" + cfg["what"]](h, cfg)


def b_force(h, cfg):
    from force_end import ForceEnd
    h.mod.submodules.dut = d = ForceEnd({}, constraints.Constraints())
    v = h.drive(d.valid_in, "valid")
    L = h.rigid("limit", 24)
    h.mod.d.comb += d.allowed_cycles.eq(L)
    run, cyc = h.reg(1, "run"), h.reg(26, "cyc")       # cycles since the first valid input
    over = h.wire(run & (cyc >= L + 3))
    h.setsync(run.eq(run | v), cyc.eq(Mux(run & ~over, cyc + 1, Mux(run, cyc, 1))))
    h.bad("fend", d.fend != over)
    h.cover("fires", d.fend & (L > 3))
    h.watch("fend", d.fend); h.watch("cyc", cyc)


def b_auto(h, cfg):
    """wired as in the camera integrations: the pulse resets the core clock domain, this module included"""
    from auto_reset import AutoReset
    import clk_domains
    h.mod.submodules.dut = d = AutoReset()
    e, a, b = h.drive(d.end_in, "end"), h.drive(d.hs1_in, "valid"), h.drive(d.hs2_in, "ready")
    if cfg["wired"]:
        h.mod.d.comb += clk_domains.CORE.rst.eq(d.reset_out)
    else:
        h.assume(~h.past(h.past(e & a & b)))          # without the reset only the first pulse is defined
    p = h.past(e & a & b & ~d.reset_out)
    h.bad("pulse", (d.reset_out != p) if cfg["wired"] else (~d.reset_out & p) | (d.reset_out & ~p))
    h.cover("twice", p & h.past(h.past(p)) if cfg["wired"] else p)
    h.watch("reset", d.reset_out)


def b_delay(h, cfg):
    from delayer import Delayer
    n = cfg["n"]
    h.mod.submodules.dut = d = Delayer(n)
    i = h.drive(d.in_sig, "in")
    seen = h.reg(8)
    h.setsync(seen.eq(Mux(seen != 0, Mux(seen == 255, 255, seen + 1), i)))
    h.bad("delay", d.out_sig != (seen >= n))
    h.cover("out", d.out_sig & h.past(~i))
    h.watch("out", d.out_sig); h.watch("seen", seen)


def b_debug(h, cfg):
    from debug_module import DebugModule
    h.mod.submodules.dut = d = DebugModule()
    en = h.drive(d.regs_en, "en")
    for k in range(8):
        c = h.reg(32, "cnt")
        h.setsync(c.eq(c + en[k]))
        h.bad("count%d" % k, d.registers[k] != c)
    h.cover("count", (d.registers[7] == 3) & (d.registers[0] == 1))


def b_reverse(h, cfg):
    from reverser import Reverser
    n, sync = cfg["n"], cfg["sync"]
    h.mod.submodules.dut = d = Reverser(n, sync=sync)
    x = h.drive(d.data_in, "data")
    if sync:
        x = h.past(x)
    ok = Const(1, 1)
    for j in range(n):
        ok = ok & (d.data_out[j] == x[n - 1 - j])
    h.bad("reverse", ~h.wire(ok))
    h.cover("mixed", d.data_out[0] & (~d.data_out[n - 1] if n > 1 else 1))


def b_regfile(h, cfg):
    from register_file import RegisterFile
    h.mod.submodules.dut = d = RegisterFile()
    h.inp("unused")
    started = h.reg(1)
    h.setsync(started.eq(1))
    h.bad("const", started & ((d.width != 4096) | (d.height != 3072) | (d.allowed_cycles != 6666000)))
    h.cover("const", started & (d.width == 4096))
