"""bus width adapters: b16_b40, b16_b64, b64_b32 and the pixel unpacker b64_b32_2"""
from nmigen import *
from b16_b40 import B16B40
from b16_b64 import B16B64
from b64_b32 import B64B32
from b64_b32_2 import B64B32_2


def build(h, cfg):
    m = h.mod
    cls, ni, no = dict(b16_b40=(B16B40, 2, 5), b16_b64=(B16B64, 2, 8), b64_b32=(B64B32, 8, 4), b64_b32_2=(B64B32_2, 8, 3))[cfg["mod"]]
    m.submodules.dut = d = cls()
    data = h.drive(d.data_in, "data")
    valid = h.drive(d.valid_in, "valid")
    busy = h.drive(d.i_busy, "busy")
    if cfg["mod"] == "b16_b64":
        h.drive(d.end_in, "end")
    used = 6 if cfg["mod"] == "b64_b32_2" else ni      # bytes of each input that reach the output
    if cfg.get("core_reset"):         # the camera encoders reset the core clock domain after every frame
        import clk_domains
        h.drive(clk_domains.CORE.rst, "core_rst")
    h.assume(~h.first() | ~valid)                      # not in the very first cycle after reset
    take = h.wire(valid & ~d.o_busy)
    hold = h.wire(h.past(valid & d.o_busy))
    h.assume(~hold | (valid & (data == h.past(data))))
    give = h.wire(d.valid_out & ~busy)
    # pend: accepted bytes not yet emitted.  The unpacker captures the FIFO head one cycle before popping
    # it, so there a word counts from the moment it is offered.
    fifo = cfg["mod"] == "b64_b32_2"
    W = 8
    pend = h.reg(W)
    if fifo:
        arrive = h.wire(valid & (~h.past(valid) | h.past(take)))
    else:
        arrive = take
    h.setsync(pend.eq(pend + Mux(arrive, used, 0) - Mux(give, no, 0)))
    trk = h.inp("track")
    toff = h.inp("toff", 3)
    on = h.reg(1); was = h.reg(1); pos = h.reg(W); val = h.reg(8)
    start = h.wire(trk & arrive & ~was & (toff < used))
    byte = h.choose_sig(toff, [data[8 * (ni - 1 - i):8 * (ni - i)] for i in range(ni)], 8)
    with m.If(start):
        h.setsync(on.eq(1), was.eq(1), val.eq(byte), pos.eq(pend - Mux(give, no, 0) + toff))
    with m.Elif(on & give):
        h.setsync(on.eq(pos >= no), pos.eq(pos - no))
    got = h.choose_sig(pos, [d.data_out[8 * (no - 1 - i):8 * (no - i)] for i in range(no)], 8)
    h.bad("byte", on & give & (pos < no) & (got != val))
    h.bad("underflow", d.valid_out & (pend < no))
    h.bad("stable", h.past(d.valid_out & busy) & (~d.valid_out | (d.data_out != h.past(d.data_out))))
    h.stuck("stuck_out", (pend >= no) & ~busy & ~d.valid_out, 6)
    h.stuck("stuck_in", valid & d.o_busy & ~busy, 10)
    if fifo:        # every offered word is consumed exactly once
        taken = h.reg(6); offered = h.reg(6)
        h.setsync(taken.eq(taken + take), offered.eq(offered + arrive))
        h.bad("pop_twice", take & ~valid)
        # everything of a popped word has been captured: outstanding popped bytes appear later
        h.bad("pop_early", h.wire(take & (h.past(arrive) == 0) & (offered == taken)))
    h.cover("out", give & h.past(was) & (pend >= 2 * no if not fifo else pend >= no))
    h.watch("data", d.data_out); h.watch("valid", d.valid_out); h.watch("obusy", d.o_busy); h.watch("pend", pend)
