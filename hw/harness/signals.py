"""new-row / end-of-frame flags"""
from nmigen import *
import constraints
from signals import Signals


def build(h, cfg):
    m = h.mod
    ps = cfg["pixels_per_cycle"]
    m.submodules.dut = d = Signals(cfg, constraints.Constraints())
    new = h.drive(d.new_input, "new")
    if cfg.get("wh"):
        w, hh = [Const(x, 16) for x in cfg["wh"]]
    else:
        w, hh = h.rigid("width", 16), h.rigid("height", 16)
        wg = h.rigid("wg", 16)
        h.assume((w == h.wire(wg * ps, 20)) & (hh >= 1))
        h.assume((wg >= 3) | ((wg == 2) & (hh >= 2)))
    m.d.comb += [d.width.eq(w), d.height.eq(hh)]
    # reference: samples left in this row, rows left in the frame (this one included)
    left_r, rows_r = h.reg(16, "left"), h.reg(16, "rows")
    rowstart, framestart = h.reg(1, "rowstart", 1), h.reg(1, "framestart", 1)
    done = h.reg(1, "done")
    left = h.wire(Mux(framestart, w, left_r), 16)
    rows = h.wire(Mux(framestart, hh, rows_r), 16)
    lastcol = h.wire(left == ps)
    lastrow = h.wire(rows == 1)
    with m.If(new & ~done):
        h.setsync(framestart.eq(0), rowstart.eq(lastcol), left_r.eq(Mux(lastcol, w, left - ps)),
                  rows_r.eq(Mux(lastcol, rows - 1, rows)), done.eq(lastcol & lastrow))
    h.bad("new_row", ~done & (d.new_row != rowstart))
    h.bad("end_of_frame", d.end_of_frame != (done | (lastcol & lastrow)))
    h.cover("frame", done & h.past(~new) & h.past(h.past(new)))
    h.watch("nr", d.new_row); h.watch("eof", d.end_of_frame)
