"""same-component left prediction, first-of-previous-row at row starts"""
from nmigen import *
import constraints


def build(h, cfg):
    m = h.mod
    bd, ps = cfg["bit_depth"], cfg["pixels_per_cycle"]
    c = dict(cfg, predictor_function=1, num_of_components=4)
    if ps == 4:
        from predictor_p1_c4_px4 import PredictorP1C4Px4 as P
    else:
        from predictor_p1_c4_pix1_2 import PredictorP1C4Pix12 as P
    m.submodules.dut = d = P(c, constraints.Constraints())
    pix = [h.drive(d.pixels_in[i], "pix%d" % i) for i in range(ps)]
    nr = h.drive(d.new_row, "new_row")
    valid = h.drive(d.valid_in, "valid")
    end = h.drive(d.end_in, "end")
    gb = 4 // ps
    # position of the next group inside the row, modulo one group of four components
    ph = h.reg(3, "phase")
    infirst = h.reg(1, "infirst")
    started = h.reg(1, "started")
    h.assume(~valid | started | nr)
    h.assume(~valid | ~nr | (ph == 0))          # rows are multiples of four samples
    isfirst = h.wire(Mux(nr, 1, infirst & (ph != 0)))
    h.setsync(started.eq(started | valid))
    with m.If(valid):
        h.setsync(ph.eq(Mux(ph == gb - 1, 0, ph + 1)), infirst.eq(isfirst))
    half = 1 << (bd - 1)
    left = [h.reg(bd, "left", half) for _ in range(4)]
    top = [h.reg(bd, "top", half) for _ in range(4)]
    exp = []
    for i in range(ps):
        l = h.choose_sig(ph, [left[g * ps + i] for g in range(gb)], bd)
        t = h.choose_sig(ph, [top[g * ps + i] for g in range(gb)], bd)
        exp.append(h.wire(Mux(isfirst, t, l), bd))
        for g in range(gb):
            with m.If(valid & (ph == g)):
                h.setsync(left[g * ps + i].eq(pix[i]))
                with m.If(isfirst):
                    h.setsync(top[g * ps + i].eq(pix[i]))
    hit, st = h.follow(valid, d.valid_out, pix + exp + [end])
    for i in range(ps):
        h.bad("sample%d" % i, hit & (d.pixels_out[i] != st[i]))
        h.bad("predic%d" % i, hit & (d.predics_out[i] != st[ps + i]))
    h.bad("end", hit & (d.end_out != st[-1]))
    h.bad("late", h.cnt > 1)
    h.stuck("lost", (h.cnt != 0) & ~d.valid_out, 2)
    rows = h.reg(3, "rows")
    h.setsync(rows.eq(Mux(valid & nr & (rows != 7), rows + 1, rows)))
    h.cover("row2", hit & (rows == 2) & (st[ps] != half) & ~h.past(h.past(valid)))
    h.watch("pred", d.predics_out[0]); h.watch("v", d.valid_out)
