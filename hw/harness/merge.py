"""concatenation of the codes of one cycle"""
from nmigen import *
import constraints
from merge import Merge


def build(h, cfg):
    m = h.mod
    bd, ps = cfg["bit_depth"], cfg["pixels_per_cycle"]
    sw = min(16 + bd, 31)
    m.submodules.dut = d = Merge(cfg, constraints.Constraints())
    enc = [h.drive(d.encs_in[i], "enc%d" % i) for i in range(ps)]
    ctr = [h.drive(d.encs_in_ctr[i], "ctr%d" % i) for i in range(ps)]
    valid = h.drive(d.valid_in, "valid")
    end = h.drive(d.end_in, "end")
    for e, c in zip(enc, ctr):
        h.assume((c <= sw) & ((e >> c) == 0))
    offs, tot = [], Const(0, 9)
    for c in reversed(ctr):
        offs.append(h.wire(tot, 9))
        tot = h.wire(tot + c, 9)
    offs = offs[::-1]
    hit, st = h.follow(valid, d.valid_out, [tot, end] + enc + ctr + offs)
    rt, re = st[:2]
    se, sc, so = st[2:2 + ps], st[2 + ps:2 + 2 * ps], st[2 + 2 * ps:]
    b = h.inp("bit", 5)
    for i in range(ps):
        h.bad("bit%d" % i, hit & (b < sc[i]) & (h.bit(d.enc_out, h.wire(so[i] + b, 9)) != h.bit(se[i], b)))
    x = h.inp("above", 9)
    h.bad("above", hit & (x >= rt) & (x < sw * ps) & h.bit(d.enc_out, x))
    h.bad("count", hit & (d.enc_out_ctr != rt))
    h.bad("end", hit & (d.end_out != re))
    # fixed latency: one result every cycle, `lat` cycles after its input
    v = valid
    lat = (ps - 1).bit_length()
    h.bad("late", h.cnt > lat)
    h.stuck("lost", (h.cnt != 0) & ~d.valid_out, lat + 1)
    h.cover("out", hit & re & (rt > ps * 4) & h.past(d.valid_out))
    h.watch("out", d.enc_out); h.watch("n", d.enc_out_ctr); h.watch("v", d.valid_out)
