"""converter: splitting wide codes into words of at most conv bits"""
from nmigen import *
import constraints
from converter import Converter


def build(h, cfg):
    m = h.mod
    m.submodules.dut = d = Converter(cfg, constraints.Constraints())
    conv = cfg["converter"]
    total = min(16 + cfg["bit_depth"], 31) * cfg["pixels_per_cycle"]
    steps = -(-total // conv)
    enc = h.drive(d.enc_out, "enc")
    if "lens" in cfg:
        sel = h.inp("lensel", (len(cfg["lens"]) - 1).bit_length())
        ctr = h.choose(sel, cfg["lens"], len(d.enc_out_ctr))
        m.d.comb += d.enc_out_ctr.eq(ctr)
    else:
        ctr = h.drive(d.enc_out_ctr, "ctr")
    end = h.drive(d.out_end, "end")
    valid = h.drive(d.valid_out, "valid")
    full = h.drive(d.close_full, "full")
    ended = h.reg(1)
    hold = h.wire(h.past(valid & ~d.latch_output))
    h.assume(~hold | (valid & (enc == h.past(enc)) & (ctr == h.past(ctr)) & (end == h.past(end))))
    h.assume(~valid | ((ctr >= 1) & (ctr <= total) & ((enc >> ctr) == 0) & ~ended))
    h.assume(valid | ~end)
    take = h.wire(valid & d.latch_output)
    h.setsync(ended.eq(ended | (take & end)))
    give = d.valid_in
    n = d.enc_in_ctr
    # reference: queue of accepted codes (lengths, end flag); `used` bits of the head already sent
    cw = len(ctr)
    Q = 4
    ql = [h.reg(cw, "ql") for _ in range(Q)]
    qe = [h.reg(1, "qe") for _ in range(Q)]
    cnt = h.reg(3, "cnt")
    used = h.reg(cw, "used")
    rem = h.wire(ql[0] - used, cw)
    last = h.wire(n == rem)
    pop = h.wire(give & last & (cnt != 0))
    cnt1 = h.wire(cnt - pop, 3)
    nl = [h.wire(Mux(pop, ql[i + 1] if i + 1 < Q else ql[i], ql[i]), cw) for i in range(Q)]
    ne = [h.wire(Mux(pop, qe[i + 1] if i + 1 < Q else qe[i], qe[i])) for i in range(Q)]
    h.setsync(cnt.eq(cnt1 + take), used.eq(Mux(give, Mux(last, 0, used + n), used)))
    for i in range(Q):
        h.setsync(ql[i].eq(Mux(take & (cnt1 == i), ctr, nl[i])), qe[i].eq(Mux(take & (cnt1 == i), end, ne[i])))
    trk = h.inp("track"); toff = h.inp("toff", (total - 1).bit_length())
    on = h.reg(1); was = h.reg(1); val = h.reg(1); ahead = h.reg(3); off = h.reg(len(toff))
    start = h.wire(trk & take & ~was & (toff < ctr))
    b = h.bit(enc, h.wire(ctr - 1 - toff, cw))
    with m.If(start):
        h.setsync(on.eq(1), was.eq(1), val.eq(b), off.eq(toff), ahead.eq(cnt1))
    with m.Elif(on & pop):
        h.setsync(on.eq(ahead != 0), ahead.eq(ahead - 1))
    cur = h.wire(on & give & (ahead == 0))
    inword = h.wire(cur & (off >= used) & (off < h.wire(used + n, cw + 1)))
    h.bad("bit", inword & (h.bit(d.enc_in, h.wire(n - 1 - (off - used), cw)) != val))
    h.bad("size", give & ((n == 0) | (n > conv)))
    h.bad("align", give & ((d.enc_in >> n) != 0))
    h.bad("invent", give & (cnt == 0))
    h.bad("span", give & (cnt != 0) & (n > rem))
    h.bad("deep", cnt > 3)
    h.bad("end", give & (cnt != 0) & (d.in_end != (qe[0] & last)))
    pend = cnt
    # words produced while the downstream FIFO is signalling nearly full
    run = h.reg(6)
    h.setsync(run.eq(Mux(full, Mux(give & (run != 63), run + 1, run), 0)))
    h.bad("slack", full & give & (run + 1 > steps + 2))
    h.stuck("stuck_out", (pend != 0) & ~full & ~give, 4)
    h.stuck("stuck_in", valid & ~d.latch_output & ~full, steps + 5)
    h.cover("end", give & d.in_end & was & h.past(full))
    h.cover("steps", give & h.past(give) & h.past(h.past(give)) & (n == conv))
    h.watch("out", d.enc_in); h.watch("n", n); h.watch("v", give); h.watch("pend", pend); h.watch("latch", d.latch_output)
