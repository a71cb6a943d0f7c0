"""fix_0xff -> fix_0xff2: byte stuffing of the packed stream"""
from nmigen import *
from fix_0xff import Fix0xFF
from fix_0xff2 import Fix0xFF2


def build(h, cfg):
    m = h.mod
    m.submodules.f1 = a = Fix0xFF()
    m.submodules.f2 = b = Fix0xFF2()
    data = h.drive(a.data_in, "data")
    valid = h.drive(a.valid_in, "valid")
    end = h.drive(a.end_in, "end")
    busy = h.drive(b.i_busy, "busy")
    m.d.comb += [b.data_in.eq(a.data_out), b.data_in_ctr.eq(a.data_out_ctr), b.valid_in.eq(a.valid_out),
                 b.end_in.eq(a.end_out), a.i_busy.eq(b.o_busy)]
    ended = h.reg(1)
    take = h.wire(valid & ~a.o_busy & ~ended)
    h.setsync(ended.eq(ended | (take & end)))
    # the bit packer holds a word until it is taken; after its last word it keeps offering end
    hold = h.wire(h.past(valid & a.o_busy))
    h.assume(~hold | (valid & (data == h.past(data)) & (end == h.past(end))))
    h.assume(valid | ~end | ended)
    h.assume(~ended | end)
    hi, lo = h.wire(data[8:16]), h.wire(data[0:8])
    fh, fl = h.wire(hi == 0xFF), h.wire(lo == 0xFF)
    n = h.wire(2 + fh + fl, 3)
    W = 8
    pend = h.reg(W)
    give0 = h.wire(b.valid_out & ~busy)
    done = h.reg(1)
    live = h.wire(~done)
    give = h.wire(give0 & live)
    h.setsync(done.eq(done | (give & b.end_out)))
    outn = h.wire(Mux(pend < 2, pend, 2), W)
    h.setsync(pend.eq(pend + Mux(take, n, 0) - Mux(give, outn, 0)))
    # track one arbitrary byte of the expected (stuffed) stream, or the padding byte after the last one
    trk = h.inp("track")
    toff = h.inp("toff", 3)
    on = h.reg(1); was = h.reg(1); pos = h.reg(W); val = h.reg(8)
    pad = h.wire(end & (toff == n))
    start = h.wire(trk & take & ~was & ((toff < n) | pad))
    # expected byte number toff of this word
    exp = h.wire(Mux(toff == 0, hi, Mux(fh, Mux(toff == 1, 0, Mux(toff == 2, lo, 0)), Mux(toff == 1, lo, 0))), 8)
    with m.If(start):
        h.setsync(on.eq(1), was.eq(1), val.eq(exp), pos.eq(pend - Mux(give, outn, 0) + toff))
    with m.Elif(on & give):
        h.setsync(on.eq(pos >= 2), pos.eq(pos - 2))
    got = h.wire(Mux(pos == 0, b.data_out[8:16], b.data_out[0:8]), 8)
    h.bad("byte", on & give & (pos < 2) & (got != val))
    h.bad("underflow", live & b.valid_out & ((pend == 0) | ((pend < 2) & ~ended)))
    h.bad("end", give & (b.end_out != (ended & (pend <= 2))))
    h.bad("stable", live & h.past(b.valid_out & busy) & (~b.valid_out | (b.data_out != h.past(b.data_out)) | (b.end_out != h.past(b.end_out))))
    h.stuck("stuck_out", ((pend >= 2) | (ended & (pend != 0))) & ~busy & ~b.valid_out & live, 6)
    h.stuck("stuck_in", valid & a.o_busy & ~ended & ~busy, 6)
    h.cover("end", give & b.end_out & h.past(was))
    h.cover("stuffed", give & (b.data_out == 0xFF00) & h.past(pend > 5))
    h.watch("data", b.data_out); h.watch("valid", b.valid_out); h.watch("obusy", a.o_busy); h.watch("pend", pend)
