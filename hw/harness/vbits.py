"""vbits_to_cbits: packing of variable-length words into a fixed-width stream"""
from nmigen import *
import constraints
from vbits_to_cbits import VBitsToCBits


def build(h, cfg):
    m = h.mod
    ob, cb, bs = cfg["out_bits"], cfg["converter"], cfg["vbits_to_cbits_buffer_size"]
    m.submodules.dut = d = VBitsToCBits(cfg, constraints.Constraints())
    enc = h.drive(d.enc_in, "enc")
    if "lens" in cfg:          # lengths drawn from a fixed set
        sel_ = h.inp("lensel", 1 if len(cfg["lens"]) == 2 else 2)
        ctr = h.choose(sel_, cfg["lens"], len(d.enc_in_ctr))
        m.d.comb += d.enc_in_ctr.eq(ctr)
    else:
        ctr = h.drive(d.enc_in_ctr, "ctr")
    end = h.drive(d.in_end, "end")
    valid = h.drive(d.valid_in, "valid")
    busy = h.drive(d.busy_in, "busy")
    # FIFO-side contract: head stays until popped; value fits its length
    ended = h.reg(1)
    hold = h.wire(h.past(valid & ~d.latch_input))
    h.assume(~hold | (valid & (enc == h.past(enc)) & (ctr == h.past(ctr)) & (end == h.past(end))))
    h.assume(~valid | ((ctr >= 1) & (ctr <= cb) & ((enc >> ctr) == 0) & ~ended))
    h.assume(valid | ~end)
    take = h.wire(valid & d.latch_input)
    h.sync_ = None
    h.setsync(ended.eq(ended | (take & end)))
    # bit accounting relative to the output: pend = bits accepted and not yet emitted
    W = 12
    pend = h.reg(W)
    give = h.wire(d.valid_out & ~busy)
    done = h.reg(1)
    h.setsync(done.eq(done | (give & d.end_out)))
    live = h.wire(~done)
    outn = h.wire(Mux(pend < ob, pend, ob), W)
    h.setsync(pend.eq(pend + Mux(take, ctr, 0) - Mux(give, outn, 0)))
    # track one arbitrary bit
    trk = h.inp("track")
    toff = h.inp("toff", (cb + ob - 1).bit_length())
    on = h.reg(1); pos = h.reg(W); val = h.reg(1); was = h.reg(1); ispad = h.reg(1)
    start = h.wire(trk & take & ~was & ((toff < ctr) | (end & (toff < ctr + ob))))
    bit = h.bit(enc, h.wire(ctr - 1 - toff, 6))      # offset counted from the first (most significant) bit
    with m.If(start):
        h.setsync(on.eq(1), was.eq(1), val.eq(bit & (toff < ctr)), ispad.eq(toff >= ctr),
                  pos.eq(pend - Mux(give, outn, 0) + toff))
    with m.Elif(on & give):
        with m.If(pos < ob):
            h.setsync(on.eq(0))
        with m.Else():
            h.setsync(pos.eq(pos - ob))
    sel = h.bit(d.data_out, h.wire(ob - 1 - pos, 6))
    wrong = h.wire(live & on & give & (pos < ob) & (sel != val))
    h.bad("bit", wrong & ~ispad)
    h.bad("padding", wrong & ispad)      # the unused bits of the last word are zero
    # no invention of bits; short words only at the very end, zero padded
    h.bad("underflow", live & d.valid_out & ((pend == 0) | ((pend < ob) & ~ended)))
    h.bad("end", live & give & (d.end_out != (ended & (pend <= ob))))
    # held output is stable under backpressure
    h.bad("stable", h.past(d.valid_out & busy) & (~d.valid_out | (d.data_out != h.past(d.data_out)) | (d.end_out != h.past(d.end_out))))
    # progress: with data pending and receiver ready, output within K cycles
    K = cfg.get("K", 8)
    stall = h.reg(5)
    work = h.wire((pend >= ob) | (ended & (pend != 0)))
    h.setsync(stall.eq(Mux(work & ~busy & ~d.valid_out & live, Mux(stall == 31, 31, stall + 1), 0)))
    h.bad("stuck_out", stall > K)
    st2 = h.reg(5)
    h.setsync(st2.eq(Mux(valid & ~d.latch_input & (pend + ctr <= bs) & ~busy, Mux(st2 == 31, 31, st2 + 1), 0)))
    h.bad("stuck_in", st2 > K)
    h.cover("end", give & d.end_out & (h.past(was)) )
    h.cover("full", valid & ~d.latch_input & (pend > bs - ob))
    h.watch("data", d.data_out); h.watch("valid", d.valid_out); h.watch("latch", d.latch_input); h.watch("pend", pend)
