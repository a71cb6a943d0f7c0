"""markers: start / end / forced-end framing"""
from nmigen import *
from markers import Markers


def build(h, cfg):
    m = h.mod
    m.submodules.dut = d = Markers()
    data = h.drive(d.data_in, "data")
    valid = h.drive(d.valid_in, "valid")
    end = h.drive(d.end_in, "end")
    force = h.drive(d.force_end_in, "force")
    busy = h.drive(d.i_busy, "busy")
    accepted_end = h.reg(1)
    take = h.wire(valid & ~d.o_busy & ~accepted_end)
    # upstream holds a word until it is taken, and keeps offering end afterwards
    hold = h.wire(h.past(valid & d.o_busy))
    h.assume(~hold | (valid & (data == h.past(data)) & (end == h.past(end))))
    h.assume(valid | ~end | accepted_end)
    h.assume(~h.past(force) | force)            # the forced end stays until reset
    h.setsync(accepted_end.eq(accepted_end | (take & end)))
    forced = h.reg(1)                           # force seen in an earlier cycle or now
    h.setsync(forced.eq(forced | force))
    seen = h.reg(1)
    h.setsync(seen.eq(seen | valid))
    give0 = h.wire(d.valid_out & ~busy)
    done = h.reg(1)
    live = h.wire(~done)
    give = h.wire(give0 & live)
    # expected framing
    k = h.reg(5)            # start-marker words transferred
    e = h.reg(5)            # end-marker words transferred
    startp = h.wire(k != 8)
    # payload words are passed through combinationally: the word on the output is payload iff
    # a word is accepted in the same cycle or some accepted word is still outstanding
    pay = h.wire(give & ~startp)
    cnt = h.reg(6)
    payload = h.wire(pay & ((cnt != 0) | take))
    endm = h.wire(pay & ~payload)
    h.setsync(cnt.eq(cnt + take - payload), k.eq(k + (give & startp)), e.eq(e + endm))
    trk = h.inp("track")
    on = h.reg(1); was = h.reg(1); ahead = h.reg(6); val = h.reg(16)
    start = h.wire(trk & take & ~was)
    now = h.wire(start & payload & (cnt == 0))
    with m.If(start & ~now):
        h.setsync(on.eq(1), was.eq(1), ahead.eq(cnt - payload), val.eq(data))
    with m.Elif(now):
        h.setsync(was.eq(1))
    with m.Elif(on & payload):
        h.setsync(ahead.eq(ahead - 1), on.eq(ahead != 0))
    h.bad("payload", (on & payload & (ahead == 0) & (d.data_out != val)) | (now & (d.data_out != data)))
    h.bad("start", give & startp & ((d.data_out != 0xFFFF) | take))
    h.bad("invent", live & d.valid_out & ~seen & ~valid)
    # end marker: normal only after the word flagged end, forced only if forced without it
    h.bad("endmark", endm & (d.data_out != Mux(accepted_end, 0xFFFF, 0xFFFE)))
    h.bad("early", endm & ~accepted_end & ~forced & ~force)
    h.bad("end_out", (give & (d.end_out != (endm & (e == 7)))) | (live & d.end_out & ~d.valid_out))
    h.bad("mixed", take & (e != 0))             # nothing accepted once the end marker started
    h.setsync(done.eq(done | (give & d.end_out)))
    h.stuck("stuck_start", (seen | valid) & (k != 8) & ~busy & ~d.valid_out, 3)
    h.stuck("stuck_pay", ~startp & valid & ~accepted_end & ~forced & ~busy & d.o_busy & ~done, 3)
    h.stuck("stuck_end", ~startp & (accepted_end | forced) & ~busy & ~d.valid_out & ~done, 3)
    h.cover("normal", give & d.end_out & accepted_end & was & ~on)
    h.cover("forced", give & d.end_out & ~accepted_end & was & ~on)
    h.watch("data", d.data_out); h.watch("valid", d.valid_out); h.watch("obusy", d.o_busy); h.watch("end", d.end_out)
