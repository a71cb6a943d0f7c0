"""FIFO wrappers: order, content, nearly-full slack, burst indicators"""
from nmigen import *
import constraints


def build(h, cfg):
    globals()["b_" + cfg["what"]](h, cfg)


def b_pipe(h, cfg):
    from lj92_pipeline_fifo import LJ92PipelineFifo
    m = h.mod
    m.submodules.dut = d = LJ92PipelineFifo(cfg, constraints.Constraints())
    acc = h.inp("acc")                  # an input cycle accepted by the core
    lat = h.inp("latch")
    h.assume(~acc | ~d.close_full)
    v = acc
    for _ in range(cfg["latency"]):
        v = h.past(v)
    m.d.comb += [d.valid_in.eq(v), d.latch_output.eq(lat)]
    enc = h.drive(d.enc_in, "enc"); ctr = h.drive(d.enc_in_ctr, "ctr"); end = h.drive(d.in_end, "end")
    pop = h.wire(lat & d.valid_out)
    hit, st = h.follow(v, pop, [enc, ctr, end])
    h.bad("data", hit & (d.enc_out != st[0]))
    h.bad("ctr", hit & (d.enc_out_ctr != st[1]))
    h.bad("end", hit & (d.out_end != st[2]))
    h.stuck("lost", (h.cnt != 0) & ~d.valid_out, 4)
    h.stuck("closed", d.close_full & (h.cnt == 0), 4)
    h.cover("full", d.close_full & v & h.past(v) & h.past(h.past(v)))
    h.cover("read", hit & (h.cnt > 2))
    h.watch("close", d.close_full); h.watch("v", d.valid_out); h.watch("cnt", h.cnt); h.watch("o", d.enc_out)


def b_conv(h, cfg):
    """converter FIFO alone"""
    from converter_fifo import ConverterFifo
    m = h.mod
    m.submodules.dut = d = ConverterFifo(cfg, constraints.Constraints())
    lat = h.drive(d.latch_output, "latch")
    v = h.drive(d.valid_in, "valid")
    enc = h.drive(d.enc_in, "enc"); ctr = h.drive(d.enc_in_ctr, "ctr"); end = h.drive(d.in_end, "end")
    total = min(16 + cfg["bit_depth"], 31) * cfg["pixels_per_cycle"]
    steps = -(-total // cfg["converter"]) + 2
    run = h.reg(6)
    h.setsync(run.eq(Mux(d.close_full, run + v, 0)))
    h.assume(~v | ~d.close_full | (run < steps))
    pop = h.wire(lat & d.valid_out)
    hit, st = h.follow(v, pop, [enc, ctr, end])
    h.bad("data", hit & (d.enc_out != st[0]))
    h.bad("ctr", hit & (d.enc_out_ctr != st[1]))
    h.bad("end", hit & (d.out_end != st[2]))
    h.bad("overflow", v & ~d.writable)
    h.stuck("lost", (h.cnt != 0) & ~d.valid_out, 4)
    h.stuck("closed", d.close_full & (h.cnt == 0), 4)
    h.cover("full", d.close_full & v & h.past(v) & h.past(h.past(v)))
    h.cover("read", hit & (h.cnt > 2))
    h.watch("close", d.close_full); h.watch("v", d.valid_out); h.watch("cnt", h.cnt); h.watch("o", d.enc_out)


def b_pair(h, cfg):
    """real converter feeding the real converter FIFO: the FIFO is never written when full"""
    from converter_fifo import ConverterFifo
    from converter import Converter
    m = h.mod
    m.submodules.conv = c = Converter(cfg, constraints.Constraints())
    m.submodules.fifo = d = ConverterFifo(cfg, constraints.Constraints())
    total = min(16 + cfg["bit_depth"], 31) * cfg["pixels_per_cycle"]
    ctr = h.drive(c.enc_out_ctr, "ctr"); valid = h.drive(c.valid_out, "valid")
    h.assume((ctr >= 1) & (ctr <= total))
    hold = h.wire(h.past(valid & ~c.latch_output))
    h.assume(~hold | (valid & (ctr == h.past(ctr))))
    lat = h.drive(d.latch_output, "latch")
    m.d.comb += [d.enc_in.eq(c.enc_in), d.enc_in_ctr.eq(c.enc_in_ctr), d.in_end.eq(c.in_end), d.valid_in.eq(c.valid_in),
                 c.close_full.eq(d.close_full), c.enc_out.eq(h.inp("enc", total)), c.out_end.eq(h.inp("end"))]
    pop = h.wire(lat & d.valid_out)
    hit, st = h.follow(c.valid_in, pop, [c.enc_in, c.enc_in_ctr, c.in_end])
    h.bad("overflow", d.valid_in & ~d.writable)
    h.bad("ctr", hit & (d.enc_out_ctr != st[1]))
    h.cover("close", d.close_full & d.valid_in & h.past(d.close_full))
    h.watch("close", d.close_full); h.watch("v", d.valid_in); h.watch("cnt", h.cnt)


def b_axihp(h, cfg):
    from axihp_fifo import AxiHPFifo
    m = h.mod
    m.submodules.dut = d = AxiHPFifo()
    data = h.drive(d.data_in, "data"); end = h.drive(d.end_in, "end")
    v = h.drive(d.valid_in, "valid"); rd = h.drive(d.read, "read")
    push = h.wire(v & d.writable)
    pop = h.wire(rd & d.valid_out)
    hit, st = h.follow(push, pop, [data, end])
    h.bad("data", hit & (d.data_out != st[0]))
    h.bad("end", hit & (d.end_out != st[1]))
    h.bad("r16", d.readable16 != (h.cnt >= 16))
    h.bad("w16", d.writable16 != (h.cnt <= 12))
    h.bad("readable", d.readable != d.valid_out)
    h.stuck("lost", (h.cnt != 0) & ~d.valid_out, 1)
    h.stuck("full", (h.cnt < 32) & ~d.writable, 1)
    h.cover("r16", d.readable16 & pop)
    h.cover("read", hit & (h.cnt > 1))
    h.watch("v", d.valid_out); h.watch("o", d.data_out); h.watch("cnt", h.cnt); h.watch("wr", d.writable)
