"""integration_3: the assembled encoder core, one frame from reset"""
from nmigen import *
import constraints
import scanref


def inputs(h, cfg, ports):
    """free samples; or each sample free within a palette; returns the port values"""
    out = []
    for i, p in enumerate(ports):
        if "pattern" in cfg:         # the sample of each position of the frame is given, up to its `noise` low bits
            out.append(h.wire(h.pattern[i] ^ h.inp("noise%d" % i, cfg["noise"]) if cfg["noise"] else h.pattern[i], len(p)))
        elif "palette" in cfg:
            out.append(h.choose(h.inp("pixsel%d" % i, (len(cfg["palette"]) - 1).bit_length()), cfg["palette"], len(p)))
        else:
            out.append(h.inp("pix%d" % i, len(p)))
        h.mod.d.comb += p.eq(out[-1])
    return out


class Lanes:
    """integration_3_axi_stream seen through the core's port names: pixel k in bits 12k..12k+11 of the word"""
    def __init__(self, h, w):
        self.pixels_in = [Signal(12) for _ in range(4)]
        self.valid_in, self.busy_in, self.nready = w.s_tvalid, Signal(1), h.wire(~w.s_tready)
        self.data_out, self.valid_out, self.end_out = w.m_tdata, w.m_tvalid, w.m_tlast
        h.mod.d.comb += [w.s_tdata.eq(Cat(*self.pixels_in, h.inp("junk", 16))), w.m_tready.eq(~self.busy_in)]
        h.drive(w.s_tlast, "s_tlast")


def build(h, cfg):
    W, H = cfg["wh"]
    bd, ps, ob = cfg["bit_depth"], cfg["pixels_per_cycle"], cfg["out_bits"]
    import register_file

    class Regs(Elaboratable):        # the constant 4096x3072 register file, with the job's geometry
        def __init__(self):
            self.height, self.width, self.allowed_cycles = Signal(16), Signal(16), Signal(24)

        def elaborate(self, platform):
            m = Module()
            m.d.comb += [self.width.eq(W), self.height.eq(H), self.allowed_cycles.eq(1 << 20)]
            return m
    register_file.RegisterFile = Regs
    import integration_3
    c = dict(cfg, predictor_function=1, num_of_components=4, axi_lite_debug=False, support_axi_lite=False)
    if cfg.get("axis"):              # the stream wrapper at its own configuration, apart from shorter FIFOs
        orig = integration_3.Integration3

        def small(cc, k):
            cc.update(LJ92_fifo_depth=cfg["LJ92_fifo_depth"], converter_fifo_depth=cfg["converter_fifo_depth"])
            return orig(cc, k)
        integration_3.Integration3 = small
        from integration_3_axi_stream import Integration3AxiStream
        h.mod.submodules.dut = w = Integration3AxiStream()
        d = Lanes(h, w)
    else:
        h.mod.submodules.dut = d = integration_3.Integration3(c, constraints.Constraints())
    grp = h.reg(8, "grp")
    if "pattern" in cfg:
        h.pattern = [h.choose(grp, cfg["pattern"][i::ps], bd) for i in range(ps)]
    pix = inputs(h, cfg, [d.pixels_in[i] for i in range(ps)])
    valid = h.drive(d.valid_in, "valid")
    busy = h.drive(d.busy_in, "busy")
    accept = h.wire(valid & ~d.nready)
    h.setsync(grp.eq(grp + accept))
    s = scanref.Scan(h, cfg, W, H, accept, pix)
    h.bad("ready_after_end", s.ended & ~d.nready)
    done = h.reg(1, "done")
    nb = h.reg(8, "bytes")
    give = h.wire(d.valid_out & ~busy & ~done)
    h.setsync(done.eq(done | (give & d.end_out)), nb.eq(nb + Mux(give, ob // 8, 0)))
    scanref.out_bytes(h, s, give, ob // 8, d.data_out, nb, d.end_out)
    h.bad("stable", h.past(d.valid_out & busy) & (~d.valid_out | (d.data_out != h.past(d.data_out)) | (d.end_out != h.past(d.end_out))))
    # progress: a full word (or the rest of the frame) is out after at most K cycles with the receiver ready
    work = h.wire(~done & ~busy & ~d.valid_out & (s.ended | (s.total >= h.wire((nb << 3) + ob + cfg.get("slack", 0), 12))))
    h.stuck("stuck_out", work, cfg.get("K", 24))
    h.stuck("stuck_in", ~s.ended & d.nready & ~busy & ~d.valid_out, cfg.get("Kin", 14))
    h.cover("frame", give & d.end_out)
    st = h.reg(1, "stalled")
    h.setsync(st.eq(st | (d.valid_out & busy)))
    h.cover("frame_stalled", give & d.end_out & st)
    nf = h.reg(1, "nf")
    h.setsync(nf.eq(nf | ((s.count > 2) & ~s.ended & d.nready)))
    if cfg.get("full"):
        h.cover("ran_full", give & d.end_out & nf)
    h.watch("data", d.data_out); h.watch("valid", d.valid_out); h.watch("end", d.end_out); h.watch("nready", d.nready)
    h.watch("total", s.total); h.watch("nb", nb); h.watch("groups", s.count)
