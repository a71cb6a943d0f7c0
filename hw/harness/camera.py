"""beta / micro camera encoders and their stream wrappers: marked, stuffed frames, restart

cfg["frames"]: samples of the frames to push, in coding order; the receiver must see exactly the words of the
marked streams (computed by scanref.marked_stream) whatever the gaps and stalls."""
from nmigen import *
import constraints
import scanref


def build(h, cfg):
    W, H = cfg["wh"]
    top, lim = cfg["top"], cfg.get("limit", 1 << 20)
    micro = top.startswith("micro")
    bd, ps = 12, 1 if micro else 2
    import register_file, integration_3

    class Regs(Elaboratable):        # the constant 4096x3072 register file, with the job's geometry
        def __init__(self):
            self.height, self.width, self.allowed_cycles = Signal(16), Signal(16), Signal(24)

        def elaborate(self, platform):
            m = Module()
            m.d.comb += [self.width.eq(W), self.height.eq(H), self.allowed_cycles.eq(lim)]
            return m
    register_file.RegisterFile = Regs
    orig = integration_3.Integration3

    def small(c, k):                  # short FIFOs; frame size from the register file unless the job programs it over AXI
        c.update(LJ92_fifo_depth=cfg.get("fifo", 25), converter_fifo_depth=cfg.get("cfifo", 16), support_axi_lite=bool(cfg.get("axi")))
        return orig(c, k)
    integration_3.Integration3 = small
    m = h.mod
    frames = cfg["frames"]
    flat = [x for f in frames for x in f]
    fifo = "fifo" in top
    per = 4 if fifo else ps           # samples in one input beat
    beats = [flat[i:i + per] for i in range(0, len(flat), per)]
    idx = h.reg(8, "beat")
    if top in ("beta", "micro"):
        if micro:
            from micro_integration import MicroIntegration as T
        else:
            from beta_integration import BetaIntegration as T
        d = core = T()
        for i, p in enumerate([d.pixel_in] if micro else [d.pixel_in1, d.pixel_in2]):
            m.d.comb += p.eq(h.choose(idx, [b[i] for b in beats], bd))
        vin, vout, data, end, busy = d.valid_in, d.valid_out, d.data_out, d.end_out, d.busy_in
        ready = h.wire(~d.nready)
    else:
        import importlib
        mod, cls = dict(micro_axis=("micro_integration_axistream", "MicroIntegrationAxiStream"),
                        beta_axis=("beta_integration_axistream", "BetaIntegrationAxiStream"),
                        beta_fifo_axis=("beta_integration_fifo_axistream", "BetaIntegrationFIFOAxiStream"),
                        beta_fifo_lvds=("beta_integration_fifo_lvds", "BetaIntegrationFIFOLVDS"))[top]
        d = getattr(importlib.import_module(mod), cls)()
        core = d.top
        lane = [h.choose(idx, [b[i] for b in beats], bd) for i in range(per)]
        junk = h.inp("junk", 20)      # bits of the beat outside the sample lanes
        if fifo:
            word = Cat(junk[0:16], lane[3], lane[2], lane[1], lane[0])
        elif micro:
            word = Cat(lane[0], junk)
        else:
            word = Cat(junk[0:8], lane[1], lane[0])
        m.d.comb += d.s_tdata.eq(word)
        if not fifo:
            h.drive(d.s_tlast, "s_tlast")
        busy = Signal(1, name="busy_")
        m.d.comb += d.m_tready.eq(~busy)
        vin, ready, vout, data = d.s_tvalid, d.s_tready, d.m_tvalid, d.m_tdata
        end = d.m_tlast if hasattr(d, "m_tlast") else None
    m.submodules.dut = d
    programmed = ~h.first()
    if core.config["support_axi_lite"]:
        programmed = program(h, core.integration_3.integration_2.integration_1.core_axi_lite, W, H, lim)
    v = h.inp("valid")
    b = h.drive(busy, "busy")
    more = h.wire(idx < len(beats))
    if cfg.get("force"):              # the core drops what it holds when it closes a frame: the next frame is sent afterwards
        fr = h.reg(4, "frame")
        fb = [len(f) // per for f in frames]
        lim_b = h.choose(fr, [sum(fb[:i + 1]) for i in range(len(fb))], 8)
        more = h.wire(idx < lim_b)
    if fifo:                          # the head of a FIFO: once there it stays until popped
        shown = h.reg(1, "shown")
        valid = h.wire((v | shown) & more & programmed)
        h.setsync(shown.eq(valid & ~(valid & ready)))
    else:
        valid = h.wire(v & more & programmed)
    m.d.comb += vin.eq(valid)
    accept = h.wire(valid & ready)
    h.setsync(idx.eq(idx + accept))
    give = h.wire(vout & ~b)
    faults = {}

    def bad(name, cond):              # one query for all: the traces are long, the conditions close to each other
        faults[name] = h.wire(cond)
    streams = [scanref.marked_stream(f, W, bd) for f in frames]
    n, wd = h.reg(8, "word"), len(data)
    if wd == 16:
        words = sum(streams, [])
        last = [i == len(s) - 1 for s in streams for i in range(len(s))]
    else:                             # LVDS: 40-bit words are five bytes of the same stream
        by = sum(([w >> 8, w & 255] for s in streams for w in s), [])
        words = [sum(x << 8 * (4 - k) for k, x in enumerate(by[i:i + 5])) for i in range(0, len(by) - 4, 5)]
    total = len(words)
    want = h.choose(n, words, wd)
    if not cfg.get("force"):
        h.setsync(n.eq(n + (give & (n != 255))))
        bad("word", give & (n < total) & (data != want))
        bad("extra", give & (n >= total))
        if end is not None:
            bad("end", give & (n < total) & (end != h.choose(n, [int(x) for x in last], 1)))
        final = h.wire(n >= total)
    else:                             # every frame may be cut short by the cycle limit
        k = h.reg(4, "fe")
        cyc = h.reg(12, "cyc")        # cycles since this frame's first accepted group
        on = h.reg(1, "on")
        starts = [sum(map(len, streams[:i])) for i in range(len(streams))]
        ends = [sum(map(len, streams[:i + 1])) for i in range(len(streams))]
        st = h.choose(fr, starts, 8)
        tail = h.choose(fr, [e - 8 for e in ends], 8)
        body = h.wire((n >= h.wire(st + 8, 8)) & (n < tail))
        fm = h.wire(give & (data == 0xFFFE) & ((body | (n == tail)) | (k != 0)))
        bad("word", give & ~fm & ((data != want) | (k != 0) | (fr >= len(frames))))
        fin = h.wire(give & Mux(fm, k == 7, n == h.choose(fr, [e - 1 for e in ends], 8)))
        bad("end", give & (end != fin))
        bad("forced_early", fm & (cyc < lim))
        bad("not_forced", give & ~fm & body & (cyc > lim + 8))
        nxt = h.choose(fr, ends, 8)
        h.setsync(on.eq((on | accept) & ~fin), cyc.eq(Mux(fin, 0, cyc + (on | accept))),
                  k.eq(Mux(fin, 0, k + (give & fm))), fr.eq(fr + fin), n.eq(Mux(fin, nxt, n + (give & ~fm))))
        wasf = h.reg(1, "wasf")
        h.setsync(wasf.eq(wasf | (fin & fm)))
        final = h.wire(fr >= len(frames))
        with m.If(fin):
            h.setsync(idx.eq(lim_b))
    t = h.reg(10, "t")
    h.setsync(t.eq(t + 1))
    done = final if wd == 16 else h.wire(n >= total)
    if cfg.get("deadline"):
        bad("late", (t == cfg["deadline"]) & ~done)
    h.bad("frame", Cat(*faults.values()).bool())
    h.cover("done", done & wasf if cfg.get("force") else done)
    for n_, c in faults.items():
        h.watch("bad_" + n_, c)
    if core is not d:
        h.watch("core_valid", core.valid_out); h.watch("core_busy", core.busy_in); h.watch("core_data", core.data_out)
    h.watch("data", data); h.watch("valid", vout); h.watch("ready", ready); h.watch("beat", idx); h.watch("word", n)
    if end is not None:
        h.watch("end", end)


def program(h, ax, W, H, lim):
    """a fixed AXI4-Lite master writes frame size and cycle limit once after power-up"""
    m = h.mod
    words = [(0x2000, (W << 16) | H), (0x2004, lim)]
    i, aw, w = h.reg(2, "axi"), h.reg(1, "awd"), h.reg(1, "wd")
    wi, wo = ax.s_axi_wi, ax.s_axi_wo
    act = h.wire(i < len(words))
    m.d.comb += [wi.awvalid.eq(act & ~aw), wi.wvalid.eq(act & ~w), wi.wstrb.eq(15), wi.bready.eq(1), ax.s_axi_ri.rready.eq(1),
                 wi.awaddr.eq(h.choose(i, [a for a, _ in words], 32)), wi.wdata.eq(h.choose(i, [x for _, x in words], 32))]
    h.setsync(aw.eq((aw | (wi.awvalid & wo.awready)) & ~wo.bvalid), w.eq((w | (wi.wvalid & wo.wready)) & ~wo.bvalid),
              i.eq(i + (act & wo.bvalid)))
    return h.wire(~act)
