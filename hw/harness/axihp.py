"""AXI burst writer / reader with the address generator against a protocol-conforming memory"""
from nmigen import *


def build(h, cfg):
    globals()["b_" + cfg["what"]](h, cfg)


def addresses(h, d, valid, ready, addr, shift):
    """real address generator in front of d; programmed before the enable, enable never withdrawn"""
    from address_generator import AddressGenerator
    m = h.mod
    m.submodules.gen = a = AddressGenerator(shift)
    sa = h.rigid("start", 32)
    hold = h.inp("addr_hold")                   # the surrounding design may pause addresses
    m.d.comb += [a.starting_address.eq(sa), a.address_latch.eq(d.addr_enable), d.addr_in.eq(a.address_o),
                 d.addr_empty.eq((a.address_valid == 0) | hold)]
    en = h.drive(d.enable, "enable")
    h.assume(~h.past(en) | en)
    acc = h.wire(valid & ready)
    exp = h.reg(32)
    k = h.reg(1)
    cur = h.wire(Mux(k, exp, sa), 32)
    with m.If(acc):
        h.setsync(exp.eq(cur + shift), k.eq(1))
    h.bad("addr", valid & (addr != cur))
    h.bad("addr_drop", h.past(valid & ~ready) & ~valid)
    h.bad("addr_latch", d.addr_enable != acc)
    h.bad("addr_off", h.past(valid == 0) & valid & ~h.past(en))
    return en, hold, acc


def burst(h, p, cfg, ro):
    n = cfg["data_c"] - 1
    h.bad("burst", p("valid") & ((p("len") != n) | (p("burst") != 1) | (p("size") != 3) | (p("id") != 0) | (p("prot") != 0)))


def b_writer(h, cfg):
    from axihp_writer import AxiHPWriter
    m, n = h.mod, cfg["data_c"]
    m.submodules.dut = d = AxiHPWriter(data_w=64, data_c=n)
    wo, wi = d.m_axi_wo, d.m_axi_wi
    awready, wready = h.drive(wi.awready, "awready"), h.drive(wi.wready, "wready")
    bvalid, bresp = h.drive(wi.bvalid, "bvalid"), h.drive(wi.bresp, "bresp")
    for s in ("wacount", "wcount", "bid"):
        h.drive(getattr(wi, s), s)
    strobe = h.drive(d.write_strobe, "strobe")
    data, empty = h.drive(d.data_in, "data"), h.drive(d.data_empty, "empty")
    aclk = h.drive(d.m_axi_aclk, "aclk")
    en, hold, acc = addresses(h, d, wo.awvalid, awready, wo.awaddr, 8 * n)
    burst(h, lambda s: getattr(wo, "aw" + s), cfg, wo)
    # memory: at most 8 bursts in flight, responses only for completed bursts, held until taken
    xfer, resp = h.wire(wo.wvalid & wready), h.wire(bvalid & wo.bready)
    beat = h.reg(5)
    lastbeat = h.wire(beat == n - 1)
    done = h.wire(xfer & lastbeat)
    h.setsync(beat.eq(Mux(xfer, Mux(lastbeat, 0, beat + 1), beat)))
    outs, togo, toresp = h.reg(5), h.reg(5), h.reg(5)
    h.setsync(outs.eq(outs + acc - resp), togo.eq(togo + acc - done), toresp.eq(toresp + done - resp))
    h.assume(~awready | (outs < 8))
    h.assume(~bvalid | (toresp != 0))
    h.assume(~h.past(bvalid & ~wo.bready) | (bvalid & (bresp == h.past(bresp))))
    # the source keeps its word until it is taken
    h.assume(~h.past(~d.data_enable) | (data == h.past(data)) | h.first())
    h.bad("data", wo.wvalid & ((wo.wdata != data) | (wo.wstrb != strobe) | (wo.wid != 0)))
    h.bad("pop", d.data_enable != xfer)
    h.bad("last", wo.wvalid & (wo.wlast != lastbeat))
    h.bad("held", h.past(wo.wvalid & ~wready) & ~wo.wvalid)
    h.bad("begin", h.past(~wo.wvalid) & wo.wvalid & (beat == 0) & h.past(empty))
    h.bad("early", xfer & (togo == 0))
    h.bad("continue", h.past(xfer) & (beat != 0) & ~wo.wvalid)
    h.bad("inactive", d.inactive != (outs == 0))
    h.bad("error", d.writer_error != (resp & (bresp != 0)))
    h.bad("clk", (d.data_clk != aclk) | (d.addr_clk != aclk))
    h.stuck("stuck_addr", en & ~hold & (outs < 7) & ~wo.awvalid, 4)
    h.stuck("stuck_data", (togo != 0) & ~empty & ~wo.wvalid, 3)
    h.stuck("stuck_resp", bvalid & ~wo.bready, 3)
    h.cover("two", done & (toresp == 1) & (togo > 1))
    h.cover("idle_again", d.inactive & h.past(resp))
    h.watch("awvalid", wo.awvalid); h.watch("wvalid", wo.wvalid); h.watch("wlast", wo.wlast); h.watch("beat", beat)
    h.watch("inactive", d.inactive); h.watch("bready", wo.bready); h.watch("data_enable", d.data_enable); h.watch("outs", outs); h.watch("togo", togo)


def reader(h, cfg):
    from axihp_reader import AxiHPReader
    m, n = h.mod, cfg["data_c"]
    m.submodules.dut = d = AxiHPReader(data_w=64, data_c=n)
    ro, ri = d.m_axi_ro, d.m_axi_ri
    arready = h.drive(ri.arready, "arready")
    rvalid, rlast, rdata, rresp = h.drive(ri.rvalid, "rvalid"), h.drive(ri.rlast, "rlast"), h.drive(ri.rdata, "rdata"), h.drive(ri.rresp, "rresp")
    for s in ("racount", "rcount", "rid"):
        h.drive(getattr(ri, s), s)
    aclk = h.drive(d.m_axi_aclk_, "aclk")
    en, hold, acc = addresses(h, d, ro.arvalid, arready, ro.araddr, 8 * n)
    burst(h, lambda s: getattr(ro, "ar" + s), cfg, ro)
    xfer = h.wire(rvalid & ro.rready)
    beat, outs = h.reg(5), h.reg(5)
    lastbeat = h.wire(beat == n - 1)
    done = h.wire(xfer & lastbeat)
    h.setsync(beat.eq(Mux(xfer, Mux(lastbeat, 0, beat + 1), beat)), outs.eq(outs + acc - done))
    h.assume(~arready | (outs < 8))
    h.assume(~rvalid | (outs != 0))
    h.assume(~rvalid | (rlast == lastbeat))
    if cfg.get("quiet_last"):
        h.assume(rvalid | ~rlast)
    h.assume(~h.past(rvalid & ~ro.rready) | (rvalid & (rdata == h.past(rdata)) & (rresp == h.past(rresp))))
    h.bad("inactive", d.inactive != (outs == 0))
    h.bad("error", d.reader_error != (xfer & (rresp != 0)))
    h.bad("clk", (d.data_clk != aclk) | (d.addr_clk != aclk))
    h.stuck("stuck_addr", en & ~hold & (outs < 7) & ~ro.arvalid, 4)
    h.stuck("stuck_data", rvalid & ~d.data_full & ~ro.rready, 3)
    h.cover("two", done & (outs > 1))
    h.watch("rready", ro.rready); h.watch("arvalid", ro.arvalid); h.watch("outs", outs); h.watch("inactive", d.inactive); h.watch("beat", beat)
    return d, ro, rdata, xfer, beat


def b_reader(h, cfg):
    d, ro, rdata, xfer, beat = reader(h, cfg)
    full = h.drive(d.data_full, "full")
    h.bad("deliver", (d.data_enable != xfer) | (xfer & (d.data_out != rdata)))
    h.bad("begin", h.past(~ro.rready) & ro.rready & (beat == 0) & h.past(full))
    h.bad("continue", h.past(xfer) & (beat == 0) & ro.rready & h.past(full))


def b_readfifo(h, cfg):
    """reader into the real bus FIFO, wired as in beta_integration_fullaxi: no word is lost"""
    from axihp_fifo import AxiHPFifo
    d, ro, rdata, xfer, beat = reader(h, cfg)
    h.mod.submodules.fifo = f = AxiHPFifo()
    take = h.inp("take")
    h.mod.d.comb += [d.data_full.eq(f.writable16 == 0), f.data_in.eq(d.data_out), f.valid_in.eq(d.data_enable), f.read.eq(take)]
    cnt = h.reg(8)
    pop = h.wire(take & f.valid_out)
    h.setsync(cnt.eq(cnt + xfer - pop))
    h.bad("overflow", f.valid_in & ~f.writable)
    h.bad("invent", pop & (cnt == 0))
    h.stuck("lost", (cnt != 0) & ~f.valid_out, 4)
    h.cover("room", xfer & (cnt > 16))
