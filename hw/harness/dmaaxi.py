"""dma_axi_lite, directly and behind the axi_lite bridge: register semantics over AXI4-Lite / single-beat AXI3"""
from nmigen import *
from dma_axi_lite import DMAAxiLite
from axi_lite import AxiLite
from harness.coreaxi import master


def build(h, cfg):
    m = h.mod
    m.submodules.dut = d = DMAAxiLite()
    if cfg["bridge"]:
        m.submodules.bridge = b = AxiLite()
        m.d.comb += [d.s_axi_ri_.araddr.eq(b.m_axi_ro.araddr), d.s_axi_ri_.arprot.eq(b.m_axi_ro.arprot),
                     d.s_axi_ri_.arvalid.eq(b.m_axi_ro.arvalid), d.s_axi_ri_.rready.eq(b.m_axi_ro.rready),
                     d.s_axi_wi_.awaddr.eq(b.m_axi_wo.awaddr), d.s_axi_wi_.awprot.eq(b.m_axi_wo.awprot),
                     d.s_axi_wi_.awvalid.eq(b.m_axi_wo.awvalid), d.s_axi_wi_.wdata.eq(b.m_axi_wo.wdata),
                     d.s_axi_wi_.wstrb.eq(b.m_axi_wo.wstrb), d.s_axi_wi_.wvalid.eq(b.m_axi_wo.wvalid),
                     d.s_axi_wi_.bready.eq(b.m_axi_wo.bready)]
        m.d.comb += [getattr(b.m_axi_ri, n).eq(getattr(d.s_axi_ro_, n)) for n in ("arready", "rdata", "rresp", "rvalid")]
        m.d.comb += [getattr(b.m_axi_wi, n).eq(getattr(d.s_axi_wo_, n)) for n in ("awready", "wready", "bresp", "bvalid")]
        ri, ro, wi, wo = b.s_axi_ri, b.s_axi_ro, b.s_axi_wi, b.s_axi_wo
    else:
        ri, ro, wi, wo = d.s_axi_ri_, d.s_axi_ro_, d.s_axi_wi_, d.s_axi_wo_

    def kinds(a):
        z = h.wire(a[0:11], 11)
        return z, h.wire((z >= 0x400) & (z < 0x403)), h.wire((z >= 0x403) & (z < 0x40C)), h.wire(z < 0x400)

    def legal(a):
        z, rw, ro_, bad = kinds(a)
        return rw | ro_ | bad
    M = master(h, ri, ro, wi, wo, legal)
    ins = [h.drive(getattr(d, "in%d" % i), "in%d" % i) for i in range(1, 10)]
    A, B = h.rigid("A", 11), h.rigid("B", 5)
    _, rwA, roA, _ = kinds(A)
    h.assume(rwA | roA)
    z, rw, ro_, bad = kinds(M["raddr"])
    zw, rww, row, badw = kinds(M["waddr"])
    val = h.reg(1)
    rbit = h.wire(h.bit(ro.rdata, B))
    rA = h.wire(M["rresp"] & (z == A))
    wA = h.wire(M["bresp"] & (zw == A) & h.bit(M["wst"], B[3:5]))
    with m.If(wA):
        h.setsync(val.eq(h.bit(M["wdat"], B)))
    h.bad("read", rA & rwA & (rbit != val))                  # registers reset to zero
    src = h.choose_sig(h.wire(A - 0x403, 11)[0:4], ins, 32)
    sbit = h.wire(h.bit(src, B))
    held = h.reg(1)                                           # status input unchanged since the request
    ok = h.wire(Mux(M["aracc"], 1, held & (sbit == h.past(sbit))))
    h.setsync(held.eq(ok))
    h.bad("status", rA & roA & ok & (rbit != sbit))
    h.bad("rresp", M["rresp"] & (ro.rresp != Mux(bad, 3, 0)))
    h.bad("bresp", M["bresp"] & (wo.bresp != Mux(badw, 3, Mux(row & (M["wst"] != 0), 2, 0))))
    port = h.choose_sig(A[0:2], [d.read_addr, d.write_addr, d.start], 32)
    h.bad("port", ~M["wrn"] & rwA & (h.bit(port, B) != val))
    if cfg["bridge"]:
        arid, awid = h.drive(ri.arid, "arid"), h.drive(wi.awid, "awid")
        for s, n in ((ri.arburst, "arburst"), (ri.arlen, "arlen"), (ri.arsize, "arsize"), (wi.awburst, "awburst"), (wi.awlen, "awlen"), (wi.awsize, "awsize"), (wi.wid, "wid"), (wi.wlast, "wlast")):
            h.drive(s, n)
        h.assume(~h.past(ri.arvalid) | ~ri.arvalid | (arid == h.past(arid)))
        h.assume(~h.past(wi.awvalid) | ~wi.awvalid | (awid == h.past(awid)))
        rid, wid = h.reg(12), h.reg(12)
        h.setsync(rid.eq(Mux(M["aracc"], arid, rid)), wid.eq(Mux(wi.awvalid & wo.awready, awid, wid)))
        h.bad("rid", M["rresp"] & (ro.rid != rid))
        h.bad("bid", M["bresp"] & (wo.bid != wid))
        h.bad("rlast", M["rresp"] & ~ro.rlast)
        aclk, arst = h.drive(b.s_axi_aclk, "aclk"), h.drive(b.s_axi_areset_n, "areset_n")
        h.bad("clk", (b.m_axi_aclk != aclk) | (b.m_axi_areset_n != arst))
    seen = h.reg(1)
    with m.If(wA & (M["wst"] == 0b0100)):
        h.setsync(seen.eq(1))
    h.cover("write_read", rA & rwA & seen & rbit)
    h.cover("status", rA & roA & rbit)
    h.cover("err", M["rresp"] & bad)
    h.cover("ro_write", M["bresp"] & (wo.bresp == 2))
    h.watch("rdata", ro.rdata); h.watch("rvalid", ro.rvalid); h.watch("bvalid", wo.bvalid)
