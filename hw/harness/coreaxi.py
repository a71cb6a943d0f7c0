"""core_axi_lite (with the real code-table memory of encode): register semantics over AXI4-Lite"""
from nmigen import *
import constraints
from core_axi_lite import CoreAxiLite
from encode import Encode


def master(h, ri, ro, wi, wo, legal):
    """a master with one outstanding transaction that holds requests and response-ready; returns event wires"""
    araddr, arvalid, rready = h.drive(ri.araddr, "araddr"), h.drive(ri.arvalid, "arvalid"), h.drive(ri.rready, "rready")
    awaddr, awvalid = h.drive(wi.awaddr, "awaddr"), h.drive(wi.awvalid, "awvalid")
    wdata, wstrb, wvalid, bready = h.drive(wi.wdata, "wdata"), h.drive(wi.wstrb, "wstrb"), h.drive(wi.wvalid, "wvalid"), h.drive(wi.bready, "bready")
    h.drive(ri.arprot, "arprot"); h.drive(wi.awprot, "awprot")
    rd, wr = h.reg(1), h.reg(1)                 # transaction in progress (from an earlier cycle)
    ard, awd, wd = h.reg(1), h.reg(1), h.reg(1)   # address / data parts already accepted
    rdn, wrn = h.wire(rd | arvalid), h.wire(wr | awvalid)
    h.assume(~(rdn & wrn))
    h.assume(~wvalid | wrn)
    h.assume(~rdn | rready)
    h.assume(~wrn | bready)
    h.assume(~arvalid | legal(araddr[2:32]))
    h.assume(~awvalid | legal(awaddr[2:32]))
    h.assume(~rd | ((arvalid == ~ard) & (ard | (araddr == h.past(araddr)))))
    h.assume(~wr | ((awvalid == ~awd) & (awd | (awaddr == h.past(awaddr)))))
    h.assume(~wd | ~wvalid)
    h.assume(~h.past(wvalid & ~wo.wready) | (wvalid & (wdata == h.past(wdata)) & (wstrb == h.past(wstrb))))
    aracc, awacc, wacc = h.wire(arvalid & ro.arready), h.wire(awvalid & wo.awready), h.wire(wvalid & wo.wready)
    rresp, bresp = h.wire(ro.rvalid & rready), h.wire(wo.bvalid & bready)
    h.setsync(rd.eq(rdn & ~rresp), wr.eq(wrn & ~bresp), ard.eq((ard | aracc) & ~rresp), awd.eq((awd | awacc) & ~bresp),
              wd.eq((wd | wacc) & ~bresp))
    raddr, waddr, wdat, wst = h.reg(30), h.reg(30), h.reg(32), h.reg(4)
    h.setsync(raddr.eq(Mux(aracc, araddr[2:32], raddr)), waddr.eq(Mux(awacc, awaddr[2:32], waddr)),
              wdat.eq(Mux(wacc, wdata, wdat)), wst.eq(Mux(wacc, wstrb, wst)))
    # exactly one response per request
    h.bad("spurious_r", ro.rvalid & ~ard)
    h.bad("spurious_b", wo.bvalid & ~(awd & wd))
    h.bad("accept", (ro.arready & ard) | (wo.awready & awd))
    h.stuck("stuck_r", rdn & ~rresp, 12)
    h.stuck("stuck_b", wrn & (wd | wvalid) & ~bresp, 14)
    return dict(aracc=aracc, rresp=rresp, bresp=bresp, raddr=raddr, waddr=waddr, wdat=wdat, wst=wst, wrn=wrn, rdn=rdn)


def bytemask(s):
    return Cat(*[Repl(s[i], 8) for i in range(4)])


def build(h, cfg):
    m = h.mod
    bd, dbg = cfg["bit_depth"], cfg["axi_lite_debug"]
    c = dict(bit_depth=bd, pixels_per_cycle=1, support_axi_lite=True, axi_lite_debug=dbg)
    K = constraints.Constraints()
    m.submodules.dut = d = CoreAxiLite(c, K)
    m.submodules.enc = e = Encode(c, K)
    m.d.comb += [d.rp_data.eq(e.extern_r_port.data), e.extern_r_port.addr.eq(d.rp_addr), e.extern_w_port.addr.eq(d.wp_addr),
                 e.extern_w_port.data.eq(d.wp_data), e.extern_w_port.en.eq(d.wp_en)]
    if dbg:
        den = h.drive(d.debug_en, "den")
    crst = Const(0, 1)
    if cfg.get("core_reset"):         # the camera encoders reset the core clock domain after every frame
        import clk_domains
        crst = h.drive(clk_domains.CORE.rst, "core_rst")
    nb = 2 * (bd + 1)

    def kinds(a):       # word address (low 13 bits; the rest is the peripheral's base address)
        z = h.wire(a[0:13], 13)
        tab = h.wire((z >= 0x400) & (z < 0x400 + nb))
        hw = h.wire((z == 0x800) | (z == 0x801))
        deb = h.wire((z >= 0x1000) & (z < 0x1008)) if dbg else h.wire(Const(0, 1))
        und = h.wire(z[10:13] == 0) if dbg else h.wire(z[10:12] == 0)
        oor = h.wire((z >= 0x400 + nb) & (z < 0x440))
        return z, tab, hw, deb, h.wire(und | oor)

    def legal(a):
        z, tab, hw, deb, bad = kinds(a)
        return tab | hw | deb | bad
    M = master(h, d.s_axi_ri, d.s_axi_ro, d.s_axi_wi, d.s_axi_wo, legal)
    # one arbitrary register A with its expected content
    A = h.rigid("A", 13)
    _, tabA, hwA, debA, _ = kinds(A)
    h.assume(tabA | hwA | debA)
    total = bd + 21
    impl = h.wire(Mux(hwA, Mux(A[0], 0xFFFFFF, 0xFFFFFFFF),
                      Mux(A[0], (1 << max(0, total - 32)) - 1, (1 << min(32, total)) - 1)), 32)
    B = h.rigid("B", 5)                         # ... and one arbitrary bit of it
    val, known = h.reg(1), h.reg(1)
    z, tab, hw, deb, bad = kinds(M["raddr"])
    rA = h.wire(M["rresp"] & (z == A) & ~debA)
    zw, tabw, hww, debw, badw = kinds(M["waddr"])
    wA = h.wire(M["bresp"] & (zw == A) & ~debA & h.bit(M["wst"], B[3:5]))
    has = h.wire(h.bit(impl, B))
    kn = h.wire(known | ~has)
    rbit = h.wire(h.bit(d.s_axi_ro.rdata, B))
    with m.If(rA):
        h.setsync(val.eq(rbit), known.eq(1))
    with m.If(wA):
        h.setsync(val.eq(h.bit(M["wdat"], B) & has), known.eq(1))
    h.bad("read", rA & kn & (rbit != val))
    h.bad("rresp", M["rresp"] & (d.s_axi_ro.rresp != Mux(bad, 3, 0)))
    h.bad("bresp", M["bresp"] & (d.s_axi_wo.bresp != Mux(badw, 3, Mux(debw, 2, 0))))
    # programmed values reach the ports
    idle = h.wire(~M["wrn"])
    h.bad("hw_port", idle & known & (A == 0x800) & (h.bit(h.wire(Cat(d.height, d.width)), B) != val))
    h.bad("cycles_port", idle & known & (A == 0x801) & (B < 24) & (h.bit(d.allowed_cycles, B) != val))
    # the encoder reads the same table entry
    m.d.comb += [e.ssssx[0].eq(A[1:6]), e.valid_in.eq(1), e.vals_in[0].eq(0)]
    quiet = h.reg(3)
    h.setsync(quiet.eq(Mux(idle & known & ~crst, Mux(quiet == 7, 7, quiet + 1), 0)))
    ew = min(16 + bd, 31)
    code = h.wire(e.encs_out[0], 32)
    h.bad("encoder", (quiet >= 4) & idle & tabA & ~A[0] & (B < min(ew, 16 + bd)) & (h.bit(code, B) != val))
    # debug counters: monotone, between the count at request and the count at response
    if dbg:
        cnt, cnt0 = h.reg(8), h.reg(8)
        h.setsync(cnt.eq(cnt + h.bit(den, A[0:3])))
        with m.If(M["aracc"]):
            h.setsync(cnt0.eq(cnt))
        rD = h.wire(M["rresp"] & (z == A) & debA)
        h.bad("debug", rD & ((d.s_axi_ro.rdata < cnt0) | (d.s_axi_ro.rdata > cnt)))
        h.cover("debug", rD & (d.s_axi_ro.rdata > 3))
    rw = h.reg(2)
    with m.If(wA & (M["wst"] == 0b0100)):
        h.setsync(rw.eq(1))
    h.cover("write_read", rA & rw[0] & tabA)
    h.cover("write_read_hw", rA & rw[0] & hwA)
    h.cover("err", M["rresp"] & bad)
    h.watch("rdata", d.s_axi_ro.rdata); h.watch("rvalid", d.s_axi_ro.rvalid); h.watch("bvalid", d.s_axi_wo.bvalid)
    h.watch("hw", h.wire(Cat(d.height, d.width)))
