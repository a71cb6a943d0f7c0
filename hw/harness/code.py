"""difference + normalize + encode: exact LJ92 code of every (sample, prediction)"""
from nmigen import *
import constraints, encode
from difference import Difference
from normalize import Normalize
from encode import Encode


def build(h, cfg):
    m = h.mod
    bd, ps = cfg["bit_depth"], cfg["pixels_per_cycle"]
    c = dict(cfg, support_axi_lite=cfg.get("support_axi_lite", False))
    K = constraints.Constraints()
    m.submodules.diff = D = Difference(c, K)
    m.submodules.norm = N = Normalize(c, K)
    m.submodules.enc = E = Encode(c, K)
    pix = [h.drive(D.pixels_in[i], "pix%d" % i) for i in range(ps)]
    prd = [h.drive(D.predics_in[i], "prd%d" % i) for i in range(ps)]
    valid = h.drive(D.valid_in, "valid")
    end = h.drive(D.end_in, "end")
    m.d.comb += [N.valid_in.eq(D.valid_out), N.end_in.eq(D.end_out),
                 E.valid_in.eq(N.valid_out), E.end_in.eq(N.end_out)]
    for i in range(ps):
        m.d.comb += [N.vals_in[i].eq(D.vals_out[i]), N.vals_in_mns[i].eq(D.vals_out_mns[i]),
                     E.vals_in[i].eq(N.vals_out[i]), E.ssssx[i].eq(N.ssssx[i])]
    table = encode.get_ssss()[:bd + 1]
    if c["support_axi_lite"]:
        # one table entry (codeword cw of length cl for category k) is reprogrammed in the first cycle
        k = h.rigid("k", 5)
        cl = h.rigid("cl", 5)
        cw = h.rigid("cw", 16)
        h.assume((k <= bd) & (cl >= 1) & (cl <= (15 if bd == 16 else 16)) & ((cw >> cl) == 0))
        w = E.extern_w_port
        sh = h.wire(Mux(k == 16, cw, cw << k), bd + 16)
        m.d.comb += [w.addr.eq(k), w.data.eq(Cat(sh, cl)), w.en.eq(h.first())]
        h.assume(~h.first() | ~valid)
        rd = h.drive(E.extern_r_port.addr, "ra")
        ra1 = h.past(rd)
        st = h.past(~h.first()) & ~h.past(h.first())
        h.bad("readback", st & (ra1 == k) & (E.extern_r_port.data != Cat(sh, cl)))
    else:
        k = Const(31, 5); cl = Const(0, 5); cw = Const(0, 16)
    # the built-in table is a prefix code (decodable)
    ti = h.inp("ti", 5); tj = h.inp("tj", 5)
    cw_ = [Const(t[0], 16) for t in table]
    def pick(sel, vals, w):
        return h.choose(sel, vals, w)
    ci, li = pick(ti, [t[0] for t in table], 16), pick(ti, [t[1] for t in table], 5)
    cj, lj = pick(tj, [t[0] for t in table], 16), pick(tj, [t[1] for t in table], 5)
    inr = (ti <= bd) & (tj <= bd) & (ti != tj)
    h.bad("prefix", inr & (li <= lj) & ((cj >> h.wire(lj - li, 5)) == ci))
    h.bad("codelen", (ti <= bd) & ((li == 0) | (li > 16) | ((ci >> li) != 0)))
    # reference: code of one lane chosen freely
    lane = h.inp("lane", max(1, (ps - 1).bit_length()))
    px = h.choose_sig(lane, pix, bd)
    pr = h.choose_sig(lane, prd, bd)
    d16 = h.wire(Cat(px, Const(0, 16)) - pr, 16)                      # modulo 2^16
    neg = h.wire(d16[15])
    mag = h.wire(Mux(neg, -d16, d16), 16)
    cat = Const(0, 5)
    for b in range(16):
        cat = Mux(mag[b], b + 1, cat)
    cat = h.wire(cat, 5)
    code = h.wire(Mux(cat == k, cw, h.choose(cat, [t[0] for t in table], 16)), 16)
    clen = h.wire(Mux(cat == k, cl, h.choose(cat, [t[1] for t in table], 5)), 5)
    low = h.wire((1 << cat) - 1, 16)
    extra = h.wire(Mux(neg, d16 - 1, d16) & low, 16)
    val = h.wire(Mux(cat == 16, code, (code << cat) | extra), 32)
    n = h.wire(Mux(cat == 16, clen, clen + cat), 6)
    h.assume((cat != k) | (n <= min(16 + bd, 31)))
    rl = h.reg(len(lane), "lane")
    hit, (rv, rn, re, rlane) = h.follow(valid, E.valid_out, [val, n, end, lane])
    h.bad("value", hit & (h.choose_sig(rlane, [E.encs_out[i] for i in range(ps)], len(E.encs_out[0])) != rv))
    h.bad("count", hit & (h.choose_sig(rlane, [E.encs_ctr[i] for i in range(ps)], 5) != rn))
    h.bad("end", hit & (E.end_out != re))
    h.bad("late", h.cnt > 6)
    h.stuck("lost", (h.cnt != 0) & ~E.valid_out, 6)
    h.cover("out", hit & (rn > 8 if bd > 5 else rn > 4))
    h.cover("neg", hit & re & h.past(E.valid_out))
    h.watch("v", E.valid_out); h.watch("e", E.encs_out[ps - 1]); h.watch("n", E.encs_ctr[ps - 1])
