"""Reference monitor for a whole frame: what the assembled encoder must emit.

For every accepted group the LJ92 codes of its samples are computed from scratch
(same-component left prediction, first-of-previous-row at row starts, built-in code table);
one arbitrary bit of one arbitrary sample is remembered together with its absolute position
in the scan and compared when the output reaches that position."""
from nmigen import *


def code_of(h, table, bd, px, pr):
    """(code, length) of sample px predicted by pr"""
    d16 = h.wire(Cat(px, Const(0, 16)) - pr, 16)
    neg = h.wire(d16[15])
    mag = h.wire(Mux(neg, -d16, d16), 16)
    cat = Const(0, 5)
    for b in range(16):
        cat = Mux(mag[b], b + 1, cat)
    cat = h.wire(cat, 5)
    code = h.choose(cat, [t[0] for t in table], 16)
    clen = h.choose(cat, [t[1] for t in table], 5)
    low = h.wire((1 << cat) - 1, 16)
    extra = h.wire(Mux(neg, d16 - 1, d16) & low, 16)
    val = h.wire(Mux(cat == 16, code, (code << cat) | extra), 32)
    return val, h.wire(Mux(cat == 16, clen, clen + cat), 6)


def encode_frame(samples, W, bd):
    """LJ92 scan of a frame given in coding order (4 components interleaved, W samples a row), as bytes' bits"""
    import encode
    table = encode.get_ssss()
    bits = []
    for i, x in enumerate(samples):
        p = samples[i - 4] if i % W >= 4 else samples[i - W] if i >= W else 1 << (bd - 1)
        d = (x - p + (1 << 15)) % (1 << 16) - (1 << 15)
        cat = abs(d).bit_length()
        code, n = table[cat]
        bits += [(code >> (n - 1 - k)) & 1 for k in range(n)]
        if cat < 16:
            v = d if d > 0 else d - 1
            bits += [(v >> (cat - 1 - k)) & 1 for k in range(cat)]
    return bits


def marked_stream(samples, W, bd):
    """the words of a camera-encoder frame: 8 start words, stuffed scan, 8 end words"""
    bits = encode_frame(samples, W, bd)
    bits += [0] * (-len(bits) % 16)
    by = []
    for i in range(0, len(bits), 8):
        b = int("".join(map(str, bits[i:i + 8])), 2)
        by += [b, 0] if b == 255 else [b]
    by += [0] * (len(by) % 2)
    return [0xFFFF] * 8 + [by[i] << 8 | by[i + 1] for i in range(0, len(by), 2)] + [0xFFFF] * 8


class Scan:
    """input side; W, H: constants (samples per row, rows)"""

    def __init__(self, h, cfg, W, H, accept, pix, clear=None):
        import encode
        bd, ps = cfg["bit_depth"], cfg["pixels_per_cycle"]
        self.h, PW = h, 12
        table = encode.get_ssss()[:bd + 1]
        gb, gr = 4 // ps, W // ps
        assert W % 4 == 0
        accept = h.wire(accept, 1)
        half = 1 << (bd - 1)
        self.count = count = h.reg(8, "groups")          # groups accepted
        self.total = total = h.reg(PW, "total")          # bits of the scan so far
        self.ended = ended = h.reg(1, "ended")
        col, row = h.reg(8, "col"), h.reg(8, "row")
        left = [h.reg(bd, "left", half) for _ in range(4)]
        top = [h.reg(bd, "top", half) for _ in range(4)]
        trk = h.inp("track")
        lane = h.inp("lane", max(1, (ps - 1).bit_length()))
        off = h.inp("off", 5)
        self.on, self.tpos, self.tval = h.reg(1, "trk"), h.reg(PW, "tpos"), h.reg(1, "tval")
        pos, val_l, len_l, pos_l = total, [], [], []
        for i in range(ps):
            ph = h.wire(col[0:1] if gb == 2 else col[0:2] if gb == 4 else Const(0, 1))
            l = h.choose_sig(ph, [left[g * ps + i] for g in range(gb)], bd)
            t = h.choose_sig(ph, [top[g * ps + i] for g in range(gb)], bd)
            isfirst = h.wire(col < gb)
            v, n = code_of(h, table, bd, pix[i], h.wire(Mux(isfirst, t, l), bd))
            val_l.append(v); len_l.append(n); pos_l.append(pos)
            pos = h.wire(pos + n, PW)
            for g in range(gb):
                with h.mod.If(accept & (ph == g)):
                    h.setsync(left[g * ps + i].eq(pix[i]))
                    with h.mod.If(isfirst):
                        h.setsync(top[g * ps + i].eq(pix[i]))
        self.last = last = h.wire((col == gr - 1) & (row == H - 1))
        with h.mod.If(accept):
            h.setsync(count.eq(count + 1), total.eq(pos), col.eq(Mux(col == gr - 1, 0, col + 1)),
                      row.eq(Mux(col == gr - 1, row + 1, row)), ended.eq(ended | last))
        n = h.choose_sig(lane, len_l, 6)
        v = h.choose_sig(lane, val_l, 32)
        p = h.choose_sig(lane, pos_l, PW)
        was = h.reg(1, "was")
        self.start = start = h.wire(accept & trk & ~was & (off < n) & (lane < ps))
        with h.mod.If(start):
            h.setsync(was.eq(1), self.on.eq(1), self.tpos.eq(p + off), self.tval.eq(h.bit(v, h.wire(n - 1 - off, 6))))
        if clear is not None:
            with h.mod.If(clear):
                h.setsync(count.eq(0), total.eq(0), ended.eq(0), col.eq(0), row.eq(0), self.on.eq(0),
                          *[x.eq(half) for x in left + top])
        self.accept = accept
        self.pw = PW
        self.all_lens = len_l


def out_bytes(h, s, give, nbytes, word, n_done, end, endpos=None):
    """checks one output word of nbytes bytes (first byte most significant) whose first byte is scan byte n_done"""
    PW = s.pw
    first = h.wire(n_done << 3, PW)
    bits = nbytes * 8
    last = h.wire(s.ended & (s.total <= h.wire(first + bits, PW)))
    h.bad("premature", give & ~s.ended & (s.total < h.wire(first + bits, PW)))
    h.bad("extra", give & s.ended & (s.total <= first))
    rel = h.wire(s.tpos - first, PW)
    h.bad("bit", give & s.on & (s.tpos >= first) & (rel < bits) & (h.bit(word, h.wire(bits - 1 - rel, 6)) != s.tval))
    po = h.inp("padoff", bits.bit_length() - 1)
    pp = h.wire(first + bits - 1 - po, PW)
    h.bad("padding", give & s.ended & (pp >= s.total) & h.bit(word, po))
    h.bad("end", give & (end != last))
    return last
