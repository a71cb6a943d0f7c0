def track(frames, first=1, end=False):
    def mk(T):
        def f(t):
            r = {"track": int(t == T)}
            if end and t == T:
                r["end"] = 1
            return r
        return f
    return [mk(T) for T in range(first, frames)]


def job(name, o, c, b, frames, lens=None, **kw):
    j = dict(name="vbits_" + name, harness="vbits", frames=frames,
             cfg=dict(out_bits=o, converter=c, vbits_to_cbits_buffer_size=b))
    if lens:
        j["cfg"]["lens"] = lens
    j["cubes"] = [(["bad_bit"], track(frames)), (["bad_padding"], track(frames, end=True))]
    j.update(kw)
    return j


def main(r):
    r.hw([job("small", 8, 7, 20, 13),
          job("small2", 8, 15, 38, 11),
          job("micro", 16, 15, 41, 10),
          job("beta", 16, 30, 77, 11, lens=[1,15,17,30]),
          job("i3", 32, 48, 144, 11, lens=[2,48,31])])
META = dict(explanation='the real bit packer with free words, lengths, gaps and back-pressure; one arbitrary bit (or padding bit) is followed to its position in the output stream',
            bounds='small configurations fully symbolic for 10-13 cycles; shipped beta and 32-bit configurations with lengths from a representative set for 11 cycles')
