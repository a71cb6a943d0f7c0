def track(frames, first=1):
    return [(lambda t, T=T: {"track": int(t == T)}) for T in range(first, frames - 1)]


def job(name, bd, ps, conv, frames, lens=None, **kw):
    j = dict(name="conv_" + name, harness="conv", frames=frames, cfg=dict(bit_depth=bd, pixels_per_cycle=ps, converter=conv))
    if lens:
        j["cfg"]["lens"] = lens
    j["cubes"] = [(["bad_bit"], track(frames))]
    j.update(kw)
    return j


def main(r):
    r.hw([job("small6", 2, 1, 6, 14),
          job("small5", 2, 1, 5, 14),
          job("full", 2, 1, 18, 12, skip=["cover_steps"]),
          job("micro", 12, 1, 15, 12, skip=["cover_steps"]),
          job("beta", 12, 2, 30, 12, skip=["cover_steps"]),
          job("b36", 16, 2, 36, 12, skip=["cover_steps"]),
          job("i3", 12, 4, 48, 12)])
META = dict(explanation='the real converter between a modelled input FIFO and output FIFO; one arbitrary bit of an arbitrary code is followed',
            bounds='seven (bit depth, pixels, word size) configurations, 12-14 cycles from reset; code lengths free, gaps and nearly-full free')
