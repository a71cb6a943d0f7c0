def pre(n, m):
    return lambda t: dict(m) if t < n else {}


def main(r):
    jobs = []
    P = lambda depth, lat: dict(what="pipe", bit_depth=2, pixels_per_cycle=1, LJ92_fifo_depth=depth, latency=lat)
    jobs.append(dict(name="pipe25_short", harness="fifos", frames=12, cfg=P(25, 2), skip=["cover_full"]))
    for dep, lat, win in ((25, 7, 20), (32, 7, 19), (40, 5, 22)):
        n = dep - 10
        jobs.append(dict(name="pipe%d" % dep, harness="fifos", frames=n + win, tframes=n + 26, tier="thorough" if dep == 40 else "quick", cfg=P(dep, lat),
                         fix=pre(n - 1, dict(acc=1, latch=0)), cost=1000))
    C = lambda what, bd, ps, conv, depth: dict(what=what, bit_depth=bd, pixels_per_cycle=ps, converter=conv, converter_fifo_depth=depth)
    jobs.append(dict(name="conv_short", harness="fifos", frames=13, tframes=17, cfg=C("conv", 2, 1, 6, 10)))
    jobs.append(dict(name="conv_near", harness="fifos", frames=26, tframes=30, cfg=C("conv", 12, 2, 30, 20), fix=pre(10, dict(valid=1, latch=0))))
    jobs.append(dict(name="pair_small", harness="fifos", frames=18, cfg=C("pair", 2, 1, 6, 10)))
    jobs.append(dict(name="pair_micro", harness="fifos", frames=18, cfg=C("pair", 12, 1, 15, 9)))
    jobs.append(dict(name="pair_beta", harness="fifos", frames=18, cfg=C("pair", 12, 2, 30, 9)))
    jobs.append(dict(name="axihp_short", harness="fifos", frames=8, cfg=dict(what="axihp"), skip=["cover_r16"]))
    for n, fr in ((10, 20), (26, 36)):
        jobs.append(dict(name="axihp_%d" % n, harness="fifos", frames=fr, cfg=dict(what="axihp"), fix=pre(n, dict(valid=1, read=0))))
    r.hw(jobs)
META = dict(explanation='the real FIFOs driven by free producers and consumers; one arbitrary word is followed; the shortest and the nearly-full regions are both explored',
            bounds='FIFO depths 9..40; 8-40 cycles from reset, the nearly-full runs start with a concrete fill')
