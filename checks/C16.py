import random
CFG = {1: (16, 15, 41), 2: (16, 30, 77), 4: (32, 48, 144)}


def job(name, bd, ps, wh, f, out=None, fix=None, fifos=(25, 25), tf=6, **kw):
    ob, conv, buf = out or CFG[ps]
    j = dict(name="%s_bd%d_ps%d_%dx%d" % ((name, bd, ps) + wh), harness="core", frames=f, tframes=f + tf,
             cfg=dict(LJ92_fifo_depth=fifos[0], converter_fifo_depth=fifos[1], bit_depth=bd, pixels_per_cycle=ps, wh=list(wh), out_bits=ob, converter=conv, vbits_to_cbits_buffer_size=buf, **kw))
    if fix:
        j["fix"] = fix
    return j


def pattern(seed, n, bd):
    """sample values: small, middle and full-range differences"""
    rng = random.Random(str(seed))
    v, out = [1 << bd - 1] * 4, []
    for i in range(n):
        c = i % 4
        big = rng.random() < 0.25
        v[c] = rng.getrandbits(bd) if big else max(0, min((1 << bd) - 1, v[c] + rng.choice((-20, -5, 0, 6, 40))))
        out.append(v[c])
    return out


def stalls(lo, gap, busy):
    """arbitrary input gaps up to cycle `gap`, arbitrary back-pressure up to cycle `busy`"""
    def f(t):
        r = {}
        if t >= gap:
            r["valid"] = 1
        if t >= busy:
            r["busy"] = 0
        return r
    return f


def full(g, b, n=6):
    """receiver blocked until every stage is full; arbitrary input gaps in n cycles from g (where the core
    runs full), arbitrary back-pressure in n cycles from b"""
    def f(t):
        r = {}
        if not g <= t < g + n:
            r["valid"] = 1
        if not b <= t < b + n:
            r["busy"] = int(t < b)
        return r
    return f


def main(r):
    jobs = []
    W = {1: (4, 2), 2: (4, 2), 4: (8, 2)}
    for ps, f in ((1, 38), (2, 38), (4, 38)):
        n = W[ps][0] * W[ps][1]
        for seed in (1, 2):
            jobs.append(job("sched%d" % seed, 12, ps, W[ps], f, fix=stalls(0, f - (20 if ps == 1 else 24), f - 10), pattern=pattern((ps, seed), n, 12), noise=1))
        if ps == 4:
            jobs.append(job("axis", 12, ps, W[ps], f, fix=stalls(0, f - 24, f - 10), pattern=pattern((ps, 1), n, 12), noise=1, axis=True))
    jobs.append(job("data", 2, 1, (4, 2), 36, (8, 4, 20)))
    jobs.append(job("data", 2, 2, (4, 2), 34, (8, 8, 30)))
    jobs.append(job("data", 2, 4, (8, 2), 34, (16, 15, 41)))
    for ps, wh, f, g, b, out, fifos in ((1, (4, 12), 114, 48, 58, (16, 15, 41), (25, 9)), (2, (4, 22), 116, 43, 58, (16, 15, 41), (25, 10)),
                                        (4, (12, 16), 116, 48, 58, (32, 48, 144), (25, 9))):
        jobs.append(job("full", 2, ps, wh, f, out, full(g, b, 4 if ps == 4 else 6), fifos, pattern=[(i * 7 // 3) % 4 for i in range(wh[0] * wh[1])], noise=0, full=True))
        if ps == 4:
            jobs.append(dict(jobs[-1], name="fullwide_ps4", fix=full(g, b, 7), tier="thorough"))
    r.hw(jobs, timeout=700)
META = dict(explanation="the real assembled core (integration_3 with every stage below it, and the integration_3 stream wrapper) from reset to the last word of a frame; every output bit is compared with the LJ92 scan a reference model computes from the accepted samples, under arbitrary input gaps and back-pressure in the stated windows",
            bounds="1, 2, 4 pixels per cycle, one frame from reset. bit depth 12: 4x2 / 8x2 frames of two fixed sample patterns with the lowest bit of every sample free, input gaps arbitrary in the first 14-18 cycles, receiver stalls arbitrary in the first 28 of 38 cycles, default word sizes. bit depth 2: all sample values of 4x2 / 8x2 frames, continuous input and ready receiver. Full pipeline: fixed samples, receiver blocked until every FIFO is full (58 cycles), then arbitrary input and output handshakes in 4-6 cycles (7 thorough) around it, 114-116 cycles. FIFO depths 25/25 and 25/9, frame sizes from a stand-in for the constant register file, forced end never reached, AXI-Lite absent")
