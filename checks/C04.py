def window(lo, hi, tail):
    """continuous input up to cycle lo, arbitrary input gaps in [lo,hi)"""
    return lambda t: {} if lo <= t else {"new": 1}


def main(r):
    jobs = []
    for ps in (1, 2, 4):
        jobs.append(dict(name="sig_ps%d" % ps, harness="signals", frames=22, tframes=34, cfg=dict(pixels_per_cycle=ps), cost=99999999))
    jobs.append(dict(name="sig_ps3", harness="signals", frames=16, tframes=30, cfg=dict(pixels_per_cycle=3), cost=9999999))
    # large frames: concrete run-up, then arbitrary gaps around a row end and around the frame end
    for ps, w, h in ((1, 259, 3), (2, 4096, 3072), (4, 1028, 2), (1, 2, 300), (2, 4, 1030), (2, 65534, 2), (4, 65532, 1), (1, 3, 1), (2, 6, 1)):
        g = w // ps
        ends = [g] if g * h > 70000 else sorted({g, g * h})
        if g * h == ends[-1] and g > 20000:
            tier = "thorough"
        else:
            tier = "quick"
        for e in ends:
            if e < 12 and h > 1:
                continue
            lo = max(0, e - 5)
            jobs.append(dict(name="sig_ps%d_%dx%d_%d" % (ps, w, h, e), harness="signals", frames=lo + 16, start=lo, tier=tier,
                             cfg=dict(pixels_per_cycle=ps, wh=[w, h]), fix=window(lo, e, 0), nocover=e != g * h))
    r.hw(jobs)
META = dict(explanation='the real signals module with symbolic width and height and free input gaps, plus large concrete geometries with arbitrary gaps around each row end and frame end',
            bounds='symbolic geometries: 16-22 cycles from reset (30-34 thorough); large frames: a window of 16 cycles after a gap-free run-up')
