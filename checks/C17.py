from C16 import pattern
SEEDS = (755, 785, 2314)    # frames whose scan has 0xFF in both halves of a word


def job(name, top, f, gaps=(), stalls=(), rot=0, frames=1, tf=8, **kw):
    """arbitrary input gaps / receiver stalls in the given cycle ranges, none elsewhere"""
    wh = (4, 2)

    def fix(t):
        r = {}
        if not any(a <= t < b for a, b in gaps):
            r["valid"] = 1
        if not any(a <= t < b for a, b in stalls):
            r["busy"] = 0
        return r
    fr = [pattern("cam%d" % SEEDS[(rot + i) % len(SEEDS)], wh[0] * wh[1], 12) for i in range(frames)]
    return dict(name="%s_%s" % (name, top), harness="camera", frames=f, tframes=f + tf, fix=fix,
                cfg=dict(top=top, wh=list(wh), frames=fr, deadline=f - 2, **kw))


def main(r):
    jobs = []
    for top in ("beta", "micro", "beta_axis", "micro_axis", "beta_fifo_axis", "beta_fifo_lvds"):
        o = 4 if top[0] == "m" else 0
        full = top in ("beta", "micro")
        jobs.append(job("scan", top, 84, [(9, 14)], [(37 + o, 45 + o)]))
        jobs.append(job("twice", top, 140, [(8, 10)], [(44 + o, 46 + o), (52 + o, 57 + o)], 0 if full else 1, frames=2))
        if full:
            jobs.append(job("start", top, 84, [(9, 14)], [(30, 38)], 1))
            jobs.append(job("end", top, 84, [(9, 12)], [(44 + o, 55 + o)], 2))
        if "fifo" not in top:
            lims = (10, 31, 34, 36) if o else (10, 27, 30, 32)
            for lim in lims if full else lims[2:3]:
                jobs.append(job("force%d" % lim, top, 130, [(9, 12)], [(38, 42)], frames=2, limit=lim, force=True))
        if o:
            jobs.append(job("axi", top, 110, [(14, 18)], [(52, 58)], axi=True))
    r.hw(jobs, timeout=700)
META = dict(explanation="the real camera encoders and stream wrappers from reset through one or two frames; the receiver must see exactly the words of the marked, stuffed streams a reference model computes, the end flag on the last word only, nothing extra, all of it before a deadline, whatever the input gaps and receiver stalls in the stated windows; with a small cycle limit every frame must be either complete or closed by the forced-end marker, not before the limit",
            bounds="beta, micro, their AXI-Stream wrappers, and the beta FIFO and LVDS wrappers at their own 12-bit configurations with FIFO depths 25/16; 4x2 frames of three fixed sample patterns whose scans hold 0xFF in both halves of a word; one frame with arbitrary gaps in 3-5 and stalls in 8-11 cycles around input, first output and end (84 cycles), two frames with 2-cycle gaps and stalls in 7 cycles around the auto reset (140 cycles), four forced-end limits around start, middle and end of the scan (130 cycles, arbitrary gaps in 3 and stalls in 4 cycles); micro also with frame size and limit programmed over AXI4-Lite (110 cycles). Outside: beta_integration_fullaxi (its memory interfaces are under C10-C13), AXI-Stream stability of the marker words, other frame contents (C16 covers sample values)")
