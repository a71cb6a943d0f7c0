def main(r):
    jobs = []
    for bd, ps, f in ((12, 1, 20), (12, 2, 16), (12, 4, 12), (16, 1, 14), (2, 2, 16), (8, 4, 12)):
        jobs.append(dict(name="pred_bd%d_ps%d" % (bd, ps), harness="predictor", frames=f, tframes=f + 14, cfg=dict(bit_depth=bd, pixels_per_cycle=ps)))
    r.hw(jobs)
META = dict(explanation='the real predictor with free samples, valid, end and new-row inputs against a per-component row model',
            bounds='1, 2, 4 pixels per cycle; 12-20 cycles from reset (26-34 thorough), all row lengths reachable in them')
