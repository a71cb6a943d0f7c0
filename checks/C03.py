def main(r):
    jobs = []
    for bd, ps in ((12, 2), (16, 2), (2, 2), (12, 3), (12, 4), (16, 4), (8, 5), (12, 8), (16, 8)):
        jobs.append(dict(name="merge_bd%d_ps%d" % (bd, ps), harness="merge", frames=7, tframes=10, cfg=dict(bit_depth=bd, pixels_per_cycle=ps),
           fix=lambda t: {"track": int(t == 2)}, cost=ps))
    r.hw(jobs)
META = dict(explanation='the real merge tree with free codes and bit counts, one arbitrary group tracked, all other cycles arbitrary',
            bounds='2, 3, 4, 5, 8 pixels per cycle; 7 cycles from reset (10 thorough); the tracked group enters in cycle 2')
