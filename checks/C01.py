def main(r):
    jobs = []
    for bd in range(2, 17):
        jobs.append(dict(name="code_bd%d" % bd, harness="code", frames=9, tframes=12, cfg=dict(bit_depth=bd, pixels_per_cycle=1)))
    for bd, ps in ((12, 2), (12, 4), (16, 2), (8, 4)):
        jobs.append(dict(name="code_bd%d_ps%d" % (bd, ps), harness="code", frames=8, tframes=11, cfg=dict(bit_depth=bd, pixels_per_cycle=ps)))
    for bd in (2, 12, 16):
        jobs.append(dict(name="code_prog_bd%d" % bd, harness="code", frames=9, tframes=11, cfg=dict(bit_depth=bd, pixels_per_cycle=1, support_axi_lite=True)))
    r.hw(jobs)
META = dict(explanation='difference, normalize and encode chained as in the integration; every sample, prediction, valid and end input of every cycle is a solver variable; the reference (category, code table, extra bits) is computed by the monitor',
            bounds='all bit depths 2..16 at 1 pixel per cycle, four multi-pixel configurations, programmable tables at three depths; 8-9 cycles from reset (12 thorough), which exceeds the 4-cycle pipeline')
