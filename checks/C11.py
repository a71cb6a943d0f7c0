def bits(n=32):
    return [(lambda t, b=b: {"B": b}) for b in range(n)]


def main(r):
    jobs = []
    for bd, dbg, n, tn in ((12, False, 26, 32), (12, True, 20, 28), (2, False, 26, 32), (16, False, 26, 32)):
        c = [(["bad_read", "bad_encoder", "bad_hw_port", "bad_cycles_port"], bits())]
        jobs.append(dict(name="core_bd%d%s" % (bd, "_dbg" if dbg else ""), harness="coreaxi", frames=n, tframes=tn,
                         cfg=dict(bit_depth=bd, axi_lite_debug=dbg), cubes=c))
    jobs.append(dict(name="core_bd12_reset", harness="coreaxi", frames=22, tframes=28, cfg=dict(bit_depth=12, axi_lite_debug=False, core_reset=True),
                     cubes=[(["bad_read", "bad_encoder", "bad_hw_port", "bad_cycles_port"], bits())]))
    r.hw(jobs)
META = dict(explanation="the real core register interface with the encoder's real code-table memory, driven by an arbitrary single-outstanding AXI4-Lite master; one arbitrary bit of one arbitrary register is shadowed and compared on every read, at the height/width/cycle-limit ports and at the encoder",
            bounds="bit depths 2, 12, 16 with and without debug counters, 12 also with the core clock domain reset at arbitrary times; 20-26 cycles from reset (28-32 thorough), i.e. three back-to-back transactions; every bit of every register; addresses outside the documented map are limited to undecoded ones")
