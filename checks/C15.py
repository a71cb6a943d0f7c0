def gens(w=1):
    def g(p):
        def f(rng):
            return [dict(en=sum((rng.random() < p) << k for k in range(8))) for _ in range(12)]
        return f
    return [g(p) for p in (0.0, 0.2, 0.5, 0.9, 1.0)]


def run_all(cti, out):
    yield [(dict(en=255), (1 << 26) + 4)]


def main(r):
    m = lambda name, frames, tframes, **cfg: dict(name=name, harness="misc", cfg=cfg, frames=frames, tframes=tframes)
    jobs = [m("auto_wired", 16, 40, what="auto", wired=True), m("auto_alone", 16, 40, what="auto", wired=False)]
    jobs += [m("delay%d" % n, n + 12, n + 30, what="delay", n=n) for n in (3, 4, 5, 6, 7, 8, 9, 12, 15, 16)]
    jobs += [m("debug", 20, 40, what="debug")]
    jobs += [m("reverse%d%s" % (n, "_sync" if s else ""), 4, 8, what="reverse", n=n, sync=s) for n in (1, 8, 24, 32, 64) for s in (False, True)]
    jobs += [m("regfile", 6, 12, what="regfile")]
    r.hw(jobs)
    r.induct([dict(name="debug_any_history", harness="misc", cfg=dict(what="debug"), gens=gens(), scenario=run_all)])
META = dict(explanation="the real helper modules with arbitrary inputs: bounded model checking from reset; the debug counters also by one-step induction from every state",
            bounds="from reset: auto reset 16 cycles (40 thorough), alone and with its output resetting the core clock domain as in the camera integrations; delayers of 3..9, 12, 15, 16 for n+12 cycles (n+30); eight tap counters 20 cycles (40) and, by induction, any number; bit reversers of 1..64 bits with and without a register; the constant register file")
