def main(r):
    jobs = []
    for mod, n, tn in (("b16_b40", 18, 30), ("b16_b64", 22, 34), ("b64_b32", 16, 26), ("b64_b32_2", 16, 26)):
        jobs.append(dict(name=mod, harness="adapt", cfg=dict(mod=mod), frames=n, tframes=tn))
    for mod in ("b16_b40", "b64_b32_2"):      # these sit outside the core that is reset between frames
        jobs.append(dict(name=mod + "_reset", harness="adapt", cfg=dict(mod=mod, core_reset=True), frames=16, tframes=26))
    r.hw(jobs)
META = dict(explanation='each real adapter with free words, gaps and back-pressure; one arbitrary byte of the stream is followed; b16_b40 and b64_b32_2 also with the core clock domain reset at arbitrary times',
            bounds='16-22 cycles from reset (26-34 thorough); nothing is offered in the very first cycle after reset')
