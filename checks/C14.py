def gens():
    def g(limit, pv):
        def f(rng):
            rows = []
            for t in range(limit + 16):
                rows.append(dict(valid=int(rng.random() < pv), limit=limit if t == 0 else rng.getrandbits(24)))
            return rows
        return f
    return [g(l, p) for l in (0, 1, 2, 5, 9, 14, 31, 40) for p in (0.1, 0.5, 1.0)] + [g(37, 0.0)]


def run_to_limit(cti, out):
    """valid once, then count to the limit of the solver's state"""
    L = [v for k, v in cti.items() if "rig_limit" in k]
    for l in range(L[0], min(L[0] + 6, 1 << 24)) if L else ():
        yield [(dict(valid=0, limit=l), 1), (dict(valid=1, limit=l), 1), (dict(valid=0), l + 12)]


def main(r):
    jobs = [dict(name="force", harness="misc", cfg=dict(what="force"), frames=40, tframes=90)]
    r.hw(jobs)
    r.induct([dict(name="force_any_limit", harness="misc", cfg=dict(what="force"), gens=gens(), scenario=run_to_limit,
                   bounds=[60] + [2 ** k + 8 for k in range(6, 24)] + [2 ** 24 - 1])])
META = dict(explanation="the real forced-end module with an arbitrary 24-bit limit and arbitrary inputs: bounded model checking from reset, and one-step induction from an arbitrary state under solver-established invariants for every limit",
            bounds="from reset: 40 cycles (90 thorough); induction: one step from every state satisfying the invariants, all 24-bit limits; the limit does not change while counting")
