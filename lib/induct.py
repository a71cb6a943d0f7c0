"""k=1 induction over the real RTL from an arbitrary state.

The state is left free.  Candidate relations between registers (of the module and of the
monitor; nothing refers to register names) are guessed from simulated runs and then
*decided by the solver*: those that are not inductive are discarded until the rest is.
With the surviving invariants assumed, the solver decides whether any reachable state can
raise bad_*.  An output that is not inductive this way is simply not claimed here; a
`scenario` may turn the solver's state into an input trace, which is replayed from reset on
the real code and only counts when the output really rises."""
import os
import random


def word(v):
    r = 0
    for j, x in enumerate(v):
        r |= x << j
    return r


class Cand:
    __slots__ = ("key", "lit0", "lit1")


def litval(d, st, key):
    """a guard literal: conjunction of (reg==value)"""
    return all(word(st[r]) == v for r, v in key)


def rel_holds(st, rel):
    k = rel[0]
    if k == "diff":
        _, a, b, w, c = rel
        return (word(st[a]) - word(st[b]) - c) & ((1 << w) - 1) == 0
    if k == "sum":
        _, a, b, w, c = rel
        return (word(st[a]) + word(st[b]) - c) & ((1 << w) - 1) == 0
    if k == "sum3":
        _, a, b, e, w, c = rel
        return (word(st[a]) + word(st[b]) - word(st[e]) - c) & ((1 << w) - 1) == 0
    if k == "le":
        _, a, b, c = rel
        return word(st[a]) <= word(st[b]) + c
    if k == "eqc":
        return word(st[rel[1]]) == rel[2]
    if k == "gec":
        return word(st[rel[1]]) >= rel[2]
    if k == "lec":
        return word(st[rel[1]]) <= rel[2]
    if k == "bit":
        return st[rel[1]][rel[2]] == rel[3]
    raise ValueError(k)


def const(v, w):
    return [(v >> j) & 1 for j in range(w)]


def enc_rel(g, st, rel):
    k = rel[0]
    if k in ("diff", "sum", "sum3"):
        w = rel[-2]
        a, b = st[rel[1]][:w], st[rel[2]][:w]
        x = g.sub(a, b) if k == "diff" else g.add(a, b)
        y = const(rel[-1] & ((1 << w) - 1), w)
        if k == "sum3":
            y = g.add(st[rel[3]][:w], y)
        return g.eq(x, y)
    if k == "le":
        _, a, b, c = rel
        w = max(len(st[a]), len(st[b])) + 2
        x, y = st[a] + [0] * (w - len(st[a])), st[b] + [0] * (w - len(st[b]))
        if c >= 0:
            y = g.add(y, const(c, w))
        else:
            x = g.add(x, const(-c, w))
        return g.ult(y, x) ^ 1
    if k in ("eqc", "gec", "lec"):
        a = st[rel[1]]
        c = const(rel[2], len(a))
        return g.eq(a, c) if k == "eqc" else g.ult(a, c) ^ 1 if k == "gec" else g.ult(c, a) ^ 1
    if k == "bit":
        return st[rel[1]][rel[2]] ^ (rel[3] ^ 1)
    raise ValueError(k)


def enc_guard(g, st, key):
    return g.all([g.eq(st[r], const(v, len(st[r]))) for r, v in key])


def samples(d, gens, seed):
    out = []
    for i, gen in enumerate(gens):
        rng = random.Random("%s-%d" % (seed, i))
        st = d.initial()
        out.append(st)
        for row in gen(rng):
            inp = {n: row.get(n, 0) for n in d.inputs}
            val = d.comb(st, inp)
            if "ok" in d.outputs and d.get(val, d.outputs["ok"]) != [1]:
                break
            st = d.next(val)
            out.append(st)
    return out


def guess(d, sm, maxguard=4):
    ws = {r[0]: r[1] for r in d.regs}
    name = {r[0]: r[4] for r in d.regs}
    small = [r for r in ws if ws[r] <= maxguard]
    words = [r for r in ws if ws[r] > 2]
    rig = [r for r in words if "rig_" in name[r]]
    lits = []
    for r in small:
        vs = sorted({word(s[r]) for s in sm})
        if len(vs) > 1 and len(vs) <= 8:
            lits += [((r, v),) for v in vs]
    guards = [()] + lits
    for i, a in enumerate(lits):
        for b in lits[i + 1:]:
            if a[0][0] != b[0][0]:
                guards.append(a + b)
    cands = []
    strong = set()

    def add(key, rel):
        # skip when the same relation already holds under a weaker guard
        for n in range(len(key)):
            sub = key[:n] + key[n + 1:]
            if (sub, rel) in strong:
                strong.add((key, rel))
                return
        if len(key) == 2 and ((), rel) in strong:
            return
        strong.add((key, rel))
        cands.append((key, rel))
    dist = {}
    for s in sm:
        dist[tuple(sorted((k, tuple(v)) for k, v in s.items()))] = s
    sm = list(dist.values())
    for key in guards:
        ss = [s for s in sm if litval(d, s, key)]
        if not ss:
            continue
        vals = {r: [word(s[r]) for s in ss] for r in ws}
        for r in ws:
            vs = set(vals[r])
            if len(vs) == 1:
                add(key, ("eqc", r, vals[r][0]))
            elif ws[r] > 2:
                lo = min(vs)
                if 0 < lo <= 3:
                    add(key, ("gec", r, lo))
                for j in range(min(3, ws[r])):
                    bs = {s[r][j] for s in ss}
                    if len(bs) == 1:
                        add(key, ("bit", r, j, bs.pop()))
            elif ws[r] == 2:
                if max(vs) < 3:
                    add(key, ("lec", r, max(vs)))
        if len(ss) < 3:
            continue
        for i, a in enumerate(words):
            for b in words[i + 1:]:
                w = min(ws[a], ws[b])
                m = (1 << w) - 1
                df = {(x - y) & m for x, y in zip(vals[a], vals[b])}
                if len(df) == 1:
                    add(key, ("diff", a, b, w, df.pop()))
                sf = {(x + y) & m for x, y in zip(vals[a], vals[b])}
                if len(sf) == 1:
                    add(key, ("sum", a, b, w, sf.pop()))
                for e in rig:
                    if e in (a, b):
                        continue
                    w3 = min(w, ws[e])
                    tf = {(x + y - z) & ((1 << w3) - 1) for x, y, z in zip(vals[a], vals[b], vals[e])}
                    if len(tf) == 1:
                        add(key, ("sum3", a, b, e, w3, tf.pop()))
            for b in words:
                if a == b:
                    continue
                df = max(x - y for x, y in zip(vals[a], vals[b]))
                if -4 <= df <= 4:
                    add(key, ("le", a, b, df))
    return cands


def prove(run, d, outs, gens, tag, seed=1, timeout=120, limit=None):
    """-> dict(proved=[...], unproved={out: (state words, inputs)}, invariants=n, queries=n)"""
    d.coi(set(outs) | {"ok"})
    g = d.g
    sm = samples(d, gens, seed)
    cands = guess(d, sm)
    ncand = len(cands)
    names = {r[0]: r[4] for r in d.regs}
    s0 = {r[0]: [g.inp("S%d@0@%d" % (r[0], j)) for j in range(r[1])] for r in d.regs}
    inp = [{n: d.sym(n, t, w) for n, (s, w) in d.inputs.items()} for t in (0, 1)]
    v0 = d.comb(s0, inp[0])
    s1 = d.next(v0)
    v1 = d.comb(s1, inp[1])
    ok0, ok1 = d.get(v0, d.outputs["ok"])[0], d.get(v1, d.outputs["ok"])[0]
    bad0 = {o: d.get(v0, d.outputs[o])[0] for o in outs}
    bad1 = {o: d.get(v1, d.outputs[o])[0] for o in outs}
    init = d.initial()
    base = []
    for key, rel in cands:
        if litval(d, init, key) and not rel_holds(init, rel):
            continue
        a0 = g.and_(enc_guard(g, s0, key), enc_rel(g, s0, rel) ^ 1) ^ 1
        a1 = g.and_(enc_guard(g, s1, key), enc_rel(g, s1, rel) ^ 1) ^ 1
        base.append((key, rel, a0, a1))
    res = dict(candidates=ncand, queries=0, proved=[], unproved={}, seconds=0.0)
    path = os.path.join(run.work, "ind_%s.cnf" % tag)
    import time
    t0 = time.time()

    def solve(root):
        if root == 0:
            return "unsat", None
        nm, nv, nc = g.cnf(root, path)
        res["queries"] += 1
        r, tr = run.solver.sat(path, timeout)
        if r != "sat":
            return r, None
        return r, {nm[x] for x in tr if x in nm}

    def evaluate(lits, on):
        """values of AIG literals under the model (unmentioned inputs are 0)"""
        val = {0: 0}
        for l in lits:
            st = [l >> 1]
            while st:
                n = st[-1]
                if n in val:
                    st.pop()
                    continue
                o = g.op[n]
                if o == "i":
                    val[n] = 1 if g.names[n] in on else 0
                    st.pop()
                    continue
                miss = [a >> 1 for a in g.args[n] if a >> 1 not in val]
                if miss:
                    st.extend(miss)
                    continue
                x = [val[a >> 1] ^ (a & 1) for a in g.args[n]]
                val[n] = x[0] & x[1] if o == "a" else x[0] ^ x[1] if o == "x" else (x[1] if x[0] else x[2])
                st.pop()
        return [val[l >> 1] ^ (l & 1) for l in lits]

    def houdini(extra):
        """-> (proved outputs, {output: state}, surviving relations); extra constrains the (constant) parameters"""
        items, live, cex = list(base), set(outs), {}
        while True:
            hyp = g.all([a0 for *_, a0, _ in items] + [ok0] + [bad0[o] ^ 1 for o in live] + extra)
            r, on = solve(g.and_(hyp, g.any([a1 ^ 1 for *_, a1 in items])))
            if r == "unknown":
                return set(), {o: None for o in outs}, []
            if r == "sat":
                ev = evaluate([a1 for *_, a1 in items], on)
                n0 = len(items)
                items = [it for it, e in zip(items, ev) if e]
                assert len(items) < n0
                continue
            n0 = len(live)
            for o in sorted(live):
                r, on = solve(g.and_(g.and_(hyp, ok1), bad1[o]))
                if r != "unsat":
                    live.discard(o)
                    cex[o] = None if r != "sat" else {names[x]: word([int("S%d@0@%d" % (x, j) in on) for j in range(len(s0[x]))]) for x in s0}
            if len(live) == n0:
                return live, cex, items
    live, cex, items = houdini([])
    res["proved"], res["unproved"], res["invariants"] = sorted(live), cex, len(items)
    if cex and limit:
        # the smallest parameters for which it fails: below them it is proved, so the state found is worth a run from reset
        rigs = [x for x in s0 if "rig_" in names[x] and len(s0[x]) > 8]
        def upto(b):
            return houdini([g.ult(const(b, len(s0[x])), s0[x]) ^ 1 if b >> len(s0[x]) == 0 else 1 for x in rigs])[1]
        lo = 0
        for b in limit["bounds"]:
            cx = upto(b)
            if not cx:
                res["proved_below"] = lo = b
                continue
            while lo and b - lo > 1 and time.time() - t0 < 240:
                m = (lo + b) // 2
                c = upto(m)
                if c:
                    b, cx = m, c
                else:
                    lo = m
            res["unproved"] = {**res["unproved"], **cx}
            break
    res["seconds"] = time.time() - t0
    return res
