"""Bounded model checking of the real RTL: plan -> encode -> CNF -> SAT solver -> replay.

A *job* is a dict:
  harness, cfg    hw/harness/<harness>.py and its configuration
  frames          number of clock cycles unrolled from reset (the bound)
  fix(t)          optional: concrete values for some inputs in cycle t (the rest stay symbolic)
  only/skip       optional: subset of bad_* names
  tier            "quick" | "thorough" (thorough jobs run only in that tier)
  deeper          optional larger frame count tried within the time left; not reaching it
                  only lowers the reported bound
"""
import os, sys, json, time, random, shutil, subprocess, threading, traceback, signal, queue, itertools
import multiprocessing as mp
from concurrent.futures import Future, ThreadPoolExecutor, ProcessPoolExecutor, as_completed
import hw
from rtl import toint

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
KISSAT = shutil.which("kissat")
CADICAL = shutil.which("cadical") or "/app/lean4-4.33.0/build/release/stage1/bin/cadical"


class Pool:
    """threads taking the pending call with the smallest priority value first"""
    def __init__(self, n):
        self.q, self.k = queue.PriorityQueue(), itertools.count()
        self.th = [threading.Thread(target=self.run, daemon=True) for _ in range(n)]
        for t in self.th:
            t.start()

    def submit(self, prio, fn, *a):
        f = Future()
        self.q.put((prio, next(self.k), f, fn, a))
        return f

    def run(self):
        while True:
            _, _, f, fn, a = self.q.get()
            if fn is None:
                return
            try:
                f.set_result(fn(*a))
            except BaseException as e:
                f.set_exception(e)

    def shutdown(self):
        for _ in self.th:
            self.q.put((float("inf"), next(self.k), None, None, None))
        for t in self.th:
            t.join()


class Killed(Exception):
    pass


class Solver:
    """runs external SAT solvers, killable"""

    def __init__(self):
        self.procs = set()
        self.lock = threading.Lock()
        self.stop = False

    def kill(self):
        with self.lock:
            self.stop = True
            for p in self.procs:
                try:
                    p.kill()
                except OSError:
                    pass

    def sat(self, cnf, timeout, which="kissat"):
        """-> ("sat", set of true vars) | ("unsat",None) | ("unknown",None)"""
        if which == "cadical":
            cmd = [CADICAL, "-q", "-t", str(max(1, int(timeout))), cnf]
        else:
            cmd = [KISSAT, "-q", "--relaxed", "--time=%d" % max(1, int(timeout)), cnf]
        with self.lock:
            if self.stop:
                raise Killed()
            p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
            self.procs.add(p)
        out = p.communicate()[0].decode()
        with self.lock:
            self.procs.discard(p)
            if self.stop:
                raise Killed()
        if p.returncode == 20:
            return "unsat", None
        if p.returncode == 10:
            tr = set()
            for l in out.split("\n"):
                if l.startswith("v "):
                    tr.update(int(x) for x in l[2:].split() if int(x) > 0)
            return "sat", tr
        return "unknown", None


def random_trace(d, n, rng, fix=None, stickiness=0.5):
    tr = []
    prev = None
    for t in range(n):
        row = {}
        for name, (s, w) in d.inputs.items():
            if prev is not None and rng.random() < stickiness:
                row[name] = prev[name]
            else:
                row[name] = rng.choice([rng.getrandbits(w), rng.getrandbits(w), 0, (1 << w) - 1])
        if fix:
            row.update({k: v for k, v in fix(t).items() if k in row})
        tr.append(row)
        prev = row
    return tr


def compare(d, trace, rows):
    """our interpreter against nmigen's simulator on a concrete trace; returns first mismatch"""
    st = d.initial()
    for t, x in enumerate(trace):
        o, st = d.step(st, x)
        for k, v in o.items():
            v = toint(v)
            if v != rows[t][k]:
                return "cycle %d output %s: interpreter %s simulator %s" % (t, k, v, rows[t][k])
    return None


def build(job, work):
    """elaborate + lower the real module and harness; validate the encoding against the simulator"""
    t0 = time.time()
    d = hw.build(job["harness"], job["cfg"], work)
    res = dict(key=bkey(job), base=d.base, cells=d.ncells, regbits=d.nregbits, functions=d.meta.get("modules", []))
    res["build_s"] = time.time() - t0
    fix = job.get("fix")
    rng = random.Random("%s-%s" % (SEED, job["name"]))
    tr = random_trace(d, job.get("validate", 60), rng, fix)
    rows = hw.replay(d, tr)
    bad = compare(d, tr, rows)
    if bad:
        raise hw.CheckError("encoding disagrees with the simulator: " + bad)
    return res


def bkey(job):
    return job["harness"] + json.dumps(job["cfg"], sort_keys=True)


def load(job, base):
    d = hw.Design(base + ".json", json.load(open(base + ".meta")))
    d.harness, d.cfg, d.base = job["harness"], job["cfg"], base
    return d


def wanted(job, d):
    only, skip = job.get("only"), job.get("skip", ())
    want = {n for n in d.outputs if n.startswith(("bad_", "known_", "cover_"))}
    if only is not None:
        want = {n for n in want if n in only or n.startswith("cover_")}
    want -= set(skip)
    if job.get("nocover"):
        want = {n for n in want if not n.startswith("cover_")}
    return want


def fixof(job, cube):
    f = job.get("fix")
    if cube is None:
        return f or (lambda t: {})
    if f is None:
        return cube
    return lambda t: {**f(t), **cube(t)}


def prep(job, base, group, cubei):
    """unroll from reset, emit one CNF per bad/cover of the group"""
    d = load(job, base)
    cube = job["cubes"][group][1][cubei] if group is not None else None
    fix = fixof(job, cube)
    outs = wanted(job, d)
    cubed = {n for g in job.get("cubes", []) for n in g[0]}
    want = (outs & set(job["cubes"][group][0])) if group is not None else outs - cubed
    res = dict(name=job["name"], base=base, queries=[])
    t1 = time.time()
    N = job["frames"]
    g = d.g
    d.coi(want)
    st = d.initial()
    acc = {}
    tag = "%s.%s.%s" % (job["name"], group, cubei)
    b = os.path.join(os.path.dirname(base), tag)
    start = job.get("start", 0)
    for t in range(N):
        f = fix(t)
        inp = {n: (f[n] if n in f else d.sym(n, t, w)) for n, (s, w) in d.inputs.items()}
        val = d.comb(st, inp)
        st = d.next(val)
        for n, v in d.outs(val, want).items():
            if v[0] != 0 and t >= start:
                acc.setdefault(n, []).append(v[0])
    res["frames"] = N
    t2 = time.time()
    res["unroll_s"] = t2 - t1
    for n in sorted(want):
        q = dict(job=job["name"], out=n, frames=N, group=group, cubei=cubei)
        root = g.any(acc.get(n, []))
        if root == 0:
            q["trivial"] = "unsat"
            res["queries"].append(q)
            continue
        q["cnf"] = "%s.%s.cnf" % (b, n)
        q["names"], q["vars"], q["clauses"] = g.cnf(root, q["cnf"])
        res["queries"].append(q)
    res["cnf_s"] = time.time() - t2
    return res


def decode(d, job, q, true):
    on = {q["names"][v] for v in true if v in q["names"]}
    fix = fixof(job, job["cubes"][q["group"]][1][q["cubei"]] if q["group"] is not None else None)
    tr = []
    for t in range(q["frames"]):
        row = {}
        f = fix(t)
        for n, (s, w) in d.inputs.items():
            if n in f:
                row[n] = f[n]
            else:
                row[n] = sum(1 << j for j in range(w) if "%s@%d@%d" % (n, t, j) in on)
        tr.append(row)
    return tr


def confirm(job, q, true, work):
    """replay a model on the real code in nmigen's simulator.  -> (frame or None, trace, rows)"""
    d = load(job, q["base"])
    tr = decode(d, job, q, true)
    rows = hw.replay(d, tr)
    mism = compare(d, tr, rows)
    for t, r in enumerate(rows):
        if r[q["out"]]:
            return t, tr[:t + 1], rows[:t + 1], mism
    return None, tr, rows, mism


JOBS = {}


def _guard(fn, name, *a):
    try:
        return fn(JOBS[name], *a)
    except hw.CheckError as e:
        return dict(name=name, error=str(e))
    except Exception:
        return dict(name=name, error=traceback.format_exc())


def _build(name, work):
    return _guard(build, name, work)


def _prep(name, base, group, cubei):
    return _guard(prep, name, base, group, cubei)


def load_known(pid):
    """known_findings.txt:  <property> | <job pattern> | <known_* output> | description"""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if not l or l.startswith(("#", "fixed:")):
                continue
            f = [x.strip() for x in l.split("|")]
            if f[0] == pid:
                out.append((f[1], f[2], f[3]))
    return out


class Run:
    """one check run"""

    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.work = os.path.join(VERIF, "out", "%s_%d" % (pid, os.getpid()))
        os.makedirs(self.work, exist_ok=True)
        self.replays = os.path.join(VERIF, "out", "replay")
        os.makedirs(self.replays, exist_ok=True)
        self.solver = Solver()
        self.stop = threading.Event()
        self.stats = dict(queries=0, unsat=0, sat_cover=0, solver_s=0.0, unknown=0)
        self.samples = []
        self.jobs_report = []
        self.assumptions = []
        self.functions = []
        self.states = 0
        self.transitions = 0
        self.validated = 0
        self.violations = []
        self.errors = []
        self.known = {k[1]: k for k in load_known(pid)}
        self.known_hit = {}
        self.extra = {}
        self.thorough = TIER == "thorough"

    def log(self, *a):
        print("[%s %6.1fs]" % (self.pid, time.time() - self.t0), *a, flush=True)

    def violation(self, data, what):
        p = os.path.join(self.replays, "%s_%d_%d.json" % (self.pid, os.getpid(), len(self.violations)))
        json.dump(data, open(p, "w"))
        self.violations.append(what)
        self.log("counterexample confirmed by replay on the real code:", what)
        print("VIOLATION property=%s replay=%s" % (self.pid, p), flush=True)

    # ---- hardware jobs
    def hw(self, jobs, timeout=300, workers=8):
        tier_jobs = [j for j in jobs if TIER == "thorough" or j.get("tier", "quick") == "quick"]
        byname = {}
        for k, j in enumerate(tier_jobs):
            j.setdefault("name", "%s_%d" % (j["harness"], k))
            if TIER == "thorough" and "tframes" in j:
                j["frames"] = j["tframes"]
            assert j["name"] not in byname
            byname[j["name"]] = j
        JOBS.clear()
        JOBS.update(byname)
        ctx = mp.get_context("fork")
        qpool = Pool(workers)
        futs = []
        pool = ctx.Pool(workers, maxtasksperchild=1)
        order = sorted(tier_jobs, key=lambda j: -j.get("cost", j["frames"]))
        pend, builds = [], {}
        for j in order:
            builds.setdefault(bkey(j), []).append(j)
        for k, js in builds.items():
            pend.append(pool.apply_async(_build, (js[0]["name"], self.work)))
        stop = self.stop

        def solve(q, job):
            if stop.is_set():
                return
            t = time.time()
            try:
                if "trivial" in q:
                    r, model = q["trivial"], None
                else:
                    r, model = self.solver.sat(q["cnf"], job.get("timeout", timeout), job.get("solver", "kissat"))
            except Killed:
                return
            dt = time.time() - t
            try:
                self.result(q, job, r, model, dt, stop)
            except Exception:
                self.errors.append("%s/%s: %s" % (q["job"], q["out"], traceback.format_exc()))

        while pend and not stop.is_set():
            done = [p for p in pend if p.ready()]
            if not done:
                time.sleep(0.05)
                continue
            for p in done:
                pend.remove(p)
                r = p.get()
                if "error" in r:
                    self.errors.append("%s: %s" % (r["name"], r["error"]))
                    self.log("ERROR", r["name"], r["error"])
                    continue
                if "key" in r:
                    self.validated += 1
                    for f in r["functions"]:
                        if f not in self.functions:
                            self.functions.append(f)
                    for j in builds[r["key"]]:
                        rep = dict(job=j["name"], harness=j["harness"], cfg=j["cfg"], cycles=j["frames"], cells=r["cells"],
                                   register_bits=r["regbits"], build_s=round(r["build_s"], 2), encode_s=0.0, cubes=0, results={})
                        j["_rep"] = rep
                        self.jobs_report.append(rep)
                        self.log("%s: %d cells, %d state bits, %d cycles; build %.1fs" % (
                            j["name"], r["cells"], r["regbits"], j["frames"], r["build_s"]))
                        pend.append(pool.apply_async(_prep, (j["name"], r["base"], None, None)))
                        for g, (outs, cubes) in enumerate(j.get("cubes", [])):
                            for ci in range(len(cubes)):
                                pend.append(pool.apply_async(_prep, (j["name"], r["base"], g, ci)))
                    continue
                job = byname[r["name"]]
                self.states += r["frames"]
                self.transitions += max(0, r["frames"] - 1)
                rep = job["_rep"]
                rep["encode_s"] = round(rep["encode_s"] + r["unroll_s"] + r["cnf_s"], 2)
                rep["cubes"] += 1
                for q in sorted(r["queries"], key=lambda q: q["out"]):
                    q["base"] = r["base"]
                    q["rep"] = rep
                    size = os.path.getsize(q["cnf"]) if q.get("cnf") else 0     # the longest queries first
                    futs.append(qpool.submit(-size * (4 if q["out"].startswith("bad_") else 1), solve, q, job))
        if stop.is_set():
            pool.terminate()
        pool.close()
        for f in futs:
            f.result()
        qpool.shutdown()
        pool.join()

    # ---- induction from an arbitrary state (see induct.py); adds to the bounded verdict, never replaces it
    def induct(self, jobs, workers=8):
        """job: name, harness, cfg, gens=[fn(rng)->rows], outs (optional), scenario (optional), bounds (optional)"""
        import induct
        if self.stop.is_set() or self.errors:
            return

        def one(j):
            try:
                d = hw.build(j["harness"], j["cfg"], self.work)
                outs = sorted(n for n in d.outputs if n.startswith("bad_") and n not in j.get("skip", ()))
                if j.get("outs"):
                    outs = [o for o in outs if o in j["outs"]]
                res = induct.prove(self, d, outs, j["gens"], j["name"], SEED, j.get("timeout", 60),
                                   dict(bounds=j["bounds"]) if j.get("scenario") and j.get("bounds") else None)
                return j, d, res
            except Killed:
                return j, None, None
        with ThreadPoolExecutor(workers) as ex:
            rs = list(ex.map(one, jobs))
        rep = self.extra.setdefault("induction", [])
        for j, d, res in rs:
            if res is None:
                continue
            self.stats["queries"] += res["queries"]
            self.stats["solver_s"] += res["seconds"]
            self.log("%s: induction from any state: %d invariants (%d queries, %.1fs), proved %s%s" % (
                j["name"], res.get("invariants", 0), res["queries"], res["seconds"], ",".join(res["proved"]) or "none",
                (", not inductive: " + ",".join(res["unproved"])) if res["unproved"] else ""))
            rep.append(dict(job=j["name"], harness=j["harness"], cfg=j["cfg"], invariants=res.get("invariants", 0), candidates=res["candidates"],
                            queries=res["queries"], proved_from_any_reachable_state=res["proved"], not_inductive=sorted(res["unproved"])))
            done, t1 = set(), time.time()
            for o, cti in res["unproved"].items():
                if cti is None or not j.get("scenario") or self.stop.is_set():
                    continue
                for tr in j["scenario"](cti, o):
                    if not self.stop.is_set() and repr(tr) not in done and time.time() - t1 < 250:
                        done.add(repr(tr))
                        self.long_scenario(j, d, o, cti, tr)

    def long_scenario(self, j, d, o, cti, tr):
        n = sum(k for _, k in tr)
        self.log("   replaying a scenario of %d cycles on the real code for %s" % (n, o))
        if n > 40000:
            hit = hw.longrun(d, tr, self.work)
            lo, rows, full = 0, [], []
        else:
            full = [row for row, k in tr for _ in range(k)]
            rows = hw.replay(d, full)
            hit = next(((t, x) for t, row in enumerate(rows) for x in sorted(row) if x.startswith("bad_") and row[x]), None)
        if hit is None:
            return
        lo = max(0, hit[0] - 40)
        data = dict(property=self.pid, kind="hw-long", harness=j["harness"], cfg=j["cfg"], output=hit[1], cycle=hit[0],
                    note="solver counterexample to induction, reached from reset by this run (run-length encoded inputs)",
                    solver_state=cti, run=tr, last_inputs=full[lo:hit[0] + 1], last_outputs=rows[lo:hit[0] + 1])
        self.stop.set()
        self.violation(data, "%s in %s at cycle %d" % (hit[1], j["name"], hit[0]))

    def result(self, q, job, r, model, dt, stop):
        out = q["out"]
        self.stats["queries"] += 1
        self.stats["solver_s"] += dt
        key = out
        if "cnf" in q:
            os.unlink(q["cnf"])
        e = q["rep"]["results"].setdefault(out, {})
        e[r] = e.get(r, 0) + 1
        e["solver_s"] = round(e.get("solver_s", 0) + dt, 2)
        if dt > 10 or r == "unknown":
            self.log("   %s/%s%s %s %.1fs (%s vars)" % (q["job"], out, "" if q["cubei"] is None else "#%d" % q["cubei"], r, dt, q.get("vars")))
        if r == "unknown":
            self.stats["unknown"] += 1
            self.errors.append("%s/%s: solver gave no answer" % (q["job"], out))
            return
        if out.startswith("cover_"):
            if r == "unsat":
                self.errors.append("%s/%s: witness unreachable (vacuous harness)" % (q["job"], out))
                self.log("   VACUOUS %s/%s" % (q["job"], out))
                return
            self.stats["sat_cover"] += 1
            fr, tr, rows, mism = confirm(job, q, model, self.work)
            if mism or fr is None:
                self.errors.append("%s/%s: witness does not replay (%s)" % (q["job"], out, mism))
                return
            self.validated += 1
            if len(self.samples) < 4:
                self.samples.append(dict(kind="solver witness replayed on the real code", job=q["job"], output=out,
                                         cycle=fr, last_inputs=tr[-3:], last_outputs={k: v for k, v in rows[-1].items() if not k.startswith(("bad_", "raw_"))}))
            return
        if r == "unsat":
            self.stats["unsat"] += 1
            if out.startswith("known_"):
                self.log("   known finding %s no longer occurs in %s" % (out, q["job"]))
            return
        fr, tr, rows, mism = confirm(job, q, model, self.work)
        if mism or fr is None:
            self.errors.append("%s/%s: counterexample does not replay (%s)" % (q["job"], out, mism))
            self.log("   ERROR counterexample of %s/%s does not replay: %s" % (q["job"], out, mism))
            return
        self.validated += 1
        if out.startswith("known_") and out in self.known:
            if out not in self.known_hit:
                self.known_hit[out] = self.known[out][2]
            return
        data = dict(property=self.pid, kind="hw", harness=job["harness"], cfg=job["cfg"], output=out, cycle=fr,
                    trace=tr, outputs=rows)
        if stop.is_set():
            return
        stop.set()
        self.violation(data, "%s in %s at cycle %d" % (out, q["job"], fr))
        self.solver.kill()

    # ---- finish
    def finish(self, level="model_checking", explanation="", bounds=None):
        for k, v in self.known_hit.items():
            print("KNOWN-FINDING: property=%s %s" % (self.pid, v), flush=True)
        cov = dict(explanation=explanation, bounds=bounds or "", states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.validated, samples=self.samples,
                   functions_encoded=self.functions, queries_discharged=self.stats["queries"],
                   unsat=self.stats["unsat"], witnesses=self.stats["sat_cover"],
                   solver_seconds=round(self.stats["solver_s"], 2), jobs=self.jobs_report, **self.extra)
        ev = dict(property=self.pid, tier=TIER, seed=SEED, level=level, coverage=cov, assumptions=self.assumptions,
                  wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w"), indent=1)
        shutil.rmtree(self.work, ignore_errors=True)
        if self.violations:
            return 1
        if self.errors:
            for e in self.errors:
                print("ERROR", e, file=sys.stderr)
            return 2
        self.log("held: %d queries (%d unsat, %d witnesses), solver %.1fs" % (
            self.stats["queries"], self.stats["unsat"], self.stats["sat_cover"], self.stats["solver_s"]))
        return 0
