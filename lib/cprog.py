"""bounded model checking of the C sources with CBMC, with native replay of every counterexample and witness.

job keys:
  name, src        harness in /verif/c, run once symbolically (-DSYM) and natively for replays
  libs             wrapper files in /verif/c that include the real source
  defs             {macro: value}; NIN is the number of input bytes
  unwind           hints {loop id: bound}; other loops start at `start` and grow until the unwinding assertions hold
  covers           names of COVER() points that must be reachable
  skip             regular expression of property classes that are not asserted
  flags            extra cbmc options
"""
import json, os, re, subprocess, time, hashlib
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LIMIT = 1 << 9


class Group(subprocess.Popen):
    """a process whose kill() ends the solver it started as well"""
    def kill(self):
        try:
            os.killpg(self.pid, 9)
        except OSError:
            pass


class CRun:
    def __init__(self, r, inc, extra_native=()):
        self.r, self.inc, self.native = r, inc, list(extra_native)
        self.dir = r.work
        self.shared = {}

    def sh(self, cmd, timeout):
        r = self.r
        import engine
        with r.solver.lock:
            if r.solver.stop:
                raise engine.Killed()
            p = Group(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
            r.solver.procs.add(p)
        try:
            out, err = p.communicate(timeout=timeout)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            p.kill()
            out, err = p.communicate()
            rc = None
        with r.solver.lock:
            r.solver.procs.discard(p)
            if r.solver.stop:
                raise engine.Killed()
        return rc, out.decode(errors="replace"), err.decode(errors="replace")

    def compile(self, j):
        inc = ["-I" + i for i in self.inc] + ["-I" + V + "/c"]
        defs = ["-D%s=%s" % kv for kv in j["defs"].items()]
        gb = os.path.join(self.dir, j["name"] + ".gb")
        objs = []
        for l in j["libs"]:
            o = os.path.join(self.dir, "%s.%s.gb" % (j["name"], l))
            rc, out, err = self.sh(["goto-cc", "-c", "-DSYM"] + inc + [V + "/c/" + l, "-o", o], 120)
            if rc != 0:
                raise RuntimeError("goto-cc %s: %s" % (l, err + out))
            objs.append(o)
        rc, out, err = self.sh(["goto-cc", "-DSYM"] + inc + defs + [V + "/c/" + j["src"]] + objs + ["-o", gb, "--function", "harness"], 120)
        if rc != 0:
            raise RuntimeError("goto-cc: %s" % (err + out))
        exe = os.path.join(self.dir, j["name"] + ".exe")
        cc = "g++" if j["src"].endswith("pp") else "gcc"
        rc, out, err = self.sh([cc, "-g", "-O1", "-w", "-fsanitize=address,bounds", "-fno-sanitize-recover=all"] + inc + defs +
                               [V + "/c/" + j["src"]] + [V + "/c/" + l for l in j["libs"]] + self.native + ["-lm", "-o", exe], 120)
        if rc != 0:
            raise RuntimeError("native build: %s" % err)
        return gb, exe

    def loops(self, gb):
        rc, out, err = self.sh(["cbmc", gb, "--show-loops", "--json-ui"], 60)
        res = []
        for m in json.loads(out):
            for l in m.get("loops", []):
                res.append(l["name"])
        return res

    def functions(self, gb):
        rc, out, err = self.sh(["goto-instrument", "--reachable-call-graph", gb], 60)
        fs = set()
        for l in out.split("\n"):
            m = re.match(r"(\S+) -> (\S+)$", l.strip())
            if m:
                fs.update(m.groups())
        return sorted(f for f in fs if not f.startswith("__CPROVER") and f not in ("malloc", "calloc", "free", "memset", "memcpy", "realloc", "abs", "harness", "nondet_u8", "get_inputs"))

    def cbmc(self, gb, j, bounds, extra=()):
        default = j.get("start", 4)
        uw = ",".join("%s:%d" % (l, b) for l, b in bounds.items())
        cmd = ["cbmc", gb, "--json-ui", "--verbosity", "8", "--unwind", str(default), "--unwinding-assertions", "--no-malloc-may-fail", "--no-undefined-shift-check",
               "--max-field-sensitivity-array-size", str(j.get("field", 400)), "--external-sat-solver", "kissat"] + j.get("flags", []) + list(extra)
        if uw:
            cmd += ["--unwindset", uw]
        t = time.time()
        rc, out, err = self.sh(cmd, j.get("timeout", 600))
        dt = time.time() - t
        self.r.stats["queries"] += 1
        self.r.stats["solver_s"] += dt
        if rc is None:
            raise RuntimeError("%s: no answer in %d s" % (j["name"], dt))
        try:
            msgs = json.loads(out)
        except ValueError:
            raise RuntimeError("%s: cbmc: %s %s" % (j["name"], out[-300:], err[-300:]))
        res, steps, vccs = None, 0, 0
        for m in msgs:
            if "result" in m:
                res = m["result"]
            t_ = m.get("messageText", "")
            x = re.search(r"size of program expression: (\d+) steps", t_)
            if x:
                steps = int(x.group(1))
            x = re.search(r"Generated (\d+) VCC", t_)
            if x:
                vccs = int(x.group(1))
        if res is None:
            raise RuntimeError("%s: cbmc: %s" % (j["name"], [m for m in msgs if m.get("messageType") == "ERROR"]))
        return res, steps, vccs, dt

    def inputs(self, j, trace):
        v = bytearray(int(j["defs"]["NIN"]))
        for s in trace:
            if s.get("stepType") == "assignment":
                m = re.match(r"in\[(?:\(signed long int\))?(\d+)l*\]$", str(s.get("lhs", "")))
                if m and "binary" in s.get("value", {}):
                    v[int(m.group(1))] = int(s["value"]["binary"], 2)
        return bytes(v)

    def replay(self, j, exe, data, fills=(0xbe, 0x00, 0xff, 0x11)):
        f = os.path.join(self.dir, j["name"] + "." + hashlib.md5(data).hexdigest()[:8])
        open(f, "wb").write(data)
        last = None
        for b in fills:
            p = subprocess.Popen(["timeout", "-s", "KILL", "20", exe, f], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                 env=dict(os.environ, ASAN_OPTIONS="max_malloc_fill_size=1048576:malloc_fill_byte=%d:detect_leaks=0:allocator_may_return_null=1" % b))
            out, err = p.communicate()
            out, err = out.decode(errors="replace"), err.decode(errors="replace")
            if p.returncode in (-9, 137):
                return "does not terminate within 20 s", out
            if p.returncode == 77:
                last = (None, out)
                continue
            if p.returncode != 0:
                m = re.search(r"CHECK (.*)", out)
                e = re.search(r"(runtime error: .*|ERROR: AddressSanitizer: .*?)( on | at |\n|\(|$)", err)
                w = re.search(r"#\d+ \S+ in (\w+) .*?/(lj92\.c|[\w.]+\.cpp):(\d+)", err)
                return (m.group(1) if m else (e.group(1) if e else "exit %s" % p.returncode) + (" in " + w.group(1) if w else "")), out + err[:3000]
            last = (None, out)
        return last

    def one(self, j):
        r = self.r
        t0 = time.time()
        gb, exe = self.compile(j)
        names = self.loops(gb)
        start = j.get("start", 4)
        bounds = {l: b for l, b in j.get("unwind", {}).items() if l in names}
        for l in names:
            if self.shared.get(l, 0) > bounds.get(l, start):
                bounds[l] = self.shared[l]
        runs = 0
        while True:
            runs += 1
            res, steps, vccs, dt = self.cbmc(gb, j, bounds)
            bad, grow, cov = [], [], {}
            for p in res:
                d, n, st = p.get("description", ""), p["property"], p["status"]
                if d.startswith("COVER"):
                    cov[d] = (n, st)
                elif st == "FAILURE":
                    m = re.match(r"(.*)\.(unwind|recursion)\.?(\d*)$", n)
                    if m:
                        grow.append(m.group(1) + "." + m.group(3))
                    elif j.get("skip") and re.search(j["skip"], n + " " + d):
                        continue
                    else:
                        bad.append((n, d))
                elif st not in ("SUCCESS",):
                    raise RuntimeError("%s: %s %s" % (j["name"], n, st))
            seen = []
            for n, d in bad[:4]:
                what, data = self.confirm(j, gb, exe, bounds, n)
                seen.append((n, d, what))
                if what:
                    self.report(j, n, d, what, data)
                    return None
            if not grow:
                if bad:
                    raise RuntimeError("%s: counterexample does not replay: %s" % (j["name"], seen))
                break
            for l in grow:
                b = bounds.get(l, start)
                if b >= j.get("limit", LIMIT):
                    what, data = self.confirm(j, gb, exe, bounds, re.sub(r"\.(\d+)$", r".unwind.\1", l))
                    if what:
                        self.report(j, l, "loop does not end", what, data)
                        return None
                    raise RuntimeError("%s: loop %s needs more than %d iterations" % (j["name"], l, b))
                bounds[l] = b * 3
                self.shared[l] = max(self.shared.get(l, 0), b * 3)
            if os.environ.get("VERIF_DEBUG"):
                r.log("   %s: %.1fs, %d steps, grow %s" % (j["name"], dt, steps, {l: bounds[l] for l in grow}))
        fs = self.functions(gb)
        for d, (n, st) in sorted(cov.items()):
            if st != "FAILURE":
                r.errors.append("%s/%s: witness unreachable (vacuous harness)" % (j["name"], d))
                continue
            data = self.trace(j, gb, bounds, n)
            what, out = self.replay(j, exe, data, fills=(0xbe,))
            if d not in out:
                r.errors.append("%s/%s: witness does not replay: %s %s" % (j["name"], d, what, out))
                continue
            r.stats["sat_cover"] += 1
            r.validated += 1
            if len(r.samples) < 4:
                r.samples.append(dict(kind="solver witness replayed on the real code", job=j["name"], point=d, input=list(data)))
        r.stats["unsat"] += 1
        r.states += steps
        r.transitions += vccs
        for f in fs:
            if f not in r.functions:
                r.functions.append(f)
        nprop = sum(1 for p in res if p["status"] == "SUCCESS")
        r.jobs_report.append(dict(job=j["name"], harness=j["src"], defs=j["defs"], assertions_proved=nprop, program_steps=steps, vccs=vccs,
                                  cbmc_runs=runs, seconds=round(time.time() - t0, 1), unwinding={l: b for l, b in bounds.items()}, default_unwinding=start))
        r.log("%s: %d assertions hold, %d steps, %d VCCs, %d run(s), %.1fs%s" % (j["name"], nprop, steps, vccs, runs, time.time() - t0,
              "" if runs == 1 else " bounds %s" % {l: b for l, b in bounds.items() if b != j.get("unwind", {}).get(l)}))

    def trace(self, j, gb, bounds, prop):
        res, _, _, _ = self.cbmc(gb, j, bounds, ["--property", prop, "--trace"])
        tr = next((p["trace"] for p in res if p["status"] == "FAILURE" and "trace" in p), None)
        if tr is None:
            raise RuntimeError("%s: no trace for %s" % (j["name"], prop))
        return self.inputs(j, tr)

    def confirm(self, j, gb, exe, bounds, prop):
        data = self.trace(j, gb, bounds, prop)
        what, out = self.replay(j, exe, data)
        self.r.log("   %s: counterexample to %s replayed: %s" % (j["name"], prop, what))
        return what, dict(input=list(data), native_output=out)

    def report(self, j, prop, desc, what, data):
        r = self.r
        if r.stop.is_set():
            return
        r.validated += 1
        r.stop.set()
        r.violation(dict(property=r.pid, kind="c", job=j["name"], harness=j["src"], defs=j["defs"], assertion=prop, description=desc, observed=what, **data),
                    "%s in %s (%s)" % (what, j["name"], desc))
        r.solver.kill()


def run(r, jobs, inc, workers=8):
    import engine
    c = CRun(r, inc)

    def one(j):
        if r.stop.is_set():
            return
        try:
            c.one(j)
        except engine.Killed:
            pass
        except Exception as e:
            if not r.stop.is_set():
                r.errors.append("%s: %s" % (j["name"], e))
                r.log("ERROR %s: %s" % (j["name"], e))
    sel = [j for j in jobs if engine.TIER == "thorough" or j.get("tier", "quick") == "quick"]
    only = os.environ.get("VERIF_ONLY")
    if only:
        sel = [j for j in sel if re.search(only, j["name"])]
    with ThreadPoolExecutor(workers) as ex:
        list(ex.map(one, sorted(sel, key=lambda j: -j.get("cost", 1))))
