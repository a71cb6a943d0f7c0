"""seedtest.py [ID...]: confirm planted bugs on /repo (apply, build, stable tests, demo, check, undo)"""
import json, os, subprocess, sys, time
V = "/verif"
BASE = json.load(open("/opt/vp/BASELINE.json"))
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def stable():
    sh("bash /opt/vp/test.sh /tmp/seed_t.json")
    return set(json.load(open("/tmp/seed_t.json"))["passed"])
ids = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
base = None
assert not sh("git -C /repo status --porcelain").stdout.strip()
for i in ids:
    d = "%s/seeded/%s" % (V, i)
    meta = json.load(open(d + "/meta.json"))
    ok0 = sh("bash %s/demo.sh" % d, cwd="/repo", timeout=300)
    r = sh("git -C /repo apply %s/patch.diff" % d)
    if r.returncode:
        print(i, "PATCH DOES NOT APPLY", r.stdout.decode()); continue
    try:
        b = sh("bash /opt/vp/build.sh")
        p = stable()
        ok1 = sh("bash %s/demo.sh" % d, cwd="/repo", timeout=300)
        t = time.time()
        c = sh("python3-vt check.py " + meta["property"], cwd=V)
        dt = time.time() - t
    finally:
        sh("git -C /repo checkout -- .")
    base = base if base is not None else stable()
    viol = [l for l in c.stdout.decode().split("\n") if l.startswith("VIOLATION property=%s " % meta["property"])]
    print(i, meta["property"], "demo0", ok0.returncode, "demo1", ok1.returncode, "build", b.returncode, "tests lost", sorted(base - p),
          "CAUGHT" if c.returncode == 1 and viol else "MISSED rc=%d" % c.returncode, "%.0fs" % dt, flush=True)
    if ok0.returncode or not ok1.returncode:
        print(ok0.stdout.decode()[-800:], ok1.stdout.decode()[-800:])
    if not viol:
        print(c.stdout.decode()[-600:])
