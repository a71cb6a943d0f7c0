"""Elaborate real modules + harness with PyPy, lower with yosys, check with BMC."""
import os, subprocess, json, hashlib, tempfile, time, sys
from rtl import Design, const

HERE = os.path.dirname(os.path.abspath(__file__))
HW = os.path.join(os.path.dirname(HERE), "hw")
PYPY = "/opt/pypyvenv/bin/python"
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "migen_src")

YS = """read_ilang {il}
hierarchy -top top
proc
flatten
opt_expr
opt_clean
memory -nomap
opt_clean
memory_map
opt_expr -mux_undef -undriven
opt_merge
opt_muxtree
opt_expr
opt_clean
dffunmap
async2sync
setundef -undriven -zero
setundef -zero
opt_clean
write_json {js}
"""


def env():
    e = dict(os.environ)
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e["PYTHONHASHSEED"] = "0"
    e.pop("PYTHONPATH", None)
    return e


class CheckError(Exception):
    pass


def run(cmd, timeout=600, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env(), **kw)
    if r.returncode:
        raise CheckError("%s failed: %s" % (cmd[:3], r.stderr.decode()[-1500:]))
    return r.stdout.decode()


def build(harness, cfg, work):
    tag = hashlib.sha1((harness + json.dumps(cfg, sort_keys=True)).encode()).hexdigest()[:10]
    b = os.path.join(work, "%s_%s" % (harness, tag))
    run([PYPY, os.path.join(HW, "elab.py"), "rtlil", SRC, harness, json.dumps(cfg), b + ".il", b + ".meta"])
    open(b + ".ys", "w").write(YS.format(il=b + ".il", js=b + ".json"))
    run(["yosys", "-q", b + ".ys"])
    d = Design(b + ".json", json.load(open(b + ".meta")))
    d.harness, d.cfg, d.base = harness, cfg, b
    return d


def replay(d, trace, work=None):
    """run the trace on the real module in nmigen's own simulator"""
    tf = tempfile.mktemp(prefix="trace", dir=os.path.dirname(d.base))
    json.dump(trace, open(tf, "w"))
    run([PYPY, os.path.join(HW, "elab.py"), "replay", SRC, d.harness, json.dumps(d.cfg), tf, tf + ".out"])
    rows = json.load(open(tf + ".out"))
    os.unlink(tf)
    os.unlink(tf + ".out")
    return rows


def longrun(d, rle, work=None, timeout=200):
    """Long concrete run of the elaborated design: the encoded next-state functions (validated
    against nmigen's simulator at build time) compiled to C.  rle: [(inputs, cycles)].
    -> (cycle, bad output) or None"""
    d = Design(d.base + ".json", json.load(open(d.base + ".meta")))
    bads = sorted(n for n in d.outputs if n.startswith("bad_"))
    d.coi(bads)
    g = d.g
    s0 = {r[0]: [g.inp("S@%d@%d" % (r[0], j)) for j in range(r[1])] for r in d.regs}
    inp = {n: d.sym(n, 0, w) for n, (s, w) in d.inputs.items()}
    val = d.comb(s0, inp)
    nxt = d.next(val)
    roots = [l for r in d.regs for l in nxt[r[0]]] + [d.get(val, d.outputs[n])[0] for n in bads]
    need, st = set(), [l >> 1 for l in roots]
    while st:
        n = st.pop()
        if n not in need:
            need.add(n)
            st.extend(a >> 1 for a in g.args[n])
    sv = [l for r in d.regs for l in s0[r[0]]]
    init = [x for r in d.regs for x in const(r[2], r[1])]
    iv = [(n, j, l) for n in sorted(inp) for j, l in enumerate(inp[n])]

    def e(l):
        return "0" if l == 0 else "1" if l == 1 else ("!v%d" if l & 1 else "v%d") % (l >> 1)
    body = []
    for k, l in enumerate(sv):
        if l >> 1 in need:
            body.append("int v%d=S[%d];" % (l >> 1, k))
    for k, (n, j, l) in enumerate(iv):
        if l >> 1 in need:
            body.append("int v%d=I[%d];" % (l >> 1, k))
    for n in sorted(need):
        o, a = g.op[n], g.args[n]
        if o == "a":
            body.append("int v%d=%s&%s;" % (n, e(a[0]), e(a[1])))
        elif o == "x":
            body.append("int v%d=%s^%s;" % (n, e(a[0]), e(a[1])))
        elif o == "m":
            body.append("int v%d=%s?%s:%s;" % (n, e(a[0]), e(a[1]), e(a[2])))
    for k, n in enumerate(bads):
        body.append('if(%s){printf("%%llu %s\\n",t);return 0;}' % (e(roots[len(sv) + k]), n))
    for k in range(len(sv)):
        body.append("S[%d]=%s;" % (k, e(roots[k])))
    src = ("#include <stdio.h>\n#include <stdlib.h>\nstatic unsigned char S[]={%s};\nint main(int c,char**a){FILE*f=fopen(a[1],\"r\");unsigned long long t=0,n;"
           "static unsigned char I[%d];while(fscanf(f,\"%%llu\",&n)==1){for(int i=0;i<%d;i++){int x;if(fscanf(f,\"%%d\",&x)!=1)return 2;I[i]=x;}"
           "for(;n;n--,t++){%s}}return 0;}\n") % (",".join(map(str, init)) or "0", len(iv) + 1, len(iv), "\n".join(body))
    b = d.meta and tempfile.mktemp(prefix="long", dir=work or "/tmp")
    try:
        open(b + ".c", "w").write(src)
        run(["clang", "-O1", "-w", b + ".c", "-o", b])
        with open(b + ".t", "w") as f:
            for row, n in rle:
                f.write("%d %s\n" % (n, " ".join(str((row.get(x, 0) >> j) & 1) for x, j, _ in iv)))
        try:
            out = run([b, b + ".t"], timeout=timeout).split()
        except subprocess.TimeoutExpired:
            out = []
    finally:
        for x in ("", ".c", ".t"):
            if os.path.exists(b + x):
                os.unlink(b + x)
    return (int(out[0]), out[1]) if out else None
