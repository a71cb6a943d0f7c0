"""Symbolic execution of the RTLIL that nmigen emits for the real modules (or that yosys
reads from Verilog).  A Design is loaded from yosys' JSON netlist (after proc/flatten);
`step` evaluates one clock cycle.  Every value is a vector of AIG literals, so constants
propagate and everything decided by reset state and concrete inputs disappears before a
solver sees it."""
import json
import re
from aig import Aig


def mask(w):
    return (1 << w) - 1


def const(v, w):
    return [(v >> j) & 1 for j in range(w)]


def isc(v):
    return all(x < 2 for x in v)


def toint(v):
    r = 0
    for j, x in enumerate(v):
        if x > 1:
            raise ValueError("symbolic value")
        r |= x << j
    return r


def ext(v, nw, signed):
    w = len(v)
    if w >= nw:
        return v[:nw]
    return v + [v[-1] if signed and w else 0] * (nw - w)


class Cell:
    __slots__ = ("typ", "p", "ins", "out", "ow", "name")


class Design:
    def __init__(self, jsonfile, meta, top="top"):
        d = json.load(open(jsonfile))
        top = d["modules"][top]
        self.g = Aig()
        self.meta = meta
        self.drv = {}          # bit -> (source index, bit index)
        self.src_w = []        # width per source
        self.inputs = {}       # name -> source idx
        self.outputs = {}      # name -> list of bits
        names = {}
        for n, i in top["ports"].items():
            names[n] = i
        clk = set()

        def newsrc(bits):
            k = len(self.src_w)
            self.src_w.append(len(bits))
            for j, b in enumerate(bits):
                if isinstance(b, int):
                    self.drv[b] = (k, j)
            return k
        for n, sn, w in meta["inputs"]:
            if sn in names:
                self.inputs[n] = (newsrc(names[sn]["bits"]), w)
        for n, p in names.items():
            if p["direction"] == "input" and n.endswith("clk"):
                clk.update(p["bits"])
        self.regs = []         # (src, w, init, D bits, name)
        cells = []
        netname = {}
        for nn, ni in top["netnames"].items():
            for j, b in enumerate(ni["bits"]):
                if isinstance(b, int):
                    old = netname.get(b)
                    if old is None or (ni.get("hide_name", 0) == 0 and len(nn) < len(old[0])):
                        netname[b] = (nn, j)
        init = {}
        for nn, ni in top["netnames"].items():
            iv = ni.get("attributes", {}).get("init")
            if iv is not None:
                bits = str(iv)[::-1] if isinstance(iv, str) else bin(iv)[2:][::-1]
                for j, b in enumerate(ni["bits"]):
                    if isinstance(b, int) and j < len(bits) and bits[j] in "01":
                        init[b] = int(bits[j])
        for cn, c in top["cells"].items():
            t = c["type"]
            co = c["connections"]
            par = {k: (int(v, 2) if isinstance(v, str) and re.fullmatch("[01]+", v) else v)
                   for k, v in c["parameters"].items()}
            if t in ("$dff",):
                cb = co["CLK"][0]
                if par.get("CLK_POLARITY", 1) != 1:
                    raise ValueError("negative edge clock")
                if cb not in clk:
                    raise ValueError("gated/derived clock on " + cn)
                q = co["Q"]
                k = newsrc(q)
                iv = 0
                for j, b in enumerate(q):
                    iv |= init.get(b, 0) << j
                nm = netname.get(q[0], (cn, 0))
                self.regs.append((k, len(q), iv, co["D"], nm[0]))
            else:
                x = Cell()
                x.typ, x.p, x.name = t, par, cn
                ob = co["Y"] if "Y" in co else None
                if ob is None:
                    raise ValueError("cell type %s" % t)
                x.out = newsrc(ob)
                x.ow = len(ob)
                x.ins = {k: v for k, v in co.items() if k != "Y"}
                cells.append(x)
        for n, sn, w in meta["outputs"]:
            if sn in names:
                self.outputs[n] = names[sn]["bits"]
        # topological order
        comb = {c.out: c for c in cells}
        order, state = [], {}
        for root in cells:
            st = [(root, None)]
            while st:
                c, it = st[-1]
                if it is None:
                    if state.get(c.out) == 2:
                        st.pop()
                        continue
                    if state.get(c.out) == 1:
                        raise ValueError("combinational loop")
                    state[c.out] = 1
                    deps = set()
                    for bits in c.ins.values():
                        for b in bits:
                            if isinstance(b, int):
                                s = self.drv.get(b)
                                if s is None:
                                    continue
                                if s[0] in comb and s[0] != c.out:
                                    deps.add(s[0])
                                elif s[0] == c.out:
                                    raise ValueError("combinational loop")
                    it = iter(sorted(deps))
                    st[-1] = (c, it)
                for dsrc in it:
                    if state.get(dsrc) == 1:
                        raise ValueError("combinational loop")
                    if state.get(dsrc) != 2:
                        st.append((comb[dsrc], None))
                        break
                else:
                    state[c.out] = 2
                    order.append(c)
                    st.pop()
        self.cells = order
        self._groups = {}
        self.ncells = len(order)
        self.nregbits = sum(r[1] for r in self.regs)
        self.undriven = 0

    # ------------------------------------------------------------------
    def group(self, bits):
        """bits (lsb first) -> list of (src, bit) or (-1, constant)"""
        key = tuple(bits)
        g = self._groups.get(key)
        if g is None:
            g = []
            for b in bits:
                if isinstance(b, str):
                    g.append((-1, int(b == "1")))
                else:
                    s = self.drv.get(b)
                    if s is None:          # undriven net: nmigen reset value 0
                        self.undriven += 1
                        s = (-1, 0)
                    g.append(s)
            if g and g[0][0] >= 0 and all(x == (g[0][0], g[0][1] + i) for i, x in enumerate(g)):
                g = (g[0][0], g[0][1], g[0][1] + len(g))
            self._groups[key] = g
        return g

    def get(self, val, bits):
        g = self.group(bits)
        if type(g) is tuple:
            return val[g[0]][g[1]:g[2]]
        return [val[s][j] if s >= 0 else j for s, j in g]

    def coi(self, names):
        """cells and registers that can influence the named outputs, over any number of cycles"""
        comb = {c.out: c for c in self.cells}
        regs = {r[0]: r for r in self.regs}
        seen = set()
        st = []

        def push(bits):
            for b in bits:
                if isinstance(b, int):
                    s = self.drv.get(b)
                    if s is not None and s[0] not in seen:
                        seen.add(s[0])
                        st.append(s[0])
        for n in names:
            push(self.outputs[n])
        while st:
            k = st.pop()
            if k in comb:
                for b in comb[k].ins.values():
                    push(b)
            elif k in regs:
                push(regs[k][3])
        self.cells = [c for c in self.cells if c.out in seen]
        self.regs = [r for r in self.regs if r[0] in seen]

    def sym(self, name, t, w):
        return [self.g.inp("%s@%d@%d" % (name, t, j)) for j in range(w)]

    def initial(self):
        return {r[0]: const(r[2], r[1]) for r in self.regs}

    def comb(self, state, inputs):
        """evaluate one cycle; returns dict source->value"""
        val = dict(state)
        for n, (src, w) in self.inputs.items():
            x = inputs[n]
            val[src] = const(x, w) if isinstance(x, int) else x
        for c in self.cells:
            val[c.out] = self.cell(c, val)
        return val

    def outs(self, val, names=None):
        return {n: self.get(val, b) for n, b in self.outputs.items() if names is None or n in names}

    def next(self, val):
        return {r[0]: self.get(val, r[3]) for r in self.regs}

    def step(self, state, inputs):
        val = self.comb(state, inputs)
        return self.outs(val), self.next(val)

    def cell(self, c, val):
        t, p, ow = c.typ, c.p, c.ow
        g = self.g
        ins = c.ins
        A = self.get(val, ins["A"])
        if t == "$mux":
            s = self.get(val, ins["S"])[0]
            B = self.get(val, ins["B"])
            if s < 2:
                return B if s else A
            return [g.mux(s, y, x) for x, y in zip(A, B)]
        if t in ("$not", "$pos", "$neg"):
            a = ext(A, ow, p.get("A_SIGNED", 0))
            if t == "$pos":
                return a
            if t == "$not":
                return [x ^ 1 for x in a]
            return g.sub([0] * ow, a)
        if t in ("$reduce_or", "$reduce_bool"):
            return ext([g.any(A)], ow, 0)
        if t == "$logic_not":
            return ext([g.any(A) ^ 1], ow, 0)
        if t == "$reduce_and":
            return ext([g.all(A)], ow, 0)
        if t in ("$reduce_xor", "$reduce_xnor"):
            r = int(t == "$reduce_xnor")
            for x in A:
                r = g.xor_(r, x)
            return ext([r], ow, 0)
        B = self.get(val, ins["B"])
        if t == "$pmux":
            S = self.get(val, ins["S"])
            r = A
            for i, s in enumerate(S):
                if s:
                    r = g.muxv(s, B[i * ow:(i + 1) * ow], r)
            return r
        sg = p.get("A_SIGNED", 0) and p.get("B_SIGNED", 0)
        if t in ("$add", "$sub", "$mul", "$and", "$or", "$xor", "$xnor"):
            a, b = ext(A, ow, sg), ext(B, ow, sg)
            if t == "$add":
                return g.add(a, b)
            if t == "$sub":
                return g.sub(a, b)
            if t == "$mul":
                return g.mul(a, b)
            f = {"$and": g.and_, "$or": g.or_, "$xor": g.xor_, "$xnor": lambda x, y: g.xor_(x, y) ^ 1}[t]
            return [f(x, y) for x, y in zip(a, b)]
        if t in ("$eq", "$ne", "$eqx", "$nex", "$lt", "$le", "$gt", "$ge"):
            w = max(len(A), len(B))
            a, b = ext(A, w, sg), ext(B, w, sg)
            if t in ("$eq", "$eqx"):
                r = g.eq(a, b)
            elif t in ("$ne", "$nex"):
                r = g.eq(a, b) ^ 1
            else:
                lt = g.slt if sg else g.ult
                r = {"$lt": lambda: lt(a, b), "$ge": lambda: lt(a, b) ^ 1,
                     "$gt": lambda: lt(b, a), "$le": lambda: lt(b, a) ^ 1}[t]()
            return ext([r], ow, 0)
        if t == "$logic_and":
            return ext([g.and_(g.any(A), g.any(B))], ow, 0)
        if t == "$logic_or":
            return ext([g.or_(g.any(A), g.any(B))], ow, 0)
        if t in ("$shl", "$sshl", "$shr", "$sshr", "$shift", "$shiftx"):
            sa = p.get("A_SIGNED", 0)
            if t in ("$shift", "$shiftx") and p.get("B_SIGNED", 0):
                raise ValueError("signed shift")
            left = t in ("$shl", "$sshl")
            w = max(len(A), ow)
            a = ext(A, w, sa if t != "$shiftx" else 0)
            return g.shift(a, B, left, a[-1] if t == "$sshr" and sa else 0)[:ow]
        raise ValueError("unsupported cell " + t)
