"""Bit-level term graph (AND/XOR/ITE with structural hashing) and its CNF encoding.

A literal is 2*node (+1 when negated); FALSE=0, TRUE=1.  Vectors are Python lists of
literals, least significant bit first."""
FALSE, TRUE = 0, 1


class Aig:
    def __init__(self):
        self.op = ["c"]
        self.args = [()]
        self.names = {}          # input node -> name
        self.h = {}

    def inp(self, name):
        n = len(self.op)
        self.op.append("i")
        self.args.append(())
        self.names[n] = name
        return 2 * n

    def _new(self, op, args):
        k = (op, args)
        n = self.h.get(k)
        if n is None:
            n = len(self.op)
            self.op.append(op)
            self.args.append(args)
            self.h[k] = n
        return 2 * n

    def and_(self, x, y):
        if x > y:
            x, y = y, x
        if x == 0:
            return 0
        if x == 1:
            return y
        if x == y:
            return x
        if x ^ y == 1:
            return 0
        op = self.op
        for p, q in ((x, y), (y, x)):
            if op[q >> 1] == "a":
                u, v = self.args[q >> 1]
                if q & 1:
                    if u == p:
                        return self.and_(p, v ^ 1)
                    if v == p:
                        return self.and_(p, u ^ 1)
                    if u ^ 1 == p or v ^ 1 == p:
                        return p
                else:
                    if u == p or v == p:
                        return q
                    if u ^ 1 == p or v ^ 1 == p:
                        return 0
        return self._new("a", (x, y))

    def or_(self, x, y):
        return self.and_(x ^ 1, y ^ 1) ^ 1

    def xor_(self, x, y):
        n = (x ^ y) & 1
        x &= -2
        y &= -2
        if x == y:
            return n
        if x > y:
            x, y = y, x
        if x == 0:
            return y ^ n
        return self._new("x", (x, y)) ^ n

    def mux(self, s, t, e):
        """t if s else e"""
        if s == 1 or t == e:
            return t
        if s == 0:
            return e
        if s & 1:
            s, t, e = s ^ 1, e, t
        if t == s:
            t = 1
        elif t == s ^ 1:
            t = 0
        if e == s:
            e = 0
        elif e == s ^ 1:
            e = 1
        if t == e:
            return t
        if t < 2:
            return self.or_(s, e) if t else self.and_(s ^ 1, e)
        if e < 2:
            return self.or_(s ^ 1, t) if e else self.and_(s, t)
        if t ^ e == 1:
            return self.xor_(s, e)
        # same selector one level below
        if self.op[t >> 1] == "m":
            a = self.args[t >> 1]
            if a[0] == s:
                return self.mux(s, a[1] ^ (t & 1), e)
        if self.op[e >> 1] == "m":
            a = self.args[e >> 1]
            if a[0] == s:
                return self.mux(s, t, a[2] ^ (e & 1))
        n = t & 1
        return self._new("m", (s, t ^ n, e ^ n)) ^ n

    # ---- vectors
    def any(self, v):
        return self.all([x ^ 1 for x in v]) ^ 1

    def all(self, v):
        v = list(v)
        if not v:
            return 1
        while len(v) > 1:
            v = [self.and_(v[i], v[i + 1]) if i + 1 < len(v) else v[i] for i in range(0, len(v), 2)]
        return v[0]

    def add(self, a, b, c=0):
        r = []
        for x, y in zip(a, b):
            p = self.xor_(x, y)
            r.append(self.xor_(p, c))
            c = self.mux(p, c, x)
        return r

    def sub(self, a, b):
        return self.add(a, [x ^ 1 for x in b], 1)

    def mul(self, a, b):
        w = len(a)
        r = [0] * w
        for i, y in enumerate(b):
            if y:
                r = self.add(r, ([0] * i + [self.and_(x, y) for x in a])[:w])
        return r

    def eq(self, a, b):
        return self.all([self.xor_(x, y) ^ 1 for x, y in zip(a, b)])

    def ult(self, a, b):
        lt = 0
        for x, y in zip(a, b):
            lt = self.mux(self.xor_(x, y), y, lt)
        return lt

    def slt(self, a, b):
        return self.ult(a[:-1] + [a[-1] ^ 1], b[:-1] + [b[-1] ^ 1])

    def muxv(self, s, t, e):
        return [self.mux(s, x, y) for x, y in zip(t, e)]

    def shift(self, a, b, left, fill=0):
        w = len(a)
        a = list(a)
        for k, s in enumerate(b):
            if s == 0:
                continue
            n = 1 << k
            if n >= w:
                sh = [fill] * w
            elif left:
                sh = [0] * n + a[:w - n]
            else:
                sh = a[n:] + [fill] * n
            a = self.muxv(s, sh, a)
        return a

    # ---- CNF
    def cnf(self, root, path):
        """DIMACS for `root is true`; returns ({var: input name}, vars, clauses)"""
        op, args = self.op, self.args
        # cone and fan-out counts
        refs = {}
        order = []
        st = [root >> 1]
        refs[root >> 1] = 2
        seen = {root >> 1}
        while st:
            n = st.pop()
            order.append(n)
            for l in args[n]:
                m = l >> 1
                refs[m] = refs.get(m, 0) + (1 if op[n] == "a" and not l & 1 else 2)
                if m not in seen:
                    seen.add(m)
                    st.append(m)
        var = {}

        def v(l):
            n = l >> 1
            x = var.get(n)
            if x is None:
                x = var[n] = len(var) + 1
            return -x if l & 1 else x
        out = []
        names = {}
        inl = set()
        order.sort(reverse=True)
        for n in order:
            o = op[n]
            if o == "a":
                if n in inl:
                    continue
                leaves = []
                s = list(args[n])
                while s:
                    l = s.pop()
                    m = l >> 1
                    if not l & 1 and op[m] == "a" and refs[m] == 1:
                        inl.add(m)
                        s.extend(args[m])
                    else:
                        leaves.append(l)
                leaves = list(dict.fromkeys(leaves))
                x = v(2 * n)
                ls = [v(l) for l in leaves]
                for l in ls:
                    out.append("%d %d 0" % (-x, l))
                out.append("%d %s 0" % (x, " ".join(str(-l) for l in ls)))
            elif o == "x":
                x = v(2 * n)
                a, b = v(args[n][0]), v(args[n][1])
                out.append("%d %d %d 0\n%d %d %d 0\n%d %d %d 0\n%d %d %d 0" % (-x, a, b, -x, -a, -b, x, -a, b, x, a, -b))
            elif o == "m":
                x = v(2 * n)
                s, t, e = (v(l) for l in args[n])
                out.append("%d %d %d 0\n%d %d %d 0\n%d %d %d 0\n%d %d %d 0\n%d %d %d 0\n%d %d %d 0" % (
                    -s, -t, x, -s, t, -x, s, -e, x, s, e, -x, -t, -e, x, t, e, -x))
            elif o == "i":
                names[v(2 * n)] = self.names[n]
        out.append("%d 0" % v(root))
        nc = sum(x.count("\n") + 1 for x in out)
        with open(path, "w") as f:
            f.write("p cnf %d %d\n" % (len(var), nc))
            f.write("\n".join(out) + "\n")
        return names, len(var), nc
