"""Reduced ordered binary decision diagrams: the canonical form of a decision over named tests."""


class TooBig(Exception):
    pass


class BDD:
    LIMIT = 60000

    def __init__(self):
        self.vars = []
        self.idx = {}
        self.nodes = [None, None]        # 0 = false, 1 = true
        self.uniq = {}
        self.ctab = {}

    def var(self, key):
        i = self.idx.get(key)
        if i is None:
            i = self.idx[key] = len(self.vars)
            self.vars.append(key)
        return self.mk(i, 0, 1)

    def mk(self, v, lo, hi):
        if lo == hi:
            return lo
        k = (v, lo, hi)
        n = self.uniq.get(k)
        if n is None:
            if len(self.nodes) > self.LIMIT:
                raise TooBig()
            n = self.uniq[k] = len(self.nodes)
            self.nodes.append(k)
        return n

    def ite(self, f, g, h):
        if f == 1:
            return g
        if f == 0:
            return h
        if g == h:
            return g
        if g == 1 and h == 0:
            return f
        k = (f, g, h)
        r = self.ctab.get(k)
        if r is not None:
            return r
        N = self.nodes
        v = min(N[x][0] for x in (f, g, h) if x > 1)

        def co(x):
            if x > 1 and N[x][0] == v:
                return N[x][1], N[x][2]
            return x, x
        f0, f1 = co(f)
        g0, g1 = co(g)
        h0, h1 = co(h)
        r = self.mk(v, self.ite(f0, g0, h0), self.ite(f1, g1, h1))
        self.ctab[k] = r
        return r

    def AND(self, a, b):
        return self.ite(a, b, 0)

    def OR(self, a, b):
        return self.ite(a, 1, b)

    def NOT(self, a):
        return self.ite(a, 0, 1)

    def XOR(self, a, b):
        return self.ite(a, self.NOT(b), b)

    def support(self, f):
        seen, out, st = set(), set(), [f]
        while st:
            x = st.pop()
            if x < 2 or x in seen:
                continue
            seen.add(x)
            v, lo, hi = self.nodes[x]
            out.add(v)
            st += [lo, hi]
        return [self.vars[v] for v in sorted(out)]

    def size(self, f):
        seen, st = set(), [f]
        while st:
            x = st.pop()
            if x > 1 and x not in seen:
                seen.add(x)
                st += self.nodes[x][1:]
        return len(seen)

    def subst(self, f, m, other=None):
        """replace variable keys by functions of `other` (default: this manager)"""
        o = other or self
        memo = {0: 0, 1: 1}

        def go(x):
            r = memo.get(x)
            if r is None:
                v, lo, hi = self.nodes[x]
                k = self.vars[v]
                g = m.get(k)
                if g is None:
                    g = o.var(k)
                r = memo[x] = o.ite(g, go(hi), go(lo))
            return r
        return go(f)

    def dump(self, f):
        """nested canonical text; only meaningful when variables were created in sorted order"""
        ids, lines = {0: "F", 1: "T"}, []

        def go(x):
            if x in ids:
                return ids[x]
            v, lo, hi = self.nodes[x]
            a, b = go(hi), go(lo)
            ids[x] = str(len(lines))
            lines.append("%d?%s:%s" % (v, a, b))
            return ids[x]
        top = go(f)
        return ";".join(lines) if lines else top
