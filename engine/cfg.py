"""Per-function control-flow facts: reachability, (post)dominance, error-only regions, control dependence."""

ERR_AGG = ("core::result::Result::Err", "weaver_common::result::WResult::FatalErr")


def cfg(fn):
    c = fn.cache.get("cfg")
    if c is None:
        c = fn.cache["cfg"] = CFG(fn.decode())
    return c


class CFG:
    def __init__(self, fn):
        self.fn = fn
        n = len(fn.blocks)
        self.n = n
        self.succ = [fn.succ(b) for b in range(n)]
        seen = {0}
        st = [0]
        while st:
            b = st.pop()
            for s in self.succ[b]:
                if s not in seen:
                    seen.add(s)
                    st.append(s)
        # blocks whose only continuation is 'unreachable' are not real successors
        dead = set()
        changed = True
        while changed:
            changed = False
            for b in seen:
                if b in dead:
                    continue
                k = fn.blocks[b][1][2]
                if k == "un" or (self.succ[b] and all(s in dead for s in self.succ[b])):
                    dead.add(b)
                    changed = True
        self.dead = dead
        self.reach = seen - dead
        for b in range(n):
            self.succ[b] = [s for s in self.succ[b] if s not in dead]
        self.pred = {b: [] for b in self.reach}
        for b in self.reach:
            for s in self.succ[b]:
                self.pred[s].append(b)
        self._err()
        self._cd_full = None
        self._cd_ok = None

    # ---- error-only regions
    def _err(self):
        fn = self.fn
        marks = set()
        rets = set()
        # locals that are moved into _0
        into0 = {0}
        changed = True
        while changed:
            changed = False
            for b in self.reach:
                for (_, _, pl, rv) in fn.blocks[b][0]:
                    if pl[0] in into0 and not pl[1] and rv[0] == "u" and rv[1][0] == "p" and not rv[1][1][1]:
                        if rv[1][1][0] not in into0:
                            into0.add(rv[1][1][0])
                            changed = True
        retty = fn.locals[0]
        opt = retty.startswith("core::option::Option")
        for b in self.reach:
            st, t = fn.blocks[b]
            for (_, _, pl, rv) in st:
                if pl[0] in into0 and not pl[1] and rv[0] == "a" and rv[1][4:] in ERR_AGG:
                    marks.add(b)
            if t[2] == "c":
                callee = t[3]
                if t[6] < 0:
                    marks.add(b)
                elif callee[0] == "fn" and callee[2].endswith("FromResidual::from_residual") and t[5][0] in into0 and not opt:
                    marks.add(b)
            if t[2] == "ret":
                rets.add(b)
        self.rets = rets
        self.err_marks = marks
        ok = set()
        st = [r for r in rets if r not in marks]
        ok.update(st)
        while st:
            b = st.pop()
            for p in self.pred[b]:
                if p not in ok and p not in marks:
                    ok.add(p)
                    st.append(p)
        if not rets or 0 not in ok:
            # function never returns normally / always errs: no pruning
            ok = set(self.reach)
        self.ok = ok

    # ---- post-dominators on a subgraph
    def _pdom(self, nodes):
        nodes = set(nodes)
        EXIT = -1
        succ = {}
        for b in nodes:
            s = [x for x in self.succ[b] if x in nodes]
            succ[b] = s if s else [EXIT]
        # blocks that cannot reach exit (infinite loops): connect one of them
        can = {EXIT}
        pred = {b: [] for b in nodes}
        pred[EXIT] = []
        for b in nodes:
            for s in succ[b]:
                pred[s].append(b)

        def flood(start):
            st = [start]
            while st:
                x = st.pop()
                for p in pred[x]:
                    if p not in can:
                        can.add(p)
                        st.append(p)
        flood(EXIT)
        for b in sorted(nodes):
            if b not in can:
                # connect the first block of the trapped region in index order
                succ[b] = succ[b] + [EXIT]
                pred[EXIT].append(b)
                can.add(b)
                flood(b)
        # iterative idom on reverse graph
        order = []
        seen = {EXIT}
        stack = [(EXIT, iter(sorted(pred[EXIT])))]
        while stack:
            x, it = stack[-1]
            for p in it:
                if p not in seen:
                    seen.add(p)
                    stack.append((p, iter(sorted(pred[p]))))
                    break
            else:
                order.append(x)
                stack.pop()
        order.reverse()
        num = {b: i for i, b in enumerate(order)}
        idom = {EXIT: EXIT}
        changed = True
        while changed:
            changed = False
            for b in order[1:]:
                new = None
                for s in succ[b]:
                    if s in idom:
                        if new is None:
                            new = s
                        else:
                            a, c = s, new
                            while a != c:
                                while num[a] > num[c]:
                                    a = idom[a]
                                while num[c] > num[a]:
                                    c = idom[c]
                            new = a
                if idom.get(b) != new:
                    idom[b] = new
                    changed = True
        return succ, idom

    def _cdep(self, nodes):
        succ, ip = self._pdom(nodes)
        cd = {b: set() for b in nodes}
        for b in nodes:
            ss = succ[b]
            if len(set(ss)) < 2:
                continue
            for s in set(ss):
                x = s
                stop = ip.get(b)
                while x != stop and x != -1:
                    cd[x].add((b, s))
                    nx = ip.get(x)
                    if nx is None or nx == x:
                        break
                    x = nx
        return cd

    def cd(self, b):
        """direct control dependences of block b: set of (branch block, successor taken)"""
        if b in self.ok:
            if self._cd_ok is None:
                self._cd_ok = self._cdep(self.ok)
            return self._cd_ok.get(b, set())
        if self._cd_full is None:
            self._cd_full = self._cdep(self.reach)
        out = set()
        for (c, s) in self._cd_full.get(b, set()):
            # drop dependences whose alternatives are all error exits
            alts = [x for x in self.succ[c] if x != s]
            if c in self.ok and s in self.ok and all(x not in self.ok for x in alts):
                continue
            out.add((c, s))
        return out

    def cd_closure(self, b):
        key = ("cdc", b)
        r = self.fn.cache.get(key)
        if r is None:
            seen = set()
            st = list(self.cd(b))
            while st:
                e = st.pop()
                if e in seen:
                    continue
                seen.add(e)
                st.extend(self.cd(e[0]))
            r = self.fn.cache[key] = frozenset(seen)
        return r

    # ---- dominators (forward), on reachable blocks
    def dom(self):
        d = self.fn.cache.get("dom")
        if d is not None:
            return d
        order = []
        seen = {0}
        stack = [(0, iter(self.succ[0]))]
        while stack:
            x, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.succ[s])))
                    break
            else:
                order.append(x)
                stack.pop()
        order.reverse()
        num = {b: i for i, b in enumerate(order)}
        idom = {0: 0}
        changed = True
        while changed:
            changed = False
            for b in order[1:]:
                new = None
                for p in self.pred.get(b, []):
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            a, c = p, new
                            while a != c:
                                while num[a] > num[c]:
                                    a = idom[a]
                                while num[c] > num[a]:
                                    c = idom[c]
                            new = a
                if new is not None and idom.get(b) != new:
                    idom[b] = new
                    changed = True
        self.fn.cache["dom"] = idom
        return idom

    def dominates(self, a, b):
        idom = self.dom()
        while True:
            if a == b:
                return True
            if b == 0 or b not in idom:
                return False
            b = idom[b]

    def reachable_from(self, b, avoid=frozenset()):
        seen = set()
        st = [s for s in self.succ[b]]
        while st:
            x = st.pop()
            if x in seen or x in avoid:
                continue
            seen.add(x)
            st.extend(self.succ[x])
        return seen

    def reach_from(self, b):
        """blocks reachable from b by at least one step"""
        key = ("reach", b)
        r = self.fn.cache.get(key)
        if r is None:
            seen = set()
            st = [b]
            while st:
                x = st.pop()
                for s in self.succ[x]:
                    if s not in seen:
                        seen.add(s)
                        st.append(s)
            r = self.fn.cache[key] = seen
        return r

    def forward_from(self, b):
        """blocks reachable from b without taking a loop back edge"""
        key = ("fwd", b)
        r = self.fn.cache.get(key)
        if r is None:
            seen = set()
            st = [b]
            while st:
                x = st.pop()
                for s in self.succ[x]:
                    if s not in seen and not self.dominates(s, x):
                        seen.add(s)
                        st.append(s)
            r = self.fn.cache[key] = seen
        return r

    def loops(self):
        """natural loops: header -> set of blocks"""
        r = self.fn.cache.get("loops")
        if r is None:
            r = {}
            for b in self.reach:
                for s in self.succ[b]:
                    if self.dominates(s, b):
                        body = r.setdefault(s, {s})
                        st = [b]
                        while st:
                            x = st.pop()
                            if x not in body:
                                body.add(x)
                                st.extend(self.pred[x])
            self.fn.cache["loops"] = r
        return r
