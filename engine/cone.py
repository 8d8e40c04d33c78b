"""Entry-point cones: which workspace bodies run under an entry point, through which call chains, and what
each sink inside the cone depends on, expressed at the level of the entry point."""
import re
from .cfg import cfg
from .flow import Flow, last_seg
from .facts import is_std


class Site:
    """how a body is entered from its caller"""
    __slots__ = ("caller", "block", "mode", "args", "cloarg", "short", "when", "only")

    def __init__(self, caller, block, mode, args, cloarg=None):
        self.caller = caller
        self.block = block
        self.mode = mode      # 'call' | 'clo' | 'fnval' | 'spread'
        self.args = args
        self.cloarg = cloarg
        self.short = ()
        self.when = None
        self.only = None


ONSOME = {"map", "and_then", "is_some_and", "is_ok_and", "is_none_or", "filter", "map_or", "inspect"}
ONNONE = {"or_else", "map_err", "unwrap_or_else", "ok_or_else", "get_or_insert_with", "inspect_err"}


def passed_on(flow, fn, t):
    """the failure of a result built by an adaptor only leaves the function (`?`, returned, unwrapped): no branch of
    the function's normal course depends on it"""
    if t[5][1]:
        return True
    c = cfg(fn)
    todo, seen = [t[5][0]], set()
    while todo:
        l = todo.pop()
        if l in seen or l == 0:
            continue
        seen.add(l)
        for b in c.reach:
            st, u = fn.blocks[b]
            for (_, _, pl, rv) in st:
                if rv[0] == "u" and rv[1][0] == "p" and rv[1][1] == (l, ()) and not pl[1]:
                    todo.append(pl[0])
                elif rv[0] == "d" and rv[1] == (l, ()):
                    if u[2] == "s" and u[3][0] == "p" and u[3][1] == pl:
                        to = [x for v, x in u[5] if v == 1] or [u[6]]
                        if any(x in c.ok for x in to):
                            return False
            if u[2] == "c" and u[4] and u[4][0][0] == "p" and u[4][0][1] == (l, ()) and u[3][0] == "fn" \
                    and not u[5][1] and is_std(u[3][2]):
                n = last_seg(u[3][2])
                if n in ("map", "and_then", "map_err", "inspect", "inspect_err") or n.startswith("as_"):
                    todo.append(u[5][0])
    return True


def when(flow, fn, t, k=None):
    """value of the receiver for which a closure handed to an option adaptor runs"""
    if t[3][0] != "fn" or not t[4] or flow.targets(fn, t):
        return None
    n = last_seg(t[3][2])
    if n == "then" and t[4][0][0] == "p" and not t[4][0][1][1] and fn.locals[t[4][0][1][0]] == "bool":
        return frozenset([True])
    if flow.is_option_like(fn, t[4][0]):
        if n in ("map", "and_then") and flow.is_result(fn, t[4][0]):
            return "success" if passed_on(flow, fn, t) else frozenset(["Ok", "?"])
        if n == "map_or_else" and k:
            return frozenset(["None", "Err", "?"] if k == 1 else ["Some", "Ok", "?"])
        if n in ONSOME:
            return frozenset(["Some", "Ok", "?"])
        if n in ONNONE:
            return frozenset(["None", "Err", "?"])
    return None


SHORT = {"any", "all", "find", "position", "rposition", "find_map", "try_for_each", "take_while", "map_while"}


def nested(flow, fn):
    """closures called by name inside other closures of the same function"""
    r = fn.cache.get("nested")
    if r is None:
        r = fn.cache["nested"] = set()
        pre = fn.orig.id + "::{closure"
        for h in list(flow.p.fns.values()):
            if h.id.startswith(pre) and h.has_body and h.subst is None:
                h.decode()
                for _, t in h.blocks:
                    if t[2] == "c" and t[3][0] == "fn" and t[3][1].startswith(pre):
                        r.add(t[3][1])
    return r


def edges(flow, fn):
    """[(callee Fn, Site)] for every body entered from fn"""
    key = ("edges", frozenset(flow.opaque))
    r = fn.cache.get(key)
    if r is not None:
        return r
    out = []
    c = cfg(fn)
    direct = set()
    for b in sorted(c.reach):
        st, t = fn.blocks[b]
        if t[2] != "c":
            continue
        for g in flow.targets(fn, t):
            if g.kind in ("closure", "coroutine"):
                if g.kind == "closure" and len(t[4]) == 2:
                    out.append((g, Site(fn, b, "spread", t[4])))
                    direct.add(g.id)
                elif g.kind == "coroutine":
                    continue
                else:
                    out.append((g, Site(fn, b, "call", t[4])))
                    direct.add(g.id)
                continue
            out.append((g, Site(fn, b, "call", t[4])))
        # function items passed as values to external code
        if not flow.targets(fn, t):
            for k, a in enumerate(t[4]):
                g = flow.fnval(a, fn)
                if g is not None:
                    plain = flow.seen(last_seg(t[3][2]) if t[3][0] == "fn" else "", [x for x in t[4] if x is not a])
                    out.append((g, Site(fn, b, "fnval", plain)))
                    out[-1][1].when = when(flow, fn, t, k)
                    out[-1][1].only = flow.side(fn, last_seg(t[3][2]), t[4], a) if t[3][0] == "fn" else None
    for b in sorted(c.reach):
        st, t = fn.blocks[b]
        for (ln, tag, pl, rv) in st:
            if rv[0] == "a" and rv[1].startswith("clo "):
                g = flow.p.fns.get(rv[1][4:])
                if g is None or not g.has_body:
                    continue
                g = flow.child(fn, g)
                if g.id in direct:
                    continue
                site = flow.clo_site(fn, pl[0])
                if site is None:
                    if g.orig.id in nested(flow, fn):
                        continue
                    out.append((g, Site(fn, b, "clo", [], ("agg", rv[2]))))
                else:
                    sites, names = flow.clo_sites(fn, pl[0])
                    for site in sites if len(sites) <= 4 else sites[:1]:
                        tt = fn.blocks[site][1]
                        if any(h.subst and fn.locals[pl[0]] in h.subst.values() for h in flow.targets(fn, tt)):
                            continue
                        plain = flow.seen(last_seg(tt[3][2]) if tt[3][0] == "fn" else "", [a for a in tt[4] if not flow.closures_of(fn, a)])
                        cs = Site(fn, site, "clo", plain, ("agg", rv[2]))
                        if tt[3][0] == "fn" and last_seg(tt[3][2]) in SHORT and not tt[5][1]:
                            if not (last_seg(tt[3][2]) == "try_for_each" and passed_on(flow, fn, tt)):
                                cs.short = [(tt[5][0], (), None, False, None)]
                        mine = [k for k, a in enumerate(tt[4]) if a[0] == "p" and not a[1][1] and a[1][0] in names]
                        cs.when = when(flow, fn, tt, mine[0] if mine else None)
                        if tt[3][0] == "fn" and mine:
                            cs.only = flow.side(fn, last_seg(tt[3][2]), tt[4], tt[4][mine[0]])
                        out.append((g, cs))
    fn.cache[key] = out
    return out


class Cone:
    def __init__(self, flow, entries, stop=None, max_chains=40):
        """entries: list of Fn. stop: predicate(fn) -> don't enter"""
        self.flow = flow
        self.entries = entries
        self.stop = stop or (lambda f: False)
        self.max_chains = max_chains
        self.chains = {}
        for e in entries:
            self._dfs(e, ())
        self.bodies = [flow.p.fns[i] for i in self.chains]

    def _dfs(self, fn, chain):
        # breadth-limited depth-first enumeration of acyclic call chains
        stack = [(fn, chain)]
        while stack:
            f, ch = stack.pop()
            lst = self.chains.setdefault(f.id, [])
            if len(lst) >= self.max_chains or len(ch) > 14:
                continue
            lst.append(ch)
            onpath = {s.caller.id for s in ch} | {f.id}
            for g, site in reversed(edges(self.flow, f)):
                if g.id in onpath or self.stop(g):
                    continue
                stack.append((g, ch + (site,)))

    # ---- resolution of a leaf set through the chain up to the entry
    def resolve(self, fn, seeds, chain, with_ctl=True):
        """influence of seeds in fn, entered through chain, as an Inf"""
        res = Inf()
        fl = self.flow
        leaves = set(fl.query(fn, seeds))
        level = len(chain) - 1
        cur = fn
        while True:
            nxt = []
            site = chain[level] if level >= 0 else None
            buf = set()
            push = nxt.append
            caller = site.caller if site is not None else None
            for leaf in leaves:
                k = leaf[0]
                if k == "P":
                    _, i, path, w, d = leaf
                    if site is None:
                        res.param(i, path, w, d, cur)
                    else:
                        self.up(cur, site, i, path, w, d, push, buf)
                elif k == "R" and site is not None:
                    buf.add(fl.lift(caller, leaf, site, lambda l, pu, o: self.up(cur, site, l[1], l[2], None, True, pu, o)))
                else:
                    res.leaf(leaf)
            if site is None:
                break
            if with_ctl:
                nxt.append(("cd", site.block))
                fl.at = site.block
                if site.mode == "clo" and site.short:
                    # the closure runs again only while it has not decided the answer
                    nxt.extend(site.short)
                if site.mode in ("clo", "fnval"):
                    # the other arguments select which elements the closure sees
                    # (that an earlier step succeeded is no condition of its own, as for `?`)
                    for i, a in enumerate(site.args):
                        if i or site.when != "success":
                            fl.op(caller, a, (), None if i else site.when, False, push, buf)
            leaves = set(fl.query(caller, nxt)) if nxt else set()
            leaves |= buf
            cur = caller
            level -= 1
        return res

    def up(self, cur, site, i, path, w, d, push, buf):
        fl = self.flow
        fl.at = site.block
        caller = site.caller
        if site.mode == "call":
            if i - 1 < len(site.args):
                fl.op(caller, site.args[i - 1], path, w, d, push, buf)
        elif site.mode == "spread":
            if i == 1:
                fl.op(caller, site.args[0], path, w, d, push, buf)
            else:
                fl.op(caller, site.args[1], ("#%d" % (i - 2),) + path, None, d, push, buf)
        elif site.mode == "clo":
            if i == 1:
                if path and path[0][0] == "^":
                    for f, o in site.cloarg[1]:
                        if f == path[0]:
                            fl.op(caller, o, path[1:], w, d, push, buf)
                else:
                    for f, o in site.cloarg[1]:
                        fl.op(caller, o, path, None, d, push, buf)
            else:
                for a in site.args:
                    fl.op(caller, a, path, site.only, d, push, buf)
        elif site.mode == "fnval":
            for a in site.args:
                fl.op(caller, a, path, site.only, d, push, buf)

    # ---- sinks
    def sinks(self, pred):
        """pred(fn, block, stmt_index|None, stmt|term) -> label or None. Yields (label, fn, block, item)"""
        for f in self.bodies:
            c = cfg(f)
            for b in sorted(c.reach):
                st, t = f.blocks[b]
                for i, s in enumerate(st):
                    l = pred(f, b, i, s)
                    if l:
                        yield (l, f, b, s)
                l = pred(f, b, None, t)
                if l:
                    yield (l, f, b, t)


class Inf:
    """influence set: data atoms, control atoms, variant tests, relations, polarities"""
    __slots__ = ("d", "c", "v", "r", "pol")

    def __init__(self):
        self.d = set()
        self.c = set()
        self.v = {}
        self.r = set()
        self.pol = {}

    def leaf(self, l):
        if l[0] == "A":
            (self.d if l[2] else self.c).add(l[1])
        elif l[0] == "V":
            self.v.setdefault(l[1], set()).update(l[2])
        elif l[0] == "R":
            for atom, test, pol in Flow.render_rel(l):
                if atom is not None:
                    self.r.add(atom)
                ps = ("True", "False") if pol is None else (str(pol),)
                self.pol.setdefault(atom or "B:" + test, set()).update(ps)
        elif l[0] == "Q":
            self.pol.setdefault("B:" + l[1], set()).update(str(x) for x in l[2])

    def param(self, i, path, w, d, fn):
        last = None
        mark = Flow.AMB.get(i, "")
        for e in path:
            if e[0] not in "#^":
                last = "F:" + e + mark
                (self.d if d else self.c).add(last)
        if last is None:
            # the parameter itself
            nm = "A:%d" % i
            (self.d if d else self.c).add(nm)
            last = nm
        if w is not None and last is not None:
            if not d:
                self.pol.setdefault(last, set()).update(str(x) for x in w if x != "?")

    def merge(self, o):
        self.d |= o.d
        self.c |= o.c
        for k, v in o.v.items():
            self.v.setdefault(k, set()).update(v)
        self.r |= o.r
        for k, v in o.pol.items():
            self.pol.setdefault(k, set()).update(v)
        return self

    def all(self, prog):
        return sorted(self.d | self.c | self.r | self.vs(prog))

    def data(self):
        return sorted(self.d)

    def vs(self, prog):
        out = set()
        for en, s in self.v.items():
            allv = {v for v, _ in prog.enums.get(en, [])}
            out.add("V:" + en)
        return out
