"""Decision functions: under which combination of named tests a block runs, a boolean is true, an option is filled.

The control flow of a body (and of the helpers and closures it goes through) is turned into a Boolean function over the
tests it makes.  A test is named by what is tested (field, call, literal, parameter), never by where, so the canonical
form of the function is the same for every way of writing the same decision: nested ifs, `&&`, early exits, match,
boolean temporaries, helper functions, `Option` combinators."""
import hashlib
import re
from .bdd import BDD, TooBig
from .cfg import cfg
from .facts import is_std
from .flow import Flow, last_seg, EQCALL

PRESERVE = {"as_ref", "as_mut", "as_deref", "as_deref_mut", "clone", "cloned", "copied", "map", "map_err", "ok_or", "ok_or_else", "ok",
            "context", "with_context", "inspect", "inspect_err", "into_diagnostic", "branch", "deref", "borrow", "to_owned", "into_future",
            "get_context", "new_unchecked", "take", "into", "from", "as_slice", "into_result"}
YES = {"Some", "Ok", "Continue"}
NO = {"None", "Err", "Break"}
STDOPT = re.compile(r"^core::(option::Option|result::Result|ops::control_flow::ControlFlow)$")
WRES = re.compile(r"^$")
VARS = 40
DEPTH = 40


class Skip(Exception):
    pass


class State:
    __slots__ = ("pc", "rd", "tracked", "order")


class Decider:
    def __init__(self, flow):
        self.f = flow
        self.B = BDD()
        self.B.LIMIT = 1 << 60
        self.st = {}
        self.busy = set()
        self.mem = {}
        self.mark = 0
        self.open = set()
        self.cuts = set()

    def fresh(self):
        self.mark = len(self.B.nodes)
        self.open.clear()
        self.cuts.clear()

    def budget(self):
        if len(self.B.nodes) - self.mark > 40000:
            raise Skip()

    # ------------------------------------------------------------------ per body
    def state(self, fn):
        s = self.st.get(fn.id, 0)
        if s == 0:
            if fn.id in self.busy:
                raise Skip()
            self.busy.add(fn.id)
            mark, self.mark = self.mark, len(self.B.nodes)
            try:
                s = self._state(fn)
            except (Skip, RecursionError):
                s = None
            self.mark = mark
            self.busy.discard(fn.id)
            self.st[fn.id] = s
        if s is None:
            raise Skip()
        return s

    def _state(self, fn):
        c = cfg(fn)
        if len(c.reach) > 4000:
            raise Skip()
        s = State()
        cnt = {}
        for b in c.reach:
            for (_, _, pl, rv) in fn.blocks[b][0]:
                if not pl[1]:
                    cnt[pl[0]] = cnt.get(pl[0], 0) + 1
            t = fn.blocks[b][1]
            if t[2] == "c" and not t[5][1]:
                cnt[t[5][0]] = cnt.get(t[5][0], 0) + 1
        s.tracked = {l for l, n in cnt.items() if n > 1 or (0 < l <= fn.na)}
        # reverse postorder
        order, seen = [], {0}
        stack = [(0, iter(c.succ[0]))]
        while stack:
            x, it = stack[-1]
            for y in it:
                if y not in seen:
                    seen.add(y)
                    stack.append((y, iter(c.succ[y])))
                    break
            else:
                order.append(x)
                stack.pop()
        order.reverse()
        s.order = {b: i for i, b in enumerate(order)}
        back = [(u, v) for u in order for v in c.succ[u] if s.order[v] <= s.order[u]]
        s.pc, s.rd = {}, {}
        self.st[fn.id] = s
        self.cur = fn
        B = self.B
        late = {}
        for rnd in range(2 if back else 1):
            inn = {0: (1, {l: {"param": 1} for l in s.tracked if 0 < l <= fn.na})}
            if rnd:
                for v, st in late.items():
                    inn[v] = self.join(inn.get(v), st)
                self.mem = {k: v for k, v in self.mem.items() if k[0] != fn.id}
            late = {}
            for b in order:
                st = inn.get(b)
                if st is None:
                    continue
                s.pc[b], s.rd[b] = st
                pc, rd = st[0], dict(st[1])
                stm, t = fn.blocks[b]
                for i, (_, _, pl, rv) in enumerate(stm):
                    if not pl[1] and pl[0] in s.tracked:
                        rd[pl[0]] = {(b, i): pc}
                dest = t[5][0] if t[2] == "c" and not t[5][1] and t[5][0] in s.tracked else None
                for v, cond in self.edges(fn, c, b, t, len(stm)):
                    self.budget()
                    p2 = B.AND(pc, cond)
                    if p2 == 0:
                        continue
                    if cond == 1:
                        rd2 = dict(rd)
                    else:
                        rd2 = {l: {d: B.AND(x, cond) for d, x in ds.items()} for l, ds in rd.items()}
                    if dest is not None:
                        rd2[dest] = {(b, "t"): p2}
                    if s.order[v] <= s.order[b]:
                        late[v] = self.join(late.get(v), (p2, rd2))
                    else:
                        inn[v] = self.join(inn.get(v), (p2, rd2))
        return s

    def join(self, a, b):
        if a is None:
            return b
        B = self.B
        rd = dict(a[1])
        for l, ds in b[1].items():
            if l in rd:
                m = dict(rd[l])
                for d, x in ds.items():
                    m[d] = B.OR(m[d], x) if d in m else x
                rd[l] = m
            else:
                rd[l] = ds
        return (B.OR(a[0], b[0]), rd)

    def edges(self, fn, c, b, t, n):
        """[(successor, condition)]"""
        ss = c.succ[b]
        uniq = sorted(set(ss))
        if len(uniq) < 2 or t[2] != "s":
            return [(x, 1) for x in uniq]
        ok = [x for x in uniq if x in c.ok]
        if b in c.ok and len(ok) == 1:
            # the alternatives only report an error: going on does not count as a decision
            return [(x, 1 if x in c.ok else self.edge(fn, b, x, t, n)) for x in uniq]
        return [(x, self.edge(fn, b, x, t, n)) for x in uniq]

    def edge(self, fn, b, s, t, n):
        o = t[3]
        B = self.B
        if o[0] != "p":
            return 1
        vals = [v for v, x in t[5] if x == s]
        other = t[6] == s
        pt = (b, n)
        if t[4]:
            r = 0
            yes = None
            want = {bool(v) for v in vals}
            if other:
                want |= {True, False} - {bool(v) for v, _ in t[5]}
            if len(want) == 2:
                return 1
            yes = self.truth(fn, o, pt)
            return yes if True in want else B.NOT(yes)
        l, path = o[1]
        for i in range(n - 1, -1, -1):
            (_, _, pl, rv) = fn.blocks[b][0][i]
            if pl == (l, ()) and rv[0] == "d":
                en = rv[2]
                vs = self.f.p.enums.get(en, [])
                names = {nm for nm, dv in vs if dv in vals}
                if other:
                    listed = {v for v, _ in t[5]}
                    names |= {nm for nm, dv in vs if dv not in listed}
                if len(names) == len(vs) or not vs:
                    return 1
                if en == "core::task::poll::Poll":
                    return 1
                if STDOPT.match(en):
                    if self.from_next(fn, rv[1]):
                        return 1
                    x = self.okness(fn, ("p", rv[1]), (b, i))
                    return x if names & YES else B.NOT(x)
                S = self.desc(fn, ("p", rv[1]), b)
                if is_std(en):
                    r = 0
                    for nm in sorted(names):
                        r = B.OR(r, B.var(("var", en, nm, S)))
                    return r
                return self.variants(fn, ("p", rv[1]), (b, i), en, names, S)
        S = self.desc(fn, o, b)
        r = 0
        for v in vals:
            r = B.OR(r, self.eqlit(S, v))
        if other:
            q = 0
            for v, _ in t[5]:
                q = B.OR(q, self.eqlit(S, v))
            r = B.OR(r, B.NOT(q))
        return r

    def eqlit(self, S, v):
        return self.relvar("=", S, frozenset([("A", "C:" + str(v), True)]))

    def variants(self, fn, o, pt, en, names, S):
        B = self.B
        ds = self.reaching(fn, o, pt)
        if ds is not None:
            # a value built here: its variant is known
            r, known = 0, True
            for d, cond in ds:
                v = self.built(fn, d)
                if v is None or v[0] != en:
                    known = False
                    break
                if v[1] in names:
                    r = B.OR(r, cond)
            if known and ds:
                return r
        r = 0
        for nm in sorted(names):
            r = B.OR(r, B.var(("var", en, nm, S)))
        return r

    def built(self, fn, d):
        if d == "param" or d[1] == "t":
            return None
        rv = fn.blocks[d[0]][0][d[1]][3]
        if rv[0] == "a" and rv[1].startswith("adt ") and self.f.is_enum_variant(rv[1][4:]):
            return tuple(rv[1][4:].rsplit("::", 1))
        return None

    def from_next(self, fn, place):
        l, path = place
        ds = self.f.defs(fn).get(l, [])
        return bool(ds) and not path and all(k == "call" and pay[3][0] == "fn" and last_seg(pay[3][2]) in ("next", "next_back")
                                              for _, k, _, pay in ds)

    # ------------------------------------------------------------------ values
    def desc(self, fn, o, b):
        self.f.at = b
        return self.f.desc(fn, self.f.undref(fn, o))

    def reaching(self, fn, o, pt):
        """[(definition, condition)] of a whole local at a point, or None"""
        if o[0] != "p" or o[1][1]:
            return None
        l = o[1][0]
        s = self.st.get(fn.id)
        if not s:
            raise Skip()
        if l in s.tracked:
            b, i = pt
            if b not in s.rd:
                return []
            rd = s.rd[b].get(l, {})
            last = None
            stm = fn.blocks[b][0]
            for j in range(min(i, len(stm)) if i != "t" else len(stm)):
                if stm[j][2] == (l, ()):
                    last = j
            if last is not None:
                return [((b, last), s.pc[b])]
            return sorted(rd.items(), key=repr)
        ds = fn.cache.get("wdef")
        if ds is None:
            ds = fn.cache["wdef"] = {}
            for b in cfg(fn).reach:
                stm, t = fn.blocks[b]
                for i, (_, _, pl, rv) in enumerate(stm):
                    if not pl[1]:
                        ds[pl[0]] = (b, i)
                if t[2] == "c" and not t[5][1]:
                    ds[t[5][0]] = (b, "t")
        d = ds.get(l)
        if d is None:
            return None
        return [(d, 1)]

    def opaque(self, fn, kind, o, b):
        S = self.desc(fn, o, b)
        return self.B.var((kind, S))

    def value(self, fn, o, pt, kind, leaf, depth=0):
        """common walk of truth/okness over reaching definitions"""
        B = self.B
        if depth > DEPTH:
            raise Skip()
        ds = self.reaching(fn, o, pt)
        if not ds:
            return self.opaque(fn, kind, o, pt[0])
        r = 0
        for d, cond in ds:
            if d == "param":
                x = self.opaque_param(fn, kind, o)
            else:
                k = (fn.id, kind, d)
                x = self.mem.get(k)
                if x is None:
                    if k in self.open:
                        # a value carried around a loop
                        self.cuts.add(k)
                        x = B.var((kind, frozenset([("A", "K:loop", True)])))
                    else:
                        self.open.add(k)
                        try:
                            x = leaf(fn, d, depth + 1)
                        finally:
                            self.open.discard(k)
                            self.cuts.discard(k)
                        if not self.cuts:
                            self.mem[k] = x
            r = B.OR(r, B.AND(cond, x))
            self.budget()
        return r

    def opaque_param(self, fn, kind, o):
        return self.B.var((kind, frozenset([("P", o[1][0], (), None, True)])))

    def truth(self, fn, o, pt, depth=0):
        if o[0] == "c":
            if isinstance(o[3], bool):
                return 1 if o[3] else 0
            return self.opaque(fn, "b", o, pt[0])
        if o[0] != "p":
            raise Skip()
        if o[1][1]:
            if all(e == "*" for e in o[1][1]):
                return self.truth(fn, ("p", (o[1][0], ())), pt, depth)
            return self.opaque(fn, "b", o, pt[0])
        return self.value(fn, o, pt, "b", self.truthdef, depth)

    def truthdef(self, fn, d, depth):
        b, i = d
        B = self.B
        if i == "t":
            return self.calltruth(fn, b, depth)
        rv = fn.blocks[b][0][i][3]
        k = rv[0]
        if k == "u":
            return self.truth(fn, rv[1], d, depth)
        if k in ("r", "rm"):
            return self.truth(fn, ("p", rv[1]), d, depth)
        if k == "n" and rv[1] == "Not":
            return B.NOT(self.truth(fn, rv[2], d, depth))
        if k == "b":
            op = rv[1]
            if op in ("BitAnd", "BitOr", "BitXor"):
                x, y = self.truth(fn, rv[2], d, depth), self.truth(fn, rv[3], d, depth)
                return {"BitAnd": B.AND, "BitOr": B.OR, "BitXor": B.XOR}[op](x, y)
            if op in ("Eq", "Ne") and self.isbool(fn, rv[2]):
                x = B.XOR(self.truth(fn, rv[2], d, depth), self.truth(fn, rv[3], d, depth))
                return x if op == "Ne" else B.NOT(x)
            if op in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
                return self.rel(fn, op, rv[2], rv[3], b)
        return self.opaque(fn, "b", ("p", fn.blocks[b][0][i][2]), b)

    def isbool(self, fn, o):
        if o[0] == "c":
            return o[1] == "bool"
        return o[0] == "p" and not o[1][1] and fn.locals[o[1][0]] == "bool"

    def rel(self, fn, op, a, b, blk):
        A, C = self.desc(fn, a, blk), self.desc(fn, b, blk)
        B = self.B
        x = self.relvar({"Lt": "<", "Ge": "<", "Le": "<=", "Gt": "<=", "Eq": "=", "Ne": "="}[op], A, C)
        return B.NOT(x) if op in ("Ge", "Gt", "Ne") else x

    def relvar(self, cls, A, C):
        if cls == "<=":
            return self.B.NOT(self.B.var(("<", C, A)))
        if cls == "=" and repr(sorted(C, key=repr)) < repr(sorted(A, key=repr)):
            A, C = C, A
        return self.B.var((cls, A, C))

    def argdesc(self, fn, args, b):
        S = set()
        for a in args:
            if a[0] in ("p", "c"):
                S |= self.desc(fn, a, b)
        return frozenset(S)

    def closure_fun(self, fn, t, a, want):
        """lifted result function of a closure argument"""
        B = self.B
        cl = self.f.closures_of(fn, a)
        fv = None
        if not cl:
            g = self.f.fnval(a, fn)
            if g is None:
                return None
            fv = True
            cl = [(g, None)]
        if len(cl) != 1:
            return None
        g = cl[0][0]
        x = self.result(g, want)
        plain = self.f.seen(last_seg(t[3][2]) if t[3][0] == "fn" else "", [y for y in t[4] if y is not a and not self.f.closures_of(fn, y)])
        return self.liftf(x, fn, (fn.id, id(t), id(a)), lambda l, pu, o: self.f.subst_clo(fn, g, a, plain, bool(fv), l, True, pu, o))

    def calltruth(self, fn, b, depth):
        B = self.B
        t = fn.blocks[b][1]
        f, args = t[3], t[4]
        dest = ("p", t[5])
        if f[0] != "fn":
            return B.var(("b", self.argdesc(fn, args, b)))
        c, orig = f[1], f[2]
        name = last_seg(orig)
        opq = (c in self.f.opaque or orig in self.f.opaque) and not EQCALL.match(orig)
        if not opq:
            tg = self.f.targets(fn, t)
            if len(tg) == 1:
                g = tg[0]
                try:
                    x = self.result(g, "b")
                except Skip:
                    return B.var(("call", name, self.argdesc(fn, args, b)))
                return self.liftcall(x, fn, b, t, g)
        if opq:
            return B.var(("call", c, self.argdesc(fn, args, b)))
        pt = (b, "t")
        if name in ("is_some", "is_ok"):
            return self.okness(fn, args[0], pt, depth)
        if name in ("is_none", "is_err"):
            return B.NOT(self.okness(fn, args[0], pt, depth))
        if name == "not" and len(args) == 1:
            return B.NOT(self.truth(fn, args[0], pt, depth))
        if name in ("eq", "ne") and len(args) == 2:
            for i in (0, 1):
                ec = self.f.enum_const(fn, args[i])
                if ec is not None:
                    S = self.desc(fn, args[1 - i], b)
                    x = B.var(("var", ec[0], ec[1], S))
                    if self.f.wrapped_const(fn, args[i]):
                        x = B.AND(x, self.okness(fn, args[1 - i], pt, depth))
                    return x if name == "eq" else B.NOT(x)
                oc = self.std_const(fn, args[i])
                if oc is not None:
                    x = self.okness(fn, args[1 - i], pt, depth)
                    x = x if oc in YES else B.NOT(x)
                    return x if name == "eq" else B.NOT(x)
            return self.rel(fn, "Eq" if name == "eq" else "Ne", args[0], args[1], b)
        if name in ("lt", "le", "gt", "ge") and len(args) == 2:
            return self.rel(fn, name.capitalize(), args[0], args[1], b)
        vm = self.f.value_test(c, name)
        if vm is not None and name.startswith("is_"):
            return B.var(("var", vm[0], vm[1], self.desc(fn, args[0], b)))
        if name == "is_empty" and len(args) == 1:
            return B.var(("empty", self.desc(fn, args[0], b)))
        if name in ("is_some_and", "is_ok_and", "is_none_or") and len(args) == 2:
            x = self.closure_fun(fn, t, args[1], "b")
            if x is not None:
                k = self.okness(fn, args[0], pt, depth)
                return B.OR(B.NOT(k), x) if name == "is_none_or" else B.AND(k, x)
        if name == "map_or" and len(args) == 3 and self.f.is_option_like(fn, args[0]):
            x = self.closure_fun(fn, t, args[2], "b")
            if x is not None:
                return B.ite(self.okness(fn, args[0], pt, depth), x, self.truth(fn, args[1], pt, depth))
        if name in ("unwrap_or_default", "unwrap_or", "unwrap_or_else") and args and args[0][0] == "p":
            return B.var(("call", name, self.argdesc(fn, args, b)))
        if name == "contains" and "slice" in c and len(args) == 2:
            return B.var(("call", "contains", self.argdesc(fn, args, b)))
        if name in ("clone", "deref", "borrow", "as_ref", "to_owned", "from", "into", "copied", "cloned") and len(args) == 1:
            return self.truth(fn, args[0], pt, depth)
        if name in ("any", "all") and len(args) == 2:
            S = set(self.argdesc(fn, [args[0]], b))
            x = B.var(("call", "any", frozenset(S)))
            # all(p) is not any(not p)
            return x if name == "any" else B.NOT(x)
        return B.var(("call", name, self.argdesc(fn, [a for a in args if not self.f.closures_of(fn, a)], b)))

    def std_const(self, fn, o):
        o = self.f.undref(fn, o)
        if o[0] != "p":
            return None
        ds = self.f.defs(fn).get(o[1][0], [])
        if len(ds) == 1 and ds[0][1] == "rv" and ds[0][3][0] == "a":
            h = ds[0][3][1]
            if h == "adt core::option::Option::None":
                return "None"
        return None

    def okness(self, fn, o, pt, depth=0):
        if o[0] != "p":
            return self.opaque(fn, "ok", o, pt[0])
        path = o[1][1]
        if path:
            if all(e == "*" for e in path):
                return self.okness(fn, ("p", (o[1][0], ())), pt, depth)
            return self.opaque(fn, "ok", o, pt[0])
        return self.value(fn, o, pt, "ok", self.okdef, depth)

    def okdef(self, fn, d, depth):
        b, i = d
        B = self.B
        if i == "t":
            return self.callok(fn, b, depth)
        rv = fn.blocks[b][0][i][3]
        k = rv[0]
        if k == "u":
            return self.okness(fn, rv[1], d, depth)
        if k in ("r", "rm"):
            return self.okness(fn, ("p", rv[1]), d, depth)
        if k == "a" and rv[1].startswith("adt ") and is_std(rv[1][4:]):
            v = rv[1].rsplit("::", 1)[-1]
            if v in YES:
                return 1
            if v in NO:
                return 0
        return self.opaque(fn, "ok", ("p", fn.blocks[b][0][i][2]), b)

    def callok(self, fn, b, depth):
        B = self.B
        t = fn.blocks[b][1]
        f, args = t[3], t[4]
        if f[0] != "fn":
            return B.var(("ok", self.argdesc(fn, args, b)))
        c, orig = f[1], f[2]
        name = last_seg(orig)
        pt = (b, "t")
        opq = c in self.f.opaque or orig in self.f.opaque
        if opq:
            return B.var(("okcall", c, self.argdesc(fn, args, b)))
        tg = self.f.targets(fn, t)
        if len(tg) == 1:
            try:
                x = self.result(tg[0], "ok")
            except Skip:
                return B.var(("okcall", name, self.argdesc(fn, args, b)))
            return self.liftcall(x, fn, b, t, tg[0])
        vm = self.f.value_test(c, name)
        if vm is not None and name.startswith("as_"):
            return B.var(("var", vm[0], vm[1], self.desc(fn, args[0], b)))
        if name == "from_residual":
            return 0
        if name == "from_output":
            return 1
        if not args:
            return B.var(("okcall", name, frozenset()))
        optlike = self.f.is_option_like(fn, args[0])
        if name in PRESERVE and (optlike or name in ("branch",)):
            return self.okness(fn, args[0], pt, depth)
        if name in ("then", "then_some") and self.isbool(fn, args[0]):
            return self.truth(fn, args[0], pt, depth)
        if optlike and len(args) == 2 and name in ("and_then", "filter", "or_else", "is_some_and"):
            x = self.closure_fun(fn, t, args[1], "b" if name == "filter" else "ok")
            if x is not None:
                k = self.okness(fn, args[0], pt, depth)
                return B.OR(k, x) if name == "or_else" else B.AND(k, x)
        if optlike and name == "or":
            return B.OR(self.okness(fn, args[0], pt, depth), self.okness(fn, args[1], pt, depth))
        if optlike and name == "and":
            return B.AND(self.okness(fn, args[0], pt, depth), self.okness(fn, args[1], pt, depth))
        return B.var(("okcall", name, self.argdesc(fn, [a for a in args if not self.f.closures_of(fn, a)], b)))

    def result(self, g, kind):
        """function for: g returns true / Some / Ok"""
        self.state(g)
        k = (g.id, "ret", kind)
        r = self.mem.get(k)
        if r is None:
            c = cfg(g)
            r = 0
            for b in sorted(c.rets):
                pt = (b, len(g.blocks[b][0]))
                f = self.truth if kind == "b" else self.okness
                r = self.B.OR(r, self.B.AND(self.st[g.id].pc.get(b, 0), f(g, ("p", (0, ())), pt)))
            self.mem[k] = r
        return r

    # ------------------------------------------------------------------ lifting
    def liftf(self, x, fn, site, up, precise=None):
        """re-express a function over the tests of a callee in the caller"""
        if x < 2:
            return x
        m = {}
        for k in self.B.support(x):
            m[k] = self.liftvar(k, fn, site, up, precise)
        r = self.B.subst(x, m)
        self.budget()
        return r

    def liftvar(self, k, fn, site, up, precise):
        B = self.B
        sets = [y for y in k if isinstance(y, frozenset)]
        if not any(l[0] in "PG" for s in sets for l in s):
            return B.var(k)
        if precise is not None and k[0] in ("b", "ok") and len(k[1]) == 1:
            x = precise(k[0], next(iter(k[1])))
            if x is not None:
                return x
        a = sets[0]
        b = sets[1] if len(sets) > 1 else frozenset()
        self.f.memo = {}
        l = self.f.lift(fn, ("R", "=", a, b, None), site, up)
        it = iter((l[2], l[3]))
        nk = tuple(next(it) if isinstance(y, frozenset) else y for y in k)
        if nk[0] in ("<", "="):
            return self.relvar(nk[0], nk[1], nk[2])
        return B.var(nk)

    def liftcall(self, x, fn, b, t, g):
        args = t[4]

        def up(l, pu, o):
            self.f.at = b
            self.f.subst(fn, g, args, l, True, pu, o)

        def precise(kind, leaf):
            if leaf[0] == "P" and not leaf[2] and 0 < leaf[1] <= len(args) and not self.f.rust_call(g, args):
                o = args[leaf[1] - 1]
                return (self.truth if kind == "b" else self.okness)(fn, o, (b, "t"), 1)
            return None
        return self.liftf(x, fn, args, up, precise)

    # ------------------------------------------------------------------ from the cone
    def cond(self, cone, fn, b, chain):
        """condition, at the entry, under which block b of fn runs when entered through chain"""
        mark, self.mark = self.mark, len(self.B.nodes)
        try:
            x = self.state(fn).pc.get(b, 0)
            return self.climb(cone, fn, x, chain, True)
        finally:
            self.mark = mark

    def climb(self, cone, fn, x, chain, ctl):
        cur = fn
        for site in reversed(chain):
            caller = site.caller
            self.state(caller)

            def up(l, pu, o, cur=cur, site=site):
                cone.up(cur, site, l[1], l[2], None, True, pu, o)

            def precise(kind, leaf, caller=caller, site=site):
                if site.mode == "call" and leaf[0] == "P" and not leaf[2] and 0 < leaf[1] <= len(site.args):
                    o = site.args[leaf[1] - 1]
                    return (self.truth if kind == "b" else self.okness)(caller, o, (site.block, "t"), 1)
                return None
            x = self.liftf(x, caller, site, up, precise)
            if ctl:
                x = self.B.AND(x, self.state(caller).pc.get(site.block, 0))
            cur = caller
        return x

    # ------------------------------------------------------------------ canonical text
    def names(self, S):
        r = set()
        for l in S:
            if l[0] == "A":
                r.add(l[1][2:].split("::")[-1] if l[1][0] not in "CK" else l[1])
                continue
            if l[0] == "G":
                r.add(l[1].split("::")[-1] + Flow.AMB.get(l[2], ""))
                continue
            p = [e for e in l[2] if e[0] not in "#^"]
            r.add(p[-1].split("::")[-1] + Flow.AMB.get(l[1], "") if p else "arg%d" % l[1])
        return ",".join(sorted(r))

    def lit(self, s):
        return int(s[2:]) if re.fullmatch(r"C:-?\d+", s) else None

    def final(self, k):
        """(canonical name, negated)"""
        kind = k[0]
        if kind in ("<", "="):
            if k[1] == Flow.TOP or k[2] == Flow.TOP:
                return kind + "(?)", False
            a, b = self.names(k[1]), self.names(k[2])
            la, lb = self.lit(a), self.lit(b)
            if kind == "=":
                if la is not None and lb is None:
                    a, b, la, lb = b, a, lb, la
                if a == "C:":
                    a, b = b, a
                if lb == 0 or b == "C:":
                    return "empty(%s)" % a, False
                if b < a and lb is None:
                    a, b = b, a
                return "%s = %s" % (a, b), False
            if lb in (0, 1) and la is None:       # x < 1
                return "empty(%s)" % a, False
            if la is not None and lb is None:     # k < x  ==  not (x < k+1)
                if la == 0:
                    return "empty(%s)" % b, True
                return "%s < %d" % (b, la + 1), True
            return "%s < %s" % (a, b), False
        if kind == "var":
            return "%s is %s::%s" % (self.names(k[3]), k[1], k[2]), False
        if kind in ("call", "okcall"):
            return "%s %s(%s)" % (kind, k[1], self.names(k[2])), False
        return "%s(%s)" % (kind, self.names(k[1])), False

    def text(self, x):
        """canonical (tests, function) of a decision, or None"""
        if x < 2:
            return [[], "FT"[x]]
        sup = self.B.support(x)
        if len(sup) > VARS:
            return None
        fin = {k: self.final(k) for k in sup}
        enums = {}
        eqs = {}
        for k in sup:
            if k[0] == "var":
                enums.setdefault((k[1], self.names(k[3])), set()).add(k[2])
            elif k[0] == "=":
                n = fin[k][0]
                a, _, b = n.partition(" = ")
                if b.startswith("C:"):
                    eqs.setdefault(a, set()).add(n)
        names = {n for n, _ in fin.values()}
        groups = []
        for (en, subj), _ in enums.items():
            vs = [v for v, _ in self.f.p.enums.get(en, [])]
            if len(vs) <= 30:
                g = ["%s is %s::%s" % (subj, en, v) for v in vs]
                groups.append((g, True))
                names |= set(g)
        for a, ns in eqs.items():
            if len(ns) > 1:
                groups.append((sorted(ns), False))
        if len(names) > 3 * VARS:
            return None
        o = BDD()
        o.LIMIT = 100000
        try:
            for n in sorted(names):
                o.var(n)
            m = {k: (o.NOT(o.var(n)) if neg else o.var(n)) for k, (n, neg) in fin.items()}
            y = self.B.subst(x, m, o)
            for g, exact in groups:
                none, one = 1, 0
                for n in sorted(g, reverse=True):
                    v = o.var(n)
                    one = o.ite(v, none, one)
                    none = o.ite(v, 0, none)
                y = o.AND(y, one if exact else o.OR(one, none))
            used = o.support(y)
            # number variables by their rank among those used
            p = BDD()
            for n in used:
                p.var(n)
            z = o.subst(y, {n: p.var(n) for n in used}, p)
            w = p.dump(z)
            if p.size(z) > 400:
                w = "#" + hashlib.sha1(w.encode()).hexdigest()
            return [used, w]
        except TooBig:
            return None
