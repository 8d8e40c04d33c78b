"""Loads the extracted program facts (one file per crate) and decodes bodies on demand."""
import json, os, re

STD = ("core::", "alloc::", "std::")


def is_std(p):
    return p.startswith(STD) or p.startswith("<core::") or p.startswith("<alloc::") or p.startswith("<std::")


EXTCTOR = re.compile(r"^[a-z]\w*::.*\b[A-Z]\w*::[A-Z]\w*$")


class Fn:
    __slots__ = ("id", "crate", "kind", "parent", "file", "line", "tag", "derived", "na", "pub", "ti",
                 "self_ty", "locals", "names", "blocks", "_raw", "_S", "cache", "prog", "gn", "subst", "orig", "_ns")

    def __init__(self, raw, S, crate, prog):
        self._raw = raw
        self._S = S
        self.crate = crate
        self.prog = prog
        self.id = S[raw["id"]]
        self.kind = raw["kind"]
        self.parent = S[raw["par"]] if "par" in raw else None
        self.file = S[raw["file"]]
        self.line = raw["line"]
        self.tag = S[raw["tag"]]
        self.derived = bool(raw["der"])
        self.na = raw["na"]
        self.pub = raw.get("pub", 0)
        self.ti = S[raw["ti"]] if "ti" in raw else None
        self.self_ty = S[raw["self"]] if "self" in raw else None
        self.locals = None
        self.blocks = None
        self.cache = {}
        self.gn = raw.get("gn", [])
        self.subst = None
        self.orig = self
        self._ns = None

    @property
    def has_body(self):
        return "bb" in self._raw

    def decode(self):
        if self.blocks is not None:
            return self
        S = self._S
        raw = self._raw
        self.locals = [S[i] for i in raw["loc"]]
        self.names = {}
        for n, p in raw["nm"].items():
            self.names.setdefault(n, []).append(self.place(p))
        bl = []
        for st, t in raw["bb"]:
            ss = []
            for x in st:
                ss.append((x[0], S[x[1]], self.place(x[2]), self.rv(x[3:])))
            bl.append((ss, self.term(t)))
        self.blocks = bl
        return self

    def place(self, p):
        """(local, path) ; path elements: '*', '[]', '@Enum::Var', 'Adt.field', '#i', '^i'"""
        S = self._S
        out = []
        for e in p[1:]:
            if e == 0:
                out.append("*")
            elif isinstance(e, list):
                out.append("[]" if not e else ("[]", e[0]))
            else:
                out.append(S[e])
        return (p[0], tuple(out))

    def operand(self, o):
        """('p', place) | ('fn', callee, orig, virt) | ('c', ty, name, value)"""
        if isinstance(o, list):
            return ("p", self.place(o))
        S = self._S
        if o["k"] == "fn":
            return ("fn", S[o["c"]], S[o["t"]], o["s"], tuple(S[i] for i in o.get("ia", ())))
        if o["k"] == "c":
            ty, v = S[o["ty"]], o.get("v")
            if ty == "char" and type(v) is int:
                ty, v = "&str", chr(v)
            return ("c", ty, S[o["n"]] if "n" in o else None, v)
        return ("c", "rt", None, None)

    def rv(self, r):
        k = r[0]
        S = self._S
        if k in ("u",):
            return ("u", self.operand(r[1]))
        if k in ("r", "rm"):
            return (k, self.place(r[1]))
        if k == "cast":
            return ("u", self.operand(r[1]))
        if k == "b":
            return ("b", r[1], self.operand(r[2]), self.operand(r[3]))
        if k == "n":
            return ("n", r[1], self.operand(r[2]))
        if k == "d":
            return ("d", self.place(r[1]), S[r[2]])
        if k == "a":
            h = S[r[1]]
            return ("a", h, [(S[f] if f >= 0 else None, self.operand(o)) for f, o in r[2]])
        raise ValueError(k)

    def term(self, t):
        S = self._S
        line, tag, k = t[0], S[t[1]], t[2]
        if k == "g":
            return (line, tag, "g", t[3])
        if k == "s":
            return (line, tag, "s", self.operand(t[3]), bool(t[4]), [tuple(x) for x in t[5]], t[6])
        if k in ("ret", "un", "res"):
            return (line, tag, k)
        if k == "dr":
            return (line, tag, "dr", self.place(t[3]), t[4])
        if k == "as":
            return (line, tag, "as", self.operand(t[3]), t[4])
        if k == "y":
            return (line, tag, "y", self.operand(t[3]), self.place(t[4]), t[5])
        if k == "c":
            f = self.operand(t[3])
            ga = [S[i] for i in t[7]]
            if f[0] == "fn" and f[2] in ("core::convert::Into::into", "core::convert::TryInto::try_into") and len(ga) >= 2:
                # the blanket conversion stands for the implementation it delegates to
                g = self.prog.from_impl(ga[0], ga[1])
                if g is not None and g in self.prog.fns:
                    f = ("fn", g, "core::convert::From::from" if f[2].endswith("::into") else "core::convert::TryFrom::try_from", 0, ())
            return (line, tag, "c", f, [self.operand(a) for a in t[4]], self.place(t[5]), t[6], ga)
        raise ValueError(k)

    def succ(self, b):
        t = self.blocks[b][1]
        k = t[2]
        if k == "g":
            return [t[3]]
        if k == "s":
            out = []
            for _, x in t[5]:
                if x not in out:
                    out.append(x)
            if t[6] not in out:
                out.append(t[6])
            return out
        if k in ("ret", "un", "res"):
            return []
        if k in ("dr", "as"):
            return [t[4]]
        if k == "y":
            return [t[5]]
        if k == "c":
            return [t[6]] if t[6] >= 0 else []
        return []

    def __repr__(self):
        return f"<Fn {self.id}>"


class Program:
    def __init__(self, d, skip=()):
        self.fns = {}
        self.adts = {}
        self.enums = {}
        self.impls = []
        self.trait_impls = {}  # trait item -> [impl item]
        self.crates = {}
        self.files = {}
        for f in sorted(os.listdir(d)):
            if not f.endswith(".facts"):
                continue
            name = f[:-6]
            if name in skip:
                continue
            with open(os.path.join(d, f)) as fh:
                lines = fh.read().split("\n")
            h = json.loads(lines[0])
            S = h["strs"]
            self.crates[name] = {"n": h["n"], "fallbacks": h["fallbacks"], "files": h["files"]}
            for a in h["adts"]:
                self.adts[a["p"]] = a
                if a["en"]:
                    self.enums[a["p"]] = [(v[0], v[1]) for v in a["v"]]
            for p, v in h["enums"].items():
                self.enums.setdefault(p, [tuple(x) for x in v])
            for im in h["impls"]:
                self.impls.append(im)
                for ti, it in im["m"]:
                    if ti:
                        self.trait_impls.setdefault(ti, []).append(it)
            for l in lines[1:]:
                if not l:
                    continue
                raw = json.loads(l)
                fn = Fn(raw, S, name, self)
                self.fns[fn.id] = fn
        self._from = None
        self._ctors = {}

    # ---- specialisation of generic bodies (so that `T::method` dispatches precisely)
    def needs_spec(self, g):
        if g._ns is None:
            g._ns = False
            if g.gn and g.has_body:
                pats = [re.compile(r"(?<![\w:])" + re.escape(n) + r"(?![\w:])") for n in g.gn]
                g.decode()
                for st, t in g.blocks:
                    ops = []
                    if t[2] == "c":
                        ops = [t[3]] + t[4]
                    for o in ops:
                        if o[0] == "fn" and any(p.search(x) for p in pats for x in o[4]):
                            g._ns = True
                    for (_, _, _, rv) in st:
                        if rv[0] == "a" and rv[1].startswith("clo "):
                            h = self.fns.get(rv[1][4:])
                            if h is not None and self.needs_spec(h):
                                g._ns = True
        return g._ns

    def spec(self, g, mp):
        mp = {k: v for k, v in mp.items() if k in g.gn}
        if not mp or not self.needs_spec(g):
            return g
        for v in mp.values():
            if len(v) > 200:
                return g
        key = g.orig.id + "@" + ",".join(f"{k}={v}" for k, v in sorted(mp.items()))
        r = self.fns.get(key)
        if r is None:
            r = Fn(g.orig._raw, g.orig._S, g.crate, self)
            r.id = key
            r.orig = g.orig
            r._ns = True
            r.subst = mp
            self.fns[key] = r
        return r

    def subst_ty(self, fn, t):
        if not fn.subst:
            return t
        for k, v in fn.subst.items():
            t = re.sub(r"(?<![\w:])" + re.escape(k) + r"(?![\w:])", lambda m: v, t)
        return t

    def impl_for(self, trait_item, selfty):
        """(impl fn, substitution) of trait_item for a concrete self type; None if unknown"""
        st = _norm_ty(selfty)
        for it in self.trait_impls.get(trait_item, []):
            g = self.fns.get(it)
            if g is None:
                continue
            sp = _norm_ty(g.self_ty or "")
            if sp == st:
                return g, {}
        for it in self.trait_impls.get(trait_item, []):
            g = self.fns.get(it)
            if g is None or not g.gn:
                continue
            sp = _norm_ty(g.self_ty or "")
            rx = re.escape(sp)
            used = []
            for n in g.gn:
                rx2 = re.sub(r"(?<![\w:])" + re.escape(n) + r"(?![\w:])", "(.+)", rx, count=1)
                if rx2 != rx:
                    used.append((rx.find(n), n))
                    rx = rx2
            m = re.fullmatch(rx, st)
            if m and used:
                return g, {n: v for (_, n), v in zip(sorted(used), m.groups())}
        return None

    def ctor(self, c):
        """a tuple constructor used as a function, as a body that builds the value"""
        if c in self._ctors:
            return self._ctors[c]
        n = re.sub(r"::<.*?>(?=::|$)", "", c)
        fields = None
        a = self.adts.get(n)
        if a is not None and not a["en"]:
            fields = a["v"][0][2]
        elif "::" in n:
            a = self.adts.get(n.rsplit("::", 1)[0])
            if a is not None and a["en"]:
                for v in a["v"]:
                    if v[0] == n.rsplit("::", 1)[1]:
                        fields = v[2]
        g = None
        if a is None and fields is None and EXTCTOR.search(n) and not is_std(n):
            fields, a = [["0", "?"]], {"p": n.rsplit("::", 1)[0]}
        if fields and fields[0][0] == "0":
            g = Fn.__new__(Fn)
            g._raw, g._S = {"bb": 1}, []
            g.id, g.crate, g.kind, g.parent, g.file, g.line, g.tag = c, "", "fn", None, "", 0, ""
            g.derived, g.na, g.pub, g.ti, g.self_ty, g.prog = True, len(fields), 0, None, None, self
            g.gn, g.subst, g.orig, g._ns, g.cache, g.names = [], None, g, False, {}, {}
            g.locals = [a["p"]] + [str(x[1]) for x in fields]
            rv = ("a", "adt " + n, [(n + "." + x[0], ("p", (i + 1, ()))) for i, x in enumerate(fields)])
            g.blocks = [([(0, "", (0, ()), rv)], (0, "", "ret"))]
            self.fns[c] = g
        self._ctors[c] = g
        return g

    def find(self, pat):
        r = re.compile(pat)
        return [f for i, f in list(self.fns.items()) if f.subst is None and r.search(i)]

    def from_impl(self, src, dst):
        """body of `impl From<src> for dst`, if any"""
        if self._from is None:
            self._from = {}
            for im in self.impls:
                if im["trd"] in ("core::convert::From", "core::convert::TryFrom"):
                    m = re.match(r"core::convert::(Try)?From<(.*)>$", im["tr"])
                    if m and im["m"]:
                        self._from[(_norm_ty(m.group(2)), _norm_ty(im["self"]), bool(m.group(1)))] = im["m"][0][1]
        return (self._from.get((_norm_ty(src), _norm_ty(dst), False))
                or self._from.get((_norm_ty(src), _norm_ty(dst), True)))


def _norm_ty(t):
    t = re.sub(r"'\{?[a-z_0-9]+\}?\s?", "", t)
    return t.replace("&mut ", "&").replace(" ", "")
