"""Demand-driven, field-sensitive, interprocedural dependence analysis over the extracted MIR.

A value's *influence set* is the set of domain atoms its content or its being produced depends on:
  F:Adt.field         a field of a (non-std) type that is read
  V:Enum{A,B}         the value of a (non-std) enum is tested and this side is reached for variants A,B
  C:lit               a literal takes part
  S:path              a global is read
  L:op                a lossy/truncating std operation takes part (take, skip, first, ...)
  E:op                an environment read takes part (env var, clock, file existence, ...)
  R:x<y               an ordering test between x and y takes part (direction and strictness canonicalised)
Helpers, closures, async bodies and trait dispatch are followed, so where code lives does not matter.
"""
import re
from .facts import is_std
from .cfg import cfg

MAXPATH = 4
DISC = frozenset(["?"])
NONE = frozenset(["None"])

LOSSY = {
    "take", "skip", "step_by", "take_while", "skip_while", "map_while", "nth", "first", "last", "truncate",
    "dedup", "dedup_by", "dedup_by_key", "pop", "pop_front", "pop_back", "split_first", "split_last",
    "find_first", "find_any", "chunks", "windows", "starts_with", "ends_with", "eq_ignore_ascii_case", "to_lowercase",
    "to_ascii_lowercase", "to_uppercase", "to_ascii_uppercase", "trim", "trim_start", "trim_end", "trim_matches",
    "trim_start_matches", "trim_end_matches", "strip_prefix", "strip_suffix", "rsplit_once",
    "swap_remove", "saturating_sub", "wrapping_add", "split_off", "min", "max", "min_by", "max_by",
    "min_by_key", "max_by_key", "clear", "replace",
    "replacen", "lines", "rev_", "unique", "unique_by", "skip_last", "get_or_insert", "get_or_insert_with",
    "rfind", "rposition", "contains_sub", "discriminant",
}
# std paths for which the name in LOSSY is only meaningful when it comes from these traits/types
ENVREAD = re.compile(
    r"^std::env::|^std::fs::(exists|metadata|read_dir|read|File)|Path::(exists|is_file|is_dir|try_exists|canonicalize)$"
    r"|SystemTime::now|Instant::now|rand::|std::process::|std::thread::current|::elapsed$")

NEUTRAL_FIELD = re.compile(r"^(fluent_uri|miette)::")


ENTRY = re.compile(r"(std|alloc|hashbrown|indexmap)::.*\b(Occupied|Vacant)?Entry<")


def last_seg(p):
    p = re.sub(r"<[^<>]*>$", "", p)
    return p.rsplit("::", 1)[-1]


def short(adt):
    """stable short name: crate-qualified last segment"""
    segs = adt.split("::")
    return adt if len(segs) <= 2 else segs[0] + "::" + "::".join(segs[1:])


_cut = {}


def cut(path):
    """bounded paths: at most MAXPATH steps and no type entered twice"""
    if len(path) < 2:
        return path
    r = _cut.get(path)
    if r is None:
        seen = set()
        n = 0
        for e in path:
            if n >= MAXPATH:
                break
            if e[0] not in "#^":
                ty = e.rsplit(".", 1)[0]
                if ty in seen:
                    break
                seen.add(ty)
            n += 1
        r = _cut[path] = path if n == len(path) else path[:n]
    return r


def prose(v):
    """text for people, not a value the program decides on"""
    return isinstance(v, str) and len(re.findall(r"(?:^|[ '`\"])[A-Za-z]+(?=[ ,.:;!?'`\"]|$)", v)) >= 3


def std_field(e):
    return is_std(e) and not e.startswith("std::process::Output")


NOEXT = re.compile(r"^(<|log|serde|serde_core|itertools|rayon|rayon_core|miette|once_cell|schemars|indexmap|thiserror|env_logger|paris|tracing"
                   r"|weaver\w*|serde_json::(map|value|number)|either|futures\w*|clap\w*|[A-Z]\w?|&.*|bool|u8|usize|\(.*|\[.*)(::|$)")


def external(c):
    """a function of an external crate whose choice matters (not glue)"""
    return "::" in c and not is_std(c) and not c.startswith("<") and not NOEXT.match(c)


FNCALL = re.compile(r"^core::ops::function::Fn(Once|Mut)?::call(_once|_mut)?$")
EQCALL = re.compile(r"^core::cmp::PartialEq::(eq|ne)$")
FNITEM = re.compile(r"^(?:for<.*> )?fn\(.*\{(.+)\}$")


def ext(c):
    """atom for a call into a library: by value or by reference is the same"""
    c = re.sub(r"::<.*?>", "", c)
    return "X:" + re.sub(r"::(into|to|as)_(?=\w+$)", "::", c)


class Flow:
    def __init__(self, prog):
        self.p = prog
        self.summ = {}
        self.cur = []
        self.users = {}
        self.dirty = set()
        self.done = set()
        self._mods = {}
        self.stats = {"bodies": set(), "calls": 0, "nodes": 0}
        self.closty = {}
        self._ct = set()
        self.opaque = set()    # workspace functions treated as atoms ("K:name") instead of being entered
        self.dataonly = False
        self.memo = {}         # lifted leaves, per query
        self.at = None         # block whose uses are being followed

    # ------------------------------------------------------------------ places
    def norm(self, path):
        """path -> (tuple of significant elements, variant-want for base)"""
        out = []
        for e in path:
            if e == "*" or e == "[]":
                continue
            if isinstance(e, tuple):
                continue
            if e[0] == "@":
                continue
            if e[0] in "#^":
                out.append(e)
            elif std_field(e):
                continue
            else:
                out.append(e)
        return tuple(out[:MAXPATH])

    def payload_want(self, path):
        """if the place reads a payload of a std enum variant at its very base, return that variant name"""
        for e in path:
            if e == "*":
                continue
            if isinstance(e, str) and e[0] == "@" and is_std(e[1:]):
                return frozenset([e.rsplit("::", 1)[-1]])
            return None
        return None

    # ------------------------------------------------------------------ defs
    def defs(self, fn):
        """local -> list of (block, kind, path, payload)"""
        d = fn.cache.get("defs")
        if d is not None:
            return d
        fn.decode()
        c = cfg(fn)
        # reference aliases: r = &[mut] place (unique def)
        refs = {}
        tups = {}
        cnt = {}
        for b in c.reach:
            for (ln, tag, pl, rv) in fn.blocks[b][0]:
                if not pl[1]:
                    cnt[pl[0]] = cnt.get(pl[0], 0) + 1
                    if rv[0] == "rm":
                        refs.setdefault(pl[0], []).append((b,) + rv[1])
                    elif rv[0] == "u" and rv[1][0] == "p" and (fn.locals[pl[0]].startswith("&mut") or ENTRY.match(fn.locals[pl[0]])):
                        refs.setdefault(pl[0], []).append((b,) + rv[1][1])
                    elif rv[0] == "a" and rv[1] == "tup":
                        tups.setdefault(pl[0], []).append((b, rv[2]))
            t = fn.blocks[b][1]
            if t[2] == "c" and not t[5][1]:
                cnt[t[5][0]] = cnt.get(t[5][0], 0) + 1
                # pointer-forwarding calls: deref_mut/as_mut/get_mut/iter_mut/entry... result borrows from arg 0
                if t[4] and t[4][0][0] == "p" and t[3][0] == "fn":
                    if "&mut" in fn.locals[t[5][0]] or re.search(
                            r"Guard|RefMut|IterMut|Entry|Pin<|ValuesMut|Drain", fn.locals[t[5][0]]):
                        refs.setdefault(t[5][0], []).append((b,) + t[4][0][1])

        def bases(place, depth=0):
            """[(place, blocks where it was chosen)] a place may stand for, through references that may have several targets"""
            l, path = place
            if l in tups and cnt.get(l) == 1 and path and depth < 12:
                # a mutable reference put into a tuple to be matched on
                o = dict(tups[l][0][1]).get(path[0])
                if o and o[0] == "p" and not o[1][1] and fn.locals[o[1][0]].startswith("&mut"):
                    return bases((o[1][0], o[1][1] + path[1:]), depth + 1)
            if depth > 12 or l not in refs or l <= fn.na:
                return [(place, ())]
            out = []
            several = len(refs[l]) > 1
            for at, ql, qp in refs[l]:
                for r, via in [(place, ())] if ql == l else bases((ql, qp + path), depth + 1):
                    if r not in [x for x, _ in out] and len(out) < 8:
                        out.append((r, via + (at,) if several else via))
            return out

        def base(place):
            return bases(place)[-1][0]

        d = {}
        ovf = {pl[0]: rv for b in c.reach for (ln, tag, pl, rv) in fn.blocks[b][0] if rv[0] == "b" and not pl[1] and "WithOverflow" in str(rv[1])}

        def change(place, rv):
            """of `place = place op value`, the value"""
            if rv[0] == "u" and rv[1][0] == "p" and rv[1][1][1] == ("#0",):
                rv = ovf.get(rv[1][1][0], rv)
            if rv[0] == "b":
                rest = [o for o in rv[2:] if o != ("p", place)]
                if len(rest) == 1 and len(rv) == 4:
                    return ("u", rest[0])
            return rv

        def add(b, kind, place, payload):
            hit = set()
            bs = bases(place)
            if kind == "rv" and len({(r[0], r[1][:2]) for r, _ in bs}) > 1:
                # one of several places is changed: each from its own content only
                payload = change(place, payload)
            for pl, via in bs:
                d.setdefault(pl[0], []).append((b, kind, self.norm(pl[1]), payload))
                for v in via:
                    d[pl[0]].append((v, "via", self.norm(pl[1]), v))
                hit.add(pl[0])
            if place[0] not in hit:
                d.setdefault(place[0], []).append((b, kind, self.norm(place[1]), payload))

        clo_of = {}
        for b in c.reach:
            for (ln, tag, pl, rv) in fn.blocks[b][0]:
                if rv[0] in ("r", "rm") and not pl[1]:
                    # plain borrow: value flow only
                    d.setdefault(pl[0], []).append((b, "rv", (), rv))
                    continue
                if pl[1]:
                    add(b, "rv", pl, rv)
                else:
                    d.setdefault(pl[0], []).append((b, "rv", (), rv))
                if rv[0] == "a" and rv[1].startswith("clo "):
                    # mutations of captured variables
                    for i, (f, o) in enumerate(rv[2]):
                        if o[0] == "p":
                            lt = fn.locals[o[1][0]]
                            if lt.startswith("&mut") or o[1][0] in refs:
                                add(b, "cloeff", o[1], (rv[1][4:], f))
            t = fn.blocks[b][1]
            if t[2] == "c":
                add(b, "call", t[5], t)
                for i, a in enumerate(t[4]):
                    if a[0] == "p":
                        lt = fn.locals[a[1][0]] if not a[1][1] else ""
                        if lt.startswith("&mut") or (lt.startswith("core::pin::Pin<&mut")) or (
                                a[1][0] in refs and not a[1][1]):
                            for q, via in bases(a[1]):
                                if q != a[1]:
                                    d.setdefault(q[0], []).append((b, "mut", self.norm(q[1]), (i, t)))
                                    for v in via:
                                        d[q[0]].append((v, "via", self.norm(q[1]), v))
                            if a[1][0] <= fn.na:
                                d.setdefault(a[1][0], []).append((b, "mut", self.norm(a[1][1]), (i, t)))
            elif t[2] == "y":
                pass
        fn.cache["defs"] = d
        fn.cache["base"] = base
        fn.cache["refs"] = refs
        fixed = set()
        for l in range(len(fn.locals)):
            if l not in refs and len(d.get(l, ())) <= (0 if 0 < l <= fn.na else 1):
                fixed.add(l)
        fn.cache["fixed"] = fixed
        return d

    def base(self, fn, place):
        self.defs(fn)
        return fn.cache["base"](place)

    # ------------------------------------------------------------------ callee resolution
    def is_param_ty(self, fn, t):
        return t in fn.gn or t.startswith("impl ") or t.startswith("dyn ") or t.startswith("<") or "dyn " in t

    def targets(self, fn, t):
        """bodies a call terminator may enter; [] if external"""
        key = ("tg", id(t))
        r = fn.cache.get(key)
        if r is None:
            r = fn.cache[key] = (self._targets(fn, t[3], t[7]), len(self.opaque))
        return r[0]

    def _targets(self, fn, f, ga):
        P = self.p
        if f[0] != "fn":
            return []
        _, c, orig, virt, ia = f
        if c in self.opaque or orig in self.opaque:
            return []
        if EQCALL.match(orig):
            return []
        if fn.subst:
            ia = tuple(P.subst_ty(fn, x) for x in ia)
        if any("{closure@" in x for x in ia):
            self.closure_types(fn)
        if virt and FNCALL.match(orig) and ia:
            g = self.closty.get(ia[0].lstrip("&").replace("mut ", ""))
            if g is None:
                m = FNITEM.match(ia[0])
                g = (P.fns.get(m.group(1)) or P.ctor(m.group(1))) if m else None
                if g is not None and g.orig.id in self.opaque:
                    g = None
            return [g] if g is not None and g.has_body else []
        if virt:
            if ia and not self.is_param_ty(fn, ia[0]):
                hit = P.impl_for(orig, ia[0])
                if hit is not None:
                    g, mp = hit
                    if g.orig.id in self.opaque:
                        return []
                    return [P.spec(g, mp)] if g.has_body else []
                g = P.fns.get(orig)
                if g is not None and g.has_body:
                    return [P.spec(g, dict(zip(g.gn, ia)))]
                if any(True for it in P.trait_impls.get(orig, [])) is False:
                    return []
            out = []
            for it in P.trait_impls.get(orig, []):
                g = P.fns.get(it)
                if g is not None and g.has_body and it not in self.opaque:
                    out.append(g)
            g = P.fns.get(orig)
            if g is not None and g.has_body:
                out.append(g)
            return out
        g = P.fns.get(c)
        if g is not None:
            if not g.has_body:
                return []
            if g.kind in ("closure", "coroutine"):
                return [self.child(fn, g)]
            if g.gn and ia and len(ia) >= len(g.gn):
                g = P.spec(g, {n: v for n, v in zip(g.gn, ia) if not self.is_param_ty(fn, v)})
            return [g]
        if is_std(c) or is_std(orig):
            name = last_seg(orig)
            if name in ("into", "try_into") and len(ga) >= 2:
                g = P.fns.get(P.from_impl(ga[0], ga[1]) or "")
                if g is not None and g.id in self.opaque:
                    return []
                if g is not None and g.has_body:
                    return [g]
        return []

    def closure_types(self, fn):
        """learns which closure each closure type made in a body stands for"""
        if fn.orig.id in self._ct:
            return
        self._ct.add(fn.orig.id)
        fn.decode()
        for st, t in fn.blocks:
            for (_, _, pl, rv) in st:
                if rv[0] == "a" and rv[1].startswith("clo ") and not pl[1]:
                    g = self.p.fns.get(rv[1][4:])
                    if g is not None:
                        self.closty[fn.locals[pl[0]]] = g

    def child(self, fn, g):
        """a closure body as seen from its (possibly specialised) parent"""
        return self.p.spec(g, fn.subst) if fn.subst else g

    def fnval(self, o, fn=None):
        """a function item passed as a value"""
        if o[0] == "fn":
            if o[1] in self.opaque:
                return None
            if o[1] not in self.p.fns and not is_std(o[1]):
                g = self.p.ctor(o[1])
                if g is not None:
                    return g
            if fn is not None:
                tg = self._targets(fn, o, [])
                return tg[0] if tg else None
            g = self.p.fns.get(o[1])
            if g is not None and g.has_body:
                return g
        elif o[0] == "p" and fn is not None and fn.subst and not o[1][1]:
            m = FNITEM.match(fn.subst.get(fn.locals[o[1][0]], ""))
            if m:
                g = self.p.fns.get(m.group(1)) or self.p.ctor(m.group(1))
                if g is not None and g.has_body and g.orig.id not in self.opaque:
                    return g
        return None

    def closures_of(self, fn, o, depth=0):
        """closure bodies an operand may denote: list of (Fn, aggregate operand list)"""
        if o[0] != "p":
            return []
        key = ("clo", o[1])
        r = fn.cache.get(key)
        if r is not None:
            return r
        fn.cache[key] = []
        out = []
        l = o[1][0]
        for (b, kind, path, pay) in self.defs(fn).get(l, []):
            if kind == "rv":
                if pay[0] == "a" and pay[1].startswith("clo "):
                    g = self.p.fns.get(pay[1][4:])
                    if g is not None and g.has_body:
                        out.append((self.child(fn, g), pay[2]))
                elif pay[0] == "u" and pay[1][0] == "p" and depth < 4:
                    out.extend(self.closures_of(fn, pay[1], depth + 1))
                elif pay[0] in ("r", "rm") and depth < 4:
                    out.extend(self.closures_of(fn, ("p", pay[1]), depth + 1))
        fn.cache[key] = out
        return out

    # ------------------------------------------------------------------ the query
    # result: frozenset of leaves.  leaf = ("A", atom, isdata) | ("P", param, path, want, isdata)
    def query(self, fn, seeds, dataonly=False):
        """seeds: iterable of nodes (local, path, want, isdata) or ('cd', block)"""
        self.stats["bodies"].add(fn.id)
        out = set()
        seen = set()
        st = []
        prev = self.dataonly, self.memo, self.at
        self.dataonly = dataonly
        self.memo = {}
        try:
            return self._query(fn, seeds, out, seen, st, dataonly)
        finally:
            self.dataonly, self.memo, self.at = prev

    def _query(self, fn, seeds, out, seen, st, dataonly):
        defs = self.defs(fn)
        fixed = fn.cache["fixed"]
        refs = fn.cache["refs"]
        c = cfg(fn)

        def push(n):
            if len(n) > 3:
                if dataonly and not n[3]:
                    return
                if n[4] is not None and n[0] in fixed and (n[0] not in defs or defs[n[0]][0][0] != n[4]):
                    n = n[:4] + (None,)
            elif dataonly:
                return
            if n not in seen:
                seen.add(n)
                st.append(n)

        for s in seeds:
            push(s)
        while st:
            n = st.pop()
            self.stats["nodes"] += 1
            if n[0] == "cd":
                for (x, s) in c.cd(n[1]):
                    push(("br", x, s))
                continue
            if n[0] == "br":
                self.at = n[1]
                self.branch(fn, n[1], n[2], push, out)
                push(("cd", n[1]))
                continue
            local, path, want, isd, at = n
            if 0 < local <= fn.na:
                out.add(("P", local, path, want, isd))
            dl = defs.get(local, ())
            keep = local in refs
            kills = self.kills(fn, local, dl, want) if want is not None and want != DISC and not path and len(dl) > 1 else ()
            for (b, kind, dpath, pay) in dl:
                if at is not None and not keep:
                    # a definition that cannot precede this use
                    if at not in c.reach_from(b) and not (at == b and kind in ("rv", "cloeff")):
                        continue
                self.at = at if keep else b
                if kills and (b, kind) in kills:
                    push(("cd", b))
                    if kind == "rv" and pay[0] == "a":
                        for f_, o_ in pay[2]:
                            self.op(fn, o_, (), None, False, push, out)
                    continue
                # path match
                rest = self.match(path, dpath)
                if rest is None:
                    continue
                if kind == "rv" and not dpath and (dataonly or isd) and self.counter(fn, local, pay):
                    if dataonly:
                        for leaf in self.counted(fn, b):
                            out.add(leaf)
                    else:
                        for o in self.looped(fn, b):
                            self.op(fn, o, (), None, True, push, out)
                if kind == "rv":
                    # (a temporary made where it is used is there whenever it is used)
                    self.rv(fn, b, pay, rest, want if len(path) >= len(dpath) else None, isd,
                            (lambda n: n == ("cd", b) or push(n)) if at == b and len(dl) == 1 else push, out)
                elif kind == "call":
                    self.call(fn, b, pay, rest, want if len(path) >= len(dpath) else None, isd, push, out)
                    push(("cd", b))
                elif kind == "mut":
                    i, t = pay
                    if rest and not self.touches(fn, t, i, rest):
                        continue
                    self.mutcall(fn, b, t, i, rest, isd, push, out)
                    self.control(fn, c, b, dpath, pay, dl, push)
                elif kind == "via":
                    push(("cd", b))
                elif kind == "cloeff":
                    cid, f = pay
                    g = self.p.fns.get(cid)
                    if g is not None and g.has_body:
                        g = self.child(fn, g)
                        for leaf in self.summary(g, 1, (f,) + rest, None):
                            if leaf[0] == "P" and leaf[1] == 1 and leaf[2][:1] == (f,):
                                continue
                            self.subst_closure(fn, b, g, None, leaf, isd, push, out)
                    push(("cd", b))
                    for l2, rv2 in [(s_[2][0], s_[3]) for s_ in fn.blocks[b][0] if s_[3][0] == "a" and s_[3][1] == "clo " + cid]:
                        site = self.clo_site(fn, l2)
                        if site is not None and not dataonly:
                            # the option or result the closure is handed to decides whether it runs
                            tt = fn.blocks[site][1]
                            w = self.when(fn, tt, next((k for k, a in enumerate(tt[4]) if a[0] == "p" and a[1] == (l2, ())), None))
                            if w is not None and w != "success":
                                self.op(fn, tt[4][0], (), w, False, push, out)
        return frozenset(out)

    def control(self, fn, c, b, dpath, pay, dl, push):
        """what decides that a mutating call is made: not a branch all of whose sides make the same call"""
        def form(p):
            i, t = p
            return (i, t[3], tuple(("p",) + canon(self, fn, a[1]) if a[0] == "p" and j != i else a if j != i else None for j, a in enumerate(t[4])))
        same = [d for d in dl if d[1] == "mut" and d[2] == dpath and d[0] != b and d[3][1][3] == pay[1][3]]
        if not same:
            push(("cd", b))
            return
        from .variants import canon
        me = form(pay)
        same = [d[0] for d in same if form(d[3]) == me]
        for (x, s) in c.cd(b):
            if same and all(s2 == s or any((x, s2) in c.cd(b2) for b2 in same) for s2 in c.succ[x] if s2 in c.ok):
                push(("cd", x))
            else:
                push(("br", x, s))

    def when(self, fn, t, k):
        from .cone import when
        return when(self, fn, t, k)

    def touches(self, fn, t, i, path, seen=()):
        """False if no function the call may enter writes this part of what its argument i refers to"""
        tg = self.targets(fn, t)
        if not tg or any(not g.has_body or g.kind in ("closure", "coroutine") for g in tg):
            return True
        for g in tg:
            k = (g.id, i, path)
            if k in seen:
                continue
            if len(seen) > 12:
                return True
            g.decode()
            if i >= g.na:
                return True
            for (b, kind, dpath, pay) in self.defs(g).get(i + 1, ()):
                m = self.match(path, dpath)
                if m is None or kind == "via":
                    continue
                if kind != "mut" or not m or self.touches(g, pay[1], pay[0], m, seen + (k,)):
                    return True
        return False

    def counter(self, fn, l, rv):
        """`l += constant`"""
        if rv[0] == "u" and rv[1][0] == "p":
            ds = self.defs(fn).get(rv[1][1][0], [])
            rv = ds[0][3] if len(ds) == 1 and ds[0][1] == "rv" else rv
        return rv[0] == "b" and rv[1].startswith("Add") and rv[3][0] == "c" and rv[2] == ("p", (l, ()))

    def counted(self, fn, b):
        """what a count made by adding up in block b is a count of: whatever decides whether it goes up"""
        key = ("counted", b)
        r = fn.cache.get(key)
        if r is None:
            fn.cache[key] = r = frozenset()
            ls = self.query(fn, [("cd", b)])
            r = frozenset([l[:2] + (True,) for l in ls if l[0] == "A" and l[1][0] in "FK"] + [l[:4] + (True,) for l in ls if l[0] == "P"])
            fn.cache[key] = r
        return r

    def looped(self, fn, b):
        """what the loop around block b goes through"""
        c = cfg(fn)
        out = []
        for x, _ in c.cd_closure(b):
            for (_, _, pl, rv) in fn.blocks[x][0]:
                if rv[0] == "d" and not rv[1][1]:
                    for (b2, kind, dp, pay) in self.defs(fn).get(rv[1][0], ()):
                        if kind == "call" and not dp and pay[3][0] == "fn" and last_seg(pay[3][2]) == "next" and pay[4] and x in c.reach_from(b):
                            out.append(pay[4][0])
        return out

    def kills(self, fn, local, dl, want):
        """definitions that do not yield a wanted value but overwrite one that does"""
        good, bad = [], []
        for (b, kind, dpath, pay) in dl:
            if kind == "rv" and not dpath:
                v = None
                if pay[0] == "u" and pay[1][0] == "c" and isinstance(pay[1][3], bool):
                    v = pay[1][3]
                elif pay[0] == "a" and pay[1].startswith("adt ") and is_std(pay[1][4:]):
                    v = pay[1].rsplit("::", 1)[-1]
                if v is not None and v not in want and (isinstance(v, bool) == any(isinstance(w, bool) for w in want)):
                    bad.append((b, kind))
                    continue
            good.append(b)
        out = set()
        c = cfg(fn)
        for (b, kind) in bad:
            if any(b in c.forward_from(g) for g in good if g in c.reach):
                out.add((b, kind))
        return out

    @staticmethod
    def match(path, dpath):
        """definition of dpath seen by a read of path: None if disjoint else remaining path"""
        k = 0
        while k < len(path) and k < len(dpath):
            if path[k] != dpath[k]:
                return None
            k += 1
        return path[k:] if k == len(dpath) else ()

    def op(self, fn, o, rest, want, isd, push, out, cmpctx=False):
        if o[0] == "p":
            pl = o[1]
            p = self.norm(pl[1])
            w = want
            if not rest and any(isinstance(e, str) and e[0] == "@" and is_std(e[1:]) for e in pl[1]):
                # reading the payload of a std enum: the wanted value is that of the payload, not of the enum
                w = None
                pw = self.payload_want(pl[1])
                if pw is not None and not p:
                    w = pw
            full = p + rest
            if self.dataonly:
                # descriptions of compared values stop at the nearest named field
                for e in reversed(full):
                    if e[0] not in "#^":
                        out.add(self.held(fn, e, self.holder(fn, pl[0], full)))
                        return
            keep = cut(full)
            if keep is not full:
                w = None
                self.emit_path(full[len(keep):], isd, out)
            push((pl[0], keep, w, isd, self.at))
        elif o[0] == "c":
            _, ty, name, val = o
            self.emit_path(rest, isd, out)
            if name and name.startswith("static "):
                out.add(("A", "S:" + name[7:], isd))
            elif val is not None and ty in ("&str", "&'static str", "&'{erased} str") or (
                    val is not None and ty.endswith("str")):
                if val != "" and not prose(val):
                    out.add(("A", "C:" + repr(val), isd))
            elif isinstance(val, str) and val.startswith("\2"):
                # the literal pieces of a format string
                for x in val[1:].split("\1"):
                    if x != "" and not prose(x) and isd:
                        out.add(("A", "C:" + repr(x), isd))
            elif val is not None and not isinstance(val, bool) and ty != "bool":
                if val not in (0, 1, -1):
                    out.add(("A", "C:" + str(val), isd))
            elif isinstance(val, bool) and isd:
                out.add(("A", "C:" + str(val).lower(), isd))
            elif name and val is None:
                g = self.p.fns.get(name)
                if g is not None and g.has_body and g.kind == "const":
                    for leaf in self.summary(g, 0, rest, None):
                        if leaf[0] == "A":
                            out.add(("A", leaf[1], leaf[2] and isd))
                else:
                    out.add(("A", "S:" + name, isd))
        elif o[0] == "fn":
            pass

    def emit_path(self, path, isd, out):
        for e in path:
            if e[0] not in "#^":
                out.add(("A", "F:" + e, isd))

    def rv(self, fn, b, rv, rest, want, isd, push, out):
        k = rv[0]
        if k == "u":
            o = rv[1]
            if o[0] == "c" and isinstance(o[3], bool) and want is not None:
                if o[3] not in want:
                    return
            self.op(fn, o, rest, want, isd, push, out)
            push(("cd", b))
        elif k in ("r", "rm"):
            self.op(fn, ("p", rv[1]), rest, want, isd, push, out)
        elif k == "b":
            self.binop(fn, rv[1], rv[2], rv[3], want, isd, push, out)
            push(("cd", b))
        elif k == "n":
            w = None
            if rv[1] == "Not" and want is not None:
                w = frozenset(not x for x in want if isinstance(x, bool))
            self.op(fn, rv[2], (), w, isd, push, out)
            push(("cd", b))
        elif k == "d":
            self.op(fn, ("p", rv[1]), (), None, False, push, out)
        elif k == "a":
            h = rv[1]
            if h.startswith("adt ") and is_std(h[4:]):
                var = h.rsplit("::", 1)[-1]
                if var == "Reverse":
                    out.add(("A", "L:reverse", isd))
                if want is not None and not rest and not any(isinstance(w, bool) for w in want):
                    if var in ("Some", "None", "Ok", "Err", "Continue", "Break", "Ready", "Pending"):
                        if want != DISC and var not in want:
                            return
                        if "?" in want:
                            # only which variant it is matters, not what it holds
                            push(("cd", b))
                            return
                for f, o in rv[2]:
                    self.op(fn, o, rest, None, isd, push, out)
            elif h.startswith("adt ") or h == "tup" or h.startswith("clo "):
                if rest:
                    hit = [o for f, o in rv[2] if f == rest[0]]
                    if hit:
                        for o in hit:
                            self.op(fn, o, rest[1:], want, isd, push, out)
                    elif rest[0][0] in "#^" or h == "tup" or h.startswith("clo "):
                        if h == "tup" and rest[0][0] not in "#^":
                            for f, o in rv[2]:
                                self.op(fn, o, rest, None, isd, push, out)
                        # else: disjoint
                        elif not rv[2]:
                            pass
                        elif rest[0][0] == "^" and not h.startswith("clo "):
                            for f, o in rv[2]:
                                self.op(fn, o, rest, None, isd, push, out)
                        elif rest[0][0] == "#" and h.startswith("adt "):
                            for f, o in rv[2]:
                                self.op(fn, o, rest, None, isd, push, out)
                    else:
                        ra = rest[0].rsplit(".", 1)[0]
                        if ra == h[4:] or ra.rsplit("::", 1)[0] == h[4:].rsplit("::", 1)[0] and ra in self.enum_variants():
                            pass  # other variant/field of the same type
                        else:
                            for f, o in rv[2]:
                                self.op(fn, o, rest, None, isd, push, out)
                else:
                    if h.startswith("adt ") and self.is_enum_variant(h[4:]):
                        if isd:
                            out.add(("A", "N:" + h[4:], isd))
                        if want is not None and "?" in want:
                            push(("cd", b))
                            return
                    words = self.wording(h[4:]) if h.startswith("adt ") else ()
                    for f, o in rv[2]:
                        if f not in words:
                            self.op(fn, o, (), None, isd, push, out)
            else:
                for f, o in rv[2]:
                    self.op(fn, o, rest, None, isd, push, out)
            push(("cd", b))

    def wording(self, v):
        """fields of an error variant that only hold text for people"""
        m = self.__dict__.setdefault("_words", {})
        r = m.get(v)
        if r is None:
            r = set()
            e, n = v.rsplit("::", 1) if "::" in v else (v, "")
            a = self.p.adts.get(e)
            if a is not None and a["en"] and e.endswith("Error"):
                for x in a["v"]:
                    if x[0] == n:
                        r = {v + "." + f[0] for f in x[2] if f[1] in ("alloc::string::String", "std::path::PathBuf")}
            m[v] = r
        return r

    def enum_variants(self):
        ev = getattr(self, "_ev", None)
        if ev is None:
            ev = self._ev = set()
            for e, vs in self.p.enums.items():
                if e not in self.p.adts:
                    continue
                for v, _ in vs:
                    ev.add(e + "::" + v)
        return ev

    def is_enum_variant(self, p):
        return p in self.enum_variants()

    # -------------------------------------------------------------- comparisons
    def binop(self, fn, op, a, b, want, isd, push, out):
        arith = op.replace("WithOverflow", "").replace("Unchecked", "") in ("Add", "Sub", "Mul", "Div", "Rem")
        order = op in ("Lt", "Le", "Gt", "Ge")
        for x in (a, b):
            k = self.undref(fn, x) if order else x
            if not (order and k[0] == "c" and isinstance(k[3], int)):
                # (a literal bound is part of the relation)
                self.op(fn, x, (), None, isd and arith, push, out)
        if arith and op[:3] in ("Sub", "Mul", "Div", "Rem"):
            out.add(("A", "L:" + op[:3].lower(), isd))
            if op[:3] != "Mul" and not self.dataonly:
                out.add(("R", op[:3].lower(), self.desc(fn, self.undref(fn, a)), self.desc(fn, self.undref(fn, b)), None))
        if op in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
            self.rel(fn, op, a, b, want, out)

    def desc(self, fn, o):
        """the nearest named things a compared value is made of"""
        if o[0] == "c":
            v = o[3]
            if v is None:
                v = o[2] or "?"
            return frozenset([("A", "C:" + str(v), True)])
        if o[0] != "p":
            return frozenset()
        pl = o[1]
        p = self.norm(pl[1])
        for e in reversed(p):
            if e[0] not in "#^":
                return frozenset([self.held(fn, e, self.holder(fn, pl[0], p))])
        ls = self.query(fn, [(pl[0], p, None, True, self.at)], dataonly=True)
        return self.cap(self.dataleaves(ls))

    @staticmethod
    def held(fn, e, h):
        """field e of something held by parameter h (and captured variable), if that is known"""
        return ("A", "F:" + e, True) if h is None else ("G", e, h[0], h[1])

    def holder(self, fn, l, p):
        """(parameter, captured variable) the fields read at l.p belong to"""
        n = 0
        while n < len(p) and p[n][0] in "#^":
            n += 1
        p = p[:n]
        if 0 < l <= fn.na:
            return (l, p[0] if p and p[0][0] == "^" else None)
        k = ("hold", l, p, self.at)
        r = fn.cache.get(k, 0)
        if r == 0:
            fn.cache[k] = None
            r = self.holders(self.query(fn, [(l, p, None, True, self.at)], dataonly=True))
            fn.cache[k] = r
        return r

    @staticmethod
    def holders(ls):
        hs = {(x[1], x[2][0] if x[2] and x[2][0][0] == "^" else None) for x in ls if x[0] == "P" and x[4]}
        hs |= {(x[2], x[3]) for x in ls if x[0] == "G"}
        return next(iter(hs)) if len(hs) == 1 else None

    def rel(self, fn, op, a, b, want, out):
        """leaf ("R", "<"|"<="|"=", A, B, polarity): polarity None when both outcomes count"""
        if self.dataonly or self.boolop(fn, a) or self.boolop(fn, b):
            return
        pol = None
        bs = {w for w in want if isinstance(w, bool)} if want is not None else ()
        if len(bs) == 1:
            pol = next(iter(bs))
        cls = {"Lt": "<", "Ge": "<", "Le": "<=", "Gt": "<=", "Eq": "=", "Ne": "="}[op]
        if pol is not None and op in ("Ge", "Gt", "Ne"):
            pol = not pol
        out.add(("R", cls, self.desc(fn, self.undref(fn, a)), self.desc(fn, self.undref(fn, b)), pol))

    def boolop(self, fn, o):
        o = self.undref(fn, o)
        if o[0] == "c":
            return o[1] == "bool"
        return o[0] == "p" and not o[1][1] and fn.locals[o[1][0]].lstrip("&") == "bool"

    @staticmethod
    def dataleaves(ls):
        return frozenset(l for l in ls if (l[0] == "A" and l[2] and l[1][0] in "FCKNL") or (l[0] == "P" and l[4]) or l[0] == "G")

    def lift(self, fn, leaf, site, up):
        """re-express a relation leaf in the caller; up(leafP, push, out) seeds the argument"""
        def side(ls):
            res = set()
            for l in ls:
                if l[0] == "A":
                    res.add(l)
                elif l[0] == "G":
                    k = (fn.id, site if isinstance(site, tuple) and site and isinstance(site[0], int) else id(site), "G", l[2], l[3])
                    r = self.memo.get(k, 0)
                    if r == 0:
                        nodes = []
                        o2 = set()
                        prev, self.dataonly = self.dataonly, True
                        try:
                            up(("P", l[2], (l[3],) if l[3] else (), None, True), nodes.append, o2)
                        finally:
                            self.dataonly = prev
                        r = self.memo[k] = self.holders(self.query(fn, nodes, dataonly=True) if nodes else ())
                    res.add(self.held(fn, l[1], r))
                else:
                    k = (fn.id, site if isinstance(site, tuple) and site and isinstance(site[0], int) else id(site), l)
                    r = self.memo.get(k)
                    if r is None:
                        nodes = []
                        o2 = set()
                        prev, self.dataonly = self.dataonly, True
                        try:
                            up(l, nodes.append, o2)
                        finally:
                            self.dataonly = prev
                        r = {x for x in o2 if x[0] == "A"}
                        if nodes:
                            r |= self.dataleaves(self.query(fn, nodes, dataonly=True))
                        self.memo[k] = r
                    res |= r
            return self.cap(self.dataleaves(res))
        return ("R", leaf[1], side(leaf[2]), side(leaf[3]), leaf[4])

    TOP = frozenset([("A", "F:?", True)])

    def cap(self, s):
        """a side of a comparison that mixes many values identifies nothing"""
        return self.TOP if len(s) > 8 else s

    AMB = {}    # parameters of the unit under analysis that hold the same type as another one: a mark for what comes from them

    @staticmethod
    def ambiguous(p, unit):
        unit.decode()
        has = {}
        for i in range(1, unit.na + 1):
            for n in set(re.findall(r"[A-Za-z_][\w:]*", unit.locals[i])):
                if n in p.adts:
                    has.setdefault(n, set()).add(i)
        return {i: "@%d" % i for v in has.values() if len(v) > 1 for i in v}

    @staticmethod
    def render_rel(leaf):
        """[(atom or None, bool-test name or None, polarity)]"""
        def plain(x):   # a text is the same written in place or as a named constant
            return x[1:-1] if len(x) > 3 and x[0] == x[-1] == "'" and not re.fullmatch(r"-?\d+", x[1:-1]) else x

        def names(ls):
            r = set()
            for l in ls:
                if l[0] == "A":
                    r.add(l[1][2:].split("::")[-1] if l[1][0] != "C" else plain(l[1][2:]))
                elif l[0] == "G":
                    r.add(l[1].split("::")[-1] + Flow.AMB.get(l[2], ""))
                elif l[2]:
                    r.add(l[2][-1].split("::")[-1] + Flow.AMB.get(l[1], ""))
                else:
                    r.add("arg%d" % l[1])
            return r
        cls, pol = leaf[1], leaf[4]
        A, B = names(leaf[2]), names(leaf[3])

        def lit(x):
            if len(x) == 1:
                v = next(iter(x))
                if re.fullmatch(r"-?\d+", v):
                    return int(v)
            return None

        def neg(p):
            return None if p is None else not p
        ka, kb = lit(A), lit(B)
        if Flow.TOP in (leaf[2], leaf[3]) and (cls not in ("<", "<=") or ka is None and kb is None):
            return []
        if cls == "=":
            if 0 in (ka, kb) or {""} in (A, B):
                return [(None, "is_empty", pol)]
            if not A or not B:
                return []
            return [("R:%s=%s" % tuple(sorted((x, y))), None, pol) for x in A for y in B
                    if x not in ("true", "false", "True", "False") and y not in ("true", "false", "True", "False")]
        da, db = ",".join(sorted(A)), ",".join(sorted(B))
        if cls in ("sub", "div", "rem"):
            return [(f"R:{da} {cls} {db}", None, None)]
        if kb is not None and ka is None:
            if cls == "<=":
                kb += 1
            return [(None, "is_empty", pol)] if kb in (0, 1) else [(f"R:{da}<{kb}", None, pol)]
        if ka is not None and kb is None:
            kk = ka + 1 if cls == "<" else ka
            return [(None, "is_empty", neg(pol))] if kk in (0, 1) else [(f"R:{db}<{kk}", None, neg(pol))]
        if da == db:
            return [(f"R:{da}~{db}", None, None)]
        if da > db:
            da, db = db, da
            cls = "<=" if cls == "<" else "<"
            pol = neg(pol)
        return [(f"R:{da}{cls}{db}", None, pol)]

    # -------------------------------------------------------------- branches
    def branch(self, fn, c, s, push, out):
        t = fn.blocks[c][1]
        if t[2] != "s":
            if t[2] == "as":
                pass
            return
        o = t[3]
        vals = [v for v, x in t[5] if x == s]
        other = t[6] == s
        if o[0] != "p":
            return
        l, path = o[1]
        if t[4]:  # bool
            want = set()
            for v in vals:
                want.add(bool(v))
            if other:
                listed = {bool(v) for v, _ in t[5]}
                want |= {True, False} - listed
            self.op(fn, o, (), frozenset(want) if len(want) == 1 else None, False, push, out)
            return
        # discriminant?
        for (ln, tag, pl, rv) in reversed(fn.blocks[c][0]):
            if pl == (l, ()) and rv[0] == "d":
                en = rv[2]
                vs = self.p.enums.get(en, [])
                names = set()
                for v, n in [(dv, nm) for nm, dv in vs]:
                    if v in vals:
                        names.add(n)
                if other:
                    listed = {v for v, _ in t[5]}
                    dead = cfg(fn).dead
                    for nm, dv in vs:
                        if dv not in listed:
                            names.add(nm)
                # a switch with several targets: merge all values that lead to the same successor
                w = frozenset(names)
                if is_std(en):
                    self.op(fn, ("p", rv[1]), (), w | {"?"}, False, push, out)
                else:
                    if len(names) < len(vs):
                        out.add(("V", en, frozenset(names)))
                    self.op(fn, ("p", rv[1]), (), frozenset(["?"]), False, push, out)
                return
        for v in vals:
            if v not in (0, 1):
                out.add(("A", "C:" + str(v), False))
        if not self.dataonly:
            d = None
            for v, x in t[5]:
                if not t[4] and (v in vals or other):
                    if d is None:
                        d = self.desc(fn, o)
                    out.add(("R", "=", d, frozenset([("A", "C:" + str(v), True)]), v in vals))
        self.op(fn, o, (), None, False, push, out)

    # -------------------------------------------------------------- calls
    IS = {"is_some": ("Some",), "is_none": ("None",), "is_ok": ("Ok",), "is_err": ("Err",)}
    ISN = {"is_some": ("None",), "is_none": ("Some",), "is_ok": ("Err",), "is_err": ("Ok",)}
    # adaptors whose data result is the closure's return value; the receiver only selects/feeds
    MAPLIKE = {"map", "filter_map", "flat_map", "and_then", "then", "map_err", "find_map", "map_or", "map_or_else",
               "is_some_and", "is_ok_and", "is_none_or", "any", "all", "or_else", "unwrap_or_else", "ok_or_else", "position",
               "try_for_each", "for_each", "scan", "get_or_insert_with", "or_insert_with", "map_while", "partition_map",
               "sort_by_key", "then_with"}
    KEEP_RECV = {"map_err", "or_else", "unwrap_or_else", "ok_or_else", "or_insert_with", "get_or_insert_with", "map_or",
                 "map_or_else", "then_with"}
    SELECT = {"filter", "find", "retain", "take_while", "skip_while", "partition", "inspect", "sort_by", "sort_unstable_by",
              "max_by", "min_by", "sort_unstable_by_key", "max_by_key", "min_by_key", "position", "sort_by_key", "dedup_by", "sort_by_cached_key",
              "sorted_by", "sorted_by_key", "filter_entry", "is_some_and", "group_by", "chunk_by"}

    def call(self, fn, b, t, rest, want, isd, push, out):
        self.stats["calls"] += 1
        f = t[3]
        args = t[4]
        tg = self.targets(fn, t)
        if tg:
            for g in tg:
                self.enter(fn, g, args, 0, rest, want, isd, push, out)
            return
        if f[0] != "fn":
            # call through a value (closure variable / fn pointer)
            self.op(fn, f, (), None, isd, push, out)
            for a in args:
                self.op(fn, a, (), None, isd, push, out)
            return
        _, c, orig, virt, _ia = f
        name = last_seg(orig)
        if (c in self.opaque or orig in self.opaque) and not EQCALL.match(orig):
            out.add(("A", "K:" + c, isd))
            if self.dataonly:
                return
        if name in self.IS and want is not None and args and args[0][0] == "p":
            w = set()
            if True in want:
                w.update(self.IS[name])
            if False in want:
                w.update(self.ISN[name])
            w.add("?")
            self.op(fn, args[0], (), frozenset(w), isd, push, out)
            return
        if orig.endswith("Try::branch"):
            w = None
            if want is not None:
                w = set()
                if "Continue" in want:
                    w.update(("Some", "Ok"))
                if "Break" in want:
                    w.update(("None", "Err"))
                w = frozenset(w | (want & DISC))
            self.op(fn, args[0], rest, w, isd, push, out)
            return
        if orig.endswith("FromResidual::from_residual"):
            if want is not None and not want & {"Err", "None"}:
                return
            if args[0][0] == "p" and fn.locals[args[0][1][0]].startswith("core::option::Option"):
                # nothing is handed on but that there was none
                self.op(fn, args[0], (), frozenset(["None", "?"]), False, push, out)
                return
            self.op(fn, args[0], rest, want, isd, push, out)
            return
        if name in ("not",) and want is not None:
            self.op(fn, args[0], (), frozenset(not x for x in want), isd, push, out)
            return
        if name in ("as_ref", "as_mut", "clone", "cloned", "copied", "as_deref", "as_deref_mut", "borrow", "deref", "ok", "to_owned",
                    "map", "map_err", "into_iter", "ok_or", "ok_or_else", "context", "into_future", "get_context", "new_unchecked", "take") and want is not None and args and not any(
                        isinstance(w, bool) for w in want):
            # variant-preserving adaptors
            if name in ("ok", "ok_or", "ok_or_else"):
                w = set()
                if want & {"Some", "Ok"}:
                    w.update(("Some", "Ok"))
                if want & {"None", "Err"}:
                    w.update(("None", "Err"))
                w = frozenset(w | (want & DISC))
            else:
                w = want
            made = not want & DISC and (want & ({"Some", "Ok"} if name == "map" else {"Err"} if name in ("map_err", "ok_or", "ok_or_else", "context") else set()))
            if name == "map" and self.is_option_like(fn, args[0]) and not made:
                self.op(fn, args[0], (), w, isd, push, out)
                return
            if name not in ("map", "into_iter") and not made:
                if name != "take" or self.is_option_like(fn, args[0]):
                    self.op(fn, args[0], rest, w, isd, push, out)
                    return
        if want is not None and ("?" in want or want == NONE) and is_std(c) and args and self.optcall(fn, name, args, want, isd, push, out):
            return
        vm = self.value_test(c, name)
        if vm is not None:
            if not self.dataonly:
                out.add(("V", vm[0], frozenset([vm[1]])))
            if name.startswith("as_"):
                if isd:
                    self.op(fn, args[0], (vm[0] + "::" + vm[1] + ".0",) + rest, None, isd, push, out)
                    return
                if want is None or "?" not in want:
                    self.op(fn, args[0], (vm[0] + "::" + vm[1] + ".0",) + rest, None, isd, push, out)
                    return
            self.op(fn, args[0], (), None, False, push, out)
            return
        if name in ("expect", "expect_err"):
            args = args[:1]
        if name in ("eq", "ne") and "PartialEq" in orig:
            self.eqcall(fn, name, args, want, push, out)
            return
        if name in ("lt", "le", "gt", "ge") and "PartialOrd" in orig:
            self.op(fn, args[0], (), None, False, push, out)
            self.op(fn, args[1], (), None, False, push, out)
            self.rel(fn, {"lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}[name], args[0], args[1], want, out)
            return
        if is_std(c) or is_std(orig) or "itertools" in c or "rayon" in c:
            if name in LOSSY and not (name == "take" and self.is_option_like(fn, args[0] if args else None)) \
                    and not (name in ("replace", "take") and "mem::" in c) and name not in ("pop", "pop_front", "pop_back", "swap_remove"):
                out.add(("A", "L:" + name, isd))
        if want is not None and name in self.BOOLS and not self.dataonly:
            bs = {w for w in want if isinstance(w, bool)}
            if bs:
                if name == "all":
                    out.add(("Q", "any", frozenset(not w for w in bs)))
                else:
                    out.add(("Q", name, frozenset(bs)))
        if name == "contains" and "slice" in c and len(args) == 2:
            self.rel(fn, "Eq", args[0], args[1], want, out)
        if name in self.UNORD and args and args[0][0] == "p" and not self.dataonly:
            ty = fn.locals[args[0][1][0]].lstrip("&").replace("mut ", "")
            if re.match(r"(std|hashbrown)::.*Hash(Map|Set)\b|&?.*::Hash(Map|Set)<", ty) and not ty.startswith("core::"):
                out.add(("A", "U:unordered", isd))
        if name.startswith("sorted"):
            out.add(("A", "L:sort", isd))
        if name in ("cmp", "partial_cmp", "total_cmp") and len(args) == 2 and fn.kind == "closure":
            i, j = self.param_of(fn, args[0]), self.param_of(fn, args[1])
            if i and j and i > j:
                out.add(("A", "L:reverse", isd))
        if name == "rev":
            out.add(("A", "L:reverse", isd))
        if ENVREAD.search(c):
            out.add(("A", "E:" + name, isd))
        elif external(c) and c not in self.p.fns:
            out.add(("A", ext(c), isd))
        if name == "default" and not args:
            if isd:
                out.add(("A", "D:default", isd))
            return
        if not args and not (is_std(c) and name == "new"):   # (nothing is in a new collection)
            self.emit_path(rest, isd, out)
        clos = []
        plain = []
        for a in args:
            if a[0] == "fn" and (a[1] in self.opaque or a[2] in self.opaque):
                out.add(("A", "K:" + (a[1] if a[1] in self.opaque else a[2]), isd))
                if self.dataonly and name in self.MAPLIKE and name not in self.KEEP_RECV and name not in self.SELECT:
                    return      # (named by the function that made it, like the result of a call)
            cl = self.closures_of(fn, a)
            fv = self.fnval(a, fn)
            if cl:
                for g, ops in cl:
                    clos.append((g, a, False))
            elif fv is not None:
                clos.append((fv, a, True))
            else:
                if a[0] == "fn":
                    n = last_seg(a[2])
                    if (is_std(a[1]) or is_std(a[2])) and n in LOSSY:
                        out.add(("A", "L:" + n, isd))
                    elif ENVREAD.search(a[1]):
                        out.add(("A", "E:" + n, isd))
                    elif external(a[1]) and a[1] not in self.p.fns:
                        out.add(("A", ext(a[1]), isd))
                plain.append(a)
        if not is_std(c) and not is_std(orig) and c.startswith("weaver"):
            # a workspace function without analysable body (derived): transparent
            pass
        if name == "enumerate" and rest[:1] == ("#0",):
            self.op(fn, args[0], (), None, False, push, out)
            return
        if name == "zip" and len(args) == 2 and rest and rest[0] in ("#0", "#1"):
            k = int(rest[0][1])
            self.op(fn, args[k], rest[1:], None, isd, push, out)
            self.op(fn, args[1 - k], (), None, False, push, out)
            return
        if name in ("map", "and_then") and args and self.is_result(fn, args[0]) and (want is None or "Err" in want):
            # the error passes through
            self.op(fn, args[0], (), frozenset(["Err"]), isd, push, out)
        sel_only = bool(clos) and name in self.SELECT
        maponly = bool(clos) and name in self.MAPLIKE and name not in self.KEEP_RECV
        for a in plain:
            if a[0] == "p" and not a[1][1] and fn.locals[a[1][0]].startswith("&mut") and (c in self.opaque or orig in self.opaque):
                # an accumulator handed on: what it holds already or later does not matter for order
                at, self.at = self.at, None
                self.op(fn, a, (), None, isd, push, out)
                self.at = at
                continue
            if maponly:
                self.op(fn, a, (), None, False, push, out)
            else:
                self.op(fn, a, rest if self.transparent(c, orig, name) else (), None, isd, push, out)
        for g, a, isfn in clos:
            crest = () if sel_only else rest
            cd = isd and not sel_only
            off = 1 if isfn else 2
            for leaf in self.summary(g, 0, crest, None):
                self.subst_clo(fn, g, a, self.seen(name, plain), isfn, leaf, cd, push, out, self.side(fn, name, args, a))

    VALUE = {"null": "Null", "array": "Array", "object": "Object", "string": "String", "str": "String", "boolean": "Bool", "bool": "Bool",
             "mapping": "Mapping", "sequence": "Sequence"}

    def value_test(self, c, name):
        """(enum, variant) asked for by a method of a JSON or YAML value"""
        if not c.startswith(("serde_json::value::", "serde_yaml::value::")) or name[:3] not in ("is_", "as_"):
            return None
        v = self.VALUE.get(name[3:].replace("_mut", ""))
        en = c.split("::")[0] + "::value::Value"
        return (en, v) if v is not None and en in self.p.enums else None

    def optcall(self, fn, name, args, want, isd, push, out):
        """which variant the result of an option adaptor is"""
        if name in ("then", "then_some"):
            w = set()
            if "Some" in want:
                w.add(True)
            if "None" in want:
                w.add(False)
            self.op(fn, args[0], (), frozenset(w) if len(w) == 1 else None, isd, push, out)
            return True
        if not self.is_option_like(fn, args[0]):
            return False
        if name in ("inspect", "inspect_err"):
            self.op(fn, args[0], (), want, isd, push, out)
            return True
        if name in ("or", "and", "xor", "zip"):
            for a in args:
                self.op(fn, a, (), want, isd, push, out)
            return True
        if name in ("and_then", "or_else", "filter") and len(args) == 2:
            cl = self.closures_of(fn, args[1])
            g = cl[0][0] if len(cl) == 1 else self.fnval(args[1], fn)
            if g is None:
                return False
            self.op(fn, args[0], (), want, isd, push, out)
            w = want
            if name == "filter":
                w = frozenset(x == "Some" for x in want if x in ("Some", "None"))
                w = w if len(w) == 1 else None
            for leaf in self.summary(g, 0, (), w):
                self.subst_clo(fn, g, args[1], [args[0]], not cl, leaf, False, push, out)
            return True
        return False

    def param_of(self, fn, o):
        """parameter a value is read from, through copies, borrows and calls on it"""
        for _ in range(12):
            if o[0] != "p":
                return None
            l = self.base(fn, o[1])[0]
            if 0 < l <= fn.na:
                return l
            ds = self.defs(fn).get(l, [])
            if len(ds) != 1:
                return None
            k, pay = ds[0][1], ds[0][3]
            if k == "rv" and pay[0] in ("r", "rm"):
                o = ("p", pay[1])
            elif k == "rv" and pay[0] == "u":
                o = pay[1]
            elif k == "call" and pay[4]:
                o = pay[4][0]
            else:
                return None
        return None

    ITEMS = {"filter", "rev", "skip", "take", "peekable", "into_iter", "by_ref", "inspect", "skip_while", "take_while", "iter", "iter_mut", "fuse"}

    def paired(self, fn, o):
        """an iterator whose items are pairs made by `enumerate` or `zip`"""
        for _ in range(16):
            if o[0] != "p":
                return False
            ds = self.defs(fn).get(o[1][0], [])
            if len(ds) != 1:
                return False
            k, pay = ds[0][1], ds[0][3]
            if k == "rv" and pay[0] in ("r", "rm"):
                o = ("p", pay[1])
            elif k == "rv" and pay[0] == "u":
                o = pay[1]
            elif k == "call" and pay[3][0] == "fn" and pay[4]:
                n = last_seg(pay[3][2])
                if n in ("enumerate", "zip"):
                    return True
                if n not in self.ITEMS:
                    return False
                o = pay[4][0]
            else:
                return False
        return False

    def side(self, fn, name, args, a):
        """the variant of the receiver whose payload the function `a` handed to `name` gets"""
        if name in ("map_err", "or_else", "unwrap_or_else", "inspect_err", "map_or_else") and args and self.is_result(fn, args[0]):
            if name != "map_or_else" or a == args[1]:
                return frozenset(["Err"])
        return None

    def optype(self, fn, o):
        return fn.locals[o[1][0]] if o[0] == "p" and not o[1][1] else ""

    def is_option_like(self, fn, o):
        if o is None or o[0] != "p":
            return False
        ty = fn.locals[o[1][0]]
        ty = ty.lstrip("&").replace("mut ", "")
        return ty.startswith(("core::option::Option", "core::result::Result"))

    def is_result(self, fn, o):
        return o[0] == "p" and fn.locals[o[1][0]].lstrip("&").replace("mut ", "").startswith("core::result::Result")

    def transparent(self, c, orig, name):
        return True

    def undref(self, fn, o):
        """strip `&x` temporaries so that constants compare as constants"""
        if o[0] != "p":
            return o
        l, path = o[1]
        ds = self.defs(fn).get(l, [])
        if len(ds) == 1 and ds[0][1] == "rv" and ds[0][3][0] in ("r", "u"):
            pay = ds[0][3]
            q = ("p", pay[1]) if pay[0] == "r" else pay[1]
            if q[0] == "c":
                return q
            if q[0] == "p" and not self.norm(path) and q[1][0] != l:
                return self.undref(fn, q)
        return o

    def enum_const(self, fn, o):
        """(enum, variant) if operand is a constant field-less non-std enum value"""
        o = self.undref(fn, o)
        if o[0] != "p":
            return None
        ds = self.defs(fn).get(o[1][0], [])
        if len(ds) == 1 and ds[0][1] == "rv" and ds[0][3][0] == "a":
            h = ds[0][3][1]
            if h.startswith("adt ") and not is_std(h[4:]) and h[4:].rsplit("::", 1)[0] in self.p.enums and not ds[0][3][2]:
                return h[4:].rsplit("::", 1)
            if h in ("adt core::option::Option::Some", "adt core::result::Result::Ok") and len(ds[0][3][2]) == 1:
                return self.enum_const(fn, ds[0][3][2][0][1])
        return None

    def wrapped_const(self, fn, o):
        """whether an enum constant is compared inside an option"""
        o = self.undref(fn, o)
        ds = self.defs(fn).get(o[1][0], []) if o[0] == "p" else []
        return len(ds) == 1 and ds[0][1] == "rv" and ds[0][3][0] == "a" and ds[0][3][1].startswith(("adt core::option", "adt core::result"))

    def eqcall(self, fn, name, args, want, push, out):
        for i in (0, 1):
            ec = self.enum_const(fn, args[i])
            if ec is not None:
                en, v = ec
                allv = [x for x, _ in self.p.enums.get(en, [])]
                pos = want is None or ((name == "eq") in want)
                neg = want is None or ((name != "eq") in want)
                s = set()
                if pos and not neg:
                    s = {v}
                elif neg and not pos:
                    s = set(allv) - {v}
                else:
                    s = {v}
                out.add(("V", en, frozenset(s)))
                self.op(fn, args[1 - i], (), None, False, push, out)
                return
        for a in args:
            self.op(fn, a, (), None, False, push, out)
        self.rel(fn, "Eq" if name == "eq" else "Ne", args[0], args[1], want, out)

    BOOLS = {"is_empty", "contains_key", "contains", "insert", "exists", "starts_with", "ends_with", "any", "all", "is_file", "is_dir",
             "is_none_or", "is_some_and", "is_ok_and", "eq_ignore_ascii_case", "is_match", "remove"}
    UNORD = {"iter", "into_iter", "keys", "values", "into_keys", "into_values", "drain", "iter_mut", "values_mut", "par_iter", "into_par_iter"}

    def mutcall(self, fn, b, t, i, rest, isd, push, out):
        """value flowing into argument i (passed by &mut) of call t"""
        tg = self.targets(fn, t)
        f = t[3]
        args = t[4]
        if tg:
            for g in tg:
                if rest and rest[0][0] not in "#^" and self.adt_param(g, i + 1) and rest[0] not in self.mods(g):
                    continue
                self.enter(fn, g, args, i + 1, rest, None, isd, push, out, skip_self=i + 1)
            return
        if f[0] != "fn":
            for j, a in enumerate(args):
                if j != i:
                    self.op(fn, a, (), None, isd, push, out)
            return
        name = last_seg(f[2])
        if name in ("next", "next_back", "iter_mut", "deref_mut", "as_mut", "by_ref", "index_mut", "get_mut", "entry", "fmt",
                    "lock", "read", "poll", "recv", "blocking_recv", "values_mut", "borrow_mut", "drop", "len",
                    "reserve", "shrink_to_fit"):
            if name in ("entry", "index_mut", "get_mut"):
                # key influences where the write goes
                for j, a in enumerate(args):
                    if j != i:
                        self.op(fn, a, (), None, False, push, out)
            return
        if name in ("any", "all", "find", "position", "find_map", "try_for_each", "try_fold", "peek", "nth") and "iter" in f[2]:
            # an iterator is advanced: what it ranges over stays the same
            return
        if is_std(f[1]) and name in LOSSY and name != "replace" and "mem::" not in f[1] and not (name == "pop" and "path::" in f[1]) and not (
                name == "take" and self.is_option_like(fn, args[0])):
            out.add(("A", "L:" + name, isd))
        if name.startswith("sort"):
            out.add(("A", "L:sort", isd))
        elif name in ("reverse", "rotate_left", "rotate_right", "swap", "dedup"):
            out.add(("A", "L:" + name, isd))
        plain = [a for j, a in enumerate(args) if j != i and not self.closures_of(fn, a)]
        for j, a in enumerate(args):
            if j == i:
                continue
            cl = self.closures_of(fn, a)
            if cl:
                for g, _ in cl:
                    for leaf in self.summary(g, 0, rest if name not in self.SELECT else (), None):
                        self.subst_clo(fn, g, a, plain + [args[i]], False, leaf, isd and name not in self.SELECT, push, out)
            else:
                # map.insert(k, v): both, unless it is known which one is read
                if name == "insert" and len(args) == 3 and i == 0 and rest and rest[0] in ("#0", "#1") and "map::" in f[1] and not any(
                        x[0] == "p" and self.optype(fn, x).startswith("(") for x in args[1:]):
                    if j - 1 == int(rest[0][1:]):
                        self.op(fn, a, rest[1:], None, isd, push, out)
                    continue
                self.op(fn, a, () if f[1] in self.opaque or f[2] in self.opaque else rest, None, isd, push, out)

    # -------------------------------------------------------------- entering bodies
    def adt_param(self, g, i):
        g.decode()
        ty = g.locals[i] if i < len(g.locals) else ""
        return ty.startswith("&mut ") and not is_std(ty[5:].strip()) and not ty[5:].strip().startswith(("[", "dyn", "&"))

    def mods(self, g):
        """fields a body (or anything it calls) may write through a place or a mutable borrow"""
        r = self._mods.get(g.id)
        if r is not None:
            return r
        # transitive closure by DFS over the call graph
        seen = {}
        st = [g]
        order = []
        while st:
            f = st.pop()
            if f.id in seen:
                continue
            loc, callees = self._modlocal(f)
            seen[f.id] = (loc, callees)
            order.append(f)
            st.extend(callees)
        res = set()
        for f in order:
            res |= seen[f.id][0]
        self._mods[g.id] = res
        return res

    def _modlocal(self, f):
        r = f.cache.get("modl")
        if r is not None:
            return r
        c = cfg(f)
        loc = set()
        cal = []
        for b in c.reach:
            st, t = f.blocks[b]
            for (_, _, pl, rv) in st:
                for e in pl[1]:
                    if isinstance(e, str):
                        loc.add(e)
                if rv[0] == "rm":
                    for e in rv[1][1]:
                        if isinstance(e, str):
                            loc.add(e)
                if rv[0] == "a" and rv[1].startswith("clo "):
                    g = self.p.fns.get(rv[1][4:])
                    if g is not None and g.has_body:
                        cal.append(self.child(f, g))
                        for fl, o in rv[2]:
                            pass
            if t[2] == "c":
                for e in t[5][1]:
                    if isinstance(e, str):
                        loc.add(e)
                cal.extend(self.targets(f, t))
                for a in t[4]:
                    g = self.fnval(a, f)
                    if g is not None:
                        cal.append(g)
        f.cache["modl"] = (loc, cal)
        return loc, cal

    def summary(self, g, local, path, want):
        """Leaves of `local.path` at the exit of g, in terms of g's parameters. Least fixpoint over recursion."""
        if len(path) > self.SUMPATH:
            path, want = path[:self.SUMPATH], None
        key = (g.id, local, path, want)
        if self.cur:
            self.users.setdefault(key, set()).add(self.cur[-1])
        r = self.summ.get(key)
        if r is not None:
            return r
        self.summ[key] = frozenset()
        self._compute(key)
        if not self.cur:
            # settle recursive clusters
            while self.dirty:
                k = min(self.dirty, key=repr) if len(self.dirty) < 50 else next(iter(sorted(self.dirty, key=repr)))
                self.dirty.discard(k)
                self._compute(k)
        return self.summ[key]

    SUMPATH = 4

    def _compute(self, key):
        self.cur.append(key)
        r = self.query(self.p.fns[key[0]], [(key[1], key[2], key[3], True, None)])
        self.cur.pop()
        old = self.summ.get(key)
        if r != old:
            r = r | old
            if r != old:
                self.summ[key] = r
                for u in self.users.get(key, ()):
                    if u == key or u in self.done or u in self.cur:
                        self.dirty.add(u)
        self.done.add(key)

    def enter(self, fn, g, args, local, rest, want, isd, push, out, skip_self=None):
        for leaf in self.summary(g, local, rest, want):
            self.subst(fn, g, args, leaf, isd, push, out, skip_self, rest)

    def subst(self, fn, g, args, leaf, isd, push, out, skip_self=None, rest=()):
        if leaf[0] == "A":
            if isd or not leaf[1].startswith("N:"):
                out.add(("A", leaf[1], leaf[2] and isd))
        elif leaf[0] in "VQ":
            if not self.dataonly:
                out.add(leaf)
        elif leaf[0] == "R":
            if self.dataonly:
                return
            out.add(self.lift(fn, leaf, args, lambda l, pu, o: self.subst(fn, g, args, l, True, pu, o)))
        else:
            _, i, path, w, d = leaf
            spread = self.rust_call(g, args)
            if spread and i >= 2:
                self.op(fn, args[1], ("#%d" % (i - 2),) + path, w, d and isd, push, out)
                return
            if i - 1 < len(args):
                if skip_self == i and (not rest or not path or rest[0] == path[0] or rest[0][0] in "#^*" or path[0][0] in "#^*"):
                    return   # (another field of it is another value)
                self.op(fn, args[i - 1], path, w, d and isd, push, out)

    def rust_call(self, g, args):
        return g.kind == "closure" and len(args) == 2 and g.na >= 2

    @staticmethod
    def seen(name, plain):
        """the arguments a function handed to std's `name` gets to see"""
        return plain[:1] if name == "map_or" else plain

    def subst_clo(self, fn, g, cloarg, plain, isfn, leaf, isd, push, out, only=None):
        """leaf of a closure summary, closure passed to an external call together with `plain` args"""
        if leaf[0] == "A":
            if isd or not leaf[1].startswith("N:"):
                out.add(("A", leaf[1], leaf[2] and isd))
        elif leaf[0] in "VQ":
            if not self.dataonly:
                out.add(leaf)
        elif leaf[0] == "R":
            if self.dataonly:
                return
            out.add(self.lift(fn, leaf, cloarg, lambda l, pu, o: self.subst_clo(fn, g, cloarg, plain, isfn, l, True, pu, o, only)))
        else:
            _, i, path, w, d = leaf
            if i == 1 and not isfn:
                self.op(fn, cloarg, path, w, d and isd, push, out)
            else:
                # itertools/iterator items: parameters are elements of the other arguments
                for a in plain:
                    self.op(fn, a, path, only, d and isd, push, out)

    def subst_closure(self, fn, b, g, cloarg, leaf, isd, push, out):
        """effects of a closure on its captured variables"""
        if leaf[0] == "A":
            if isd or not leaf[1].startswith("N:"):
                out.add(("A", leaf[1], leaf[2] and isd))
        elif leaf[0] in "VQ":
            if not self.dataonly:
                out.add(leaf)
        elif leaf[0] == "R":
            if self.dataonly:
                return
            out.add(self.lift(fn, leaf, (b, g.id), lambda l, pu, o: self.subst_closure(fn, b, g, cloarg, l, True, pu, o)))
        else:
            _, i, path, w, d = leaf
            st, t = fn.blocks[b]
            agg = None
            for (ln, tag, pl, rv) in st:
                if rv[0] == "a" and rv[1] == "clo " + g.orig.id:
                    agg = (pl, rv)
            if agg is None:
                return
            if i == 1:
                if path and path[0][0] == "^":
                    for f, o in agg[1][2]:
                        if f == path[0]:
                            self.op(fn, o, path[1:], w, d and isd, push, out)
            else:
                site = self.clo_site(fn, agg[0][0])
                if site is not None:
                    tt = fn.blocks[site][1]
                    for a in self.seen(last_seg(tt[3][2]) if tt[3][0] == "fn" else "", tt[4]):
                        if not self.closures_of(fn, a):
                            self.op(fn, a, path, None, d and isd, push, out)
                            if path and path[0][0] == "#":
                                self.op(fn, a, path[1:], None, d and isd, push, out)
                    push(("cd", site))

    def clo_site(self, fn, local):
        """block of the call a closure value (in `local`) is handed to"""
        key = ("clos", local)
        if key in fn.cache:
            return fn.cache[key]
        names = {local}
        changed = True
        c = cfg(fn)
        while changed:
            changed = False
            for b in c.reach:
                for (ln, tag, pl, rv) in fn.blocks[b][0]:
                    src = None
                    if rv[0] == "u" and rv[1][0] == "p":
                        src = rv[1][1][0]
                    elif rv[0] in ("r", "rm"):
                        src = rv[1][0]
                    elif rv[0] == "a" and not rv[1].startswith("clo"):
                        for f, o in rv[2]:
                            if o[0] == "p" and o[1][0] in names:
                                src = o[1][0]
                    if src in names and pl[0] not in names:
                        names.add(pl[0])
                        changed = True
        res = [b for b in sorted(c.reach) if fn.blocks[b][1][2] == "c" and any(
            a[0] == "p" and a[1][0] in names for a in fn.blocks[b][1][4])]
        fn.cache[key + ("all",)] = (res, names)
        fn.cache[key] = res[0] if res else None
        return fn.cache[key]

    def clo_sites(self, fn, local):
        """(all such blocks, locals that hold the closure)"""
        self.clo_site(fn, local)
        return fn.cache[("clos", local, "all")]
