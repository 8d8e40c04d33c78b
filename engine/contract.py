"""Unit contracts: what an entry point reports, builds, calls and returns, and what each of those depends on."""
import json
import re
from .cfg import cfg
from .cone import Cone, Inf
from .facts import is_std
from .flow import last_seg, EQCALL
from . import variants
from .decide import Decider, Skip

ERR = re.compile(r"(^|::)(\w*Error|PolicyFinding|DiagnosticMessage|DiagnosticMessages)(::|$)")

EFFECT = re.compile(
    r"^std::fs::(write|create_dir|create_dir_all|remove_file|remove_dir|remove_dir_all|rename|copy|hard_link|File::create|File::open|read_to_string|read)$"
    r"|^std::fs::OpenOptions::open$|^std::process::(exit|Command::(new|arg|args|output|status|spawn))$"
    r"|^std::env::(var|set_var)$"
    r"|^ureq::|^gix::.*(prepare_clone|fetch_then_checkout|main_worktree|with_ref_name|with_shallow)"
    r"|^(tar|zip|flate2)::.*(unpack|extract|unpack_in|entries)"
    r"|^regorus::engine::Engine::(add_policy|add_policy_from_file|add_data|set_input|eval_rule|eval_query|clear_data)"
    r"|^minijinja::.*::(render|render_captured|eval|add_template|template_from_named_str|compile_expression)$"
    r"|^(std|alloc|core)::.*::(write_all|flush|sync_all)$|^std::io::Write::(write_all|flush)"
    r"|^tokio::sync::.*::(send|try_send|blocking_send)$|^tokio::.*::spawn(_blocking)?$"
    r"|^opentelemetry.*::(emit|add_attribute|set_(body|event_name|severity_number|severity_text|attribute)|with_(kind|attributes|unit|description|resource|endpoint|service_name)|start_with_context|in_span|span_builder|f64_\w+|force_flush|shutdown)$"
    r"|^opentelemetry::metrics::instruments::.*::(add|record)$"
    r"|^axum::.*::(route|fallback|layer|bind)$|^tower_http::.*::(allow_\w+|list)$|^tokio::.*::(bind|sleep|timeout|ctrl_c)$|^tonic::status::Status::\w+$"
    r"|^http::header::map::HeaderMap.*::insert$|^zip::.*::(enclosed_name|by_index)$|^regex::.*::replace_all$"
    r"|^globset::|^walkdir::WalkDir::|^std::io::Stdin"
    r"|^convert_case::converter::Converter::\w+$|^minijinja::environment::Environment.*::(set_\w+|add_\w+|render_str|get_template)$"
    r"|^minijinja::syntax::.*_delimiters$|^lru::LruCache.*::put$|^markdown::to_\w+$|^opentelemetry_sdk::.*::with_\w+$"
    r"|^opentelemetry::(global::.*::set_\w+|common::KeyValue::new)$|^gix.*::(isolated|from_hex|find_object|checkout|workdir)$"
    r"|^glob::glob$|^include_dir::dir::.*::(extract|get_dir|get_file)$|^mime_guess::from_path$"
    r"|^jaq_core::.*::(with_funs|with_global_vars|load|run)$|^jsonschema::validator::|^tempfile::.*::(prefix|tempdir_in)$"
    r"|^axum::.*::with_graceful_shutdown$|^crossterm::.*::(disable_raw_mode|enable_raw_mode|execute)$|^regorus::.*::set_\w+$"
    r"|^rmcp::.*::(with_route|new_with_raw|call|serve)$|^log::set_max_level$|^env_logger::.*::filter$|^tonic::.*::(add_service|serve_with_incoming)$"
    r"|^tokio::sync::.*::blocking_recv$|^tokio::.*::join_all$|^semver::Version::parse$"
)

BUILDER = re.compile(r"^(?!weaver).*::(with_\w+|start_with_context|route|layer|allow_\w+|add_boundary|remove_boundary|set_pattern|set_delimiter|prefix|isolated|add_service|\w+_delimiters)$")
EAGER = {"map_or", "unwrap_or", "ok_or", "get_or_insert"}


def last_arg(ty):
    """the last type argument of a type"""
    if not ty.endswith(">"):
        return ty
    depth, at = 0, ty.index("<") + 1
    for i, ch in enumerate(ty[:-1]):
        if ch in "<([":
            depth += 1
        elif ch in ")]" or ch == ">" and ty[i - 1] != "-":
            depth -= 1
        elif ch == "," and depth == 1:
            at = i + 1
    return ty[at:-1].strip()


def eager(flow, f, l):
    """call that holds what is in local l ready in case its receiver has nothing"""
    m = f.cache.get("eager")
    if m is None:
        m = f.cache["eager"] = {}
        for b in cfg(f).reach:
            t = f.blocks[b][1]
            if t[2] == "c" and t[3][0] == "fn" and len(t[4]) > 1 and t[4][1][0] == "p" and not t[4][1][1][1] and last_seg(t[3][2]) in EAGER:
                m[t[4][1][1][0]] = b
    return m.get(l)


class Spec:
    def __init__(self, flow, opaque):
        self.flow = flow
        self.p = flow.p

    def label_of(self, f, i, x):
        if i is not None:
            rv = x[3]
            if rv[0] == "a" and rv[1].startswith("adt "):
                n = rv[1][4:]
                if is_std(n):
                    return None
                if not x[2][1] and x[2][0] in self.compared(f):
                    return None
                return ("agg", n)
            return None
        if x[2] == "c" and x[3][0] == "fn":
            c, orig = x[3][1], x[3][2]
            if EQCALL.match(orig):
                return None
            if c in self.flow.opaque:
                return ("call", c)
            if orig in self.flow.opaque:
                return ("call", orig)
            for a in x[4]:
                if a[0] == "fn" and (a[1] in self.flow.opaque or a[2] in self.flow.opaque):
                    return ("call", a[1] if a[1] in self.flow.opaque else a[2])
            if EFFECT.search(c) or EFFECT.search(orig):
                return ("call", c)
        return None


    def converted(self, f):
        """error variants made from another error by a derived conversion (`?`, into)"""
        r = f.cache.get("conv")
        if r is None:
            r = set()
            P = self.flow.p
            for b in cfg(f).reach:
                t = f.blocks[b][1]
                if t[2] != "c" or t[3][0] != "fn" or len(t[7]) < 2:
                    continue
                if t[3][2].endswith("FromResidual::from_residual"):
                    dst, src = (last_arg(x) for x in t[7][:2])
                elif t[3][2] in ("core::convert::From::from", "core::convert::Into::into"):
                    src, dst = t[7][:2]
                else:
                    continue
                g = P.fns.get(P.from_impl(src, dst) or "")
                if g is None or g.has_body:
                    continue
                for n, _, fl in P.adts.get(dst, {}).get("v", ()):
                    if any(x[1] == src for x in fl):
                        r.add(dst + "::" + n)
            f.cache["conv"] = r
        return r

    def compared(self, f):
        """locals that only serve as the constant side of a comparison"""
        r = f.cache.get("cmpc")
        if r is None:
            r = set()
            for b in cfg(f).reach:
                t = f.blocks[b][1]
                if t[2] == "c" and t[3][0] == "fn" and last_seg(t[3][2]) in ("eq", "ne", "lt", "le", "gt", "ge") and len(t[4]) == 2:
                    work = list(t[4])
                    for _ in range(16):
                        if not work:
                            break
                        o = work.pop()
                        if o[0] != "p" or o[1][0] in r:
                            continue
                        r.add(o[1][0])
                        ds = self.flow.defs(f).get(o[1][0], [])
                        if len(ds) != 1 or ds[0][1] != "rv":
                            continue
                        pay = ds[0][3]
                        if pay[0] == "r":
                            work.append(("p", pay[1]))
                        elif pay[0] == "u":
                            work.append(pay[1])
                        elif pay[0] == "a" and pay[1].startswith("adt core::option::Option"):
                            work.extend(x for _, x in pay[2])
            f.cache["cmpc"] = r
        return r


MUTATE = {"push", "insert", "extend", "push_str", "push_back", "push_front", "append", "remove", "clear", "truncate", "retain", "entry",
          "add_assign", "or_insert", "or_insert_with", "or_default", "and_modify", "extend_from_slice", "get_or_insert_with", "write_fmt"}


VIEW = frozenset(["deref", "as_str", "as_ref", "as_slice", "as_path", "borrow"])   # the same value behind another type
MAPS = re.compile(r"^(serde_json::map|serde_yaml::mapping|indexmap::map|lru)::")
ADDS = {"push", "insert", "extend", "push_str", "push_back", "append", "extend_from_slice"}


class Decisions:
    """decision functions of one unit: {label: {group: function}}"""

    def __init__(self, flow, cone):
        self.flow = flow
        self.cone = cone
        d = getattr(flow, "decider", None)
        if d is None or d.gran != len(flow.opaque):
            d = flow.decider = Decider(flow)
            d.gran = len(flow.opaque)
        self.d = d
        self.acc = {}
        self.wr = {}

    def put(self, label, group, x):
        m = self.acc.setdefault(label, {})
        m[group] = self.d.B.OR(m.get(group, 0), x)

    def add(self, label, group, f, b, ch):
        self.d.fresh()
        try:
            self.put(label, group, self.d.cond(self.cone, f, b, ch))
        except (Skip, RecursionError):
            self.put(label, "skip", 1)

    def choose(self, label, f, b, o, ch):
        """an operand that takes different values under different conditions"""
        d = self.d
        d.fresh()
        try:
            o = self.through(f, o)
            d.state(f)
            ds = self.picks(f, o, (b, "t"))
            if len(ds) < 2:
                return
            pc = d.state(f).pc.get(b, 0)
            for o2, df, cond in ds:
                x = d.B.AND(pc, cond)
                self.put(label, self.defdata(f, o2, df, ch), d.climb(self.cone, f, x, ch, True))
        except (Skip, RecursionError):
            self.put(label, "skip", 1)

    def picks(self, f, o, pt, depth=0):
        """[(operand, definition, condition)] of what a local may hold at a point, copies and plain wrappings opened"""
        ds = self.d.reaching(f, o, pt) or []
        out = []
        for df, cond in ds:
            sub = None
            if df != "param" and df[1] != "t" and depth < 4:
                rv = f.blocks[df[0]][0][df[1]][3]
                i = None
                if rv[0] == "u":
                    i = rv[1]
                elif rv[0] == "a" and len(rv[2]) == 1 and rv[1].startswith("adt ") and last_seg(rv[1]) in ("Ok", "Some"):
                    i = rv[2][0][1]
                if i is not None and i[0] == "p" and not i[1][1] and i[1][0] > f.na:
                    sub = self.picks(f, i, df, depth + 1)
                    if len(sub) < 2:
                        sub = None
            if sub:
                out += [(o2, d2, self.d.B.AND(cond, c2)) for o2, d2, c2 in sub]
            else:
                out.append((o, df, cond))
        return out

    def through(self, f, o):
        """follow plain copies and borrows to the local that is decided"""
        for _ in range(8):
            if o[0] != "p" or o[1][1]:
                break
            ds = self.flow.defs(f).get(o[1][0], [])
            if len(ds) == 1 and ds[0][1] == "call" and not ds[0][2]:
                t = ds[0][3]
                if t[3][0] == "fn" and is_std(t[3][2]) and last_seg(t[3][2]) in VIEW and len(t[4]) == 1 and t[4][0][0] == "p":
                    o = t[4][0]
                    continue
                break
            if len(ds) != 1 or ds[0][1] != "rv" or ds[0][2]:
                break
            pay = ds[0][3]
            if pay[0] == "u" and pay[1][0] == "p" and not pay[1][1][1]:
                o = pay[1]
            elif pay[0] in ("r", "rm") and pay[1][1] in ((), ("*",)):
                o = ("p", (pay[1][0], ()))
            else:
                break
        return o

    def defdata(self, f, o, df, ch):
        fl = self.flow
        if df == "param":
            seeds, buf = [(o[1][0], (), None, True, None)], set()
        else:
            b, i = df
            seeds, buf = [], set()
            fl.at = b
            if i == "t":
                fl.call(f, b, f.blocks[b][1], (), None, True, seeds.append, buf)
            else:
                fl.rv(f, b, f.blocks[b][0][i][3], (), None, True, seeds.append, buf)
            seeds = [s for s in seeds if s[0] not in ("cd", "br")]
        r = self.cone.resolve(f, seeds, ch, with_ctl=False) if seeds else Inf()
        for lf in buf:
            r.leaf(lf)
        return ",".join(x for x in sorted(r.d) if x[0] in "FACNKLX")

    def opdata(self, f, b, o, ch):
        fl = self.flow
        seeds, buf = [], set()
        fl.at = b
        fl.op(f, o, (), None, True, seeds.append, buf)
        r = self.cone.resolve(f, seeds, ch, with_ctl=False) if seeds else Inf()
        for lf in buf:
            r.leaf(lf)
        return ",".join(x for x in sorted(r.d) if x[0] in "FACNK")

    def finish(self, unit):
        d, fl = self.d, self.flow
        for f in self.cone.bodies:
            c = cfg(f)
            for b in sorted(c.reach):
                t = f.blocks[b][1]
                if t[2] != "c" or t[3][0] != "fn" or t[1].startswith("m:log"):
                    continue
                n = last_seg(t[3][2])
                self.habit(f, t, n)
                if n in MUTATE and not fl.targets(f, t) and (is_std(t[3][2]) or MAPS.match(t[3][2]) and not t[1].startswith("m:")) and t[4] and t[4][0][0] == "p" and not t[4][0][1][1]:
                    for ch in self.cone.chains[f.id]:
                        d.fresh()
                        try:
                            r = ",".join(sorted(root(fl, self.cone, f, t[4][0], ch)))
                        except Exception:
                            r = "?"
                        n2 = "add" if n in ADDS else n
                        what = [self.opdata(f, b, a, ch) for a in t[4][1:] if a[0] in "pc"]
                        self.write(r, "clear" if n in ("clear", "remove", "truncate", "retain") else "grow", what)
                        self.add("std %s %s" % (n2, r), "|".join(what), f, b, ch)
                        if r.startswith("F:"):
                            self.wr[r].setdefault("total", set()).update(self.reach(f, b, t[4][1:], ch))
                elif n in ("clone_from", "clone_into") and is_std(t[3][2]) and len(t[4]) == 2:
                    k = n == "clone_into"
                    if t[4][k][0] == "p" and not t[4][k][1][1]:
                        for ch in self.cone.chains[f.id]:
                            try:
                                r = ",".join(sorted(root(fl, self.cone, f, t[4][k], ch)))
                            except Exception:
                                r = "?"
                            self.write(r, "set", [self.opdata(f, b, t[4][not k], ch)])
            self.stores(f)
            if f.kind == "closure" and f.locals[0] == "bool":
                for ch in self.cone.chains[f.id]:
                    d.fresh()
                    try:
                        x = d.climb(self.cone, f, d.result(f, "b"), ch, False)
                        tt = ch[-1].caller.blocks[ch[-1].block][1] if ch else None
                        if tt and tt[2] == "c" and tt[3][0] == "fn" and last_seg(tt[3][2]) == "all":
                            x = d.B.NOT(x)
                        t = d.text(x)
                        if t and t[0]:
                            self.acc.setdefault("pred " + " & ".join(t[0]), {}).setdefault(t[1], None)
                    except (Skip, RecursionError):
                        pass
        unit, ch = running(fl, self.cone, unit)
        rt = unit.locals[0]
        d.fresh()
        try:
            if rt == "bool":
                self.put("ret", "true", d.result(unit, "b"))
            elif rt.startswith(("core::option::Option", "core::result::Result")):
                self.put("ret", "some", d.result(unit, "ok"))
            if rt not in ("()", "bool"):
                d.state(unit)
                for b in sorted(cfg(unit).rets):
                    o = ("p", (0, ()))
                    ds = self.picks(unit, o, (b, len(unit.blocks[b][0])))
                    if len(ds) > 1:
                        for o2, df, cond in ds:
                            self.put("ret value", self.defdata(unit, o2, df, ch), cond if not ch else d.climb(self.cone, unit, cond, ch, True))
        except (Skip, RecursionError):
            pass

    def reach(self, f, b, args, ch):
        """everything a call's happening and its arguments depend on"""
        fl = self.flow
        seeds, buf = [("cd", b)], set()
        fl.at = b
        for a in args:
            fl.op(f, a, (), None, True, seeds.append, buf)
        x = self.cone.resolve(f, seeds, ch)
        for lf in buf:
            x.leaf(lf)
        return x.all(fl.p)

    def habit(self, f, t, n):
        """how maps are written and sequences rebuilt in this unit"""
        if not is_std(t[3][2]) and "serde_json" not in t[3][2] and "indexmap" not in t[3][2]:
            return
        m = t[3][1]
        if n == "insert" and "VacantEntry" in m:
            k = "keep"
        elif n == "insert" and "OccupiedEntry" in m:
            k = "mod"
        elif n == "insert" and ("Map" in m or "map::" in m):
            k = "put"
        elif n in ("or_insert", "or_insert_with", "or_insert_with_key", "or_default"):
            k = "keep"
        elif n in ("contains_key", "get", "get_mut", "remove", "get_key_value", "try_insert", "key", "find", "any", "position", "contains"):
            k = "test"
        elif n in ("and_modify", "replace", "swap", "clone_from", "insert_entry", "take", "retain"):
            k = "mod"
        elif n in ("collect", "map", "extend", "fold", "push", "unzip", "from_iter"):
            k = "build"
        else:
            return
        e = self.wr.setdefault("#", {})
        e[k] = e.get(k, 0) + 1

    def write(self, r, kind, what):
        e = self.wr.setdefault(r, {})
        for w in what or [""]:
            e.setdefault(kind, set()).update(w.split(","))

    def stores(self, f):
        """assignments to places that outlive this body: a field of a parameter, or what a reference designates"""
        fl = self.flow
        for b in sorted(cfg(f).reach):
            for i, (_, tag, dst, rv) in enumerate(f.blocks[b][0]):
                path = dst[1]
                if rv[0] == "b" and rv[1] in ("BitAnd", "BitOr") and not tag.startswith("m:") and compound(fl, f, dst, rv):
                    e = self.wr.setdefault("#", {})
                    k = "and=" if rv[1] == "BitAnd" else "or="
                    e[k] = e.get(k, 0) + 1
                if not path or tag.startswith("m:"):
                    continue
                deref = any(e in ("*", "#*") for e in path) or f.locals[dst[0]].startswith("&mut")
                if not deref:
                    continue
                for ch in self.cone.chains[f.id]:
                    try:
                        r = ",".join(sorted(root(fl, self.cone, f, ("p", dst), ch)))
                    except Exception:
                        r = "?"
                    fl.at = b
                    seeds, buf = [], set()
                    fl.rv(f, b, rv, (), None, True, seeds.append, buf)
                    x = self.cone.resolve(f, seeds, ch, with_ctl=False) if seeds else Inf()
                    for lf in buf:
                        x.leaf(lf)
                    what = [",".join(y for y in sorted(x.d) if y[0] in "FACN")]
                    self.write(r, "upd" if compound(fl, f, dst, rv) else "set", what)
                    if r.startswith("F:") and "," not in r and rv[0] == "u" and rv[1][0] == "c":
                        self.add("std fixed value for %s" % r, str(rv[1][1:]), f, b, ch)

    def out(self):
        res = {}
        for lab, m in self.acc.items():
            if lab.startswith("pred "):
                res[lab] = sorted(m)
                continue
            if "skip" in m:
                continue
            e = {}
            tot = 0
            for g, x in m.items():
                e[g] = self.d.text(x)
                tot = self.d.B.OR(tot, x)
            res[lab] = {"groups": e, "all": self.d.text(tot)}
        return res


def pure(P, name):
    """a workspace function that only computes its result: running it earlier or in vain changes nothing"""
    memo = P.__dict__.setdefault("_pure", {})
    g = P.fns.get(name)
    if g is None or not g.has_body:
        return False
    r = memo.get(name)
    if r is None:
        memo[name] = True   # recursion: decided by the rest
        g.decode()
        rt = g.locals[0]
        r = rt not in ("()", "!") and not rt.startswith("core::result::Result") and "Future" not in rt and "oroutine" not in rt \
            and not any("&mut" in t or "Mutex" in t or "RefCell" in t for t in g.locals[1:g.na + 1])
        r = r and quiet(P, g)
        memo[name] = r
    return r


def quiet(P, g):
    memo = P.__dict__.setdefault("_quiet", {})
    r = memo.get(g.id)
    if r is None:
        memo[g.id] = True
        r = True
        g.decode()
        for st, t in g.blocks:
            for (_, tag, _, rv) in st:
                if rv[0] == "a" and rv[1].startswith(("clo ", "cor ")):
                    h = P.fns.get(rv[1][4:])
                    if h is None or not h.has_body or not quiet(P, h):
                        r = False
            if t[2] == "c":
                for o in [t[3]] + t[4]:
                    if o[0] != "fn":
                        continue
                    if EFFECT.search(o[1]) or EFFECT.search(o[2]) or WRITES.search(o[1]):
                        r = False
                    h = P.fns.get(o[1])
                    if h is not None and h.has_body and not quiet(P, h):
                        r = False
                    elif o[3] and not is_std(o[2]) and o[2] in P.trait_impls:
                        for it in P.trait_impls[o[2]]:
                            h = P.fns.get(it)
                            if h is not None and h.has_body and not quiet(P, h):
                                r = False
        memo[g.id] = r
    return r


WRITES = re.compile(r"^std::(fs|net|process|io::stdio)::|::(lock|borrow_mut|fetch_add|store)$|^log::__private")


def assigned(flow, cone):
    """struct -> field -> what is assigned to it in a local made some other way than field by field"""
    res = {}
    for f in cone.bodies:
        f.decode()
        for b in sorted(cfg(f).reach):
            for (_, tag, dst, rv) in f.blocks[b][0]:
                if len(dst[1]) != 1 or not isinstance(dst[1][0], str) or f.locals[dst[0]].startswith(("&", "*")) or tag.startswith("m:"):
                    continue
                ty, fl = dst[1][0].rsplit(".", 1) if "." in dst[1][0] else ("", "")
                if ty not in flow.p.adts or flow.p.adts[ty]["en"] or dst[0] <= f.na and dst[0]:
                    continue
                for ch in cone.chains[f.id]:
                    flow.at = b
                    seeds, buf = [], set()
                    flow.rv(f, b, rv, (), None, True, seeds.append, buf)
                    x = cone.resolve(f, seeds, ch, with_ctl=False) if seeds else Inf()
                    for lf in buf:
                        x.leaf(lf)
                    res.setdefault(ty, {}).setdefault(fl, set()).update(x.data())
    return {t: {k: sorted(v) for k, v in sorted(m.items())} for t, m in sorted(res.items())}


def compound(fl, f, dst, rv):
    """`place = place op value`"""
    if rv[0] == "u" and rv[1][0] == "p":
        ds = fl.defs(f).get(rv[1][1][0], [])
        if len(ds) == 1 and ds[0][1] == "rv":
            rv = ds[0][3]
    def same(o):
        if o[0] != "p":
            return False
        if o[1] == dst:
            return True
        ds = fl.defs(f).get(o[1][0], [])
        return len(ds) == 1 and ds[0][1] == "rv" and ds[0][3][0] == "u" and ds[0][3][1][0] == "p" and ds[0][3][1][1] == dst
    return rv[0] == "b" and any(same(o) for o in rv[2:])


def workspace_type(prog, n):
    return n in prog.adts or n.rsplit("::", 1)[0] in prog.adts


def root(flow, cone, f, o, ch):
    """the parameter or field of the entry function a `&mut` argument designates, or that it is a local"""
    seen = 0
    pl = o[1]
    level = len(ch) - 1
    names = []
    while seen < 40:
        seen += 1
        l, path = flow.base(f, pl)
        p = flow.norm(path)
        names = list(p) + names
        if not (0 < l <= f.na):
            ds = flow.defs(f).get(l, [])
            if len(ds) == 1 and ds[0][1] == "rv" and ds[0][3][0] == "u" and ds[0][3][1][0] == "p":
                pl = ds[0][3][1][1]
                continue
            break
        if level < 0:
            fs = [e for e in names if e[0] not in "#^"]
            return {"F:" + fs[-1]} if fs else {"A:%d" % l}
        site = ch[level]
        level -= 1
        f = site.caller
        if site.mode == "call" and l - 1 < len(site.args) and site.args[l - 1][0] == "p":
            pl = site.args[l - 1][1]
        elif site.mode == "clo" and l == 1 and names and names[0][0] == "^":
            nxt = [x for n, x in site.cloarg[1] if n == names[0]]
            if not nxt or nxt[0][0] != "p":
                break
            names = names[1:]
            pl = nxt[0][1]
        else:
            break
    fs = [e for e in names if e[0] not in "#^"]
    return {"F:" + fs[-1]} if fs else {"T:local"}


def contract(flow, unit, opts=None):
    """contract of one entry function"""
    P = flow.p
    flow.__class__.AMB = flow.ambiguous(P, unit)
    opts = opts or {}
    stop = lambda g: g.orig.id in flow.opaque
    cone = Cone(flow, [unit], stop=stop, max_chains=opts.get("max_chains", 24))
    sp = Spec(flow, None)
    sinks = {}
    where = {}
    decs = Decisions(flow, cone)
    for l, f, b, x in cone.sinks(lambda f, b, i, x: sp.label_of(f, i, x)):
        kind, name = l
        if x[1].startswith("m:") and kind == "agg" and not workspace_type(P, name):
            continue
        if kind == "agg" and not workspace_type(P, name) and not name.startswith("opentelemetry"):
            continue
        cls = "err" if (kind == "agg" and ERR.search(name)) else kind
        s = sinks.setdefault(cls + " " + name, {"sites": {}, "cases": set(), "fields": {}, "total": Inf(),
                                                        "pure": kind == "call" and pure(P, name)})
        where.setdefault(cls + " " + name, []).append("%s:%d in %s" % (f.file, x[0], f.orig.id))
        args = x[4] if x[1:3] and x[2] == "c" else []
        pre = [("cd", b)]
        flow.at = b
        if kind == "agg" and not x[2][1]:
            e = eager(flow, f, x[2][0])
            if e is not None:
                flow.op(f, f.blocks[e][1][4][0], (), frozenset(["None", "Err", "?"]), False, pre.append, set())
        byval = kind == "call" and x[2] == "c" and name not in (x[3][1], x[3][2])
        if byval:
            # a function handed to a combinator: it sees what the combinator is applied to
            args = flow.seen(last_seg(x[3][2]) if x[3][0] == "fn" else "", [a for a in args if a[0] != "fn"])
            me = [a for a in x[4] if a[0] == "fn" and name in (a[1], a[2])]
            only = flow.side(f, last_seg(x[3][2]), x[4], me[0]) if len(me) == 1 and x[3][0] == "fn" else None
            for a in args:
                flow.op(f, a, (), only, False, pre.append, set())
        for ch in cone.chains[f.id]:
            g = cone.resolve(f, pre, ch)
            parts = []
            key = tuple(g.all(P))
            polar = s["sites"].setdefault(key, {})
            for k, v in g.pol.items():
                polar.setdefault(k, set()).update(v)
            s["total"].merge(g)
            lv = [variants.at_block(flow, f, b)] + [variants.at_block(flow, st.caller, st.block) for st in ch]
            s["cases"].add(json.dumps(variants.case(lv), sort_keys=True))
            if cls == "err" and not opts.get("err_fields"):
                decs.add(cls + " " + name, "", f, b, ch)
                continue
            items = []
            if kind == "agg":
                items = [(fl.rsplit(".", 1)[-1] if fl else str(j), o) for j, (fl, o) in enumerate(x[3][2])]
            else:
                # (in which order a builder is told things does not matter)
                items = [(str(j), o) for j, o in enumerate(args) if j or not BUILDER.search(name)]
            for fname, o in items:
                seeds = []
                buf = set()
                acc = kind == "call" and o[0] == "p" and not o[1][1] and f.locals[o[1][0]].startswith("&mut")
                if acc:
                    # what an accumulator holds is judged where it is read; here only which one it is
                    s["fields"].setdefault(fname, Inf()).d |= root(flow, cone, f, o, ch)
                    continue
                flow.at = b
                flow.op(f, o, (), None, True, seeds.append, buf)
                if kind == "agg" and not x[2][1]:
                    # what is written to the field after the value was made
                    full = name + "." + fname
                    for (b2, k2, dp, _) in flow.defs(f).get(x[2][0], ()):
                        if dp and dp[0] == full:
                            seeds.append((x[2][0], (full,), None, True, None))
                            break
                r = cone.resolve(f, seeds, ch, with_ctl=False) if seeds else Inf()
                for lf in buf:
                    r.leaf(lf)
                s["fields"].setdefault(fname, Inf()).merge(r)
                s["total"].merge(r)
                if kind == "agg" or not s["pure"]:
                    s.setdefault("sel", {}).setdefault(fname, set()).update(set(r.all(P)) - set(key) - r.d)
                if kind == "call" and s["pure"]:
                    continue
                parts.append("%s:%s" % (fname, ",".join(x for x in sorted(r.d) if x[0] in "FACNK")))
                decs.choose(cls + " " + name + "." + fname, f, b, o, ch)
            if not s["pure"]:
                decs.add(cls + " " + name, "|".join(parts), f, b, ch)
    out = {"sinks": {}, "where": where, "bodies": len(cone.bodies)}
    conv = set().union(*[sp.converted(f) for f in cone.bodies]) if cone.bodies else ()
    if conv:
        out["conv"] = sorted(conv)
    for k, s in sinks.items():
        e = {"sites": [[list(g), {a: sorted(v) for a, v in sorted(pl.items())}] for g, pl in sorted(s["sites"].items())],
             "total": s["total"].all(P),
             "cases": sorted(json.dumps(x, sort_keys=True) for x in variants.simplify([json.loads(x) for x in s["cases"]], P.enums))}
        if s["pure"]:
            e["pure"] = 1
        if s["fields"]:
            e["fields"] = {a: v.data() for a, v in sorted(s["fields"].items())}
            if "sel" in s:
                e["sel"] = {a: sorted(v) for a, v in sorted(s["sel"].items())}
        out["sinks"][k] = e
    asg = assigned(flow, cone)
    if asg:
        out["asg"] = asg
    decs.finish(unit)
    out["dec"] = decs.out()
    if decs.wr:
        out["wr"] = {r: {k: v if isinstance(v, int) else sorted(v) for k, v in sorted(e.items())} for r, e in sorted(decs.wr.items())}
    # return value / out parameters
    unit.decode()
    body, ch = running(flow, cone, unit)
    rt = body.locals[0]
    if rt != "()":
        ret = cone.resolve(body, [(0, (), None, True, None)], ch)
        out["ret"] = {"all": ret.all(P), "data": ret.data()}
        if rt == "bool":
            t = cone.resolve(body, [(0, (), frozenset([True]), True, None)], ch)
            out["ret"]["true"] = {"all": t.all(P), "pol": {a: sorted(v) for a, v in sorted(t.pol.items())},
                                  "cases": [json.dumps(variants.case([variants.at_return(flow, body, v)]), sort_keys=True)
                                            for v in (True, False)]}
        elif rt.startswith("core::option::Option"):
            t = cone.resolve(body, [(0, (), frozenset(["None"]), True, None)], ch)
            out["ret"]["none"] = {"all": t.all(P), "pol": {a: sorted(v) for a, v in sorted(t.pol.items())}}
        elif rt.startswith("core::result::Result") and not any(k.startswith("err ") for k in sinks):
            # (an error of a workspace type is a sink of its own)
            t = cone.resolve(body, [(0, (), frozenset(["Err"]), True, None)], ch)
            out["ret"]["fails"] = {"all": t.all(P), "pol": {a: sorted(v) for a, v in sorted(t.pol.items())}}
    outs = {}
    for i in range(1, unit.na + 1):
        ty = unit.locals[i]
        if not ty.startswith("&mut "):
            continue
        ad = P.adts.get(re.sub(r"<.*", "", ty[5:]))
        per = ad is not None and not ad["en"]
        outs[str(i)] = written(flow, unit, i, (), per)
        if per:
            # what each field of the parameter is written from
            for fl in ad["v"][0][2]:
                w = written(flow, unit, i, (ad["p"] + "." + fl[0],))
                if w:
                    outs["%d.%s" % (i, fl[0])] = w
    if outs:
        out["out"] = outs
    return out


def running(flow, cone, unit):
    """(body, chain) whose return value is what the unit gives its caller: of an `async fn`, the body that is awaited"""
    if unit.locals[0].startswith("{async"):
        for g in cone.bodies:
            for ch in cone.chains[g.id]:
                if len(ch) == 1 and ch[0].caller is unit and ch[0].mode == "clo" and g.kind in ("closure", "coroutine"):
                    return g, ch
    return unit, ()


def written(flow, unit, i, path, per=False):
    r = Inf()
    for lf in flow.query(unit, [(i, path, None, True, None)]):
        if lf[0] == "P":
            if lf[1] == i and (lf[2] == path or per):
                continue
            r.param(lf[1], lf[2], lf[3], lf[4], unit)
        else:
            r.leaf(lf)
    return r.all(flow.p)
