"""Where the program lets a failure go: results whose error nobody can see, and problem lists nobody reads."""
import re
from .cfg import cfg
from .facts import is_std
from .flow import last_seg

RES = re.compile(r"^(?:core::result::Result|weaver_common::result::WResult)<")
QUIET = ("core::fmt::Error", "core::convert::Infallible")
LETGO = {"ok", "unwrap_or", "unwrap_or_default", "is_ok", "is_err", "is_ok_and", "is_err_and", "map_or", "into_iter", "iter"}
PASS = {"map", "and_then", "as_ref", "as_mut", "as_deref", "clone", "cloned", "copied", "inspect", "into_future", "poll", "new_unchecked"}
BYCLOSURE = {"unwrap_or_else", "or_else", "map_or_else"}
ITEMS = re.compile(r"(walkdir::IntoIter|walkdir::FilterEntry|std::fs::ReadDir|std::io::Lines|glob::Paths|Result<)")
ERRLIST = re.compile(r"^(alloc::vec::Vec<[\w:<>', ]*Error>|weaver_common::diagnostic::DiagnosticMessages)$")


def args_of(ty):
    """generic arguments of a type string"""
    i = ty.find("<")
    if i < 0:
        return []
    out, depth, cur = [], 0, ""
    for ch in ty[i + 1:-1]:
        if ch in "<([{":
            depth += 1
        elif ch in ">)]}":
            depth -= 1
        if ch == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def error_type(ty):
    if not RES.match(ty):
        return None
    a = args_of(ty)
    if len(a) < 2 or a[-1] in QUIET:
        return None
    e = a[-1]
    if re.fullmatch(r"[A-Z]\w?", e):
        return None
    return e


def strip(c):
    """callee name without generic arguments"""
    prev = None
    while prev != c:
        prev = c
        c = re.sub(r"::<[^<>]*>", "", c)
    return c


def closure_ignores(P, fn, o):
    """a closure operand that does not look at its argument"""
    if o[0] != "p":
        return False
    for b in cfg(fn).reach:
        for (_, _, pl, rv) in fn.blocks[b][0]:
            if pl == o[1] and rv[0] == "a" and rv[1].startswith("clo "):
                g = P.fns.get(rv[1][4:])
                if g is None or not g.has_body or g.na < 2:
                    return False
                g.decode()
                return not reads(g, 2)
    return False


def reads(g, l):
    for b in cfg(g).reach:
        st, t = g.blocks[b]
        for (_, _, pl, rv) in st:
            for o in operands(rv):
                if o[0] == "p" and o[1][0] == l:
                    return True
        if t[2] == "c":
            if any(a[0] == "p" and a[1][0] == l for a in t[4]):
                return True
    return False


def operands(rv):
    k = rv[0]
    if k == "u":
        return [rv[1]]
    if k in ("r", "rm", "d"):
        return [("p", rv[1])]
    if k == "b":
        return [rv[2], rv[3]]
    if k == "n":
        return [rv[2]]
    if k == "a":
        return [o for _, o in rv[2]]
    return []


def seen(P, fn, l, uses, what="Err"):
    """can the error (or, with `what` "NFE", the accompanying problems) held by local l be observed by anything?"""
    work, done = [l], set()
    while work:
        l = work.pop()
        if l in done:
            continue
        done.add(l)
        if l == 0 or 0 < l <= fn.na and l != work and "&mut" in fn.locals[l]:
            return True
        for kind, b, path, x in uses.get(l, ()):
            if any(isinstance(e, str) and e[0] == "@" and e.rsplit("::", 1)[-1] in ("Ok", "Some", "Ready") for e in path):
                if not any(isinstance(e, str) and e[0] == "@" and e.endswith("Ready") for e in path) or any(
                        isinstance(e, str) and e[0] == "@" and e.endswith("::Ok") for e in path):
                    continue
            if kind in ("d", "log"):
                continue
            var = [e.rsplit("::", 1)[-1] for e in path if isinstance(e, str) and e[0] == "@"]
            if var and var[-1] in ("Err", "FatalErr", "OkWithNFEs"):
                if what == ("NFE" if var[-1] == "OkWithNFEs" else "Err") and not any(
                        isinstance(e, str) and e.endswith("OkWithNFEs.0") for e in path):
                    return True
                continue
            if kind == "rv":
                dest, rv = x
                if dest[1] or rv[0] not in ("u", "r", "rm"):
                    return True
                work.append(dest[0])
            elif kind == "c":
                t, i = x
                if t[3][0] != "fn":
                    return True
                n = last_seg(t[3][2])
                std = is_std(t[3][2]) or is_std(t[3][1])
                if std and i == 0 and n in LETGO:
                    continue
                if std and i == 0 and n in BYCLOSURE:
                    if len(t[4]) > 1 and closure_ignores(P, fn, t[4][1]):
                        continue
                    return True
                if std and i == 0 and n in PASS:
                    if t[5][1]:
                        return True
                    work.append(t[5][0])
                    continue
                if std and n in ("drop", "drop_in_place", "forget"):
                    continue
                return True
            else:
                return True
    return False


def use_map(fn):
    uses = {}
    for b in cfg(fn).reach:
        st, t = fn.blocks[b]
        for (_, tag, pl, rv) in st:
            k = "log" if tag.startswith("m:log") else "d" if rv[0] == "d" else "rv"
            for o in operands(rv):
                if o[0] == "p":
                    uses.setdefault(o[1][0], []).append((k, b, o[1][1], (pl, rv)))
        if t[2] == "c":
            for i, a in enumerate(t[4]):
                if a[0] == "p":
                    uses.setdefault(a[1][0], []).append(("log" if t[1].startswith("m:log") else "c", b, a[1][1], (t, i)))
            if t[3][0] == "p":
                uses.setdefault(t[3][1][0], []).append(("x", b, (), None))
        elif t[2] == "y" and t[3][0] == "p":
            uses.setdefault(t[3][1][0], []).append(("x", b, t[3][1][1], None))
    return uses


def lists(fn, uses):
    """problem lists made here, handed to others to fill, and never read: [(callee, line)]"""
    out = []
    for l in range(fn.na + 1, len(fn.locals)):
        if not ERRLIST.match(fn.locals[l]):
            continue
        filled, read = [], False
        work, done = [l], set()
        while work and not read:
            x = work.pop()
            if x in done:
                continue
            done.add(x)
            if x == 0:
                read = True
            for kind, b, path, y in uses.get(x, ()):
                if kind == "rv":
                    dest, rv = y
                    if rv[0] == "rm" and not dest[1]:
                        work.append(dest[0])
                    elif rv[0] in ("u", "r") and x != l and not dest[1] and fn.locals[x].startswith("&mut"):
                        work.append(dest[0])
                    else:
                        read = True
                elif kind == "c":
                    t, i = y
                    n = last_seg(t[3][2]) if t[3][0] == "fn" else ""
                    if x != l and fn.locals[x].startswith("&mut"):
                        if t[3][0] == "fn" and is_std(t[3][2]) and n in ("deref_mut", "as_mut", "borrow_mut", "index_mut", "drain", "append", "take", "replace"):
                            if n in ("deref_mut", "as_mut", "borrow_mut"):
                                work.append(t[5][0])
                            elif n == "append" and i == 0:
                                pass
                            else:
                                read = True
                        elif t[3][0] == "fn" and is_std(t[3][2]):
                            pass
                        else:
                            filled.append((strip(t[3][1]) if t[3][0] == "fn" else "?", t[0]))
                    elif n not in ("drop",):
                        read = True
                elif kind != "d":
                    read = True
        if filled and not read:
            out.extend(filled)
    return out


def sites(P, skip):
    """{key: [(function, file, line)]} of every place where a failure is let go; plus the number of places looked at"""
    out, n = {}, 0
    for f in sorted(list(P.fns.values()), key=lambda f: f.id):
        if f.subst is not None or not f.has_body or f.derived or skip(f) or not f.file:
            continue
        f.decode()
        uses = None
        for b in sorted(cfg(f).reach):
            st, t = f.blocks[b]
            if t[2] != "c" or t[1].startswith("m:log"):
                continue
            if t[3][0] == "fn":
                c, nm = t[3][1], last_seg(t[3][2])
                # iterators of results
                for a in t[4]:
                    if a[0] == "fn" and a[2].startswith("core::result::Result") and last_seg(a[2]) in ("ok", "is_ok"):
                        out.setdefault("items of an iteration that failed", []).append((f.orig.id, f.file, t[0]))
                        n += 1
                if nm in ("flatten", "flat_map") and is_std(t[3][2]) and t[4] and t[4][0][0] == "p":
                    n += 1
                    if re.search(r"walkdir::|ReadDir|Lines<|glob::Paths", f.locals[t[4][0][1][0]]):
                        out.setdefault("items of an iteration that failed", []).append((f.orig.id, f.file, t[0]))
                if is_std(c) and nm in PASS | {"branch", "from_residual", "from_output", "ok_or", "ok_or_else", "map_err"} | BYCLOSURE:
                    continue
            if t[5][1]:
                continue
            e = error_type(f.locals[t[5][0]])
            if e is None:
                continue
            n += 1
            uses = uses or use_map(f)
            callee = strip(t[3][1]) if t[3][0] == "fn" else "closure call"
            if not seen(P, f, t[5][0], uses):
                out.setdefault(callee, []).append((f.orig.id, f.file, t[0]))
            if "WResult<" in f.locals[t[5][0]][:40]:
                n += 1
                if callee.endswith("WResult::ignore"):
                    out.setdefault("problems ignored by a predicate", []).append((f.orig.id, f.file, t[0]))
                elif not seen(P, f, t[5][0], uses, "NFE"):
                    out.setdefault("problems with " + callee, []).append((f.orig.id, f.file, t[0]))
        for l in range(1, f.na + 1):
            # results handed to a closure, item by item
            if f.kind == "closure" and l >= 2 and error_type(f.locals[l]):
                n += 1
                uses = uses or use_map(f)
                if not seen(P, f, l, uses):
                    out.setdefault("items of an iteration that failed", []).append((f.orig.id, f.file, f.line))
        for l in range(f.na + 1, len(f.locals)):
            # a value together with the problems found on the way
            a = args_of("<" + f.locals[l][1:-1] + ">") if f.locals[l].startswith("(") else []
            if len(a) == 2 and ERRLIST.match(a[1]):
                uses = uses or use_map(f)
                us = uses.get(l, ())
                if us and not any(k not in ("d", "log") and (not pa or pa[0] == "#1") for k, _, pa, _ in us):
                    out.setdefault("problems beside a value", []).append((f.orig.id, f.file, f.line))
                n += 1
        if any(ERRLIST.match(x) for x in f.locals[f.na + 1:]):
            uses = uses or use_map(f)
            n += 1
            for callee, line in lists(f, uses):
                out.setdefault("list filled by " + callee, []).append((f.orig.id, f.file, line))
    return out, n
