"""Compares the dependence contract of a function on the current tree with the frozen one."""
import itertools
import json
import re

ERRN = re.compile(r"^N:.*(Error|PolicyFinding|WResult)(::|$)")


def clean(s, guard=False, text=False):
    """atoms that carry no information of their own"""
    if text and any(ERRN.match(x) for x in s):
        s = {x for x in s if not x.startswith("C:'")}   # wording of an error
    s = {x for x in s if not x.startswith("D:") and not ERRN.match(x)}
    if guard:
        s = {x for x in s if not x.startswith(("N:", "U:"))}
    t = {x for x in s if x not in ("C:true", "C:false")}
    return frozenset(t if t or guard else s)


def differ(a, b):
    """a: reference, b: current; a source of nondeterminism may go away but not appear"""
    return {x for x in a ^ b if not (x.startswith("U:") and x in a)}


def names(s, n=6):
    s = sorted(s)
    return ", ".join(s[:n]) + (" …(%d more)" % (len(s) - n) if len(s) > n else "")


def diffset(a, b):
    """human readable difference ref -> cur"""
    lost, new = {x for x in a - b if not x.startswith("U:")}, b - a
    out = []
    if lost:
        out.append("no longer depends on " + names(lost))
    if new:
        out.append("now also depends on " + names(new))
    return "; ".join(out)


def cases(r, c, atoms):
    """variant conditions: {enum: allowed variants} per case; compared for enums both sides constrain"""
    R = [json.loads(x) for x in r]
    C = [json.loads(x) for x in c]
    both = {e for x in R for e in x} & {e for x in C for e in x} & {a[2:] for a in atoms if a.startswith("V:")}
    pr = {json.dumps({e: v for e, v in x.items() if e in both}, sort_keys=True) for x in R}
    pc = {json.dumps({e: v for e, v in x.items() if e in both}, sort_keys=True) for x in C}
    if pr == pc:
        return None
    return "variants %s instead of %s" % ("; ".join(sorted(pc - pr)) or "fewer cases than before", "; ".join(sorted(pr - pc)) or "none")


def decision(lab, r, c):
    """two decision functions over the same tests that differ"""
    if r is None or c is None or r[0] != c[0] or r[1] == c[1] or not r[0]:
        return None
    return "%s: it is decided differently from the same tests {%s}" % (lab, names(r[0], 8))


FLAG = re.compile(r"^(?:b|ok|empty)\((arg\d+|\w+\.\w+(?:@\d+)?)\)$")


def sources(tests):
    """the flags and optional values, parameters or fields, a set of tests looks at"""
    return frozenset(m.group(1) for t in tests for m in [FLAG.match(t)] if m)


def of(x, g):
    """what is affected comes from the source x itself"""
    x = x.split("@")[0]
    if x.startswith("arg"):
        return "A:" + x[3:] in re.split(r"[,|]", g)
    return any(y.split("@")[0].endswith("::" + x) for y in re.split(r"[,|]", g))


def decisions(R, C):
    out = []
    for lab in sorted(set(R) & set(C)):
        r, c = R[lab], C[lab]
        if isinstance(r, list) or isinstance(c, list):
            if r != c:
                out.append(("decision", "%s: a condition combines the same tests differently" % lab, lab))
            continue
        rg, cg = r["groups"], c["groups"]
        if lab.startswith("std "):
            for g in sorted(rg) if set(rg) == set(cg) else ():
                d = decision(lab, rg[g], cg[g])
                if d:
                    out.append(("decision", d + (" (for %s)" % g[:120] if g else ""), lab))
                elif rg[g] and cg[g]:
                    a, b = sources(rg[g][0]), sources(cg[g][0])
                    new = {x for x in b - a if not of(x, g)}
                    if new:
                        out.append(("effect", "%s (of %s): whether it happens now also depends on %s" % (lab, g[:120], names(new)), lab))
                    lost = {x for x in a - b if not of(x, g) and "b(%s)" % x in rg[g][0]}
                    if lost and not cg[g][0]:
                        out.append(("effect", "%s (of %s): whether it happens no longer depends on %s" % (lab, g[:120], names(lost)), lab))
        elif set(rg) == set(cg):
            if len(rg) > 1 and all(rg.values()) and all(cg.values()) and not any(decision(lab, rg[g], cg[g]) for g in rg):
                # the same tests choose among the same values, but a value is chosen by more of them
                u = [set().union(*[x[0] for x in X.values()]) for X in (rg, cg)]
                for g in sorted(rg) if u[0] == u[1] else ():
                    new = {x for x in set(cg[g][0]) - set(rg[g][0]) if x.startswith("b(") and FLAG.match(x)}
                    if new and set(rg[g][0]) < set(cg[g][0]):
                        out.append(("decision", "%s: choosing %s now also depends on %s" % (lab, g[:120], names(new)), lab))
            for g in sorted(rg):
                d = decision(lab, rg[g], cg[g])
                if d:
                    out.append(("decision", d + (" (for %s)" % g[:120] if g else ""), lab))
                elif lab == "ret value" and rg[g] and cg[g] and g[:2] in ("A:", "F:") and "," not in g and rg[g][0] and set(rg[g][0]) < set(cg[g][0]):
                    new = {x for x in sources(cg[g][0]) - sources(rg[g][0]) if not of(x, g)}
                    new = new or {x for x in set(cg[g][0]) - set(rg[g][0]) if FLAG.match(x) and not of(FLAG.match(x).group(1), g)}
                    if new:
                        out.append(("effect", "%s (%s): whether it is returned now also depends on %s" % (lab, g[:120], names(new)), lab))
        else:
            d = decision(lab, r["all"], c["all"])
            if d:
                out.append(("decision", d, lab))
    return out + merged(R, C)


def evaluate(text, env):
    """value of a dumped decision function for an assignment of its tests"""
    if text in "FT":
        return text == "T"
    nodes = []
    for n in text.split(";"):
        v, hi, lo = re.match(r"(\d+)\?(\w+):(\w+)$", n).groups()
        x = hi if env[int(v)] else lo
        nodes.append(x == "T" if x in "FT" else nodes[int(x)])
    return nodes[-1]


def merged(R, C):
    """a predicate made of predicates the other side applies one by one: all of them or any of them, nothing else"""
    out = []
    for A, B in ((R, C), (C, R)):
        for lab in sorted(set(B) - set(A)):
            if not lab.startswith("pred ") or not isinstance(B[lab], list):
                continue
            s = lab[5:].split(" & ")
            parts = [(x[5:].split(" & "), A[x]) for x in sorted(A) if x.startswith("pred ") and isinstance(A[x], list)]
            parts = [(t, f) for t, fs in parts if set(t) < set(s) for f in fs]
            if not 2 <= len(parts) <= 4 or len(s) > 8 or set().union(*[t for t, _ in parts]) != set(s) \
                    or not all("?" in f for f in B[lab] + [f for _, f in parts]):
                continue
            rows = []
            for bits in itertools.product((False, True), repeat=len(s)):
                env = dict(zip(s, bits))
                rows.append((bits, [evaluate(f, [env[x] for x in t]) for t, f in parts]))
            for f in B[lab]:
                got = [evaluate(f, b) for b, _ in rows]
                for n in range(2, len(parts) + 1):
                    for sub in itertools.combinations(range(len(parts)), n):
                        for op in (all, any):
                            w = [op(v[i] for i in sub) for _, v in rows]
                            if got in (w, [not x for x in w]):
                                break
                        else:
                            continue
                        break
                    else:
                        continue
                    break
                else:
                    out.append(("decision", "%s: %s" % (lab, "it combines the tests of separate conditions differently" if B is C else
                                                        "it was split into conditions that do not amount to it"), lab))
    return out


def same_decision(R, C, lab):
    """it happens under exactly the same conditions, however they are spelt"""
    r, c = R.get("dec", {}).get(lab), C.get("dec", {}).get(lab)
    return bool(r and c and r["all"] and c["all"] and r["all"][0] and list(r["all"]) == list(c["all"]))


BOOL = frozenset(["C:true", "C:false"])


def bools(a, b):
    """spelling out a computed boolean, or computing a spelt out one, is judged by the choice between the two"""
    if not (b & BOOL) - a or (b & BOOL == BOOL and not a & BOOL):
        return a - BOOL, b - BOOL
    return a, b


def guards(s):
    return frozenset().union(*[clean(g, True) for g, _ in s["sites"]])


def covered(g, others, own, total):
    """the condition g is the union of several of `others`, or is part of one that is such a union of `own`"""
    def union(h, of):
        parts = [x for x in of if x <= h]
        return len(parts) > 1 and h - frozenset().union(*parts) <= total
    return union(g, others) or any(g < h and union(h, own) for h in others)


REL = re.compile(r"^R:(.*?)( sub | div | rem |<=|<|=|~)(.*)$")


def relations(R, C):
    """renames relations of the current side that are relations of the frozen side between overlapping values"""
    def atoms(x, out):
        if isinstance(x, str):
            if x.startswith("R:"):
                out.add(x)
        elif isinstance(x, dict):
            for k, v in x.items():
                atoms(k, out)
                atoms(v, out)
        elif isinstance(x, (list, tuple, set, frozenset)):
            for v in x:
                atoms(v, out)
        return out
    r, c = atoms({k: v for k, v in R.items() if k != "dec"}, set()), atoms({k: v for k, v in C.items() if k != "dec"}, set())
    if not c - r or not r - c:
        return C
    ren = {}
    free = sorted(r - c)

    def same(a, b):
        if a == b or a == "?" or b == "?":
            return True
        a, b = set(a.split(",")), set(b.split(","))
        return bool(a & b) and all(re.fullmatch(r"\w+\.\w+(@\d+)?|arg\d+|#\d+", x) for x in a ^ b)
    for x in sorted(c - r):
        m = REL.match(x)
        if m is None or m.group(2)[0] == " ":
            continue
        for y in free:
            n = REL.match(y)
            if n and m.group(2) == n.group(2) and same(m.group(1), n.group(1)) and same(m.group(3), n.group(3)):
                ren[x] = y
                break
    if not ren:
        return C

    def sub(x):
        if isinstance(x, str):
            return ren.get(x, x)
        if isinstance(x, dict):
            return {sub(k): sub(v) for k, v in x.items()}
        if isinstance(x, (list, tuple)):
            return type(x)(sub(v) for v in x)
        if isinstance(x, (set, frozenset)):
            return type(x)(sub(v) for v in x)
        return x
    return {k: v if k == "dec" else sub(v) for k, v in C.items()}


MINMAX = frozenset(["L:max", "L:min"])
TRIM = [("L:ends_with", "L:trim_end_matches"), ("L:starts_with", "L:trim_start_matches")]


FIXED = re.compile(r"^R:[A-Z]\w*[<~]|[<~=][A-Z]\w*$")   # compared with a fixed variant


def minmax(R, C):
    """keeping the larger value by a test or by `max` is the same: (R, C) without what only tells them apart"""
    def atoms(x, out):
        if isinstance(x, str):
            out.add(x)
        elif isinstance(x, dict):
            for v in x.values():
                atoms(v, out)
        elif isinstance(x, (list, tuple)):
            for v in x:
                atoms(v, out)
        return out
    a, b = (atoms({k: v for k, v in X.items() if k != "dec"}, set()) for X in (R, C))
    rel = [{x for x in s if x.startswith("R:") and ("~" in x or "<" in x) and not FIXED.search(x)} for s in (a, b)]
    drop = set()
    if MINMAX & (b - a) and rel[0] - rel[1]:
        drop = MINMAX & (b - a) | rel[0] - rel[1]
    elif MINMAX & (a - b) and rel[1] - rel[0]:
        drop = MINMAX & (a - b) | rel[1] - rel[0]
    # testing for an end before trimming it decides nothing
    drop |= {t for t, trim in TRIM if t in a ^ b and trim in a & b}
    if not drop:
        return R, C

    def sub(x):
        if isinstance(x, dict):
            return {k: sub(v) for k, v in x.items() if k not in drop}
        if isinstance(x, (list, tuple)):
            return type(x)(sub(v) for v in x if not (isinstance(v, str) and v in drop))
        return x
    return tuple({k: v if k == "dec" else sub(v) for k, v in X.items()} for X in (R, C))


def strings(X):
    def walk(x, out):
        if isinstance(x, str):
            if x.startswith("C:'") and len(x) > 4:
                out.add(x[3:-1])
        elif isinstance(x, dict):
            for v in x.values():
                walk(v, out)
        elif isinstance(x, (list, tuple)):
            for v in x:
                walk(v, out)
        return out
    return walk({k: v for k, v in X.items() if k != "dec"}, set())


def pieces(y, of):
    """y as a concatenation of several of the strings `of`, or None"""
    best = {0: []}
    for i in range(len(y)):
        if i in best:
            for s in of:
                if y.startswith(s, i) and (i + len(s) not in best):
                    best[i + len(s)] = best[i] + [s]
    return best.get(len(y)) if len(best.get(len(y)) or ()) > 1 else None


def texts(R, C):
    """text written in one piece on one side and in several on the other"""
    a, b = strings(R), strings(C)
    if a == b:
        return R, C

    def split(X, mine, theirs):
        sub = {}
        tested = {x for s in X["sinks"].values() for g, _ in s["sites"] for x in g}   # compared with, not written
        for y in sorted(mine - theirs):
            if "C:'%s'" % y in tested:
                continue
            q = pieces(y, theirs)
            if q and set(q) - mine:
                sub["C:'%s'" % y] = ["C:'%s'" % x for x in q]
        if not sub:
            return X

        def walk(x):
            if isinstance(x, dict):
                return {k: walk(v) for k, v in x.items() if k not in sub}
            if isinstance(x, (list, tuple)):
                return [z for v in x for z in (sub[v] if isinstance(v, str) and v in sub else [walk(v)])]
            return x
        return {k: v if k == "dec" else walk(v) for k, v in X.items()}
    return split(R, a, b), split(C, b, a)


def copied(R, C):
    """a value handed on whole on one side and rebuilt from each of its own fields on the other: (R, C) without what only tells them apart"""
    if "ret" not in R or "ret" not in C:
        return R, C

    def one(X, Y):
        whole = {x for x in Y["ret"]["all"] if x.startswith("A:")} - set(X["ret"]["all"])
        drop = set()
        for lab, s in X["sinks"].items():
            fs = s.get("fields", {})
            if lab.startswith("agg ") and fs and whole and lab in Y["sinks"]:
                own = {f: "F:%s.%s" % (lab[4:], f) for f in fs}
                if all(own[f] in v for f, v in fs.items()):
                    drop |= {own[f] for f in fs if own[f] not in Y["sinks"][lab].get("fields", {}).get(f, ())}
        if not drop:
            return X, Y

        def sub(x, drop):
            if isinstance(x, dict):
                return {k: sub(v, drop) for k, v in x.items() if k not in drop}
            if isinstance(x, (list, tuple)):
                return type(x)(sub(v, drop) for v in x if not (isinstance(v, str) and v in drop))
            return x
        X = {k: v if k == "dec" else sub(v, drop) for k, v in X.items()}
        Y = {k: v if k == "dec" else sub(v, drop) for k, v in Y.items()}
        Y["ret"] = sub(Y["ret"], whole)
        return X, Y
    C, R = one(C, R)
    return one(R, C)


def emptied(R, C):
    """emptying a place before it is filled again, or giving it a new value: (R, C) without what only tells them apart"""
    a, b = R.get("wr", {}), C.get("wr", {})

    def one(x, y):
        return any("clear" in x[r] and "set" not in x[r] and "set" in y[r] and "clear" not in y[r] for r in set(x) & set(y) if r != "#")

    def sub(x):
        if isinstance(x, dict):
            return {k: sub(v) for k, v in x.items()}
        if isinstance(x, (list, tuple)):
            return [sub(v) for v in x if v != "L:clear"]
        return x
    if one(a, b):
        R = {k: v if k == "dec" else sub(v) for k, v in R.items()}
    if one(b, a):
        C = {k: v if k == "dec" else sub(v) for k, v in C.items()}
    return R, C


def nonconst(s):
    return {x for x in s if x and x[0] in "FA"}


def more(R, C):
    """more flags are folded into what they had been (`|=`, `&=`)"""
    h, g = R.get("#", {}), C.get("#", {})
    return any(g.get(k, 0) > h.get(k, 0) for k in ("and=", "or="))


def writes(R, C, both=frozenset()):
    """values that were kept, replaced or accumulated and no longer are (both: the calls made on both sides)"""
    out = []
    for r in sorted(set(R) & set(C)):
        if r[:2] not in ("F:", "A:"):
            continue
        a, b = R[r], C[r]
        acc = [nonconst(set(x.get("grow", ())) | set(x.get("upd", ()))) for x in (a, b)]
        rep = [nonconst(set(x.get("set", ()))) for x in (a, b)]
        folded = not acc[0] and rep[0] and "upd" in b and not acc[1] and more(R, C)
        if "set" in a and "set" not in b and "clear" not in b and not acc[0] and (rep[0] & acc[1] or folded):
            out.append(("write", "%s is added to where it was replaced" % r, "write " + r))
        if "set" in b and "set" not in a and "clear" not in a and acc[0] and not acc[1] and rep[1] & acc[0] and r not in b["set"]:
            out.append(("write", "%s is replaced where it was added to" % r, "write " + r))
        const = set(b.get("set", ())) - set(a.get("set", ())) == {""} and set(a.get("set", ())) <= set(b["set"])
        if const and a.get("set") and not ({"clear", "upd"} & (set(a) | set(b))) and a.get("grow") == b.get("grow"):
            out.append(("write", "%s is now also given a fixed value" % r, "write " + r))
        if "total" in a and "total" in b:
            x, y = ({z for z in clean(s["total"]) if z != r and z not in both} for s in (a, b))
            if differ(x, y):
                out.append(("write", "what is put into %s %s" % (r, diffset(x, y)), "write " + r))
    h, g = R.get("#", {}), C.get("#", {})
    ao = [(X.get("and=", 0), X.get("or=", 0)) for X in (h, g)]
    if ao[0] != ao[1] and sum(ao[0]) == sum(ao[1]):
        out.append(("write", "results are combined by %s where it was %s" % (("`|=`", "`&=`") if ao[1][1] > ao[0][1] else ("`&=`", "`|=`")), "write bool"))
    a, b = R.get("T:local", {}), C.get("T:local", {})
    lost = nonconst(set(a.get("grow", ()))) - nonconst(set(b.get("grow", ())) | set(b.get("upd", ())) | set(a.get("set", ())))
    if lost & nonconst(set(b.get("set", ()))) and "clear" not in b:
        out.append(("write", "%s replaces what it was added to" % names(lost & set(b["set"])), "write local"))
    if "mod" in g and "mod" not in h and g.get("keep", 0) == h.get("keep", 0):
        for r in sorted(set(C) - set(R)):
            if r.startswith("F:") and "set" in C[r]:
                out.append(("write", "%s of an existing map entry is now overwritten" % r, "write " + r))
    sets = ["set" in X.get("T:local", {}) for X in (R, C)]
    if "put" in h and "keep" not in h and "test" not in h and "keep" in g and "put" not in g and "mod" not in g and not sets[1]:
        out.append(("write", "a map entry keeps its first value where it took the last one", "write map"))
    if "keep" in h and "put" not in h and "put" in g and "keep" not in g and g.get("test", 0) <= h.get("test", 0):
        out.append(("write", "a map entry takes the last value where it kept the first one", "write map"))
    kp = [(X.get("keep", 0), X.get("put", 0)) for X in (h, g)]
    if kp[0] != kp[1] and sum(kp[0]) == sum(kp[1]) and all(kp[0]) and h.get("build", 0) == g.get("build", 0):
        if kp[1][0] > kp[0][0] and g.get("test", 0) >= h.get("test", 0) and "mod" not in g:
            out.append(("write", "a map entry keeps its first value where it took the last one", "write map"))
        if kp[1][0] < kp[0][0] and g.get("test", 0) <= h.get("test", 0) and "mod" not in h:
            out.append(("write", "a map entry takes the last value where it kept the first one", "write map"))
    if sets[0] and not sets[1] and all(g.get(k, 0) <= h.get(k, 0) for k in ("mod", "build", "put", "keep")) and not {
            r for r in C if r not in R}:
        out.append(("write", "an existing value is no longer overwritten", "write set"))
    return out


def stepwise(s, X, ty):
    """a value built in one go on one side, and by assigning to the fields of a default (or other) value on the other"""
    asg = X.get("asg", {}).get(ty)
    if not asg:
        return False
    for f, v in s.get("fields", {}).items():
        if f in asg:
            if differ(clean(v), clean(asg[f])):
                return False
        elif not v or any(x[0] in "CN" for x in v) and "D:default" not in v:
            return False
    return True


def compare(unit, R, C):
    """[(kind, detail, label)]"""
    C = relations(R, C)
    R, C = minmax(R, C)
    R, C = copied(*texts(R, C))
    R, C = emptied(R, C)
    out = decisions(R.get("dec", {}), C.get("dec", {}))
    out += writes(R.get("wr", {}), C.get("wr", {}), {"K:" + x[5:] for x in set(R["sinks"]) & set(C["sinks"]) if x.startswith("call ")})
    rs, cs = R["sinks"], C["sinks"]
    for lab in sorted(set(rs) | set(cs)):
        if (lab not in rs or lab not in cs) and (rs.get(lab) or cs[lab]).get("pure"):
            continue   # seen where its result is used
        if lab.startswith("agg ") and (lab not in cs and stepwise(rs[lab], C, lab[4:]) or lab not in rs and stepwise(cs[lab], R, lab[4:])):
            continue
        if lab.startswith("err ") and (lab not in cs and lab[4:] in C.get("conv", ()) or lab not in rs and lab[4:] in R.get("conv", ())):
            continue   # wrapped by hand or by the derived conversion
        if lab not in cs:
            out.append(("lost", "%s no longer happens" % lab, lab))
            continue
        if lab not in rs:
            out.append(("new", "%s did not happen before" % lab, lab))
            continue
        r, c = rs[lab], cs[lab]
        cls = lab.split(" ", 1)[0]
        quiet = r.get("pure") and c.get("pure")
        if quiet:
            pass
        elif cls in ("err", "call"):
            rg = {clean(g, True): p for g, p in r["sites"]}
            cg = {clean(g, True): p for g, p in c["sites"]}
            lost = [g for g in rg if g not in cg]
            new = [g for g in cg if g not in rg]
            if lost and new or len(rg) != len(cg):
                # cases merged into one, or one split into several
                tr, tc = clean(r["total"]), clean(c["total"])
                lost, new = ([g for g in lost if not covered(g, new, rg, tr)], [g for g in new if not covered(g, lost, cg, tc)])
            if (lost or new) and same_decision(R, C, lab):
                lost = new = []
            for g in sorted(lost, key=sorted):
                best = min(new, key=lambda h: (len(h ^ g), sorted(h)), default=None)
                if best is not None:
                    new.remove(best)
                    out.append(("guard", "%s: its condition %s" % (lab, diffset(g, best)), lab))
                else:
                    out.append(("guard", "%s: the case guarded by {%s} is gone" % (lab, names(g)), lab))
            for g in sorted(new, key=sorted):
                out.append(("guard", "%s: new case guarded by {%s}" % (lab, names(g)), lab))
            for g in rg:
                if g in cg:
                    for a, pv in rg[g].items():
                        cv = cg[g].get(a)
                        if cv and pv and not set(cv) & set(pv):
                            out.append(("polarity", "%s: the test of %s is inverted (%s, was %s)" % (
                                lab, a, "/".join(cv), "/".join(pv)), lab))
        else:
            a, b = clean(r["total"], text=True), clean(c["total"], text=True)
            if differ(a, b):
                out.append(("total", "%s: it %s" % (lab, diffset(a, b)), lab))
        v = None if quiet and not (len(r["cases"]) == len(c["cases"]) == len(r["sites"]) == len(c["sites"]) == 1) else cases(r["cases"], c["cases"], set(r["total"]) & set(c["total"]))
        if v and not same_decision(R, C, lab):
            out.append(("variant", "%s: happens for %s" % (lab, v), lab))
        rf, cf = r.get("fields", {}), c.get("fields", {})
        if cls == "call" and set(rf) != set(cf):
            out.append(("args", "%s: different number of arguments" % lab, lab))
        moved = {}
        if cls in ("agg", "call"):
            # a value computed from a test or chosen by it
            rq, cq = r.get("sel", {}), c.get("sel", {})
            for f in set(rf) & set(cf):
                moved[f] = frozenset(x for x in clean(rf[f]) ^ clean(cf[f]) if x in (rq if x in cf[f] else cq).get(f, ()))
        for f in sorted(set(rf) & set(cf)):
            a, b = bools(clean(rf[f], text=True), clean(cf[f], text=True))
            a, b = a - moved.get(f, frozenset()), b - moved.get(f, frozenset())
            if differ(a, b):
                out.append(("data", "%s: %s %s %s" % (lab, "argument" if cls == "call" else "field", f, diffset(a, b)), lab))
        if cls == "agg":
            rq, cq = r.get("sel", {}), c.get("sel", {})
            for f in sorted(set(rq) & set(cq)):
                ga, gb = guards(r), guards(c)
                a, b = clean(rq[f], True) | (gb & ga), clean(cq[f], True) | (ga & gb)
                a, b = (a | (b & ga)) - moved.get(f, frozenset()), (b | (a & gb)) - moved.get(f, frozenset())
                if differ(a, b):
                    out.append(("select", "%s: the choice of field %s %s" % (lab, f, diffset(a, b)), lab))
        elif cls == "call" and not quiet:
            rq, cq = r.get("sel", {}), c.get("sel", {})
            ra, ca = guards(r), guards(c)
            for f in sorted(set(rq) & set(cq)):
                a, b = clean(rq[f], True), clean(cq[f], True)
                ga = ra | clean(rf.get(f, ())) | ca
                gb = ga | clean(cf.get(f, ()))
                a, b = (a | (b & gb)), (b | (a & gb))
                if differ(a, b):
                    out.append(("select", "%s: the choice of argument %s %s" % (lab, f, diffset(a, b)), lab))
        if cls == "agg":
            for f in sorted(set(rf) - set(cf)):
                out.append(("data", "%s: field %s is no longer filled" % (lab, f), lab))
    if "ret" in R and "ret" in C:
        r, c = R["ret"], C["ret"]
        a, b = clean(r["all"]), clean(c["all"])
        if differ(a, b):
            out.append(("ret", "the outcome %s" % diffset(a, b), "ret"))
        elif "true" not in r:
            a, b = ({x for x in clean(s["data"]) if x[0] in "FU"} for s in (r, c))
            if set(r["data"]) & BOOL != set(c["data"]) & BOOL:
                # a boolean handed on or spelt out after testing it
                a, b = a | (b & set(r["all"])), b | (a & set(c["all"]))
            if differ(a, b):
                out.append(("ret", "the returned value %s" % diffset(a, b), "ret"))
        for k in ("true", "none", "fails"):
            if k in r and k in c:
                a, b = clean(r[k]["all"], True), clean(c[k]["all"], True)
                if k == "fails":   # (words of a message)
                    a, b = ({x for x in y if not x.startswith("C:'")} for y in (a, b))
                if differ(a, b):
                    out.append(("ret", "the %s outcome %s" % (k, diffset(a, b)), "ret"))
                else:
                    for x, pv in r[k]["pol"].items():
                        cv = c[k]["pol"].get(x)
                        if cv and pv and not set(cv) & set(pv):
                            out.append(("polarity", "the %s outcome: the test of %s is inverted" % (k, x), "ret"))
                for i in range(len(r[k].get("cases", []))):
                    v = cases([r[k]["cases"][i]], [c[k]["cases"][i]], set(r["all"]) & set(c["all"]))
                    if v:
                        out.append(("variant", "the %s outcome is possible for %s" % (("true", "false")[i], v), "ret"))
    ro, co = R.get("out", {}), C.get("out", {})
    for k in sorted(set(ro) & set(co)):
        a, b = clean(ro[k]), clean(co[k])
        if differ(a, b):
            out.append(("out", "what is written through parameter %s %s" % (k, diffset(a, b)), "out"))
    return out
