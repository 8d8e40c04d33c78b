"""For which variants of which tested enum value can a block of a function be reached?

The test of a place is followed through every branch form (match, if let, matches!, == against a constant,
short-circuit conditions, early exits, boolean temporaries), so equivalent spellings give the same answer."""
from .cfg import cfg
from .facts import is_std
from .flow import last_seg

LIMIT = 6000
SAME = ("deref", "as_ref", "clone", "borrow", "as_deref", "deref_mut", "as_mut", "to_owned")


def canon(flow, fn, place, depth=0):
    l, path = place
    defs = flow.defs(fn).get(l, [])
    if depth < 8 and not (0 < l <= fn.na) and len(defs) == 1:
        b, kind, dp, pay = defs[0]
        if not dp:
            if kind == "rv" and pay[0] in ("r", "rm"):
                q = canon(flow, fn, pay[1], depth + 1)
                return (q[0], q[1] + flow.norm(path))
            if kind == "rv" and pay[0] == "u" and pay[1][0] == "p":
                q = canon(flow, fn, pay[1][1], depth + 1)
                return (q[0], q[1] + flow.norm(path))
            if kind == "call" and pay[3][0] == "fn" and last_seg(pay[3][2]) in SAME and len(pay[4]) == 1 and pay[4][0][0] == "p" \
                    and not flow.targets(fn, pay):
                q = canon(flow, fn, pay[4][0][1], depth + 1)
                return (q[0], q[1] + flow.norm(path))
    return (l, flow.norm(path))


def tests(flow, fn):
    """switch block -> (place, enum, {successor: variants})"""
    r = fn.cache.get("vtests")
    if r is not None:
        return r
    P = flow.p
    out = {}
    c = cfg(fn)
    defs = flow.defs(fn)
    for b in c.reach:
        t = fn.blocks[b][1]
        if t[2] != "s" or t[3][0] != "p":
            continue
        l, path = t[3][1]
        if t[4]:
            if path:
                continue
            neg = False
            cur = l
            for _ in range(4):
                ds = defs.get(cur, [])
                if len(ds) != 1:
                    break
                kind, pay = ds[0][1], ds[0][3]
                if kind == "rv" and pay[0] == "n" and pay[1] == "Not" and pay[2][0] == "p" and not pay[2][1][1]:
                    neg = not neg
                    cur = pay[2][1][0]
                    continue
                if kind == "rv" and pay[0] == "u" and pay[1][0] == "p" and not pay[1][1][1]:
                    cur = pay[1][1][0]
                    continue
                if kind == "call" and pay[3][0] == "fn" and last_seg(pay[3][2]) in ("eq", "ne") and "PartialEq" in pay[3][2] \
                        and len(pay[4]) == 2:
                    for i in (0, 1):
                        ec = flow.enum_const(fn, pay[4][i])
                        o = pay[4][1 - i]
                        if ec is not None and o[0] == "p":
                            en, v = ec
                            allv = {x for x, _ in P.enums.get(en, [])}
                            is_eq = (last_seg(pay[3][2]) == "eq") != neg
                            m = {}
                            listed = set()
                            for val, s in t[5]:
                                listed.add(bool(val))
                                m.setdefault(s, set()).update({v} if bool(val) == is_eq else allv - {v})
                            for val in {True, False} - listed:
                                m.setdefault(t[6], set()).update({v} if val == is_eq else allv - {v})
                            out[b] = (canon(flow, fn, o[1]), en, m)
                            break
                break
            continue
        for (ln, tag, pl, rv) in reversed(fn.blocks[b][0]):
            if pl == (l, ()) and rv[0] == "d":
                en = rv[2]
                if not is_std(en) and en in P.enums:
                    m = {}
                    listed = set()
                    for val, s in t[5]:
                        for nm, dv in P.enums[en]:
                            if dv == val:
                                m.setdefault(s, set()).add(nm)
                                listed.add(nm)
                    m.setdefault(t[6], set()).update(nm for nm, _ in P.enums[en] if nm not in listed)
                    out[b] = (canon(flow, fn, rv[1]), en, m)
                break
    fn.cache["vtests"] = out
    return out


def tracked(flow, fn):
    """boolean temporaries that receive constants"""
    out = set()
    for b in cfg(fn).reach:
        for (_, _, pl, rv) in fn.blocks[b][0]:
            if not pl[1] and rv[0] == "u" and rv[1][0] == "c" and isinstance(rv[1][3], bool) and fn.locals[pl[0]] == "bool":
                out.add(pl[0])
    # copies and negations of them
    more = True
    while more:
        more = False
        for b in cfg(fn).reach:
            for (_, _, pl, rv) in fn.blocks[b][0]:
                if pl[1] or pl[0] in out or fn.locals[pl[0]] != "bool":
                    continue
                o = rv[1] if rv[0] == "u" else (rv[2] if rv[0] == "n" and rv[1] == "Not" else None)
                if o is not None and o[0] == "p" and not o[1][1] and o[1][0] in out:
                    out.add(pl[0])
                    more = True
    return out


def reachable(flow, fn, T, restrict):
    """(blocks, values of the returned boolean) reachable when every test in `restrict` {block: successors} is obeyed"""
    c = cfg(fn)
    seen = set()
    blocks = set()
    rets = set()
    st = [(0, ())]
    while st:
        s = st.pop()
        if s in seen:
            continue
        seen.add(s)
        if len(seen) > LIMIT:
            return None
        b, known = s
        blocks.add(b)
        k = dict(known)
        stm, t = fn.blocks[b]
        for (_, _, pl, rv) in stm:
            if pl[1] or pl[0] not in T:
                continue
            v = None
            if rv[0] == "u":
                o = rv[1]
                if o[0] == "c" and isinstance(o[3], bool):
                    v = o[3]
                elif o[0] == "p" and not o[1][1]:
                    v = k.get(o[1][0])
            elif rv[0] == "n" and rv[1] == "Not" and rv[2][0] == "p" and not rv[2][1][1]:
                w = k.get(rv[2][1][0])
                v = None if w is None else not w
            if v is None:
                k.pop(pl[0], None)
            else:
                k[pl[0]] = v
        nxt = c.succ[b]
        if t[2] == "c" and not t[5][1]:
            k.pop(t[5][0], None)
        if t[2] == "ret":
            v = k.get(0)
            rets.update((True, False) if v is None else (v,))
        if t[2] == "s":
            if b in restrict:
                nxt = [x for x in nxt if x in restrict[b]]
            elif t[4] and t[3][0] == "p" and not t[3][1][1] and t[3][1][0] in k:
                v = k[t[3][1][0]]
                hit = [x for val, x in t[5] if bool(val) == v]
                nxt = [x for x in nxt if x in (hit or [t[6]])]
        kk = tuple(sorted(k.items()))
        for x in nxt:
            st.append((x, kk))
    return blocks, rets


def table(flow, fn):
    """[(place, enum, {variant: (blocks, returned booleans)})]"""
    r = fn.cache.get("vtable")
    if r is not None:
        return r
    fn.cache["vtable"] = out = []
    ts = tests(flow, fn)
    groups = {}
    for b, (pl, en, m) in ts.items():
        groups.setdefault((pl, en), []).append((b, m))
    if not groups:
        return out
    T = tracked(flow, fn)
    for (pl, en), lst in sorted(groups.items(), key=repr):
        res = {}
        for v, _ in flow.p.enums[en]:
            x = reachable(flow, fn, T, {b: [s for s, vs in m.items() if v in vs] for b, m in lst})
            if x is None:
                res = None
                break
            res[v] = x
        if res:
            out.append((pl, en, res))
    return out


def at_block(flow, fn, b):
    """{enum: {feasible variant sets}} constraining block b (only proper subsets)"""
    out = {}
    for pl, en, res in table(flow, fn):
        s = frozenset(v for v, (bl, _) in res.items() if b in bl)
        if len(s) < len(res):
            out.setdefault(en, set()).add(s)
    return out


def at_return(flow, fn, val):
    out = {}
    for pl, en, res in table(flow, fn):
        s = frozenset(v for v, (_, rt) in res.items() if val in rt)
        if len(s) < len(res):
            out.setdefault(en, set()).add(s)
    return out


def minimal(sets):
    return frozenset(s for s in sets if not any(t < s for t in sets))


def case(levels):
    """combine the constraints of all call levels into one canonical case"""
    acc = {}
    for d in levels:
        for en, ss in d.items():
            acc.setdefault(en, set()).update(ss)
    return {en: sorted(sorted(s) for s in minimal(ss)) for en, ss in acc.items()}


def simplify(cases, enums):
    """cases that differ in one enum only are united; a case that is implied by another is dropped"""
    S = {tuple(sorted((e, tuple(tuple(x) for x in v)) for e, v in c.items())) for c in cases}
    more = True
    while more:
        more = False
        for c in sorted(S):
            for e, v in c:
                if len(v) != 1:
                    continue
                rest = tuple(x for x in c if x[0] != e)
                same = [d for d in sorted(S) if tuple(x for x in d if x[0] != e) == rest and len(dict(d).get(e, ())) == 1]
                if len(same) < 2:
                    continue
                u = sorted({n for d in same for n in dict(d)[e][0]})
                S -= set(same)
                if len(u) < len(enums.get(e, ())):
                    rest = tuple(sorted(rest + ((e, (tuple(u),)),)))
                S.add(rest)
                more = True
                break
            if more:
                break
        for c in sorted(S):
            if any(d != c and implies(dict(c), dict(d)) for d in S):
                S.discard(c)
                more = True
                break
    return [{e: [list(x) for x in v] for e, v in c} for c in sorted(S)]


def implies(c, d):
    return all(e in c and all(any(set(x) <= set(y) for x in c[e]) for y in v) for e, v in d.items())
