#!/usr/bin/env python3
"""check.py <property> : decides one property on /repo's current source."""
import json, os, re, sys, time
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
from engine.compare import compare
from engine.facts import Program
from engine.load import all_units, big, load_spec, reference_dir
from engine.refresh import BuildError, FACTS, refresh
from engine.units import Side
from engine import rules
from props import PROPS

KNOWN = os.path.join(VERIF, "known_findings.txt")


def known(pid):
    """{key: text} of the open findings of this property"""
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)$", l.strip())
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out


def mentions(c, ids):
    """units of `ids` a contract refers to"""
    s = json.dumps(c)
    return {i for i in ids if i in s}


def named_calls(R, C):
    """callees on which two contracts differ"""
    def ks(x):
        out = set()
        for lab, s in x["sinks"].items():
            if lab.startswith("call "):
                out.add(lab[5:])
        for m in re.finditer(r'"K:([^"]+)"', json.dumps(x)):
            out.add(m.group(1))
        return out
    a, b = ks(R), ks(C)
    return a ^ b


def reachable(spec):
    """contracts of the functions in scope and of everything they reach through named calls"""
    every = {}
    for p in PROPS:
        every.update(load_spec(p["id"]))
    out, work = dict(spec), list(spec)
    while work:
        c = every[work.pop()]
        names = {l[5:] for l in c["sinks"] if l.startswith("call ")} | set(re.findall(r'"K:([^"]+)"', json.dumps(c)))
        for u in names & set(every) - set(out):
            out[u] = every[u]
            work.append(u)
    return out


class Contracts:
    def __init__(self, prog, spec, units, refdir=None):
        self.prog = prog
        self.spec = spec
        self.refdir = refdir
        units = set(units)
        self.missing = units - set(prog.fns)
        self.units = units - self.missing
        self.cur = Side(prog, self.units)
        self._ref = None
        self.stats = {"functions": 0, "bodies": 0, "obligations": 0, "recomputed": 0, "coarsened": 0}

    @property
    def ref(self):
        if self._ref is None:
            self._ref = Side(Program(self.refdir or reference_dir()), self.units)
        return self._ref

    def run(self):
        out = []
        todo = {u: c for u, c in self.spec.items() if u in self.units}
        gone = [u for u in self.spec if u in self.missing]
        if gone:
            # a function that was inlined or renamed: its obligations move to whoever contained the call
            for u in gone:
                callers = [v for v in self.units if self.uses(v, u)]
                if not callers and self.spec[u]["open"]:
                    out.append((u, "gone", "the function no longer exists and nothing that contains it is left to check", "gone", {}))
                for v in callers:
                    todo.setdefault(v, None)
        for u in sorted(todo):
            R = todo[u]
            if R is None or (self.missing and mentions(R, self.missing)):
                R = json.loads(json.dumps(self.ref.contract(u)))
                self.stats["recomputed"] += 1
            C = json.loads(json.dumps(self.cur.contract(u)))
            self.stats["functions"] += 1
            self.stats["bodies"] += C["bodies"]
            self.stats["obligations"] += sum(max(1, len(s["sites"])) + len(s.get("fields", {})) for s in C["sinks"].values()) \
                + ("ret" in C) + len(C.get("out", {}))
            d = compare(u, R, C)
            inline = frozenset()
            while d and len(inline) < 6:
                more = {k for k in named_calls(R, C) if k in self.units and k != u} - inline
                if not more:
                    break
                # the callee set changed: look through the callees in question on both sides
                inline = inline | frozenset(more)
                self.stats["coarsened"] += 1
                R = json.loads(json.dumps(self.ref.contract(u, inline)))
                C2 = self.cur.contract(u, inline)
                C = json.loads(json.dumps(C2))
                d = compare(u, R, C)
            if d:
                w = C.get("where", {})
                for kind, text, lab in d:
                    out.append((u, kind, text, lab, w))
        return out

    def uses(self, v, u):
        f = self.ref.prog.fns.get(v)
        if f is None:
            return False
        st = [f]
        kids = self.kids()
        while st:
            g = st.pop()
            if '"' and g._raw is not None:
                g.decode()
                for stm, t in g.blocks:
                    if t[2] == "c":
                        for o in [t[3]] + t[4]:
                            if o[0] == "fn" and u in (o[1], o[2]):
                                return True
            st.extend(kids.get(g.id, []))
        return False

    def kids(self):
        k = getattr(self, "_kids", None)
        if k is None:
            k = self._kids = {}
            for f in self.ref.prog.fns.values():
                if f.parent:
                    k.setdefault(f.parent, []).append(f)
        return k


def main(pid):
    t0 = time.time()
    prop = next(p for p in PROPS if p["id"] == pid)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    info = refresh()
    prog = Program(FACTS)
    spec = load_spec(pid)
    if tier == "thorough":
        spec = reachable(spec)
    ct = Contracts(prog, spec, all_units())
    viol = []
    floor = len(ct.spec)
    for u, kind, text, lab, w in ct.run():
        f = prog.fns.get(u)
        viol.append({"key": re.sub(r"\s+", "_", "%s|%s|%s" % (u, kind, lab)), "function": u,
                     "file": "%s:%d" % (f.file, f.line) if f else "", "rule": "dependence contract (%s)" % kind,
                     "what": text, "sites": (w.get(lab) or [])[:4]})
    cov = {"explanation": "Static dependence analysis of the MIR of every function in scope; each reported error, built value, call and "
                          "result is compared with the set of inputs and conditions it may and must depend on.",
           "functions_in_scope": ct.stats["functions"], "bodies_analysed": ct.stats["bodies"],
           "contract_obligations": ct.stats["obligations"], "contracts_expected": floor,
           "program_bodies": len([1 for f in prog.fns.values() if f.subst is None]), "crates": info["crates"],
           "source_files_verified_against_facts": info["files"]}
    for r in prop["rules"]:
        res = rules.RULES[r](prog, tier)
        cov["rule_" + r] = res["coverage"]
        for v in res["violations"]:
            viol.append(v)
    kn = known(pid)
    seen, real = set(), []
    for v in viol:
        if v["key"] in kn:
            seen.add(v["key"])
        else:
            real.append(v)
    for k in sorted(seen):
        print("KNOWN-FINDING: property=%s %s" % (pid, kn[k]))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other", "coverage": cov,
          "wall_s": round(time.time() - t0, 2),
          "assumptions": ["external crates behave as documented", "the frozen contracts were reviewed against the property's statement"],
          "violations": len(real)}
    cov["violation_keys"] = [v["key"] for v in real]
    cov["samples"] = [{"function": u, "conditions": len(c["sinks"])} for u, c in sorted(ct.spec.items())[:3]]
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
        fh.write("\n")
    rp = os.path.join(VERIF, "evidence", pid + ".violations.json")
    if real:
        with open(rp, "w") as fh:
            json.dump(real, fh, indent=1)
            fh.write("\n")
        for v in real[:20]:
            print("%s: %s: [%s] %s" % (v.get("file", ""), v.get("function", ""), v["rule"], v["what"][:700]))
        if len(real) > 20:
            print("... and %d more" % (len(real) - 20))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if os.path.exists(rp):
        os.remove(rp)
    print("property %s holds: %d functions, %d obligations, %.1f s" % (pid, ct.stats["functions"], ct.stats["obligations"], time.time() - t0))
    return 0


if __name__ == "__main__":
    try:
        sys.exit(big(lambda: main(sys.argv[1])))
    except BuildError as e:
        print("cannot analyse /repo: %s" % e)
        sys.exit(2)
