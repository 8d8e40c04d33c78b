"""Targeted rules that are not dependence contracts: rule(prog, tier) -> {coverage, violations}."""
import json, os
from . import discard as _discard
from .load import SPECS
from .units import SKIP


def frozen(name):
    with open(os.path.join(SPECS, name + ".json")) as fh:
        return json.load(fh)


def outside(f):
    return bool(SKIP.search(f.id)) or "grpc_stubs" in f.file or "weaver_test_support" in f.file


def discard_now(prog):
    s, n = _discard.sites(prog, outside)
    fns = {}
    for k, v in s.items():
        d = fns.setdefault(k, {})
        for fn, _, _ in v:
            d[fn] = d.get(fn, 0) + 1
    return {"places": n, "sites": fns}, s


def discard(prog, tier):
    """a failure that nothing can observe is a violation unless it is one of the reviewed best-effort operations"""
    ref = frozen("discard")
    now, s = discard_now(prog)
    viol = []
    for k, fns in sorted(now["sites"].items()):
        was = ref["sites"].get(k, {})
        if sum(fns.values()) <= sum(was.values()):
            continue
        for fn, c in sorted(fns.items()):
            if c <= was.get(fn, 0):
                continue
            at = [x for x in s[k] if x[0] == fn]
            viol.append({"key": ("discard|%s|%s" % (k, fn)).replace(" ", "_"), "function": fn, "file": "%s:%d" % at[0][1:], "rule": "discarded failure",
                         "what": "a failure or problem list is let go here unseen (%s): neither returned, nor reported, nor acted on" % k,
                         "sites": ["%s:%d" % x[1:] for x in at]})
    if now["places"] < 0.7 * ref["places"]:
        viol.append({"key": "discard|floor", "function": "", "file": "", "rule": "discarded failure",
                     "what": "only %d of about %d places where something can fail were found" % (now["places"], ref["places"]), "sites": []})
    return {"coverage": {"places_where_a_failure_or_problem_list_arrives": now["places"],
                         "reviewed_best_effort_sites": sum(sum(v.values()) for v in now["sites"].values())}, "violations": viol}


RULES = {"discard": discard}
TITLES = {"discard": "observability of every error value and problem list: none is dropped at a call site outside the reviewed best-effort list"}
FREEZE = {"discard": lambda prog: discard_now(prog)[0]}
