"""Specs on disk: per property, the frozen contract of every unit function; plus the facts they were computed from."""
import json, os, re, sys, tarfile, tempfile, threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPECS = os.path.join(VERIF, "specs")
REF_TAR = os.path.join(SPECS, "reference.facts.tar.xz")
REF_DIR = os.path.join(VERIF, "target", "reference-facts")


def in_scope(prop, fn):
    if any(re.search(r, fn.id) for r in prop["also"]):
        return True
    return (any(re.search(r, fn.file) for r in prop["scope"]) and not any(re.search(e, fn.id) for e in prop["exclude"]))


def spec_path(pid):
    return os.path.join(SPECS, pid + ".json")


def load_spec(pid):
    with open(spec_path(pid)) as fh:
        return json.load(fh)


def all_units():
    with open(os.path.join(SPECS, "units.json")) as fh:
        return json.load(fh)


def save(path, units):
    with open(path, "w") as fh:
        fh.write("{\n")
        fh.write(",\n".join(json.dumps(k) + ": " + json.dumps(units[k], sort_keys=True) for k in sorted(units)))
        fh.write("\n}\n")


def reference_dir():
    """unpacks the reference facts once per content"""
    import hashlib
    with open(REF_TAR, "rb") as fh:
        h = hashlib.sha256(fh.read()).hexdigest()[:16]
    d = REF_DIR + "-" + h
    if not os.path.isdir(d):
        tmp = tempfile.mkdtemp(dir=os.path.join(VERIF, "target"))
        with tarfile.open(REF_TAR) as t:
            t.extractall(tmp, filter="data")
        try:
            os.rename(tmp, d)
        except OSError:
            pass
    return d


def big(f):
    """runs f in a thread with a deep stack and returns its result"""
    sys.setrecursionlimit(1000000)
    threading.stack_size(1 << 29)
    box = {}

    def go():
        try:
            box["r"] = f()
        except BaseException as e:  # noqa
            box["e"] = e
    t = threading.Thread(target=go)
    t.start()
    t.join()
    if "e" in box:
        raise box["e"]
    return box.get("r")
