"""Brings the program facts up to date with /repo's working tree: re-runs the compiler front end on whatever
changed and then checks, file by file, that the facts were extracted from exactly the bytes now on disk."""
import fcntl, glob, hashlib, json, os, shutil, subprocess, sys, time

REPO = "/repo"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TARGET = os.path.join(VERIF, "target")
FACTS = os.path.join(TARGET, "facts")
DRIVER = os.path.join(TARGET, "driver", "release", "factdrv")


class BuildError(Exception):
    pass


def env():
    e = dict(os.environ)
    for k in ("RUSTUP_TOOLCHAIN", "RUSTFLAGS", "RUSTC", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    sysroot = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], capture_output=True, text=True, env=e).stdout.strip()
    e["LD_LIBRARY_PATH"] = sysroot + "/lib"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    return e


def build_driver(e):
    x = dict(e)
    x["CARGO_TARGET_DIR"] = os.path.join(TARGET, "driver")
    r = subprocess.run(["cargo", "+nightly", "build", "--release", "--offline"], cwd=os.path.join(VERIF, "driver"),
                       env=x, capture_output=True, text=True)
    if r.returncode:
        raise BuildError("fact extractor does not build:\n" + r.stderr[-3000:])


def cargo(e):
    x = dict(e)
    x["FACTDRV_OUT"] = FACTS
    x["RUSTC_WORKSPACE_WRAPPER"] = DRIVER
    x["CARGO_TARGET_DIR"] = os.path.join(TARGET, "check")
    os.makedirs(FACTS, exist_ok=True)
    os.makedirs(os.path.join(REPO, "ui", "dist"), exist_ok=True)
    r = subprocess.run(["cargo", "+nightly", "check", "--workspace", "--exclude", "weaver_codegen_test",
                        "--offline", "--locked"], cwd=REPO, env=x,
                       capture_output=True, text=True)
    if r.returncode:
        raise BuildError("/repo does not compile:\n" + r.stderr[-3000:])


def headers():
    out = {}
    for f in sorted(glob.glob(FACTS + "/*.facts")):
        with open(f) as fh:
            out[f] = json.loads(fh.readline())
    return out


def stale():
    """crates whose facts were not extracted from the files as they are now"""
    bad = []
    hs = headers()
    for f, h in hs.items():
        for name, want in h.get("hashes", {"?": ""}).items():
            p = os.path.join(REPO, name)
            kind, _, val = want.partition("=")
            try:
                with open(p, "rb") as fh:
                    got = hashlib.new(kind or "md5", fh.read()).hexdigest()
            except (OSError, ValueError):
                got = None
            if got != val:
                bad.append(h["crate"])
                break
    return bad, hs


def refresh(verbose=False):
    t0 = time.time()
    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(TARGET, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        e = env()
        build_driver(e)
        cargo(e)
        bad, hs = stale()
        if bad or not hs:
            for c in bad:
                for d in glob.glob(os.path.join(TARGET, "check", "debug", "build", c)):
                    shutil.rmtree(d, ignore_errors=True)
                for d in glob.glob(os.path.join(TARGET, "check", "debug", ".fingerprint", c + "-*")):
                    shutil.rmtree(d, ignore_errors=True)
            cargo(e)
            bad, hs = stale()
            if bad:
                raise BuildError("facts do not match the sources of " + ", ".join(bad))
        # facts of crates that no longer exist
        meta = subprocess.run(["cargo", "+nightly", "metadata", "--offline", "--no-deps", "--format-version", "1"],
                              cwd=REPO, env=e, capture_output=True, text=True)
        if meta.returncode == 0:
            names = {t["name"].replace("-", "_") for p in json.loads(meta.stdout)["packages"] for t in p["targets"]}
            for f, h in hs.items():
                if h["crate"] not in names:
                    os.remove(f)
    if verbose:
        print("facts up to date in %.1f s (%d crates)" % (time.time() - t0, len(hs)))
    return {"crates": len(hs), "files": sum(len(h.get("hashes", {})) for h in hs.values()),
            "extract_s": round(time.time() - t0, 1)}


if __name__ == "__main__":
    try:
        refresh(True)
    except BuildError as x:
        print(x)
        sys.exit(2)
