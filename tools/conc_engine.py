"""Model checking of the unmodified library (see conc/)."""
import fcntl, os, shutil, subprocess
check = None
VARIANTS = {"plain": [], "sigint": ["--features", "sigint"], "sigwinch": ["--features", "sigwinch"], "signals": ["--features", "sigint,sigwinch"]}
BOTH = ["plain", "signals"]
PROPS = {
    "M05": ["plain"], "M06": ["plain"],
    "P01": BOTH, "P02": BOTH, "P03": BOTH, "P04": BOTH, "P05": BOTH, "P06": BOTH, "P07": BOTH, "P08": BOTH, "P09": BOTH, "P10": ["plain"], "P11": BOTH, "P12": BOTH, "P13": BOTH,
    "S01": ["sigint", "signals"], "S02": ["plain", "sigwinch", "signals"],
}
CAP = {"quick": 240, "thorough": 2400}

def stand_in():
    """The standard library's replacement, by content."""
    c = check
    src = c.vpath("conc/vstd")
    d = os.path.join(c.BUILD, "vstd-" + c.tree_hash(src)[:16])
    rlib = os.path.join(d, "libvstd.rlib")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(rlib):
            tmp = os.path.join(d, "tmp")
            os.makedirs(tmp, exist_ok=True)
            r = subprocess.run(["rustup", "run", "stable", "rustc", "--edition", "2024", "--crate-name", "vstd", "--crate-type", "rlib", "-O",
                                os.path.join(src, "lib.rs"), "--out-dir", tmp], env=c.env(), capture_output=True, text=True)
            if r.returncode != 0: raise c.BuildError(r.stderr)
            os.replace(os.path.join(tmp, "libvstd.rlib"), rlib)
            shutil.rmtree(tmp, ignore_errors=True)
    return rlib

def build(variant, rlib):
    c = check
    t = c.build(f"conc-{variant}", c.vpath("conc/Cargo.toml"), VARIANTS[variant], ["fyi_msg", "fyi_ansi", "signal-hook", "terminal_size", "conc"],
                [c.vpath("conc/src"), c.vpath("conc/vstd"), c.vpath("conc/stubs"), c.vpath("conc/Cargo.toml"), c.vpath("conc/wrap.sh"), c.vpath("seq/src/model.rs"), c.vpath("seq/src/words.rs")],
                {"RUSTC_WRAPPER": c.vpath("conc/wrap.sh"), "VSTD_RLIB": rlib})
    return os.path.join(t, "debug/conc")

def build_all(variants=tuple(VARIANTS)):
    rlib = stand_in()
    return check.parallel([lambda v=v: build(v, rlib) for v in variants])

def run(prop, tier, rep):
    variants = PROPS[prop]
    known = check.known(prop)
    e = {"CONC_KNOWN": "\x1f".join(known)} if known else None
    cap = CAP[tier] / len(variants)
    for v, b in zip(variants, build_all(variants)):
        check.run_engine([b, "run", prop, tier, str(cap)], rep, e, ["conc", v], v, timeout=cap * 2 + 300)

def replay(j):
    b, = build_all([j["engine"][1]])
    cmd = [b, "replay", j["property"], j["test"], j["tier"]] + [str(c) for c in j["choices"]]
    print("now:", " ".join(cmd), flush=True)
    return subprocess.run(cmd, env=check.env(), timeout=120).returncode
