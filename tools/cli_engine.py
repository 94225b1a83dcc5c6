"""C01–C05: the command-line tool as a whole."""
import os, re, subprocess
check = None
PROPS = {"C01", "C02", "C03", "C04", "C05"}

def build_all():
    c = check
    def harness():
        t = c.build("cli", c.vpath("cli/Cargo.toml"), [], ["cli"],
                    [c.vpath("cli/src"), c.vpath("cli/Cargo.toml"), c.vpath("seq/src/explore.rs"), c.vpath("seq/src/model.rs"), c.vpath("seq/src/words.rs")])
        return os.path.join(t, "debug/cli")
    def tool():
        t = c.build("fyi", os.path.join(c.REPO, "Cargo.toml"),
                    ["-p", "fyi", "--config", 'patch.crates-io.fyi_ansi.path="/repo/fyi_ansi"'], ["fyi_msg", "fyi_ansi", "fyi"], [])
        return os.path.join(t, "debug/fyi")
    def shim():
        so, src = os.path.join(c.BUILD, "cli-shim.so"), c.vpath("cli/shim.c")
        if not os.path.exists(so) or os.path.getmtime(so) < os.path.getmtime(src):
            os.makedirs(c.BUILD, exist_ok=True)
            tmp = f"{so}.{os.getpid()}"
            subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", tmp, src], check=True)
            os.replace(tmp, so)
        return so
    return c.parallel([harness, tool, shim])

def environment(tool, shim):
    zone = os.path.join(check.BUILD, "zone-cli")
    with open(f"{zone}.{os.getpid()}", "wb") as f: f.write(check.tzif(20700))
    os.replace(f"{zone}.{os.getpid()}", zone)
    ver = re.search(r'^version\s*=\s*"([^"]+)"', open(os.path.join(check.REPO, "fyi/Cargo.toml")).read(), re.M).group(1)
    return {"CLI_BIN": tool, "CLI_SHIM": shim, "CLI_ZONE": zone, "CLI_VERSION": ver}

def run(prop, tier, rep):
    harness, tool, shim = build_all()
    check.run_engine([harness, "run", prop, tier], rep, environment(tool, shim), ["cli"], "bin")

def replay(j):
    harness, tool, shim = build_all()
    cmd = [harness, "replay", j["property"], j["test"], j["tier"]] + [str(c) for c in j["choices"]]
    print("now:", " ".join(cmd))
    return subprocess.run(cmd, env=check.env(**environment(tool, shim)), timeout=60).returncode
