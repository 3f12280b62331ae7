"""Build the MIR facts of /repo's current working tree.

`facts(config)` returns the parsed facts; they are produced by the `mirfacts`
driver (see /verif/driver) run as RUSTC_WORKSPACE_WRAPPER under
`cargo +nightly check --lib`, and cached under build/ by a hash of every input
(source tree, manifest, driver), so a changed tree is always analysed anew.
"""
import fcntl, glob, hashlib, json, os, pickle, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CONFIGS = {
    "full": ["chrono", "serde", "rust_decimal", "constant_memory", "ryu", "wasm"],
    "default": [],
}

class ExtractError(Exception):
    pass

def _env():
    env = dict(os.environ)
    env["PATH"] = os.path.expanduser("~/.cargo/bin") + ":" + env.get("PATH", "")
    env.pop("RUSTUP_TOOLCHAIN", None)
    env.pop("RUSTFLAGS", None)
    env["CARGO_NET_OFFLINE"] = "true"
    env["CARGO_TERM_COLOR"] = "never"
    env["CARGO_INCREMENTAL"] = "0"
    env["RUSTC_WRAPPER"] = ""
    return env

def _run(cmd, env, cwd):
    r = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise ExtractError("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-6000:]))
    return r.stdout

def source_files():
    fs = glob.glob(os.path.join(REPO, "src", "**", "*.rs"), recursive=True)
    # Unit tests are not part of the analysed program (cfg(test)).
    return sorted(f for f in fs)

def _hash(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(os.path.relpath(p, "/").encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:24]

class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.path = os.path.join(BUILD, name + ".lock")
    def __enter__(self):
        self.f = open(self.path, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a):
        self.f.close()

def sysroot(env):
    return _run(["rustc", "+nightly", "--print", "sysroot"], env, "/").strip()

def driver():
    """Builds the driver if needed and returns (path, env)."""
    env = _env()
    env["LD_LIBRARY_PATH"] = sysroot(env) + "/lib"
    src = [os.path.join(VERIF, "driver", "src", "main.rs"), os.path.join(VERIF, "driver", "Cargo.toml")]
    key = _hash(src)
    exe = os.path.join(BUILD, "driver-" + key)
    if not os.path.exists(exe):
        with Lock("driver"):
            if not os.path.exists(exe):
                td = os.path.join(BUILD, "driver-target")
                _run(["cargo", "+nightly", "build", "--offline", "--target-dir", td], env, os.path.join(VERIF, "driver"))
                shutil.copy(os.path.join(td, "debug", "mirfacts"), exe + ".tmp")
                os.rename(exe + ".tmp", exe)
    return exe, env, key

def facts_path(config):
    exe, env, dkey = driver()
    srcs = source_files() + [os.path.join(REPO, "Cargo.toml")]
    key = _hash(srcs, dkey + config + ",".join(CONFIGS[config]))
    out = os.path.join(BUILD, "facts", "%s-%s" % (config, key))
    done = os.path.join(out, "rust_xlsxwriter.jsonl")
    if os.path.exists(done):
        return done, key
    with Lock("facts-" + config):
        if os.path.exists(done):
            return done, key
        os.makedirs(out, exist_ok=True)
        # Drop old facts of this configuration (disk space).
        olds = sorted(glob.glob(os.path.join(BUILD, "facts", config + "-*")), key=os.path.getmtime)
        for o in olds[:-3]:
            if o != out:
                shutil.rmtree(o, ignore_errors=True)
        td = os.path.join(BUILD, "target-" + config)
        # cargo's freshness cache would skip the wrapper on a warm target directory.
        for pat in (".fingerprint/rust_xlsxwriter-*", "build/rust_xlsxwriter"):
            for d in glob.glob(os.path.join(td, "debug", pat)):
                shutil.rmtree(d, ignore_errors=True)
        env = dict(env)
        env["RUSTC_WORKSPACE_WRAPPER"] = exe
        env["MIRFACTS_OUT"] = out
        cmd = ["cargo", "+nightly", "check", "--lib", "--offline", "--target-dir", td, "--manifest-path", os.path.join(REPO, "Cargo.toml")]
        if CONFIGS[config]:
            cmd += ["--features", " ".join(CONFIGS[config])]
        log = _run(cmd, env, REPO)
        if not os.path.exists(done):
            raise ExtractError("the driver produced no facts\n" + log[-3000:])
    return done, key

def load(config="full"):
    path, key = facts_path(config)
    pk = path + ".pickle"
    if os.path.exists(pk):
        try:
            with open(pk, "rb") as f:
                return pickle.load(f), key
        except Exception:
            pass
    rows = []
    with open(path) as f:
        for line in f:
            rows.append(json.loads(line))
    tmp = pk + ".tmp%d" % os.getpid()
    with open(tmp, "wb") as f:
        pickle.dump(rows, f, protocol=5)
    os.rename(tmp, pk)
    return rows, key

if __name__ == "__main__":
    for c in sys.argv[1:] or list(CONFIGS):
        t = time.time()
        p, k = facts_path(c)
        print(c, p, os.path.getsize(p), "%.1fs" % (time.time() - t))
