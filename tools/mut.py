#!/usr/bin/env python3
"""mut.py FILE [name...]: run checks against edited copies of /repo, four at a time.
FILE defines M = {name: (["C01", ...], [(file, old, new), ...], expect)}
expect: True = must be caught by every listed check, False = must be quiet."""
import os, shutil, subprocess, sys, queue, threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
names = sys.argv[2:]
jobs = queue.Queue()
for name, x in ns["M"].items():
    if not names or name in names: jobs.put((name,) + tuple(x))
out = threading.Lock()
def say(*l):
    with out: print("\n".join(l), flush=True)
def worker(i):
    d = "/tmp/mutcopy%d_%d" % (os.getpid(), i); v = "/tmp/mutverif%d_%d" % (os.getpid(), i)
    os.makedirs(v, exist_ok=True)
    subprocess.run(["rsync", "-a", "--delete", "--exclude", "build", "--exclude", "evidence", "--exclude", ".git", "--exclude", "seeded", V + "/", v + "/"], check=True)
    if not os.path.exists(v + "/build"): subprocess.run(["cp", "-a", V + "/build", v + "/build"], check=True)
    while True:
        try: name, props, edits, expect = jobs.get_nowait()
        except queue.Empty: shutil.rmtree(v, ignore_errors=True); return
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        for x in ("src", "Cargo.toml", "Cargo.lock", "examples", "tests", "benches", "README.md", "CHANGELOG.md", "Tutorial.md", "docs"):
            s = os.path.join(os.environ.get("MUT_BASE", "/repo"), x)
            if os.path.isdir(s) and x == "src": shutil.copytree(s, os.path.join(d, x))
            elif os.path.isdir(s): os.symlink(s, os.path.join(d, x))
            elif os.path.exists(s): shutil.copy(s, d)
        for f, a, b in edits:
            p = os.path.join(d, "src", f); t = open(p).read()
            if a not in t: say("BAD   %s EDIT DOES NOT APPLY %s %r" % (name, f, a[:60])); break
            open(p, "w").write(t.replace(a, b, 1))
        else:
            for pr in props:
                r = subprocess.run([sys.executable, os.path.join(v, "sa/check.py"), pr], cwd=v, env=dict(os.environ, VERIF_REPO=d), capture_output=True, text=True)
                ok = (r.returncode == 1) == expect and r.returncode in (0, 1)
                l = ["%-5s %s %s rc=%d" % ("ok" if ok else "BAD", name, pr, r.returncode)]
                if not ok: l += ["    " + z for z in (r.stdout + r.stderr)[-700:].splitlines()]
                elif expect: l += ["      " + z[:150] for z in r.stdout.splitlines() if "[rule instance" in z][:int(os.environ.get("MUT", "1"))]
                say(*l)
        shutil.rmtree(d, ignore_errors=True)
ts = [threading.Thread(target=worker, args=(i,)) for i in range(int(os.environ.get("J", "4")))]
[t.start() for t in ts]; [t.join() for t in ts]
