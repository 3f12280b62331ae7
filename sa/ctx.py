"""Shared context of all checks: program model, emission results, reports."""
import glob, hashlib, json, os, pickle, sys, time
import extract
from mir import Program

VERIF = extract.VERIF
KNOWN = os.path.join(VERIF, "known-findings.txt")

def sa_hash():
    h = hashlib.sha256()
    for p in ("emit.py", "emit2.py", "mir.py", "ctx.py"):
        with open(os.path.join(VERIF, "sa", p), "rb") as f: h.update(f.read())
    return h.hexdigest()[:16]

class Emission:
    """what the emission analysis found, independent of the interpreter"""
    pass

class Ctx:
    def __init__(self):
        self._p = {}; self._em = {}
    def prog(self, config="full"):
        if config not in self._p: self._p[config] = Program(config)
        return self._p[config]
    def emission(self, config="full"):
        if config in self._em: return self._em[config]
        p = self.prog(config)
        d = os.path.join(extract.BUILD, "emission"); os.makedirs(d, exist_ok=True)
        fn = os.path.join(d, "%s-%s-%s.pickle" % (config, p.key, sa_hash()))
        if os.path.exists(fn):
            try:
                with open(fn, "rb") as f: r = pickle.load(f)
                self._em[config] = r; return r
            except Exception: pass
        from emit2 import Emit
        import emit
        e = Emit(p); e.analyse()
        r = Emission()
        r.events = e.events; r.closes = e.closes; r.raws = e.raws; r.issues = e.issues
        r.roots = sorted(e.roots); r.emitters = sorted(e.emitters); r.wall = e.wall; r.stats = dict(e.stats)
        r.nsum = len(e.allsum)
        r.analysed = sorted({k[0] for k in e.memo})
        # The tokens of every Display impl of the crate
        r.tokens = {}
        for adt, a in p.adts.items():
            if a["kind"] != "enum" and "enum" not in str(a["kind"]).lower(): continue
            try: r.tokens[adt] = e.display_tokens(adt)
            except Exception as x: r.tokens[adt] = None
        # The primitives, interpreted themselves
        r.prims = {}
        saved = dict(emit.PRIMS)
        emit.PRIMS.clear()
        try:
            e2 = Emit(p)
            for q in sorted(p.fns):
                n = q.rsplit("::", 1)[-1]
                if "xmlwriter" in q and q in e2.emitters:
                    f = p.fns[q]
                    args = tuple(("p", (("A", q, i),)) for i in range(1, f.nargs + 1))
                    n0 = len(e2.allsum)
                    s = e2.summarize(q, args, {}, {})
                    r.prims[q] = ([x[0] for x in s.exits], set(s.raws).union(*[x.raws for x in e2.allsum[n0:]]), {x for x in s.events if x[5] != "close"}, set(s.issues))
        finally:
            emit.PRIMS.update(saved)
        for o in glob.glob(os.path.join(d, config + "-*")):
            if len(glob.glob(os.path.join(d, "*"))) > 6:
                try: os.remove(o)
                except OSError: pass
        with open(fn + ".%d.tmp" % os.getpid(), "wb") as f: pickle.dump(r, f, protocol=5)
        os.rename(fn + ".%d.tmp" % os.getpid(), fn)
        self._em[config] = r
        return r

class Report:
    def __init__(self, pid):
        self.pid = pid; self.violations = {}; self.counts = {}; self.samples = []; self.assumptions = []; self.notes = []
        self.obligations = 0; self.explanation = ""
    def ok(self, n=1): self.obligations += n
    def bad(self, key, msg, where=""):
        """key: stable identity of the violation (no line numbers)"""
        self.obligations += 1
        self.violations.setdefault(key, (msg, where))
    def check(self, cond, key, msg, where=""):
        if cond: self.ok()
        else: self.bad(key, msg, where)
        return bool(cond)
    def floor(self, name, n, minimum):
        """fail closed when an anchor disappears"""
        self.counts[name] = n
        if n < minimum: self.bad("floor:" + name, "only %d %s found, expected at least %d: the rule lost its anchors" % (n, name, minimum))
    def count(self, name, n): self.counts[name] = n
    def sample(self, s):
        if len(self.samples) < 12: self.samples.append(s)

def loc(p, fn):
    f = p.fns.get(fn)
    return "%s:%d %s" % (f.file, f.line, fn) if f else fn

def known():
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.rstrip("\n")
            if line.startswith("finding: "):
                # finding: property=C04 key=<key> :: <what fails>
                head, _, what = line[len("finding: "):].partition(" :: ")
                pr, _, key = head.partition(" key=")
                out.append((pr.split("=", 1)[1].strip(), key.strip(), what.strip()))
    return out
