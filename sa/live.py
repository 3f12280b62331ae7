"""Liveness of fields with respect to the output: which fields influence what
is written. Nodes: (fn, local), (fn, "ret"), "Owner.field", "SINK". Data edges
follow assignments, calls, returns and fields (field based); control edges go
from the operand of a switch to what its controlled blocks assign and, when a
controlled block calls a function that emits, to the sink. Branches of error
propagation are not conditions (validating is not writing), nor is the result of
a predicate that compares many fields at once (is_default, derived eq)."""
import re, collections
from mir import *

ERRTY = re.compile(r"ControlFlow<|Result<")
MANY = 3

def postdom(f):
    """block -> set of postdominators over the non-cleanup graph"""
    rb = [b for b in f.reachable() if not f.cleanup(b)]
    rs = set(rb); succ = {b: [s for s in f.succ(b) if s in rs] for b in rb}
    exits = [b for b in rb if not succ[b]]
    order = sorted(rb, reverse=True)
    full = frozenset(rb)
    pd = {b: (frozenset([b]) if not succ[b] else full) for b in rb}
    ret = [b for b in exits if f.term(b)["k"] == "return"]
    ch = True
    while ch:
        ch = False
        for b in order:
            if not succ[b]: continue
            # paths that panic do not count as ways out
            ss = [s for s in succ[b] if succ[s] or f.term(s)["k"] == "return"] or succ[b]
            n = frozenset([b]) | frozenset.intersection(*[pd[s] for s in ss])
            if n != pd[b]: pd[b] = n; ch = True
    return pd, succ

def control(f):
    """switch block -> blocks that execute or not depending on it (directly)"""
    pd, succ = postdom(f); out = {}
    for a in pd:
        if f.term(a)["k"] != "switch" or len(set(succ[a])) < 2: continue
        dep = set()
        for s in set(succ[a]):
            # blocks that postdominate s but not a
            dep |= {b for b in pd[s] if b not in pd[a] or b == a and False}
        out[a] = dep
    return out

def control_star(f):
    """transitive closure of control()"""
    c = control(f); out = {}
    for a in c:
        s = set(c[a]); wk = [b for b in s if b in c]
        while wk:
            b = wk.pop()
            for x in c[b]:
                if x not in s:
                    s.add(x)
                    if x in c: wk.append(x)
        out[a] = s
    return out

class Live:
    def __init__(self, prog, emitters, weak=False):
        self.p = prog; self.em = set(emitters); self.weak = weak
        self.succ = collections.defaultdict(set); self.pred = None
        self.cut = set()
        for f in prog.fns.values(): self.build(f)

    def edge(self, a, b):
        if a is not None and b is not None and a != b: self.succ[a].add(b)

    def nodes(self, f, pl):
        """nodes whose content a read of the place uses"""
        out = [(f.path, pl[0])]
        for e in pl[1:]:
            if isinstance(e, list):
                if e[0] == "#": out.append((f.path, e[1]))
                elif e[0] == "{closure}": out.append((f.path, "up%s" % e[1]))
                elif is_field(e) and e[0].split("::")[0] in self.p_roots(): out.append(fkey(e))
        return out

    def p_roots(self):
        if not hasattr(self, "_roots"): self._roots = {a.split("::")[0] for a in self.p.adts}
        return self._roots

    def wnode(self, f, pl):
        n = None
        for e in pl[1:]:
            if isinstance(e, list) and is_field(e) and e[0] not in ("{closure}", "()") and e[0].split("::")[0] in self.p_roots(): n = fkey(e)
        return n or (f.path, pl[0])

    def read(self, f, pl, d):
        ns = self.nodes(f, pl)
        # the innermost field and, through it, what contains it
        for n in ns: self.edge(n, d)

    def predicate(self, f):
        """functions whose result condenses many fields to one bit"""
        if f.ty(0) != "bool": return False
        if "PartialEq" in f.path or "PartialOrd" in f.path: return True
        tf = self.p.trans_fields().get(f.path)
        return len({x for x in tf[0]}) > MANY

    def build(self, f):
        if any(x in f.path for x in ("as std::clone::Clone>", "as std::fmt::Debug>", "as std::hash::Hash>", "as std::cmp::PartialEq>", "as std::cmp::Eq>", "as std::default::Default>")): 
            return
        dropret = self.predicate(f) and not self.weak
        ctl = control(f)
        wrote = collections.defaultdict(set); emits = set()
        for b in f.reachable():
            if f.cleanup(b): continue
            for st in f.stmts(b):
                if st[0] != "=": continue
                d = self.wnode(f, st[1]); rv = st[2]
                wrote[b].add(d)
                if rv[0] == "ref":
                    self.read(f, rv[2], d)
                    # what is written through the reference goes to the place
                    if rv[1]: self.edge((f.path, st[1][0], "w"), self.wnode(f, rv[2])); self.edge((f.path, st[1][0], "w"), (f.path, rv[2][0], "w"))
                elif rv[0] == "discr": self.read(f, rv[1], d)
                elif rv[0] == "agg":
                    k = rv[1]; done = False
                    if isinstance(k, dict) and "adt" in k and k["adt"] in self.p.adts:
                        r = self.p.adts[k["adt"]]
                        vs = [v for v in r["variants"] if v["name"] == k.get("variant")] or r["variants"]
                        o = k["adt"] if r["kind"] == "struct" else k["adt"] + "::" + vs[0]["name"]
                        for (n, t, *_), x in zip(vs[0]["fields"], rv[2]):
                            if "p" in x: self.read(f, x["p"], o + "." + str(n))
                        done = True
                    elif isinstance(k, dict) and "closure" in k:
                        for i, x in enumerate(rv[2]):
                            if "p" in x:
                                self.read(f, x["p"], (k["closure"], "up%d" % i)); self.edge((k["closure"], "up%d" % i, "w"), (f.path, x["p"][0], "w"))
                    if not done:
                        for x in rv[2]:
                            if "p" in x: self.read(f, x["p"], d)
                else:
                    for x in rv_operands(rv):
                        if "p" in x:
                            self.read(f, x["p"], d)
                            if f.ty(st[1][0]).startswith("&mut") and len(st[1]) == 1: self.edge((f.path, st[1][0], "w"), (f.path, x["p"][0], "w"))
                if rv[0] == "cast" and f.ty(st[1][0]).startswith("*") and len(st[1]) == 1:
                    for x in rv_operands(rv):
                        if "p" in x: self.edge(d, (f.path, x["p"][0]))
                if isinstance(d, tuple) and "*" in st[1][1:]: self.edge(d, (f.path, st[1][0], "w"))
            t = f.term(b)
            if t["k"] == "call": self.call(f, b, t, wrote, emits)
        if not dropret: self.edge((f.path, 0), (f.path, "ret"))
        if not dropret or True:
            # control edges (transitive through nesting)
            for a, dep in ctl.items():
                t = f.term(a); on = t["on"]
                if "p" not in on: continue
                src = self.switch_place(f, a, on["p"])
                if src is None: continue
                c = (f.path, "if", a)
                for n in src: self.edge(n, c)
                for b in dep:
                    for d in wrote[b]:
                        if d == (f.path, 0) and dropret: continue
                        self.edge(c, d)
                    if b in emits: self.edge(c, "SINK")
                    if f.term(b)["k"] == "switch" and b != a: self.edge(c, (f.path, "if", b))

    def switch_place(self, f, b, pl):
        """nodes that decide the switch; None when it is error propagation"""
        # discriminant read in the same block
        l = pl[0]
        for st in f.stmts(b):
            if st[0] == "=" and st[1] == [l] and st[2][0] == "discr":
                ty = self.ptype(f, st[2][1])
                if ty and ERRTY.search(ty): return None
        if ERRTY.search(f.ty(l)): return None
        return self.nodes(f, pl)

    def ptype(self, f, pl): return f.ty(pl[0]) if len(pl) == 1 else None

    def call(self, f, b, t, wrote, emits):
        name = t.get("res") or t.get("f") or ""
        d = self.wnode(f, t["dest"]); wrote[b].add(d)
        cs = self.p.callees(t)
        if any(c in self.em for c in cs): emits.add(b)
        for o in t["args"]:
            if "p" in o and f.ty(o["p"][0]).startswith("&mut"): wrote[b].add((f.path, o["p"][0], "w"))
        if cs and not name.endswith(">::clone"):
            for c in cs:
                g = self.p.fns[c]
                for i, o in enumerate(t["args"]):
                    if "p" not in o or i + 1 > g.nargs: continue
                    self.read(f, o["p"], (c, i + 1))
                    self.edge((c, i + 1, "w"), (f.path, o["p"][0], "w"))
                if not (self.predicate(g) and not self.weak): self.edge((c, "ret"), d)
            return
        ns = []
        for o in t["args"]:
            if "p" in o:
                self.read(f, o["p"], d); ns.append(o["p"])
        if name.endswith(("PartialEq::ne", "PartialEq::eq")) or "PartialEq" in name: pass
        muts = [pl for pl in ns if f.ty(pl[0]).startswith("&mut")]
        for m in muts:
            for pl in ns:
                if pl is not m: self.read(f, pl, (f.path, m[0], "w"))
            if any(x in f.ty(t["dest"][0]) for x in ("&mut ", "Entry<", "IterMut")): self.edge((f.path, t["dest"][0], "w"), (f.path, m[0], "w"))
        for a in t.get("targs", []):
            if name.endswith("ToString::to_string") or "Argument::<'_>::new_" in name:
                di = self.p.display_impl(a)
                if di: 
                    for pl in ns: self.read(f, pl, (di, 1))
                    self.edge((di, "ret"), d); self.edge((di, "fmt"), d)
        if "Formatter" in name:
            for pl in ns[1:]: self.read(f, pl, (f.path, "fmt"))
        for c in self.p.closures_of(f.path):
            g = self.p.fns[c]
            if not passed(self.p, f, t, c): continue
            for i in range(2, g.nargs + 1):
                for pl in ns: self.read(f, pl, (c, i))
            self.edge((c, "ret"), d)
            for m in muts: self.edge((c, "ret"), (f.path, m[0], "w"))

    def live(self, prims):
        """nodes from which the sink is reached"""
        for q in prims:
            f = self.p.fns[q]
            for i in range(1, f.nargs + 1): self.edge((q, i), "SINK")
        pred = collections.defaultdict(set)
        for a, bs in self.succ.items():
            for b in bs: pred[b].add(a)
        seen = {"SINK": None}; st = collections.deque(["SINK"])
        while st:
            n = st.popleft()
            for m in pred[n]:
                if m not in seen: seen[m] = n; st.append(m)
        return seen

_CLAGG = {}
def passed(p, f, t, c):
    g = p.fns[c]
    m = _CLAGG.get(id(f))
    if m is None:
        m = {}
        for b in f.live_blocks():
            for st in f.stmts(b):
                if st[0] == "=" and st[2][0] == "agg" and isinstance(st[2][1], dict) and "closure" in st[2][1]:
                    m.setdefault(st[1][0], set()).add(st[2][1]["closure"])
        _CLAGG[id(f)] = m
    for o in t["args"]:
        if "p" in o and c in m.get(o["p"][0], ()): return True
        if o.get("c") == "zst" and "{closure@" in o.get("ty", ""):
            mm = re.search(r"\{closure@([^:}]+):(\d+)", o["ty"])
            if mm and int(mm.group(2)) == g.line or not mm: return True
    return False
