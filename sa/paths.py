"""Interprocedural access paths: which field path (from a root type) a value was
reached through. Containers, references, iterators and clones are transparent, so
`for s in &chart.series { f(&s.title.range) }` calls f with Chart.series.title.range.
A value whose origin is not a path (a copy collected into a new vector, say) falls
back to the root of its own type."""
import collections, re
from mir import *

class Paths:
    def __init__(self, p, adts, roots):
        """adts: the struct types that are followed; roots: {field key: root name} fields at which a path starts anew"""
        self.p = p; self.adts = set(adts); self.roots = roots
        self.rx = re.compile("|".join(r"\b" + re.escape(a) + r"\b" for a in sorted(self.adts, key=len, reverse=True)))
        self.args = collections.defaultdict(lambda: collections.defaultdict(set))   # fn -> local -> paths
        self.up = collections.defaultdict(lambda: collections.defaultdict(set))     # closure -> upvar index -> paths
        self.loc = {}
        self.work = collections.deque(); self.inq = set()
    def rel(self, ty):
        m = self.rx.search(ty or "")
        return m.group(0) if m else None
    def place(self, f, L, pl):
        """paths of a place; L: local -> paths"""
        base = set(L.get(pl[0], ())); rest = pl[1:]
        if pl[0] == 1 and f.path in self.up or "{closure" in f.path and pl[0] == 1:
            for i, x in enumerate(rest):
                if x != "*" and is_field(x) and x[1].isdigit():
                    base = set(self.up[f.path].get(int(x[1]), ())); rest = rest[i + 1:]; break
        for x in rest:
            if x == "*" or not is_field(x): continue
            k = fkey(x)
            if k in self.roots: base = {(self.roots[k],)}; continue
            owner = x[0]
            if owner in ("()",) or owner.startswith(("std::", "core::", "alloc::")): continue
            base = {q + (x[1],) if len(q) < 9 else q for q in base}
        return base
    def typeroot(self, ty):
        a = self.rel(ty)
        return {("T:" + a,)} if a else set()
    def analyse(self, q):
        """one function: local paths to a fixpoint, then push to callees"""
        f = self.p.fns[q]; L = {l: set(s) for l, s in self.args[q].items()}
        def add(l, s):
            if s and not s <= L.setdefault(l, set()): L[l] |= s; return True
            return False
        ch = True; n = 0
        while ch and n < 12:
            ch = False; n += 1
            for b in sorted(f.reachable()):
                if f.cleanup(b): continue
                for st in f.stmts(b):
                    if st[0] != "=": continue
                    rv = st[2]; src = []
                    if rv[0] == "ref": src = [rv[2]]
                    else: src = [x["p"] for x in rv_operands(rv) if "p" in x]
                    s = set()
                    for pl in src: s |= self.place(f, L, pl)
                    if rv[0] == "agg" and isinstance(rv[1], dict) and "closure" in rv[1]:
                        c = rv[1]["closure"]
                        for i, x in enumerate(rv_operands(rv)):
                            if "p" in x:
                                ps = self.place(f, L, x["p"])
                                if ps and not ps <= self.up[c][i]: self.up[c][i] |= ps; self.push(c)
                        continue
                    if rv[0] in ("bin", "un", "discr"): continue
                    if rv[0] == "agg" and isinstance(rv[1], dict) and rv[1].get("adt") in self.adts: s = set()   # a new object
                    if s and len(st[1]) == 1: ch |= add(st[1][0], s)
                    elif s and len(st[1]) > 1 and not self.rel(f.ty(st[1][0])): ch |= add(st[1][0], s)
                t = f.term(b)
                if t["k"] != "call": continue
                d = t["dest"][0]; dty = f.ty(d)
                aps = [self.place(f, L, x["p"]) if "p" in x else set() for x in t["args"]]
                n_ = t.get("res") or t.get("f") or ""
                if n_.endswith("mem::swap") and len(aps) == 2:
                    for i in (0, 1):
                        ch |= self.back(f, L, t["args"][i], aps[1 - i], add)
                    continue
                local = n_ in self.p.fns and not n_.endswith("::clone")
                s = set()
                if not local:
                    for x in aps: s |= x
                elif self.rel(dty): s = self.typeroot(dty)
                else:
                    for x in aps[:1]: s |= x
                if s and len(t["dest"]) == 1: ch |= add(d, s)
        old = self.loc.get(q)
        self.loc[q] = L
        for b in f.reachable():
            if f.cleanup(b): continue
            t = f.term(b)
            if t["k"] != "call": continue
            n_ = t.get("res") or t.get("f") or ""
            aps = [self.place(f, L, x["p"]) if "p" in x else set() for x in t["args"]]
            for i, s in enumerate(aps): pass
            if n_ in self.p.fns:
                g = self.p.fns[n_]
                for i, s in enumerate(aps):
                    ty = g.ty(i + 1)
                    if not self.rel(ty): continue
                    if not s: s = self.typeroot(ty)
                    if not s <= self.args[n_][i + 1]: self.args[n_][i + 1] |= s; self.push(n_)
            else:
                rs = set().union(*aps) if aps else set()
                for x in t["args"]:
                    if "p" not in x: continue
                    m = re.findall(r"\{closure[^}]*\}", "")
                for c in self.closure_args(f, t):
                    g = self.p.fns.get(c)
                    if not g: continue
                    for i in range(2, g.nargs + 1):
                        if self.rel(g.ty(i)):
                            s = rs or self.typeroot(g.ty(i))
                            if not s <= self.args[c][i]: self.args[c][i] |= s; self.push(c)
        return L
    def closure_args(self, f, t):
        import sym
        out = []
        sy = self.syms.setdefault(f.path, sym.Sym(f)) if hasattr(self, "syms") else None
        if sy is None: self.syms = {}; sy = self.syms.setdefault(f.path, sym.Sym(f))
        for x in t["args"]:
            e = sy.op(x)
            if e[0] == "closure": out.append(e[1])
            elif e[0] == "fn" and e[1] in self.p.fns: out.append(e[1])
        return out
    def back(self, f, L, o, s, add):
        """the object behind a mutable reference gets the paths too"""
        ch = False
        if "p" not in o: return False
        l = o["p"][0]
        for b in f.reachable():
            for st in f.stmts(b):
                if st[0] == "=" and st[1] == [l]:
                    rv = st[2]
                    if rv[0] == "ref": 
                        if len([x for x in rv[2][1:] if x != "*"]) == 0: ch |= add(rv[2][0], s)
                    elif rv[0] == "use" and "p" in rv[1] and rv[1]["p"][0] != l: ch |= self.back(f, L, rv[1], s, add)
        return ch
    def push(self, q):
        if q in self.p.fns and q not in self.inq: self.work.append(q); self.inq.add(q)
    def run(self, starts, within=None):
        for q, l, s in starts:
            self.args[q][l] |= s; self.push(q)
        n = 0
        while self.work and n < 20000:
            n += 1
            q = self.work.popleft(); self.inq.discard(q)
            if within is not None and q not in within: continue
            self.analyse(q)
