"""Which variants of an enum are possible where: a forward dataflow per function.

State of a block: {expression of enum type: set of possible variants}, joined by
union, refined on the edges of `match`/`if let`/`==` tests, partitioned (as in
sym.Facts) by the values of branch-deciding booleans so that `matches!` and
`||`/`&&` chains keep their information; calls of boolean helper functions of
the crate are refined by the helper's own regions."""
import collections, re
from sym import *
from mir import *

class Types:
    """enum types of expressions"""
    def __init__(self, p):
        self.p = p
        self.enums = {a: [v["name"] for v in d["variants"]] for a, d in p.adts.items() if d["kind"] == "enum"}
        self.discr = {a: {str(v["discr"]): v["name"] for v in d["variants"]} for a, d in p.adts.items() if d["kind"] == "enum"}
        self.ft = {}
        for a, d in p.adts.items():
            for v in d["variants"]:
                for x in v["fields"]: self.ft["%s.%s" % (a if d["kind"] == "struct" else a + "::" + v["name"], x[0])] = x[1]
    def raw(self, f, e):
        p = self.p
        if e[0] in ("arg", "loc"): return strip_refs(f.ty(e[1]))
        if e[0] == "fld":
            if e[2] in self.ft: return strip_refs(self.ft[e[2]])
            if e[2].startswith("std::option::Option::Some"):
                t = self.raw(f, e[1])
                m = t and re.match(r"std::option::Option<(.*)>$", t)
                return strip_refs(m.group(1)) if m else None
            m = re.match(r"\(\)\.(\d+)$", e[2])
        if e[0] == "as": return self.raw(f, e[1])
        if e[0] == "call" and e[1] in p.fns: return strip_refs(p.fns[e[1]].ty(0))
        if e[0] == "call" and len(e) > 3 and isinstance(e[3], int) and e[3] < len(f.blocks):
            t = f.term(e[3])
            if t["k"] == "call" and len(t["dest"]) == 1 and e[1] in (t.get("res"), t.get("f")): return strip_refs(f.ty(t["dest"][0]))
        return None
    def enum(self, f, e):
        t = self.raw(f, e)
        if not t: return None
        t = re.sub(r"<.*>$", "", t)
        if t.startswith("crate::"): t = t[7:]
        return t if t in self.enums else None

class Regions(Facts):
    def __init__(self, p, f, types, sym=None, helpers=None, depth=0):
        self.types = types; self.p = p; self.helpers = helpers; self.depth = depth
        self.bytype = {}
        super().__init__(f, sym)
    # -- the state is {expr: frozenset(variants)}
    def join(self, a, b):
        if a is b: return a
        return {k: a[k] | b[k] for k in a if k in b}
    def joinall(self, l):
        l = list(l)
        if not l: return {}
        o = l[0]
        for x in l[1:]: o = self.join(o, x)
        return o
    def transfer(self, b, part):
        f = self.f
        ks, mem = self.kcache[b]; tr = self.track
        upd = {}
        for st in f.stmts(b):
            if st[0] == "=" and len(st[1]) == 1 and st[1][0] in tr: upd[st[1][0]] = self.value(st[2])
            elif st[0] == "dead" and st[1] in tr: upd[st[1]] = None
        t = f.term(b)
        if t["k"] == "call" and len(t["dest"]) == 1 and t["dest"][0] in tr: upd[t["dest"][0]] = self.sym.call(b, t)
        if not ks and not mem and not upd: return part
        out = {}
        for key, s in part.items():
            s = {e: v for e, v in s.items() if not self.killed(e, ks, mem)}
            d = {l: v for l, v in key if not self.killed(v, ks, mem)}
            for l, v in upd.items():
                if v is not None and not mentions(v, ("loc", l)) and v[0] in ("c", "agg", "bin", "call", "un", "fld", "arg", "discr"): d[l] = v
                else: d.pop(l, None)
            k = frozenset(d.items())
            out[k] = s if k not in out else self.join(out[k], s)
        return out
    def sets(self, fact):
        """[(expr, possible variants)] of one branch fact"""
        e, v = fact
        T = self.types
        if e[0] == "discr":
            a = T.enum(self.f, e[1])
            if not a and e[1][0] == "call" and len(e[1][2]) == 1:
                pass
            if not a: return []
            self.bytype[e[1]] = a
            dm = T.discr[a]
            if isinstance(v, tuple): return [(e[1], frozenset(n for d, n in dm.items() if int(d) not in v[1]))]
            return [(e[1], frozenset(n for d, n in dm.items() if int(d) == v))]
        x = truth(fact)
        if x and x[0][0] == "call":
            n, args = x[0][1], x[0][2]
            if n.endswith("PartialEq>::eq") and len(args) == 2:
                for i in (0, 1):
                    c, o = args[i], args[1 - i]
                    if c[0] == "agg" and c[1] in T.enums and not c[3]:
                        self.bytype[o] = c[1]
                        s = frozenset([c[2]])
                        return [(o, s if x[1] else frozenset(T.enums[c[1]]) - s)]
            elif self.helpers and n in self.p.fns and self.p.fns[n].ty(0) == "bool" and self.depth < 3:
                out = []
                for e2, s in self.helpers(n, x[1], self.depth + 1):
                    y = subst(e2, {i + 1: a for i, a in enumerate(args)})
                    if y is not None:
                        a = self.helpers.types_of.get((n, e2))
                        if a: self.bytype[y] = a; out.append((y, s))
                return out
        return []
    def edge(self, fact, key, state):
        fs = self.refine(fact, dict(key))
        if fs is None: return None
        o = dict(state)
        for fa in fs:
            for e, s in self.sets(fa):
                n = o[e] & s if e in o else s
                if not n: return None
                o[e] = n
        return o
    def run(self):
        f = self.f
        order = self.rpo()
        self.track = self.tracked()
        if f.ty(0) == "bool": self.track.add(0)
        self.parts = {b: None for b in order}; self.parts[0] = {frozenset(): {}}
        self.kcache = {b: self.kills(b) for b in order}
        work = collections.deque([0]); inq = {0}; n = 0
        while work:
            n += 1
            if n > 40 * len(order) + 400: break
            b = work.popleft(); inq.discard(b)
            part = self.transfer(b, self.parts[b])
            t = f.term(b)
            byx = {}
            if t["k"] == "switch":
                e = self.sym.op(t["on"])
                vals = [int(v) for v, _ in t["targets"]]
                outs = [(x, (e, int(v))) for v, x in t["targets"]] + [(t["else"], (e, ("not", tuple(vals))))]
                for x, fact in outs:
                    for key, s in part.items():
                        o = self.edge(fact, key, s)
                        if o is None: continue
                        d = byx.setdefault(x, {})
                        d[key] = o if key not in d else self.join(d[key], o)
            else:
                for x in f.succ(b):
                    d = byx.setdefault(x, {})
                    for key, s in part.items(): d[key] = s if key not in d else self.join(d[key], s)
            for x, d in byx.items():
                old = self.parts[x]
                if old is None: new = dict(d)
                else:
                    new = dict(old)
                    if self.merged.get(x): d = {frozenset(): self.joinall(d.values())}
                    for key, s in d.items(): new[key] = s if key not in new else self.join(new[key], s)
                if len(new) > self.MAXPART or self.merged.get(x):
                    self.merged[x] = True
                    new = {frozenset(): self.joinall(new.values())}
                if new != old:
                    self.parts[x] = new
                    if x not in inq: work.append(x); inq.add(x)
        self.inn = {b: self.joinall((self.parts[b] or {}).values()) for b in order}
    def at(self, b): return self.inn.get(b) or {}
    def reached(self, b): return bool(self.parts.get(b))

class All:
    """regions of every function of the program"""
    def __init__(self, p):
        self.p = p; self.types = Types(p); self.memo = {}; self.hm = {}; self.types_of = {}
        self.w = World(p)
    def __call__(self, n, want, depth):
        """the enum sets implied by the boolean helper n returning `want`"""
        k = (n, want)
        if k in self.hm: return self.hm[k]
        self.hm[k] = []
        f = self.p.fns[n]
        if len(f.blocks) > 60: return []
        r = self.of(n, depth)
        acc = []
        for b in f.reachable():
            if f.term(b)["k"] != "return" or not r.parts.get(b): continue
            for key, s in r.parts[b].items():
                v = dict(key).get(0)
                o = s
                if v is not None:
                    neg = False
                    while v[0] == "un": neg = not neg; v = v[2]
                    if v[0] == "c":
                        if ((str(v[2]) in ("1", "true")) != neg) != want: continue
                    else:
                        o = r.edge((v, 1 if want != neg else 0), key, s)
                        if o is None: continue
                acc.append(o)
        if not any(f.ty(0) == "bool" for _ in (0,)): return []
        # a function that returns an expression directly
        out = []
        if acc:
            j = r.joinall(acc)
            for e, s in j.items():
                a = r.bytype.get(e)
                if a and s < frozenset(self.types.enums[a]): out.append((e, s)); self.types_of[(n, e)] = a
        self.hm[k] = out
        return out
    def of(self, q, depth=0):
        if q not in self.memo: self.memo[q] = Regions(self.p, self.p.fns[q], self.types, self.w.sym(q), self, depth)
        return self.memo[q]
    def sets_at(self, q, b):
        """[(enum, expr, possible variants)] known at block b, proper subsets only"""
        r = self.of(q); out = []
        for e, s in r.at(b).items():
            a = r.bytype.get(e)
            if a and s < frozenset(self.types.enums[a]): out.append((a, e, s))
        return out
