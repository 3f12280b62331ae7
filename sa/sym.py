"""Per-function symbolic values and must-hold branch facts over MIR.

Sym(f).expr(operand) gives a canonical expression of a value:
  ('arg', i) ('c', type, value) ('fld', e, 'Owner.field') ('as', e, variant)
  ('call', callee, args, block) ('bin', op, a, b) ('un', op, a) ('discr', e)
  ('agg', adt, variant, args) ('loc', l)   -- l has several definitions
References, dereferences, moves, widening casts and a list of
identity-like library calls are transparent.

facts(f): block -> frozenset of facts that hold on every path to the block:
  (expr, value)            branch on expr took the edge `value` (int)
  (expr, ('not', values))  the `otherwise` edge
"""
import collections
from mir import *

TRANSPARENT = ("::deref", "::deref_mut", "::borrow", "::as_ref", "::as_mut", "::as_str", "::clone", "::cloned", "::copied", "::to_owned", "::into", "::from",
               "::to_string", "::as_deref", "::as_slice", "::as_mut_slice", "::into_iter", "::as_deref_mut", "::to_vec", "::into_string", "::into_boxed_str")

class Sym:
    def __init__(self, f):
        self.f = f
        self.defs = collections.defaultdict(list)
        for b in f.reachable():
            if f.cleanup(b): continue
            for i, st in enumerate(f.stmts(b)):
                if st[0] == "=" and len(st[1]) == 1: self.defs[st[1][0]].append((b, i, st[2]))
            t = f.term(b)
            if t["k"] == "call" and len(t["dest"]) == 1: self.defs[t["dest"][0]].append((b, -1, t))
        self.partial = set()
        for b in f.reachable():
            for st in f.stmts(b):
                if st[0] == "=" and len(st[1]) > 1 and "*" not in st[1][1:]: self.partial.add(st[1][0])
        self.mut = f.mutref_locals()
        self.memo = {}

    def local(self, l):
        if l in self.memo: return self.memo[l]
        f = self.f
        d = self.defs.get(l, [])
        if 1 <= l <= f.nargs:
            r = ("arg", l) if not d and (l not in self.mut or True) and l not in self.partial else ("loc", l)
            if d: r = ("loc", l)
        elif len(d) != 1 or l in self.partial: r = ("loc", l)
        elif l in self.mut and not f.ty(l).startswith("&"):
            r = ("loc", l)
        else:
            self.memo[l] = ("loc", l)     # cycles
            b, i, rv = d[0]
            r = self.call(b, rv) if i < 0 else self.rv(rv)
        self.memo[l] = r
        return r

    def place(self, pl):
        e = self.local(pl[0])
        for x in pl[1:]:
            if x == "*": continue
            if x[0] == "as":
                if e[0] == "agg" and e[2] == x[1]: continue
                e = ("as", e, x[1])
            elif x[0] in ("#", "##"):
                e = ("idx", e, self.local(x[1]) if x[0] == "#" else x[1])
            elif x[0] in ("sub", "?"): e = ("fld", e, x[0])
            else:
                if e[0] == "agg":
                    fs = e[4]
                    if x[1] in fs:
                        e = e[3][fs.index(x[1])]; continue
                if e[0] == "c" and x[0] == "()":
                    e = e if x[1] == "0" else ("c", "bool", "0"); continue
                if e[0] == "bin" and x[0] == "()":       # checked arithmetic
                    e = e if x[1] == "0" else ("ovf", e); continue
                e = ("fld", e, fkey(x))
        return e

    def op(self, o):
        if "p" in o: return self.place(o["p"])
        k = o["c"]
        if k == "int" or k == "float": return ("c", o.get("ty", k), o["v"])
        if k == "str": return ("c", "str", o["v"])
        if k == "fn": return ("fn", o.get("res") or o["f"])
        if k == "promoted":
            pf = self.f.program.promoted.get((o.get("of"), o.get("idx")))
            if pf is not None and pf is not self.f:
                e = Sym(pf).local(0)
                if not any(x[0] == "loc" for x in subexprs(e)): return e
            return ("promoted", o.get("of"), o.get("idx"))
        return ("c", o.get("ty", k), o.get("v", k))

    def rv(self, rv):
        k = rv[0]
        if k == "use": return self.op(rv[1])
        if k == "ref": return self.place(rv[2])
        if k == "cast": return self.op(rv[1])
        if k == "bin":
            o, x, y = rv[1].replace("WithOverflow", "").replace("Unchecked", ""), self.op(rv[2]), self.op(rv[3])
            if o in ("Add", "Sub", "Mul") and x[0] == y[0] == "c":
                try:
                    i, j = int(x[2]), int(y[2])
                    return ("c", x[1], str(i + j if o == "Add" else i - j if o == "Sub" else i * j))
                except ValueError: pass
            return ("bin", o, x, y)
        if k == "un": return ("un", rv[1], self.op(rv[2]))
        if k == "discr": return ("discr", self.place(rv[1]))
        if k == "agg":
            a = tuple(self.op(x) for x in rv[2])
            if isinstance(rv[1], dict):
                if "closure" in rv[1]: return ("closure", rv[1]["closure"], a)
                return ("agg", rv[1]["adt"], rv[1].get("variant"), a, tuple(str(x) for x in rv[1].get("fields", range(len(a)))))
            return ("agg", rv[1], None, a, tuple(str(i) for i in range(len(a))))
        return ("?", k)

    def call(self, b, t):
        n = t.get("res") or t.get("f") or "?"
        a = tuple(self.op(x) for x in t["args"])
        if a and len(a) == 1 and (not t.get("local") or n.endswith("std::clone::Clone>::clone")) and any(n.endswith(x) for x in TRANSPARENT): return a[0]
        if n.endswith("PartialEq::ne") and t.get("targs") and len(set(t["targs"])) == 1:
            return ("un", "Not", ("call", "<%s as std::cmp::PartialEq>::eq" % t["targs"][0], a, b))
        if n.endswith(">::ne") and "PartialEq" in n: return ("un", "Not", ("call", n[:-2] + "eq", a, b))
        return ("call", n, a, b)

def subexprs(e):
    yield e
    for x in e:
        if isinstance(x, tuple):
            if x and isinstance(x[0], str): yield from subexprs(x)
            else:
                for y in x:
                    if isinstance(y, tuple): yield from subexprs(y)

def mentions(e, p):
    return any(x == p for x in subexprs(e))

TOP = None

class Facts:
    """must-hold branch facts"""
    def __init__(self, f, sym=None, expand=None):
        self.f = f; self.sym = sym or Sym(f); self.expand = expand; self.merged = {}
        self.run()

    def kills(self, b):
        """expressions whose value may change in block b"""
        f = self.f; ks = set(); mem = []
        for st in f.stmts(b):
            if st[0] == "=":
                if len(st[1]) == 1: ks.add(("loc", st[1][0]))
                else:
                    ks.add(("loc", st[1][0])); mem.append(self.sym.place(st[1]))
        t = f.term(b)
        if t["k"] == "call":
            ks.add(("blk", b)); ks.add(("loc", t["dest"][0]))
            if len(t["dest"]) > 1: mem.append(self.sym.place(t["dest"]))
            # deref_mut only reborrows: its result is followed to where it is used
            for o in t["args"] if not (t.get("f") or "").endswith("::deref_mut") else ():
                if "p" in o and f.ty(o["p"][0]).startswith("&mut"): mem.append(self.sym.op(o))
                if "p" in o and o["p"][0] in self.sym.mut: ks.add(("loc", o["p"][0]))
        return ks, mem

    def killed(self, e, ks, mem):
        for x in subexprs(e):
            if x[0] == "loc" and (x in ks or x in mem): return True
            if x[0] == "call" and ("blk", x[3]) in ks: return True
            if x[0] in ("fld", "idx", "call", "as"):
                if any(x == m for m in mem) or x[0] == "fld" and any(m in list(subexprs(x))[1:] for m in mem if m[0] != "c"): return True
        return False

    MAXPART = 24
    def tracked(self):
        """locals with several definitions that are branched on: their symbolic
        value distinguishes the partitions of the state"""
        f = self.f; out = set()
        for b in f.reachable():
            t = f.term(b)
            if t["k"] != "switch": continue
            e = self.sym.op(t["on"])
            while e[0] == "un" or e[0] == "discr": e = e[2] if e[0] == "un" else e[1]
            while e[0] == "call" and len(e[2]) >= 1 and wrapper(e[1]): e = e[2][0]
            if e[0] == "loc" and e[1] not in self.sym.partial and (e[1] > f.nargs or e[1] == 0): out.add(e[1])
        for b, t in f.calls(): pass
        if f.ty(0) == "bool" or f.ty(0).startswith(("std::result::Result", "std::option::Option")):
            e = self.sym.local(0)
            for b in f.reachable():
                for st in f.stmts(b):
                    if st[0] == "=" and st[1] == [0]:
                        x = self.sym.rv(st[2])
                        while x[0] == "un": x = x[2]
                        if x[0] == "loc" and x[1] > f.nargs: out.add(x[1])
                t = f.term(b)
                if t["k"] == "call" and t["dest"] == [0]:
                    x = self.sym.call(b, t)
                    while x[0] == "call" and x[2] and wrapper(x[1]): x = x[2][0]
                    while x[0] == "un": x = x[2]
                    if x[0] == "loc" and x[1] > f.nargs: out.add(x[1])
        return out

    def value(self, rv):
        e = self.sym.rv(rv)
        return e

    def transfer(self, b, part):
        """{key: facts} through the statements of b"""
        f = self.f
        ks, mem = self.kcache[b]
        tr = self.track
        upd = {}
        for st in f.stmts(b):
            if st[0] == "=" and len(st[1]) == 1 and st[1][0] in tr: upd[st[1][0]] = self.value(st[2])
            elif st[0] == "dead" and st[1] in tr: upd[st[1]] = None
        t = f.term(b)
        if t["k"] == "call" and len(t["dest"]) == 1 and t["dest"][0] in tr: upd[t["dest"][0]] = self.sym.call(b, t)
        if not ks and not mem and not upd: return part
        out = {}
        for key, s in part.items():
            s = frozenset(x for x in s if not self.killed(x[0], ks, mem))
            d = {l: v for l, v in key if not self.killed(v, ks, mem)}
            for l, v in upd.items():
                if v is not None and not mentions(v, ("loc", l)) and v[0] in ("c", "agg", "bin", "call", "un", "fld", "arg", "discr") :
                    # the value must not be changed by the rest of the block: its operands are not redefined here
                    d[l] = v
                else: d.pop(l, None)
            k = frozenset(d.items())
            out[k] = s if k not in out else out[k] & s
        return out

    def run(self):
        f = self.f
        order = self.rpo(); pos = {b: i for i, b in enumerate(order)}
        self.track = self.tracked()
        self.parts = {b: None for b in order}; self.parts[0] = {frozenset(): frozenset()}
        self.edgefacts = {}
        self.kcache = {b: self.kills(b) for b in order}
        work = collections.deque([0]); inq = {0}
        while work:
            b = work.popleft(); inq.discard(b)
            part = self.transfer(b, self.parts[b])
            t = f.term(b)
            byx = {}
            if t["k"] == "switch":
                e = self.sym.op(t["on"])
                vals = [int(v) for v, _ in t["targets"]]
                outs = [(x, (e, int(v))) for v, x in t["targets"]] + [(t["else"], (e, ("not", tuple(vals))))]
                for x, fact in outs:
                    for key, s in part.items():
                        fs = self.refine(fact, dict(key))
                        if fs is None: continue
                        o = s | (self.expand(fs) if self.expand else fs)
                        d = byx.setdefault(x, {})
                        d[key] = o if key not in d else d[key] & o
            else:
                for x in f.succ(b):
                    d = byx.setdefault(x, {})
                    for key, s in part.items(): d[key] = s if key not in d else d[key] & s
            for x, d in byx.items():
                self.edgefacts[(b, x)] = d
                old = self.parts[x]
                if old is None: new = dict(d)
                else:
                    new = dict(old)
                    if self.merged.get(x): d = {frozenset(): frozenset.intersection(*d.values())}
                    for key, s in d.items(): new[key] = s if key not in new else new[key] & s
                if len(new) > self.MAXPART or self.merged.get(x):
                    self.merged[x] = True
                    new = {frozenset(): frozenset.intersection(*new.values())}
                if new != old:
                    self.parts[x] = new
                    if x not in inq: work.append(x); inq.add(x)
        self.inn = {b: frozenset.intersection(*d.values()) if d else frozenset() for b, d in ((b, self.parts[b] or {}) for b in order)}

    def refine(self, fact, key):
        """facts of an edge, using the partition's values; None if infeasible"""
        out = {fact}; e, v = fact
        def put(e, v):
            out.add((e, v))
            x = e; tv = truth((e, v))
            if tv is not None:
                x, b = tv
                if x[0] == "c": return (str(x[2]) in ("1", "true")) == b
                if x[0] == "loc" and x[1] in key: return put(key[x[1]], 1 if b else 0)
            if e[0] == "discr":
                x = e[1]; 
                if x[0] == "loc" and x[1] in key:
                    val = key[x[1]]
                    if val[0] == "agg" and val[2] is not None: return variant_is(val[2], v)
                    return put(("discr", val), v)
                if x[0] == "agg" and x[2] is not None: return variant_is(x[2], v)
                if x[0] == "call" and x[2] and wrapper(x[1]):
                    for y, w in unwrap(("discr", x), v):
                        if put(y, w) is False: return False
            return True
        if put(e, v) is False: return None
        return out

    def rpo(self):
        f = self.f; seen = set(); out = []
        st = [(0, iter(f.succ(0)))]; seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen: seen.add(s); st.append((s, iter(f.succ(s)))); break
            else: out.append(b); st.pop()
        return out[::-1]

    def at(self, b):
        """facts at the end of block b before its terminator (statement kills applied)"""
        return self.inn.get(b) or frozenset()

VAR = {"Ok": 0, "Err": 1, "None": 0, "Some": 1, "Continue": 0, "Break": 1}
def variant_is(name, v):
    """can a value of variant `name` have the discriminant fact v? (Option/Result/ControlFlow only)"""
    if name not in VAR: return True
    return VAR[name] not in v[1] if isinstance(v, tuple) else VAR[name] == v

def wrapper(n):
    return n.endswith(("::branch", "::map_err", "::or_else", "::map", "::ok_or", "::ok_or_else", "::ok", "::then_some", "::then", "::is_some", "::is_none", "::is_ok", "::is_err",
                       "::and_then"))

def two(v):
    """discriminant fact as 0/1 or None"""
    if isinstance(v, tuple): return 1 if v[1] == (0,) else 0 if v[1] == (1,) else None
    return v if v in (0, 1) else None

def unwrap(e, v):
    """simpler facts that a fact about a library wrapper implies"""
    out = []
    if e[0] == "discr" and e[1][0] == "call" and e[1][2]:
        n, a = e[1][1], e[1][2]; w = two(v); m = n.rsplit("::", 1)[-1]
        if w is None: return out
        opt = "Option" in n.split(" as ")[0]
        if m == "branch": out.append((("discr", a[0]), 1 - w if opt else w))
        elif m in ("map", "map_err", "or_else"):
            if m != "or_else" or w: out.append((("discr", a[0]), w))
        elif m == "and_then":
            if w == (1 if opt else 0): out.append((("discr", a[0]), w))
        elif m in ("ok_or", "ok_or_else"): out.append((("discr", a[0]), 1 - w))
        elif m == "ok": out.append((("discr", a[0]), 1 - w))
        elif m in ("then_some", "then") and "bool" in n: out.append((a[0], w))
    t = truth((e, v))
    if t and t[0][0] == "bin" and t[0][1] in NEG:
        (_, op, a, b), tv = t
        if not tv: op = NEG[op]
        if a[0] == "c" and b[0] != "c": a, b, op = b, a, SWAP[op]
        if b[0] == "c" and op in ("Le", "Gt"):
            try: b = ("c", b[1], str(int(b[2]) + 1)); op = {"Le": "Lt", "Gt": "Ge"}[op]
            except ValueError: pass
        elif b[0] != "c" and op in ("Gt", "Ge"): a, b, op = b, a, SWAP[op]
        if (op, a, b) != t[0][1:] or v != 1: out.append((("bin", op, a, b), 1))
    elif t and (t[0] != e or v not in (0, 1)): out.append((t[0], 1 if t[1] else 0))
    if t and t[0][0] == "call" and t[0][2]:
        x, b = t; n = x[1]; m = n.rsplit("::", 1)[-1]; a = x[2]
        if m in ("is_some", "is_err"): out.append((("discr", a[0]), 1 if b else 0))
        elif m in ("is_none", "is_ok"): out.append((("discr", a[0]), 0 if b else 1))
        elif m in ("lt", "le", "gt", "ge", "eq", "ne") and ("PartialOrd" in n or "PartialEq" in n) and len(a) == 2:
            out.append((("bin", m.capitalize(), a[0], a[1]), 1 if b else 0))
        if m in ("eq", "ne") and len(a) == 2:
            for c, k in ((a[0], a[1]), (a[1], a[0])):
                if k[0] == "agg" and k[2] in ("Less", "Equal", "Greater") and c[0] == "call" and c[1].endswith("::cmp") and len(c[2]) == 2:
                    pos = {"Less": ("Lt", "Ge"), "Equal": ("Eq", "Ne"), "Greater": ("Gt", "Le")}[k[2]]
                    out.append((("bin", pos[0 if (m == "eq") == b else 1], c[2][0], c[2][1]), 1))
        if m == "contains" and len(a) == 2 and "Range" in n and b:
            r = a[0]
            if r[0] == "agg" and r[1].startswith("std::ops::Range"):
                d = dict(zip(r[4], r[3]))
                if "start" in d: out.append((("bin", "Ge", a[1], d["start"]), 1))
                if "end" in d: out.append((("bin", "Le" if "Inclusive" in r[1] else "Lt", a[1], d["end"]), 1))
            elif r[0] == "call" and r[1].endswith("RangeInclusive::<Idx>::new") and len(r[2]) == 2:
                out.append((("bin", "Ge", a[1], r[2][0]), 1)); out.append((("bin", "Le", a[1], r[2][1]), 1))
    # ordering of two values
    x, w = e, v
    if x[0] == "discr" and x[1][0] == "call" and x[1][1].endswith(("::cmp", "::partial_cmp")) and len(x[1][2]) == 2:
        a, b = x[1][2]
        def sg(z): return {0: "Eq", 1: "Gt"}.get(z, "Lt" if z in (-1, 255) or z > 1 else None)
        if isinstance(w, tuple):
            left = {"Lt", "Eq", "Gt"} - {sg(z) for z in w[1]}
            op = {frozenset(("Lt", "Eq")): "Le", frozenset(("Gt", "Eq")): "Ge", frozenset(("Lt", "Gt")): "Ne", frozenset(("Lt",)): "Lt", frozenset(("Gt",)): "Gt", frozenset(("Eq",)): "Eq"}.get(frozenset(left))
        else: op = sg(w)
        if op: out.append((("bin", op, a, b), 1))
    return out

def truth(fact):
    """(expr, bool) of a boolean fact, negations unfolded; None if not boolean"""
    e, v = fact
    if isinstance(v, tuple): v = 1 if v[1] == (0,) else 0 if v[1] == (1,) else None
    if v not in (0, 1): return None
    while e[0] == "un" and e[1] == "Not": e = e[2]; v = 1 - v
    return e, bool(v)

NEG = {"Lt": "Ge", "Ge": "Lt", "Gt": "Le", "Le": "Gt", "Eq": "Ne", "Ne": "Eq"}
SWAP = {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le", "Eq": "Eq", "Ne": "Ne"}

def comparisons(fact):
    """[(op, a, b)] implied by a fact, in both orientations"""
    t = truth(fact)
    if t is None: return []
    e, v = t
    if e[0] == "bin" and e[1] in NEG:
        op = e[1] if v else NEG[e[1]]
        return [(op, e[2], e[3]), (SWAP[op], e[3], e[2])]
    return []

def subst(e, m):
    """replace ('arg', i) by m[i]; None if an argument is missing"""
    if e[0] == "arg": return m.get(e[1])
    out = []
    for x in e:
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                y = subst(x, m)
                if y is None: return None
                out.append(y)
            else:
                ys = []
                for z in x:
                    if isinstance(z, tuple):
                        z = subst(z, m)
                        if z is None: return None
                    ys.append(z)
                out.append(tuple(ys))
        else: out.append(x)
    # projections of aggregates
    if out[0] == "fld" and out[1][0] == "agg":
        n = out[2].rsplit(".", 1)[-1]
        if n in out[1][4]: return out[1][3][out[1][4].index(n)]
    return tuple(out)

class World:
    """facts of all functions, and what the outcome of a call implies"""
    def __init__(self, p):
        self.p = p; self._f = {}; self._s = {}; self._t = {}; self._busy = set(); self._imp = {}; self._exp = {}
        self._fix = {}; self._rec = False
        for th in sorted(p.trait_impls):
            if th.split("::")[0] in ("std", "core", "alloc", "serde", "chrono") or len(p.trait_impls[th]) < 2: continue
            ms = sorted({m for d in p.trait_impls[th].values() for m in d})
            for m in ms:
                n = th + "::" + m; gs = self.targets(n)
                if len(gs) < 2: continue
                t0 = p.fns[gs[0]].ty(0)
                for want in ("ok",) if "Result<" in t0 else (True, False) if t0 == "bool" else (): self.fixpoint(n, want)
    def clear(self):
        self._imp = dict(self._fix); self._f = {}; self._exp = {}
    def fixpoint(self, n, want):
        """summary of a trait method whose implementations may call it again: the
        greatest set of facts that every implementation establishes, assuming it
        of the (shallower) calls inside"""
        k = (n, want); self.clear(); self._imp[k] = None
        res = None
        for g in self.targets(n):
            self._rec = False; s = self.implied1(g, want)
            if self._rec: self.clear(); self._imp[k] = None; continue
            res = s if res is None else res & s
        res = res or frozenset()
        while True:
            self.clear(); self._imp[k] = res; new = res
            for g in self.targets(n): new = new & self.implied1(g, want)
            if new == res: break
            res = new
        self._fix[k] = res; self.clear()
    def facts(self, path):
        if path not in self._f:
            self._busy.add(path)
            self._f[path] = Facts(self.p.fns[path], self.sym(path), self.expand)
            self._busy.discard(path)
        return self._f[path]
    def sym(self, path):
        if path not in self._s: self._s[path] = Sym(self.p.fns[path])
        return self._s[path]
    def targets(self, n):
        """functions a callee name can stand for: itself, or the crate's implementations of a trait method"""
        if n not in self._t:
            out = []
            if "::" in n:
                h, m = n.rsplit("::", 1)
                for d in self.p.trait_impls.get(h, {}).values():
                    if m in d and d[m] in self.p.fns: out.append(d[m])
            if n in self.p.fns: out.append(n)
            self._t[n] = out
        return self._t[n]

    def ret_defs(self, path):
        """[(block, expr of _0, facts there)], one entry per partition"""
        fa = self.facts(path); f = fa.f; out = []
        for b in fa.rpo():
            es = [fa.sym.rv(st[2]) for st in f.stmts(b) if st[0] == "=" and st[1] == [0]]
            t = f.term(b)
            if t["k"] == "call" and t["dest"] == [0] and t["to"] >= 0: es.append(fa.sym.call(b, t))
            if not es: continue
            for key, s in (fa.transfer(b, fa.parts[b] or {})).items():
                for e in es: out.append((b, e, s, dict(key)))
        return out

    def outcome(self, e, want):
        """facts implied by expression e having the outcome `want` (None: impossible)
        want: True/False for bools, 'ok'/'err' for Result, 'some'/'none' for Option"""
        if want in (True, False):
            if e[0] == "c": return set() if (str(e[2]) in ("1", "true")) == want else None
            return {(e, 1 if want else 0)}
        if e[0] == "agg" and e[2] in ("Ok", "Err", "Some", "None"):
            return set() if e[2].lower() == want else None
        if e[0] == "call":
            if e[1].endswith("::from_residual"): return set() if want in ("err", "none") else None
            idx = {"ok": 0, "err": 1, "none": 0, "some": 1}[want]
            return {(("discr", e), idx)}
        idx = {"ok": 0, "err": 1, "none": 0, "some": 1}[want]
        return {(("discr", e), idx)}

    def implied(self, path, want):
        """facts over ('arg', i) that hold whenever path returns `want` ('ret': returns at all)"""
        k = (path, want)
        if k in self._imp:
            if self._imp[k] is None: self._rec = True; return frozenset()
            return self._imp[k]
        if path in self._busy: return frozenset()
        self._imp[k] = frozenset()
        res = None
        if path not in self.p.fns or len(self.targets(path)) > 1:
            for g in self.targets(path):
                if g == path: s = self.implied1(g, want)
                else: s = self.implied(g, want)
                res = s if res is None else res & s
            self._imp[k] = res or frozenset()
            return self._imp[k]
        self._imp[k] = self.implied1(path, want)
        return self._imp[k]

    def implied1(self, path, want):
        res = None
        if True:
            f = self.p.fns[path]
            if want == "ret":
                fa = self.facts(path)
                for b in fa.rpo():
                    if f.term(b)["k"] == "return":
                        s = self.expand(fa.at(b)); res = s if res is None else res & s
            else:
                for b, e, s, key in self.ret_defs(path):
                    o = self.outcome(e, want)
                    if o is None: continue
                    for fact in list(o):
                        x = self.facts(path).refine(fact, key)
                        if x is None: o = None; break
                        o |= x
                    if o is None: continue
                    s = self.expand(s | o)
                    res = s if res is None else res & s
        def clean(e):
            return all(x[0] not in ("loc",) for x in subexprs(e))
        return frozenset(x for x in (res or ()) if clean(x[0]))

    def call_outcomes(self, fact):
        """[(callee, args, want)] that a branch fact reveals"""
        e, v = fact
        out = []
        t = truth(fact)
        if t:
            x, tv = t
            if x[0] == "call" and self.targets(x[1]): out.append((x[1], x[2], tv))
            if x[0] == "call" and x[2] and x[2][0][0] == "call" and self.targets(x[2][0][1]):
                n = x[1].rsplit("::", 1)[-1]; c = x[2][0]
                w = {"is_err": ("ok", "err"), "is_ok": ("err", "ok"), "is_some": ("none", "some"), "is_none": ("some", "none")}.get(n)
                if w: out.append((c[1], c[2], w[1] if tv else w[0]))
        if e[0] == "discr":
            x = e[1]
            if isinstance(v, tuple):
                v = 1 if v[1] == (0,) else 0 if v[1] == (1,) else None
            br = False
            if x[0] == "call" and x[1].endswith("::branch") and x[2]: x = x[2][0]; br = True
            while x[0] == "call" and x[1].endswith(("::map_err", "::or_else", "::map", "::ok_or", "::ok_or_else")) and x[2]: x = x[2][0]
            if x[0] == "call" and self.targets(x[1]) and v in (0, 1):
                ty = self.p.fns[self.targets(x[1])[0]].ty(0)
                if "Option<" in ty.split("Result")[0]:
                    # Continue = Some
                    out.append((x[1], x[2], ("some", "none")[v] if br else ("none", "some")[v]))
                elif "Result<" in ty: out.append((x[1], x[2], ("ok", "err")[v]))
        return out

    def expand(self, facts):
        """close a set of facts under the summaries of the calls it tests"""
        key = frozenset(facts)
        if key in self._exp: return self._exp[key]
        res = set(facts); work = list(facts); n = 0
        while work and n < 400:
            fa = work.pop(); n += 1
            for x in unwrap(*fa):
                if x not in res: res.add(x); work.append(x)
            for g, args, want in self.call_outcomes(fa):
                m = {i + 1: a for i, a in enumerate(args)}
                for e, v in self.implied(g, want):
                    x = subst(e, m)
                    if x is not None and (x, v) not in res:
                        res.add((x, v)); work.append((x, v))
        res = frozenset(res)
        self._exp[key] = res
        return res

    def at(self, path, b): return self.expand(self.facts(path).at(b))
