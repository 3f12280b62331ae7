"""Effect and liveness analysis of all public setters over MIR. For every public
method that changes an object (by value or through &mut self): (1) every
parameter is stored: the values derived from it reach a field of the object, a
collection in it, or a parameter of another method of it for which the same
holds, or decide what is stored; (2) every path to a return that is neither an
error nor decided by the parameters themselves passes such a store; (3) the
method changes something; (4) every field that setters write is live: a
whole-program value and control flow analysis (field based, with control
dependence from post-dominance; error propagation and whole-object predicates
such as is_default do not count) finds a flow from the field to an XML writer,
a zip entry or the condition under which an XML writer is called; (5) no two
setters of one type with the same parameter types store exactly the same fields
the same way; (6) when two parameters are named after fields, they are not
stored in each other's field."""
RULE = "each parameter of each public setter is stored on every accepting path; each field so stored influences the emitted output"
ASSUMPTIONS = ["The flow analysis is field based: a field is live if some object of its type is written by some emitter."]
import re, collections
from sym import *
from ctx import loc
from mir import *
import live

# type tags used only to interpret other fields
INTERNAL = {"datetime::ExcelDateTime.datetime_type": "kind marker of a value under construction, not an option"}
SKIPTY = re.compile(r"^<|serializer::|::datetime::")

def setters(p):
    out = []
    for q, f in sorted(p.fns.items()):
        if not f.exported or f.nargs == 0 or "{closure" in q or q.startswith("<"): continue
        t1 = f.ty(1)
        if t1.startswith("&") and not t1.startswith("&mut "): continue
        base = t1.replace("&mut ", "").split("<")[0]
        # options return the object itself (or nothing); accessors of parts do not count
        if strip_refs(f.ty(0).replace("std::result::Result<", "").split(", xlsx")[0].split(", error")[0]).split("<")[0] not in (base, "()"): continue
        if t1.startswith("&mut") and f.ty(0).replace("std::result::Result<", "").split("<")[0] == base: continue
        if "()" in f.ty(0) and f.nargs == 1: continue
        owner = q.rsplit("::", 1)[0].split("<")[0].rstrip(":")
        if base not in p.adts or owner != base: continue
        out.append(q)
    return out

def taint_locals(p, f, roots, implicit=True):
    """flow-insensitive locals whose value derives from roots"""
    d = set(roots); ch = True; ctl = live.control_star(f)
    def has(pl): return pl[0] in d or any(isinstance(x, list) and x[0] == "#" and x[1] in d for x in pl[1:])
    while ch:
        ch = False
        for b in f.reachable():
            if f.cleanup(b): continue
            for st in f.stmts(b):
                if st[0] != "=": continue
                rv = st[2]
                if rv[0] == "ref": s = has(rv[2])
                elif rv[0] == "discr": s = has(rv[1])
                else: s = any("p" in o and has(o["p"]) for o in rv_operands(rv))
                l = st[1][0]
                if s and l not in d and not ("*" in st[1][1:] and l <= f.nargs) and not (l == 1): d.add(l); ch = True
                if rv[0] == "cast" and l in d and f.ty(l).startswith("*"):
                    pass
                # a write through a raw pointer made from a box
                if s and "*" in st[1][1:] and f.ty(l).startswith("*"):
                    for b2 in f.reachable():
                        for s2 in f.stmts(b2):
                            if s2[0] == "=" and s2[1] == [l] and s2[2][0] == "cast":
                                for o in rv_operands(s2[2]):
                                    if "p" in o and o["p"][0] not in d: d.add(o["p"][0]); ch = True
            t = f.term(b)
            if implicit and t["k"] == "switch" and b in ctl and "p" in t["on"] and has(t["on"]["p"]):
                # what a decision assigns depends on it
                for b2 in ctl[b]:
                    for s2 in f.stmts(b2):
                        if s2[0] == "=" and len(s2[1]) == 1 and s2[1][0] > f.nargs and s2[1][0] not in d and f.lname(s2[1][0]): d.add(s2[1][0]); ch = True
            if t["k"] == "call" and any("p" in o and has(o["p"]) for o in t["args"]):
                l = t["dest"][0]
                if l not in d and l != 1: d.add(l); ch = True
                # mutated locals: v.push(x)
                for o in t["args"]:
                    if "p" in o and f.ty(o["p"][0]).startswith("&mut") and o["p"][0] not in d:
                        m = o["p"][0]
                        tgt = ref_target(f, m)
                        if tgt and tgt[0] != 1 and tgt[0] not in d and tgt[0] > f.nargs: d.add(tgt[0]); ch = True
    return d, has

def ref_target(f, l):
    for b in f.reachable():
        for st in f.stmts(b):
            if st[0] == "=" and st[1] == [l] and st[2][0] == "ref": return st[2][2]
            if st[0] == "=" and st[1] == [l] and st[2][0] == "use" and st[2][1].get("p"): return ref_target(f, st[2][1]["p"][0]) if st[2][1]["p"][0] != l else None
    return None

def mutty(t): return "&mut " in t or "Mutex<" in t or "RwLock<" in t or "Entry<" in t or "IterMut<" in t or "MutexGuard<" in t or "WriteGuard<" in t

def selfish(f, me=1):
    """locals that are (part of) the object, mutable"""
    d = {me}; ch = True
    while ch:
        ch = False
        for b in f.reachable():
            if f.cleanup(b): continue
            for st in f.stmts(b):
                if st[0] != "=" or len(st[1]) != 1: continue
                rv = st[2]; l = st[1][0]
                if rv[0] == "ref" and rv[2][0] in d and l not in d and (rv[1] or any(x in f.ty(l) for x in ("Mutex<", "RwLock<"))): d.add(l); ch = True
                if rv[0] in ("use", "cast"):
                    for o in rv_operands(rv):
                        if "p" in o and o["p"][0] in d and l not in d and (mutty(f.ty(l)) or o["p"] == [me]): d.add(l); ch = True
            t = f.term(b)
            if t["k"] == "call" and any("p" in o and o["p"][0] in d for o in t["args"]):
                l = t["dest"][0]; ty = f.ty(l)
                if l not in d and (mutty(ty) or ty == f.ty(me)): d.add(l); ch = True
            # results that wrap a mutable reference
        for b in f.reachable():
            for st in f.stmts(b):
                if st[0] == "=" and len(st[1]) == 1 and st[2][0] == "use" and "p" in st[2][1] and st[2][1]["p"][0] in d and len(st[2][1]["p"]) > 1 and st[1][0] not in d and mutty(f.ty(st[1][0])): d.add(st[1][0]); ch = True
    return d

# parameters that are stored themselves, not only looked at
SCALAR = re.compile(r"^([iuf](8|16|32|64|128|size)|&?str|&?std::string::String|impl std::convert::Into<.*>)$")

class Store:
    def __init__(self, p, w):
        self.p = p; self.w = w; self.memo = {}; self.ctl = {}
    def control(self, f):
        if f.path not in self.ctl: self.ctl[f.path] = live.control_star(f)
        return self.ctl[f.path]
    def events(self, f, me, d, has, S):
        """[(block, kind, field)] stores into the object of derived values; plus writes of the object at all"""
        out = []; plain = collections.defaultdict(list)
        for b in f.reachable():
            if f.cleanup(b): continue
            for st in f.stmts(b):
                if st[0] != "=": continue
                pl = st[1]; rv = st[2]
                inself = pl[0] in S and len(pl) > 1
                whole = pl[0] in (0,) and rv[0] == "agg" and isinstance(rv[1], dict) and rv[1].get("adt") == f.ty(0)
                if not inself and not whole and not (pl == [me]): continue
                s = any("p" in o and has(o["p"]) for o in rv_operands(rv)) if rv[0] not in ("ref", "discr") else has(rv[2] if rv[0] == "ref" else rv[1])
                fld = next((fkey(e) for e in reversed(pl[1:]) if isinstance(e, list) and is_field(e)), None)
                plain[b].append(fld)
                if s: out.append((b, "store", fld))
            t = f.term(b)
            if t["k"] != "call": continue
            if t["dest"][0] in S and len(t["dest"]) > 1:
                fld = next((fkey(e) for e in reversed(t["dest"][1:]) if isinstance(e, list) and is_field(e)), None)
                plain[b].append(fld)
                if any("p" in o and has(o["p"]) for o in t["args"]): out.append((b, "store", fld))
            mine = [i for i, o in enumerate(t["args"]) if "p" in o and o["p"][0] in S and (mutty(f.ty(o["p"][0])) or o["p"] == [me] or f.ty(o["p"][0]) == f.ty(me))]
            if not mine: continue
            cs = self.p.callees(t)
            dargs = [i for i, o in enumerate(t["args"]) if i not in mine and "p" in o and has(o["p"])]
            if not cs:
                n = (t.get("res") or t.get("f") or "").rsplit("::", 1)[-1]
                if n in ("get_mut", "index_mut", "entry", "range_mut") and any(i not in mine and "p" in o and has(o["p"]) for i, o in enumerate(t["args"])): out.append((b, "select", None)); continue
                if n in ("next", "iter_mut", "as_mut", "deref_mut", "index_mut", "get_mut", "last_mut", "len", "is_empty", "entry", "into_iter", "branch", "from_residual", "from_output", "contains", "contains_key", "get", "into", "from"): continue
                o = t["args"][mine[0]]
                if has(o["p"]) and "Entry<" in f.ty(o["p"][0]): dargs = dargs or mine
                e = self.w.sym(f.path).op(o)
                fld = next((x[2] for x in subexprs(e) if x[0] == "fld" and x[2].split("::")[0] != "std"), None)
                plain[b].append(fld)
                if dargs: out.append((b, "call", fld))
                continue
            for c in cs:
                wr = self.p.trans_fields()[c][1] if c in self.p.fns else ()
                if wr: plain[b].append("call")
                for i in dargs:
                    for m in mine:
                        if self.stored(c, i + 1, m + 1): out.append((b, "delegate", None)); plain[b].append("call")
        # control: a derived condition decides about stores
        for a, dep in self.control(f).items():
            on = f.term(a)["on"]
            if "p" in on and has(on["p"]):
                for b in dep:
                    for fld in plain.get(b, ()): out.append((b, "control" if len(f.term(a)["targets"]) < 4 else "table", fld))
        return out, plain
    def stored(self, q, i, me=1):
        k = (q, i, me)
        if k in self.memo: return self.memo[k]
        self.memo[k] = False
        if q not in self.p.fns: return True
        f = self.p.fns[q]
        if i > f.nargs: return True
        d, has = taint_locals(self.p, f, [i])
        ev, _ = self.events(f, me, d, has, selfish(f, me))
        self.memo[k] = bool(ev)
        return self.memo[k]

def errish(f):
    """blocks that build an error or return one"""
    out = set()
    for b in f.reachable():
        for st in f.stmts(b):
            if st[0] == "=" and st[1][0] == 0 and st[2][0] == "agg" and isinstance(st[2][1], dict) and st[2][1].get("variant") == "Err": out.add(b)
        t = f.term(b)
        if t["k"] == "call" and (t.get("f") or "").endswith("from_residual"): out.add(b)
        # rejected with a warning
        if t["k"] == "call" and (t.get("f") or "").endswith("_eprint"): out.add(b)
    return out

def run(c, r):
    p = c.prog(); w = World(p); S = setters(p)
    r.floor("public methods that change an object", len(S), 550)
    st = Store(p, w); npar = 0; npath = 0
    fieldsof = {}; shape = {}
    for q in S:
        f = p.fns[q]; where = loc(p, q)
        S1 = selfish(f)
        alld = set(); allev = set()
        byparam = {}; datah = {}
        for i in range(2, f.nargs + 1):
            if f.ty(i).startswith("fn(") or "PhantomData" in f.ty(i): continue
            d, has = taint_locals(p, f, [i]); ev, plain = st.events(f, 1, d, has, S1)
            datah[i] = taint_locals(p, f, [i], False)[1]
            npar += 1; alld |= d; allev |= {e[0] for e in ev}; byparam[i] = ev
            if SCALAR.match(f.ty(i)): ev1 = [e for e in ev if e[1] != "control"]
            else: ev1 = ev
            r.check(bool(ev1), "param:%s:%s" % (q, f.lname(i) or i), "%s never stores its parameter `%s`" % (q, f.lname(i) or i), where)
        d, has = taint_locals(p, f, range(2, f.nargs + 1))
        ev, plain = st.events(f, 1, d, has, S1)
        blocks = {b for b in plain if plain[b]}
        touched = {x for b in plain for x in plain[b] if x and x != "call"}
        if f.name != "validate": r.check(bool(blocks), "nochange:" + q, "%s changes nothing in the object" % q, where)
        fieldsof[q] = touched
        # (2) paths
        stop = {e[0] for e in ev if e[1] != "select"} | errish(f) | {b for b in blocks if f.nargs == 1} | blocks if f.nargs == 1 else {e[0] for e in ev if e[1] != "select"} | errish(f)
        ok = True
        if f.nargs > 1 or blocks:
            # blocks from which a store can still be reached
            can = set(); preds = f.preds(); wk = [b for b in stop]
            while wk:
                b = wk.pop()
                if b in can: continue
                can.add(b); wk += [x for x in preds[b] if not f.cleanup(x)]
            seen = {0}; wk = [0] if 0 not in stop else []
            while wk:
                b = wk.pop(); t = f.term(b)
                if t["k"] == "return": ok = False
                mine = t["k"] == "switch" and "p" in t["on"] and has(t["on"]["p"])
                for s in f.succ(b):
                    if s in seen or f.cleanup(s) or s in stop: continue
                    # the parameters decide that nothing is stored
                    if mine and s not in can: continue
                    seen.add(s); wk.append(s)
            npath += 1
            r.check(ok, "path:" + q, "%s can return without storing anything, on a path that its parameters do not decide" % q, where)
        # (6) crossed parameters
        names = {i: f.lname(i) for i in byparam if f.lname(i)}
        tgt = {i: {e[2].rsplit(".", 1)[-1] for e in byparam[i] if e[1] == "store" and e[2]} for i in names}
        allt = set().union(*tgt.values()) if tgt else set()
        def named(n, S): return any(x == n or x.endswith("_" + n) for x in S)
        for i, n in names.items():
            for j, m in names.items():
                if i != j and named(n, allt) and named(m, allt) and not n.endswith("_" + m) and not m.endswith("_" + n) and named(m, tgt[i]) and not named(n, tgt[i]):
                    r.bad("cross:%s:%s:%s" % (q, n, m), "%s stores its parameter `%s` in the field of `%s`" % (q, n, m), where)
        alone = collections.defaultdict(set)
        for b in f.reachable():
            if f.cleanup(b): continue
            for x in f.stmts(b):
                if x[0] == "=" and x[1][0] in S1 and len(x[1]) > 1 and x[2][0] not in ("ref", "discr", "agg"):
                    fl = next((fkey(e) for e in reversed(x[1][1:]) if isinstance(e, list) and is_field(e)), None)
                    src = [i for i in datah if any("p" in o and datah[i](o["p"]) for o in rv_operands(x[2]))]
                    if fl and len(src) == 1 and f.ty(src[0]) != "bool": alone[fl].add(src[0])
        for fl, ps in alone.items():
            r.check(len(ps) < 2, "shared:%s:%s" % (q, fl), "%s stores the parameters %s in the same field %s" % (q, " and ".join("`%s`" % f.lname(i) for i in sorted(ps)), fl), where)
        # (5)
        sh = signature(p, w, f, byparam, S1)
        if sh: shape.setdefault((q.rsplit("::", 1)[0], tuple(f.ty(i) for i in range(2, f.nargs + 1)), sh), []).append(q)
    r.count("parameters followed", npar); r.count("path obligations", npath)
    if npar < 500: r.bad("floor:params", "only %d parameters found" % npar)
    for (o, ts, sh), qs in sorted(shape.items(), key=str):
        if len(qs) > 1 and not aliases(qs): r.bad("same:" + "+".join(sorted(x.rsplit("::", 1)[-1] for x in qs)) + ":" + o, "%s do exactly the same" % " and ".join(qs), loc(p, qs[0]))
        else: r.ok()
    # (4) liveness
    em = c.emission()
    L = live.Live(p, em.emitters)
    zipsinks(p, L)
    lv = L.live(em.prims)
    allf = {}
    for a, d in p.adts.items():
        for v in d["variants"]:
            for x in v["fields"]: allf["%s.%s" % (a if d["kind"] == "struct" else a + "::" + v["name"], x[0])] = x[1]
    df = p.direct_fields(); wr = {}
    for q in S:
        if SKIPTY.search(q): continue
        for x in df[q][1]:
            if x in allf: wr.setdefault(x, []).append(q)
    r.floor("fields written by public methods", len(wr), 550)
    for x in sorted(wr):
        if x in INTERNAL or x.startswith("serializer::"): r.ok(); continue
        r.check(x in lv, "dead:" + x, "%s is set by %s but has no influence on what is written" % (x, ", ".join(sorted(y.rsplit("::", 1)[-1] for y in wr[x])[:4])), loc(p, wr[x][0]))
    r.count("flow nodes that reach the output", len(lv))
    r.sample("live path: " + path(lv, "format::Alignment.shrink"))

def path(lv, x):
    o = []
    while x is not None and len(o) < 12:
        o.append(x if isinstance(x, str) else str(x)); x = lv.get(x)
    return " -> ".join(o)

# older names of the same method, kept for compatibility
ALIASES = [{"write_date_with_format", "write_datetime_with_format", "write_time_with_format"}]
def aliases(qs): return any({q.rsplit("::", 1)[-1] for q in qs} <= a for a in ALIASES)
def signature(p, w, f, byparam, S1):
    """what is stored where: ((field, value), ...) or None when it is not simple"""
    s = w.sym(f.path); out = set()
    for b in f.reachable():
        if f.cleanup(b): continue
        for st in f.stmts(b):
            if st[0] != "=" or st[1][0] not in S1 or len(st[1]) < 2: continue
            fl = tuple(fkey(e) for e in st[1][1:] if isinstance(e, list) and is_field(e))
            try: v = s.rv(st[2]) if st[2][0] not in ("ref",) else ("ref",)
            except Exception: v = ("?",)
            out.add((fl, strip(v)))
        t = f.term(b)
        if t["k"] == "switch": out.add(("if", strip(s.op(t["on"]))))
        if t["k"] == "call":
            n = t.get("res") or t.get("f") or ""
            out.add(("call", n, tuple(strip(s.op(o)) for o in t["args"])))
            if t["dest"][0] in S1 and len(t["dest"]) > 1: out.add((tuple(fkey(e) for e in t["dest"][1:] if isinstance(e, list) and is_field(e)), "call"))
    return frozenset(out) if out else None

def strip(e):
    """expression without block numbers and local numbers"""
    if not isinstance(e, tuple): return e
    if e and e[0] == "call": return ("call", e[1], tuple(strip(x) for x in e[2]))
    if e and e[0] == "loc": return ("loc",)
    return tuple(strip(x) if isinstance(x, tuple) else x for x in e)

def zipsinks(p, L):
    for q, f in p.fns.items():
        for b, t in f.calls():
            n = t.get("res") or t.get("f") or ""
            if p.callees(t): continue
            if re.search(r"(^|<)zip::|ZipWriter|std::io::Write>?::write_all|std::io::copy|FileOptions", n):
                for o in t["args"]:
                    if "p" in o: L.read(f, o["p"], "SINK")
