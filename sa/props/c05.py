"""Every exported method with row/column parameters is followed (through the
private functions it hands them to) to the places where a value derived from
the parameter is stored in the object or used in overflow-checked arithmetic.
At each such place the branch facts that hold on every path must imply
row < 1,048,576 (column < 16,384), and, for first/last pairs, first <= last.
Facts are taken from comparisons and from the summaries of the boolean and
Result returning checks of the crate."""
RULE = "at every store/arithmetic of a row or column parameter: limit fact on every path; order fact for first/last pairs"
ASSUMPTIONS = ["Row and column parameters are recognised by integer type and by the words row/col in their names."]
import re, collections
from sym import *
from ctx import loc

ROW_MAX, COL_MAX = 1048576, 16384
READERS = ("::get", "::get_mut", "::remove", "::contains_key", "::contains", "::next", "::retain", "::len", "::is_empty", "::index", "::range")

def kind(f, i):
    n = f.lname(i) or ""; t = f.ty(i)
    if t == "u32" and re.search(r"(^|_)rows?(_|$)", n): return "row"
    if t == "u16" and re.search(r"(^|_)(col|cols|column)(_|$)", n): return "col"
    return None

def derived(f, i):
    """locals that can hold a value computed from parameter i"""
    D = {i}; ch = True
    steps = []
    for b in f.reachable():
        for st in f.stmts(b):
            if st[0] == "=":
                rv = st[2]
                src = [rv[2][0]] if rv[0] == "ref" else [] if rv[0] == "discr" else [o["p"][0] for o in rv_operands(rv) if "p" in o]
                if rv[0] == "bin" and rv[1] in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"): continue
                if "*" in st[1][1:] : continue
                steps.append((st[1][0], src))
        t = f.term(b)
        if t["k"] == "call":
            n = t.get("res") or t.get("f") or ""
            if n.endswith("cmp::min") or n.endswith("::min"): continue
            if f.ty(t["dest"][0]) in ("bool", "()"): continue
            src = [o["p"][0] for o in t["args"] if "p" in o]
            if t.get("local"):
                # only values computed from it, not the object it was stored in
                if "&mut" in f.ty(t["dest"][0]) or "Result<" in f.ty(t["dest"][0]): continue
            elif t["args"] and "p" in t["args"][0] and f.ty(t["args"][0]["p"][0]).startswith("&") and len(src) > 1 and src[0] not in D:
                # lookup in a container: the result is the container's, not the key's
                if not f.ty(t["dest"][0]).startswith(("std::ops", "std::iter")): continue
            steps.append((t["dest"][0], src))
    while ch:
        ch = False
        for d, src in steps:
            if d not in D and any(s in D for s in src): D.add(d); ch = True
    return D

def inmem(e):
    """is the expression memory reachable from a by-reference parameter"""
    return any(x[0] == "arg" for x in subexprs(e))

class Check:
    def __init__(self, p, w):
        self.p = p; self.w = w; self.memo = {}; self.sites = 0

    def below(self, facts, e, mx):
        for fa in facts:
            for op, a, b in comparisons(fa):
                if a == e and b[0] == "c":
                    try: v = int(b[2])
                    except ValueError: continue
                    if op == "Lt" and v <= mx or op == "Le" and v <= mx - 1: return True
        # a <= b and b < max
        for fa in facts:
            for op, a, b in comparisons(fa):
                if a == e and op in ("Le", "Lt", "Eq") and b[0] == "arg":
                    for fb in facts:
                        for op2, a2, b2 in comparisons(fb):
                            if a2 == b and b2[0] == "c" and b2[2].isdigit() and (op2 == "Lt" and int(b2[2]) <= mx or op2 == "Le" and int(b2[2]) <= mx - 1): return True
        return False

    def ordered(self, facts, a, b):
        for fa in facts:
            for op, x, y in comparisons(fa):
                if x == a and y == b and op in ("Le", "Lt", "Eq"): return True
        return False

    def sinks(self, path, i):
        """[(block, what, callee or None, [params of the callee])]"""
        f = self.p.fns[path]; D = derived(f, i); s = self.w.sym(path); out = []
        for b in f.reachable():
            if f.cleanup(b): continue
            for st in f.stmts(b):
                if st[0] != "=" or "*" not in st[1][1:]: continue
                rv = st[2]
                if rv[0] in ("bin",) and rv[1] in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"): continue
                if any("p" in o and o["p"][0] in D for o in rv_operands(rv)) and not (len(st[1]) == 2 and st[1][0] in D): out.append((b, "store", None, None))
            t = f.term(b)
            if t["k"] == "assert" and t["msg"] in ("overflow_add", "overflow_mul") and any("p" in o and o["p"][0] in D for o in t["ops"]):
                out.append((b, "arith", None, None))
            if t["k"] == "call":
                idx = [j for j, o in enumerate(t["args"]) if "p" in o and o["p"][0] in D]
                if not idx: continue
                cs = self.p.callees(t)
                if cs:
                    for c in cs:
                        js = [j + 1 for j in idx if kind(self.p.fns[c], j + 1) or self.p.fns[c].ty(j + 1) in ("u32", "u16") and "RowNum" == "x"]
                        if js: out.append((b, "call", c, js))
                    continue
                n = t.get("res") or t.get("f") or ""
                if any(n.endswith(x) for x in READERS): continue
                for j, o in enumerate(t["args"]):
                    if j in idx or "p" not in o: continue
                    if f.ty(o["p"][0]).startswith("&mut"):
                        e = s.op(o)
                        if inmem(e) : out.append((b, "store", None, None))
        return out

    def copies(self, path, i):
        """variables that start as the parameter and are changed later"""
        f = self.p.fns[path]; s = self.w.sym(path)
        return [l for l, ds in s.defs.items() if len(ds) > 1 and f.ty(l) == f.ty(i) and
                any(j >= 0 and rv[0] == "use" and s.op(rv[1]) == ("arg", i) for b, j, rv in ds)]

    def swapped(self, path, a, z):
        """first and last are brought into order: `if first > last { swap }`"""
        f = self.p.fns[path]; s = self.w.sym(path); fa = self.w.facts(path)
        for b, t in f.calls():
            if (t.get("res") or t.get("f") or "").endswith("mem::swap"):
                ls = set()
                for o in t["args"]:
                    e = s.op(o)
                    if e[0] == "loc":
                        for _, j, rv in s.defs.get(e[1], []):
                            if j >= 0 and rv[0] == "use": ls.add(s.op(rv[1]))
                if {a, z} <= ls: return True
        return False

    def unguarded(self, path, i):
        """sites where parameter i is used without the limit being known"""
        k = (path, i)
        if k in self.memo: return self.memo[k]
        self.memo[k] = []
        f = self.p.fns[path]; mx = ROW_MAX if kind(f, i) == "row" else COL_MAX
        bad = []
        for b, what, c, js in self.sinks(path, i):
            self.sites += 1
            facts = self.w.at(path, b)
            if self.below(facts, ("arg", i), mx): continue
            # a copy of the parameter that changes (a loop variable)
            cs = self.copies(path, i)
            if cs and all(self.below(facts, ("loc", l), mx) for l in cs): continue
            if what == "call":
                for j in js:
                    # a check on the expression passed
                    e = self.w.sym(path).op(f.term(b)["args"][j - 1])
                    if e != ("arg", i) and self.below(facts, e, mx): continue
                    for s in self.unguarded(c, j): bad.append(s)
            else: bad.append((path, what, b))
        self.memo[k] = bad
        return bad

    def unordered(self, path, i, j, depth=0):
        k = (path, i, j)
        if k in self.memo: return self.memo[k]
        self.memo[k] = []
        f = self.p.fns[path]; bad = []
        a, z = ("arg", i), ("arg", j)
        for b, what, c, js in self.sinks(path, j):
            if what == "arith": continue
            facts = self.w.at(path, b)
            if self.ordered(facts, a, z) or self.swapped(path, a, z): continue
            if what == "call":
                args = [self.w.sym(path).op(o) for o in f.term(b)["args"]]
                if a in args and z in args and c in self.p.fns:
                    bad += self.unordered(c, args.index(a) + 1, args.index(z) + 1)
                elif z in args:
                    # last alone is handed on: a single position
                    pass
            else: bad.append((path, what, b))
        self.memo[k] = bad
        return bad

def run(c, r):
    p = c.prog(); w = World(p); ck = Check(p, w)
    roots = 0; pairs = 0
    for q, f in sorted(p.fns.items()):
        if not f.exported or "{closure" in q or f.self_adt() not in ("worksheet::Worksheet", "workbook::Workbook", "chart::Chart"): continue
        ps = [(i, kind(f, i)) for i in range(1, f.nargs + 1) if kind(f, i)]
        if not ps: continue
        for i, k in ps:
            roots += 1
            bad = ck.unguarded(q, i)
            for path, what, b in bad:
                r.bad("limit:%s:%s:%s" % (q, f.lname(i), path), "the %s parameter `%s` of %s is %s without a limit check in %s" % (
                    "row" if k == "row" else "column", f.lname(i), q, "stored" if what == "store" else "used in arithmetic that can overflow", path),
                    "%s:%s" % (p.fns[path].file, p.fns[path].blocks[b][3]))
            if not bad: r.ok()
        names = {f.lname(i): i for i, _ in ps}
        for n, i in names.items():
            if n.startswith("first_") and "last_" + n[6:] in names:
                pairs += 1
                bad = ck.unordered(q, i, names["last_" + n[6:]])
                for path, what, b in bad:
                    r.bad("order:%s:%s:%s" % (q, n, path), "%s stores its range without having checked %s <= last_%s, in %s" % (q, n, n[6:], path), "%s:%s" % (p.fns[path].file, p.fns[path].blocks[b][3]))
                if not bad: r.ok()
    r.floor("row/column parameters of public methods", roots, 190)
    r.floor("first/last pairs", pairs, 36)
    r.floor("uses followed", ck.sites, 500)
