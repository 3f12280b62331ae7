"""Abstract interpretation of the package assembly, per worksheet, over MIR.

The functions that prepare and write a package are interpreted over an abstract
domain, once for every combination of the kinds of objects that a worksheet can
hold (a finite set of abstract configurations; a collection is only empty or not
empty). A loop over the worksheets is interpreted for one symbolic worksheet and
its counters are symbols; every other loop is interpreted for one symbolic item;
where a branch is not decided, both sides are interpreted and joined. Integers are
linear forms {monomial: coefficient}; a monomial is a set of factors
  ("ctr", k)      the counter k at the start of the iteration of a worksheet
  ("tot", k)      the counter k after the last worksheet
  ("n", S)        the number of items of S        ("p", S)  the current position
  ("if", c, v)    1 where the condition c has the value v
The result is the sequence of events of the assembly: part names, content types,
relationships, stored numbers and ids, each with the loops and conditions it is
under."""
import re
from mir import *

def callee(t): return t.get("res") or t.get("f") or "?"
ONE = frozenset()
KEYS = {}
def okey(x):
    """a text for ordering that does not depend on the order of sets"""
    if isinstance(x, (frozenset, tuple)):
        k = KEYS.get(x)
        if k is None:
            k = "{" + ",".join(sorted(map(okey, x))) + "}" if isinstance(x, frozenset) else "(" + ",".join(map(okey, x)) + ")"
            if len(KEYS) > 200000: KEYS.clear()
            KEYS[x] = k
        return k
    if isinstance(x, set): return okey(frozenset(x))
    if isinstance(x, list): return okey(tuple(x))
    return repr(x)
def L(d): return ("L", tuple(sorted(((m, c) for m, c in d.items() if c), key=okey)))
def num(k): return L({ONE: k})
def D(v): return dict(v[1])
def plus(a, b, k=1):
    d = D(a)
    for m, c in b[1]: d[m] = d.get(m, 0) + k * c
    return L(d)
def times(a, fac):
    """multiplied by indicator or count factors"""
    d = {}
    for m, c in a[1]:
        m2 = m | fac; d[m2] = d.get(m2, 0) + c
    return L(d)
def isL(v): return isinstance(v, tuple) and v and v[0] == "L"
def isnum(v): return isL(v) and all(m == ONE for m, c in v[1])
def intval(v): return D(v).get(ONE, 0)
def parts(m):
    return "*".join(sorted((x[0] + " " + short(x[1]) + ("" if len(x) < 3 or x[2] in (1, True) else " is %s" % (x[2],))) for x in m))
def short(x):
    s = re.sub(r"\b(\w+::)+", "", str(x)); s = re.sub(r"[()',\[\]\"]", " ", s)
    return re.sub(r"\s+", " ", s).strip()[:80]
def show(v):
    if isL(v):
        return " + ".join((str(c) if m == ONE else parts(m) if c == 1 else "%d*%s" % (c, parts(m))) for m, c in v[1]) or "0"
    if isinstance(v, tuple) and v and v[0] == "t": return "".join(x if isinstance(x, str) else "{" + show(x) + "}" for x in v[1])
    if isinstance(v, tuple) and v and v[0] == "s": return v[1]
    return short(v)

INT = re.compile(r"^(u|i)(8|16|32|64|128|size)$")
IDENT = {"deref", "deref_mut", "borrow", "borrow_mut", "as_ref", "as_mut", "as_str", "clone", "cloned", "copied", "to_owned", "into", "from", "to_string", "as_deref", "as_slice", "as_mut_slice", "into_iter", "iter", "iter_mut",
         "values", "values_mut", "into_values", "as_deref_mut", "to_vec", "into_string", "unwrap", "expect", "lock", "must_use", "as_bytes", "flatten", "by_ref", "get_mut", "take", "replace", "new_display", "new_debug", "read", "write", "unwrap_or_default", "peekable", "index", "index_mut", "try_from", "try_into", "unwrap_or_else", "as_any", "inner", "get_ref", "box_new", "into_boxed_slice", "into_vec", "from_elem_"}
REL = {"add_document_relationship": ("doc", 0, 1, 2), "add_package_relationship": ("pkg", 0, 1, None), "add_office_relationship": ("office", 1, 2, 3)}
RIDS = ("r:id", "r:embed", "r:link", "o:relid", "r:pict")
ATTRS = ("Id", "Type", "Target", "TargetMode", "PartName", "ContentType", "Extension")

def to01(edges, n):
    return next((x for v, x in edges if v == n), next((x for v, x in edges if v is None), None))

class St:
    def __init__(self): self.env = {}; self.fld = {}; self.items = {}; self.ev = []
    def copy(self):
        s = St(); s.env = dict(self.env); s.fld = dict(self.fld); s.items = {k: list(v) for k, v in self.items.items()}; s.ev = list(self.ev)
        return s

class Dead(Exception): pass

class Pkg:
    SHEETS = "workbook::Workbook.worksheets"
    def __init__(self, p, cfg, interesting):
        self.p = p; self.cfg = cfg; self.fid = 0; self.cfgs = {}; self.steps = 0; self.interesting = interesting; self.ctx = (); self.counters = {}; self.bad = set(); self.insheet = 0; self.mapvals = {}; self.mapuse = []; self.assume = {}; self.depth = 0; self.quiet = 0; self.unknown = set(); self.curpos = None; self.touched = set(); self.ends = {}; self.memo = CACHE.setdefault(id(p), {})
    # ---- structure of a function
    def cfg_of(self, q):
        if q in self.memo: return self.memo[q]
        f = self.p.fns[q]; succ = {}
        tries = set()
        for b in f.reachable():
            t = f.term(b)
            if t["k"] == "call" and callee(t).endswith("::branch") and len(t["dest"]) == 1: tries.add(t["dest"][0])
        dl = {}
        for b in f.reachable():
            for s in f.stmts(b):
                if s[0] == "=" and s[2][0] == "discr" and len(s[1]) == 1: dl[s[1][0]] = s[2][1][0]
        for b in f.reachable():
            if f.cleanup(b): continue
            t = f.term(b); ss = [x for x in f.succ(b) if not f.cleanup(x) and f.term(x)["k"] != "unreachable"]
            if t["k"] == "switch" and "p" in t["on"] and dl.get(t["on"]["p"][0]) in tries:
                ss = [x for v, x in t["targets"] if int(v) == 0] or [t["else"]]
            succ[b] = ss
        # only blocks that reach a return
        ex = {b for b in succ if f.term(b)["k"] == "return"}
        pred = {}
        for b, ss in succ.items():
            for x in ss: pred.setdefault(x, []).append(b)
        live = set(); w = list(ex)
        while w:
            x = w.pop()
            if x in live: continue
            live.add(x); w += pred.get(x, [])
        succ = {b: [x for x in ss if x in live] for b, ss in succ.items()}
        # post-dominators
        nodes = [b for b in succ if b in live]; EXIT = -1
        sx = {b: (succ[b] or [EXIT]) for b in nodes}
        for b in ex: sx[b] = [EXIT]
        full = set(nodes) | {EXIT}; pd = {b: set(full) for b in nodes}; pd[EXIT] = {EXIT}
        ch = True; order = sorted(nodes, reverse=True)
        while ch:
            ch = False
            for b in order:
                n = set.intersection(*[pd[x] for x in sx[b]]) | {b}
                if n != pd[b]: pd[b] = n; ch = True
        ip = {}
        for b in nodes:
            c = pd[b] - {b}
            ip[b] = next((x for x in c if len(pd[x]) == len(c)), EXIT)
        self.memo[q] = (succ, ip)
        return self.memo[q]
    # ---- values
    def load(self, st, cell):
        if cell[0] == "f": return st.fld.get(cell[1]) or ("o", cell[1], cell[2] if len(cell) > 2 else None)
        return st.env.get(cell[1:])
    def place(self, fr, st, pl):
        """(value, cell)"""
        cell = ("l", fr, pl[0]); v = st.env.get((fr, pl[0]))
        for x in pl[1:]:
            if x == "*":
                if isinstance(v, tuple) and v and v[0] == "ref": cell = v[1]; v = self.load(st, cell)
                continue
            if isinstance(x, list) and is_field(x):
                k = fkey(x); owner = x[0]
                if isinstance(v, tuple) and v and v[0] == "ref": v = self.load(st, v[1])
                if isinstance(v, tuple) and v and v[0] == "agg" and x[1].isdigit():
                    i = int(x[1]); v = v[1][i] if i < len(v[1]) else None; cell = None; continue
                if isinstance(v, tuple) and v and v[0] == "adt":
                    v = dict(v[2]).get(x[1]); cell = None; continue
                if owner in self.p.adts and self.p.adts[owner]["kind"] != "enum":
                    root = None
                    if isinstance(v, tuple) and v and v[0] in ("o", "it", "own"): root = v[1] if v[0] != "own" else v
                    cell = ("f", k, root); v = self.load(st, cell); continue
                if isinstance(v, tuple) and v and v[0] == "clos":
                    i = int(x[1]) if x[1].isdigit() else None; v = v[2][i] if i is not None and i < len(v[2]) else None; cell = None; continue
                if isinstance(v, tuple) and v and v[0] in ("some", "try"): v = v[1]; cell = None; continue
                if isinstance(v, tuple) and v and v[0] == "get": v = ("mv", v[1]); cell = None; continue
                if isinstance(v, tuple) and v and v[0] in ("o", "it", "mv") and x[1] == "0" and owner not in self.p.adts: cell = cell if v[0] == "o" else None; continue
                v = ("u", "." + x[1], (v,)) if depth(v) < 5 else None; cell = None; continue
            if isinstance(x, list) and x[0] == "as": continue
            if isinstance(x, list) and x[0] in ("#", "##", "sub", "?"):
                if isinstance(v, tuple) and v and v[0] == "agg" and x[0] == "##" and str(x[1]).isdigit() and int(x[1]) < len(v[1]): v = v[1][int(x[1])]; cell = None; continue
                i = st.env.get((fr, x[1])) if x[0] == "#" else num(int(x[1])) if x[0] == "##" and str(x[1]).lstrip("-").isdigit() else None
                held = cell[1] if cell is not None and cell[0] == "f" else v[1] if isinstance(v, tuple) and v and v[0] == "o" else None
                if isinstance(v, tuple) and v and v[0] == "o" and v[1] in self.cfg: cell = None; v = ("o", v[1], None)
                else: v = ("u", "[]", (v, i)); cell = ("x", held, i) if held else None
        return v, cell
    def op(self, fr, st, o):
        if "p" in o: return self.place(fr, st, o["p"])[0]
        c = o["c"]
        if c == "int" and o.get("ty") == "bool": return ("b", str(o["v"]) not in ("0", "false"))
        if c == "int":
            try: return num(int(o["v"]))
            except ValueError: return ("u", "const", (o.get("v"),))
        if c == "bool": return ("b", str(o["v"]).lower() in ("true", "1"))
        if c == "str": return ("s", o["v"])
        if c == "bytes": return ("bytes", o["v"])
        if c == "fn": return ("fn", o.get("res") or o["f"])
        if c == "promoted": return self.promoted(o)
        if c == "zst" and "{closure@" in o.get("ty", ""): return ("clos0", o["ty"])
        return ("u", "const", (c, str(o.get("v", o.get("ty")))))
    def promoted(self, o):
        pr = self.p.promoted.get((o.get("of"), o.get("idx")))
        if pr is not None:
            # a constant of an enum
            aggs = [s[2] for b in pr.live_blocks() for s in pr.stmts(b) if s[0] == "=" and s[2][0] == "agg"]
            rest = [s for b in pr.live_blocks() for s in pr.stmts(b) if s[0] == "=" and s[2][0] not in ("agg", "ref", "use")]
            if len(aggs) == 1 and not rest and isinstance(aggs[0][1], dict) and "adt" in aggs[0][1] and not aggs[0][2]:
                n = aggs[0][1]["adt"]
                if n in self.p.adts and self.p.adts[n]["kind"] == "enum" and not any(z["fields"] for z in self.p.adts[n]["variants"]): return ("var", n, aggs[0][1]["variant"])
        return ("u", "promoted", (str(o.get("of")), o.get("idx")))
    def rvalue(self, fr, st, q, rv):
        k = rv[0]
        if k in ("use",): return self.op(fr, st, rv[1])
        if k == "cast": return self.op(fr, st, rv[1])
        if k == "ref":
            v, cell = self.place(fr, st, rv[2])
            if isinstance(v, tuple) and v and v[0] == "ref": return v
            if cell is not None and cell[0] == "l": return ("ref", cell)
            if cell is not None and cell[0] == "f" and (isL(v) or isinstance(v, tuple) and v and v[0] in ("b", "o", "cond", "ite") and rv[1]): return ("ref", cell)
            return v
        if k == "discr":
            v, _ = self.place(fr, st, rv[1]); return ("d", self.full(st, v), q, rv[1][0])
        if k == "bin":
            a, b = self.full(st, self.op(fr, st, rv[2])), self.full(st, self.op(fr, st, rv[3])); n = rv[1].replace("Unchecked", ""); w = n.endswith("WithOverflow"); n = n.replace("WithOverflow", "")
            r = None
            if isL(a) and isL(b):
                if n in ("Add", "Sub"): r = plus(a, b, 1 if n == "Add" else -1)
                elif n == "Mul" and (isnum(a) or isnum(b)):
                    if isnum(b): a, b = b, a
                    r = L({m: c * intval(a) for m, c in b[1]})
                elif n in ("Eq", "Ne", "Lt", "Gt", "Le", "Ge"):
                    d = plus(a, b, -1)
                    if isnum(d):
                        z = intval(d); r = ("b", {"Eq": z == 0, "Ne": z != 0, "Lt": z < 0, "Gt": z > 0, "Le": z <= 0, "Ge": z >= 0}[n])
                    else:
                        # counts of what is there are positive
                        mi = [c for m, c in d[1] if c < 0]; pos = [c for m, c in d[1] if c > 0]
                        pure = all(all(x[0] == "n" for x in m) for m, c in d[1])
                        if pure and not mi and pos and n in ("Gt", "Ne", "Ge", "Eq", "Le", "Lt") and any(m != ONE for m, c in d[1]): r = ("b", n in ("Gt", "Ne", "Ge"))
            if r is None and n in ("BitOr", "BitAnd") and boolish(a) and boolish(b):
                t = ("b", n == "BitOr"); o = ("b", n != "BitOr")
                if t in (a, b): r = t
                elif a == o: r = b
                elif b == o: r = a
                else:
                    if a[0] == "cond" and isinstance(a[1], tuple) and a[1][:1] == ("before",): a, b = b, a
                    if a[0] == "cond": r = ("ite", ("if", a[1], (1,) if a[2] == (n == "BitOr") else (0,)), t, b)
            if r is None: r = ("u", n, (a, b)) if max(depth(a), depth(b)) < 5 else ("u", n, (q, self.steps))
            if n in ("Gt", "Ne", "Lt", "Eq") and isinstance(r, tuple) and r[0] == "u" : r = positive_form(n, a, b)
            return ("agg", (r, ("b", False))) if w else r
        if k == "un":
            a = self.full(st, self.op(fr, st, rv[2]))
            if rv[1] == "Not": return neg(a)
            return ("u", rv[1], (a,))
        if k == "agg":
            a = rv[1]; vs = tuple(self.op(fr, st, o) for o in rv[2])
            if a in ("tuple", "array"):
                if a == "tuple" and len(vs) == 2:
                    x, y = self.full(st, vs[0]), self.full(st, vs[1])
                    if isinstance(x, tuple) and x and x[0] == "s":
                        if x[1] in RIDS: self.event(st, "rid", q, x[1], self.settle(y))
                        elif x[1] in ATTRS: self.event(st, "attr", q, x[1], y)
                        elif isinstance(y, tuple) and y and y[0] == "s": self.event(st, "pair", q, x[1], y[1])
                return ("agg", vs)
            if isinstance(a, dict) and "closure" in a: return ("clos", a["closure"], vs)
            if isinstance(a, dict) and "adt" in a:
                n = a["adt"]
                if n.startswith("std::option::Option"): return ("some", vs[0]) if vs else ("none",)
                if n.startswith("std::result::Result"): return vs[0] if vs and a["variant"] == "Ok" else ("err",)
                if n.startswith("std::ops::Range"): return ("range", vs[0], vs[1]) if len(vs) == 2 else None
                if n in self.p.adts and self.p.adts[n]["kind"] == "enum": return ("var", n, a["variant"])
                if n.rsplit("::", 1)[-1] in SPREAD:
                    for x, y in zip(a.get("fields") or [], vs): self.setfld(st, n + "." + x, y, q)
                    return ("own", n)
                return ("adt", n, tuple(zip(a.get("fields") or [], vs)))
        return ("u", k, ())
    def full(self, st, v):
        k = 0
        while isinstance(v, tuple) and v and v[0] == "ref" and k < 6: v = self.load(st, v[1]); k += 1
        return v
    def settle(self, v):
        """a value that depends on a condition, where the condition is known"""
        def known(fac): return any(c[0] == "if" and c[1] == fac[1] and set(c[2]) <= set(fac[2]) for c in self.ctx)
        if isinstance(v, tuple) and v:
            if v[0] == "u" and v[1] == "phi": return self.settle(v[2][1]) if known(v[2][0]) else v
            if v[0] == "t": return ("t", tuple(x if isinstance(x, str) else self.settle(x) for x in v[1]))
        return v
    def store(self, fr, st, pl, v, q):
        if len(pl) == 1:
            st.env[(fr, pl[0])] = v; return
        _, cell = self.place(fr, st, pl)
        if cell is None: return
        if cell[0] == "f": self.setfld(st, cell[1], v, q)
        elif cell[0] == "l": st.env[cell[1:]] = v
        elif cell[0] == "x": self.event(st, "flag", q, cell[1], self.full(st, cell[2]))
    def setfld(self, st, key, v, q):
        v = self.full(st, v)
        if isinstance(v, tuple) and v and v[0] == "adt":
            for n, x in v[2]: self.setfld(st, v[1] + "." + n, x, q)
            st.fld.pop(key, None); return
        if isinstance(v, tuple) and v and v[0] == "vec0": st.items[key] = list(st.items.get(v, [])); st.fld.pop(key, None); return
        if self.insheet and not key.startswith(("worksheet::Worksheet.",)) and key.startswith(("workbook::", "packager::")) and "worksheet::Worksheet." in str(v) and not isL(v):
            self.bad.add((key, q))
        st.fld[key] = v
        self.event(st, "set", q, key, v)
    def event(self, st, kind, q, *data):
        st.ev.append((kind, q) + data + (self.ctx,))
    # ---- conditions
    def cond(self, st, v):
        """True/False, or (key, polarity)"""
        v = self.full(st, v)
        if isinstance(v, tuple) and v:
            if v[0] == "b": return v[1]
            if v[0] == "cond":
                k = v[1]
                if isinstance(k, tuple) and k and k[0] == "o" and len(k) > 1 and k[1] in self.cfg: return bool(self.cfg[k[1]]) == bool(v[2])
                return (v[1], v[2])
            if v[0] == "o" and v[1] in self.cfg: return bool(self.cfg[v[1]])
        return (v, True)
    def nonempty(self, st, v):
        v = self.full(st, v)
        if isinstance(v, tuple) and v:
            if v[0] == "o":
                if v[1] == self.SHEETS: return ("b", True)
                if v[1] in st.items:
                    it = st.items[v[1]]
                    if not it: return ("b", False)
                    if any(not [x for x in c if x[0] == "if" and not (isinstance(x[1], tuple) and x[1][:1] == ("new",))] for _, c, _p in it): return ("b", True)
                    return ("cond", ("ne", v[1]), True)
                if v[1] in self.cfg: return ("b", bool(self.cfg[v[1]]))
                return ("cond", ("ne", v[1]), True)
            if v[0] == "s": return ("b", v[1] != "")
            if v[0] == "vec0":
                it = st.items.get(v) or []
                if not it: return ("b", False)
                if any(not [x for x in c if x[0] == "if"] for _, c, _p in it): return ("b", True)
                return ("cond", ("ne", v), True)
        return ("cond", ("ne", v), True)
    def length(self, st, v):
        v = self.full(st, v)
        if isinstance(v, tuple) and v and v[0] == "vec0" or ismap(v) and (v in st.items or v[0] == "map"): return L(self.total(st.items.get(v, [])))
        if isinstance(v, tuple) and v and v[0] == "o":
            if v[1] in st.items:
                return L(self.total(st.items[v[1]]))
            if self.cfg.get(v[1]) is False: return num(0)
            return L({frozenset({("n", v[1])}): 1})
        if isinstance(v, tuple) and v and v[0] == "agg": return num(len(v[1]))
        return L({frozenset({("n", v)}): 1})
    def total(self, its):
        d = {}
        for _, c, _p in its:
            # the items so far, seen from inside the loop that adds them
            m = mono(c, self.ctx); d[m] = d.get(m, 0) + 1
        return d
    # ---- the walk
    def run(self, q, fr, b, st, stop):
        f = self.p.fns[q]; succ, ip = self.cfg_of(q); seen = set()
        while True:
            self.steps += 1
            if b in stop or b == -1: return b
            if b not in succ or b in seen and f.term(b)["k"] != "call": raise Dead()
            if b in seen: raise Dead()
            seen.add(b)
            for s in f.stmts(b):
                if s[0] == "=": self.store(fr, st, s[1], self.rvalue(fr, st, q, s[2]), q)
            t = f.term(b); k = t["k"]
            if k == "return": return -1
            if k == "switch":
                b = self.branch(q, fr, b, st, t, stop); continue
            if k == "call":
                if callee(t).endswith("::next") and t["args"]:
                    b = self.loop(q, fr, b, st, t, stop); continue
                r = self.call(q, fr, b, st, t)
                if t["to"] is None or t["to"] < 0: raise Dead()
                self.store(fr, st, t["dest"], r, q); b = t["to"]; continue
            nx = succ[b]
            if not nx: raise Dead()
            b = nx[0]
    def branch(self, q, fr, b, st, t, stop):
        f = self.p.fns[q]; succ, ip = self.cfg_of(q)
        edges = [(int(v), x) for v, x in t["targets"]] + [(None, t["else"])]
        ok = set(succ[b]); vals = [v for v, x in edges if v is not None]
        v = self.full(st, self.op(fr, st, t["on"]))
        edges = [(v_, x) for v_, x in edges if x in ok]
        if len({x for _, x in edges}) == 1: return edges[0][1]
        def to(n):
            for v_, x in edges:
                if v_ == n: return x
            return next((x for v_, x in edges if v_ is None), None)
        if isnum(v): 
            r = to(intval(v))
            if r is None: raise Dead()
            return r
        key = None; isb = False; pre = None
        if isinstance(v, tuple) and v and v[0] == "d":
            o = v[1]
            if isinstance(o, tuple) and o:
                if o[0] in ("some", "try"): 
                    r = to(1 if o[0] == "some" else 0)
                    if r is not None: return r
                if o[0] == "none": return to(0)
                if o[0] == "o" and o[1] in self.cfg: return to(1 if self.cfg[o[1]] else 0)
                if o[0] == "var":
                    a = self.p.adts[o[1]]; d = next((i if z.get("discr") is None else int(z["discr"]) for i, z in enumerate(a["variants"]) if z["name"] == o[2]), None)
                    if d is not None and to(d) is not None: return to(d)
                if o[0] == "get": key = ("new", o[1], o[2]); edges = [({0: 1, 1: 0}.get(v_, v_), x) for v_, x in edges]; isb = True
                if o[0] == "err": raise Dead()
            if key is None: key = ("d", o)
        else:
            c = self.cond(st, v)
            if c in (True, False):
                r = to(int(c))
                if r is None: raise Dead()
                return r
            isb = f.ty(t["on"]["p"][0]) == "bool" if "p" in t["on"] and len(t["on"]["p"]) == 1 else True
            key, pol = c
            if not pol: edges = [({0: 1, 1: 0, None: None}[v_], x) for v_, x in edges]; vals = [1 - z for z in vals]
        if isb and isinstance(key, tuple) and key and key[0] == "ite" and {key[2], key[3]} == {("b", True), ("b", False)}:
            # matches!(x, A | B): a branch on the outcome is a branch on x
            fac = key[1]; yes = set(fac[2]); av = self.variants(q, fac[1])
            no = (av - yes) if av else {("not",) + tuple(sorted(yes, key=okey))}
            if key[2] == ("b", False): yes, no = no, yes
            fx, tx = to01(edges, 0), to01(edges, 1)
            if fx is not None and tx is not None and all(isinstance(z, int) for z in yes | no):
                key = fac[1]; isb = False; vals = sorted(yes | no)
                edges = [(z, tx) for z in sorted(yes)] + [(z, fx) for z in sorted(no)] + [(None, fx)]
                pre = (yes, no, tx, fx)
        for c in self.ctx:
            if c[0] == "if" and c[1] == key:
                r = [x for v_, x in edges if v_ in c[2] or v_ is None and not (set(c[2]) & set(vals))]
                if len(set(r)) == 1: return r[0]
        # both ways
        if isb:
            have = {v_ for v_, _ in edges if v_ is not None}
            edges = [(v_ if v_ is not None else (({0, 1} - have) or {0}).copy().pop(), x) for v_, x in edges]; allv = {0, 1}
        else: allv = self.variants(q, v if not pre else key)
        groups = {}
        for v_, x in edges:
            if v_ is None and pre: continue
            vs = {v_} if v_ is not None else (allv - set(vals) if allv else {("not",) + tuple(sorted(vals))})
            groups.setdefault(x, set()).update(vs)
        j = ip.get(b, -1); outs = []; ctx = self.ctx; n0 = len(st.ev)
        for x, vs in sorted(groups.items(), key=lambda z: okey(sorted(z[1], key=okey))):
            s2 = st.copy(); self.ctx = ctx + (("if", key, tuple(sorted(vs, key=okey))),)
            try:
                e = self.run(q, fr, x, s2, set(stop) | {j})
                outs.append((vs, s2, e))
            except Dead: pass
            finally: self.ctx = ctx
        if not outs: raise Dead()
        ends = {e for _, _, e in outs}
        base = outs[-1][1]
        if len(outs) > 1: self.join(st, key, outs, n0)
        else:
            st.env, st.fld, st.items, st.ev = base.env, base.fld, base.items, base.ev
        return outs[0][2] if len(ends) == 1 else j
    def variants(self, q, v):
        l = v[3] if isinstance(v, tuple) and v and v[0] == "d" and len(v) > 3 else None
        ty = re.sub(r"^(&('\\w+ )?(mut )?)+", "", self.p.fns[q].ty(l)) if l is not None else ""
        o = v[1] if isinstance(v, tuple) and v[0] == "d" else None
        if isinstance(o, tuple) and o and o[0] == "o" and "." in str(o[1]):
            ow, n = o[1].rsplit(".", 1); a = self.p.adts.get(ow)
            if a: ty = next((z[1] for w in a["variants"] for z in w["fields"] if z[0] == n), ty)
        if ty.startswith("std::option::Option"): return {0, 1}
        a = self.p.adts.get(ty)
        if a and a["kind"] == "enum": return {int(z["discr"]) if z.get("discr") is not None else i for i, z in enumerate(a["variants"])}
        return set()
    def join(self, st, key, outs, n0):
        # the side that the others are measured against: the one with the default values
        outs = sorted(outs, key=lambda z: (len(z[1].ev), okey(sorted(z[0], key=okey))))
        base = outs[0][1]; ev = list(base.ev)
        env = dict(base.env); fld = dict(base.fld); items = {k: list(v) for k, v in base.items.items()}
        pre = {k: len(v) for k, v in st.items.items()}
        for vs, s, e in outs[1:]:
            fac = ("if", key, tuple(sorted(vs, key=okey)))
            for k in set(env) | set(s.env): env[k] = self.phi(fac, s.env.get(k), env.get(k))
            for k in set(fld) | set(s.fld):
                a, b = s.fld.get(k, ("o", k, None)), fld.get(k, ("o", k, None))
                fld[k] = self.phi(fac, a, b)
            ev += s.ev[n0:]
            for k, v in s.items.items():
                items.setdefault(k, []); items[k] += v[pre.get(k, 0):]
        st.env, st.fld, st.items, st.ev = env, fld, items, ev
    def phi(self, fac, a, b):
        if a == b: return a
        if isL(a) and isL(b): return plus(b, times(plus(a, b, -1), frozenset({fac})))
        for x, y in ((a, b), (b, a)):
            if isinstance(x, tuple) and x and x[0] == "mv" and isL(y): self.mapuse.append((x[1], y)); return y
        if boolish(a) and boolish(b):
            if a == ("b", True) and b == ("b", False) and set(fac[2]) == {1}: return ("cond", fac[1], True)
            if a == ("b", False) and b == ("b", True) and set(fac[2]) == {1}: return ("cond", fac[1], False)
            if a == ("b", True) and b == ("b", False) and set(fac[2]) == {0}: return ("cond", fac[1], False)
            if a == ("b", False) and b == ("b", True) and set(fac[2]) == {0}: return ("cond", fac[1], True)
            return ("ite", fac, a, b)
        if a is None or b is None: return None
        if max(depth(a), depth(b)) > 5: return None
        return ("u", "phi", (fac, a, b))
    # ---- loops
    def loop(self, q, fr, nb, st, t, stop):
        f = self.p.fns[q]; succ, ip = self.cfg_of(q)
        b = t["to"]; some = none = None; chain = []; k = 0
        dest = t["dest"]
        while k < 12:
            k += 1; u = f.term(b); chain.append(b)
            if u["k"] == "switch":
                for v, x in u["targets"]:
                    if int(v) == 1: some = x
                    if int(v) == 0: none = x
                some = some if some is not None else u["else"]; none = none if none is not None else u["else"]
                break
            nx = succ.get(b) or []
            if len(nx) != 1: raise Dead()
            b = nx[0]
        it = self.full(st, self.op(fr, st, t["args"][0]))
        isloop = nb in self.reach(q, some)
        exits = {x for x in self.reach(q, some) if nb not in self.reach(q, x)} if isloop else set()
        def prep(s, item):
            self.store(fr, s, dest, ("some", item), q)
            for c in chain:
                for x in f.stmts(c):
                    if x[0] == "=" and x[2][0] != "discr": self.store(fr, s, x[1], self.rvalue(fr, s, q, x[2]), q)
        def body(s, item, extra=()):
            ctx = self.ctx; self.ctx = ctx + tuple(extra)
            try:
                prep(s, item); return self.run(q, fr, some, s, set(stop) | {nb} | exits)
            finally: self.ctx = ctx
        if not isloop:
            s = st.copy()
            item, S = self.item(st, it)
            try:
                ctx = self.ctx; prep(st, item); return some
            except Dead: return none
        return self.iterate(q, fr, nb, st, it, body, none)
    def pipeline(self, q, it, body):
        """the collection behind iterator adaptors, and the body with what they do first"""
        it0 = it
        while isinstance(it, tuple) and it and it[0] in ("imap", "ifilter", "ifmap", "iflat"):
            kind, c = it[0], it[2]; body = self.adapt(q, kind, c, body); it = it[1]
        return it, body
    def adapt(self, q, kind, c, body):
        def step(s, item, extra=()):
            ctx = self.ctx; self.ctx = ctx + tuple(extra); out = [None]
            try:
                if kind == "imap": out[0] = body(s, self.apply(q, s, c, [item]))
                elif kind == "ifilter": self.guard(s, self.apply(q, s, c, [item]), lambda z: body(z, item))
                elif kind == "ifmap":
                    v = self.apply(q, s, c, [item]); self.guard(s, self.issome(s, v), lambda z: body(z, self.payload(v)))
                else: self.guard(s, self.issome(s, item), lambda z: body(z, self.payload(item)))
            finally: self.ctx = ctx
            return out[0]
        return step
    def issome(self, st, o):
        o = self.full(st, o)
        if isinstance(o, tuple) and o:
            if o[0] in ("some", "try"): return ("b", True)
            if o[0] in ("none", "err"): return ("b", False)
            if o[0] == "o" and o[1] in self.cfg: return ("b", bool(self.cfg[o[1]]))
            if o[0] == "get": return ("cond", ("new", o[1], o[2]), False)
            if o[0] == "opt": return o[1]
        return ("cond", ("d", o), True)
    def payload(self, o):
        if isinstance(o, tuple) and o and o[0] in ("some", "try"): return o[1]
        if isinstance(o, tuple) and o and o[0] == "get": return ("mv", o[1])
        if isinstance(o, tuple) and o and o[0] == "opt": return o[2]
        return o
    def guard(self, st, v, fn, other=None):
        """fn where v holds, other where it does not; the values of both, joined"""
        c = self.cond(st, v)
        if c is True: return fn(st)
        if c is False: return other(st) if other else None
        key, pol = c; n0 = len(st.ev); outs = []; ctx = self.ctx; res = {}
        if isinstance(key, tuple) and key and key[0] == "ite" and {key[2], key[3]} == {("b", True), ("b", False)}:
            yes = key[1] if key[2] == ("b", True) else None
        else: yes = None
        for val, g in ((1, fn), (0, other)):
            raw = val if pol else 1 - val
            s = st.copy()
            fac = ("if", key, (raw,)) if not (yes and raw) else yes
            if any(x[0] == "if" and x[1] == fac[1] and not set(x[2]) & set(fac[2]) for x in ctx): continue
            self.ctx = ctx + (fac,)
            try:
                r = g(s) if g else None
                outs.append((set(fac[2]), s, -1)); res[val] = r
            except Dead: pass
            finally: self.ctx = ctx
        if not outs: raise Dead()
        if len(outs) > 1: self.join(st, key if not yes else yes[1], outs, n0)
        else: s = outs[0][1]; st.env, st.fld, st.items, st.ev = s.env, s.fld, s.items, s.ev
        if len(res) == 1: return list(res.values())[0]
        return self.phi(yes if yes else ("if", key, (1 if pol else 0,)), res.get(1), res.get(0))
    def each(self, q, fr, b, st, it, body):
        """an iterator that a library function consumes"""
        def run(s, item, extra=()):
            ctx = self.ctx; self.ctx = ctx + tuple(extra)
            try: return body(s, item)
            finally: self.ctx = ctx
        self.iterate(q, fr, b, st, it, run, None)
    def iterate(self, q, fr, nb, st, it, body, none):
        def take(s): st.env, st.fld, st.items, st.ev = s.env, s.fld, s.items, s.ev
        it, body = self.pipeline(q, it, body)
        while isinstance(it, tuple) and it and it[0] == "enum" and isinstance(it[1], tuple) and it[1] and it[1][0] in ("imap",):
            c = it[1][2]; inner = body
            body = (lambda inner, c: lambda s, item, extra=(): inner(s, ("agg", (item[1][0], self.apply(q, s, c, [item[1][1]]))) if isinstance(item, tuple) and item[0] == "agg" else None, extra))(inner, c)
            it = ("enum", it[1][1])
        it, body = self.pipeline(q, it, body)
        kind, S, item = self.source(st, it)
        if kind == "none": return none
        if kind == "list":
            old = self.curpos
            for v, c, pos in S:
                s = st.copy(); self.curpos = (it[1] if it[0] == "o" else None, pos)
                try:
                    have = set(self.ctx); body(s, v, [x for x in c if x not in have]); take(s)
                except Dead: pass
                finally: self.curpos = old
            return none
        if kind == "sheets":
            self.insheet += 1; ctx = self.ctx
            if SHEET not in ctx: self.ctx = ctx + (SHEET,)
            try: return self.sheets(q, fr, nb, st, item, body, take, none)
            finally: self.insheet -= 1; self.ctx = ctx
        # one symbolic item
        ent = ("in", S)
        s1 = st.copy(); self.quiet += 1; ch = {}; mu = len(self.mapuse)
        # pass 1: which numbers change
        cells = [("e", k) for k, v in st.env.items() if isL(v)] + [("f", k) for k, v in st.fld.items() if isL(v)]
        def get(s, c): return (s.env if c[0] == "e" else s.fld).get(c[1])
        def put(s, c, v): (s.env if c[0] == "e" else s.fld)[c[1]] = v
        for c in cells: put(s1, c, plus(get(st, c), L({frozenset({("cur", c)}): 1})))
        try: body(s1, item, (ent,))
        except Dead:
            self.quiet -= 1; return none
        self.quiet -= 1; del self.mapuse[mu:]
        for c in cells:
            a, z = plus(get(st, c), L({frozenset({("cur", c)}): 1})), get(s1, c)
            if a == z: continue
            d = plus(z, a, -1) if isL(z) else None
            ch[c] = d if d is not None and not any(x[0] == "cur" for m, _ in d[1] for x in m) else None
        s2 = st.copy(); ghosts = {}
        for k2, v in s1.items.items():
            new = v[len(st.items.get(k2, [])):]
            if new and k2 in st.items:
                g = [(x, tuple(("pre", S) if y == ent else y for y in c), p) for x, c, p in new]
                s2.items[k2] = s2.items[k2] + g; ghosts[k2] = (len(st.items[k2]), len(g))
        for c, d in ch.items(): put(s2, c, plus(get(st, c), times(d, frozenset({("p", S)}))) if d is not None else None)
        body(s2, item, (ent,))
        for k2, (i, n) in ghosts.items(): s2.items[k2] = s2.items[k2][:i] + s2.items[k2][i + n:]
        for c, d in ch.items(): put(s2, c, plus(get(st, c), times(d, frozenset({("n", S)}))) if d is not None else None)
        # what the loop may have left undone
        take(s2)
        return none
    def sheets(self, q, fr, nb, st, item, body, take, none):
        flags = {k: v for k, v in st.fld.items() if k.startswith(("packager::", "workbook::")) and isinstance(v, tuple) and v and v[0] in ("b", "cond", "ite")}
        def before(k): return ("cond", ("before", k), True)
        for k in flags: st.fld[k] = before(k)
        r = self.sheets2(q, fr, nb, st, item, body, take, none)
        for k, v in flags.items():
            e = st.fld.get(k)
            if e == before(k): pass
            elif "'before'" in repr(e): pass
            else: self.ends[k] = (e, q)
            st.fld[k] = subst(e, before(k), v)
        return r
    def sheets2(self, q, fr, nb, st, item, body, take, none):
        cells = [("e", k) for k, v in st.env.items() if isL(v)] + [("f", k) for k, v in st.fld.items() if isL(v) and not k.startswith("worksheet::")]
        def get(s, c): return (s.env if c[0] == "e" else s.fld).get(c[1])
        def put(s, c, v): (s.env if c[0] == "e" else s.fld)[c[1]] = v
        def name(c):
            if c[0] == "f": return c[1]
            l = c[1][1]; f = self.p.fns[q]
            return "%s %s" % (q.rsplit("::", 1)[-1], (f.lname(l) if c[1][0] == fr else None) or "_%s" % l) + (" %d" % nb)
        s1 = st.copy()
        if isinstance(item, tuple) and item[0] == "agg" and item[1][0] == ("sheetindex",):
            n = "%s index %d" % (q.rsplit("::", 1)[-1], nb); self.counters[n] = (num(0), num(1), q)
            item = ("agg", (L({frozenset({("ctr", n)}): 1}),) + item[1][1:])
        for c in cells: put(s1, c, L({frozenset({("ctr", name(c))}): 1}))
        n = len(st.ev); mu = len(self.mapuse)
        try: body(s1, item)
        except Dead: return none
        ch = [c for c in cells if get(s1, c) != L({frozenset({("ctr", name(c))}): 1})]
        del self.mapuse[mu:]
        s2 = st.copy()
        for c in ch: put(s2, c, L({frozenset({("ctr", name(c))}): 1}))
        body(s2, item)
        for c in ch:
            z = get(s2, c); a = L({frozenset({("ctr", name(c))}): 1})
            self.counters[name(c)] = (get(st, c), plus(z, a, -1) if isL(z) else None, q)
            put(s2, c, L({frozenset({("tot", name(c))}): 1}))
        # the others keep what they had
        take(s2)
        return none
    def reach(self, q, b):
        succ, _ = self.cfg_of(q); k = ("reach", q, b)
        if k not in self.memo:
            seen = set(); w = [b]
            while w:
                x = w.pop()
                if x in seen: continue
                seen.add(x); w += succ.get(x, [])
            self.memo[k] = seen
        return self.memo[k]
    def item(self, st, it):
        return ("it", it), it
    def source(self, st, it):
        """what an iterator yields: (kind, S, item)"""
        enum = False
        while isinstance(it, tuple) and it and it[0] == "enum": it = it[1]; enum = True
        it = self.full(st, it)
        if isinstance(it, tuple) and it and it[0] == "range":
            lo, hi = self.full(st, it[1]), self.full(st, it[2])
            if isL(lo) and isL(hi):
                d = plus(hi, lo, -1)
                if isnum(d) and intval(d) <= 0: return "none", None, None
                S = ("range", show(d)) if not (len(d[1]) == 1 and d[1][0][1] == 1 and len(d[1][0][0]) == 1 and list(d[1][0][0])[0][0] in ("n", "tot")) else list(d[1][0][0])[0]
                S = S[1] if S[0] == "n" else S
                if self.cfg.get(S) is False: return "none", None, None
                return "one", S, plus(lo, L({frozenset({("p", S)}): 1}))
            return "one", ("range", short(it)), None
        if isinstance(it, tuple) and it and it[0] == "o":
            if it[1] == self.SHEETS:
                w = ("own", "worksheet::Worksheet")
                return "sheets", None, ("agg", (("sheetindex",), w)) if enum else w
            if it[1] in st.items: return "list", list(st.items[it[1]]), None
            if self.cfg.get(it[1]) is False: return "none", None, None
            i = ("it", it[1])
            return "one", it[1], ("agg", (L({frozenset({("p", it[1])}): 1}), i)) if enum else i
        if isinstance(it, tuple) and it and it[0] == "vec0":
            its = st.items.get(it) or []
            if not its: return "none", None, None
            if len(its) == 1 and its[0][1] == (SHEET,) and not self.insheet: return "sheets", None, ("agg", (("sheetindex",), its[0][0])) if enum else its[0][0]
            if any(SHEET in c for _, c, _p in its) and not self.insheet: return "one", ("it", short(it)), None
            return "list", list(its), None
        if isinstance(it, tuple) and it and it[0] == "agg": return "list", [(x, (), None) for x in it[1]], None
        S = ("it", short(it)); i = ("it", S)
        return "one", S, ("agg", (L({frozenset({("p", S)}): 1}), i)) if enum else i
    # ---- calls
    def call(self, q, fr, b, st, t):
        n = callee(t); m = n.rsplit("::", 1)[-1]; raw = [self.op(fr, st, o) for o in t["args"]]; a = [self.full(st, x) for x in raw]
        f = self.p.fns[q]
        if "xmlwriter" in n and m.startswith("xml_"):
            tag = a[1] if len(a) > 1 else None
            if isinstance(tag, tuple) and tag[0] == "s": self.event(st, "tag", q, tag[1])
            return None
        if m == "start_file" or m == "start_file_from_path" or m == "add_directory":
            self.event(st, "part", q, a[1] if len(a) > 1 else None); return None
        if "ContentTypes" in n and m in ("add_override", "add_default"):
            self.event(st, m[4:], q, a[1], a[2]); return None
        if "Relationship::" in n and m in REL:
            k, i, j, l = REL[m]; pre = ("s", "") if k != "office" else a[1]
            self.event(st, "rel", q, k, a[1 + i], a[1 + j], a[1 + l] if l is not None else ("s", ""), pre, self.curpos); return None
        if n.endswith("Relationship::new"): self.event(st, "newrels", q)
        if m == "branch": return ("try", a[0])
        if m == "from_residual": raise Dead()
        if m in ("new", "with_capacity", "default") and re.search(r"\b(Vec|String|HashMap|HashSet|BTreeMap|BTreeSet|IndexMap|IndexSet)\b", n) and (n.startswith(("std::", "<std::", "alloc::")) or n not in self.p.fns):
            if "Vec" in n:
                st.items[("vec0", q, b)] = []
                return ("vec0", q, b)
            if "String" in n: return ("s", "")
            st.items[("map", q, b, self.insheet > 0)] = []
            return ("map", q, b, self.insheet > 0)
        if m == "new" and "Arguments" in n and len(a) == 2 and a[0] and a[0][0] == "bytes":
            vals = a[1][1] if isinstance(a[1], tuple) and a[1] and a[1][0] == "agg" else ()
            out = []
            for x in decode_template(a[0][1]):
                if isinstance(x, str): out.append(x)
                else:
                    v = self.full(st, vals[x[1]]) if x[1] < len(vals) else None
                    if isinstance(v, tuple) and v and v[0] == "s": out.append(v[1])
                    elif isinstance(v, tuple) and v and v[0] == "t": out += v[1]
                    else: out.append(v)
            return template(out)
        if m in ("from_str", "from_str_nonconst", "new_const") and "Arguments" in n and a: return a[0] if a[0] and a[0][0] != "agg" else a[0][1][0]
        if m == "format" and a: return a[0]
        if m == "enumerate" and a: return ("enum", a[0])
        if m in ("new",) and "RangeInclusive" in n and len(a) == 2: return ("range", a[0], plus(a[1], num(1)) if isL(a[1]) else a[1])
        if m == "is_empty" and a: return neg(self.nonempty(st, a[0]))
        if m in ("is_some", "is_none") and a:
            o = a[0]
            if isinstance(o, tuple) and o:
                if o[0] == "some": return ("b", m == "is_some")
                if o[0] == "none": return ("b", m == "is_none")
                if o[0] == "o" and o[1] in self.cfg: return ("b", bool(self.cfg[o[1]]) == (m == "is_some"))
                if o[0] == "get": return ("cond", ("new", o[1], o[2]), m == "is_none")
            return ("cond", ("some", o), m == "is_some")
        if m in ("len", "count") and len(a) == 1: return self.length(st, a[0])
        if a and m in ("get", "contains", "contains_key", "get_key_value") and len(a) == 2:
            if ismap(a[0]): return ("get", a[0], norm(a[1])) if m.startswith("get") else ("cond", ("new", a[0], norm(a[1])), False)
        if a and m == "insert" and len(a) >= 2 and ismap(a[0]):
            if len(a) == 3:
                self.mapvals.setdefault(a[0], []).append(a[2]); c = ("if", ("new", a[0], norm(a[1])), (1,))
                st.items.setdefault(a[0], []).append((a[1], self.ctx if c in self.ctx else self.ctx + (c,), None))
            return ("cond", ("new", a[0], norm(a[1])), True)
        if a and m in ("push", "push_back") and len(a) == 2 and isinstance(a[0], tuple) and a[0]:
            v = a[1]
            if isinstance(v, tuple) and v and v[0] == "agg": v = ("agg", tuple(self.full(st, x) for x in v[1]))
            if a[0][0] == "vec0": st.items.setdefault(a[0], []).append((v, self.ctx, None))
            if a[0][0] == "o":
                pos = self.length(st, a[0]) if a[0][1] in st.items else num(0)
                st.items.setdefault(a[0][1], []).append((v, self.ctx, pos)); self.event(st, "push", q, a[0][1], v, pos)
            return None
        if a and m == "clear" and isinstance(a[0], tuple) and a[0] and a[0][0] == "o": st.items[a[0][1]] = []; return None
        if m == "append" and len(a) == 2 and isinstance(a[1], tuple) and a[1] and a[1][0] == "o":
            st.items[a[1][1]] = []; return None
        if m == "clone_from" and len(raw) == 2:
            if isinstance(raw[0], tuple) and raw[0] and raw[0][0] == "ref":
                c = raw[0][1]
                if c[0] == "f": self.setfld(st, c[1], a[1], q)
                else: st.env[c[1:]] = a[1]
            elif isinstance(raw[0], tuple) and raw[0] and raw[0][0] == "o": self.setfld(st, raw[0][1], a[1], q)
            return None
        if m == "to_string" and a and isL(a[0]): return template([a[0]])
        if m in ("scope", "spawn") and "thread" in n:
            for c in a:
                if isinstance(c, tuple) and c and c[0] in ("clos", "clos0"): self.closure(q, st, c)
            return None
        isfn = len(a) >= 2 and isinstance(a[-1], tuple) and a[-1] and a[-1][0] in ("clos", "clos0", "fn")
        if "Iterator" in n or "iter::" in n:
            if m in ("for_each", "try_for_each") and isfn:
                self.each(q, fr, b, st, a[0], lambda s, item: self.apply(q, s, a[1], [item])); return None
            if m in ("any", "all") and isfn:
                key = "workbook::any %s %d" % (q.rsplit("::", 1)[-1], b); st.fld[key] = ("b", False)
                def found(z): z.fld[key] = ("b", True)
                def test(s, item):
                    v = self.apply(q, s, a[1], [item])
                    if v is None: v = ("u", "any", (q, b))
                    self.guard(s, v if m == "any" else neg(v), found)
                self.each(q, fr, b, st, a[0], test)
                r = st.fld.pop(key); return r if m == "any" else neg(r)
            if m == "map" and isfn: return ("imap", a[0], a[1])
            if m == "filter" and isfn: return ("ifilter", a[0], a[1])
            if m == "filter_map" and isfn: return ("ifmap", a[0], a[1])
            if m == "flatten" and len(a) == 1: return ("iflat", a[0], None) if isinstance(a[0], tuple) and a[0] and a[0][0] in ("agg", "imap", "ifilter") else a[0]
            if m in ("count", "sum") and len(a) == 1 and isinstance(a[0], tuple) and a[0] and (m == "sum" or a[0][0] in ("imap", "ifilter", "ifmap")):
                key = "workbook::sum %s %d" % (q.rsplit("::", 1)[-1], b); st.fld[key] = num(0)
                def add(s, item):
                    v = num(1) if m == "count" else self.full(s, item); o = s.fld.get(key)
                    s.fld[key] = plus(o, v) if isL(o) and isL(v) else None
                self.each(q, fr, b, st, a[0], add)
                return st.fld.pop(key, None) or ("u", m, (q, b))
            if m == "collect" and len(a) == 1 and isinstance(a[0], tuple) and a[0]:
                if a[0][0] in ("o", "vec0", "agg"): return a[0]
                if "Vec<" in f.ty(t["dest"][0])[:60] and len(t["dest"]) == 1:
                    key = ("vec0", q, b); st.items[key] = []
                    self.each(q, fr, b, st, a[0], lambda s, item: s.items.setdefault(key, []).append((item, self.ctx, None)))
                    return key
        if m == "extend" and len(a) == 2 and isinstance(a[0], tuple) and a[0] and a[0][0] in ("o", "vec0"):
            def put(s, item):
                if a[0][0] == "vec0": s.items.setdefault(a[0], []).append((item, self.ctx, None)); return
                pos = self.length(s, a[0]) if a[0][1] in s.items else num(0)
                s.items.setdefault(a[0][1], []).append((item, self.ctx, pos)); self.event(s, "push", q, a[0][1], item, pos)
            self.each(q, fr, b, st, a[1], put); return None
        if "Option" in n and isfn or m in ("then", "then_some") and "bool" in n:
            if m == "map": return self.option(st, a[0], lambda z, v: ("some", self.apply(q, z, a[1], [v])), lambda z: ("none",))
            if m == "and_then": return self.option(st, a[0], lambda z, v: self.apply(q, z, a[1], [v]), lambda z: ("none",))
            if m == "is_some_and": return self.option(st, a[0], lambda z, v: self.apply(q, z, a[1], [v]), lambda z: ("b", False))
            if m == "map_or" and len(a) == 3: return self.option(st, a[0], lambda z, v: self.apply(q, z, a[2], [v]), lambda z: a[1])
            if m == "map_or_else" and len(a) == 3: return self.option(st, a[0], lambda z, v: self.apply(q, z, a[2], [v]), lambda z: self.apply(q, z, a[1], []))
            if m == "then": return self.guard(st, a[0], lambda z: ("some", self.apply(q, z, a[1], [])), lambda z: ("none",)) or ("opt", a[0], None)
            if m == "then_some" and len(a) == 2: return ("opt", a[0], a[1])
        if m == "unwrap_or" and len(a) == 2 and "Option" in n: return self.option(st, a[0], lambda z, v: v, lambda z: a[1])
        if m == "entry" and len(a) == 2 and ismap(a[0]): return ("entry", a[0], a[1])
        if m in ("or_insert", "or_insert_with", "or_default") and isinstance(a[0], tuple) and a[0] and a[0][0] == "entry":
            mp, ky = a[0][1], norm(a[0][2])
            def make(z):
                v = self.full(z, a[1]) if m == "or_insert" else self.apply(q, z, a[1], []) if m == "or_insert_with" else ("u", "default", ())
                self.mapvals.setdefault(mp, []).append(v); z.items.setdefault(mp, []).append((a[0][2], self.ctx, None)); return v
            return self.guard(st, ("cond", ("new", mp, ky), True), make, lambda z: ("mv", mp))
        if n.startswith(("std::mem::", "core::mem::")) and m in ("take", "replace", "swap"):
            def cell(x): return x[1] if isinstance(x, tuple) and x and x[0] == "ref" else ("f", x[1], None) if isinstance(x, tuple) and x and x[0] == "o" else None
            def held(c, v):
                if c is not None and c[0] == "f" and isinstance(v, tuple) and v and v[0] == "o" and v[1] in st.items:
                    k2 = ("vec0", q, b, c[1]); st.items[k2] = list(st.items[v[1]]); return k2
                return v
            def put(c, v):
                if c is None: return
                if c[0] == "f":
                    if isinstance(v, tuple) and v and v[0] == "vec0": st.items[c[1]] = list(st.items.get(v, [])); st.fld.pop(c[1], None)
                    else: self.setfld(st, c[1], v, q)
                else: st.env[c[1:]] = v
            c0 = cell(raw[0]); v0 = held(c0, a[0])
            if m == "swap":
                c1 = cell(raw[1]); v1 = held(c1, a[1]); put(c0, v1); put(c1, v0); return None
            if m == "replace": put(c0, a[1]); return v0
            if isL(a[0]): put(c0, num(0))
            elif boolish(a[0]): put(c0, ("b", False))
            elif c0 is not None and c0[0] == "f": st.items[c0[1]] = []; st.fld.pop(c0[1], None)
            elif c0 is not None and isinstance(a[0], tuple) and a[0] and a[0][0] == "vec0":
                k2 = ("vec0", q, b, "taken"); st.items[k2] = list(st.items.get(a[0], [])); st.items[a[0]] = []; return k2
            return v0
        if m == "add" and len(a) == 2 and "String" in n or m in ("push_str", "write_str") and len(a) == 2 and "String" in n:
            def ps(v): return [v[1]] if isinstance(v, tuple) and v and v[0] == "s" else list(v[1]) if isinstance(v, tuple) and v and v[0] == "t" else [v]
            r = template(ps(a[0]) + ps(a[1]))
            if m == "add": return r
            if isinstance(raw[0], tuple) and raw[0] and raw[0][0] == "ref":
                c = raw[0][1]
                if c[0] == "f": self.setfld(st, c[1], r, q)
                else: st.env[c[1:]] = r
            return None
        gs = [g for g in self.p.callees(t) if g in self.p.fns]
        if len(gs) == 1 and self.depth < 9 and self.wanted(gs[0]):
            return self.inline(gs[0], st, raw)
        if m == "cmp" or m == "eq" or m == "ne" and len(a) == 2:
            if m in ("eq", "ne") and len(a) == 2:
                x, y = (a[1], a[0]) if isinstance(a[0], tuple) and a[0][:1] == ("var",) else (a[0], a[1])
                if isinstance(y, tuple) and y[:1] == ("var",) and isinstance(x, tuple) and x:
                    i = next((i if z.get("discr") is None else int(z["discr"]) for i, z in enumerate(self.p.adts[y[1]]["variants"]) if z["name"] == y[2]), None)
                    if x[:1] == ("var",) and x[1] == y[1]: return ("b", (x[2] == y[2]) == (m == "eq"))
                    if i is not None and x[0] == "o": return ("ite", ("if", ("d", x), (i,)), ("b", m == "eq"), ("b", m != "eq"))
            if m in ("eq", "ne"): return positive_form("Eq" if m == "eq" else "Ne", a[0], a[1])
        if m in ("then_some", "then"): return ("u", m, tuple(a[:1]))
        if m in IDENT and a and not (m == "take" and len(a) > 1):
            if m in ("unwrap", "expect", "unwrap_or_default") and isinstance(a[0], tuple) and a[0] and a[0][0] == "some": return a[0][1]
            return raw[0] if m not in ("clone", "to_owned", "cloned", "copied", "into", "from", "to_string") else a[0]
        if m == "extension" or len(gs) == 1: return ("u", n, tuple(cut(x) for x in a[:2]))
        return ("u", n, tuple(cut(x) for x in a[:2])) if max([depth(x) for x in a] + [0]) < 5 else ("u", n, (q, b))
    def option(self, st, o, fn, other):
        return self.guard(st, self.issome(st, o), lambda z: fn(z, self.payload(self.full(z, o))), other)
    def closure(self, q, st, c, item=None): return self.apply(q, st, c, [item])
    def apply(self, q, st, c, args):
        c = self.full(st, c)
        if not (isinstance(c, tuple) and c): return None
        if c[0] == "clos0":
            g = next((x for x in self.p.fns if "{closure" in x and self.p.fns[x].nargs and re.sub(r"^&(mut )?", "", self.p.fns[x].ty(1)) == c[1]), None)
        elif c[0] == "clos": g = c[1]
        elif c[0] == "fn":
            g = c[1]
            if g in self.p.fns and self.wanted(g): return self.inline(g, st, args)
            if g.rsplit("::", 1)[-1] in IDENT and args: return args[0]
            return ("u", g, tuple(cut(x) for x in args))
        else: return None
        if g not in self.p.fns or self.depth > 10: return None
        f = self.p.fns[g]; n = f.nargs - 1
        args = [x if x is not None else ("u", "arg", ()) for x in args][:n]
        return self.inline(g, st, [c] + args + [("u", "arg", ())] * (n - len(args)))
    def wanted(self, g):
        if g in self.interesting: return True
        f = self.p.fns[g]; r = re.sub(r"^&", "", f.ty(0))
        if g.endswith("::new") and f.nargs == 0 and r.rsplit("::", 1)[-1] in SPREAD: return True
        if f.nargs == 1 and len(f.blocks) < 12 and g.rsplit("::", 1)[-1] in ("target", "target_mode"): return True
        return (r == "bool" or INT.match(r)) and len(f.blocks) < 60 and f.nargs <= 3 and g.split("::")[-1].startswith(("has_", "is_", "increment", "num_", "count")) 
    def inline(self, g, st, args):
        self.fid += 1; fr = self.fid; f = self.p.fns[g]
        for i, v in enumerate(args): st.env[(fr, i + 1)] = v
        self.depth += 1; self.touched.add(g)
        try: self.run(g, fr, 0, st, set())
        finally: self.depth -= 1
        r = st.env.get((fr, 0))
        for k in [k for k in st.env if k[0] == fr]: del st.env[k]
        return r

CACHE = {}
SHEET = ("in", Pkg.SHEETS)
SPREAD = ("PackagerOptions", "Drawing")
def ismap(v): return isinstance(v, tuple) and v and (v[0] == "map" or v[0] == "o" and ("ids" in v[1] or "index" in v[1] or "unique" in v[1] or "names" in v[1]))
def norm(v): return v
def cut(v): return v if depth(v) < 4 else ("u", "...", ())
def depth(v):
    if not isinstance(v, tuple): return 0
    return 1 + max([depth(x) for x in v] + [0]) if v and v[0] in ("u", "phi", "ite", "cond") else 0
def subst(e, a, b):
    if e == a: return b
    if isinstance(e, tuple):
        if e and e[0] == "cond" and e[1] == a[1]: return b if e[2] else neg(b)
        if e and e[0] == "ite":
            x, y = subst(e[2], a, b), subst(e[3], a, b); one = set(e[1][2]) == {1}; zero = set(e[1][2]) == {0}
            if x == y: return x
            if (one or zero) and x == ("b", True) and y == ("b", False): return ("cond", e[1][1], one)
            if (one or zero) and x == ("b", False) and y == ("b", True): return ("cond", e[1][1], zero)
            return ("ite", e[1], x, y)
        return tuple(subst(x, a, b) for x in e)
    return e
def boolish(z): return isinstance(z, tuple) and bool(z) and z[0] in ("b", "cond", "ite")
def neg(v):
    if isinstance(v, tuple) and v:
        if v[0] == "b": return ("b", not v[1])
        if v[0] == "cond": return ("cond", v[1], not v[2])
        if v[0] == "ite": return ("ite", v[1], neg(v[2]), neg(v[3]))
    return ("cond", v, False)
def positive_form(n, a, b):
    """comparisons with zero: a > 0, a != 0, 0 < a"""
    z = num(0)
    if n == "Lt": a, b, n = b, a, "Gt"
    if n == "Eq" and a == z: a, b = b, a
    if n == "Ne" and a == z: a, b = b, a
    if b == z and n in ("Gt", "Ne"): return ("cond", ("positive", a), True)
    if b == z and n == "Eq": return ("cond", ("positive", a), False)
    if n == "Ne": return ("cond", ("Eq", a, b), False)
    if n == "Eq": return ("cond", ("Eq", a, b), True)
    return ("u", n, (a, b))
def template(out):
    m = []
    for x in out:
        if isinstance(x, str) and m and isinstance(m[-1], str): m[-1] += x
        elif isnum(x):
            s = str(intval(x))
            if m and isinstance(m[-1], str): m[-1] += s
            else: m.append(s)
        else: m.append(x)
    if not m: return ("s", "")
    if len(m) == 1 and isinstance(m[0], str): return ("s", m[0])
    return ("t", tuple(m))
def mono(c, ctx=()):
    """the number of times that something under the context c happens: inside a loop
    that is still running, the number of earlier times"""
    out = set()
    running = {x for x in ctx if x[0] == "in"}
    for x in c:
        if x[0] == "pre": out.add(("p", x[1]))
        elif x[0] == "in":
            if x not in running: out.add(("n", x[1]))
        else: out.add(("if",) + x[1:])
    return frozenset(out)

# ---- the driver
W = "worksheet::Worksheet."
KINDS = ("images", "charts", "shapes", "notes", "tables", "header_footer_images", "background_image", "hyperlinks")
def operands(x):
    if isinstance(x, dict): yield x
    elif isinstance(x, list):
        for y in x: yield from operands(y)
def strs(f):
    for b in f.reachable():
        for x in f.stmts(b):
            if x[0] == "=":
                for o in operands(x[2]):
                    if isinstance(o, dict) and o.get("c") == "str": yield o["v"]
def interesting(p):
    """the functions that take part in the assembly: those with an event, and their callers"""
    key = ("interesting", id(p))
    if key in CACHE: return CACHE[key]
    tf = p.direct_fields()
    tracked = {f for a in p.adts.values() if a["path"].rsplit("::", 1)[-1] == "Worksheet" for v in a["variants"] for f0 in v["fields"] for f in [a["path"] + "." + f0[0]] if "relationship" in f0[0] or "rel_count" in f0[0] or f0[0] == "image_types"}
    tracked |= {"drawing::Drawing.drawings"}
    tracked |= {a["path"] + "." + f0[0] for a in p.adts.values() for v in a["variants"] for f0 in v["fields"] if f0[0] == "rel_id"}
    def evs(f):
        for b, t in f.calls():
            n = callee(t); m = n.rsplit("::", 1)[-1]
            if m == "start_file" or m in ("add_override", "add_default") and "ContentTypes" in n or m in REL and "Relationship::" in n: return True
        if any(s in RIDS for s in strs(f)): return True
        df = tf.get(f.path)
        return bool(df and (df[1] & tracked or any(x.startswith("packager::PackagerOptions.") for x in df[1])))
    ints = set(); w = [q for q, f in p.fns.items() if evs(f) and not (re.search(r"\b(Drawing|Vml)\b", q) and "start_file" not in str(f.blocks) and any(s in RIDS for s in strs(f)))]; callers = p.callers()
    while w:
        x = w.pop()
        if x in ints: continue
        ints.add(x); w += callers.get(x, ())
    CACHE[key] = ints
    return ints
def root(p):
    r = [x for x in p.fns if x.endswith("assemble_file") and "ackager" in x]
    return sorted(q for x in r for q in p.callers().get(x, ()) if q in p.fns)
def analyse(p, on, chartsheet=False, memory=False, vml=None):
    """the events of saving a workbook whose worksheets hold the kinds of objects in `on`"""
    cfg = {W + k: k in on for k in KINDS}
    cfg[W + "has_vml"] = "notes" in on if vml is None else vml
    cfg[W + "is_chartsheet"] = chartsheet; cfg[W + "use_constant_memory"] = memory
    k = Pkg(p, cfg, interesting(p)); st = St(); r = root(p)
    if len(r) != 1: return None
    k.inline(r[0], st, [("own", "workbook::Workbook"), ("u", "w", ()), ("u", "x", ())][:p.fns[r[0]].nargs])
    k.events = st.ev; k.st = st
    return k
