"""Whole-program value flow (field based, flow insensitive, over MIR).

Nodes:  (fn, local)   text-like values of a function
        "Owner.field"  content of a field of a crate type
        (fn, "ret")    return value
Values of crate types are tracked through their fields; strings, containers
of strings, options of strings ... through the local that holds them.
"""
import re, collections
from mir import *

TOK = re.compile(r"[A-Za-z_][A-Za-z0-9_]*")
NOTEXT = re.compile(r"Cursor<|BufWriter<|ZipWriter<|std::fs::File|io::Error|\bMutex|XlsxError")

def textlike(ty, adts=()):
    t = strip_refs(ty)
    if t in ("bool", "char", "f64", "f32", "usize", "()", "!") or re.fullmatch(r"[iu](8|16|32|64|128|size)", t): return False
    if NOTEXT.search(t): return False
    if "[u8]" in t or "Vec<u8>" in t: return True
    for w in TOK.findall(t):
        if w in ("str", "String", "OsString", "OsStr", "Path", "PathBuf"): return True
        if w in ("Arguments", "Argument"): return True
        if len(w) <= 2 and w[0].isupper(): return True      # type parameter
        if w == "impl": return True
    return False

MUTDEST = ("&mut ", "Entry<", "IterMut")

class Flow:
    def __init__(self, prog, carries=textlike, sanitizers=(), sinkcall=None, skipcall=None):
        """sanitizers: functions whose result carries nothing;
        sinkcall(fn, block, term) -> list of (operand, label): operands observed;
        skipcall(term) -> True: external call without flow"""
        self.p = prog; self.carries = carries; self.san = sanitizers
        self.succ = collections.defaultdict(set); self.sinks = collections.defaultdict(set)
        self.sinkcall = sinkcall or (lambda *a: []); self.skipcall = skipcall or (lambda t: False)
        self.carry_cache = {}
        for f in prog.fns.values(): self.build(f)

    def cutfield(self, f, e): return False

    def can(self, ty):
        c = self.carry_cache.get(ty)
        if c is None: c = self.carry_cache[ty] = self.carries(ty)
        return c

    def fieldtype(self, owner, fld):
        if not hasattr(self, "_ft"):
            self._ft = {}
            for a, r in self.p.adts.items():
                for v in r["variants"]:
                    o = a if r["kind"] == "struct" else a + "::" + v["name"]
                    for n, t, *_ in v["fields"]: self._ft[(o, str(n))] = t
        return self._ft.get((owner, str(fld)))

    def constcomp(self, f):
        """components of tuple types that only ever hold constants in this
        function: {(tuple type, index)}"""
        if not hasattr(self, "_cc"): self._cc = {}
        if f.path in self._cc: return self._cc[f.path]
        out = self._cc[f.path] = set()
        defs = collections.defaultdict(list); aggs = collections.defaultdict(list); alien = set()
        def seen(ty): alien.add(re.sub(r"'[a-z_]+ ", "", ty))
        for i in range(1, f.nargs + 1): seen(f.ty(i))
        for b in f.live_blocks():
            for st in f.stmts(b):
                if st[0] != "=": continue
                if len(st[1]) == 1: defs[st[1][0]].append(st[2])
                elif st[1][-1][0] == "()" if isinstance(st[1][-1], list) else False: alien.add(re.sub(r"'[a-z_]+ ", "", strip_refs(f.ty(st[1][0]))))
                if st[2][0] == "agg" and st[2][1] == "tuple" and len(st[1]) == 1: aggs[re.sub(r"'[a-z_]+ ", "", f.ty(st[1][0]))].append(st[2][2])
                for pl in ([st[2][2]] if st[2][0] == "ref" else [o["p"] for o in rv_operands(st[2]) if "p" in o]):
                    for e in pl[1:]:
                        if isinstance(e, list) and is_field(e) and e[0] not in ("()", "{closure}"):
                            t = self.fieldtype(e[0], e[1])
                            if t is not None: seen(t)
            t = f.term(b)
            if t["k"] == "call":
                if len(t["dest"]) == 1: defs[t["dest"][0]].append(None)
                if self.p.callees(t): seen(f.ty(t["dest"][0]))
        if not aggs: return out
        def const(o, d=0):
            if "c" in o: return True
            if len(o["p"]) != 1 or o["p"][0] <= f.nargs or d > 6: return False
            l = defs.get(o["p"][0], [])
            return bool(l) and all(rv is not None and ((rv[0] in ("use", "cast") and all(const(x, d + 1) for x in rv_operands(rv))) or
                       (rv[0] == "ref" and not rv[1] and [e for e in rv[2][1:] if e != "*"] == [] and const({"p": [rv[2][0]]}, d + 1))) for rv in l)
        for ty, l in aggs.items():
            if any(ty in a for a in alien): continue
            for i in range(len(l[0])):
                if all(len(x) > i and const(x[i]) for x in l): out.add((ty, str(i)))
        return out

    def place(self, f, pl):
        """node of a place"""
        if len(pl) > 1 and isinstance(pl[-1], list) and pl[-1][0] == "()":
            cc = self.constcomp(f)
            if cc:
                # the tuple is the local itself, or what an Option / a container of it holds
                ty = re.sub(r"'[a-z_]+ ", "", f.ty(pl[0]))
                hit = [c for c in cc if c[0] in ty]
                if len({c[0] for c in hit}) == 1 and (hit[0][0], str(pl[-1][1])) in cc and sum(1 for e in pl[1:] if isinstance(e, list) and e[0] == "()") == 1 \
                        and ty.count("(") == hit[0][0].count("("): return None
        for e in reversed(pl[1:]):
            if isinstance(e, list) and self.cutfield(f, e): return None
            if isinstance(e, list) and is_field(e) and e[0] not in ("()", "{closure}"):
                ft = self.fieldtype(e[0], e[1])
                if ft is not None:
                    return e[0] + "." + e[1] if self.can(ft) else None
                # field of an external type (Option::Some.0 ...): the container carries
        return (f.path, pl[0]) if self.can(f.ty(pl[0])) or self.upvar(f, pl) else None

    def wplace(self, f, pl):
        """node that a write to the place goes to"""
        n = self.place(f, pl)
        if isinstance(n, tuple) and "*" in pl[1:] and f.ty(pl[0]).startswith("&mut"): return self.w(n)
        return n

    def w(self, n):
        """what is written through the mutable reference n"""
        if n is None: return None
        k = (n[0], n[1], "w")
        self.succ[k].add(n)
        return k

    def upvar(self, f, pl):
        return False

    def op(self, f, o):
        return self.place(f, o["p"]) if "p" in o else None

    def edge(self, a, b):
        if a is not None and b is not None and a != b: self.succ[a].add(b)

    def build(self, f):
        for b in f.reachable():
            if f.cleanup(b): continue
            for st in f.stmts(b):
                if st[0] != "=": continue
                d = self.wplace(f, st[1]); rv = st[2]
                if rv[0] == "ref":
                    s = self.place(f, rv[2])
                    self.edge(s, d)
                    if rv[1] and isinstance(d, tuple): self.edge(self.w(d), self.wplace(f, rv[2]))
                elif rv[0] == "agg":
                    k = rv[1]
                    own = None
                    if isinstance(k, dict) and "adt" in k: own = k
                    if own:
                        adt = own["adt"]; var = own.get("variant")
                        r = self.p.adts.get(adt)
                        if r:
                            vs = [v for v in r["variants"] if v["name"] == var] or r["variants"]
                            o = adt if r["kind"] == "struct" else adt + "::" + vs[0]["name"]
                            for (n, t, *_), x in zip(vs[0]["fields"], rv[2]):
                                if self.can(t): self.edge(self.op(f, x), o + "." + str(n))
                            continue
                    if isinstance(k, dict) and "closure" in k:
                        g = self.p.fns.get(k["closure"])
                        for i, x in enumerate(rv[2]):
                            s = self.op(f, x)
                            if s is not None and g is not None:
                                n = (g.path, "up%d" % i); self.edge(s, n)
                                if isinstance(s, tuple): self.edge(self.w(n), self.w(s[:2]) if f.ty(x["p"][0]).startswith("&mut") else s)
                                else: self.edge(self.w(n), s)
                        continue
                    for x in rv[2]: self.edge(self.op(f, x), d)
                else:
                    for x in rv_operands(rv):
                        n = self.op(f, x); self.edge(n, d)
                        if isinstance(n, tuple) and isinstance(d, tuple) and len(d) == 2 and f.ty(st[1][0]).startswith("&mut") and len(st[1]) == 1:
                            self.edge(self.w(d), self.w(n))
            t = f.term(b)
            if t["k"] == "call": self.buildcall(f, b, t)
            elif t["k"] == "return": pass
        if self.can(f.ty(0)):
            self.edge((f.path, 0), (f.path, "ret"))
            if "&mut" in f.ty(0): self.edge(self.w((f.path, "ret")), self.w((f.path, 0)))
        # closure upvars: reads of {closure}.i
        if "{closure#" in f.path:
            for b in f.live_blocks():
                for st in f.stmts(b):
                    if st[0] != "=": continue
                    pls = []
                    if st[2][0] == "ref": pls = [st[2][2]]
                    else: pls = [o["p"] for o in rv_operands(st[2]) if "p" in o]
                    for pl in pls:
                        if pl[0] == 1:
                            for e in pl[1:]:
                                if isinstance(e, list) and e[0] == "{closure}":
                                    d = self.place(f, st[1])
                                    n = (f.path, "up%s" % e[1]); self.edge(n, d)
                                    if isinstance(d, tuple): self.edge(self.w(d[:2]), self.w(n))
                t = f.term(b)
                if t["k"] == "call":
                    for o in t["args"]:
                        if "p" in o and o["p"][0] == 1: pass

    def closure_args(self, f, t):
        out = []
        for o in t["args"]:
            ty = o.get("ty") or (f.ty(o["p"][0]) if "p" in o else "")
            for m in re.finditer(r"\{closure@[^}]*\}", ty or ""): out.append(m.group(0))
        return out

    def buildcall(self, f, b, t):
        name = t.get("res") or t.get("f") or ""
        for o, lab in self.sinkcall(f, b, t):
            n = self.op(f, o)
            if n is not None: self.sinks[n].add(lab)
        d = self.wplace(f, t["dest"])
        cs = self.p.callees(t)
        if cs:
            for c in cs:
                g = self.p.fns[c]
                if c in self.san: continue
                for i, o in enumerate(t["args"]):
                    n = self.op(f, o)
                    if n is None or i + 1 > g.nargs or not self.can(g.ty(i + 1)): continue
                    self.edge(n, (c, i + 1))
                    if g.ty(i + 1).startswith("&mut"): self.edge(self.w((c, i + 1)), self.w(n) if isinstance(n, tuple) else n)
                self.edge((c, "ret"), d)
                if isinstance(d, tuple) and len(d) == 2 and "&mut" in f.ty(t["dest"][0]): self.edge(self.w(d), self.w((c, "ret")))
            return
        if name in self.san or any(name.endswith("::" + s) for s in self.san): return
        if self.skipcall(t): return
        # text of a crate type: what its Display writes
        if name.endswith("ToString::to_string") or "Argument::<'_>::new_" in name or name.endswith("::fmt"):
            for a in t.get("targs", []):
                di = self.p.display_impl(a)
                if di: self.edge((di, "fmtout"), d)
        if "Formatter" in name:
            for o in t["args"][1:]: self.edge(self.op(f, o), (f.path, "fmtout"))
        ns = [(o, self.op(f, o)) for o in t["args"]]
        muts = []
        for o, n in ns:
            self.edge(n, d)
            if "p" in o:
                ty = f.ty(o["p"][0])
                if ty.startswith("&mut") and n is not None: muts.append(self.w(n) if isinstance(n, tuple) else n)
        for m in muts:
            for o, n in ns:
                if n is not None and self.w(n) != m if isinstance(n, tuple) else n != m: self.edge(n, m)
            if isinstance(d, tuple) and len(d) == 2 and any(x in f.ty(t["dest"][0]) for x in MUTDEST): self.edge(self.w(d), m)
        # closures passed to iterator adaptors etc.: arguments flow into their
        # parameters, their results into the result
        for c in self.p.closures_of(f.path):
            g = self.p.fns[c]
            if not self.passed(f, t, c): continue
            for i in range(2, g.nargs + 1):
                if self.can(g.ty(i)):
                    for o, n in ns: self.edge(n, (c, i))
            self.edge((c, "ret"), d)
            for m in muts: self.edge((c, "ret"), m)

    def passed(self, f, t, c):
        """is closure c passed in this call? (by aggregate or zero-sized constant)"""
        key = getattr(self, "_clt", None)
        if key is None: key = self._clt = {}
        m = key.get(f.path)
        if m is None:
            m = {}
            for b in f.live_blocks():
                for st in f.stmts(b):
                    if st[0] == "=" and st[2][0] == "agg" and isinstance(st[2][1], dict) and "closure" in st[2][1]:
                        m.setdefault(st[1][0], set()).add(st[2][1]["closure"])
            key[f.path] = m
        for o in t["args"]:
            if "p" in o and c in m.get(o["p"][0], ()): return True
            if o.get("c") == "zst" and "{closure@" in o.get("ty", ""):
                g = self.p.fns[c]
                mm = re.search(r"\{closure@([^:}]+):(\d+)", o["ty"])
                if mm and int(mm.group(2)) == g.line: return True
                if not mm: return True
        return False

    def taint(self, sources):
        pred = {s: None for s in sources}
        work = collections.deque(sources)
        while work:
            n = work.popleft()
            for m in self.succ.get(n, ()):
                if m not in pred:
                    pred[m] = n; work.append(m)
        return pred

    def path(self, pred, n):
        out = []
        while n is not None: out.append(n); n = pred[n]
        return out[::-1]
