"""Program model over the MIR facts: functions, types, impls, call graph, effects."""
import re, collections, functools
import extract

XML_PRIMS = "xmlwriter::"

class Fn:
    __slots__ = ("path", "name", "file", "line", "kind", "idx", "pub", "reach", "exported", "impl", "nargs", "upvars", "locals",
                 "blocks", "fromexp", "_succ", "_pred", "program", "hash", "_calls", "_mutref", "_defs")

    def __init__(self, r, prog):
        self.program = prog
        self.path = r["path"]; self.name = r["name"]; self.file = r["file"]; self.line = r["line"]
        self.kind = r["kind"]; self.idx = r.get("idx"); self.pub = r["pub"]; self.reach = r["reach"]; self.exported = r["exported"]
        self.impl = r["impl"]; self.nargs = r["nargs"]; self.upvars = r["upvars"]; self.locals = r["locals"]
        self.blocks = r["blocks"]; self.fromexp = r["exp"]; self.hash = r["hash"]
        self._succ = self._pred = self._calls = self._mutref = self._defs = None

    def ty(self, l): return self.locals[l][0]
    def lname(self, l): return self.locals[l][1]
    def cleanup(self, b): return bool(self.blocks[b][0])
    def stmts(self, b): return self.blocks[b][1]
    def term(self, b): return self.blocks[b][2]

    def succ(self, b):
        if self._succ is None:
            self._succ = [self._succs(i) for i in range(len(self.blocks))]
        return self._succ[b]

    def _succs(self, b):
        t = self.term(b); k = t["k"]
        if k in ("goto", "drop", "assert"): return [t["to"]]
        if k == "call": return [t["to"]] if t["to"] >= 0 else []
        if k == "switch":
            o = []
            for _, x in t["targets"]:
                if x not in o: o.append(x)
            if t["else"] not in o: o.append(t["else"])
            return o
        return []

    def preds(self):
        if self._pred is None:
            p = [[] for _ in self.blocks]
            for b in range(len(self.blocks)):
                if self.cleanup(b): continue
                for s in self.succ(b): p[s].append(b)
            self._pred = p
        return self._pred

    def live_blocks(self):
        return [b for b in range(len(self.blocks)) if not self.cleanup(b)]

    def reachable(self, start=0, stop=()):
        seen = set(); work = [start]
        while work:
            b = work.pop()
            if b in seen or b in stop: continue
            seen.add(b); work.extend(self.succ(b))
        return seen

    def calls(self):
        """[(block, term)] of all live call terminators."""
        if self._calls is None:
            reach = self.reachable()
            self._calls = [(b, self.term(b)) for b in sorted(reach) if self.term(b)["k"] == "call"]
        return self._calls

    def mutref_locals(self):
        """Locals that are mutably borrowed (or whose fields are)."""
        if self._mutref is None:
            s = set()
            for b in self.live_blocks():
                for st in self.stmts(b):
                    if st[0] == "=" and st[2][0] == "ref" and st[2][1] and "*" not in st[2][2][1:]:
                        s.add(st[2][2][0])
            self._mutref = s
        return self._mutref

    def self_adt(self):
        if self.impl: return strip_generics(self.impl["self"])
        return None

    def __repr__(self): return "Fn(%s)" % self.path

def strip_generics(s):
    out = []; d = 0
    i = 0
    while i < len(s):
        c = s[i]
        if c == "<": d += 1
        elif c == ">":
            if i and s[i-1] == "-": pass
            else: d -= 1
        elif d == 0: out.append(c)
        i += 1
    return "".join(out).replace("::::", "::").strip()

def strip_refs(t):
    t = t.strip()
    while True:
        if t.startswith("&mut "): t = t[5:]
        elif t.startswith("&"):
            t = t[1:]
            m = re.match(r"'\w+ (mut )?", t)
            if m: t = t[m.end():]
        else: return t.strip()

def split_generics(t):
    """'a::B<X, Y<Z>>' -> ('a::B', ['X','Y<Z>'])"""
    i = t.find("<")
    if i < 0: return t, []
    head = t[:i]; body = t[i+1:t.rfind(">")]
    args = []; d = 0; cur = ""
    for j, c in enumerate(body):
        if c in "<([": d += 1
        elif c in ")]": d -= 1
        elif c == ">" and body[j-1:j] != "-": d -= 1
        if c == "," and d == 0: args.append(cur.strip()); cur = ""
        else: cur += c
    if cur.strip(): args.append(cur.strip())
    return head.rstrip(":"), args

class Program:
    def __init__(self, config="full"):
        rows, self.key = extract.load(config)
        self.config = config
        self.fns = {}; self.promoted = {}; self.consts = {}; self.adts = {}; self.impls = []
        for r in rows:
            if r["t"] == "body":
                f = Fn(r, self)
                if f.kind == "fn":
                    k = f.path
                    n = 1
                    while k in self.fns:
                        n += 1; k = "%s#%d" % (f.path, n)
                    f.path = k
                    self.fns[k] = f
                elif f.kind == "promoted": self.promoted[(f.path, f.idx)] = f
                else: self.consts[f.path] = f
            elif r["t"] == "adt": self.adts[r["path"]] = r
            else: self.impls.append(r)
        self.trait_impls = collections.defaultdict(dict)   # trait head -> {self type: {method: path}}
        for i in self.impls:
            if i["trait"]:
                th = strip_generics(i["trait"])
                d = self.trait_impls[th].setdefault(i["self"], {})
                for it in i["items"]:
                    d[it.rsplit("::", 1)[-1]] = it
        self._cg = None

    def adt_variant_names(self, adt):
        a = self.adts.get(adt)
        return [v["name"] for v in a["variants"]] if a else []

    def callees(self, t):
        """Possible local callee paths of a call terminator."""
        r = t.get("res") or t.get("f")
        if t.get("local") and r in self.fns and not t.get("virt"):
            # trait default method vs. impls
            if t.get("trait") is None or t.get("res") is not None and not (t.get("res") == t.get("f") and t.get("trait")):
                return [r]
        if t.get("trait"):
            th = t["trait"]
            name = (t.get("f") or "").rsplit("::", 1)[-1]
            out = []
            impls = self.trait_impls.get(th)
            res = t.get("res")
            if res and res != t.get("f") and res in self.fns and not t.get("virt"): return [res]
            if impls and (t.get("virt") or res is None or res == t.get("f")):
                for st, d in impls.items():
                    if name in d and d[name] in self.fns: out.append(d[name])
                if t.get("f") in self.fns: out.append(t["f"])
                return out
        if r in self.fns: return [r]
        return []

    def fn_refs(self, f):
        """Functions and closures whose value is taken (passed as callbacks)."""
        out = []
        for b in f.live_blocks():
            for st in f.stmts(b):
                if st[0] != "=": continue
                for o in rv_operands(st[2]):
                    if o.get("c") == "fn":
                        out.append(o.get("res") or o["f"])
                if st[2][0] == "agg" and isinstance(st[2][1], dict) and "closure" in st[2][1]:
                    out.append(st[2][1]["closure"])
            t = f.term(b)
            if t["k"] == "call":
                for o in t["args"]:
                    if o.get("c") == "fn": out.append(o.get("res") or o["f"])
                    elif o.get("c") == "zst" and "{closure@" in o.get("ty", ""): pass
        # Closures without captures are zero sized constants: include all nested closures.
        pre = f.path + "::{closure#"
        for p in self.closures_of(f.path): out.append(p)
        return [p for p in dict.fromkeys(out) if p in self.fns]

    def closures_of(self, path):
        if not hasattr(self, "_clos"):
            self._clos = collections.defaultdict(list)
            for p in self.fns:
                i = p.rfind("::{closure#")
                if i >= 0: self._clos[p[:i]].append(p)
        return self._clos.get(path, [])

    def callgraph(self):
        if self._cg is None:
            cg = {}
            for p, f in self.fns.items():
                s = []
                for b, t in f.calls():
                    s.extend(self.callees(t))
                s.extend(self.fn_refs(f))
                # to_string()/format! of a local type calls its Display impl.
                for b, t in f.calls():
                    nm = t.get("f") or ""
                    if nm.endswith("ToString::to_string") or "Argument::<'_>::new_display" in nm:
                        for a in t.get("targs", []):
                            d = self.display_impl(a)
                            if d: s.append(d)
                    elif nm.endswith("Into::into") and len(t.get("targs", [])) == 2:
                        src, dst = t["targs"]
                        for tr, m in self.trait_impls.items():
                            pass
                cg[p] = list(dict.fromkeys(s))
            self._cg = cg
        return self._cg

    def display_impl(self, ty):
        ty = strip_refs(ty)
        d = self.trait_impls.get("std::fmt::Display", {}).get(ty)
        return d.get("fmt") if d else None

    def reach(self, roots):
        cg = self.callgraph(); seen = set(); work = list(roots)
        while work:
            p = work.pop()
            if p in seen or p not in cg: continue
            seen.add(p); work.extend(cg[p])
        return seen

    def callers(self):
        if not hasattr(self, "_callers"):
            c = collections.defaultdict(set)
            for p, s in self.callgraph().items():
                for q in s: c[q].add(p)
            self._callers = c
        return self._callers

    # ---- field effects ----------------------------------------------------
    def direct_fields(self):
        """path -> (reads, writes): sets of 'Owner.field' touched directly."""
        if hasattr(self, "_df"): return self._df
        out = {}
        for p, f in self.fns.items():
            rd, wr = set(), set()
            for b in f.live_blocks():
                for st in f.stmts(b):
                    if st[0] == "=":
                        for e in st[1][1:]:
                            if isinstance(e, list) and is_field(e): wr.add(fkey(e))
                        rv = st[2]
                        if rv[0] == "ref":
                            fs = [fkey(e) for e in rv[2][1:] if isinstance(e, list) and is_field(e)]
                            rd.update(fs)
                            if rv[1]: wr.update(fs)
                        elif rv[0] == "discr":
                            rd.update(fkey(e) for e in rv[1][1:] if isinstance(e, list) and is_field(e))
                        for o in rv_operands(rv):
                            if "p" in o:
                                fs = [fkey(e) for e in o["p"][1:] if isinstance(e, list) and is_field(e)]
                                rd.update(fs)
                t = f.term(b)
                ops = []
                if t["k"] == "call":
                    ops = t["args"]
                    for e in t["dest"][1:]:
                        if isinstance(e, list) and is_field(e): wr.add(fkey(e))
                elif t["k"] == "switch": ops = [t["on"]]
                elif t["k"] == "assert": ops = t["ops"]
                for o in ops:
                    if "p" in o:
                        rd.update(fkey(e) for e in o["p"][1:] if isinstance(e, list) and is_field(e))
            out[p] = (rd, wr)
        self._df = out
        return out

    def trans_fields(self):
        """path -> (reads*, writes*) closed over the call graph."""
        if hasattr(self, "_tf"): return self._tf
        df = self.direct_fields(); cg = self.callgraph()
        res = {p: (set(a), set(b)) for p, (a, b) in df.items()}
        order = list(res)
        changed = True
        while changed:
            changed = False
            for p in order:
                r, w = res[p]
                n = len(r) + len(w)
                for q in cg[p]:
                    if q in res and q != p:
                        r |= res[q][0]; w |= res[q][1]
                if len(r) + len(w) != n: changed = True
        self._tf = res
        return res

def is_field(e): return e[0] not in ("#", "##", "as", "sub", "?")
def fkey(e): return e[0] + "." + e[1]

def rv_operands(rv):
    k = rv[0]
    if k in ("use", "cast", "repeat"): return [rv[1]]
    if k == "bin": return [rv[2], rv[3]]
    if k == "un": return [rv[2]]
    if k == "agg": return rv[2]
    return []

def decode_template(hexs):
    """core::fmt template bytes -> list of str (literal) | ('arg', index, spec)"""
    b = bytes.fromhex(hexs); i = 0; out = []; nxt = 0
    while i < len(b):
        n = b[i]; i += 1
        if n == 0: break
        if n < 0x80:
            out.append(b[i:i+n].decode("utf-8", "replace")); i += n
        elif n == 0x80:
            l = int.from_bytes(b[i:i+2], "little"); i += 2
            out.append(b[i:i+l].decode("utf-8", "replace")); i += l
        else:
            spec = {}
            if n & 1: spec["flags"] = int.from_bytes(b[i:i+4], "little"); i += 4
            if n & 2: spec["width"] = int.from_bytes(b[i:i+2], "little"); i += 2
            if n & 4: spec["prec"] = int.from_bytes(b[i:i+2], "little"); i += 2
            if n & 8: nxt = int.from_bytes(b[i:i+2], "little"); i += 2
            out.append(("arg", nxt, spec)); nxt += 1
    # merge adjacent literals
    m = []
    for x in out:
        if isinstance(x, str) and m and isinstance(m[-1], str): m[-1] += x
        else: m.append(x)
    return m

if __name__ == "__main__":
    import time, sys
    t = time.time(); p = Program(sys.argv[1] if len(sys.argv) > 1 else "full"); print("load %.1f" % (time.time() - t))
    print(len(p.fns), len(p.promoted), len(p.consts), len(p.adts), len(p.impls))
    cg = p.callgraph(); print("edges", sum(map(len, cg.values())), "%.1f" % (time.time() - t))
    p.trans_fields(); print("%.1f" % (time.time() - t))
    print([f.path for f in p.fns.values() if "#" in f.path and "{closure" not in f.path][:20])
