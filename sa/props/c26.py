"""The values of the attributes written, taken as abstract values from the
interpretation of all XML writers (see C01), are compared with the type that the
file format gives the attribute: a boolean is 0/1 (t/f in VML), an integer is a
decimal integer (printed from an integer type, or from a floating point value that
every store rounds), a colour has six or eight hexadecimal digits, a reference names
cells, and a fixed text is in the value space of the type."""
RULE = "every value of a typed attribute is in the lexical space of the attribute's type"
ASSUMPTIONS = ["Floating point arguments are finite (non-finite cell values are C17)."]
import re
from mir import *
from sym import Sym
import type_tables as T

UNSIGNED = ("u8", "u16", "u32", "u64", "usize"); SIGNED = ("i8", "i16", "i32", "i64", "isize")
ROUND = ("round", "floor", "ceil", "trunc", "round_ties_even")

class Integral:
    """Is a floating point value always an integer?"""
    def __init__(self, p):
        self.p = p; self.syms = {}; self.stores = None; self.memo = {}
    def sym(self, f):
        if f.path not in self.syms: self.syms[f.path] = Sym(f)
        return self.syms[f.path]
    def scan(self):
        self.stores = {}
        for q, f in self.p.fns.items():
            for b in f.reachable():
                if f.cleanup(b): continue
                for s in f.stmts(b):
                    if s[0] != "=": continue
                    x = s[1][-1] if len(s[1]) > 1 else None
                    if isinstance(x, list) and x[0] not in ("#", "##", "as", "sub", "?"): self.stores.setdefault(fkey(x), []).append((f, b, s[1], ("rv", s[2])))
                    rv = s[2]
                    if rv[0] == "agg" and isinstance(rv[1], dict) and "adt" in rv[1]:
                        for n, o in zip(rv[1].get("fields", []), rv[2]): self.stores.setdefault("%s.%s" % (rv[1]["adt"], n), []).append((f, b, s[1], ("op", o)))
                t = f.term(b)
                if t["k"] == "call" and len(t["dest"]) > 1 and isinstance(t["dest"][-1], list): self.stores.setdefault(fkey(t["dest"][-1]), []).append((f, b, t["dest"], ("call", b, t)))
    def val(self, f, x):
        s = self.sym(f)
        if x[0] == "rv": return self.conv(f, x[1]) or self.expr(f, s.rv(x[1]))
        if x[0] == "op": return self.expr(f, s.op(x[1]))
        return self.expr(f, s.call(x[1], x[2]))
    def conv(self, f, rv): return rv[0] == "cast" and self.intop(f, rv[1])
    def intop(self, f, o):
        if "p" in o and len(o["p"]) == 1: return f.ty(o["p"][0]) in UNSIGNED + SIGNED
        return False
    def expr(self, f, e, seen=frozenset()):
        k = e[0]
        if k == "c":
            try: return float(re.sub(r"_?f(32|64)$", "", str(e[2]))).is_integer()
            except ValueError: return e[1] in UNSIGNED + SIGNED
        if k == "bin": return e[1] in ("Add", "Sub", "Mul") and self.expr(f, e[2], seen) and self.expr(f, e[3], seen)
        if k == "un": return self.expr(f, e[2], seen)
        if k == "call":
            n = e[1]; m = n.rsplit("::", 1)[-1]
            if m in ROUND: return True
            if m in ("max", "min", "clamp", "abs", "copysign"): return all(self.expr(f, x, seen) for x in e[2])
            g = self.p.fns.get(n)
            if g is not None:
                if ("ret", n) in seen: return True
                if g.ty(0) not in ("f64", "f32"): return g.ty(0) in UNSIGNED + SIGNED
                return self.loc(g, 0, seen | {("ret", n)})
            if m in ("from", "into"): return all(self.isint(f, x) or self.expr(f, x, seen) for x in e[2])
            return False
        if k == "fld" and "." in str(e[2]): return self.field(e[2], seen)
        if k in ("loc", "arg"):
            if f.ty(e[1]) in UNSIGNED + SIGNED: return True
            if k == "loc": return self.loc(f, e[1], seen)
        return False
    def isint(self, f, e):
        return e[0] in ("loc", "arg") and f.ty(e[1]) in UNSIGNED + SIGNED or e[0] == "c" and e[1] in UNSIGNED + SIGNED
    def loc(self, f, l, seen):
        if (f.path, l) in seen: return True
        seen = seen | {(f.path, l)}; d = self.sym(f).defs.get(l, [])
        if not d or 1 <= l <= f.nargs: return False
        for b, i, rv in d:
            if i < 0: ok = self.expr(f, self.sym(f).call(b, rv), seen)
            else: ok = self.conv(f, rv) or self.expr(f, self.sym(f).rv(rv), seen)
            if not ok: return False
        return True
    def field(self, k, seen=frozenset()):
        """every store to the field is integral; (function, line) of one that is not in self.why"""
        if k in seen: return True
        if self.stores is None: self.scan()
        seen = seen | {k}
        for f, b, pl, x in self.stores.get(k, []):
            s = self.sym(f)
            if x[0] == "rv" and (self.conv(f, x[1]) or self.expr(f, s.rv(x[1]), seen)): continue
            if x[0] == "op" and self.expr(f, s.op(x[1]), seen): continue
            if x[0] == "call" and self.expr(f, s.call(x[1], x[2]), seen): continue
            self.why = (f, b, k); return False
        return bool(self.stores.get(k))

def dominates(f, a, b):
    """every path to b goes through a"""
    return a == b or b not in f.reachable(0, (a,)) or b == a

def rx(t):
    return re.compile(T.LEX[t])

def run(c, r):
    em = c.emission(); p = c.prog(); I = Integral(p); strs = {}
    def returns(q):
        """the constant texts that a function returns, None if there are others"""
        if q in strs: return strs[q]
        g = p.fns.get(q); out = set(); strs[q] = None
        if g is None: return None
        for b in g.reachable():
            if g.cleanup(b): continue
            t = g.term(b)
            if t["k"] == "call" and "to_string" in str(t.get("f") or t.get("res")):
                o = Sym(g).op(t["args"][0]); out.add(o)
            elif t["k"] == "call" and re.search(r"convert::(From|Into)|::to_owned|String", str(t.get("res") or t.get("f"))): out.add(Sym(g).op(t["args"][0]))
        strs[q] = out
        return out
    reps = {}
    def hole(ty, how, spec):
        """texts that stand for what a placeholder prints, None if not known"""
        d = dict(spec or ())
        if ty in UNSIGNED + SIGNED and how in ("new_upper_hex", "new_lower_hex"):
            w = d.get("width")
            if w is None or not int(d.get("flags", 0)) >> 24 & 1: return ["A", "AAAAAAAAAAA"]
            return ["A" * int(w)]
        if ty in UNSIGNED and how in ("new_display", None) and "width" not in d: return ["1", "10"]
        return None
    def rep_of(q):
        """texts that stand for what a function of the crate returns"""
        if q in reps: return reps[q]
        reps[q] = None; g = p.fns.get(q); out = []
        if g is None or strip_refs(g.ty(0)) not in ("std::string::String", "str"): return None
        sy = Sym(g); args = {}; tpl = []; hows = []
        for b, t in g.calls():
            if g.cleanup(b): continue
            n = str(t.get("res") or t.get("f")); m = n.rsplit("::", 1)[-1]
            if "fmt::rt::Argument" in n: hows.append((strip_refs((t.get("targs") or ["?"])[0]), m))
            elif "fmt::Arguments" in n:
                o = t["args"][0]; e = sy.op(o)
                if e[0] == "c":
                    try: tpl.append(decode_template(e[2]))
                    except Exception: return None
                else: return None
            elif m in ("to_string", "from", "to_owned", "into") and t["args"]:
                e = sy.op(t["args"][0])
                if e[0] == "c": out.append(str(e[2]))
                elif e[0] != "call": return None
            elif m not in ("format", "must_use", "deref"): return None
        if len(tpl) > 1 or not out and not tpl: return None
        for x in tpl:
            alts = [""]
            for y in x:
                if isinstance(y, str): z = [y]
                else:
                    if y[1] >= len(hows): return None
                    z = hole(hows[y[1]][0], hows[y[1]][1], tuple(y[2].items()))
                    if z is None: return None
                alts = [a + b for a in alts for b in z]
            out += alts
        reps[q] = out
        return out
    def rep(v, depth=0):
        """texts that stand for a value, None if not known"""
        k = v[0] if isinstance(v, tuple) and v else None
        if k == "s": return [v[1]]
        if k == "phi":
            l = [rep(x, depth + 1) for x in v[1]]
            return None if None in l else [y for x in l for y in x][:60]
        if k == "call" and isinstance(v[1], str): return rep_of(v[1])
        if k == "sym" and len(v) > 3: return rep(v[3], depth + 1)
        if k == "fmt":
            alts = [""]
            for x in v[1]:
                if isinstance(x, str): z = [x]
                elif x[0] == "a":
                    if isinstance(x[2], tuple) and x[2] and x[2][0] == "str" and x[2][-1] in ("new_upper_hex", "new_lower_hex"): z = hole(x[1], x[2][-1], x[3])
                    elif x[3] is None and x[1] in UNSIGNED: z = ["1", "10"]
                    elif x[3] is None: z = rep(x[2], depth + 1)
                    else: z = None
                else: z = None
                if z is None: return None
                alts = [a + b for a in alts for b in z][:80]
            return alts
        return None
    def fieldty(k):
        if k.startswith("std::"): return None
        a, _, n = k.rpartition(".")
        d = p.adts.get(a) or p.adts.get(a.rpartition("::")[0])
        if d is None: return None
        for v in d["variants"]:
            if a.endswith("::" + v["name"]) or len(d["variants"]) == 1:
                for x in v["fields"]:
                    if str(x[0]) == n: return x[1]
        return None
    def isbool(v):
        if v[0] == "i": return v[1] in (0, 1)
        if v[0] == "p" or v[0] == "fld":
            last = v[1][-1] if v[0] == "p" else v[2]
            if not isinstance(last, str): return None
            if last.startswith("std::option::Option"):
                prev = v[1][-2] if v[0] == "p" else None
                t = prev and isinstance(prev, str) and fieldty(prev); return None if not t else "bool" in t
            t = fieldty(last); return None if t is None else t == "bool"
        if v[0] == "phi":
            l = [isbool(x) for x in v[1]]; return False if False in l else None if None in l else True
        return None
    def judge(v, t):
        """True, False or None if not known"""
        k = v[0] if isinstance(v, tuple) and v else None
        if k == "s": return bool(rx(t).match(v[1]))
        if k == "phi":
            l = [judge(x, t) for x in v[1]]; return False if False in l else None if None in l else True
        if k == "str" and len(v) > 2:
            ty = v[2]
            if t == "bool":
                if ty == "bool": return True
                if ty in UNSIGNED + SIGNED: return isbool(v[1])
                return False if ty in ("f64", "f32") else None
            if t in ("uint", "int", "pos"):
                if ty in UNSIGNED: return True
                if ty in SIGNED: return True if t == "int" else nonneg(v[1], ty)
                if ty in ("f64", "f32"): return integral(v[1])
                if ty == "bool": return False
                return None
            if t == "double": return ty in UNSIGNED + SIGNED + ("f64", "f32") or (False if ty == "bool" else None)
            if t.startswith("hex") or t in ("ref", "guid"): return False if ty in UNSIGNED + SIGNED + ("f64", "f32", "bool") else None
            return None
        if k == "call" and t == "bool" and isinstance(v[1], str):
            f = p.fns.get(v[1])
            if f is None: return None
            rs = returns(v[1])
            if not rs: return None
            l = []
            for e in rs:
                if e[0] == "c": l.append(bool(rx("bool").match(str(e[2]))))
                elif e[0] in ("call", "arg", "loc"): l.append(boolish(f, e))
                else: l.append(None)
            return False if False in l else None if None in l else True
        if k == "disp": return False if t in ("bool", "uint", "int") and v[1] not in T.NUMERIC_DISPLAY else None
        if k in ("p", "fld") and t in ("bool",):
            return None
        if k == "fmt" and t in ("uint", "int"):
            if len(v[1]) == 1 and not isinstance(v[1][0], str): return judge(v[1][0][2], t)
            return None
        if t in ("hex8", "hex6", "hex4", "guid", "ref"):
            z = rep(v)
            if z is not None: return all(rx(t).match(x) for x in z)
        return None
    def boolish(f, e):
        if e[0] == "call" and e[1].rsplit("::", 1)[-1] == "from" or e[0] == "call" and "from" in e[1]: return "bool" in e[1] or any(x[0] in ("arg", "loc") and strip_refs(f.ty(x[1])) == "bool" for x in e[2]) or None
        if e[0] in ("arg", "loc"): return strip_refs(f.ty(e[1])) == "bool" or None
        return None
    def nonneg(v, ty):
        if v[0] == "i": return v[1] >= 0
        if v[0] == "phi":
            l = [nonneg(x, ty) for x in v[1]]; return False if False in l else None if None in l else True
        if v[0] in ("p", "fld"):
            last = v[1][-1] if v[0] == "p" else v[2]; t = isinstance(last, str) and fieldty(last)
            return True if t in UNSIGNED + ("bool",) else None
        if v[0] == "bin" and v[1] in ("Add", "Mul"): return nonneg(v[2], ty) if nonneg(v[2], ty) is not True else nonneg(v[3], ty)
        return None
    def integral(v):
        if v[0] == "f":
            try: return float(v[1]).is_integer()
            except ValueError: return None
        if v[0] == "i": return True
        if v[0] == "phi":
            l = [integral(x) for x in v[1]]; return False if False in l else None if None in l else True
        if v[0] in ("p", "fld"):
            last = v[1][-1] if v[0] == "p" else v[2]
            if isinstance(last, str) and not last.startswith("std::"):
                if last in T.POSITIONED: return positioned(last)
                if I.field(last): return True
                return False
            return None
        if v[0] == "bin" and v[1] in ("Add", "Sub", "Mul"):
            l = [integral(v[2]), integral(v[3])]
            return False if False in l else None if None in l else True
        if v[0] in ("x", "call") and str(v[1]).rsplit("::", 1)[-1] in ROUND: return True
        return None
    pos = {}
    def positioned(k):
        """the objects that are stored come from a function that stores an integer in the field"""
        if k in pos: return pos[k]
        owner = k.rpartition(".")[0]; pos[k] = True; n = 0
        if I.stores is None: I.scan()
        def post(q, seen=()):
            """a function that returns an object with an integer in the field"""
            g = p.fns.get(q)
            if g is None or q in seen or strip_refs(g.ty(0)) != owner: return False
            s = I.sym(g); good = [b for f, b, pl, x in I.stores.get(k, []) if f is g and (x[0] == "rv" and (I.conv(g, x[1]) or I.expr(g, s.rv(x[1]))) or x[0] == "op" and I.expr(g, s.op(x[1])) or x[0] == "call" and I.expr(g, s.call(x[1], x[2])))]
            rets = [b for b in g.reachable() if not g.cleanup(b) and g.term(b)["k"] == "return"]
            if good and all(any(dominates(g, b, x) for b in good) for x in rets): return True
            d = s.defs.get(0, [])
            return bool(d) and all((i < 0 and post(rv.get("res") or rv.get("f"), seen + (q,))) or (i >= 0 and src(g, s.rv(rv), seen + (q,))) for b, i, rv in d)
        def src(g, e, seen=()):
            if e[0] == "call": return post(e[1], seen)
            if e[0] == "loc":
                d = I.sym(g).defs.get(e[1], [])
                return bool(d) and all(i < 0 and post(rv.get("res") or rv.get("f"), seen) or i >= 0 and src(g, I.sym(g).rv(rv), seen) for b, i, rv in d)
            return False
        for q, g in p.fns.items():
            for b in g.reachable():
                t = g.term(b)
                if g.cleanup(b) or t["k"] != "call" or not re.search(r"Vec<.*>::(push|insert)$|::push$", str(t.get("res") or t.get("f"))) or len(t["args"]) < 2: continue
                o = t["args"][-1]
                if "p" not in o or len(o["p"]) != 1 or strip_refs(g.ty(o["p"][0])) != owner: continue
                n += 1
                if not src(g, I.sym(g).op(o)): I.why = (g, b, k); pos[k] = False
        if not n: pos[k] = None
        return pos[k]
    def printing(f, o, k=0):
        """the call of to_string() that made a text"""
        if k > 5 or "p" not in o or len(o["p"]) != 1: return None
        for b in f.reachable():
            t = f.term(b)
            if t["k"] == "call" and t["dest"] == o["p"]: return t if str(t.get("res") or t.get("f")).endswith("to_string") else None
            for st in f.stmts(b):
                if st[0] == "=" and st[1] == o["p"]: return printing(f, st[2][1], k + 1) if st[2][0] == "use" else None
        return None
    def printed(q, n):
        """a value that is computed where it is printed: what is printed for the attribute
        n in the writer, or next to it in the call graph"""
        l = []; I.scan() if I.stores is None else None
        for g in sorted({q} | set(p.callers().get(q, ())) | set(p.callgraph().get(q, ()))):
            f = p.fns.get(g)
            if f is None: continue
            s = I.sym(f)
            for b in f.reachable():
                if f.cleanup(b): continue
                for st in f.stmts(b):
                    if st[0] != "=" or st[2][0] != "agg" or st[2][1] != "tuple" or len(st[2][2]) != 2 or "p" not in st[2][2][1]: continue
                    e = s.op(st[2][2][0])
                    if e[0] != "c" or str(e[2]) != n: continue
                    t = printing(f, st[2][2][1])
                    if t is not None and "p" in t["args"][0] and strip_refs(f.ty(t["args"][0]["p"][0])) in ("f64", "f32"): l.append(I.expr(f, s.op(t["args"][0])))
        return False if False in l else True if l else None
    done = {}; unk = {}; where = {}
    for w, ch, prev, tag, attrs, kind, data, site in em.events:
        if not isinstance(tag, str) or attrs[0] != "list": continue
        for n, mi, ma, vs in attrs[1]:
            if not isinstance(n, str): continue
            t = T.type_of(tag, n)
            if t is None: continue
            for v in vs:
                key = (tag, n, v)
                if key in done: continue
                I.why = None
                j = done[key] = judge(v, t)
                if j is None and t in ("uint", "int", "pos") and isinstance(v, tuple) and v[:1] == ("str",) and len(v) > 2 and v[2] in ("f64", "f32"):
                    j = done[key] = printed(site[0], n)
                if j is None: unk.setdefault((tag, n), v)
                elif j is False: where.setdefault((tag, n), (site, t, v, I.why))
    typed = {(a, b) for a, b, v in done}
    r.floor("typed attributes", len(typed), T.FLOOR)
    r.floor("values decided", sum(1 for j in done.values() if j is not None), T.FLOOR_DECIDED)
    r.count("values not decided", sum(1 for j in done.values() if j is None))
    r.ok(sum(1 for j in done.values() if j))
    for (tag, n), v in sorted(unk.items()): r.notes.append("%s/@%s not decided: %s" % (tag, n, str(v)[:100]))
    for (tag, n), (site, t, v, why) in sorted(where.items()):
        f = p.fns.get(site[0]); m = "<%s %s> is %s, and can get %s" % (tag, n, T.NAMES[t], T.describe(v))
        if why: m += "; %s stores a value in %s that need not be an integer" % (why[0].path, why[2])
        r.bad("%s:%s" % (tag, n), m, "%s:%s %s" % (f.file if f else "?", site[1], site[0]))
    for e in sorted(typed)[::70]: r.sample("%s/@%s: %s" % (e + (T.type_of(*e),)))
