"""Where a value comes from: terms (base, path, ops) over MIR.

base: ('arg', i) ('c', type, value) ('none',) ('call', name) ('idx', q, block)
      ('range', lo terms, hi terms, inclusive) ('self', 'Owner.field')
path: the fields selected of the base
ops:  what was done to the value on the way: ('call', f), ('bin', op),
      ('cast', from, to) if it can lose information, ('mut', f), ('next', block)
Flow insensitive in one function; Trace.events composes functions by substitution."""
from mir import *
from sym import TRANSPARENT

WRAP = ("std::option::Option", "std::result::Result", "std::ops::ControlFlow")
SAME = TRANSPARENT + ("::branch", "::iter", "::iter_mut", "::unwrap", "::expect", "::borrow_mut", "::by_ref", "::as_bytes", "::as_mut_str", "::into_boxed_slice", "::get_mut", "::as_deref")
RANK = {"u8": (0, 8), "u16": (0, 16), "u32": (0, 32), "u64": (0, 64), "usize": (0, 64), "i8": (1, 7), "i16": (1, 15), "i32": (1, 31), "i64": (1, 63), "isize": (1, 63)}
def lossy(a, b):
    """a cast from a to b can change a value that Excel can store"""
    if a == b or a not in RANK and a not in ("f32", "f64"): return False
    if b == "f64": return False
    if b == "f32": return not (a == "f32" or a in RANK and RANK[a][1] <= 24)
    if b not in RANK: return False
    if a not in RANK: return True
    return not (RANK[b][1] >= RANK[a][1] and (RANK[b][0] or not RANK[a][0]))

class Trace:
    def __init__(self, p):
        self.p = p; self.defs = {}; self.muts = {}; self.memo = {}; self.ev = {}
    def load(self, q):
        if q in self.defs: return
        f = self.p.fns[q]; d = {}; m = {}; refs = {}
        for b in f.reachable():
            if f.cleanup(b): continue
            for st in f.stmts(b):
                if st[0] != "=": continue
                pl, rv = st[1], st[2]
                if not any(x == "*" for x in pl[1:]) or not f.ty(pl[0]).startswith("&"): d.setdefault(pl[0], []).append((pl[1:], "rv", rv, b))
                else: d.setdefault(pl[0], []).append((pl[1:], "rv", rv, b))
                if rv[0] == "ref" and rv[1] and len(rv) > 2 and str(rv[1]) in ("1", "True", "mut"): refs.setdefault(pl[0], []).append(rv[2])
            t = f.term(b)
            if t["k"] == "call": d.setdefault(t["dest"][0], []).append((t["dest"][1:], "call", t, b))
        def root(l, k=0):
            for x in refs.get(l, []) if k < 6 else []:
                yield x[0]
                yield from root(x[0], k + 1)
            for pr, kd, rv, b in d.get(l, []) if k < 6 else []:
                if kd == "rv" and rv[0] == "use" and "p" in rv[1] and f.ty(l).startswith("&mut"): yield from root(rv[1]["p"][0], k + 1)
        for b, t in f.calls():
            if f.cleanup(b): continue
            for o in t["args"]:
                if "p" in o and f.ty(o["p"][0]).startswith("&mut"):
                    for x in root(o["p"][0]): m.setdefault(x, set()).add((t.get("res") or t.get("f") or "?", b))
        self.defs[q] = d; self.muts[q] = m
    def op(self, q, o, path=(), ops=frozenset(), seen=()):
        if "p" in o: return self.place(q, o["p"], path, ops, seen)
        if o["c"] == "fn": return {(("fn", o.get("res") or o["f"]), (), ops)}
        return {(("c", o.get("ty", o["c"]), str(o.get("v"))), path, ops)}
    def place(self, q, pl, path=(), ops=frozenset(), seen=()):
        pr = []
        for x in pl[1:]:
            if x == "*": continue
            if x[0] in ("as",): continue
            if x[0] in ("#", "##"): ops = ops | {("index",)}; continue
            if x[0] in ("sub", "?"): ops = ops | {("sub",)}; continue
            if str(x[0]).startswith(WRAP): continue
            pr.append(fkey(x))
        return self.local(q, pl[0], tuple(pr) + tuple(path), ops, seen)
    def local(self, q, l, path=(), ops=frozenset(), seen=()):
        self.load(q)
        f = self.p.fns[q]; key = (l, path)
        if key in seen: return {(("rec", key), (), ops)}
        if len(seen) > 60: return set()
        seen = seen + (key,)
        out = set(); d = self.defs[q].get(l, [])
        for g, b in self.muts[q].get(l, ()):
            if not g.endswith(("::next", "::next_back")): ops = ops | {("mut", g)}
        if 1 <= l <= f.nargs: out.add((("arg", l), path, ops))
        for pr, kind, rv, b in d:
            proj = tuple(fkey(x) for x in pr if x != "*" and isinstance(x, list) and x[0] not in ("as", "#", "##", "sub", "?") and not str(x[0]).startswith(WRAP))
            deref = any(x == "*" for x in pr)
            n = len(proj)
            if proj[:len(path)] != path[:n]: continue
            if n > len(path):
                rest = ()
                o2 = ops | {("part", proj[len(path):][0])}
            else: rest = path[n:]; o2 = ops
            if deref and f.ty(l).startswith("&mut") and 1 <= l <= f.nargs: continue
            out |= self.rvalue(q, rv, rest, o2, seen, b) if kind == "rv" else self.call(q, rv, b, rest, o2, seen)
        rec = [x for x in out if x[0] == ("rec", key)]
        if rec:
            out = {x for x in out if x[0] != ("rec", key)}
            for x in rec: out |= {(a, c, o | x[2]) for a, c, o in out}
        return out
    def rvalue(self, q, rv, path, ops, seen, b):
        k = rv[0]; f = self.p.fns[q]
        if k == "use": return self.op(q, rv[1], path, ops, seen)
        if k == "ref": return self.place(q, rv[2], path, ops, seen)
        if k == "cast":
            o = rv[1]
            if "p" in o and len(o["p"]) == 1 and lossy(f.ty(o["p"][0]), str(rv[2])): ops = ops | {("cast", f.ty(o["p"][0]), str(rv[2]))}
            return self.op(q, o, path, ops, seen)
        if k == "bin":
            if path and path[0] == "().0": path = path[1:]
            n = rv[1].replace("WithOverflow", "").replace("Unchecked", "")
            ks = [o for o in rv[2:4] if "c" in o]; kk = str(ks[0].get("v")) if ks else None
            o2 = ops | {("bin", n, kk)}; out = set()
            for o in rv[2:4]:
                if "p" in o: out |= self.op(q, o, path, o2, seen)
            return out
        if k == "un": return self.op(q, rv[2], path, ops | {("un", rv[1])}, seen)
        if k == "discr": return self.place(q, rv[1], path, ops | {("discr",)}, seen)
        if k == "agg":
            a = rv[1]
            if isinstance(a, dict) and "closure" in a: return {(("closure", a["closure"]), (), ops)}
            if isinstance(a, dict):
                adt = a["adt"]
                if adt.startswith(WRAP):
                    if not rv[2]: return {(("none",), (), ops)}
                    return self.op(q, rv[2][0], path, ops, seen)
                if adt in ("std::ops::Range", "std::ops::RangeInclusive"): return {(("range", frozenset(self.op(q, rv[2][0], (), frozenset(), seen)), frozenset(self.op(q, rv[2][1], (), frozenset(), seen)), adt.endswith("Inclusive"), b), (), ops)}
                if adt == "std::ops::RangeFrom": return {(("range", frozenset(self.op(q, rv[2][0], (), frozenset(), seen)), frozenset(), False, b), (), ops)}
                fs = [str(x) for x in a.get("fields", [])]
                if path:
                    n = path[0].rsplit(".", 1)[-1]
                    if n in fs: return self.op(q, rv[2][fs.index(n)], path[1:], ops, seen)
                    return set()
                out = set(); o2 = ops | {("agg", adt)}
                for o in rv[2]: out |= self.op(q, o, (), o2, seen)
                return out or {(("agg", adt, a.get("variant")), (), ops)}
            if path and path[0].startswith("()."):
                i = int(path[0][3:])
                return self.op(q, rv[2][i], path[1:], ops, seen) if i < len(rv[2]) else set()
            out = set()
            for o in rv[2]: out |= self.op(q, o, path if not path else path, ops | {("agg", str(a))}, seen)
            return out
        return {(("?", k), (), ops)}
    def call(self, q, t, b, path, ops, seen):
        n = t.get("res") or t.get("f") or "?"; a = t["args"]
        m = n.rsplit("::", 1)[-1]
        if n.endswith("::next") and a: return self.op(q, a[0], path, ops | {("next", q, b)}, seen)
        if m == "enumerate" and a:
            if path and path[0] == "().0": return {(("idx", q, b), (), ops)}
            return self.op(q, a[0], path[1:] if path and path[0] == "().1" else path, ops, seen)
        if m in ("filter", "take_while", "skip_while") and len(a) == 2: return self.op(q, a[0], path, ops | {("filter", q, b)}, seen)
        if m == "zip" and len(a) == 2:
            if path and path[0] in ("().0", "().1"): return self.op(q, a[int(path[0][3:])], path[1:], ops, seen)
            if not path:
                # with a range that has no end: the pairs are as many as the items of the other
                endless = lambda o: (lambda z: bool(z) and all(x[0][0] == "range" and x[0][2] == frozenset() for x in z))(self.op(q, o, (), frozenset(), seen))
                for i in (0, 1):
                    if endless(a[i]): return self.op(q, a[1 - i], path, ops, seen)
        if n.endswith("RangeInclusive::<Idx>::new") or n.startswith("std::ops::RangeInclusive") and m == "new":
            return {(("range", frozenset(self.op(q, a[0], (), frozenset(), seen)), frozenset(self.op(q, a[1], (), frozenset(), seen)), True, b), (), ops)}
        if len(a) == 1 and (not t.get("local") or n.endswith("std::clone::Clone>::clone")) and any(n.endswith(x) for x in SAME) or m in ("expect", "branch") and a:
            return self.op(q, a[0], path, ops, seen)
        if m in ("try_from", "try_into") and len(a) == 1 and not t.get("local"): return self.op(q, a[0], path, ops, seen)
        if m == "checked_add" and len(a) == 2:
            ks = [o for o in a if "c" in o]
            o2 = ops | {("bin", "Add", str(ks[0].get("v")) if ks else None)}
            return self.op(q, a[0], path, o2, seen) | self.op(q, a[1], path, o2, seen)
        if not a: return {(("call", n), path, ops)}
        o2 = ops | {("call", n)} | ({("ret",) + tuple(path)} if path else set()); out = set()
        for o in a:
            out |= self.op(q, o, (), o2, seen)
        return out
    def subst(self, terms, q, args, seen=()):
        """terms over the arguments of a callee, as terms over those of q"""
        out = set()
        for base, path, ops in terms:
            if base[0] == "arg":
                if base[1] - 1 < len(args): out |= self.op(q, args[base[1] - 1], path, ops)
            elif base[0] == "range": out.add((("range", frozenset(self.subst(base[1], q, args)), frozenset(self.subst(base[2], q, args)), base[3], base[4]), path, ops))
            else: out.add((base, path, ops))
        return frozenset(out)

class Ev:
    __slots__ = ("kind", "name", "row", "col", "val", "fmt", "site", "conds")
    def __init__(self, kind, name, row, col, val, fmt, site, conds=frozenset()): self.kind, self.name, self.row, self.col, self.val, self.fmt, self.site, self.conds = kind, name, row, col, val, fmt, site, conds
    def key(self): return (self.kind, self.name, self.row, self.col, tuple(sorted(self.val.items())), self.fmt, self.conds)

CELL = "worksheet::CellType"
NONE = frozenset({(("none",), (), frozenset())})
class Cells(Trace):
    """the cells that a function writes: composition over calls"""
    def __init__(self, p, w):
        Trace.__init__(self, p); self.w = w; self.blocks = {}
    def leaf(self, q):
        f = self.p.fns.get(q)
        return f is not None and "{closure" not in q and any(f.ty(i) == CELL for i in range(1, f.nargs + 1))
    def aggs(self, q, o, b0, seen=()):
        """the cell constructors that reach an operand"""
        self.load(q)
        if "p" not in o: return
        l = o["p"][0]
        if l in seen: return
        for pr, kind, rv, b in self.defs[q].get(l, []):
            if kind == "rv" and rv[0] == "use": yield from self.aggs(q, rv[1], b0, seen + (l,))
            elif kind == "rv" and rv[0] == "agg" and isinstance(rv[1], dict) and rv[1].get("adt") == CELL: yield rv[1]["variant"], dict(zip([str(x) for x in rv[1]["fields"]], rv[2])), b
            elif kind == "call" and rv.get("local") and len(self.p.callees(rv)) == 1 and list(self.p.callees(rv))[0] in self.p.fns:
                g = list(self.p.callees(rv))[0]
                for v, fs, bb in self.aggs(g, {"p": [0]}, None):
                    if isinstance(fs, dict): fs = {k: ("via", q, rv["args"], g, x) if not isinstance(x, tuple) else None for k, x in fs.items()}
                    yield v, fs, b
            else: yield None, {}, b
    def field(self, q, o):
        if o is None: return frozenset({(("?",), (), frozenset())})
        if isinstance(o, tuple): return self.subst(frozenset(self.op(o[3], o[4])), o[1], o[2])
        return frozenset(self.op(q, o))
    def conds(self, q, b):
        out = set()
        for e, v in self.w.facts(q).at(b):
            if e[0] == "arg" and self.p.fns[q].ty(e[1]) == "bool":
                v = v if isinstance(v, int) else 1 - v[1][0] if v[1] and v[1][0] in (0, 1) else None
                if v is not None: out.add((e[1], "b", v))
            if e[0] == "discr" and e[1][0] == "arg" and "Option<" in self.p.fns[q].ty(e[1][1])[:24]:
                v = v if isinstance(v, int) else 1 - v[1][0] if v[1] and v[1][0] in (0, 1) else None
                if v is not None: out.add((e[1][1], "d", v))
        return frozenset(out)
    def remap(self, q, conds, a):
        out = set(); sy = self.w.sym(q)
        for i, k, v in conds:
            if i - 1 >= len(a): continue
            e = sy.op(a[i - 1])
            if e[0] == "arg": out.add((e[1], k, v))
            elif k == "b" and e[0] == "c" and e[2] in ("0", "1", "true", "false"):
                if (e[2] in ("1", "true")) != bool(v): return None
            elif k == "d" and e[0] == "agg" and e[2] in ("Some", "None"):
                if (e[2] == "Some") != bool(v): return None
        return frozenset(out)
    def merge(self, a, b):
        x = a | b
        return None if any((i, k, 1 - v) in x for i, k, v in x) else x
    def events(self, q, stack=()):
        if q in self.ev: return self.ev[q]
        if q in stack: self.cut |= set(stack[stack.index(q):]); return []
        if not stack: self.cut = set()
        f = self.p.fns[q]; out = []
        E = frozenset(); bl = set()
        for b, t in f.calls():
            if f.cleanup(b): continue
            n = t.get("res") or t.get("f") or "?"; a = t["args"]
            site = (q, b)
            gs = sorted(g for g in self.p.callees(t) if g in self.p.fns)
            lf = [g for g in gs if self.leaf(g)]
            if lf:
                g = self.p.fns[lf[0]]
                ty = [g.ty(i) for i in range(1, g.nargs + 1)]
                if "u32" in ty and "u16" in ty and not self.leaf(q):
                    bl.add(b)
                    ro, co, ce = a[ty.index("u32")], a[ty.index("u16")], a[ty.index(CELL)]
                    for v, fs, bb in self.aggs(q, ce, b):
                        val = {k: self.field(q, o) for k, o in fs.items() if k != "xf_index"}
                        cd = self.merge(self.conds(q, b), self.conds(q, bb))
                        if cd is None: continue
                        out.append(Ev("cell", v, frozenset(self.op(q, ro)), frozenset(self.op(q, co)), val, self.field(q, fs["xf_index"]) if "xf_index" in fs else E, site, cd))
                continue
            if "IntoExcelData" in (t.get("f") or "") and (t.get("f") or "").rsplit("::", 1)[-1] in ("write", "write_with_format") and not str(t.get("res") or "").startswith("<") and len(a) >= 4:
                bl.add(b)
                out.append(Ev("generic", n.rsplit("::", 1)[-1], frozenset(self.op(q, a[2])), frozenset(self.op(q, a[3])), {"data": frozenset(self.op(q, a[0]))}, frozenset(self.op(q, a[4])) if len(a) > 4 else NONE, site, self.conds(q, b))); continue
            if (t.get("f") or "").endswith("Serialize::serialize") and len(a) == 2:
                bl.add(b)
                out.append(Ev("serde", "serialize", E, E, {"data": frozenset(self.op(q, a[0]))}, E, site, self.conds(q, b))); continue
            if n.endswith("::insert") and len(a) == 3 and any(("worksheet::Worksheet.hyperlinks" in x[1]) for x in self.op(q, a[0])):
                bl.add(b)
                out.append(Ev("cell", "hyperlink", frozenset(self.op(q, a[1], ("().0",))), frozenset(self.op(q, a[1], ("().1",))), {"url": frozenset(self.op(q, a[2]))}, E, site, self.conds(q, b))); continue
            for g in gs:
                if "{closure" in g: continue
                es = self.events(g, stack + (q,))
                if es or g in stack + (q,): bl.add(b)
                here = self.conds(q, b) if es else E
                for e in es:
                    cd = self.remap(q, e.conds, a)
                    if cd is not None: cd = self.merge(cd, here)
                    if cd is None: continue
                    out.append(Ev(e.kind, e.name, self.subst(e.row, q, a), self.subst(e.col, q, a), {k: self.subst(v, q, a) for k, v in e.val.items()}, self.subst(e.fmt, q, a), e.site, cd))
        d = {}
        for e in out: d.setdefault(e.key(), e)
        out = list(d.values())
        self.blocks[q] = bl
        if q in self.cut and q in stack: pass
        if not stack or q not in self.cut or stack[0] == q: self.ev[q] = out
        return out
