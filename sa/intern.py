"""Path-wise interpretation of the code that numbers things, over MIR.

A function that looks a key up in a map from keys to integers, and that adds keys,
is interpreted along each of its paths. Integers are linear forms over symbols:
the number of keys in a map or of items in a list at the start of the function or
of an iteration, and the index of a key that was found. A loop is interpreted for
one iteration from a state in which everything that it changes is a symbol; that
two of these differ by a constant (a counter and the number of keys, say) is
assumed at its head if it holds on entry, and kept only if every iteration keeps it.
What is reported: insertions, with the key that is known to be absent, the number
given to the new key, what is pushed in a list on the same path; indices that are
stored or returned, with the keys they belong to."""
import re
from mir import *

def callee(t): return t.get("res") or t.get("f") or "?"
INTS = ("u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize")
def isentry(t):
    n, a = split_generics(re.sub(r"'\{?\w+\}?(, | )", "", strip_refs(t)))
    return n.rsplit("::", 1)[-1] in ("Entry", "OccupiedEntry", "VacantEntry") and len(a) >= 2 and a[1].strip() in INTS and a[0].strip() not in INTS
SAME = {"deref", "deref_mut", "as_ref", "as_mut", "borrow", "borrow_mut", "as_str", "as_slice", "as_mut_slice", "as_deref", "as_deref_mut", "by_ref", "into", "from", "lock", "read", "write", "copied", "cloned", "into_inner", "as_mut_str", "as_bytes", "into_boxed_slice", "get_ref", "to_boxed"}
SNAP = {"clone", "to_owned", "to_string", "to_vec"}
ITER = {"iter", "iter_mut", "into_iter", "values", "values_mut", "drain"}
MAXSTEPS = 60000

def L(d): return ("L", tuple(sorted(((m, c) for m, c in d.items() if c), key=repr)))
def num(k): return L({(): k})
def isL(v): return isinstance(v, tuple) and len(v) == 2 and v[0] == "L"
def plus(a, b, k=1):
    d = dict(a[1])
    for m, c in b[1]: d[m] = d.get(m, 0) + k * c
    return L(d)
def isconst(v): return isL(v) and all(m == () for m, c in v[1])
def const(v): return dict(v[1]).get((), 0)
def syms(v): return {m for m, c in v[1] if m != ()} if isL(v) else set()
def mapty(t):
    """is t (behind references and locks) a map to integers? its key type"""
    t = re.sub(r"'\{?\w+\}?(, | )", "", strip_refs(t))
    n, a = split_generics(t)
    if n.rsplit("::", 1)[-1] in ("Arc", "Rc", "Mutex", "RwLock", "RwLockReadGuard", "RwLockWriteGuard", "MutexGuard", "RefCell", "Ref", "RefMut", "Box") and a: return mapty(a[0])
    if n.rsplit("::", 1)[-1] in ("HashMap", "BTreeMap") and len(a) >= 2 and a[1].strip() in INTS and a[0].strip() not in INTS: return a[0].strip()
    return None

class St:
    def __init__(self): self.env = {}; self.mem = {}; self.size = {}; self.facts = {}; self.cond = {}; self.ver = {}; self.ev = []; self.phase = {}
    def copy(self):
        s = St(); s.env = dict(self.env); s.mem = dict(self.mem); s.size = dict(self.size); s.cond = dict(self.cond); s.ver = dict(self.ver); s.ev = list(self.ev); s.phase = dict(self.phase)
        s.facts = {m: dict(d) for m, d in self.facts.items()}
        return s

class TooBig(Exception): pass

class Interp:
    def __init__(self, p, eqfields=None):
        self.p = p; self.eqfields = eqfields or {}; self.steps = 0; self.log = []; self.heads = {}; self.fork = 0
        self.touch = {}
    # ---- which functions matter
    def direct(self, q):
        f = self.p.fns.get(q)
        if f is None: return False
        for b, t in f.calls():
            if f.cleanup(b) or not t["args"]: continue
            m = callee(t).rsplit("::", 1)[-1]
            a = t["args"][0]
            if "p" in a and m in ("insert", "entry", "get", "get_mut", "contains_key", "or_insert", "or_insert_with", "len", "push", "index"):
                ty = f.ty(a["p"][0])
                if mapty(ty) or isentry(ty): return True
        return False
    def touches(self, q):
        if q in self.touch: return self.touch[q]
        self.touch[q] = False
        r = self.direct(q)
        if not r:
            f = self.p.fns.get(q)
            if f is not None:
                for b, t in f.calls():
                    for g in self.p.callees(t):
                        if g in self.p.fns and self.touches(g): r = True; break
                    if r: break
                if not r: r = any(self.touches(c) for c in self.p.closures_of(q)) if hasattr(self.p, "closures_of") else False
        self.touch[q] = r
        return r
    # ---- values
    def norm(self, st, v):
        """the identity of a key"""
        if isinstance(v, tuple) and v and v[0] == "ref": v = self.load(st, v)
        if isinstance(v, tuple) and v and v[0] == "o":
            t = v[1]; drop = False
            while t[0] == "upd":
                if self.irrelevant(t[2]): t = t[1]
                else: return ("k", t, 0)
            if t[0] == "snap": return ("k",) + t[1:]
            return ("k", t, self.version(st, t))
        return ("k", v, 0)
    def irrelevant(self, fld):
        a = fld.rsplit(".", 1)[0]
        return a in self.eqfields and fld not in self.eqfields[a]
    counters = ()
    def version(self, st, t):
        n = 0
        for w, k in st.ver.items():
            if under(w, t) or under(t, w): n += k
        return n
    def load(self, st, r):
        v = st.env.get(r[1]) if r[1][0] != "mem" else st.mem.get(r[1][1])
        if v is None: v = ("u", r)
        for x in r[2]: v = self.field(st, v, x)
        return v
    def field(self, st, v, key):
        if isinstance(v, tuple):
            if v[0] == "ref":
                w = self.load(st, v)
                return self.field(st, w, key)
            if v[0] == "agg":
                n = key.rsplit(".", 1)[-1]
                for a, x in v[2]:
                    if a == n: return x
                return ("u", (v, key))
            if v[0] == "o":
                t = v[1]
                if t[0] == "upd":
                    if t[2] == key: return t[3]
                    return self.field(st, ("o", t[1]), key)
                if t[0] == "snap": return ("o", ("snap", ("f", t[1], key), t[2]))
                nt = ("f", t, key)
                if nt in st.mem: return st.mem[nt]
                return ("o", nt)
        return ("u", (v, key))
    def place(self, fr, st, pl):
        """value of a place"""
        c = (fr, pl[0])
        v = st.env.get(c)
        if v is None: v = ("u", (fr, pl[0]))
        i = 1
        while i < len(pl):
            x = pl[i]
            if x == "*":
                if isinstance(v, tuple) and v and v[0] == "ref": v = self.load(st, v)
                elif isinstance(v, tuple) and v and v[0] == "o" and v[1][0] == "f" and v[1][2] in self.counters and v[1] in st.mem: v = st.mem[v[1]]
            elif isinstance(x, list):
                if x[0] == "as": v = self.variant(st, v, x[1])
                elif x[0] in ("#", "##"): v = ("o", ("at", v, x[1]))
                else: v = self.payload(st, v, x)
            i += 1
        return v
    def variant(self, st, v, name): return ("as", v, name)
    def payload(self, st, v, x):
        key = "%s.%s" % (x[0], x[1])
        if isinstance(v, tuple) and v and v[0] == "as":
            w, name = v[1], v[2]
            if isinstance(w, tuple) and w and w[0] == "ref": w = self.load(st, w)
            if name in ("Some", "Ok", "Continue") and isinstance(w, tuple):
                if w[0] == "some": return w[1]
                if w[0] == "get": return self.found(st, w[1], w[2])
            if name in ("Occupied", "Vacant"): return ("entry",) + tuple(w[1:]) + (name,) if isinstance(w, tuple) and w[0] == "entry" else ("u", (w, name))
            if isinstance(w, tuple) and w[0] == "agg" :
                for a, y in w[2]:
                    if a == str(x[1]): return y
            return ("o", ("as", w[1] if isinstance(w, tuple) and w and w[0] == "o" else w, name, str(x[1])))
        return self.field(st, v, key)
    def found(self, st, m, k):
        f = st.facts.setdefault(m, {})
        z = f.get(k)
        if z is None or z == "absent":
            z = L({("idx", m, k): 1})
            f[k] = z
        return z
    def op(self, fr, st, o):
        if "p" in o: return self.place(fr, st, o["p"])
        c = o.get("c")
        if c == "int":
            if o.get("ty") == "bool" or o.get("v") in ("true", "false"): return ("b", o["v"] in ("true", "1"))
            try: return num(int(o["v"]))
            except (ValueError, TypeError, KeyError): return ("u", ("c", str(o)))
        if c == "fn": return ("fn", o.get("f"))
        return ("u", ("c", o.get("ty", c), str(o.get("v", ""))))
    def rvalue(self, fr, st, f, rv, q):
        k = rv[0]
        if k == "use":
            v = self.op(fr, st, rv[1])
            # a counter that is read keeps the value that it has now
            if isinstance(v, tuple) and v and v[0] == "o" and v[1][0] == "f" and v[1][2] in self.counters and "p" in rv[1] and (rv[1]["p"][-1] == "*" or isinstance(rv[1]["p"][-1], list) and "%s.%s" % tuple(rv[1]["p"][-1][:2]) == v[1][2]):
                return ("o", ("snap", v[1], self.version(st, v[1])))
            return v
        if k == "cast":
            return self.op(fr, st, rv[1])
        if k == "ref":
            pl = rv[2]; v = self.place(fr, st, pl)
            if isinstance(v, tuple) and v and v[0] in ("map", "list", "iter", "ref"): return v
            if isinstance(v, tuple) and v and v[0] == "o":
                if rv[1] and len(pl) >= 1 and "*" not in pl[1:] and not f.ty(pl[0]).startswith("&"): return ("ref", (fr, pl[0]), tuple("%s.%s" % (x[0], x[1]) for x in pl[1:] if isinstance(x, list) and x[0] not in ("as", "#", "##")))
                return v
            if "*" not in pl[1:] and not any(isinstance(x, list) and x[0] in ("as", "#", "##") for x in pl[1:]):
                return ("ref", (fr, pl[0]), tuple("%s.%s" % (x[0], x[1]) for x in pl[1:]))
            t = self.term(fr, st, pl)
            if t is not None: return ("ref", ("mem", t), ())
            r = st.env.get((fr, pl[0]))
            if isinstance(r, tuple) and r and r[0] == "ref" and pl[1:] == ["*"]: return r
            return v
        if k == "bin":
            a, b = self.op(fr, st, rv[2]), self.op(fr, st, rv[3])
            a, b = self.val(st, a), self.val(st, b)
            n = rv[1]; over = "WithOverflow" in n; n = n.replace("WithOverflow", "").replace("Unchecked", "")
            r = ("u", ("bin", n, a, b))
            if isL(a) and isL(b):
                if n == "Add": r = plus(a, b)
                elif n == "Sub": r = plus(a, b, -1)
                elif n == "Mul" and (isconst(a) or isconst(b)):
                    k2, z = (const(a), b) if isconst(a) else (const(b), a)
                    r = L({m: c * k2 for m, c in z[1]})
                elif n in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
                    d = plus(a, b, -1)
                    if isconst(d):
                        x = const(d)
                        r = ("b", {"Eq": x == 0, "Ne": x != 0, "Lt": x < 0, "Le": x <= 0, "Gt": x > 0, "Ge": x >= 0}[n])
            if over: return ("agg", "tuple", (("0", r), ("1", ("b", False))))
            return r
        if k == "un":
            v = self.val(st, self.op(fr, st, rv[2]))
            if isinstance(v, tuple) and v and v[0] == "b" and rv[1] == "Not": return ("b", not v[1])
            return ("u", ("un", rv[1], v))
        if k == "discr": return ("discr", self.val(st, self.place(fr, st, rv[1])))
        if k == "agg":
            vals = [self.op(fr, st, x) for x in rv[2]]
            a = rv[1]
            if isinstance(a, dict):
                if "closure" in a: return ("closure", a["closure"], tuple(vals))
                vn = a.get("variant")
                if vn == "Some" and len(vals) == 1: return ("some", vals[0])
                if vn == "None" and not vals: return ("none",)
                if vn in ("Ok", "Err") and len(vals) == 1: return ("res", vn, vals[0])
                return ("agg", (a.get("adt"), vn), tuple(zip([str(x) for x in a.get("fields", range(len(vals)))], vals)))
            if a == "array": return ("array", tuple(vals))
            return ("agg", str(a), tuple((str(i), x) for i, x in enumerate(vals)))
        return ("u", (q, fr, k, str(rv)[:60]))
    def val(self, st, v):
        n = 0
        while isinstance(v, tuple) and v and v[0] == "ref" and n < 6: v = self.load(st, v); n += 1
        return v
    def term(self, fr, st, pl):
        """the term of an external place (not its value)"""
        v = st.env.get((fr, pl[0]))
        if isinstance(v, tuple) and v and v[0] == "ref":
            w = self.load(st, v)
            if isinstance(w, tuple) and w and w[0] == "o": v = w
        if not (isinstance(v, tuple) and v and v[0] == "o"): return None
        t = v[1]; vn = None
        for x in pl[1:]:
            if x == "*": continue
            if x[0] == "as": vn = x[1]; continue
            if x[0] in ("#", "##"): return None
            if vn is not None: t = ("as", t, vn, str(x[1])); vn = None; continue
            key = "%s.%s" % (x[0], x[1])
            nt = ("f", t, key)
            w = st.mem.get(nt)
            if isinstance(w, tuple) and w and w[0] == "o": t = w[1]
            else: t = nt
        return t
    def store(self, fr, st, f, pl, v, q, line):
        if len(pl) == 1:
            st.env[(fr, pl[0])] = v; return
        cur = st.env.get((fr, pl[0]))
        if isinstance(cur, tuple) and cur and cur[0] == "ref":
            keys = tuple("%s.%s" % (x[0], x[1]) for x in pl[1:] if isinstance(x, list) and x[0] not in ("as", "#", "##"))
            self.put(st, cur[1], cur[2] + keys, v, q, line); return
        if "*" not in pl[1:] and not f.ty(pl[0]).startswith("&"):
            keys = tuple("%s.%s" % (x[0], x[1]) for x in pl[1:] if isinstance(x, list) and x[0] not in ("as", "#", "##"))
            self.put(st, (fr, pl[0]), keys, v, q, line); return
        t = self.term(fr, st, pl)
        if t is None: return
        self.memset(st, t, v, q, line)
    def memset(self, st, t, v, q, line):
        st.mem[t] = v
        for k in [k for k in st.mem if k != t and under(k, t)]: del st.mem[k]
        st.ver[t] = st.ver.get(t, 0) + 1
        st.ev.append(("store", t, v, q, line))
    def put(self, st, cell, keys, v, q, line):
        if cell[0] == "mem":
            t = cell[1]
            for k in keys: t = ("f", t, k)
            self.memset(st, t, v, q, line); return
        if not keys:
            st.env[cell] = v; return
        cur = st.env.get(cell)
        if isinstance(cur, tuple) and cur and cur[0] == "ref":
            self.put(st, cur[1], cur[2] + keys, v, q, line); return
        if isinstance(cur, tuple) and cur and cur[0] == "agg":
            n = keys[0].rsplit(".", 1)[-1]
            if len(keys) == 1: st.env[cell] = ("agg", cur[1], tuple((a, v if a == n else x) for a, x in cur[2]))
            return
        if isinstance(cur, tuple) and cur and cur[0] == "o":
            st.env[cell] = ("o", ("upd", cur[1], keys[0], v if len(keys) == 1 else ("u", keys)))
            return
        st.env[cell] = ("u", (cell, keys))
    # ---- sizes
    def ident(self, st, v):
        v = self.val(st, v)
        if isinstance(v, tuple) and v and v[0] in ("map", "list"): return v
        if isinstance(v, tuple) and v and v[0] == "o":
            t = v[1]
            while t[0] in ("snap",): t = t[1]
            return ("o", t)
        return v
    def length(self, st, i):
        if i not in st.size: st.size[i] = L({("n", i): 1})
        return st.size[i]
    # ---- execution
    def run(self, q, args=None):
        """all paths of a function: [(state, 'ret', value)]; events in the states"""
        f = self.p.fns[q]; fr = (q, 0)
        st = St()
        for i in range(1, f.nargs + 1): st.env[(fr, i)] = ("o", ("arg", i))
        self.steps = 0; self.log = []; self.frames = 0
        outs = self.exec(q, fr, 0, st, None)
        return outs
    def loops(self, q):
        if q in self.heads: return self.heads[q]
        f = self.p.fns[q]
        # natural loops: a back edge goes to a block that dominates its source
        R = f.reachable(); pre = f.preds()
        order = []; seen = set()
        def dfs(b):
            stack = [(b, iter(f.succ(b)))]; seen.add(b)
            while stack:
                x, it = stack[-1]
                for s in it:
                    if s in R and s not in seen and not f.cleanup(s):
                        seen.add(s); stack.append((s, iter(f.succ(s)))); break
                else: order.append(x); stack.pop()
        dfs(0); order.reverse(); idx = {b: i for i, b in enumerate(order)}
        dom = {0: {0}}; ch = True
        while ch:
            ch = False
            for b in order[1:]:
                ps = [dom[x] for x in pre[b] if x in dom and x in idx]
                if not ps: continue
                n = set.intersection(*ps) | {b}
                if dom.get(b) != n: dom[b] = n; ch = True
        H = {}
        for b in order:
            for s in f.succ(b):
                if s in dom.get(b, ()):
                    body = {s, b}; work = [b]
                    while work:
                        x = work.pop()
                        if x == s: continue
                        for y in pre[x]:
                            if y not in body and y in idx: body.add(y); work.append(y)
                    H[s] = H.get(s, set()) | body
        self.heads[q] = H
        return H
    def exec(self, q, fr, b0, st0, within, first=True):
        """paths from block b0: list of (kind, state, data); kind 'ret' | 'back' (to the loop head `within`) | 'exit' (block outside of the loop) | 'again'"""
        f = self.p.fns[q]; outs = []; work = [(b0, st0, first)]; H = self.loops(q)
        while work:
            b, st, entering = work.pop()
            self.steps += 1
            if self.steps > MAXSTEPS: raise TooBig(q)
            if within is not None and not entering:
                if b == within: outs.append(("back", st, None)); continue
                if b not in H[within]: outs.append(("exit", st, b)); continue
            if b in H and not (entering and within == b):
                for kind, s, d in self.loop(q, fr, b, st):
                    if kind == "exit": work.append((d, s, False))
                    else: outs.append((kind, s, d))
                continue
            for s in f.stmts(b):
                if s[0] == "=":
                    v = self.rvalue(fr, st, f, s[2], q)
                    self.store(fr, st, f, s[1], v, q, s[3] if len(s) > 3 else 0)
            t = f.term(b); k = t["k"]
            if k == "goto" or k == "drop" or k == "assert":
                if k == "drop":
                    ty = t.get("ty") or ""
                    if "Guard" in ty: self.unlock(st)
                work.append((t["to"], st, False))
            elif k == "return":
                outs.append(("ret", st, st.env.get((fr, 0))))
            elif k == "switch":
                for to, s in self.branch(fr, st, t): work.append((to, s, False))
            elif k == "call":
                if t["to"] < 0: continue
                for kind, s, d in self.call(q, fr, b, st, t):
                    if kind == "go": work.append((t["to"], s, False))
                    else: outs.append((kind, s, d))
        return outs
    def unlock(self, st):
        for m, d in st.facts.items():
            for k in [k for k, v in d.items() if v == "absent"]: del d[k]
    def branch(self, fr, st, t):
        v = self.val(st, self.op(fr, st, t["on"]))
        tg = [(int(x), b) for x, b in t["targets"]]; other = t["else"]
        def to(n): return next((b for x, b in tg if x == n), other)
        if isinstance(v, tuple):
            if v[0] == "b": return [(to(1 if v[1] else 0), st)]
            if isL(v) and isconst(v): return [(to(const(v)), st)]
            if v[0] == "discr":
                w = v[1]
                if w[0] == "some": return [(to(1), st)]
                if w[0] == "none": return [(to(0), st)]
                if w[0] == "res": return [(to(0 if w[1] == "Ok" else 1), st)]
                if w[0] == "get":
                    z = st.facts.get(w[1], {}).get(w[2])
                    if z == "absent": return [(to(0), st)]
                    if z is not None: return [(to(1), st)]
                    a = st.copy(); a.facts.setdefault(w[1], {})[w[2]] = "absent"
                    self.found(st, w[1], w[2])
                    return [(to(0), a), (to(1), st)]
                if w[0] == "entry":
                    z = st.facts.get(w[1], {}).get(w[2])
                    if z == "absent": return [(to(1), st)]
                    if z is not None: return [(to(0), st)]
                    a = st.copy(); a.facts.setdefault(w[1], {})[w[2]] = "absent"
                    self.found(st, w[1], w[2])
                    return [(to(1), a), (to(0), st)]
        ck = ("sw", v)
        if ck in st.cond: return [(to(st.cond[ck]) if st.cond[ck] is not None else other, st)]
        o = []
        alts = tg + ([(None, other)] if not self.dead(fr, other) else [])
        for n, (x, b) in enumerate(alts):
            s = st if n == len(alts) - 1 else st.copy()
            s.cond[ck] = x
            o.append((b, s))
        return o
    def dead(self, fr, b):
        return self.p.fns[fr[0]].term(b)["k"] == "unreachable"
    # ---- loops
    def loop(self, q, fr, h, st0):
        changed = set(); lid = (q, h); rel = {}; self.init = getattr(self, "init", {})
        phases = None
        def cells(s): return {("e", k): v for k, v in s.env.items() if k[0] == fr or True} | {("m", k): v for k, v in s.mem.items()} | {("s", k): v for k, v in s.size.items()}
        c0 = cells(st0)
        for attempt in range(40):
            st = st0.copy(); st.ev = []; st.cond = {}; st.facts = {}
            self.havoc(st, st0, changed, rel, lid)
            self.fork += 1
            outs = self.exec(q, fr, h, st, h, True)
            ch0 = cells(st)      # note: st is consumed; recompute the head state
            head = st0.copy(); self.havoc(head, st0, changed, rel, lid); hc = cells(head)
            new = set(); bad = set()
            for kind, s, d in outs:
                if kind != "back": continue
                bc = cells(s)
                for k, v in bc.items():
                    if k not in c0 and k[0] != "s": continue
                    w = hc.get(k)
                    if k[0] == "s" and w is None: w = L({("n", k[1]): 1})
                    if w == v: continue
                    if k not in changed: new.add(k)
                for k, (base, kk) in rel.items():
                    v = bc.get(k); bv = bc.get(base)
                    if not (isL(v) and isL(bv) and plus(v, bv, -1) == num(kk)): bad.add(k)
            if new:
                changed |= new; rel = self.candidates(st0, c0, changed, {}); continue
            if bad:
                for k in bad: rel = self.candidates(st0, c0, changed, rel, drop=k)
                continue
            break
        else: raise TooBig(q)
        res = []; self.init[lid] = c0
        for kind, s, d in outs:
            if kind == "back": self.log.append((q, h, s))
            elif kind == "again": res += self.loop(q, fr, h, self.resume(st0, s))
            else:
                s2 = s; s2.ev = list(st0.ev) + s.ev
                s2.cond = {**st0.cond, **s.cond}
                res.append((kind, s2, d))
        return res
    def resume(self, st0, s):
        s = s.copy(); s.ev = list(st0.ev) + s.ev; return s
    def candidates(self, st0, c0, changed, rel, drop=None):
        tried = getattr(self, "tried", None)
        if drop is None: self.tried = tried = {}
        else: tried.setdefault(drop, set()).add(rel[drop][0])
        sizes = sorted((k for k in changed if k[0] == "s"), key=lambda k: (0 if self.ismap(k[1]) else 1, repr(k)))
        out = {}
        for k in sorted(changed, key=lambda k: (0 if k[0] == "s" and self.ismap(k[1]) else 1 if k[0] == "s" else 2, repr(k))):
            v = c0.get(k)
            if k[0] == "s" and v is None: v = L({("n", k[1]): 1})
            if not isL(v): continue
            for b in sizes:
                if b == k or b in out: continue
                if k[0] == "s" and self.ismap(k[1]): continue
                if b in tried.get(k, ()): continue
                w = c0.get(b)
                if w is None: w = L({("n", b[1]): 1})
                d = plus(v, w, -1) if isL(w) else None
                if d is not None and isconst(d): out[k] = (b, const(d)); break
        return out
    def ismap(self, i): return isinstance(i, tuple) and (i[0] == "map" or i[0] == "o" and i in self.maps) if hasattr(self, "maps") else False
    def havoc(self, st, st0, changed, rel, lid):
        def cur(k): return (st.env if k[0] == "e" else st.mem if k[0] == "m" else st.size)
        for k in sorted(changed, key=lambda k: (k in rel, k[0] != "s", repr(k))):
            old = cur(k).get(k[1])
            if k[0] == "s" or isL(old):
                if k in rel: continue
                cur(k)[k[1]] = L({("h", lid, k): 1})
            else: cur(k)[k[1]] = ("u", ("h", lid, k))
        for _ in range(3):
            for k, (b, kk) in rel.items():
                bv = cur(b).get(b[1])
                if isL(bv): cur(k)[k[1]] = plus(bv, num(kk))
    # ---- calls
    def call(self, q, fr, b, st, t):
        f = self.p.fns[q]; n = callee(t); m = n.rsplit("::", 1)[-1]
        if m == "{closure#0}": m = n
        line = f.blocks[b][3] if len(f.blocks[b]) > 3 else 0
        a = [self.op(fr, st, x) for x in t["args"]]
        dest = t["dest"]
        def done(v, s=None):
            s = s or st
            self.store(fr, s, f, dest, v, q, line)
            return ("go", s, None)
        ty0 = f.ty(t["args"][0]["p"][0]) if t["args"] and "p" in t["args"][0] else ""
        v0 = self.val(st, a[0]) if a else None
        k0 = v0[0] if isinstance(v0, tuple) and v0 else None
        local = t.get("local") and n in self.p.fns
        mt = mapty(ty0) is not None or k0 == "map"
        if "fmt::rt::Argument" in n and m.startswith("new_") or m == "to_string" and isL(v0): st.ev.append(("show", v0, q, line))
        elif local or t.get("virt"): st.ev.append(("pass", n, tuple(self.val(st, x) for x in a), q, line))
        # maps
        if not local or n.endswith(" as std::clone::Clone>::clone"):
            if mt and not (m in SNAP or m in SAME):
                i = self.ident(st, v0)
                if not hasattr(self, "maps"): self.maps = set()
                self.maps.add(i)
                if m == "len": return [done(self.length(st, i))]
                if m in ("get", "get_mut"): return [done(("get", i, self.norm(st, a[1])))]
                if m == "contains_key": return self.fork2(st, i, self.norm(st, a[1]), lambda s, hit: done(("b", hit), s))
                if m == "insert":
                    self.insert(st, i, self.norm(st, a[1]), self.val(st, a[2]), q, line)
                    return [done(("u", (fr, b)))]
                if m == "entry": return [done(("entry", i, self.norm(st, a[1])))]
                if m == "index": return [done(self.found(st, i, self.norm(st, a[1])))]
                if m == "is_empty": return [done(("u", ("empty", i)))]
                if m == "clear":
                    st.size[i] = num(0); st.facts.pop(i, None)
                    return [done(("u", (fr, b)))]
                if m in ("iter", "keys", "values", "into_iter", "iter_mut"): return [done(("iter", (("u", ("items", i)),), m))]
            if k0 == "entry":
                i, k = v0[1], v0[2]
                if m in ("or_insert", "or_insert_with", "or_insert_with_key", "or_default"):
                    o = []
                    for s, hit in self.split(st, i, k):
                        if hit: o.append(done(self.found(s, i, k), s)); continue
                        if m == "or_insert": vals = [(s, self.val(s, a[1]))]
                        elif m == "or_default": vals = [(s, num(0))]
                        else: vals = self.closure(q, s, a[1], [])
                        for s2, v in vals:
                            v = self.val(s2, v)
                            self.insert(s2, i, k, v, q, line); o.append(done(v, s2))
                    return o
                if m in ("get", "into_mut", "get_mut"): return [done(self.found(st, i, k))]
                if m in ("insert", "insert_entry") and len(a) > 1:
                    v = self.val(st, a[1]); self.insert(st, i, k, v, q, line); return [done(v)]
                if m == "key" or m == "into_key": return [done(("o", k[1]) if k[0] == "k" and isinstance(k[1], tuple) and k[1] and k[1][0] in ("arg", "f", "elem", "as", "at") else ("u", k))]
            if k0 in ("get", "some", "none"):
                r = self.option(q, st, m, v0, a, done)
                if r is not None: return r
        if not local:
            if m in ("new", "with_capacity", "default", "from", "from_iter") and mapty(f.ty(dest[0])) and len(dest) == 1:
                i = ("map", (fr, b)); st.size[i] = num(0); st.facts[i] = {}
                if not hasattr(self, "maps"): self.maps = set()
                self.maps.add(i)
                if m == "from":
                    items = v0[1] if k0 == "array" else None
                    if items is None: st.size[i] = L({("n", i): 1})
                    else:
                        for n2, x in enumerate(items):
                            self.preset(st, i, x, q, line)
                return [done(i)]
            if m in ("new", "with_capacity") and re.match(r"std::(vec::Vec|collections::VecDeque|collections::LinkedList)<", f.ty(dest[0])) and len(dest) == 1:
                i = ("list", (fr, b)); st.size[i] = num(0)
                return [done(i)]
            if m in SAME and len(a) == 1:
                if m in ("lock", "read", "write", "borrow_mut") and v0 is not None: self.unlock(st)
                return [done(a[0])]
            if m in ("unwrap", "expect", "unwrap_or_default", "unwrap_unchecked") and k0 not in ("get", "some", "none"):
                if k0 == "res": return [done(v0[2])]
                if k0 == "o" and re.search(r"Result<.*Guard|Option<", ty0):
                    return [done(a[0] if "Guard" in ty0 else ("o", ("as", v0[1], "Some", "0")))]
                return [done(a[0])]
            if m in ("push", "push_back", "insert") and re.match(r"std::(vec::Vec|collections::VecDeque)<|&", ty0) and "Vec" in ty0 and len(a) >= 2:
                i = self.ident(st, v0); n0 = self.length(st, i)
                if m == "insert": st.size[i] = plus(n0, num(1)); st.ev.append(("other", i, q, line))
                else:
                    st.ev.append(("push", i, self.norm(st, a[1]), n0, self.val(st, a[1]), q, line)); st.size[i] = plus(n0, num(1))
                return [done(("u", (fr, b)))]
            if m == "len" and a: return [done(self.length(st, self.ident(st, v0)))]
            if m in ("clear",) and a:
                st.size[self.ident(st, v0)] = num(0); return [done(("u", (fr, b)))]
            if m in ("take", "replace") and "mem::" in n and k0 in ("o", "list", "map"):
                i = self.ident(st, v0); old = self.length(st, i); j = ("list", (fr, b)); st.size[j] = old; st.size[i] = num(0)
                return [done(j)]
            if m in ITER and a:
                if k0 == "iter": return [done(v0)]
                if k0 == "array": return [done(("iter", tuple(v0[1]), "array"))]
                return [done(("iter", (v0,), "items"))]
            if m in ("enumerate", "rev", "peekable", "skip", "take", "filter", "chain", "zip", "flatten", "copied", "cloned", "by_ref", "inspect", "map", "flat_map") and k0 == "iter":
                if m == "flatten" and v0[2] == "array": return [done(("iter", v0[1], "flat"))]
                if m == "chain":
                    w = self.val(st, a[1])
                    more = w[1] if isinstance(w, tuple) and w and w[0] == "iter" else (w,)
                    if v0[2] in ("items", "flat"): return [done(("iter", tuple(v0[1]) + tuple(more), "flat"))]
                if m in ("copied", "cloned", "by_ref", "peekable", "inspect"): return [done(v0)]
                if m == "enumerate": return [done(("iter", v0[1], ("enumerate", v0[2])))]
                return [done(("iter", (("u", ("adapted", m, v0)),), "items"))]
            if m == "next" and k0 == "iter":
                return self.next(q, fr, b, st, t, a[0], v0, done)
            if m in SNAP and a:
                if k0 == "o": 
                    tt = v0[1]
                    if tt[0] in ("snap",): return [done(v0)]
                    if tt[0] == "upd": return [done(v0)]
                    ty = strip_refs(ty0)
                    if ty.startswith("std::sync::Arc") or mapty(ty0): return [done(v0)]
                    return [done(("o", ("snap", tt, self.version(st, tt))))]
                return [done(v0)]
            if m in ("is_some", "is_none", "is_ok", "is_err") and k0 == "o":
                return [done(("u", ("bin", m, v0)))]
            if "{closure" in n or m in ("call", "call_mut", "call_once"):
                r = self.closure(q, st, a[0], [self.field(st, a[1], "().%d" % i) if isinstance(a[1], tuple) and a[1][0] == "agg" else a[1] for i in range(len(a[1][2]) if isinstance(a[1], tuple) and a[1][0] == "agg" else 0)] if len(a) > 1 else [])
                return [done(v, s) for s, v in r]
        if local:
            g = self.p.fns[n]
            if n.endswith("std::clone::Clone>::clone"):
                if k0 == "o": return [done(v0 if v0[1][0] in ("snap", "upd") else ("o", ("snap", v0[1], self.version(st, v0[1]))))]
                return [done(v0)]
            if self.depth(fr) < 4 and (self.touches(n) or self.simple(g)):
                o = []
                for s, v in self.inline(fr, b, n, st, a): o.append(done(v, s))
                return o
        # unknown: what is passed by mutable reference changes
        for x, y in zip(t["args"], a):
            if "p" in x and f.ty(x["p"][0]).startswith("&mut "):
                z = y
                if isinstance(z, tuple) and z and z[0] == "ref" and z[1][0] != "mem":
                    if isL(self.val(st, z)): self.put(st, z[1], z[2], ("u", (fr, b)), q, line)
                elif isinstance(z, tuple) and z and z[0] == "o" and local and self.writes(n, z[1]):
                    st.ver[z[1]] = st.ver.get(z[1], 0) + 1
        return [done(("u", ("call", n, tuple(self.norm(st, x) if isinstance(x, tuple) and x and x[0] == "o" else self.val(st, x) for x in a))))]
    def writes(self, n, t): return True
    def simple(self, g):
        if len(g.live_blocks()) > 14: return False
        H = self.loops(g.path)
        return not H
    def depth(self, fr):
        d = 0
        while isinstance(fr[1], tuple): d += 1; fr = fr[1][0]
        return d
    def inline(self, fr, b, n, st, args):
        g = self.p.fns[n]; nf = (n, (fr, b))
        for i in range(1, g.nargs + 1): st.env[(nf, i)] = args[i - 1] if i - 1 < len(args) else ("u", ("arg", i))
        o = []
        for kind, s, v in self.exec(n, nf, 0, st, None):
            if kind == "ret": o.append((s, v if v is not None else ("u", nf)))
        return o
    def closure(self, q, st, c, args):
        c = self.val(st, c)
        if isinstance(c, tuple) and c and c[0] == "closure" and c[1] in self.p.fns:
            g = self.p.fns[c[1]]; self.frames = getattr(self, "frames", 0) + 1; nf = (c[1], self.frames)
            up = ("agg", "closure", tuple((str(i), x) for i, x in enumerate(c[2])))
            st.env[(nf, 1)] = up
            for i in range(2, g.nargs + 1): st.env[(nf, i)] = args[i - 2] if i - 2 < len(args) else ("u", ("carg", nf, i))
            return [(s, v if v is not None else ("u", nf)) for kind, s, v in self.exec(c[1], nf, 0, st, None) if kind == "ret"]
        return [(st, ("u", ("closure", c)))]
    def split(self, st, i, k):
        z = st.facts.get(i, {}).get(k)
        if z == "absent": return [(st, False)]
        if z is not None: return [(st, True)]
        a = st.copy(); a.facts.setdefault(i, {})[k] = "absent"; self.found(st, i, k)
        return [(a, False), (st, True)]
    def fork2(self, st, i, k, fn): return [fn(s, hit) for s, hit in self.split(st, i, k)]
    def option(self, q, st, m, v, a, done):
        if m in ("copied", "cloned", "as_ref", "as_mut", "as_deref", "as_deref_mut"): return [done(v)]
        alts = [(s, ("some", self.found(s, v[1], v[2])) if hit else ("none",)) for s, hit in self.split(st, v[1], v[2])] if v[0] == "get" else [(st, v)]
        o = []
        for s, w in alts:
            some = w[0] == "some"
            if m in ("is_some", "is_none"): o.append(done(("b", some == (m == "is_some")), s))
            elif m in ("unwrap", "expect", "unwrap_unchecked"):
                if some: o.append(done(w[1], s))
            elif m == "unwrap_or": o.append(done(w[1] if some else self.val(s, a[1]), s))
            elif m == "unwrap_or_default": o.append(done(w[1] if some else num(0), s))
            elif m == "unwrap_or_else":
                if some: o.append(done(w[1], s))
                else: o += [done(x, s2) for s2, x in self.closure(q, s, a[1], [])]
            elif m == "map":
                if not some: o.append(done(w, s))
                else: o += [done(("some", x), s2) for s2, x in self.closure(q, s, a[1], [w[1]])]
            elif m == "map_or":
                if not some: o.append(done(self.val(s, a[1]), s))
                else: o += [done(x, s2) for s2, x in self.closure(q, s, a[2], [w[1]])]
            elif m == "map_or_else":
                o += [done(x, s2) for s2, x in (self.closure(q, s, a[2], [w[1]]) if some else self.closure(q, s, a[1], []))]
            elif m == "or_else":
                if some: o.append(done(w, s))
                else: o += [done(x, s2) for s2, x in self.closure(q, s, a[1], [])]
            elif m in ("branch", "ok_or", "ok_or_else"): return None
            else: return None
        return o
    def next(self, q, fr, b, st, t, a, it, done):
        srcs, kind = it[1], it[2]
        flat = kind == "flat" or isinstance(kind, tuple) and kind[1] == "flat"
        ph = st.phase.get(it, 0) if flat else 0
        end = st.copy()
        src = srcs[ph if flat else 0] if srcs else ("u", it)
        src = self.val(st, src)
        base = src
        if isinstance(base, tuple) and base and base[0] == "iter": base = base[1][0]
        if kind == "array": e = base if len(srcs) == 1 else ("o", ("elem", (q, b), ("array",)))
        else: e = ("o", ("elem", (q, b), self.ident(st, base)))
        if isinstance(e, tuple) and e[0] == "o":
            # a new item: nothing is known of it
            for k in [k for k in st.mem if under(k, e[1])]: del st.mem[k]
            st.ver = {k: v for k, v in st.ver.items() if not under(k, e[1])}
        if isinstance(kind, tuple): e = ("agg", "tuple", (("0", L({("pos", (q, b)): 1})), ("1", e)))
        st.ev.append(("item", e, q))
        o = [done(("some", e))]
        if flat and ph + 1 < len(srcs):
            end.phase[it] = ph + 1; o.append(("again", end, None))
        else: o.append(done(("none",), end))
        return o
    def preset(self, st, i, x, q, line):
        k = v = None
        if isinstance(x, tuple) and x and x[0] == "agg" and len(x[2]) == 2: k, v = x[2][0][1], self.val(st, x[2][1][1])
        n = self.length(st, i)
        st.ev.append(("insert", i, ("preset", st.size[i]), v, n, "preset", q, line))
        st.size[i] = plus(n, num(1))
    def insert(self, st, i, k, v, q, line):
        n = self.length(st, i); was = st.facts.get(i, {}).get(k)
        st.ev.append(("insert", i, k, v, n, was, q, line))
        st.size[i] = plus(n, num(1))
        st.facts.setdefault(i, {})[k] = v

def under(a, b):
    """term a is b or part of it"""
    while True:
        if a == b: return True
        if isinstance(a, tuple) and a and a[0] in ("f", "as", "snap", "upd"): a = a[1]
        else: return False
