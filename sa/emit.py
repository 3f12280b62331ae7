"""Abstract interpreter of the XML emission code.

Interprets the MIR of every function that (transitively) writes XML, context
sensitively and path sensitively as far as element stacks differ, and records
 * the element stack effect of every function (balance),
 * every opened element with its ancestors, its preceding sibling and its
   attribute names/values (as abstract values),
 * every raw write.

Values (tuples):
 ('s',str) ('i',int) ('f',repr)        constants
 ('v',adt,variant,((field,val)..))     aggregate / enum constant
 ('tup',(..)) ('arr',(..))             tuples and arrays
 ('list',frozenset((name,min,max,vals))) attribute vectors
 ('vec',elem)                          other vectors
 ('p',path)                            content of / reference to a memory path
 ('fmt',parts)                         formatted string
 ('str',v)                             v.to_string()
 ('disp',adt,v)                        Display of a crate type
 ('call',f,args) ('x',f,args)          pure application (local / external)
 ('iter',elem) ('next',elem)
 ('phi',frozenset) ('u',)              join, unknown
"""
import re, sys, collections, functools
from mir import *

sys.setrecursionlimit(20000)
U = ("u",)
PRIMS = {
    "xml_declaration": "decl", "xml_start_tag_only": "open", "xml_start_tag": "open", "xml_end_tag": "close",
    "xml_empty_tag_only": "empty", "xml_empty_tag": "empty", "xml_data_element_only": "data", "xml_data_element": "data",
    "xml_si_element": "si", "xml_rich_si_element": "richsi", "xml_theme": "raw", "xml_raw_string": "raw",
}
MAXPHI = 40

def unsym(v):
    """possible values of a join symbol"""
    return v[3] if v[0] == "sym" else v

def const(v): return v[0] in ("s", "i", "f") or (v[0] == "v" and not v[3])

@functools.lru_cache(maxsize=None)
def paths_in(v):
    """All memory paths mentioned in a value."""
    out = set()
    def go(x):
        if not isinstance(x, tuple):
            if isinstance(x, frozenset):
                for y in x: go(y)
            return
        if len(x) == 2 and x[0] == "p" and isinstance(x[1], tuple):
            out.add(x[1])
            # roots may be nested
            return
        for y in x:
            if isinstance(y, (tuple, frozenset)): go(y)
    go(v)
    return frozenset(out)

@functools.lru_cache(maxsize=None)
def calls_in(v):
    out = set()
    def go(x):
        if isinstance(x, frozenset):
            for y in x: go(y)
        elif isinstance(x, tuple):
            if len(x) == 3 and x[0] == "call": out.add(x[1])
            for y in x:
                if isinstance(y, (tuple, frozenset)): go(y)
    go(v)
    return frozenset(out)

@functools.lru_cache(maxsize=None)
def depth(v):
    if isinstance(v, frozenset): return max([depth(x) for x in v], default=0)
    if not isinstance(v, tuple): return 0
    return 1 + max([depth(x) for x in v if isinstance(x, (tuple, frozenset))], default=0)

def scrub(v, hit):
    """v with the parts that depend on changed memory forgotten"""
    if not isinstance(v, tuple) or not v: return v
    if v[0] in ("p", "call") and len(v) in (2, 3):
        return U if hit(v) else v
    if v[0] in ("s", "i", "f", "u"): return v
    if v[0] == "sym":
        return v if not hit(v) else scrub(v[3], hit)
    if v[0] == "phi": return phi([scrub(x, hit) for x in v[1]])
    if v[0] == "list":
        return ("list", frozenset((n, a, b, frozenset(scrub(x, hit) for x in vs)) for n, a, b, vs in v[1]))
    def go(x):
        if isinstance(x, tuple):
            if x and isinstance(x[0], str) and x[0] in TAGS: return scrub(x, hit)
            return tuple(go(y) for y in x)
        return x
    return (v[0],) + tuple(go(x) for x in v[1:])

TAGS = {"s", "i", "f", "v", "tup", "arr", "list", "vec", "p", "fmt", "str", "disp", "call", "x", "iter", "next", "phi", "u",
        "esc", "fld", "not", "bin", "discr", "sym", "a", "frag", "args", "arg"}

@functools.lru_cache(maxsize=None)
def syms_in(v):
    out = set()
    def go(x):
        if isinstance(x, frozenset):
            for y in x: go(y)
        elif isinstance(x, tuple):
            if len(x) == 4 and x[0] == "sym": out.add((x[1], x[2]))
            for y in x:
                if isinstance(y, (tuple, frozenset)): go(y)
    go(v)
    return frozenset(out)

def desym(v, fn, b):
    """replace join symbols of block b by their possible values"""
    if isinstance(v, frozenset): return frozenset(desym(x, fn, b) for x in v)
    if not isinstance(v, tuple): return v
    if len(v) == 4 and v[0] == "sym" and v[1] == fn and v[2][0] == b: return desym(v[3], fn, b)
    if v and v[0] == "phi": return phi([desym(x, fn, b) for x in v[1]])
    return tuple(desym(x, fn, b) if isinstance(x, (tuple, frozenset)) else x for x in v)

def phi(vals):
    s = set()
    for v in vals:
        if v[0] == "phi": s |= v[1]
        else: s.add(v)
    if U in s: return U
    if len(s) == 1: return next(iter(s))
    # merge lists / same-variant aggregates
    ls = [x for x in s if x[0] == "list"]
    if len(ls) > 1:
        s -= set(ls); s.add(functools.reduce(join_list, ls))
    vs = [x for x in s if x[0] == "vec"]
    if len(vs) > 1:
        s -= set(vs); s.add(("vec", phi([x[1] for x in vs])))
    if len(s) == 1: return next(iter(s))
    tps = [x for x in s if x[0] == "tup"]
    if len(tps) > 1 and len(tps) == len(s) and len({len(x[1]) for x in tps}) == 1:
        return ("tup", tuple(phi(c) for c in zip(*[x[1] for x in tps])))
    if len(s) > MAXPHI: return U
    if any(depth(x) > 14 for x in s): return U
    return ("phi", frozenset(s))

def join_list(a, b):
    d = {}
    for n, mi, ma, vs in a[1]: d[n] = (mi, ma, vs)
    e = {}
    for n, mi, ma, vs in b[1]: e[n] = (mi, ma, vs)
    out = []
    for n in set(d) | set(e):
        x = d.get(n, (0, 0, frozenset())); y = e.get(n, (0, 0, frozenset()))
        vs = x[2] | y[2]
        if len(vs) > MAXPHI or U in vs: vs = frozenset([U])
        out.append((n, min(x[0], y[0]), max(x[1], y[1]), vs))
    return ("list", frozenset(out))

def list_add(l, name, val):
    d = {n: (mi, ma, vs) for n, mi, ma, vs in l[1]}
    mi, ma, vs = d.get(name, (0, 0, frozenset()))
    vals = val[1] if val[0] == "phi" else frozenset([val])
    vs = vs | vals
    if len(vs) > MAXPHI: vs = frozenset([U])
    d[name] = (min(mi + 1, 2), min(ma + 1, 2), vs)
    return ("list", frozenset((n,) + x for n, x in d.items()))

def list_cat(a, b):
    d = {n: (mi, ma, vs) for n, mi, ma, vs in a[1]}
    for n, mi, ma, vs in b[1]:
        x = d.get(n, (0, 0, frozenset()))
        v2 = x[2] | vs
        if len(v2) > MAXPHI: v2 = frozenset([U])
        d[n] = (min(2, x[0] + mi), min(2, x[1] + ma), v2)
    return ("list", frozenset((n,) + x for n, x in d.items()))

def opts(v):
    v = unsym(v)
    return list(v[1]) if v[0] == "phi" else [v]

def as_list(v):
    """arr/list value -> attribute list value"""
    if v[0] == "list": return v
    if v[0] == "arr":
        l = ("list", frozenset())
        for e in v[1]:
            if e[0] == "tup" and len(e[1]) == 2 and e[1][0][0] == "s": l = list_add(l, e[1][0][1], e[1][1])
            elif e[0] == "tup" and len(e[1]) == 2 and e[1][0][0] == "phi" and all(x[0] == "s" for x in e[1][0][1]):
                alt = [list_add(l, x[1], e[1][1]) for x in e[1][0][1]]
                l = functools.reduce(join_list, alt)
            else: l = list_add(l, "?", e)
        return l
    if v[0] == "phi":
        ls = [as_list(x) for x in v[1]]
        if all(x is not None for x in ls): return functools.reduce(join_list, ls)
    return None

class State:
    __slots__ = ("env", "store", "facts", "stk")
    def __init__(self, env, store, facts, stk=None):
        self.env = env; self.store = store; self.facts = facts; self.stk = stk if stk is not None else {}
    def copy(self): return State(dict(self.env), dict(self.store), dict(self.facts), dict(self.stk))

class Summary:
    __slots__ = ("exits", "events", "issues", "done", "raws")
    def __init__(self): self.exits = []; self.events = set(); self.issues = set(); self.done = set(); self.raws = set()

BOT = ("^", None, ())

class Interp:
    def __init__(self, prog, debug=False):
        self.p = prog; self.debug = debug
        self.memo = {}; self.inprog = set()
        self.tf = prog.trans_fields(); self.cg = prog.callgraph()
        self.compute_emitters()
        self.stats = collections.Counter()
        self.unknown_ext = collections.Counter()
        self.depthlim = 0

    # ---- which functions emit --------------------------------------------
    def is_raw_sink(self, t):
        n = t.get("f") or ""
        if n in ("std::io::Write::write_fmt", "std::io::Write::write_all", "std::io::Write::write"):
            w = (t.get("targs") or ["?"])[0]
            return "zip::" not in w and "ZipWriter" not in w and w not in ("std::io::Stdout", "std::io::Stderr")
        return False

    def prim(self, path):
        if path.startswith("xmlwriter::"):
            return PRIMS.get(path[len("xmlwriter::"):])
        return None

    def compute_emitters(self):
        em = set()
        for p, f in self.p.fns.items():
            for b, t in f.calls():
                if self.is_raw_sink(t): em.add(p)
        em |= {p for p in self.p.fns if self.prim(p)}
        changed = True
        callers = self.p.callers()
        work = list(em)
        while work:
            q = work.pop()
            for c in callers.get(q, ()):
                if c not in em: em.add(c); work.append(c)
        self.emitters = em

    # ---- memory -----------------------------------------------------------
    def lookup(self, st, path):
        store = st.store
        if path in store:
            v = store[path]
            if v[0] in ("v",):
                # overrides of fields written later
                for q, w in store.items():
                    if len(q) == len(path) + 1 and q[:len(path)] == path:
                        v = self.upd_field(v, q[-1], w)
            return v
        for n in range(len(path) - 1, 0, -1):
            q = path[:n]
            if q in store:
                v = store[q]
                for e in path[n:]: v = self.proj(v, e)
                return v
        return ("p", path)

    def upd_field(self, v, elem, w):
        if v[0] == "v":
            name = elem.rsplit(".", 1)[-1] if isinstance(elem, str) else None
            fs = tuple((n, w if n == name else x) for n, x in v[3])
            return ("v", v[1], v[2], fs)
        return v

    def proj(self, v, e):
        """e: 'Owner.field' | 'elem' | 'key' | ('as',variant) | ('##',n)"""
        k = v[0]
        if k == "phi": return phi([y for y in (self.proj(x, e) for x in v[1]) if y != ("dead",)] or [("dead",)])
        if k == "u": return U
        if k == "sym": return self.proj(v[3], e)
        if k == "ref": return self.proj(v[1], e)
        if isinstance(e, tuple) and e[0] == "as":
            if k == "v":
                return v if v[2] == e[1] else ("dead",)
            return v
        if k == "dead": return v
        if k == "p": return ("p", v[1] + (e,))
        if k == "v":
            name = e.rsplit(".", 1)[-1] if isinstance(e, str) else None
            for n, x in v[3]:
                if n == name: return x
            if v[1] == "{closure}": return U
            return U
        if k == "tup":
            if isinstance(e, str):
                n = e.rsplit(".", 1)[-1]
                if n.isdigit() and int(n) < len(v[1]): return v[1][int(n)]
            return U
        if k == "arr":
            if isinstance(e, tuple) and e[0] == "##":
                i = e[1]
                return v[1][i] if -len(v[1]) <= i < len(v[1]) else U
            if e == "elem": return phi(v[1]) if v[1] else U
            return U
        if k == "vec" and e == "elem": return v[1]
        if k == "next":
            if isinstance(e, str) and e.endswith(".0"): return v[1]
            return U
        if k in ("x", "call", "fld", "esc"):
            if depth(v) > 8: return U
            return ("fld", v, e)
        return U

    def kill(self, st, path, fields=None):
        n = len(path)
        for q in [q for q in st.store if q[:n] == path or path[:len(q)] == q and len(q) < n]:
            if q[:n] == path: del st.store[q]
            else:
                # a prefix aggregate is stored: update/destroy it
                v = st.store[q]
                if v[0] == "v" and n == len(q) + 1: continue   # overridden by the extension entry written next
                del st.store[q]
        last = path[-1] if isinstance(path[-1], str) else None
        def hit(v):
            for q in paths_in(v):
                if q[:n] == path or path[:len(q)] == q: return True
            if last:
                for c in calls_in(v):
                    if last in self.tf[c][0]: return True
            return False
        def self_hit(x): return hit(x)
        for k in [k for k in st.facts if hit(k)]: del st.facts[k]
        for l, v in st.env.items():
            if v[0] not in ("s", "i", "u", "p", "f") and hit(v): st.env[l] = scrub(v, self_hit)
            elif v[0] == "p" and v[1][:n] == path and self._cur_ty_is_value(l): st.env[l] = U
        for q in list(st.store):
            v = st.store[q]
            if v[0] == "p" and v[1][:n] == path and q != path and q[0][0] == "L": pass
            elif v[0] not in ("s", "i", "u", "f", "p") and q[:n] != path and hit(v): st.store[q] = scrub(v, self_hit)

    def _cur_ty_is_value(self, l):
        t = self.curfn.ty(l)
        return not t.startswith("&") and not t.startswith("*")

    def kill_fields(self, st, fields):
        if not fields: return
        def hitp(q):
            for e in q:
                if isinstance(e, str) and e in fields: return True
            return False
        def hit(v):
            for q in paths_in(v):
                if hitp(q): return True
            for c in calls_in(v):
                if self.tf[c][0] & fields: return True
            return False
        for q in [q for q in st.store if hitp(q)]: del st.store[q]
        for k in [k for k in st.facts if hit(k)]: del st.facts[k]
        for l, v in list(st.env.items()):
            if v[0] == "p":
                if hitp(v[1]) and self._cur_ty_is_value(l):
                    # only the last field being written changes this value
                    st.env[l] = U
            elif v[0] not in ("s", "i", "u", "f") and hit(v): st.env[l] = scrub(v, hit)
        for q, v in st.store.items():
            if v[0] not in ("s", "i", "u", "f", "p") and hit(v): st.store[q] = scrub(v, hit)

    def write_path(self, st, path, v):
        if path[0][0] == "B":
            st.store[path[:1]] = v; return
        if st.stk and path[0][0] == "L" and len(path) <= 2:
            n = len(path)
            for w in [w for w in st.stk if w[:n] == path]:
                self.check_complete(st, w, self.curfn.path); del st.stk[w]
        self.kill(st, path)
        if v[0] not in ("dead",): st.store[path] = v

    # ---- places and operands ----------------------------------------------
    def lpath(self, l): return (("L", self.curfn.path, l),)

    def base(self, st, l):
        """value of a bare local, as path if it lives in the store"""
        if l in self.curmut: return ("p", self.lpath(l))
        return st.env.get(l, U)

    def place_val(self, st, pl):
        return self.place(st, pl)[0]

    def place(self, st, pl):
        """(value, True) if value is the path of the memory the place denotes"""
        v = self.base(st, pl[0])
        mem = pl[0] in self.curmut
        for e in pl[1:]:
            if e == "*":
                if v[0] == "p" and v[1][0][0] != "B":
                    if mem:
                        # follow a reference kept in memory; otherwise references are transparent
                        w = self.lookup(st, v[1])
                        if w[0] == "p": v = w
                        elif v[1] in st.store: v = w
                    mem = v[0] == "p"
                continue
            if v[0] == "p" and v[1][0][0] == "B": continue
            if e[0] == "as":
                if v[0] == "p":
                    w = self.lookup(st, v[1]) if mem else v
                    if w[0] != "p": v = self.proj(w, ("as", e[1])); mem = False
                else: v = self.proj(v, ("as", e[1]))
                continue
            if e[0] == "#" : v = self.proj(self.deref_if(st, v), "elem")
            elif e[0] == "##": v = self.proj(self.deref_if(st, v), ("##", int(e[1])))
            elif e[0] in ("sub", "?"): v = U
            else:
                cl = v[0] == "v" and v[1] == "{closure}"      # a captured reference is the reference itself
                v = self.proj(v, fkey(e))
                if cl: mem = False; continue
            mem = v[0] == "p"
        return v, mem

    def deref_if(self, st, v):
        return self.lookup(st, v[1]) if v[0] == "p" else v

    def load(self, st, pl):
        v, mem = self.place(st, pl)
        if mem and v[0] == "p": return self.lookup(st, v[1])
        return v

    def operand(self, st, o):
        if "p" in o: return self.load(st, o["p"])
        c = o["c"]
        if c == "str": return ("s", o["v"])
        if c == "int":
            if "variant" in o: return ("v", strip_generics(o["ty"]), o["variant"], ())
            return ("i", int(o["v"]))
        if c == "float": return ("f", o["v"])
        if c == "bytes":
            return ("bytes", o["v"])
        if c == "promoted": return self.eval_const(("P", o["of"], o["idx"]))
        if c == "fn": return ("fn", o.get("res") or o["f"])
        if c == "zst":
            ty = o.get("ty", "")
            if ty == "()": return ("tup", ())
            return ("zst", ty)
        if c in ("opaque", "generic") and o.get("name"):
            if o["name"] in self.p.consts: return self.eval_const(("C", o["name"]))
        return U

    @functools.lru_cache(maxsize=None)
    def eval_const(self, key):
        f = self.p.promoted.get((key[1], key[2])) if key[0] == "P" else self.p.consts.get(key[1])
        if f is None: return U
        sv = (getattr(self, "curfn", None), getattr(self, "curmut", None))
        self.curfn = f; self.curmut = f.mutref_locals()
        st = State({}, {}, {})
        b = 0; n = 0
        res = U
        while n < 2000:
            n += 1
            for s in f.stmts(b): self.stmt(st, s)
            t = f.term(b)
            if t["k"] == "return":
                res = self.load(st, [0]); break
            if t["k"] in ("goto", "drop", "assert"): b = t["to"]
            elif t["k"] == "call" and t["to"] >= 0:
                args = [self.operand(st, a) for a in t["args"]]
                v, _ = self.model(st, t, args, f, b)
                self.assign(st, t["dest"], v if v is not None else U); b = t["to"]
            else: break
        self.curfn, self.curmut = sv
        return res

    def assign(self, st, pl, v):
        l = pl[0]
        if len(pl) == 1:
            if l in self.curmut: self.write_path(st, self.lpath(l), v)
            else: st.env[l] = v
            return
        base = self.place_val(st, pl)
        if base[0] == "p":
            self.write_path(st, base[1], v); return
        # functional update of a local aggregate
        if l not in self.curmut and len(pl) == 2 and pl[1] != "*" and is_field(pl[1]):
            b = st.env.get(l, U)
            if b[0] == "v": st.env[l] = self.upd_field(b, fkey(pl[1]), v); return
            if b[0] == "tup":
                i = int(pl[1][1])
                x = list(b[1]); x[i] = v; st.env[l] = ("tup", tuple(x)); return
        if "*" not in pl[1:]: st.env[l] = U

    def stmt(self, st, s):
        if s[0] != "=": 
            return
        self.assign(st, s[1], self.rvalue(st, s[2], s[1]))

    def rvalue(self, st, rv, dest=None):
        k = rv[0]
        if k == "use": return self.operand(st, rv[1])
        if k == "ref":
            v, mem = self.place(st, rv[2])
            if rv[1]: return v                      # &mut: keep the path
            if mem and v[0] == "p":
                w = self.lookup(st, v[1])
                return v if w[:2] == ("x", "cursor") else w
            return v
        if k == "cast":
            v = self.operand(st, rv[1]); return v
        if k == "discr":
            v = self.load(st, rv[1])
            return self.discr(v, rv[2])
        if k == "bin":
            a = self.operand(st, rv[2]); b = self.operand(st, rv[3])
            return self.binop(rv[1], a, b)
        if k == "un":
            a = self.operand(st, rv[2])
            if rv[1] == "Not":
                if a[0] == "i": return ("i", 1 - a[1]) if a[1] in (0, 1) else U
                if a[0] == "not": return a[1]
                if a == U: return U
                return ("not", a)
            if a[0] == "i" and rv[1] == "Neg": return ("i", -a[1])
            return U
        if k == "agg":
            ops = [self.operand(st, o) for o in rv[2]]
            kind = rv[1]
            if kind == "array": return ("arr", tuple(ops))
            if kind == "tuple": return ("tup", tuple(ops))
            if isinstance(kind, dict):
                if "adt" in kind:
                    if kind["adt"] == "std::borrow::Cow" and ops: return ops[0]
                    if depth(("x",) + tuple(ops)) > 12: ops = [o if depth(o) < 6 else U for o in ops]
                    return ("v", kind["adt"], kind["variant"], tuple(zip(kind["fields"], ops)))
                if "closure" in kind: return ("v", "{closure}", kind["closure"], tuple((str(i), o) for i, o in enumerate(ops)))
            return U
        if k == "repeat":
            return ("vec", self.operand(st, rv[1]))
        return U

    def discr(self, v, ty):
        if v[0] == "sym":
            return ("discr", v) if v[3] == U or v[3][0] == "phi" else self.discr(v[3], ty)
        if v[0] == "v":
            adt = self.p.adts.get(v[1])
            if adt:
                for x in adt["variants"]:
                    if x["name"] == v[2]: return ("i", int(x["discr"]))
            m = {"None": 0, "Some": 1, "Ok": 0, "Err": 1, "Borrowed": 0, "Owned": 1, "Continue": 0, "Break": 1}
            if v[2] in m: return ("i", m[v[2]])
            return U
        if v[0] == "next": return U
        if v[0] == "phi":
            return phi([self.discr(x, ty) for x in v[1]])
        if v == U or v[0] == "dead": return U
        if depth(v) > 8: return U
        return ("discr", v)

    def binop(self, op, a, b):
        ov = op.endswith("WithOverflow")
        if ov: op = op[:-len("WithOverflow")]
        r = U
        if a[0] == "i" and b[0] == "i":
            x, y = a[1], b[1]
            m = {"Add": x + y, "Sub": x - y, "Mul": x * y, "Eq": int(x == y), "Ne": int(x != y), "Lt": int(x < y),
                 "Le": int(x <= y), "Gt": int(x > y), "Ge": int(x >= y), "BitAnd": x & y, "BitOr": x | y, "BitXor": x ^ y}
            if op in m: r = ("i", m[op])
        elif op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge", "Add", "Sub", "Mul", "Div", "Rem", "BitAnd", "BitOr", "BitXor"):
            if a != U and b != U and depth(a) < 7 and depth(b) < 7:
                if op == "Ne": r = ("not", ("bin", "Eq", a, b))
                else: r = ("bin", op, a, b)
        if ov: return ("tup", (r, ("i", 0)))
        return r

    # ---- predicates ---------------------------------------------------------
    def norm_eq(self, a, b):
        """a == b as predicate value"""
        if a[0] == "phi" or b[0] == "phi" or a == U or b == U:
            pass
        if const(a) and const(b):
            return ("i", int(a == b))
        if const(a): a, b = b, a
        if b[0] == "v" and not b[3] and a[0] not in ("phi", "u", "v"):
            adt = self.p.adts.get(b[1])
            if adt:
                for x in adt["variants"]:
                    if x["name"] == b[2]: return ("bin", "Eq", ("discr", a), ("i", int(x["discr"])))
        if a[0] == "v" and b[0] == "v" and (a[1], a[2]) != (b[1], b[2]): return ("i", 0)
        if a == U or b == U: return U
        if depth(a) > 8 or depth(b) > 8: return U
        return ("bin", "Eq", a, b)

    def branch(self, st, v, val, all_vals=None):
        """assume switch operand v equals val (int) or differs from all all_vals.
        Returns False if infeasible."""
        if v == U: return True
        if v[0] == "dead": return False
        if v[0] == "i":
            if val is not None: return v[1] == val
            return v[1] not in all_vals
        if v[0] == "not":
            if val is not None: return self.branch(st, v[1], 1 - val)
            left = {0, 1} - set(all_vals)
            if len(left) == 1: return self.branch(st, v[1], 1 - left.pop())
            return True
        if v[0] == "bin" and v[1] == "Eq" and v[3][0] == "i":
            truth = None
            if val is not None: truth = (val == 1)
            else:
                left = {0, 1} - set(all_vals)
                if len(left) == 1: truth = left.pop() == 1
            if truth is True: return self.branch(st, v[2], v[3][1])
            if truth is False: return self.branch(st, v[2], None, [v[3][1]])
            return True
        if v[0] == "phi":
            if all(x[0] == "i" for x in v[1]):
                if val is not None: return ("i", val) in v[1]
                return any(x[1] not in all_vals for x in v[1])
            return True
        if depth(v) > 14: return True
        dom = None
        if v[0] == "sym": dom = v[3]
        elif v[0] == "discr" and v[1][0] == "sym": dom = self.discr(v[1][3], None)
        if dom is not None and dom != U and not self.branch(st, dom, val, all_vals): return False
        key = v
        cur = st.facts.get(key)
        if val is not None:
            if cur:
                if cur[0] == "=" and cur[1] != val: return False
                if cur[0] == "!=" and val in cur[1]: return False
            st.facts[key] = ("=", val)
        else:
            if cur and cur[0] == "=": return cur[1] not in all_vals
            ex = frozenset(all_vals) | (cur[1] if cur else frozenset())
            st.facts[key] = ("!=", ex)
        return True

    def known(self, st, v):
        """constant int value of predicate v under the facts, or None"""
        if v[0] == "i": return v[1]
        if v[0] == "not":
            k = self.known(st, v[1])
            return None if k is None else 1 - k
        if v[0] == "bin" and v[1] == "Eq" and v[3][0] == "i":
            cur = st.facts.get(v[2])
            if cur:
                if cur[0] == "=": return int(cur[1] == v[3][1])
                if v[3][1] in cur[1]: return 0
            return None
        cur = st.facts.get(v)
        if cur and cur[0] == "=": return cur[1]
        return None

    # ======================================================================
    #  Writer stacks.  (closed tags, bottom last set, frames, partial tag)
    # ======================================================================
    NEW = ((), frozenset(["^"]), (), None)

    def gstk(self, st, w): return st.stk.get(w, self.NEW)

    @staticmethod
    def top_last(k): return k[2][-1][1] if k[2] else k[1]

    @staticmethod
    def set_last(k, last):
        if k[2]: return (k[0], k[1], k[2][:-1] + ((k[2][-1][0], last),), k[3])
        return (k[0], last, k[2], k[3])

    @staticmethod
    def chain(k):
        c = tuple(f[0] for f in k[2][-3:])
        if len(k[2]) < 3 and not (c and c[0] == "#doc"): c = (("^", len(k[0])),) + c
        return c

    def event(self, st, w, tag, attrs, kind, data, site):
        k = self.gstk(st, w)
        ev = (w, self.chain(k), self.top_last(k), tag, attrs, kind, data, site)
        self.emit_event(ev)

    def emit_event(self, ev):
        ch = ev[1]
        if (isinstance(ch[0], tuple) and ch[0][0] == "^") or "^" in ev[2]: self.cur.events.add(ev)
        else: self.cur.done.add(ev)

    def issue(self, kind, what, site):
        self.cur.issues.add((kind, what, site))

    def do_open(self, st, w, tag):
        k = self.gstk(st, w)
        st.stk[w] = (k[0], k[1], k[2] + ((tag, frozenset([None])),), None)

    def do_close(self, st, w, tag, site, ev=True):
        k = self.gstk(st, w)
        if ev and not (k[2] and k[2][-1][0] == "#doc"): self.event(st, w, tag, ("list", frozenset()), "close", None, site)
        if k[2]:
            t = k[2][-1][0]
            if t == "#doc": self.issue("close", "</%s> closes nothing in its document" % ts(tag), site); return
            if t != tag: self.issue("mismatch", "<%s> is closed by </%s>" % (ts(t), ts(tag)), site)
            k = (k[0], k[1], k[2][:-1], None)
            st.stk[w] = self.set_last(k, frozenset([tag]))
        else:
            st.stk[w] = (k[0] + (tag,), frozenset([tag]), (), None)

    def did_child(self, st, w, tag):
        st.stk[w] = self.set_last(self.gstk(st, w), frozenset([tag]))

    def apply_delta(self, st, w, d, site):
        k = self.gstk(st, w)
        for t in d[0]:
            st.stk[w] = k
            self.do_close(st, w, t, site, False)
            k = st.stk[w]
        if d[2] and d[2][0][0] == "#doc":
            if k[2] and not d[0]:
                if len(k[2]) == 1 and k[2][0][0] == "#doc" and None not in k[2][0][1]:
                    st.stk[w] = (k[0], k[1], d[2], d[3]); return
                self.issue("decl", "a new document starts before the previous one is complete", site)
                st.stk[w] = (k[0], k[1], d[2], d[3]); return
        last = d[1]
        if "^" in last: last = (last - {"^"}) | self.top_last(k)
        k = self.set_last(k, last)
        st.stk[w] = (k[0], k[1], k[2] + d[2], d[3])

    def lift_events(self, st, events):
        """events of a callee, relative to the stacks of `st` before the call"""
        for (w, ch, prev, tag, attrs, kind, data, site) in events:
            k = self.gstk(st, w)
            h = ch[0]
            if isinstance(h, tuple) and h[0] == "^":
                n = h[1]
                fr = k[2]; extra = max(0, n - len(fr)); fr = fr[:len(fr) - min(n, len(fr))]
                closed = len(k[0]) + extra
                if "^" in prev:
                    prev = (prev - {"^"}) | self.top_last(k)
                c = tuple(f[0] for f in fr) + ch[1:]
                c3 = c[-3:]
                if len(c) < 3 and not (c and c[0] == "#doc"): c3 = (("^", closed),) + c3
                ch = c3
            self.emit_event((w, ch, prev, tag, attrs, kind, data, site))

    # ======================================================================
    #  Raw text
    # ======================================================================
    def raw_alternatives(self, v, lim=48):
        """list of part lists (str | value)"""
        v = unsym(v)
        if v[0] == "s": return [[v[1]]]
        if v[0] == "phi":
            out = []
            for x in v[1]:
                out += self.raw_alternatives(x, lim)
                if len(out) > lim: return None
            return out
        if v[0] == "fmt":
            out = [[]]
            for p in v[1]:
                if isinstance(p, str): alts = [[p]]
                else:
                    pv = unsym(p[2])
                    if pv[0] in ("s", "fmt", "phi") and p[3] is None:
                        alts = self.raw_alternatives(pv, lim)
                        if alts is None: alts = [[p]]
                    else: alts = [[p]]
                out = [a + b for a in out for b in alts]
                if len(out) > lim: return None
            return out
        return [[v]]

    def raw_write(self, st, w, v, site):
        """Interpret text written straight to a writer; returns states"""
        alts = self.raw_alternatives(v)
        if alts is None:
            self.issue("limit", "too many alternatives in a raw write", site); return [st]
        res = []
        seen = {}
        for parts in alts:
            s2 = st.copy()
            self.lex(s2, w, parts, site)
            key = s2.stk.get(w)
            if key not in seen: seen[key] = s2; res.append(s2)
        return res

    def lex(self, st, w, parts, site):
        toks = []
        for p in parts:
            if isinstance(p, str): toks.extend(p)
            else: toks.append(p)
        i = 0; n = len(toks)
        def gather(stop):
            """collect tokens until a char in stop; returns (value, nexti)"""
            nonlocal i
            parts = []
            while i < n and not (isinstance(toks[i], str) and toks[i] in stop):
                parts.append(toks[i]); i += 1
            return mkval(parts)
        while i < n:
            k = self.gstk(st, w)
            if k[3] is None:
                if toks[i] == "<":
                    if i + 1 < n and toks[i+1] == "?":
                        while i < n and toks[i] != ">": i += 1
                        i += 1; self.do_decl(st, w, site); continue
                    if i + 1 < n and toks[i+1] == "!":
                        while i < n and toks[i] != ">": i += 1
                        i += 1; continue
                    if i + 1 < n and toks[i+1] == "/":
                        i += 2; t = gather(">"); i += 1
                        self.do_close(st, w, tagof(t), site); continue
                    i += 1; t = gather(" />\n\t")
                    st.stk[w] = (k[0], k[1], k[2], (tagof(t), ("list", frozenset())))
                else:
                    t = gather("<")
                    self.cur.raws.add((w, "text", t, self.chain(k), site))
            else:
                tag, attrs = k[3]
                if isinstance(toks[i], str) and toks[i] in " \n\t\r": i += 1; continue
                if toks[i] == ">":
                    i += 1
                    st.stk[w] = (k[0], k[1], k[2], None)
                    self.event(st, w, tag, attrs, "open", None, site); self.do_open(st, w, tag); continue
                if toks[i] == "/" and i + 1 < n and toks[i+1] == ">":
                    i += 2
                    st.stk[w] = (k[0], k[1], k[2], None)
                    self.event(st, w, tag, attrs, "empty", None, site); self.did_child(st, w, tag); continue
                if not isinstance(toks[i], str) and not (i + 1 < n and toks[i+1] == "="):
                    v = toks[i]; i += 1           # an opaque run of attributes
                    self.cur.raws.add((w, "attrs", v, self.chain(k) + (tag,), site))
                    attrs = U if attrs == U else list_add(attrs, "?", v if v[0] != "a" else v[2])
                    st.stk[w] = (k[0], k[1], k[2], (tag, attrs)); continue
                nm = gather("=")
                if i + 1 >= n or toks[i+1] not in ('"', "'"):
                    self.issue("limit", "attribute split over several writes", site); return
                q = toks[i+1]; i += 2
                val = gather(q)
                if i >= n: self.issue("limit", "attribute value split over several writes", site); return
                i += 1
                self.cur.raws.add((w, "attr", val, self.chain(k) + (tag,), site))
                if attrs != U: attrs = list_add(attrs, nm[1] if nm[0] == "s" else "?", val)
                st.stk[w] = (k[0], k[1], k[2], (tag, attrs))

    def do_decl(self, st, w, site):
        k = self.gstk(st, w)
        if k[2]:
            if not (len(k[2]) == 1 and k[2][0][0] == "#doc"):
                self.issue("decl", "a new document starts inside <%s>" % ts(k[2][-1][0]), site)
            elif None in k[2][0][1]:
                self.issue("decl", "a document without root element", site)
        st.stk[w] = (k[0], k[1], (("#doc", frozenset([None])),), None)

    def do_frag(self, st, w, frag, site):
        fr = self.frags[frag[1]]
        self.lift_events(st, [(w,) + e[1:] for e in fr["events"]])
        last = fr["last"]
        k = self.gstk(st, w)
        if "^" in last: last = (last - {"^"}) | self.top_last(k)
        st.stk[w] = self.set_last(k, last)

    def do_prim(self, st, kind, args, site, fn):
        w = self.wpath(args[0])
        if w is None:
            self.issue("limit", "unknown writer", site); w = (("?", fn.path),)
        def tag():
            return tagof(args[1])
        if kind == "decl":
            self.do_decl(st, w, site); return [st]
        if kind == "raw":
            v = args[1]; out = []
            for x in opts(v):
                s2 = st.copy()
                if x[0] == "frag": self.do_frag(s2, w, x, site); out.append(s2)
                else:
                    k = self.gstk(s2, w)
                    if x[0] not in ("s", "fmt"): self.cur.raws.add((w, "raw", x, self.chain(k), site)); out.append(s2)
                    else: out += self.raw_write(s2, w, x, site)
            return out
        if kind == "si" or kind == "richsi":
            L = ("list", frozenset())
            self.event(st, w, "si", L, "open", None, site)
            s2 = st; self.do_open(s2, w, "si")
            if kind == "si":
                self.event(s2, w, "t", ("list", frozenset([("xml:space", 0, 1, frozenset([("s", "preserve")]))])), "data", ("esc", "si", args[1]), site)
                self.did_child(s2, w, "t")
            else: self.cur.raws.add((w, "raw", args[1], self.chain(self.gstk(s2, w)), site))
            self.do_close(s2, w, "si", site)
            return [s2]
        attrs = ("list", frozenset())
        t = tag()
        if kind == "open" and len(args) > 2: attrs = as_list(args[2]) or U
        if kind == "empty" and len(args) > 2: attrs = as_list(args[2]) or U
        data = None
        if kind == "data":
            data = args[2]
            if len(args) > 3: attrs = as_list(args[3]) or U
        if kind == "close":
            self.do_close(st, w, t, site); return [st]
        k = self.gstk(st, w)
        if k[3] is not None: self.issue("partial", "<%s> is written inside the unfinished tag <%s" % (ts(t), ts(k[3][0])), site)
        if k[2] and k[2][-1][0] == "#doc" and k[2][-1][1] != frozenset([None]):
            self.issue("root", "<%s> follows the root element of its document" % ts(t), site)
        self.event(st, w, t, attrs, kind, data, site)
        if kind == "open": self.do_open(st, w, t)
        else: self.did_child(st, w, t)
        return [st]

    def wpath(self, v):
        v = unsym(v)
        if v[0] == "p": return v[1]
        if v[0] == "phi":
            ps = [self.wpath(x) for x in v[1]]
            if len(set(ps)) == 1: return ps[0]
        return None

def ts(t): return t if isinstance(t, str) else short(t)

def short(v, d=0):
    if isinstance(v, str): return v
    if v[0] == "s": return v[1]
    if v[0] == "i": return str(v[1])
    if v[0] == "p": return ".".join(x.rsplit(".", 1)[-1] if isinstance(x, str) else ("%s" % (x[-1] if x[0] != "L" else "local")) for x in v[1][1:]) or "arg"
    if v[0] == "phi": return "{%s}" % "|".join(sorted(short(x, d+1) for x in v[1])[:6])
    if v[0] == "v": return str(v[2])
    if v[0] in ("str", "a"): return "%s" % (short(v[1] if v[0] == "str" else v[2], d + 1))
    if v[0] == "fmt": return "".join(p if isinstance(p, str) else "{%s}" % short(p[2]) for p in v[1])
    return v[0]

def tagof(v):
    v = unsym(v)
    return v[1] if v[0] == "s" else v

def mkval(parts):
    out = []
    for p in parts:
        if isinstance(p, str) and out and isinstance(out[-1], str): out[-1] += p
        else: out.append(p)
    if not out: return ("s", "")
    if len(out) == 1:
        if isinstance(out[0], str): return ("s", out[0])
        if out[0][0] == "a" and out[0][3] is None and out[0][2][0] in ("phi",): return ("fmt", tuple(out))
        return ("fmt", tuple(out)) if out[0][0] == "a" else out[0]
    return ("fmt", tuple(p if isinstance(p, str) or p[0] == "a" else ("a", "?", p, None) for p in out))

def concat(a, b):
    pa = [a[1]] if a[0] == "s" else list(a[1]) if a[0] == "fmt" else [("a", "?", a, None)]
    pb = [b[1]] if b[0] == "s" else list(b[1]) if b[0] == "fmt" else [("a", "?", b, None)]
    r = mkval([p for p in pa + pb if p != ""])
    if r[0] == "fmt" and len(r[1]) > 30: return U
    return r
