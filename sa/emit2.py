"""Second half of the emission interpreter: calls, fixpoints, roots."""
import heapq, re, time
from emit import *
import emit
from mir import *

EMPTYL = ("list", frozenset())

class FnInfo:
    """liveness and block order of a function"""
    def __init__(self, f):
        n = len(f.blocks)
        use = [None] * n; dfn = [None] * n
        for b in range(n):
            u, d = set(), set()
            if not f.cleanup(b):
                def us(pl):
                    if pl[0] not in d: u.add(pl[0])
                    for e in pl[1:]:
                        if isinstance(e, list) and e[0] == "#" and e[1] not in d: u.add(e[1])
                def op(o):
                    if "p" in o: us(o["p"])
                for s in f.stmts(b):
                    if s[0] == "=":
                        rv = s[2]
                        for o in rv_operands(rv): op(o)
                        if rv[0] == "ref": us(rv[2])
                        elif rv[0] == "discr": us(rv[1])
                        if len(s[1]) == 1: d.add(s[1][0])
                        else: us(s[1])
                t = f.term(b)
                if t["k"] == "call":
                    for o in t["args"]: op(o)
                    if len(t["dest"]) == 1: d.add(t["dest"][0])
                    else: us(t["dest"])
                elif t["k"] == "switch": op(t["on"])
                elif t["k"] == "return": us([0])
            use[b] = u; dfn[b] = d
        live = [set() for _ in range(n)]
        changed = True
        while changed:
            changed = False
            for b in range(n - 1, -1, -1):
                if f.cleanup(b): continue
                o = set()
                for s in f.succ(b): o |= live[s]
                x = use[b] | (o - dfn[b])
                if x != live[b]: live[b] = x; changed = True
        self.live = live
        # reverse postorder
        seen = set(); post = []
        st = [(0, iter(f.succ(0)))]; seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen and not f.cleanup(s):
                    seen.add(s); st.append((s, iter(f.succ(s)))); break
            else:
                post.append(b); st.pop()
        self.rpo = {b: i for i, b in enumerate(reversed(post))}
        # switch-only helper: blocks in loops
        self.noreturn_ok = True

IDENT = re.compile(r"(::deref|::deref_mut|::clone|::as_str|::as_ref|::as_mut|::borrow|::borrow_mut|::to_owned|::as_slice|::as_mut_slice|::must_use|::fmt::format|::into_owned|::as_deref|::as_deref_mut|::copied|::cloned|::into_boxed_str|::into_string|::as_bytes|::to_vec|::into_boxed_slice|::by_ref|::unwrap_or_default|Box::<T>::new|Arc::<T>::new|Cow::<.*>::into_owned|::as_mut_str)$")
ITER = re.compile(r"(::into_iter|::iter|::iter_mut|::drain)$")
ITERSAME = re.compile(r"::(rev|skip|take|peekable|step_by|copied|cloned|filter|fuse|take_while|skip_while|inspect)$")
COLLS = ("BTreeMap", "HashMap", "btree_map", "hash_map")

class Emit(Interp):
    def __init__(self, prog, debug=False):
        super().__init__(prog, debug)
        self.frags = {}
        self.info = {}
        self.boundary = {}          # X functions: path -> 'balanced' | 'inline'
        self.X = set()
        self.fnstack = []
        self.all_done = set(); self.all_issues = set(); self.all_raws = set()
        self._disp = {}
        self.interp_cache = {}

    def fninfo(self, f):
        i = self.info.get(f.path)
        if i is None: i = self.info[f.path] = FnInfo(f)
        return i

    # ---- Display tables -----------------------------------------------------
    def display_tokens(self, adt):
        """{variant: token str or None} by evaluating the Display impl per variant"""
        if adt in self._disp: return self._disp[adt]
        self._disp[adt] = {}
        p = self.p.display_impl(adt)
        out = {}
        a = self.p.adts.get(adt)
        if p and a and a.get("kind", "enum") in ("enum", "Enum"):
            for v in a["variants"]:
                out[v["name"]] = self.eval_display(p, adt, v["name"])
        self._disp[adt] = out
        return out

    def eval_display(self, p, adt, variant):
        """text written by fmt() for one variant, or None"""
        f = self.p.fns[p]
        sv = (getattr(self, "curfn", None), getattr(self, "curmut", None))
        self.curfn = f; self.curmut = f.mutref_locals()
        st = State({1: ("v", adt, variant, ()), 2: ("p", (("A", p, 2),))}, {}, {})
        b = 0; n = 0; text = ""
        try:
            while n < 400:
                n += 1
                for s in f.stmts(b): self.stmt(st, s)
                t = f.term(b)
                if t["k"] == "return": return text
                if t["k"] in ("goto", "drop", "assert"): b = t["to"]
                elif t["k"] == "switch":
                    v = self.operand(st, t["on"])
                    if v[0] != "i": return None
                    for val, to in t["targets"]:
                        if int(val) == v[1]: b = to; break
                    else: b = t["else"]
                elif t["k"] == "call":
                    nm = t.get("res") or t.get("f") or ""
                    args = [self.operand(st, a) for a in t["args"]]
                    if nm.endswith("::write_fmt") or nm.endswith("::write_str") or nm.endswith("::pad"):
                        if args[1][0] != "s": return None
                        text += args[1][1]
                        self.assign(st, t["dest"], ("v", "std::result::Result", "Ok", (("0", ("tup", ())),)))
                    elif nm.endswith("as std::fmt::Display>::fmt") and args[0][0] == "s":
                        text += args[0][1]
                        self.assign(st, t["dest"], ("v", "std::result::Result", "Ok", (("0", ("tup", ())),)))
                    else:
                        cs = self.p.callees(t)
                        if cs and cs[0] not in self.emitters:
                            v = self.pure_local(st, cs[0], args, t, f, b)
                        else:
                            v, _ = self.model(st, t, args, f, b)
                        self.assign(st, t["dest"], v if v is not None else U)
                    b = t["to"]
                    if b < 0: return None
                else: return None
        finally:
            self.curfn, self.curmut = sv
        return None

    def to_text(self, ty, v):
        """value of to_string()"""
        v = unsym(v)
        if v[0] == "s": return v
        if v[0] == "i":
            if ty == "bool": return ("s", "true" if v[1] else "false")
            if ty == "char": return ("s", chr(v[1]))
            return ("s", str(v[1]))
        if v[0] == "phi": return phi([self.to_text(ty, x) for x in v[1]])
        if v[0] in ("fmt", "str", "esc", "disp"): return v
        if v[0] == "v" and v[1] in self.p.adts:
            d = self.display_tokens(v[1])
            if d.get(v[2]) is not None: return ("s", d[v[2]])
            return ("disp", v[1], ("v", v[1], v[2], ()))
        t = strip_refs(ty)
        if t in self.p.adts: return ("disp", t, v)
        if t in ("std::string::String", "str", "char") or t.startswith("std::borrow::Cow"): return v
        return ("str", v, t)

    # ---- function references -------------------------------------------------
    def interpretable(self, path):
        """non-emitting local functions that are worth interpreting"""
        r = self.interp_cache.get(path)
        if r is None:
            f = self.p.fns[path]
            n = len(f.reachable())
            ret = f.ty(0)
            mutargs = any(f.ty(i).startswith("&mut ") for i in range(1, f.nargs + 1))
            if n > (400 if 'Vec<(&' in ret or ret.endswith('String') or 'str' in ret else 90): r = False
            elif mutargs:
                r = any("Vec<(&" in f.ty(i) or "std::string::String" == strip_refs(f.ty(i)) for i in range(1, f.nargs + 1) if f.ty(i).startswith("&mut "))
            else: r = ret != "()" and not ret.startswith("f64")
            self.interp_cache[path] = r
        return r

    # ======================================================================
    #  external functions
    # ======================================================================
    def model(self, st, t, args, f, b):
        n = t.get("res") or t.get("f") or "?"
        nf = t.get("f") or n
        targs = t.get("targs") or []
        base = n.rsplit("::", 1)[-1]
        def A(i): return args[i] if i < len(args) else U
        def D(i):
            v = A(i)
            return self.lookup(st, v[1]) if v[0] == "p" else v
        if nf == "std::string::ToString::to_string" or n.endswith("ToString>::to_string"):
            return self.to_text(targs[0] if targs else "?", D(0)), None
        if "fmt::rt::Argument" in n:
            if base.startswith("new_"):
                v = D(0)
                if base == "new_display": v = self.to_text(targs[0] if targs else "?", v)
                elif base == "new_debug": v = ("x", "debug", (v,)) if depth(v) < 6 else U
                else: v = ("str", v, base)
                return ("arg", targs[0] if targs else "?", v, base), None
            return U, None
        if n.endswith("fmt::Arguments::<'a>::new") or n.endswith("Arguments::<'_>::new"):
            tm = unsym(D(0)); ar = D(1)
            if tm[0] == "bytes":
                parts = []
                tpl = decode_template(tm[1])
                elems = ar[1] if ar[0] == "arr" else None
                for p in tpl:
                    if isinstance(p, str): parts.append(p)
                    else:
                        a = elems[p[1]] if elems and p[1] < len(elems) else None
                        spec = tuple(sorted(p[2].items())) or None
                        if a is None or a[0] != "arg": parts.append(("a", "?", U, spec))
                        elif a[2][0] == "s" and spec is None: parts.append(a[2][1])
                        elif a[2][0] == "fmt" and spec is None: parts.extend(a[2][1])
                        else: parts.append(("a", a[1], a[2], spec if a[3] == "new_display" else (spec or ("k",)) ))
                return mkval(parts), None
            return U, None
        if n.endswith("Arguments::<'a>::from_str") or n.endswith("Arguments::<'a>::new_const") or n.endswith("::from_str_nonconst"):
            return D(0), None
        if base == "new_uninit": return ("p", (("B", f.path, b),)), None
        if base == "box_assume_init_into_vec_unsafe":
            v = D(0)
            if v[0] == "arr":
                if not v[1]: return EMPTYL, None
                if all(e[0] == "tup" and len(e[1]) == 2 and opts(e[1][0])[0][0] == "s" for e in v[1]): return as_list(v), None
                return ("vec", phi(v[1])), None
            return U, None
        if re.search(r"Vec::<T>::(new|with_capacity)$", n): return EMPTYL, None
        if n == "std::string::String::new" or n.endswith("String::with_capacity"): return ("s", ""), None
        if re.search(r"Default>::default$", n) and targs == [] and "String" in n: return ("s", ""), None
        if n.endswith("::into_iter") or ITER.search(n):
            v = D(0)
            if v[0] == "iter": return v, None
            if v[0] in ("x",) and v[1] == "range": return ("iter", U), None
            e = self.proj(v, "elem")
            full = n + " ".join(targs)
            if any(c in full for c in COLLS) and v[0] == "p":
                e = ("tup", (("p", v[1] + ("key",)), ("p", v[1] + ("elem",))))
            if "ops::Range" in full: e = U
            if v[0] == "arr" and 0 < len(v[1]) <= 12: return ("iter", e, v[1], 0), None
            return ("iter", e), None
        if base in ("keys", "into_keys"):
            v = D(0); return ("iter", ("p", v[1] + ("key",)) if v[0] == "p" else U), None
        if base in ("values", "values_mut", "into_values"):
            v = D(0); return ("iter", ("p", v[1] + ("elem",)) if v[0] == "p" else U), None
        if base == "enumerate":
            v = D(0)
            if len(v) == 4 and v[0] == "iter": return ("iter", ("tup", (U, v[1])), tuple(("tup", (("i", i), x)) for i, x in enumerate(v[2])), v[3]), None
            return ("iter", ("tup", (U, v[1] if v[0] == "iter" else U))), None
        if base == "zip" and nf.startswith("std::iter"):
            v = D(0); w = D(1)
            w1 = w[1] if w[0] == "iter" else self.proj(w, "elem")
            return ("iter", ("tup", (v[1] if v[0] == "iter" else U, w1))), None
        if base in ("chars", "lines", "split", "bytes", "char_indices", "split_whitespace", "windows", "chunks", "map", "filter_map", "flat_map", "chain", "rsplit", "matches") and nf.startswith(("core::", "std::")) and "Option" not in nf and "Result" not in nf:
            return ("iter", U), None
        if ITERSAME.search(n) and nf.startswith("std::iter"):
            v = D(0); return (v if v[0] == "iter" else ("iter", U)), None
        if base == "next" and ("Iterator" in n):
            v = D(0)
            if len(v) == 4 and v[0] == "iter" and A(0)[0] == "p":
                # a list of known elements is walked element by element
                e = v[2][v[3]] if v[3] < len(v[2]) else None
                self.write_path(st, A(0)[1], ("iter", v[1], v[2], v[3] + 1) if e is not None else U)
                if e is None: return ("v", "std::option::Option", "None", ()), None
                self.rebind(st, e)
                return ("v", "std::option::Option", "Some", (("0", e),)), None
            e = v[1] if v[0] == "iter" else U
            self.rebind(st, e)
            return ("next", e), None
        if base == "collect":
            v = D(0); return (("vec", v[1]) if v[0] == "iter" else U), None
        if base == "push" and "Vec" in n and args:
            self.vec_update(st, A(0), lambda l: self.vpush(l, A(1))); return ("tup", ()), None
        if base in ("append", "extend", "extend_from_slice") and args:
            x = A(1); x = self.lookup(st, x[1]) if x[0] == "p" else x
            def cat(l):
                y = as_list(x)
                if x[0] == "iter": return U if l != EMPTYL else ("vec", x[1])
                if l[0] == "list" and y is not None and "?" not in [q[0] for q in y[1]]: return list_cat(l, y)
                if l == EMPTYL and x[0] in ("vec", "p", "phi"): return x
                return U
            self.vec_update(st, A(0), cat)
            if base == "append" and A(1)[0] == "p": self.write_path(st, A(1)[1], EMPTYL)
            return ("tup", ()), None
        if base == "insert" and "Vec" in n:
            self.vec_update(st, A(0), lambda l: self.vpush(l, A(2))); return ("tup", ()), None
        if base in ("push_str", "push", "add_assign", "write_str") and ("String" in n) and args:
            v = A(0)
            if v[0] == "p":
                cur = self.lookup(st, v[1]); x = D(1)
                if x[0] == "i": x = ("s", chr(x[1]))
                self.write_path(st, v[1], concat(cur, x) if cur != U else U)
            return ("tup", ()), None
        if base == "add" and "String" in n: return concat(D(0), D(1)), None
        if base == "clear" and args and A(0)[0] == "p":
            self.write_path(st, A(0)[1], EMPTYL if "Vec" in n else ("s", "") if "String" in n else U); return ("tup", ()), None
        if base in ("take", "replace") and n.startswith("std::mem::"):
            v = A(0)
            if v[0] == "p":
                cur = self.lookup(st, v[1]); self.write_path(st, v[1], U if base == "take" else A(1))
                return (cur if cur[0] != "p" else U), None
            return U, None
        if n == "std::mem::swap":
            a, c = A(0), A(1)
            if a[0] == "p" and c[0] == "p":
                va, vc = self.lookup(st, a[1]), self.lookup(st, c[1])
                if va[0] == "p": va = U
                if vc[0] == "p": vc = U
                self.write_path(st, a[1], vc); self.write_path(st, c[1], va)
            return ("tup", ()), None
        if base == "clone_from" and A(0)[0] == "p":
            v = D(1); self.write_path(st, A(0)[1], v if v[0] != "p" else U); return ("tup", ()), None
        if base == "eq" and "PartialEq" in n: return self.norm_eq(D(0), D(1)), None
        if base == "ne" and "PartialEq" in nf:
            v = self.norm_eq(D(0), D(1))
            if v[0] == "i": return ("i", 1 - v[1]), None
            return (("not", v) if v != U else U), None
        if base == "is_empty":
            v = unsym(D(0))
            if v[0] == "s": return ("i", int(v[1] == "")), None
            if v[0] == "fmt" and any(isinstance(p, str) and p for p in v[1]): return ("i", 0), None
            if v[0] == "list":
                if any(q[1] > 0 for q in v[1]): return ("i", 0), None
                if not v[1]: return ("i", 1), None
            if v[0] == "arr": return ("i", int(not v[1])), None
            if v[0] == "phi":
                r = [self.emptyness(x) for x in v[1]]
                if None not in r: return phi([("i", x) for x in r]), None
            if v == U or depth(v) > 8: return U, None
            return ("x", "is_empty", (v,)), None
        if base == "len":
            v = unsym(D(0))
            if v[0] == "arr": return ("i", len(v[1])), None
            if v[0] == "s": return ("i", len(v[1].encode())), None
            if v == U or depth(v) > 8: return U, None
            return ("x", "len", (v,)), None
        if base in ("is_some", "is_ok"):
            k = ("i", 1) if base == "is_some" else ("i", 0)
            d = self.discr(D(0), None)
            return (("i", int(d == k)) if d[0] == "i" else ("bin", "Eq", d, k) if d != U else U), None
        if base in ("is_none", "is_err"):
            k = ("i", 0) if base == "is_none" else ("i", 1)
            d = self.discr(D(0), None)
            return (("i", int(d == k)) if d[0] == "i" else ("bin", "Eq", d, k) if d != U else U), None
        if base in ("unwrap", "expect", "unwrap_unchecked") and ("Option" in n or "Result" in n):
            v = D(0); own = "std::option::Option::Some" if "Option" in n else "std::result::Result::Ok"
            w = self.proj(v, ("as", own.rsplit("::", 1)[-1]))
            return self.proj(w, own + ".0"), None
        if base == "unwrap_or" and ("Option" in n or "Result" in n):
            v = D(0); own = "std::option::Option::Some" if "Option" in n else "std::result::Result::Ok"
            return phi([self.proj(v, own + ".0") if v[0] in ("p",) else U, D(1)]), None
        if base == "branch" and "Try" in n:
            v = unsym(D(0))
            if v[0] == "v":
                if v[2] in ("Some", "Ok"): return ("v", "std::ops::ControlFlow", "Continue", v[3]), None
                return ("v", "std::ops::ControlFlow", "Break", (("0", v),)), None
            return U, None
        if base == "from_residual":
            if "result::Result" in n: return ("v", "std::result::Result", "Err", (("0", U),)), None
            return ("v", "std::option::Option", "None", ()), None
        if base in ("into", "from", "try_into", "parse") and base in ("into", "from"):
            v = D(0)
            return v, None
        if base == "as_str" and n.endswith("Arguments::<'a>::as_str"): return U, None
        if IDENT.search(n):
            v = A(0)
            if base in ("deref_mut", "as_mut", "borrow_mut", "as_mut_slice", "by_ref", "as_deref_mut"): return v, None
            v = D(0)
            return v, None
        if base in ("get", "index", "first", "last", "get_mut", "index_mut", "get_or_insert", "entry") and args:
            v = D(0)
            if v[0] == "p":
                e = ("p", v[1] + ("elem",)) if not ("ops::Range" in " ".join(targs)) else U
                self.rebind(st, e)
            elif v[0] in ("vec", "arr"): e = self.proj(v, "elem")
            else: e = U
            if base in ("index", "index_mut"): return e, None
            return ("next", e), None
        if base == "new" and ("RangeInclusive" in n): return ("x", "range", ()), None
        if n.startswith("std::io::Cursor") and base == "new": return ("x", "cursor", ()), None
        if base in ("lock", "read", "write") and "sync" in n:
            v = A(0); return (("v", "std::result::Result", "Ok", (("0", v),)) if v[0] == "p" else U), None
        # default: pure if nothing is borrowed mutably
        self.unknown_ext[n] += 1
        pure = True
        for i, o in enumerate(t["args"]):
            ty = self.optype(o, f)
            if ty.startswith("&mut"):
                pure = False
                v = args[i]
                if v[0] == "p": self.write_path(st, v[1], U)
        if pure and all(depth(a) < 7 for a in args) and U not in args:
            return ("x", n, tuple(args)), None
        return U, None

    def emptyness(self, v):
        if v[0] == "s": return int(v[1] == "")
        if v[0] == "fmt" and any(isinstance(p, str) and p for p in v[1]): return 0
        return None

    def optype(self, o, f):
        if "p" in o and len(o["p"]) == 1: return f.ty(o["p"][0])
        return o.get("ty", "") if "c" in o else ""

    def rebind(self, st, e):
        """the loop variable e stands for another element from now on"""
        if e[0] == "tup":
            for x in e[1]: self.rebind(st, x)
            return
        if e[0] != "p": return
        path = e[1]; n = len(path)
        # documents of writers below the element must be complete
        for w in [w for w in st.stk if w[:n] == path]:
            self.check_complete(st, w, self.curfn.path)
            del st.stk[w]
        def hitp(q): return q[:n] == path
        def hit(v): return any(hitp(q) for q in paths_in(v))
        for q in [q for q in st.store if hitp(q)]: del st.store[q]
        for k in [k for k in st.facts if hit(k)]: del st.facts[k]
        for l, v in list(st.env.items()):
            if v[0] not in ("s", "i", "u", "f") and hit(v) and v[0] not in ("iter",):
                st.env[l] = scrub(v, hit)
        for q, v in list(st.store.items()):
            if v[0] not in ("s", "i", "u", "f", "iter") and hit(v): st.store[q] = scrub(v, hit)

    def check_complete(self, st, w, site):
        k = st.stk.get(w)
        if k is None: return
        if k[3] is not None: self.issue("partial", "tag <%s is not finished" % ts(k[3][0]), (site, 0))
        if k[0]: self.issue("close", "</%s> closes nothing" % ts(k[0][0]), (site, 0)); return
        fr = k[2]
        if fr and fr[0][0] == "#doc":
            if len(fr) > 1: self.issue("open", "<%s> is never closed" % ts(fr[-1][0]), (site, 0))
            elif None in fr[0][1]: self.issue("noroot", "a document without root element", (site, 0))
        elif fr: self.issue("open", "<%s> is never closed" % ts(fr[-1][0]), (site, 0))

    def vec_update(self, st, v, fn):
        if v[0] == "p":
            cur = self.lookup(st, v[1])
            if cur[0] == "p": cur = U
            r = fn(cur)
            self.write_path(st, v[1], r)

    def vpush(self, l, x):
        x = unsym(x)
        if x[0] == "tup" and len(x[1]) == 2 and l[0] == "list":
            nm = opts(x[1][0])
            if all(y[0] == "s" for y in nm):
                return functools.reduce(join_list, [list_add(l, y[1], x[1][1]) for y in nm])
        if l == EMPTYL: return ("vec", x)
        if l[0] == "vec": return ("vec", phi([l[1], x]))
        if l[0] == "list": return list_add(l, "?", x)
        return U

    # ======================================================================
    #  interpretation of one function
    # ======================================================================
    def relevant(self, st, path, args):
        rd, wr = self.tf[path]
        fields = rd | wr
        roots = set()
        for a in args:
            for q in paths_in(a): roots.add(q[0])
        def rel(q):
            if q[0][0] in ("L", "B"): return q[0] in roots
            for e in q:
                if isinstance(e, str) and e in fields: return True
            return False
        def relv(v):
            ps = paths_in(v)
            if any(rel(q) for q in ps): return True
            if ps: return False
            return bool(syms_in(v)) and any(v in a_set for a_set in ())
        argsyms = set()
        for a in args: argsyms |= syms_in(a)
        facts = {}
        for k, c in st.facts.items():
            if relv(k) or (argsyms and syms_in(k) & argsyms): facts[k] = c
            elif any(self.tf[c2][0] & fields for c2 in calls_in(k)): facts[k] = c
        store = {q: v for q, v in st.store.items() if rel(q)}
        # paths reachable through stored values
        return facts, store

    def summarize(self, path, args, facts, store):
        key = (path, args, frozenset(facts.items()), frozenset(store.items()))
        s = self.memo.get(key)
        if s is not None: return s
        if path in self.fnstack:
            s = Summary(); s.done = set(); s.raws = set()
            s.exits = [({}, U, None, None)]
            self.recursive = True
            return s
        if len(self.fnstack) > 60: raise RuntimeError("too deep: %s" % self.fnstack[-5:])
        s = self.run(path, args, facts, store)
        self.memo[key] = s
        self.stats["summaries"] += 1
        self.allsum.append(s)
        return s

    allsum = []

    def run(self, path, args, facts, store):
        f = self.p.fns[path]
        sv = (getattr(self, "curfn", None), getattr(self, "curmut", None), getattr(self, "cur", None))
        self.curfn = f; self.curmut = f.mutref_locals()
        self.fnstack.append(path)
        cur = Summary(); cur.done = set(); cur.raws = set(); self.cur = cur
        info = self.fninfo(f)
        st = State({}, dict(store), dict(facts))
        for i in range(1, f.nargs + 1):
            v = args[i - 1] if i - 1 < len(args) else U
            if i in self.curmut: st.store[self.lpath(i)] = v
            else: st.env[i] = v
        states = {}      # (b, key) -> State
        visits = collections.Counter()
        work = []; queued = set()
        exits = {}
        keyid = {}
        def arrive(b, s):
            key = self.skey(s)
            live = info.live[b]
            s.env = {l: v for l, v in s.env.items() if l in live}
            # symbols of this block get new values
            for k in [k for k in s.facts if any(x[0] == path and x[1][0] == b for x in syms_in(k))]: del s.facts[k]
            for l, v in s.env.items():
                if any(x[0] == path and x[1][0] == b for x in syms_in(v)): s.env[l] = desym(v, path, b)
            for q, v in s.store.items():
                if any(x[0] == path and x[1][0] == b for x in syms_in(v)): s.store[q] = desym(v, path, b)
            old = states.get((b, key))
            if old is None:
                states[(b, key)] = s; ch = True
            else:
                visits[(b, key)] += 1
                ch = self.merge(old, s, f, b, visits[(b, key)])
            if ch and (b, key) not in queued:
                queued.add((b, key))
                kid = keyid.setdefault(key, len(keyid))
                heapq.heappush(work, (info.rpo.get(b, 10**6), kid, b, key))
            if len(keyid) > 240:
                for kk in list(keyid)[:12]: print(kk)
                raise RuntimeError("too many stacks in " + path)
        arrive(0, st)
        steps = 0
        while work:
            _, _, b, key = heapq.heappop(work); queued.discard((b, key))
            steps += 1
            if steps > 60000: raise RuntimeError("no fixpoint in " + path)
            s = states[(b, key)].copy()
            for x in f.stmts(b): self.stmt(s, x)
            t = f.term(b); k = t["k"]
            if k in ("goto", "drop"): arrive(t["to"], s)
            elif k == "assert":
                arrive(t["to"], s)
            elif k == "switch":
                v = self.operand(s, t["on"])
                vals = [int(x) for x, _ in t["targets"]]
                for val, to in t["targets"]:
                    s2 = s.copy()
                    if self.branch(s2, v, int(val)) and not self.unreach(f, to): arrive(to, s2)
                if not self.unreach(f, t["else"]):
                    s2 = s.copy()
                    isbool = t.get("ty") == "bool" or vals == [0] and False
                    if self.branch(s2, v, None, vals): arrive(t["else"], s2)
            elif k == "call":
                for s2 in self.call(s, t, f, b):
                    if t["to"] >= 0: arrive(t["to"], s2)
            elif k == "return":
                rv = self.load(s, [0])
                if rv[0] == "v" and rv[2] == "Err": s.stk = {}     # the save is abandoned
                for w in [w for w in s.stk if w[0][:2] == ("L", path)]:
                    self.check_complete(s, w, path)
                    del s.stk[w]
                xk = self.skey(s)
                if xk in exits: exits[xk] = self.join_exit(exits[xk], s, rv, f)
                else: exits[xk] = (s, rv)
        # own locals vanish
        own = ("L", path)
        out = []
        for s, rv in exits.values():
            def mine(q): return q[0][0] in ("L",) and q[0][1] == path
            def hit(v): return any(mine(q) for q in paths_in(v))
            if hit(rv): rv = scrub(rv, hit)
            if any(x[0] == path for x in syms_in(rv)): rv = self.desym_all(rv, path)
            fx = {k: c for k, c in s.facts.items() if not hit(k) and not any(x[0] == path for x in syms_in(k))}
            sx = {}
            for q, v in s.store.items():
                if mine(q): continue
                if hit(v): v = scrub(v, hit)
                if any(x[0] == path for x in syms_in(v)): v = self.desym_all(v, path)
                sx[q] = v
            out.append((s.stk, rv, fx, sx))
        cur.exits = out
        self.fnstack.pop()
        self.curfn, self.curmut, self.cur = sv
        return cur

    def desym_all(self, v, path):
        if isinstance(v, frozenset): return frozenset(self.desym_all(x, path) for x in v)
        if not isinstance(v, tuple): return v
        if len(v) == 4 and v[0] == "sym" and v[1] == path: return self.desym_all(v[3], path)
        if v and v[0] == "phi": return phi([self.desym_all(x, path) for x in v[1]])
        return tuple(self.desym_all(x, path) if isinstance(x, (tuple, frozenset)) else x for x in v)

    def unreach(self, f, b):
        return f.term(b)["k"] == "unreachable"

    def skey(self, s):
        it = tuple(sorted((("#it", q, v[3]) for m in (s.env, s.store) for q, v in m.items() if v[0] == "iter" and len(v) == 4), key=repr))
        return tuple(sorted(((w, k[0], tuple(x[0] for x in k[2]), k[3][0] if k[3] else None) for w, k in s.stk.items()), key=repr)) + it

    def merge_stk(self, a, b):
        out = {}; ch = False
        for w, k in a.items():
            o = b[w]
            if k == o: out[w] = k; continue
            bot = k[1] | o[1]
            fr = tuple((x[0], x[1] | y[1]) for x, y in zip(k[2], o[2]))
            pt = k[3]
            if pt and o[3] and pt != o[3]:
                pt = (pt[0], join_list(pt[1], o[3][1]) if pt[1] != U and o[3][1] != U else U)
            n = (k[0], bot, fr, pt)
            if n != k: ch = True
            out[w] = n
        return out, ch

    def join_val(self, a, b, f, blk, l, n):
        if a == b: return a
        if a[0] == "sym" and a[1] == f.path and a[2] == (blk, l):
            p = phi([a[3], unsym(b)])
            if p == a[3]: return a
            if n > 8 and p[0] == "phi" and len(p[1]) > 6: p = U
            return ("sym", f.path, (blk, l), p)
        x, y = unsym(a), unsym(b)
        p = phi([x, y])
        ty = f.ty(l) if isinstance(l, int) else ""
        if p == U and ty != "bool": return U
        allc = all(const(z) and z[0] != "s" or z[0] == "v" for z in (opts(x) + opts(y)))
        if ty == "bool" or allc:
            if n > 8 and p[0] == "phi" and len(p[1]) > 6: p = U
            return ("sym", f.path, (blk, l), p)
        if n > 12 and p[0] == "phi": return U
        return p

    def merge(self, old, new, f, b, n):
        ch = False
        env = old.env
        for l in list(env):
            v = new.env.get(l, U)
            o = env[l]
            if o == v: continue
            j = self.join_val(o, v, f, b, l, n)
            if j != o: env[l] = j; ch = True
        for q in list(old.store):
            v = new.store.get(q)
            if v is None: del old.store[q]; ch = True; continue
            o = old.store[q]
            if o == v: continue
            if q[0][0] == "L" and len(q) == 1 and q[0][1] == f.path: j = self.join_val(o, v, f, b, q[0][2], n)
            else:
                j = phi([unsym(o), unsym(v)])
                if n > 12 and j[0] == "phi": j = U
            if j != o: old.store[q] = j; ch = True
        for k in list(old.facts):
            c = new.facts.get(k)
            o = old.facts[k]
            if c == o: continue
            r = None
            if c is not None and o[0] == "!=" and c[0] == "!=": r = ("!=", o[1] & c[1]) if o[1] & c[1] else None
            elif c is not None and o[0] == "!=" and c[0] == "=" and c[1] not in o[1]: r = o
            elif c is not None and o[0] == "=" and c[0] == "!=" and o[1] not in c[1]: r = c
            if r != o:
                ch = True
                if r is None: del old.facts[k]
                else: old.facts[k] = r
        stk, c2 = self.merge_stk(old.stk, new.stk)
        if c2: old.stk = stk; ch = True
        return ch

    def join_exit(self, old, s, rv, f):
        o, orv = old
        self.merge(o, s, f, -1, 1)
        return (o, phi([unsym(orv), unsym(rv)]) if orv != rv else rv)

    # ======================================================================
    #  calls
    # ======================================================================
    def call(self, st, t, f, b):
        args = [self.operand(st, a) for a in t["args"]]
        site = (f.path, f.blocks[b][3])
        dest = t["dest"]
        n = t.get("res") or t.get("f") or "?"
        if self.is_raw_sink(t):
            w = self.wpath(args[0])
            if w is None: self.issue("limit", "unknown writer", site); w = (("?", f.path),)
            v = args[1]
            if v[0] == "bytes":
                try: v = ("s", bytes.fromhex(v[1]).decode())
                except ValueError: v = U
            out = self.raw_write(st, w, v, site)
            for s in out: self.assign(s, dest, U)
            return out
        cs = self.p.callees(t)
        if cs:
            c = cs[0]
            kind = self.prim(c) if len(cs) == 1 else None
            if kind:
                out = self.do_prim(st, kind, args, site, f)
                for s in out: self.assign(s, dest, ("tup", ()))
                return out
            if c.startswith("xmlwriter::escape_"):
                v = args[0]; v = self.lookup(st, v[1]) if v[0] == "p" else v
                self.assign(st, dest, ("esc", c[len("xmlwriter::"):], v) if depth(v) < 10 else ("esc", c[len("xmlwriter::"):], U)); return [st]
            if c in ("xmlwriter::cursor_to_string", "xmlwriter::cursor_to_str"):
                return self.make_frag(st, args, dest, f, site)
            if c == "xmlwriter::reset":
                self.assign(st, dest, ("tup", ())); return [st]
            if len(cs) == 1 and c.endswith(" as std::cmp::PartialEq>::eq"):
                v = [self.lookup(st, a[1]) if a[0] == "p" else a for a in args]
                self.assign(st, dest, self.norm_eq(*v)); return [st]
            if any(x in self.emitters for x in cs):
                if all(x not in self.emitters or (x in self.X and self.boundary.get(x) == "balanced") for x in cs):
                    self.opaque(st, cs, args, t, f, b); return [st]
                out = []
                for x in cs:
                    s2 = st if len(cs) == 1 else st.copy()
                    if x in self.emitters: out += self.apply(s2, x, args, dest, site)
                    else:
                        v = self.pure_local(s2, x, args, t, f, b); self.assign(s2, dest, v); out.append(s2)
                return out
            if len(cs) == 1:
                v = self.pure_local(st, c, args, t, f, b)
                self.assign(st, dest, v); return [st]
            self.opaque(st, cs, args, t, f, b); return [st]
        # external; emitting closures passed to it run any number of times
        clos = [a for a in args if a[0] == "v" and a[1] == "{closure}" and a[2] in self.emitters]
        clos += [("v", "{closure}", c, ()) for a in args if a[0] == "zst" for c in self.zst_closures(a[1], f) if c in self.emitters]
        clos = [c for c in clos if not (c[2] in self.X and self.boundary.get(c[2]) == "balanced")]
        if clos:
            states = [st]
            for c in clos:
                elem = U
                known = None
                for a in args:
                    if a[0] == "iter":
                        elem = a[1]
                        if len(a) == 4 and (t.get("res") or t.get("f") or "").endswith("::for_each"): known = a[2][a[3]:]
                for e in known or ():
                    nxt = []
                    for s in states:
                        g = self.p.fns[c[2]]
                        self.rebind(s, e)
                        nxt += self.apply(s, c[2], [c, e] + [U] * (g.nargs - 2), None, site)
                    states = nxt
                for _ in range(0 if known is not None else 2):
                    nxt = []
                    for s in states:
                        nxt.append(s.copy())
                        g = self.p.fns[c[2]]
                        s2 = s.copy()
                        if elem != U: self.rebind(s2, elem)
                        a2 = [c] + [elem] * (g.nargs - 1)
                        if g.nargs == 3: a2 = [c, U, elem]
                        nxt += self.apply(s2, c[2], a2, None, site)
                    seen = {}
                    for s in nxt:
                        k = self.skey(s)
                        if k in seen: self.merge(seen[k], s, f, b, 1)
                        else: seen[k] = s
                    states = list(seen.values())
            for s in states: self.assign(s, dest, U)
            return states
        v, _ = self.model(st, t, args, f, b)
        if v is None: v = U
        if v == U and len(dest) == 1 and f.ty(dest[0]) == "bool": v = self.fresh(st, f, b, dest[0])
        self.assign(st, dest, v)
        return [st]

    def zst_closures(self, ty, f):
        m = re.search(r"\{closure@([^:]+):(\d+):(\d+)", ty)
        out = []
        if m:
            for c in self.p.closures_of(f.path):
                g = self.p.fns[c]
                if g.line == int(m.group(2)): out.append(c)
        return out

    def fresh(self, st, f, b, l):
        key = (f.path, (b, ("r", l)))
        for k in [k for k in st.facts if key in syms_in(k)]: del st.facts[k]
        for x, v in st.env.items():
            if key in syms_in(v): st.env[x] = U
        return ("sym", f.path, (b, ("r", l)), U)

    def make_frag(self, st, args, dest, f, site):
        w = self.wpath(args[0])
        if w is None: self.assign(st, dest, U); return [st]
        k = st.stk.get(w, self.NEW)
        if k[0] or k[2] or k[3]:
            self.issue("fragment", "a fragment is used while %s" % ("<%s> is open" % ts(k[2][-1][0]) if k[2] else "it is unbalanced"), site)
        fid = (f.path, w, self.fragkey())
        evs = {e for e in self.cur.events if e[0] == w}
        fr = self.frags.setdefault(fid, {"events": set(), "last": frozenset()})
        fr["events"] |= evs; fr["last"] = fr["last"] | k[1]
        self.assign(st, dest, ("frag", fid))
        return [st]

    def fragkey(self): return 0

    def opaque(self, st, cs, args, t, f, b):
        wr = set()
        for c in cs: wr |= self.tf[c][1]
        self.kill_fields(st, wr)
        self.kill_mutargs(st, args, t, f)
        v = U
        if len(t["dest"]) == 1 and f.ty(t["dest"][0]) == "bool": v = self.fresh(st, f, b, t["dest"][0])
        self.assign(st, t["dest"], v)

    def kill_mutargs(self, st, args, t, f):
        for o, v in zip(t["args"], args):
            if self.optype(o, f).startswith("&mut") and v[0] == "p" and v[1][0][0] == "L":
                self.write_path(st, v[1], U)

    def pure_local(self, st, c, args, t, f, b):
        """value of a call of a function that writes no XML"""
        g = self.p.fns[c]
        wr = self.tf[c][1]
        if self.interpretable(c) and len(self.fnstack) < 14 and c not in self.fnstack:
            facts, store = self.relevant(st, c, args)
            s = self.summarize(c, tuple(args), facts, store)
            ex = s.exits
            if len(ex) == 1 and ex[0][2] is not None:
                stk, rv, fx, sx = ex[0]
                if wr:
                    self.kill_fields(st, wr)
                    self.merge_back(st, facts, store, fx, sx)
                elif any(self.optype(o, f).startswith("&mut") for o in t["args"]):
                    self.merge_back(st, facts, store, fx, sx)
                bad = rv == U or any(x[0] == c for x in syms_in(rv))
                isb = g.ty(0) == "bool"
                if not bad and not (isb and rv[0] == "phi"): return rv
                if not wr and all(depth(a) < 7 for a in args) and U not in args:
                    v = ("call", c, tuple(args))
                    if not isb and rv != U: return ("sym", "call", (c, v), rv)
                    return v
                if isb: return self.fresh(st, f, b, t["dest"][0] if t else 0)
                return rv
        self.kill_fields(st, wr)
        if t: self.kill_mutargs(st, args, t, f)
        if not any(g.ty(i).startswith("&mut") for i in range(1, g.nargs + 1)) and all(depth(a) < 7 for a in args) and U not in args:
            return ("call", c, tuple(args))
        if g.ty(0) == "bool" and t: return self.fresh(st, f, b, t["dest"][0])
        return U

    def merge_back(self, st, facts, store, fx, sx):
        for k in facts:
            if k in st.facts and k not in fx: del st.facts[k]
        st.facts.update(fx)
        for q in store:
            if q not in sx and q in st.store: del st.store[q]
        st.store.update(sx)

    def apply(self, st, c, args, dest, site):
        facts, store = self.relevant(st, c, args)
        s = self.summarize(c, tuple(args), facts, store)
        self.lift_events(st, s.events)
        wr = self.tf[c][1]
        out = []
        for stk, rv, fx, sx in s.exits:
            s2 = st.copy() if len(s.exits) > 1 else st
            if fx is None:           # recursion
                self.kill_fields(s2, wr)
                if dest is not None: self.assign(s2, dest, U)
                out.append(s2); continue
            self.kill_fields(s2, wr)
            self.merge_back(s2, facts, store, fx, sx)
            # raw text in an unfinished tag
            for w, d in stk.items():
                k = s2.stk.get(w)
                if k and k[3] is not None and (d[0] or d[1] != frozenset(["^"]) or d[2] or d[3]):
                    self.issue("limit", "call inside an unfinished tag", site)
                self.apply_delta(s2, w, d, site)
            if dest is not None: self.assign(s2, dest, rv)
            out.append(s2)
        return out

    # ======================================================================
    #  roots
    # ======================================================================
    def analyse(self):
        t0 = time.time()
        self.allsum = []
        pk = {p for p in self.emitters if p.startswith("packager::")}
        down = self.p.reach(pk)
        pk |= {p for p in self.emitters if p.startswith("workbook::") and p not in down}
        below = set()
        cg = self.cg
        work = [p for p in pk]
        while work:
            p = work.pop()
            for q in cg[p]:
                if q in self.emitters and q not in pk and q not in below and not q.startswith("xmlwriter::"):
                    below.add(q); work.append(q)
        X = {p for p in self.emitters if p not in below and not p.startswith("xmlwriter::") and not "as xmlwriter::" in p}
        self.X = X; self.below = below
        # trait methods of IntoAttribute are primitives
        self.boundary = {}
        order = self.callees_first(X)
        self.roots = []
        for p in order:
            f = self.p.fns[p]
            callees = [q for q in cg[p] if q in self.emitters]
            direct = any(self.is_raw_sink(t) for _, t in f.calls())
            if not direct and all(q in X and self.boundary.get(q) == "balanced" for q in callees):
                self.boundary[p] = "balanced"; continue
            args = tuple(("p", (("A", p, i),)) for i in range(1, f.nargs + 1))
            n0 = len(self.allsum)
            s = self.summarize(p, args, {}, {})
            bad = []
            for stk, rv, fx, sx in s.exits:
                for w, k in stk.items():
                    fr = k[2]
                    if k[0] or k[3] or (fr and (fr[0][0] != "#doc" or len(fr) > 1 or None in fr[0][1])): bad.append((w, k))
            callers = [q for q in self.p.callers().get(p, ()) if q in X and q != p]
            if bad and callers and not f.exported:
                self.boundary[p] = "inline"
            else:
                self.boundary[p] = "balanced"
                self.roots.append(p)
                for w, k in bad:
                    st = State({}, {}, {}, {w: k}); self.cur = s
                    self.check_complete(st, w, p)
        self.finish()
        self.wall = time.time() - t0

    def finish(self):
        """the events of all complete contexts"""
        done = set(); raws = set(); issues = set()
        for s in self.allsum:
            done |= s.done; raws |= s.raws; issues |= s.issues
        for r in self.roots + [x for x in self.X if self.boundary.get(x) == "balanced"]:
            args = tuple(("p", (("A", r, i),)) for i in range(1, self.p.fns[r].nargs + 1))
            s = self.memo.get((r, args, frozenset(), frozenset()))
            if s is None: continue
            for (w, ch, prev, tag, attrs, kind, data, site) in s.events:
                if isinstance(ch[0], tuple): ch = ("#top",) + ch[1:]
                prev = frozenset(None if x == "^" else x for x in prev)
                done.add((w, ch, prev, tag, attrs, kind, data, site))
        for fr in self.frags.values():
            pass
        self.closes = {e for e in done if e[5] == "close"}
        self.events = done - self.closes; self.raws = raws; self.issues = issues

    def callees_first(self, X):
        out = []; seen = set()
        for r in sorted(X):
            if r in seen: continue
            st = [(r, iter(sorted(q for q in self.cg[r] if q in X)))]; seen.add(r)
            while st:
                p, it = st[-1]
                for q in it:
                    if q not in seen:
                        seen.add(q); st.append((q, iter(sorted(x for x in self.cg[q] if x in X)))); break
                else: out.append(p); st.pop()
        return out

if __name__ == "__main__":
    p = Program(sys.argv[1] if len(sys.argv) > 1 else "full")
    e = Emit(p)
    e.analyse()
    print("wall %.1f" % e.wall, dict(e.stats), len(e.roots), "roots", len(e.X), "X", len(e.below))
    for i in sorted({(i[0], i[1], i[2][0]) for i in e.issues}): print(i)
    print(len(e.events), len(e.raws))
