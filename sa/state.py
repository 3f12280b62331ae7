"""What a function does to the objects that its arguments lead to, over MIR.

A place is a path from an argument: fields, and a mark for an element that was
selected from a collection ('@', function, block). Summaries, bottom-up over the
call graph:
  grow   paths that are added to (push, insert, +=, a writer) and where the value
         before the call is still there
  sets   paths that are overwritten
  kills  paths that are cleared or overwritten on every path to a return
A kill of the elements of a collection holds for all of them after the loop over
the whole collection has ended."""
import re
from mir import *
from sym import *

WRAP = ("std::option::Option", "std::result::Result", "std::ops::ControlFlow")
PASS = {"iter_mut", "values_mut", "into_iter", "unwrap", "expect", "as_mut", "as_deref_mut", "deref_mut", "enumerate", "lock", "write", "read", "by_ref", "iter", "values", "as_ref", "deref", "borrow_mut", "borrow", "as_mut_slice", "as_slice", "rev", "peekable", "ok_or", "ok_or_else", "branch", "flatten", "chain", "as_deref", "from_output", "unwrap_or_else", "zip", "into_mut", "cloned_ref", "map_err", "ok", "get_ref", "by_mut", "as_mut_ptr", "unwrap_unchecked", "get_or_insert_with_ref"}
PART = {"filter", "skip", "take_while", "skip_while", "step_by", "range_mut", "get_mut", "last_mut", "first_mut", "index_mut", "entry", "or_insert", "or_insert_with", "or_default", "get_or_insert_with", "find", "nth", "last", "max_by", "filter_map", "first_entry", "or_insert_with_key", "and_modify", "get", "index", "chunks_mut", "split_at_mut", "split_first_mut", "take"}
GROW = {"push", "push_back", "push_front", "push_str", "extend", "extend_from_slice", "append", "insert", "or_insert", "or_insert_with", "or_default", "write_all", "write_fmt", "write_str", "write", "resize", "resize_with", "or_insert_with_key", "insert_full", "replace_range", "insert_str", "write_u8", "write_char", "insert_entry"}
CLEAR = {"clear", "truncate", "drain", "set_len"}
TAKE = {"take", "replace", "swap"}

def isfresh(n):
    m = n.rsplit("::", 1)[-1]
    return m in ("clone", "to_owned", "to_vec", "to_string", "collect", "cloned", "copied", "new", "default", "keys")

class State:
    def __init__(self, p, w, X, roots, track=()):
        self.track = track
        self.excused = {}; self.arms = {}
        self.p = p; self.w = w; self.X = X; self.sum = {}; self.al = {}; self.rtop = {}
        self.reach = {q for q in p.reach(roots) if q in p.fns}
        self.order = []; seen = set()
        def items(q):
            return {o.get("res") or o.get("f") for b, t in p.fns[q].calls() for o in t["args"] if o.get("c") == "fn"} & set(p.fns)
        todo = list(self.reach)
        while todo:
            for g in items(todo.pop()) - self.reach:
                new = {x for x in p.reach([g]) if x in p.fns} - self.reach; self.reach |= new; todo += list(new)
        cg = {q: sorted({g for b, t in p.fns[q].calls() if not p.fns[q].cleanup(b) for g in p.callees(t) if g in p.fns} | set(p.closures_of(q)) | items(q)) for q in self.reach}
        def go(q):
            st = [(q, iter(cg.get(q, ())))]; seen.add(q)
            while st:
                x, it = st[-1]
                for y in it:
                    if y not in seen and y in cg: seen.add(y); st.append((y, iter(cg[y]))); break
                else: self.order.append(x); st.pop()
        for r in roots:
            if r not in seen: go(r)
        self.cg = cg
        for k in range(4):
            ch = False
            for q in self.order:
                s = self.analyse(q)
                if s != self.sum.get(q): self.sum[q] = s; ch = True
            if not ch: break
    # ---- where a reference points
    def alias(self, q, l, seen=()):
        """{(base, path)}: base ('arg', i), ('up', k); what is made here has no entry"""
        if (q, l) in self.al: return self.al[(q, l)]
        if l in seen or len(seen) > 40: return set()
        self.X.load(q); f = self.p.fns[q]; seen = seen + (l,); out = set()
        ds = self.X.defs[q].get(l, [])
        if 1 <= l <= f.nargs:
            out.add((("arg", l), ()))
        else:
            for pr, kind, rv, b in ds:
                if pr: continue
                if kind == "rv":
                    k = rv[0]
                    if k == "use" and "p" in rv[1]: out |= self.place(q, rv[1]["p"], seen)
                    elif k == "ref": out |= self.place(q, rv[2], seen)
                    elif k == "cast" and "p" in rv[1]: out |= self.place(q, rv[1]["p"], seen)
                    elif k == "agg":
                        a = rv[1]
                        if a in ("array", "tuple") or isinstance(a, dict) and str(a.get("adt", "")).startswith(WRAP):
                            for o in rv[2]:
                                if "p" in o and self.refs(f.ty(o["p"][0])): out |= self.place(q, o["p"], seen)
                else: out |= self.callref(q, rv, b, seen)
        if len(seen) == 1: self.al[(q, l)] = out
        return out
    def refs(self, t): return "&" in t or any(x in t for x in ("Iter", "Guard", "Entry", "Enumerate", "Rev<", "ValuesMut", "Filter", "Zip", "Values", "Flatten", "Chain", "Peekable", "Skip", "Take", "Drain"))
    def callref(self, q, t, b, seen):
        f = self.p.fns[q]; n = t.get("res") or t.get("f") or "?"; m = n.rsplit("::", 1)[-1]; a = t["args"]
        d = f.ty(t["dest"][0])
        if not a or "p" not in a[0]: return set()
        if m == "next" or m == "next_back": return {(x, pa + (("@", q, b),)) for x, pa in self.place(q, a[0]["p"], seen)}
        if not self.refs(d): return set()
        if isfresh(n) and m not in ("copied", "cloned") : return set()
        gs = [g for g in self.p.callees(t) if g in self.p.fns]
        if gs:
            if not d.startswith("&mut") and "&mut" not in d: return set()
            out = set()
            for i, o in enumerate(a):
                if "p" in o and f.ty(o["p"][0]).startswith("&mut"): out |= self.place(q, o["p"], seen); break
            return out
        if m in PASS:
            out = self.place(q, a[0]["p"], seen)
            if m in ("chain", "zip") and len(a) > 1 and "p" in a[1]: out = out | self.place(q, a[1]["p"], seen)
            return out
        if m in PART: return {(x, pa + (("@", q, b),)) for x, pa in self.place(q, a[0]["p"], seen)}
        return set()
    def place(self, q, pl, seen=()):
        pr = []
        for x in pl[1:]:
            if x == "*" or not isinstance(x, list) or not is_field(x) or str(x[0]).startswith(WRAP):
                if isinstance(x, list) and x[0] in ("#", "##"): pr.append(("@", q, str(x)))
                continue
            k = fkey(x)
            if k.startswith("()."): continue
            pr.append(k)
        out = set()
        for b, pa in self.alias(q, pl[0], seen):
            full = pa + tuple(pr)
            if b[0] == "arg" and full and str(full[0]).startswith("{closure}."): b = ("up", int(full[0].rsplit(".", 1)[1])); full = full[1:]
            if len([x for x in full if isinstance(x, str)]) <= 9: out.add((b, full))
        return out
    def target(self, q, pl):
        """the persistent places that an assignment to pl changes"""
        f = self.p.fns[q]; l = pl[0]
        t = f.ty(l)
        if not any(x == "*" for x in pl[1:]): return set()
        return {x for x in self.place(q, pl) if self.mutable(f, x[0])}
    def mutable(self, f, b):
        if b[0] == "up": return True
        return f.ty(b[1]).startswith("&mut") or "{closure" in f.path or bool(re.fullmatch(r"[A-Z]\w?", f.ty(b[1])))
    # ---- one function
    def analyse(self, q):
        f = self.p.fns[q]; w = self.w; sy = w.sym(q)
        blocks = [b for b in f.reachable() if not f.cleanup(b)]
        evs = {}
        for b in blocks:
            ev = []
            for st in f.stmts(b):
                if st[0] != "=": continue
                if self.track: ev += [("read", x, (q, "read", b)) for x in self.reads(q, f, st[2])]
                for x in self.target(q, st[1]): ev.append(self.store(q, f, sy, x, st[1], sy.rv(st[2]), st[3] if len(st) > 3 else f.blocks[b][3], b))
            t = f.term(b)
            if self.track: ev += [("read", x, (q, "read", b)) for x in self.reads(q, f, t)]
            if t["k"] == "call": ev += self.callev(q, f, sy, t, b)
            evs[b] = ev
        for b in blocks:
            why = {}
            for i, e in enumerate(evs[b]):
                if e[0] in ("grow", "mayset", "write"):
                    y = self.excuse(q, f, evs, b, e)
                    if y: self.excused.setdefault((q, b, y), set()).add(lastfield(e[1])); evs[b][i] = ("gone",) + e[1:]
            for i, e in enumerate(evs[b]):
                # what else is added where a new key is
                if e[0] == "gone" and e[2][2] == b and e[2][0] == q and e[2][1] in GROW and "Map" in str(f.term(b).get("res") or f.term(b).get("f")):
                    self.arms.setdefault((q, lastfield(e[1])), set()).update(x for x in blocks if self.dom(f, b, x))
        self.armev = getattr(self, "armev", {}); self.armev[q] = {(x, lastfield(z[1])) for x in blocks for z in evs[x] if z[0] in ("grow", "gone")}
        # must-kill: forward, meet over paths
        loops = {b: self.place(q, f.term(b)["args"][0]["p"]) for b in blocks if f.term(b)["k"] == "call" and (f.term(b).get("res") or f.term(b).get("f") or "").endswith("::next") and "p" in f.term(b)["args"][0]}
        none = {}
        for nb in loops:
            e = self.noneedge(f, sy, nb)
            if e: none[e] = nb
        empt = self.empties(q, f, sy, blocks)
        gen = {}        # extra kills on edges (a, b)
        for rnd in range(6):
            inn = {0: frozenset()}; work = [0]; outs = {}
            while work:
                b = work.pop()
                k = set(inn[b])
                for e in evs[b]:
                    if e[0] in ("kill", "set"): k.add(e[1])
                if b in loops: k = {x for x in k if ("@", q, b) not in x[1]}
                outs[b] = k
                for s in f.succ(b):
                    if f.cleanup(s): continue
                    o = frozenset(k | gen.get((b, s), set()) | empt.get((b, s), set()))
                    if s not in inn: inn[s] = o; work.append(s)
                    else:
                        m = meet(inn[s], o)
                        if m != inn[s]: inn[s] = m; work.append(s)
            g2 = {}
            for (a, s), nb in none.items():
                pre = [x for x in f.preds()[nb] if x in outs and nb in f.reachable(x) and x in f.reachable(nb) ]
                back = [x for x in pre if not f.cleanup(x) and self.inloop(f, nb, x, s)]
                if not back: continue
                ks = set(outs[back[0]])
                for x in back[1:]: ks = meet(ks, outs[x])
                add = set()
                for base, pa in ks:
                    for i, z in enumerate(pa):
                        if z == ("@", q, nb) or isinstance(z, tuple) and z[1] == q and isinstance(z[2], int) and self.indexed(q, f, sy, z[2], nb): add.add((base, pa[:i] + pa[i + 1:]))
                if add: g2[(a, s)] = add
            if g2 == gen: break
            gen = g2
        grow = {}; sets = {}; rd = {}; wrt = {}
        for b in blocks:
            if b not in inn: continue
            k = set(inn[b])
            for e in evs[b]:
                if e[0] in ("grow", "set", "mayset", "write"): wrt.setdefault(e[1], set()).add(e[2])
                if e[0] == "grow":
                    if not any(match(x, e[1]) for x in k): grow.setdefault(e[1], set()).add(e[2])
                elif e[0] == "read" and not any(match(x, e[1]) for x in k): rd.setdefault(e[1], set()).add(e[2])
                elif e[0] in ("set", "mayset"): sets.setdefault(e[1], set()).add(e[2])
                if e[0] in ("kill", "set"): k.add(e[1])
        rets = [b for b in blocks if f.term(b)["k"] == "return" and b in outs]
        kills = self.atret(q, f, outs, rets)
        return (frz(grow), frz(sets), frozenset(kills), frz(rd), frz(wrt))
    # ---- additions that a second save does not repeat
    def excuse(self, q, f, evs, b, e):
        """why the addition in block b is not made again, or None"""
        kind, path, (sq, m, sb) = e
        if sq == q and m in ("or_insert", "or_insert_with", "or_default", "or_insert_with_key"): return "it is made for a key that is absent"
        for fa in self.w.at(q, b):
            for fld in absent(fa):
                hits = {x for x in evs for z in evs[x] if z[0] in ("grow", "set", "mayset", "gone", "kill") and fld in z[1][1]}
                hits = {x for x in hits if any(fld in absent(fb) for fb in self.w.at(q, x))}
                if hits and (b in hits or self.musthit(f, b, hits) or any(self.dom(f, x, b) for x in hits)): return "it fills " + fld + ", which was empty"
        s = self.drained(q, f, b)
        if s: return s
        return None
    def dom(self, f, a, b):
        seen = set(); st = [0]
        while st:
            x = st.pop()
            if x in seen or x == a: continue
            seen.add(x)
            if x == b: return False
            st += f.succ(x)
        return True
    def musthit(self, f, b, hits):
        seen = set(); st = [b]
        while st:
            x = st.pop()
            if x in seen or x in hits or f.cleanup(x): continue
            seen.add(x)
            if f.term(x)["k"] == "return": return False
            st += f.succ(x)
        return True
    def drained(self, q, f, b):
        """b is in a loop over what a call took out of the object"""
        sy = self.w.sym(q)
        for nb, t in f.calls():
            n = t.get("res") or t.get("f") or ""
            if f.cleanup(nb) or not n.endswith("::next") or b not in f.reachable(nb) or nb not in f.reachable(b): continue
            e = sy.call(nb, t)
            for z in subexprs(self.origin(q, e, set())):
                if z[0] == "call" and z[1] in self.sum and self.drains(z[1]): return "it is made for what %s takes out" % z[1].rsplit("::", 1)[-1]
        return None
    def origin(self, q, e, seen):
        f = self.p.fns[q]; sy = self.w.sym(q); out = [e]
        for z in list(subexprs(e)):
            if z[0] == "loc" and z[1] not in seen:
                seen.add(z[1])
                for b in f.reachable():
                    if f.cleanup(b): continue
                    for st in f.stmts(b):
                        if st[0] == "=" and st[1] == [z[1]]: out.append(self.origin(q, sy.rv(st[2]), seen))
                    t = f.term(b)
                    if t["k"] == "call" and t["dest"] == [z[1]]: out.append(self.origin(q, sy.call(b, t), seen))
        return ("tuple",) + tuple(out) if len(out) > 1 else e
    def drains(self, g, depth=0):
        """everything in the value that g returns was taken out of a field of its argument"""
        if (g, "d") in self.al: return self.al[(g, "d")]
        self.al[(g, "d")] = False
        f = self.p.fns[g]; sy = self.w.sym(g); ok = False
        takes = [(b, t) for b, t in f.calls() if not f.cleanup(b) and re.search(r"Option::<T>::take$|mem::(take|replace)(::<.*>)?$|::(drain|pop|pop_first|remove|into_iter_drain)$", t.get("res") or t.get("f") or "")
                 and t["args"] and "p" in t["args"][0] and any(self.mutable(f, x[0]) for x in self.place(g, t["args"][0]["p"]))]
        pushes = [(b, t) for b, t in f.calls() if not f.cleanup(b) and re.search(r"::(push|insert|extend)$", t.get("res") or t.get("f") or "") and "p" in t["args"][0] and not self.place(g, t["args"][0]["p"])]
        if takes and not pushes:
            # a Some is only returned for what was taken
            ok = True
            for b, e, s, k in self.w.ret_defs(g):
                if e[0] == "agg" and "None" in str(e[2]): continue
                src = set(subexprs(self.origin(g, e, set())))
                if not any(z[0] == "call" and re.search(r"take$|replace|drain|pop|remove", z[1]) for z in src): ok = False
        elif pushes and depth < 3:
            ok = all(any(z[0] == "call" and (z[1] in self.sum and self.drains(z[1], depth + 1) or re.search(r"Option::<T>::take$|mem::take", z[1])) for z in subexprs(self.origin(g, sy.op(t["args"][-1]), set()))) for b, t in pushes)
        self.al[(g, "d")] = ok; return ok
    def atret(self, q, f, outs, rets):
        # only the returns that are not errors count
        ks = None
        if f.ty(0).startswith("std::result::Result"):
            bad = set()
            for b, e, s, k in self.w.ret_defs(q):
                if self.w.outcome(e, "ok") is None: bad.add(b)
            good = {b for b, e, s, k in self.w.ret_defs(q)} - bad
            for b in good:
                if b in outs: ks = set(outs[b]) if ks is None else set(meet(ks, outs[b]))
            return ks or set()
        for b in rets: ks = set(outs[b]) if ks is None else set(meet(ks, outs[b]))
        return ks or set()
    def inloop(self, f, nb, x, exit_):
        """x is inside the loop: it gets back to nb without the exit edge"""
        return x in f.reachable(nb)
    def indexed(self, q, f, sy, ib, nb):
        """block ib selects the element whose number the loop at nb counts, from 0 to the length"""
        t = f.term(ib)
        if t["k"] != "call" or not (t.get("res") or t.get("f") or "").endswith(("::index_mut", "::get_mut")) or len(t["args"]) < 2: return False
        i = sy.op(t["args"][1]); e = sy.call(ib, t)[2][0]
        if not (i[0] == "fld" and i[1][0] == "as" and i[1][1][0] == "call" and i[1][1][1].endswith("::next") and i[1][1][3] == nb): return False
        for z in subexprs(self.origin(q, i[1][1], set())):
            if z[0] == "agg" and str(z[1]).endswith("ops::Range") and len(z[3]) == 2 and z[3][0][0] == "c" and str(z[3][0][2]) == "0" and z[3][1][0] == "call" and z[3][1][1].endswith("::len") and z[3][1][2][0] == e: return True
        return False
    def noneedge(self, f, sy, nb):
        b = f.term(nb)["to"]; k = 0
        while b is not None and b >= 0 and k < 10:
            k += 1; t = f.term(b)
            if t["k"] == "switch":
                e = sy.op(t["on"])
                if e[0] != "discr": return None
                for v, x in t["targets"]:
                    if int(v) == 0: return (b, x)
                return (b, t["else"])
            nx = [x for x in f.succ(b) if not f.cleanup(x)]
            if len(nx) != 1: return None
            b = nx[0]
        return None
    def empties(self, q, f, sy, blocks):
        """edges on which an optional part or a collection has nothing in it"""
        out = {}
        for b in blocks:
            t = f.term(b)
            if t["k"] != "switch" or "p" not in t["on"]: continue
            e = sy.op(t["on"]); on = t["on"]["p"][0]; pl = None; zero = None
            for bb in blocks:
                for st in f.stmts(bb):
                    if st[0] == "=" and st[1] == [on] and st[2][0] == "discr": pl = st[2][1]
                u = f.term(bb)
                if u["k"] == "call" and u["dest"] == [on]:
                    m = (u.get("res") or u.get("f") or "").rsplit("::", 1)[-1]
                    if m in ("is_empty", "is_none") and "p" in u["args"][0]: pl = u["args"][0]["p"]; zero = 1
                    if m == "is_some" and "p" in u["args"][0]: pl = u["args"][0]["p"]; zero = 0
            if pl is None: continue
            if zero is None:
                ty = re.sub(r"^&(mut )?", "", f.ty(pl[0]))
                if e[0] != "discr": continue
                zero = 0
                if not self.isoption(f, pl): continue
            for base, pa in self.place(q, pl):
                if pa and isinstance(pa[-1], str):
                    for v, x in t["targets"]:
                        if int(v) == zero: out.setdefault((b, x), set()).add((base, pa))
                    if all(int(v) != zero for v, x in t["targets"]): out.setdefault((b, t["else"]), set()).add((base, pa))
        return out
    def isoption(self, f, pl):
        t = f.ty(pl[0]); return True
    def writes(self, root):
        return {norm(x): src for x, src in self.sum[root][4]}
    def reads(self, q, f, rv):
        """the tracked places that a value is computed from"""
        out = set()
        if isinstance(rv, dict):
            t = rv; ops = t.get("args", []) if t["k"] == "call" else [t["on"]] if t["k"] == "switch" else []
            pls = [o["p"] for o in ops if "p" in o]
        elif rv[0] == "ref":
            pls = [rv[2]] if not rv[1] else []
        elif rv[0] == "discr": pls = [rv[1]]
        else: pls = [o["p"] for o in rv_operands(rv) if "p" in o]
        for pl in pls:
            if not any(isinstance(y, list) and is_field(y) and fkey(y) in self.track for y in pl[1:]): continue
            for x in self.place(q, pl):
                if x[1] and any(z in self.track for z in x[1] if isinstance(z, str)): out.add(x)
        return out
    def store(self, q, f, sy, x, pl, e, line, b):
        path = x[1]; last = next((z for z in reversed(path) if isinstance(z, str)), None)
        if last is None: return ("mayset", x, (q, "*", b))
        me = sy.place(pl)
        if e[0] == "call" and re.search(r"(^|::)(min|max)(::<.*>)?$", e[1]) and me in e[2]: return ("mayset", x, (q, "minmax", b))
        if me in set(subexprs(e)): return ("grow", x, (q, "store", b))
        for s in subexprs(e):
            if s[0] == "call" and s[1] in self.p.fns:
                rd = self.p.trans_fields().get(s[1], ((), ()))[0]
                if last in rd and me[0] == "fld" and any(z in (me, me[1]) for a in s[2] for z in subexprs(a)): return ("grow", x, (q, "store", b))
        return ("set", x, (q, "store", b))
    def callev(self, q, f, sy, t, b):
        n = t.get("res") or t.get("f") or "?"; m = n.rsplit("::", 1)[-1]; a = t["args"]; ev = []
        gs = sorted(g for g in self.p.callees(t) if g in self.p.fns)
        # closures that are passed run on the elements
        for i, o in enumerate(a):
            for z in subexprs(sy.op(o)):
                if z[0] == "closure" and z[1] in self.p.fns and z[1] in self.sum:
                    el = {(x, pa + (("@", q, b),)) for x, pa in self.place(q, a[0]["p"])} if i > 0 and "p" in a[0] else set()
                    ev += self.compose(q, f, z[1], lambda base: self.closurebase(q, f, z[1], base, el), b, must=False)
                    if m in ("for_each", "try_for_each"): ev += self.allof(q, f, z[1], el, b)
        if m in ("for_each", "try_for_each") and len(a) > 1 and "p" in a[0]:
            fn = a[1]
            for z in subexprs(sy.op(fn)):
                if z[0] == "fn" and z[1] in self.sum:
                    el = {(x, pa + (("@", q, b),)) for x, pa in self.place(q, a[0]["p"])}
                    ev += self.compose(q, f, z[1], lambda base: el if base == ("arg", 1) else set(), b, must=False)
                    ev += self.allof(q, f, z[1], el, b, ("arg", 1))
        if gs:
            for g in gs:
                if g in self.sum: ev += self.compose(q, f, g, lambda base: self.place(q, a[base[1] - 1]["p"]) if base[0] == "arg" and base[1] - 1 < len(a) and "p" in a[base[1] - 1] else set(), b, must=len(gs) == 1)
        elif a and "p" in a[0] and (f.ty(a[0]["p"][0]).startswith("&mut") or m in GROW):
            for x in self.place(q, a[0]["p"]):
                if not self.mutable(f, x[0]) or not x[1] and x[0][0] != "arg": continue
                if m in GROW and not (m in ("write",) and "Lock" in n): ev.append(("grow", x, (q, m, b)))
                elif m in CLEAR or m in TAKE: ev.append(("kill", x, (q, m, b)))
                if m == "swap" and len(a) > 1 and "p" in a[1]:
                    ev += [("kill", y, (q, m, b)) for y in self.place(q, a[1]["p"])]
                elif m == "set_position": ev.append(("kill", x, (q, m, b)))
            if m == "swap" and not self.place(q, a[0]["p"]) and len(a) > 1 and "p" in a[1]: ev += [("kill", y, (q, m, b)) for y in self.place(q, a[1]["p"])]
            if m == "append" and len(a) > 1 and "p" in a[1]:
                for x in self.place(q, a[1]["p"]): ev.append(("kill", x, (q, "drained", b)))
        if len(t["dest"]) > 1:
            e = ("call", n, tuple(sy.op(o) for o in a), b)
            for x in self.target(q, t["dest"]): ev.append(self.store(q, f, sy, x, t["dest"], e, 0, b))
        return ev
    def closurebase(self, q, f, g, base, el):
        if base[0] == "arg": return el if base[1] >= 2 else set()
        # a captured place
        for b in f.reachable():
            for s in f.stmts(b):
                if s[0] == "=" and s[2][0] == "agg" and isinstance(s[2][1], dict) and s[2][1].get("closure") == g and base[1] < len(s[2][2]):
                    o = s[2][2][base[1]]
                    return self.place(q, o["p"]) if "p" in o else set()
        return set()
    def compose(self, q, f, g, mp, b, must=True):
        grow, sets, kills, rd, wrt = self.sum[g]; ev = []
        rds = [("read", (x[0], cut(x[1] + pth[1])), s) for pth, srcs in rd for x in mp(pth[0]) for s in srcs]
        for k in (kills if must else ()):
            for x in mp(k[0]): ev.append(("kill2", (x[0], cut(x[1] + k[1])), (g, "", b)))
        out = []
        for pth, srcs in grow:
            for x in mp(pth[0]):
                if self.mutable(f, x[0]): out += [("grow", (x[0], cut(x[1] + pth[1])), s) for s in srcs]
        for pth, srcs in sets:
            for x in mp(pth[0]):
                if self.mutable(f, x[0]): out += [("mayset", (x[0], cut(x[1] + pth[1])), s) for s in srcs]
        rds += [("write", (x[0], cut(x[1] + pth[1])), s) for pth, srcs in wrt for x in mp(pth[0]) if self.mutable(f, x[0]) for s in srcs]
        return rds + out + [("kill", x, s) for _, x, s in ev]
    def allof(self, q, f, g, el, b, me=("arg", 2)):
        """after for_each: what the closure kills is killed for all elements"""
        out = []
        for base, pa in self.sum[g][2]:
            if base == me:
                for x, ep in el: out.append(("kill", (x, tuple(z for z in ep if z != ("@", q, b)) + pa), (g, "", b)))
        return out

def frz(d): return frozenset((k, frozenset(v)) for k, v in d.items())
def cut(path): return path if len([x for x in path if isinstance(x, str)]) <= 9 else path[:9]
def meet(a, b):
    a, b = frozenset(a), frozenset(b)
    if a == b: return a
    return (a & b) | {x for x in a - b if any(match(y, x) for y in b)} | {x for x in b - a if any(match(y, x) for y in a)}
def match(kill, grow):
    """the kill covers the place that grows"""
    if kill[0] != grow[0]: return False
    a, b = kill[1], grow[1]; i = 0
    for x in b:
        if i == len(a): return True
        if x == a[i]: i += 1; continue
        if isinstance(x, tuple): continue
        return False
    return i == len(a)
def mentionsfield(e, fld): return any(s[0] == "fld" and s[2] == fld for s in subexprs(e))

def guards(fact):
    """the fields whose emptiness a fact is about"""
    e, v = fact; out = set()
    if absent(fact): out |= {z[2] for z in subexprs(e) if z[0] == "fld" and "::" in z[2]}
    return out
def lastfield(x): return next((z for z in reversed(x[1]) if isinstance(z, str)), "?")
def absent(fact):
    """the fields that a fact shows to be empty, or not to have an element"""
    e, v = fact; out = set()
    def flds(x):
        return {z[2] for z in subexprs(x) if z[0] == "fld" and "::" in z[2]}
    if e[0] == "discr":
        i = (0,) if v == 0 or v == ("not", (1,)) else None
        if i:
            x = e[1]
            while x[0] == "call" and x[1].rsplit("::", 1)[-1] in ("copied", "cloned", "as_ref", "as_mut", "as_deref") and x[2]: x = x[2][0]
            if x[0] == "fld": out.add(x[2])
            elif x[0] == "call" and x[2] and x[1].rsplit("::", 1)[-1] in ("get", "get_mut", "get_key_value", "first", "last", "pop"):
                r = x[2][0]
                if flds(r): out |= {y for y in [lastf(r)] if y}
        return out
    t = truth(fact)
    if t:
        x, val = t
        if x[0] == "call" and x[2]:
            m = x[1].rsplit("::", 1)[-1]
            if m in ("contains", "contains_key", "is_some") and not val or m in ("insert", "is_none", "is_empty") and val:
                r = x[2][0]
                if r[0] == "call" and r[2] and r[1].rsplit("::", 1)[-1] in ("get", "get_mut", "as_ref", "iter"): r = r[2][0]
                y = lastf(r)
                if y: out.add(y)
        if x[0] == "fld" and not val: out.add(x[2])
    for op, a, b in comparisons(fact):
        if op == "Eq" and b[0] == "c" and b[2] in (0, "0") and a[0] == "fld": out.add(a[2])
    return out
def lastf(e):
    while e[0] in ("call", "un", "as", "idx"):
        if e[0] == "call":
            if not e[2]: return None
            e = e[2][0]
        else: e = e[1] if e[0] != "un" else e[2]
    return e[2] if e[0] == "fld" and "::" in e[2] else None

def norm(x): return tuple(z for z in x[1] if isinstance(z, str))
