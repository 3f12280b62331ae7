"""Effect-before-error analysis over MIR. For every method the events that change
the object (assignments through &mut self, calls of container methods that add or
remove, calls of crate functions with such effects) are found, and for every
function two summaries: may it change the object at all, and may it change it
and then return Err. Rule: no path of a public method leads from a change of the
object to an Err return. A call's effect is attributed to the outcome of the
call (a callee that only changes the object when it succeeds has no effect on
the error edge). Errors of nested calls that can only be row or column limit
errors are infeasible where the caller has tested its range."""
RULE = "no path leads from a change of the object to an Err return of a public method"
ASSUMPTIONS = ["A nested call that can only fail with a row/column limit or order error cannot fail after the caller has tested the range it lies in."]
import re
from sym import *
from mir import *
from ctx import loc
from props.c20 import Gate

PURE = re.compile(r"::(get_mut|iter_mut|deref_mut|deref|as_mut|as_deref_mut|entry|values_mut|unwrap|expect|branch|index_mut|next|into_iter|borrow_mut|last_mut|first_mut|as_mut_slice|from_residual|unwrap_or|map|and_then|filter|enumerate|zip|rev|skip|take|chunks_mut|split_at_mut|lock|write|read|into_mut|key|get|len|is_empty|ok_or|ok_or_else|as_ref|by_ref|borrow|from|into|new|fmt|as_str|clone|peek_mut|range_mut|is_some|is_none|eq|ne|cmp|partial_cmp|map_err|iter|min|max|ok|err|is_ok|is_err|contains_key|contains)$")
LIMIT = {"RowColumnLimitError", "RowColumnOrderError"}
# the recorded used range and the format tables have no effect until a cell is stored
QUIET = {"worksheet::Worksheet.dimensions", "worksheet::Worksheet.is_writing_ahead"}
FORMATFNS = re.compile(r"worksheet::Worksheet::(format_xf_index|format_dxf_index)$")

def callname(t): return t.get("res") or t.get("f") or ""
def fieldsof(e): return {x[2] for x in subexprs(e) if x[0] == "fld" and "::" in x[2]}

class Eff:
    def __init__(self, p, w):
        self.p = p; self.w = w; self.sum = {}; self.busy = set(); self.lim = {}; self.G = Gate(p, w)
    def refty(self, f, l): return f.ty(l).startswith("&mut") or f.ty(l).startswith(("std::option::Option<&mut", "std::collections::btree_map::", "std::collections::hash_map::", "std::slice::IterMut"))
    def events(self, q):
        """block -> [(kind, detail)] : ('store', field) or ('call', callee list, is_result)"""
        f = self.p.fns[q]; sy = self.w.sym(q); out = {}
        mutself = {i for i in range(1, f.nargs + 1) if f.ty(i).startswith("&mut") and not f.ty(i).startswith("&mut std") and i == 1}
        if not mutself: return out
        def selfy(e): return any(x[0] == "arg" and x[1] in mutself for x in subexprs(e))
        def base(e):
            """the expression is a place inside self (not a value computed from it)"""
            while True:
                if e[0] in ("fld", "as", "idx"): e = e[1]; continue
                if e[0] == "call" and e[2] and PURE.search(e[1]): e = e[2][0]; continue
                return e[0] == "arg" and e[1] in mutself
        for b in f.reachable():
            if f.cleanup(b): continue
            ev = []
            for st in f.stmts(b):
                if st[0] == "=" and "*" in [x for x in st[1][1:] if isinstance(x, str)]:
                    l = st[1][0]
                    if f.ty(l).startswith("&mut") or l in mutself:
                        e = sy.place(st[1])
                        if base(e) or self.mutbase(f, sy, l, base):
                            fl = [x for x in st[1][1:] if isinstance(x, list) and is_field(x)]
                            k = {fkey(x) for x in fl} | fieldsof(e)
                            if k & QUIET: continue
                            ev.append(("store", fkey(fl[-1]) if fl else str(sorted(k)[:1])))
            t = f.term(b)
            if t["k"] == "call":
                cs = [g for g in self.p.callees(t) if g in self.p.fns]
                n = callname(t); touched = []
                for i, o in enumerate(t["args"]):
                    if "p" not in o: continue
                    l = o["p"][0]
                    if not f.ty(l).startswith("&mut") and not self.refty(f, l): continue
                    e = sy.op(o)
                    if base(e) or self.mutbase(f, sy, l, base): touched.append((i, e))
                dst = t["dest"]
                if len(dst) > 1 and (base(sy.place(dst)) and f.ty(dst[0]).startswith("&mut")):
                    fl = [x for x in dst[1:] if isinstance(x, list) and is_field(x)]
                    if not ({fkey(x) for x in fl} & QUIET): ev.append(("store", fkey(fl[-1]) if fl else "?"))
                if touched:
                    if cs:
                        if any(i == 0 for i, e in touched) and not all(FORMATFNS.search(g) for g in cs): ev.append(("call", cs, f.ty(t["dest"][0]) if len(dst) == 1 else "", b))
                    elif not PURE.search(n):
                        k = set().union(*[fieldsof(e) for i, e in touched])
                        if not k & QUIET and re.search(r"::(insert|push|push_str|extend|clear|resize|resize_with|or_insert|or_insert_with|or_default|remove|take|replace|retain|drain|append|truncate|pop|swap|clone_from|sort\w*|insert_entry|and_modify|dedup|reverse)$", n): ev.append(("insert" if re.search(r"Set::<.*>::(insert|replace|remove)$|Set<.*>::(insert|remove)$", n) else "store", "%s of %s" % (n.rsplit("::", 1)[-1], ", ".join(sorted(x for x in k if x.startswith("worksheet") or "std" not in x)))))
            if ev: out[b] = ev
        return out
    def mutbase(self, f, sy, l, base):
        """a local that holds a reference into self"""
        for b in f.reachable():
            for st in f.stmts(b):
                if st[0] == "=" and st[1] == [l] and st[2][0] in ("ref", "use"):
                    if base(sy.rv(st[2])): return True
        return False
    def isresult(self, g): return self.p.fns[g].ty(0).startswith("std::result::Result<")
    def variants(self, g, seen=None):
        """error variants a function can return, or None"""
        seen = seen or set()
        if g in seen: return set()
        seen.add(g); out = set(); f = self.p.fns[g]
        for b, e, s, k in self.w.ret_defs(g):
            if self.w.outcome(e, "err") is None: continue
            vs = {x[2] for x in subexprs(e) if x[0] == "agg" and x[1] and str(x[1]).endswith("XlsxError")}
            cs = [x for x in subexprs(e) if x[0] == "call" and x[1] in self.p.fns and self.isresult(x[1])]
            tr = [x for x in subexprs(e) if x[0] == "call" and x[1] not in self.p.fns and self.w.targets(x[1])]
            if tr: return None
            if not vs and not cs: return None
            out |= vs
            if not vs:
                for x in cs:
                    z = self.errors(x, seen)
                    if z is None: return None
                    out |= z
        return out
    def errors(self, x, seen=None):
        """error variants of a call; a finite constant never becomes a string"""
        z = self.variants(x[1], seen)
        if z and re.search(r"number", x[1]) and any(a[0] == "c" and re.fullmatch(r"[iuf]\d+|usize", str(a[1])) for a in x[2]): z = z - {"MaxStringLengthExceeded"}
        return z
    def summary(self, q):
        """(may change, may change and return Err)"""
        if q in self.sum: return self.sum[q]
        if q in self.busy: return (False, False)
        self.busy.add(q)
        m, e = self.walk(q)
        self.busy.discard(q)
        self.sum[q] = (bool(m), bool(e))
        return self.sum[q]
    def walk(self, q, report=None):
        """explore paths: state (block, change so far, pending calls)"""
        p = self.p; w = self.w; f = p.fns[q]; ev = self.events(q)
        if not ev: return False, False
        fa = w.facts(q); sy = fa.sym
        changed = False; err = []
        rets = {}
        for b, e, s, k in w.ret_defs(q): rets.setdefault((b, frozenset(k.items())), []).append(e)
        res = self.isresult(q)
        seen = set(); st = [(0, frozenset(), None, frozenset())]
        while st:
            b, key, ch, pend = st.pop()
            if (b, key, ch is not None, pend) in seen or f.cleanup(b) or b not in fa.kcache: continue
            seen.add((b, key, ch is not None, pend))
            if len(seen) > 60000: err.append((b, "too many paths", "?")); break
            # the returned value may be set before or after an event in this block
            for e in ev.get(b, ()):
                if e[0] == "insert": pend = pend | {(b, e[1])}; changed = True
                elif e[0] == "store":
                    if ch is None: ch = ("%s:%d" % (f.file, f.blocks[b][3]), e[1])
                    changed = True
                else:
                    for g in e[1]:
                        m, me = self.summary(g)
                        if not m: continue
                        changed = True
                        if self.isresult(g): pend = pend | {(b, g)}
                        elif ch is None: ch = ("%s:%d" % (f.file, f.blocks[b][3]), g)
            pn = pend
            t = f.term(b)
            for k in fa.transfer(b, {key: frozenset()}):
                es = rets.get((b, k), [])
                if not es: es = [e for (bb, kk), l in rets.items() if bb == b for e in l] if any(bb == b for bb, kk in rets) else []
                for e in es:
                    if not res or w.outcome(e, "err") is None: continue
                    c2 = ch
                    for bb, g in pend:
                        if g not in p.fns:
                            if c2 is None: c2 = ("%s:%d" % (f.file, f.blocks[bb][3]), g)
                            continue
                        # a returned call: its own error outcome
                        if any(x[0] == "call" and x[3] == bb for x in subexprs(e)) and e[0] != "agg":
                            if self.summary(g)[1] and c2 is None: c2 = ("%s:%d" % (f.file, f.blocks[bb][3]), g)
                        
                    if c2 is not None:
                        # infeasible limit errors
                        cb = [x for x in subexprs(e) if x[0] == "call" and x[1] in p.fns and self.isresult(x[1])]
                        if cb and self.limited(q, b) and all((self.errors(x) or {"?"}) <= LIMIT for x in cb): continue
                        err.append((b, c2, e))
            if t["k"] == "switch":
                ex = sy.op(t["on"]); vals = tuple(int(v) for v, _ in t["targets"])
                for x, v in [(x, int(v)) for v, x in t["targets"]] + [(t["else"], ("not", vals))]:
                    for k in fa.transfer(b, {key: frozenset()}):
                        fs = fa.refine((ex, v), dict(k))
                        if fs is None: continue
                        c2, p2 = ch, pend
                        for fx in w.expand(fs):
                            o = self.known(fx)
                            if o is None: continue
                            for bb, g in pend:
                                if bb == o[0]:
                                    p2 = p2 - {(bb, g)}
                                    if g not in p.fns:
                                        if o[1] == "ok" and c2 is None: c2 = ("%s:%d" % (f.file, f.blocks[bb][3]), g)
                                    elif self.summary(g)[1 if o[1] == "err" else 0] and c2 is None: c2 = ("%s:%d" % (f.file, f.blocks[bb][3]), g)
                        st.append((x, k, c2, p2))
            else:
                for k in fa.transfer(b, {key: frozenset()}):
                    for x in f.succ(b): st.append((x, k, ch, pend))
        if report is not None: report += err
        return changed, bool(err)
    def known(self, fact):
        """(block of the call, 'ok'|'err') that a fact shows"""
        e, v = fact
        if e[0] == "discr":
            if isinstance(v, tuple): v = 1 if v[1] == (0,) else 0 if v[1] == (1,) else None
            x = e[1]
            if x[0] == "call" and x[1].endswith("::branch") and x[2]: x = x[2][0]
            while x[0] == "call" and x[1].endswith(("::map_err", "::or_else", "::map")) and x[2]: x = x[2][0]
            if x[0] == "call" and v in (0, 1): return x[3], ("ok", "err")[v]
        t = truth(fact)
        if t and t[0][0] == "call" and re.search(r"::(insert|replace|remove)$", t[0][1]): return t[0][3], "ok" if t[1] else "err"
        if t and t[0][0] == "call" and t[0][2] and t[0][2][0][0] == "call":
            n = t[0][1].rsplit("::", 1)[-1]
            if n in ("is_ok", "is_err"): return t[0][2][0][3], "ok" if (n == "is_ok") == t[1] else "err"
        return None
    def limited(self, q, b):
        """every path to b has passed a test of the range against the sheet's limits"""
        k = (q, b)
        if k not in self.lim:
            def pred(fa):
                t = truth(fa)
                if t and t[1] and t[0][0] == "call" and "check_dimensions" in t[0][1]: return True
                return any(o in ("Lt", "Le") and y[0] == "c" and str(y[2]) in ("1048576", "16384", "1048575", "16383") for o, x, y in comparisons(fa))
            self.lim[k] = self.G.passed(q, b, pred)
        return self.lim[k]

SCOPE = re.compile(r"^(worksheet::Worksheet|workbook::Workbook|chartsheet::\w+|chart::\w+|table::\w+|image::\w+|note::\w+|url::\w+|data_validation::\w+)::\w+$")
# methods that store several values of the caller: an error in a later value leaves the earlier ones
SEVERAL = re.compile(r"::(write_(row|column)\w*|(de)?serialize\w*|set_serialize_headers|add_table)$")
def run(c, r):
    p = c.prog(); w = World(p); E = Eff(p, w); n = 0; ev = 0
    for q in sorted(p.fns):
        f = p.fns[q]
        if not SCOPE.match(q) or not (f.pub and f.exported) or not E.isresult(q) or not f.nargs or not f.ty(1).startswith("&mut"): continue
        if re.search(r"::save\w*$", q): continue
        n += 1; rep = []
        E.walk(q, rep); ev += len(E.events(q))
        seen = set()
        several = SEVERAL.search(q)
        for b, ch, e in rep:
            if several and not (isinstance(e, tuple) and e[0] == "agg"): continue
            k = "%s:%s" % (q, ch[1])
            if k in seen: continue
            seen.add(k)
            r.bad(k, "can return an error after having changed the object (%s at %s)" % (ch[1], ch[0]), "%s:%d %s" % (f.file, f.blocks[b][3], q))
        r.check(True, "ok", "")
    r.floor("public methods that return a Result", n, 60)
    r.count("events that change the object", ev)
