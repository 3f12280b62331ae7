"""Validation gates over MIR. (1) Every store of a chart, conditional format,
sparkline, merged range, table or filter in a worksheet is reachable only
through the success edge of that object's validation. (2) Every validator
returns Ok only behind its rules, for every series. (3) Checks that loop over a
collection (duplicate names, overlaps, missing charts) are exhaustive: every
iteration passes the test, the loop runs over the whole collection, and the
store, or the creation of the package, is reachable only through the loop's end;
an error found in a helper is propagated to there."""
RULE = "a store (or the creation of the package) is reachable only through the success edges of its validations"
ASSUMPTIONS = ["Validation rules are the reviewed tables in sa/props/c24.py."]
import re
from sym import *
from mir import *
from ctx import loc
from props.c20 import Gate, inserts, callname, const

W = "worksheet::Worksheet."
def fields(e): return {x[2] for x in subexprs(e) if x[0] == "fld" and "::" in x[2]}
def fieldsx(p, e):
    """the fields an expression reads, also inside the accessors of the crate that it calls"""
    out = fields(e); df = p.direct_fields()
    for n in calls_in(e):
        if n in p.fns and p.fns[n].nargs == 1: out |= df[n][0]
    return out
def calls_in(e): return {x[1] for x in subexprs(e) if x[0] == "call"}
def okcall(fact):
    """the call whose success a fact shows"""
    e, v = fact
    if e[0] == "discr":
        if isinstance(v, tuple): v = 1 if v[1] == (0,) else 0 if v[1] == (1,) else None
        x = e[1]
        if x[0] == "call" and x[1].endswith("::branch") and x[2]: x = x[2][0]
        while x[0] == "call" and x[1].endswith(("::map_err", "::or_else", "::map", "::ok_or", "::ok_or_else")) and x[2]: x = x[2][0]
        if x[0] == "call" and v == 0: return x
        return None
    t = truth(fact)
    if t and t[0][0] == "call" and t[0][2] and t[0][2][0][0] == "call":
        n = t[0][1].rsplit("::", 1)[-1]
        if n == "is_ok" and t[1] or n == "is_err" and not t[1]: return t[0][2][0]
    return None

def boolcall(name, val, *flds):
    """`name(...)` gave val; the arguments mention the fields"""
    def pred(fa):
        t = truth(fa)
        return bool(t) and t[1] == val and t[0][0] == "call" and t[0][1].endswith(name) and all(any(y.endswith(f) for y in fields(t[0])) for f in flds)
    pred.closed = True; return pred
def flag(fld, val):
    def pred(fa):
        t = truth(fa)
        return bool(t) and t[1] == val and t[0][0] == "fld" and t[0][2] == fld
    pred.closed = True; return pred
def ok(name, *flds):
    def pred(fa):
        x = okcall(fa)
        return bool(x) and x[1].endswith(name) and all(any(y.endswith(f) for y in fields(x)) for f in flds)
    pred.closed = True; return pred
def anyof(*ps):
    def pred(fa): return any(p(fa) for p in ps)
    pred.closed = True; return pred
def some(fld):
    """an optional field is set"""
    def pred(fa):
        e, v = fa
        if e[0] == "discr" and e[1][0] == "fld" and e[1][2] == fld: return v == 1 or v == ("not", (0,))
        t = truth(fa)
        if t and t[0][0] == "call" and fld in fields(t[0]):
            n = t[0][1].rsplit("::", 1)[-1]
            return n == "is_none" and not t[1] or n == "is_some" and t[1]
        return False
    pred.closed = True; return pred
def none(fld):
    s = some(fld)
    def pred(fa):
        e, v = fa
        if e[0] == "discr" and e[1][0] == "fld" and e[1][2] == fld: return v == 0 or v == ("not", (1,))
        t = truth(fa)
        if t and t[0][0] == "call" and fld in fields(t[0]):
            n = t[0][1].rsplit("::", 1)[-1]
            return n == "is_none" and t[1] or n == "is_some" and not t[1]
        return False
    pred.closed = True; return pred
def cmpf(op, a, b):
    """comparison of something that mentions field a with field b or constant b"""
    def pred(fa):
        for o, x, y in comparisons(fa):
            if o == op or (o == "Lt" and op == "Le"):
                if any(z.endswith(a) for z in fields(x)) and (isinstance(b, str) and any(z.endswith(b) for z in fields(y)) or isinstance(b, int) and (const(y) == (b if o == op else b + 1))): return True
                if op == "Lt" and o == "Le" and isinstance(b, int) and const(y) == b - 1 and any(z.endswith(a) for z in fields(x)): return True
        return False
    pred.closed = True; return pred
def notvariant(adt, name, p, fld):
    d = p.adts.get(adt); i = [v["discr"] for v in d["variants"] if v["name"] == name] if d else []
    def pred(fa):
        e, v = fa
        if e[0] == "discr" and fld in fields(e[1]) and i:
            k = int(i[0])
            return isinstance(v, int) and v != k or isinstance(v, tuple) and v[0] == "not" and k in v[1]
        t = truth(fa)
        if t and t[0][0] == "call" and re.search(r"::(eq|ne)$", t[0][1]) and fld in fields(t[0]):
            eq = t[0][1].endswith("::eq")
            return any(y[0] == "agg" and y[2] == name or y[0] == "c" and str(name) in str(y) for y in subexprs(t[0])) and t[1] != eq
        for o, x, y in comparisons(fa):
            if o == "Ne" and fld in fields(x) | fields(y) and i and int(i[0]) in (const(x), const(y)): return True
        return False
    pred.closed = True; return pred
def inrange(lo, hi, *flds):
    """(lo..=hi).contains(x), or the two comparisons"""
    def pred(fa):
        t = truth(fa)
        if t and t[1] and t[0][0] == "call" and t[0][1].endswith("::contains") and len(t[0][2]) == 2:
            r0 = t[0][2][0]; cs = [int(y[2]) for y in subexprs(r0) if y[0] == "c" and str(y[2]).lstrip("-").isdigit()]
            incl = "RangeInclusive" in t[0][1] or "RangeInclusive" in str(r0)
            if len(cs) >= 2 and cs[0] == lo and cs[1] == (hi if incl else hi + 1): return all(any(z.endswith(f) for z in fields(t[0][2][1])) for f in flds)
        return False
    pred.closed = True; return pred

def bounded(lo, hi, side, *flds):
    """x >= lo (side 0) or x <= hi (side 1), from a range that contains x or from a comparison"""
    rng = inrange(lo, hi, *flds)
    def pred(fa):
        if rng(fa): return True
        t = truth(fa)
        if not t or t[0][0] != "bin" or len(t[0]) < 4: return False
        (op, a, b), yes = t[0][1:4], t[1]
        FL = {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}; NOT = {"Lt": "Ge", "Ge": "Lt", "Gt": "Le", "Le": "Gt"}
        if op not in FL: return False
        if a[0] == "c": a, b, op = b, a, FL[op]
        if not yes: op = NOT[op]
        if b[0] != "c" or a[0] == "c" or not str(b[2]).lstrip("-").isdigit(): return False
        if not all(any(z.endswith(f) for z in fields(a)) for f in flds): return False
        v = int(b[2])
        if side == 0: return op == "Ge" and v == lo or op == "Gt" and v == lo - 1
        return op == "Le" and v == hi or op == "Lt" and v == hi + 1
    pred.closed = True; return pred

class Loops:
    def __init__(self, p, w, G): self.p = p; self.w = w; self.G = G
    def nexts(self, q, b):
        """blocks of the iterator calls whose item is live at block b, outermost first"""
        out = []
        f = self.p.fns[q]
        for e, v in self.w.facts(q).at(b):
            if e[0] == "discr" and v == 1 and e[1][0] == "call" and e[1][1].endswith("::next"): out.append(e[1][3])
        # inner loops are reachable from outer ones without leaving
        out = sorted(set(out))
        def inside(a, b): return b in self.somereach(f, a)
        return sorted(out, key=lambda n: sum(1 for m in out if m != n and self.dom(f, m, n)))
    def dom(self, f, a, b):
        seen = set(); st = [0]
        while st:
            x = st.pop()
            if x in seen or x == a or f.cleanup(x): continue
            seen.add(x); st += f.succ(x)
        return b not in seen
    def somereach(self, f, a): return set()
    def edges(self, q, nb):
        """(target of the Some edge, None edge pred) of the iterator call in block nb"""
        f = self.p.fns[q]; w = self.w; sy = w.sym(q)
        some_t = None
        seen = set(); st = [f.term(nb)["to"]]
        while st:
            b = st.pop()
            if b in seen: continue
            seen.add(b); t = f.term(b)
            if t["k"] == "switch":
                e = sy.op(t["on"])
                if e[0] == "discr" and e[1][0] == "call" and e[1][3] == nb:
                    for v, x in t["targets"]:
                        if int(v) == 1: some_t = x
                    if some_t is None: some_t = t["else"]
                continue
            st += f.succ(b)
        def done(fa):
            e, v = fa
            return e[0] == "discr" and e[1][0] == "call" and e[1][3] == nb and e[1][1].endswith("::next") and (v == 0 or v == ("not", (1,)))
        return some_t, done
    def iterated(self, q, nb):
        """field and adapters of the iterator of block nb"""
        f = self.p.fns[q]; sy = self.w.sym(q); e = sy.op(f.term(nb)["args"][0])
        seen = set(); es = [e]; ad = set(); fl = set(); rng = []
        while es:
            x = es.pop()
            if x in seen or len(seen) > 60: continue
            seen.add(x)
            for y in subexprs(x):
                if y[0] == "loc":
                    for b in f.reachable():
                        if f.cleanup(b): continue
                        for st in f.stmts(b):
                            if st[0] == "=" and st[1] == [y[1]]: es.append(sy.rv(st[2]))
                        t = f.term(b)
                        if t["k"] == "call" and t["dest"] == [y[1]]: es.append(sy.call(b, t))
                if y[0] == "call": ad.add(y[1].rsplit("::", 1)[-1])
                if y[0] == "fld" and "::" in y[2] and not y[2].startswith("std"): fl.add(y[2])
                if y[0] == "agg" and "Range" in str(y[1]): rng.append(y)
        return fl, ad, rng
    def from_to(self, q, start, goal, pred):
        """every path start -> goal passes an accepting edge"""
        f = self.p.fns[q]; fa = self.w.facts(q); sy = fa.sym
        seen = set(); st = [(start, k) for k in (fa.parts.get(start) or {frozenset(): 0})]
        while st:
            b, key = st.pop()
            if (b, key) in seen or f.cleanup(b) or b not in fa.kcache: continue
            seen.add((b, key))
            if b == goal: return False
            if len(seen) > 6000: return False
            t = f.term(b); keys = list(fa.transfer(b, {key: frozenset()}))
            if t["k"] != "switch":
                st += [(x, k) for x in f.succ(b) for k in keys]; continue
            e = sy.op(t["on"]); vals = tuple(int(v) for v, _ in t["targets"])
            for x, v in [(x, int(v)) for v, x in t["targets"]] + [(t["else"], ("not", vals))]:
                for k in keys:
                    fs = fa.refine((e, v), dict(k))
                    if fs is None or self.G.accepts(fs, pred): continue
                    st.append((x, k))
        return True

WHOLE = {"iter", "iter_mut", "into_iter", "values", "values_mut", "keys", "enumerate", "deref", "deref_mut", "as_slice", "as_mut_slice", "next", "new", "clone", "rev", "as_ref", "to_vec", "zip"}
class Exhaust:
    """loop checks"""
    def __init__(self, p, w, r, G): self.p = p; self.w = w; self.r = r; self.G = G; self.L = Loops(p, w, G)
    def sites(self, variant, root):
        out = []
        for q in sorted(self.p.reach([root])):
            f = self.p.fns.get(q)
            if not f: continue
            for b in f.reachable():
                if f.cleanup(b): continue
                for st in f.stmts(b):
                    if st[0] == "=" and st[2][0] == "agg" and isinstance(st[2][1], dict) and st[2][1].get("adt", "").endswith("XlsxError") and st[2][1].get("variant") == variant: out.append((q, b))
        return out
    def loop(self, q, b, pred, sources, key, what, wh, skip):
        """the check at block b of q runs for every element; returns the fact that holds when it is complete"""
        L = self.L; ns = L.nexts(q, b); ev = pred; good = True
        for i, nb in enumerate(reversed(ns)):
            some_t, done = L.edges(q, nb)
            f = self.p.fns[q]
            if some_t is None: self.r.bad(key + ":loop", "the loop of the check of %s was not understood" % what, wh); return None, False
            if not L.from_to(q, some_t, nb, anyof(ev, skip) if skip else ev):
                self.r.bad(key + ":skipped", "an element can be passed over without the check of %s" % what, wh); good = False
            fl, ad, rng = L.iterated(q, nb)
            bad = {a for a in ad if re.fullmatch(r"skip|take|step_by|filter|filter_map|skip_while|take_while|map_while|chunks|windows|nth|split_at|first|last|peekable|get|split_first|split_last|drain|retain", a)}
            if bad: self.r.bad(key + ":partial", "the check of %s runs over a part of the collection (%s)" % (what, ",".join(sorted(bad))), wh); good = False
            for s in sources:
                s[1].update(fl)
            ev = done
        return ev, good
    def closures(self, fs):
        """facts established by iterator searches with a closure, and those searches"""
        out = set(); es = []
        for e, v in fs:
            t = truth((e, v)); x = None
            if t and t[1] and t[0][0] == "call" and t[0][1].endswith("::any"): x = t[0]
            if e[0] == "discr" and v == 1 and e[1][0] == "call" and re.search(r"::(find|position|find_map)$", e[1][1]): x = e[1]
            if not x or len(x[2]) < 2 or x[2][1][0] != "closure" or x[2][1][1] not in self.p.fns: continue
            res = None
            for b, y, s, k in self.w.ret_defs(x[2][1][1]):
                o = self.w.outcome(y, True)
                if o is None: continue
                z = self.w.expand(s | o); res = z if res is None else res & z
            out |= res or set(); es.append((x, x[2][1][1]))
        return frozenset(out), es
    def check(self, variant, sink, root, sel, neg, want, key, what, wh, skip=None, optional=None):
        """sink = (function, block); sel(facts): is this the site of the check; neg: fact of a passed element"""
        r = self.r; p = self.p; w = self.w
        alls = [(q, b, w.at(q, b)) for q, b in self.sites(variant, root)]
        sites = [(q, b) for q, b, fs in alls if sel(q, b, fs | self.closures(fs)[0])]
        if not sites:
            r.bad(key, "no check of %s was found in the code reachable from %s" % (what, root), wh); return
        oks = []
        for q, b in sites:
            srcs = [(None, set())]; sub = w_of(p, q, b)
            neg1 = neg; fs = w.at(q, b)
            for e, cl in self.closures(fs)[1]:
                # find, any, ...: nothing found means that the closure said no for every element
                no = [(s, k) for bb, x, s, k in w.ret_defs(cl) if w.outcome(x, False) is not None]
                full = all(self.G.accepts(w.facts(cl).refine(next(iter(o), (("c", "bool", "0"), 0)), k) or set() | s, neg) or any(neg(z) for z in w.expand(s | o)) for bb, x, s, k in w.ret_defs(cl) for o in [w.outcome(x, False)] if o is not None)
                if not no or not full: continue
                def neg1(fa, e=e):
                    t = truth(fa)
                    if t and t[0] == e: return not t[1]
                    return fa[0] == ("discr", e) and (fa[1] == 0 or fa[1] == ("not", (1,)))
                neg1.closed = True
                fl = fields(e) | deepfields(p, w, q, e)
                srcs[0][1].update(fl)
                chain = {z.rsplit("::", 1)[-1] for z in calls_in(e) | deepcalls(p, w, q, e)}
                if chain & {"skip", "take", "filter", "step_by", "skip_while", "take_while"}: r.bad(key + ":partial", "the check of %s runs over a part of the collection" % what, sub)
            ev, good = self.loop(q, b, neg1, srcs, key, what, sub, skip)
            if ev is None: return
            # up to the sink
            cur, cev = q, ev; hops = 0; fine = good
            if optional: cev = anyof(ev, optional)
            while cur != sink[0]:
                okb = [rb for rb, e, s, k in w.ret_defs(cur) if w.outcome(e, "ok") is not None]
                if not okb or not all(self.G.passed(cur, rb, cev) for rb in set(okb)):
                    r.bad(key + ":return", "%s can succeed before the check of %s is complete" % (cur, what), sub); fine = False; break
                ups = [c for c in self.G.callers.get(cur, ()) if c == sink[0] or c in p.reach([root])]
                if len(ups) != 1 or hops > 5:
                    r.bad(key + ":callers", "the check of %s is called from %d places" % (what, len(ups)), sub); fine = False; break
                up = ups[0]; cb = [x for x, t in p.fns[up].calls() if cur in p.callees(t) and not p.fns[up].cleanup(x)]
                def called(fa, cur=cur):
                    x = okcall(fa)
                    return bool(x) and (x[1] == cur)
                cev, good = self.loop(up, cb[0], called, srcs, key, what, sub, skip)
                if cev is None: return
                if optional: cev = anyof(cev, optional)
                fine = fine and good; cur = up; hops += 1
            if fine and cur == sink[0] and not self.G.passed(cur, sink[1], cev):
                r.bad(key + ":order", "%s goes on before the check of %s is complete" % (cur, what), wh); fine = False
            missing = [x for x in want if not any(y.endswith(x) for y in srcs[0][1])]
            if fine and missing:
                r.bad(key + ":source", "the check of %s does not run over %s" % (what, ",".join(missing)), sub); fine = False
            oks.append(fine)
        self.r.count("loop checks", 1)

def w_of(p, q, b): f = p.fns[q]; return "%s:%d %s" % (f.file, f.blocks[b][3], q)
def member(fld, lower=False, p=None):
    """the element is not in the set: contains = 0, insert = 1, get = None, ..."""
    def pred(fa):
        e, v = fa
        def about(x): return x[0] == "call" and fld in (fieldsx(p, x) if p else fields(x)) and (not lower or re.search(r"lower|upper|casefold|ignore_ascii_case", str(calls_in(x))))
        t = truth(fa)
        if t and about(t[0]):
            n = t[0][1].rsplit("::", 1)[-1]
            if n in ("contains", "contains_key"): return not t[1]
            if n == "insert": return t[1]
            if n == "is_some": return not t[1]
            if n in ("is_none", "is_ok"): return t[1]
        if e[0] == "discr" and about(e[1]) and re.search(r"::(get|get_mut|insert|replace)$", e[1][1]): return v == 0 or v == ("not", (1,))
        return False
    pred.closed = True; return pred

def run(c, r):
    p = c.prog(); w = World(p); G = Gate(p, w); X = Exhaust(p, w, r, G)
    def wh(q, b): return w_of(p, q, b)
    def gate(q, b, pred, key, msg):
        r.check(G.guarded(q, b, lambda a: pred, {2}), key, msg, wh(q, b))
    def okgate(q, pred, key, msg):
        """q returns Ok only behind pred"""
        if q not in p.fns: r.bad("missing:" + q, "the function was not found"); return
        rets = {b for b, e, s, k in w.ret_defs(q) if w.outcome(e, "ok") is not None}
        r.check(bool(rets) and all(G.passed(q, b, pred) for b in rets), key, msg, loc(p, q))
    # 1. stores
    ST = [("charts", ok("chart::Chart::validate"), "validate", "a chart is stored without having been validated", 1),
          ("conditional_formats", ok("::validate"), "validate", "a conditional format is stored without having been validated", 1),
          ("sparklines", ok("chart::ChartRange::validate", "Sparkline.data_range"), "validate", "a sparkline is stored without its data range having been validated", 2),
          ("sparklines", boolcall("::has_data", True, "Sparkline.data_range"), "set", "a sparkline is stored without a test that its data range is set", 2),
          ("sparklines", anyof(boolcall("::is_1d", True, "Sparkline.data_range"), boolcall("::is_1d", False, "Sparkline.data_range")), "shape", "a sparkline is stored without a test of the shape of its data range", 2),
          ("filter_conditions", flag("worksheet::DefinedName.in_use", True), "in_use", "a filter is stored without a test that the worksheet has an autofilter", 1),
          ("filter_conditions", cmpf("Le", "DefinedName.first_col", None) if 0 else anyof(*[lambda fa, o=o: any(oo == o and (any("DefinedName.first_col" in z for z in fields(x))) for oo, x, y in comparisons(fa)) for o in ("Le",)]), "first", "a filter is stored without a test against the first column of the autofilter", 1),
          ("filter_conditions", anyof(lambda fa: any(o == "Le" and any("DefinedName.last_col" in z for z in fields(y)) for o, x, y in comparisons(fa))), "last", "a filter is stored without a test against the last column of the autofilter", 1),
          ("filter_conditions", anyof(boolcall("::is_empty", False, "FilterCondition.list"), some("filter::FilterCondition.custom1"), flag("filter::FilterCondition.should_match_blanks", True)), "set", "a filter is stored without a test that it has a condition", 1),
          ]
    n = 0
    for fld, pred, nm, msg, k in ST:
        ss = [(q, b) for q, b in inserts(p, w, W + fld)]
        r.floor("places that store in " + fld, len(ss), k)
        for q, b in ss:
            n += 1; gate(q, b, pred, "%s:%s:%s" % (fld, nm, q), msg)
        r.sample("%s: %s at %s" % (fld, nm, ", ".join(q for q, b in ss)))
    for q, val in (("worksheet::Worksheet::add_sparkline", True), ("worksheet::Worksheet::add_sparkline_group", False)):
        if q not in p.fns: r.bad("missing:" + q, "the public method was not found"); continue
        okgate(q, boolcall("::is_1d", val, "Sparkline.data_range"), "sparkline:1d:" + q, "a sparkline is accepted with the wrong shape of its data range")
        if not val:
            def dims(fa):
                return any(o == "Eq" and any("number_of_range_points" in z for z in calls_in(x) | calls_in(y)) for o, x, y in comparisons(fa))
            dims.closed = True
            okgate(q, dims, "sparkline:dims:" + q, "a sparkline group is accepted without a comparison of its size with its data range")
    # the chart that is stored is the one that was validated
    # 2. validators
    CR = "chart::ChartRange."
    V = "chart::ChartRange::validate"
    for pred, nm in ((ok("utility::validate_sheetname", "ChartRange.sheet_name"), "sheet name"),
                     (cmpf("Le", "ChartRange.first_row", "ChartRange.last_row"), "order of rows"), (cmpf("Le", "ChartRange.first_col", "ChartRange.last_col"), "order of columns"),
                     (cmpf("Lt", "ChartRange.last_row", 1048576), "last row"), (cmpf("Lt", "ChartRange.last_col", 16384), "last column")):
        okgate(V, pred, "range:" + nm, "a range is accepted without a test of its " + nm); n += 1
    V = "chart::Chart::validate"; S = "ChartSeries."
    okgate(V, boolcall("::is_empty", False, "Chart.series"), "chart:series", "a chart is accepted without a test that it has series"); n += 1
    TT = "chart::ChartTrendline.trend_type"
    for pred, nm in ((boolcall("::has_data", True, S + "value_range"), "values range"),
                     (ok("chart::ChartRange::validate", S + "value_range"), "validity of the values range"),
                     (anyof(ok("chart::ChartRange::validate", S + "category_range"), boolcall("::has_data", False, S + "category_range")), "validity of the categories range"),
                     (anyof(boolcall("::has_data", True, S + "category_range"), notvariant("chart::ChartType", "Scatter", p, "chart::Chart.chart_group_type")), "categories range of scatter charts"),
                     (anyof(bounded(2, 6, 0), notvariant("chart::ChartTrendlineType", "Polynomial", p, TT)), "lowest order of polynomial trendlines (2)"),
                     (anyof(bounded(2, 6, 1), notvariant("chart::ChartTrendlineType", "Polynomial", p, TT)), "highest order of polynomial trendlines (6)"),
                     (anyof(bounded(2, 4, 0), notvariant("chart::ChartTrendlineType", "MovingAverage", p, TT)), "shortest period of moving averages (2)"),
                     (anyof(bounded(2, 4, 1), notvariant("chart::ChartTrendlineType", "MovingAverage", p, TT)), "longest period of moving averages (4)")):
        n += 1; foreach(p, w, X, r, V, "chart::Chart.series", pred, "chart:" + nm, nm)
    okgate(V, anyof(ok("chart::Chart::validate", "Chart.combined_chart"), none("chart::Chart.combined_chart")), "chart:combined", "a chart is accepted without having validated its combined chart"); n += 1
    for q, pred, nm in (("ConditionalFormatCell", some("conditional_format::ConditionalFormatCell.rule"), "rule"),
                        ("ConditionalFormatText", some("conditional_format::ConditionalFormatText.rule"), "rule"),
                        ("ConditionalFormatFormula", boolcall("::is_empty", False, "ConditionalFormatFormula.formula"), "formula"),
                        ("ConditionalFormatTop", anyof(bounded(1, 1000, 0), bounded(1, 100, 0)), "lowest value"),
                        ("ConditionalFormatTop", anyof(bounded(1, 1000, 1), bounded(1, 100, 1)), "highest value")):
        n += 1; okgate("conditional_format::%s::validate" % q, pred, "cf:" + q, "a %s is accepted without a test of its %s" % (q, nm))
    top(p, w, G, r); icons(p, w, G, r); n += 4
    # every implementation of the trait method is the type's own validator
    im = p.trait_impls.get("conditional_format::ConditionalFormat", {})
    own = {q.split("::")[-2] for q in p.fns if re.fullmatch(r"conditional_format::ConditionalFormat\w+::validate", q)}
    for ty, d in sorted(im.items()):
        q = d.get("validate")
        if not q or q not in p.fns: continue
        tn = ty.split("::")[-1]
        if tn not in own: continue
        n += 1; f = p.fns[q]; fwd = "conditional_format::%s::validate" % tn
        good = q == fwd
        for b, e, s, k in w.ret_defs(q):
            if e[0] == "call" and e[1] == fwd: good = True
        r.check(good or bool(okd(w, q, fwd)), "cf:forward:" + tn, "the trait's validate() of %s does not return the result of its own validate()" % tn, loc(p, q))
    # 3. loop checks of the insert methods
    def sink(fld):
        return [(q, b) for q, b in inserts(p, w, W + fld)]
    def facts_have(*ps): return lambda q, b, fs: all(any(x(fa) for fa in fs) for x in ps)
    def notf(pred0, val):  # the element is in the map
        return pred0
    def incl(fld):
        m = member(W + fld)
        def pred(fa):
            e, v = fa
            t = truth(fa)
            if e[0] == "discr" and e[1][0] == "call" and W + fld in fields(e[1]) and re.search(r"::(get|get_mut)$", e[1][1]): return v == 1 or v == ("not", (0,))
            if t and t[0][0] == "call" and W + fld in fields(t[0]): return t[0][1].endswith("::contains_key") and t[1]
            return False
        return pred
    for fld, cells, var, what in (("merged_ranges", "merged_cells", "MergeRangeOverlaps", "overlapping merged ranges"), ("tables", "table_cells", "TableRangeOverlaps", "overlapping tables")):
        for q, b in sink(fld):
            n += 1
            X.check(var, (q, b), q, lambda h, hb, fs: any(incl(cells)(fa) for fa in fs), member(W + cells), [], "overlap:%s:%s" % (fld, q), what, wh(q, b))
            ranges(p, w, X, r, q, var, "overlap:%s:%s" % (fld, q), what)
            n += 1; marks(p, w, X, r, q, cells, "marks:%s:%s" % (fld, q), what)
    for q in ("worksheet::Worksheet::autofilter", "worksheet::Worksheet::add_table"):
        n += 1; marks(p, w, X, r, q, "cells_with_autofilter", "marks:filter:" + q, "overlapping autofilters", optional=flag("table::Table.show_autofilter", False) if q.endswith("table") else None)
    for q, b in sink("tables"):
        n += 2
        gate(q, b, anyof(*[lambda fa: any(o in ("Ne", "Lt") for o, x, y in comparisons(fa)) and True, flag("table::Table.show_header_row", False)]) if 0 else rowrule(), "table:rows:" + q, "a table is stored without a test that it has a row besides its header")
        X.check("AutofilterRangeOverlaps", (q, b), q, lambda h, hb, fs: any(W + "cells_with_autofilter" in fields(e) for e, v in fs), overlapfree(p, "Worksheet"), [], "overlap:filter:" + q, "overlapping autofilters", wh(q, b), optional=flag("table::Table.show_autofilter", False))
        gate(q, b, ok("table::Table::initialize_columns"), "table:columns:" + q, "a table is stored without its columns having been initialized and checked")
    X.check("TableError", ("table::Table::initialize_columns", None) if 0 else okblock(p, w, "table::Table::initialize_columns"), "table::Table::initialize_columns", lambda h, hb, fs: True, member("table::TableColumn.name", True, p), ["Table.columns"], "table:names", "repeated column names", loc(p, "table::Table::initialize_columns")); n += 1
    for q, b in sink("merged_ranges"):
        n += 1
        def single(fa): return any(o == "Ne" for o, x, y in comparisons(fa) if x[0] == y[0] == "arg") or any(o == "Lt" and x[0] == y[0] == "arg" for o, x, y in comparisons(fa))
        single.closed = False
        r.check(G.passed(q, b, single), "merge:single:" + q, "a merged range is stored without a test that it is more than one cell", wh(q, b))
    # 4. saves: the package is only created after the workbook's checks
    wr = {q for q in p.fns if q.startswith(("packager::", "<packager::"))}
    starts = []
    for q in sorted(p.fns):
        if q in wr or not q.startswith("workbook::"): continue
        f = p.fns[q]
        for b, t in f.calls():
            if f.cleanup(b): continue
            for g in p.callees(t):
                if g in wr and any(any("start_file" in (callname(t2)) for _, t2 in p.fns[h].calls()) for h in p.reach([g]) if h in p.fns):
                    starts.append((q, b)); break
    r.floor("places that start writing the package", len(starts), 1)
    for q, b in starts:
        n += 5
        X.check("SheetnameReused", (q, b), q, lambda h, hb, fs: True, member("worksheet::Worksheet.name", True, p), ["Workbook.worksheets"], "save:sheets", "repeated worksheet names", wh(q, b))
        filled(p, w, X, r, "SheetnameReused", q, "save:sheets", "worksheet::Worksheet.name")
        X.check("TableNameReused", (q, b), q, lambda h, hb, fs: True, member("table::Table.name", True, p), ["Workbook.worksheets", "Worksheet.tables"], "save:tables", "repeated table names", wh(q, b), skip=boolcall("::is_empty", True, "Worksheet.tables"))
        filled(p, w, X, r, "TableNameReused", q, "save:tables", "table::Table.name")
        X.check("ChartError", (q, b), q, lambda h, hb, fs: any(flag("worksheet::Worksheet.is_chartsheet", True)(fa) for fa in fs), anyof(flag("worksheet::Worksheet.is_chartsheet", False), boolcall("::is_empty", False, "Worksheet.charts")), ["Workbook.worksheets"], "save:chartsheets", "chartsheets without a chart", wh(q, b))
        def lookup(fa):
            e, v = fa
            x = okcall(fa)
            if x and re.search(r"worksheet_from_name|::find$|::position$|::ok_or", x[1]): return True
            return e[0] == "discr" and e[1][0] == "call" and re.search(r"::(find|get)$", e[1][1]) and (v == 1 or v == ("not", (0,)))
        lookup.closed = True
        X.check("UnknownWorksheetNameOrIndex", (q, b), q, lambda h, hb, fs: any(e[0] == "discr" and v == 1 and e[1][0] == "call" and e[1][1].endswith("::next") for e, v in fs) and not h.endswith("worksheet_from_name"), lookup, [], "save:ranges", "chart ranges with unknown worksheets", wh(q, b))
        def dn(fa):
            e, v = fa
            t = truth(fa)
            if t and t[0][0] == "call" and t[0][1].endswith("::is_empty") and any("quoted_sheet_name" in z for z in fields(t[0])): return t[1]
            if e[0] == "discr" and e[1][0] == "call" and e[1][1].endswith("::get") and any("quoted_sheet_name" in z for z in fields(e[1])): return v == 1 or v == ("not", (0,))
            return False
        dn.closed = True
        X.check("ParameterError", (q, b), q, lambda h, hb, fs: any(any("quoted_sheet_name" in z for z in fields(e)) for e, v in fs), dn, [], "save:names", "defined names with unknown worksheets", wh(q, b))
    # every public save method goes through the function that checks
    roots_ = [q for q in sorted(p.fns) if re.fullmatch(r"workbook::Workbook::save\w*", q) and p.fns[q].pub and p.fns[q].exported]
    r.floor("public save methods", len(roots_), 3)
    for q in roots_:
        n += 1
        r.check(any(s[0] in p.reach([q]) for s in starts), "save:entry:" + q, "the save method does not reach the checked code", loc(p, q))
        propagate(p, w, r, q, {s[0] for s in starts})
    r.count("rules checked", n)


def rowrule():
    f = flag("table::Table.show_header_row", False)
    def pred(fa):
        if f(fa): return True
        return any(o in ("Ne", "Lt") and x[0] == "arg" and y[0] == "arg" for o, x, y in comparisons(fa))
    pred.closed = False
    return pred

def okblock(p, w, q):
    if q not in p.fns: return (q, 0)
    bs = [b for b, e, s, k in w.ret_defs(q) if w.outcome(e, "ok") is not None]
    return (q, bs[0] if bs else 0)

def okd(w, q, callee):
    """Ok returns of q are behind a success of callee"""
    for b, e, s, k in w.ret_defs(q):
        if w.outcome(e, "ok") is None: continue
        if not any((okcall(fa) or (0, ""))[1] == callee for fa in w.at(q, b)): return False
    return True

def overlapfree(p, kind):
    """the cell has no autofilter, or one of another kind"""
    g = W + "cells_with_autofilter"
    nv0 = notvariant("worksheet::FilterType", kind, p, g)
    def nv(fa): return fa[0][0] == "discr" and not (fa[0][1][0] == "call" and fa[0][1][1].endswith(("::get", "::get_mut"))) and nv0(fa)
    def pred(fa):
        e, v = fa
        if member(g)(fa): return True
        t = truth(fa)
        if t and t[0][0] == "call" and g in fields(t[0]) and t[0][1].endswith("::eq"): return not t[1]
        if t and t[0][0] == "call" and g in fields(t[0]) and t[0][1].endswith("::ne"): return t[1]
        return nv(fa) or any(o == "Ne" and g in fields(x) | fields(y) for o, x, y in comparisons(fa))
    pred.closed = True
    return pred

def foreach(p, w, X, r, q, coll, pred, key, what):
    """pred holds for every element of the collection when q returns Ok"""
    if q not in p.fns: r.bad("missing:" + q, "the function was not found"); return
    f = p.fns[q]; L = X.L
    found = False
    for b, t in f.calls():
        if f.cleanup(b) or not callname(t).endswith("::next"): continue
        fl, ad, rng = L.iterated(q, b)
        if coll not in fl: continue
        some_t, done = L.edges(q, b)
        if some_t is None: continue
        if any(re.fullmatch(r"skip|take|step_by|filter|skip_while|take_while|nth|first|last", a) for a in ad): continue
        if L.from_to(q, some_t, b, pred):
            rets = {x for x, e, s, k in w.ret_defs(q) if w.outcome(e, "ok") is not None}
            if all(X.G.passed(q, x, done) for x in rets): found = True
    if not found:
        # iterator adapters with a closure
        for b, e, s, k in w.ret_defs(q):
            if w.outcome(e, "ok") is None: continue
            for fa in w.at(q, b):
                t = truth(fa)
                x = okcall(fa) or (t[0] if t else None)
                if x and x[0] == "call" and re.search(r"::(any|all|try_for_each|find|position)$", x[1]) and coll in fields(x) | deepfields(p, w, q, x):
                    for y in subexprs(x):
                        if y[0] == "closure" and closurehas(p, w, y[1], pred): found = True
    r.check(found, key, "%s can return Ok without a test of the %s of every element of %s" % (q, what, coll), loc(p, q))

def deepfields(p, w, q, x):
    out = set(); f = p.fns[q]; sy = w.sym(q)
    for y in subexprs(x):
        if y[0] == "loc":
            for b in f.reachable():
                for st in f.stmts(b):
                    if st[0] == "=" and st[1] == [y[1]]: out |= fields(sy.rv(st[2]))
                t = f.term(b)
                if t["k"] == "call" and t["dest"] == [y[1]]: out |= fields(sy.call(b, t))
    return out
def deepcalls(p, w, q, x):
    out = set(); f = p.fns[q]; sy = w.sym(q)
    for y in subexprs(x):
        if y[0] == "loc":
            for b in f.reachable():
                for st in f.stmts(b):
                    if st[0] == "=" and st[1] == [y[1]]: out |= calls_in(sy.rv(st[2]))
                t = f.term(b)
                if t["k"] == "call" and t["dest"] == [y[1]]: out |= calls_in(sy.call(b, t))
    return out
def closurehas(p, w, c, pred):
    f = p.fns.get(c)
    if not f: return False
    fa = w.facts(c)
    for b in f.reachable():
        t = f.term(b)
        if t["k"] == "switch":
            e = fa.sym.op(t["on"])
            for v in [int(x) for x, _ in t["targets"]] + [("not", tuple(int(x) for x, _ in t["targets"]))]:
                if any(pred(z) for z in w.expand({(e, v)})): return True
    for b, e, s, k in w.ret_defs(c):
        for v in (0, 1):
            if any(pred(z) for z in w.expand({(e, v)})): return True
        if e[0] == "call" and any(pred(z) for z in w.expand({(("discr", e), 0)})): return True
    return False

def ranges(p, w, X, r, q, var, key, what):
    """the loops around an overlap check run over the whole inclusive range of the arguments"""
    for h, b in X.sites(var, q):
        for nb in X.L.nexts(h, b):
            fl, ad, rng = X.L.iterated(h, nb)
            if fl & {W + "merged_ranges", W + "table_ranges"}: continue
            bad = [a for a in ad if re.fullmatch(r"skip|take|step_by|filter|nth", a)]
            if bad: r.bad(key + ":partial", "the check of %s runs over a part of the range" % what, w_of(p, h, b))
            e = rangeexpr(p, w, h, nb)
            if e is None: continue
            lo, hi, incl = e
            good = lo[0] in ("arg", "fld") and (hi[0] in ("arg", "fld") and incl or not incl and hi[0] == "bin" and "Add" in hi[1])
            r.check(good and lo != hi, key + ":range", "the check of %s does not run from the first to the last row or column" % what, w_of(p, h, b))

def marks(p, w, X, r, q, cells, key, what, optional=None):
    """every cell of the range is marked as occupied before q returns Ok"""
    if q not in p.fns: r.bad("missing:" + q, "the function was not found"); return
    rs = p.reach([q]); sites = [(h, b) for h, b in inserts(p, w, W + cells) if h in rs]
    if not sites: r.bad(key + ":none", "%s does not mark the cells of the range for the check of %s" % (q, what), loc(p, q)); return
    for h, b in sites:
        f = p.fns[h]; L = X.L; wh = w_of(p, h, b)
        if callname(f.term(b)).endswith("::extend"): continue
        ns = L.nexts(h, b); prev = None
        if not ns: r.bad(key + ":loop", "the cells are not marked in a loop for the check of %s" % what, wh); continue
        for nb in reversed(ns):
            some_t, done = L.edges(h, nb); miss = False
            if prev is None:
                seen = set(); st = [some_t]
                while st:
                    x = st.pop()
                    if x in seen or x == b or f.cleanup(x): continue
                    seen.add(x)
                    if x == nb: miss = True; break
                    st += f.succ(x)
            else: miss = not L.from_to(h, some_t, nb, prev)
            if miss: r.bad(key + ":skipped", "a cell of the range can be passed over without being marked for the check of %s" % what, wh)
            fl, ad, rng = L.iterated(h, nb)
            bad = [a for a in ad if re.fullmatch(r"skip|take|step_by|filter|nth", a)]
            if bad: r.bad(key + ":partial", "only a part of the range is marked for the check of %s" % what, wh)
            e = rangeexpr(p, w, h, nb)
            if e:
                lo, hi, incl = e
                good = lo[0] in ("arg", "fld") and (hi[0] in ("arg", "fld") and incl or not incl and hi[0] == "bin" and "Add" in hi[1])
                r.check(good and lo != hi, key + ":range", "the cells that are marked for the check of %s do not run from the first to the last row or column" % what, wh)
            prev = done
        cur, ev = h, anyof(prev, optional) if optional else prev; hops = 0
        def rets(z): return {x for x, e, s, k in w.ret_defs(z) if w.outcome(e, "ok") is not None} or {x for x in p.fns[z].reachable() if p.fns[z].term(x)["k"] == "return"}
        while ev is not None:
            if not all(X.G.passed(cur, x, ev) for x in rets(cur)):
                r.bad(key + ":return", "%s can succeed without having marked the cells for the check of %s" % (cur, what), wh); break
            if cur == q or hops > 4: break
            ups = [c for c in X.G.callers.get(cur, ()) if c in rs]
            if len(ups) != 1: break
            up = ups[0]; g = p.fns[up]; cb = {x for x, t in g.calls() if cur in p.callees(t) and not g.cleanup(x)}
            seen = set(); st = [0]
            while st:
                x = st.pop()
                if x in seen or x in cb or g.cleanup(x): continue
                seen.add(x); st += g.succ(x)
            if rets(up) & seen and not optional: r.bad(key + ":return", "%s can succeed without having marked the cells for the check of %s" % (up, what), wh)
            cur = up; hops += 1; ev = None if cur == q else ev
            break

def rangeexpr(p, w, q, nb):
    f = p.fns[q]; sy = w.sym(q); e = sy.op(f.term(nb)["args"][0])
    for y in subexprs(e):
        if y[0] == "loc":
            for b in f.reachable():
                if f.cleanup(b): continue
                xs = [sy.rv(st[2]) for st in f.stmts(b) if st[0] == "=" and st[1] == [y[1]]]
                t = f.term(b)
                if t["k"] == "call" and t["dest"] == [y[1]]: xs.append(sy.call(b, t))
                for x in xs:
                    for z in subexprs(x):
                        if z[0] == "call" and "RangeInclusive" in z[1] and z[1].endswith("::new") and len(z[2]) == 2: return z[2][0], z[2][1], True
                        if z[0] == "agg" and "Range" in str(z[1]) and len(z[3]) >= 2: return z[3][0], z[3][1], "Inclusive" in str(z[1])
    return None

def filled(p, w, X, r, var, root, key, fld):
    """the set of names seen receives every name"""
    for q, b in X.sites(var, root):
        f = p.fns[q]; sy = w.sym(q)
        ins = []
        for bb, t in f.calls():
            if f.cleanup(bb) or not re.search(r"HashSet|BTreeSet|HashMap|BTreeMap", callname(t)) or not re.search(r"::(insert|replace)$", callname(t)): continue
            e = sy.call(bb, t)
            if fld in fieldsx(p, e): ins.append((bb, e))
        ok_ = False
        ns = X.L.nexts(q, b)
        for bb, e in ins:
            low = any(re.search("lower|upper", z) for z in calls_in(e[2][1])) if len(e[2]) > 1 else False
            if not low: continue
            if not ns: ok_ = True; continue
            some_t, done = X.L.edges(q, ns[-1])
            # the set is created before the loop
            outer = X.L.edges(q, ns[0])[0]; within = f.reachable(outer) if outer is not None else set()
            root = e[2][0]
            made = [z for z in f.reachable() if not f.cleanup(z) and f.term(z)["k"] == "call" and root[0] == "loc" and f.term(z)["dest"] == [root[1]]]
            if any(z in within for z in made): continue
            # every path round the loop passes the insert
            seen = set(); st = [some_t]; hit = False
            while st:
                x = st.pop()
                if x in seen or x == bb or f.cleanup(x): continue
                seen.add(x)
                if x == ns[-1]: hit = True; break
                st += f.succ(x)
            if not hit: ok_ = True
        r.check(ok_, key + ":set", "a name is not added, in lower case, to the set of names that are in use", w_of(p, q, b))

def top(p, w, G, r):
    q = "conditional_format::ConditionalFormatTop::validate"; fld = "conditional_format::ConditionalFormatTop.rule"
    if q not in p.fns: return
    d = p.adts.get("conditional_format::ConditionalFormatTopRule")
    for v in d["variants"] if d else ():
        hi = 100 if "Percent" in v["name"] else 1000
        pred = anyof(inrange(1, hi), notvariant("conditional_format::ConditionalFormatTopRule", v["name"], p, fld))
        rets = {b for b, e, s, k in w.ret_defs(q) if w.outcome(e, "ok") is not None}
        r.check(bool(rets) and all(G.passed(q, b, pred) for b in rets), "cf:top:" + v["name"], "the value of the rule %s is accepted without a test for 1..%d" % (v["name"], hi), loc(p, q))

def icons(p, w, G, r):
    q = "conditional_format::ConditionalFormatIconSet::validate"
    d = p.adts.get("conditional_format::ConditionalFormatIconType")
    if q not in p.fns or not d: r.bad("missing:icons", "the validator of icon sets was not found"); return
    fld = "conditional_format::ConditionalFormatIconSet.icon_type"; k = 0
    for v in d["variants"]:
        n = {"Thr": 3, "Fou": 4, "Fiv": 5}.get(v["name"][:3])
        if not n: r.bad("icons:" + v["name"], "the number of icons of %s is not known" % v["name"]); continue
        def num(fa, n=n):
            if any(o == "Eq" and n in (const(x), const(y)) and "conditional_format::ConditionalFormatIconSet.icons" in fields(x) | fields(y) for o, x, y in comparisons(fa)): return True
            e, vv = fa
            return vv == n and "conditional_format::ConditionalFormatIconSet.icons" in fields(e)
        pred = anyof(num, notvariant("conditional_format::ConditionalFormatIconType", v["name"], p, fld)); k += 1
        rets = {b for b, e, s, kk in w.ret_defs(q) if w.outcome(e, "ok") is not None}
        r.check(bool(rets) and all(G.passed(q, b, pred) for b in rets), "cf:icons:" + v["name"], "an icon set %s is accepted without a test that it has %d icons" % (v["name"], n), loc(p, q))
    r.floor("icon types", k, 17)

def propagate(p, w, r, root, goals):
    """Ok of a save method only after Ok of the function that packages"""
    seen = set(); st = [root]
    while st:
        q = st.pop()
        if q in seen or q in goals: continue
        seen.add(q); f = p.fns[q]
        nxt = [(b, g) for b, t in f.calls() if not f.cleanup(b) for g in p.callees(t) if g in p.fns and (g in goals or goals & set(p.reach([g])))]
        for b, e, s, k in w.ret_defs(q):
            if w.outcome(e, "ok") is None: continue
            if e[0] == "call" and any(e[1] == g for _, g in nxt): continue
            fs = w.at(q, b)
            r.check(any((okcall(fa) or (0, ""))[1] in {g for _, g in nxt} for fa in fs), "save:result:" + q, "%s can return Ok without the success of the save" % q, loc(p, q))
        st += [g for _, g in nxt if not g.startswith(("packager::", "worksheet::"))]
