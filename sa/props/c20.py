"""Guard analysis over MIR. A table gives Excel's limits for the texts and lists
that users supply. For each entry the places where such a value is stored are
found (assignments to the object's fields of a value derived from the parameter,
cell records built from a string, insertions into the worksheet's lists). Rule:
a stored value is only reachable through a branch edge on which a comparison
says that the number of characters of that value is at most the limit, or on
which a call that performs this comparison has succeeded; the comparison counts
characters (not bytes), uses exactly the limit, and no other comparison of the
same text with a smaller limit exists. Naming rules (forbidden characters, first
and last characters, blank names) are decided the same way. When the function
that stores does not compare, all its callers must."""
RULE = "a store of user text is reachable only through a comparison of its character count with exactly Excel's limit"
ASSUMPTIONS = ["char counts stand for Excel's character count (Excel counts UTF-16 units)."]
import re
from sym import *
from mir import *
from ctx import loc

# (public method, index of the text parameter, limit)
SETTERS = [
    ("button::Button::set_alt_text", 2, 255), ("chart::Chart::set_alt_text", 2, 255), ("image::Image::set_alt_text", 2, 255),
    ("note::Note::set_alt_text", 2, 255), ("shape::Shape::set_alt_text", 2, 255), ("button::Button::set_caption", 2, 255),
    ("data_validation::DataValidation::set_input_title", 2, 32), ("data_validation::DataValidation::set_error_title", 2, 32),
    ("data_validation::DataValidation::set_input_message", 2, 255), ("data_validation::DataValidation::set_error_message", 2, 255),
    ("data_validation::DataValidation::allow_list_strings", 2, 255),
    ("note::Note::set_author", 2, 52), ("worksheet::Worksheet::set_default_note_author", 2, 52),
    ("worksheet::Worksheet::set_header", 2, 255), ("worksheet::Worksheet::set_footer", 2, 255),
]
STRING_CELLS = {"String": "string", "InlineString": "string", "RichString": "raw_string"}
FORBID_SHEET = set("*?:[]\\/"); FORBID_NAME = set(" ,/*[]:\"'")

def callname(t): return t.get("res") or t.get("f") or ""
def counted(e):
    """('chars'|'bytes'|'items', text) of a length expression"""
    if e[0] == "cast": return counted(e[1]) if isinstance(e[1], tuple) else None
    if e[0] != "call" or not e[2]: return None
    m = e[1].rsplit("::", 1)[-1]
    if m == "count":
        x = e[2][0]
        if x[0] == "call" and x[1].endswith("::chars"): return ("chars", x[2][0])
        if x[0] == "call" and x[1].endswith("::bytes"): return ("bytes", x[2][0])
        if x[0] == "call" and x[1].endswith("::encode_utf16"): return ("chars", x[2][0])
        return ("items", x)
    if m == "len":
        x = e[2][0]
        if x[0] == "call" and x[1].endswith("::collect") and "chars" in str(x[2]): return ("chars", x[2][0])
        return ("bytes" if re.search(r"str|String", e[1]) else "items", x)
    return None

def const(e):
    if e[0] == "c":
        try: return int(e[2])
        except (ValueError, TypeError): return None
    return None

def bounds(fact):
    """[(unit, text, inclusive upper bound)] that a fact establishes"""
    out = []
    for op, a, b in comparisons(fact):
        k = const(b); c = counted(a)
        if k is None or c is None: continue
        if op == "Le": out.append((c[0], c[1], k))
        if op == "Lt": out.append((c[0], c[1], k - 1))
    return out

class Gate:
    def __init__(self, p, w): self.p = p; self.w = w; self.memo = {}; self.callers = p.callers()
    def summary(self, g, want, pred):
        """g has the outcome only after passing an edge that satisfies pred (predicates that do not name parameters)"""
        if not getattr(pred, "closed", False): return False
        k = (g, want, pred)
        if k in self.memo: return self.memo[k]
        self.memo[k] = False
        ts = self.w.targets(g)
        if not ts: return False
        ok = True
        for h in ts:
            rets = [b for b, e, s, key in self.w.ret_defs(h) if self.w.outcome(e, want) is not None]
            if not rets or not all(self.passed(h, b, pred) for b in set(rets)): ok = False
        self.memo[k] = ok
        return ok
    def passed(self, q, sink, pred):
        """the sink block is reachable only through an accepting edge"""
        if any(pred(fa) for fa in self.w.at(q, sink)): return True
        f = self.p.fns[q]; fa = self.w.facts(q); sy = fa.sym
        seen = set(); st = [(0, frozenset())]
        while st:
            b, key = st.pop()
            if (b, key) in seen or f.cleanup(b) or b not in fa.kcache: continue
            seen.add((b, key))
            if b == sink: return False
            if len(seen) > 5000: return False
            t = f.term(b)
            keys = list(fa.transfer(b, {key: frozenset()}))
            if t["k"] != "switch":
                st += [(x, k) for x in f.succ(b) for k in keys]; continue
            e = sy.op(t["on"]); vals = tuple(int(v) for v, _ in t["targets"])
            for x, v in [(x, int(v)) for v, x in t["targets"]] + [(t["else"], ("not", vals))]:
                for k in keys:
                    fs = fa.refine((e, v), dict(k))
                    if fs is None: continue
                    if self.accepts(fs, pred): continue
                    st.append((x, k))
        return True
    def accepts(self, fs, pred):
        facts = self.w.expand(fs)
        return any(pred(x) for x in facts) or any(self.summary(g, want, pred) for x in facts for g, args, want in self.w.call_outcomes(x))
    def guarded(self, q, sink, mk, args, depth=0):
        """at the sink, or at every call site that leads to it. mk(args): predicate for the given parameters"""
        if self.passed(q, sink, mk(args)): return True
        f = self.p.fns[q]
        if depth > 3 or f.exported and f.pub and not f.path.startswith("{"): return False
        cs = self.callers.get(q, ())
        if not cs: return False
        for c in cs:
            g = self.p.fns[c]
            if "{closure" in c: return False
            for b, t in g.calls():
                if g.cleanup(b) or q not in self.p.callees(t): continue
                na = set()
                for i in args:
                    if isinstance(i, int) and i - 1 < len(t["args"]):
                        na |= roots(self.w.sym(c).op(t["args"][i - 1]))
                if not self.guarded(c, b, mk, na, depth + 1): return False
        return True

def roots(e): return {x[1] for x in subexprs(e) if x[0] == "arg"} | {("fld", x[2]) for x in subexprs(e) if x[0] == "fld" and "::" in x[2]}
def hasloc(e): return any(x[0] == "loc" for x in subexprs(e))

def limit(n, units=("chars",)):
    def mk(args):
        def pred(fa):
            for u, x, k in bounds(fa):
                if u in units and k == n and (not args or roots(x) & set(args) or hasloc(x)): return True
            return False
        pred.closed = not args
        return pred
    return mk

def selfstores(p, w, f, arg, deep=0):
    """blocks that store a value derived from parameter `arg` into the object (or return an object holding it)"""
    out = set(); sy = w.sym(f.path)
    def der(e): return any(x == ("arg", arg) for x in subexprs(e))
    for b in f.reachable():
        if f.cleanup(b): continue
        for st in f.stmts(b):
            if st[0] != "=" or len(st[1]) < 2 or not any(isinstance(x, list) and is_field(x) and x[0] in p.adts for x in st[1][1:]): continue
            if der(sy.rv(st[2])): out.add(b)
        t = f.term(b)
        if t["k"] == "call" and any(isinstance(x, list) and is_field(x) and x[0] in p.adts for x in t["dest"][1:]) and der(sy.call(b, t)): out.add(b)
        if t["k"] == "call":
            for g in p.callees(t):
                if g in p.fns and t["args"] and "p" in t["args"][0]:
                    e0 = sy.op(t["args"][0])
                    if e0 == ("arg", 1) and any(der(sy.op(x)) for x in t["args"][1:]) and re.search(r"Self|&mut|^" + re.escape(p.fns[g].ty(1)), p.fns[g].ty(1)): out.add(b)
    return out

def run(c, r):
    p = c.prog(); w = World(p); G = Gate(p, w); n = 0
    def wh(q, b): f = p.fns[q]; return "%s:%d %s" % (f.file, f.blocks[b][3], q)
    for q, a, lim in SETTERS:
        if q not in p.fns: r.bad("missing:" + q, "the public method was not found"); continue
        f = p.fns[q]; mk = limit(lim)
        ss = selfstores(p, w, f, a)
        if not ss:
            # derived through an opaque local: every changed object
            ss = {b for b in f.reachable() if not f.cleanup(b) for st in f.stmts(b) if st[0] == "=" and len(st[1]) > 1 and any(isinstance(x, list) and is_field(x) and x[0] in p.adts for x in st[1][1:])}
        r.check(bool(ss), "store:" + q, "no store of the text was found in this method", loc(p, q))
        for b in sorted(ss):
            n += 1
            r.check(gate_into(G, p, w, q, b, mk, {a}), "limit:" + q, "the text is stored without a comparison of its character count with %d" % lim, wh(q, b))
        tight(p, w, r, q, lim, wh)
        r.sample("%s: at most %d characters" % (q, lim))
    # cells
    ncell = 0
    for q in sorted(p.fns):
        f = p.fns[q]
        if " as std::" in q: continue
        for b in f.reachable():
            if f.cleanup(b): continue
            for st in f.stmts(b):
                if st[0] != "=" or st[2][0] != "agg" or not isinstance(st[2][1], dict) or st[2][1].get("adt") != "worksheet::CellType": continue
                v = st[2][1].get("variant")
                if v not in STRING_CELLS: continue
                e = w.sym(q).rv(st[2]); x = dict(zip(e[4], e[3])).get(STRING_CELLS[v])
                if x is None: r.bad("cell:%s" % v, "the text field of a %s cell was not found" % v, wh(q, b)); continue
                ncell += 1; n += 1
                ra = {y for y in roots(x) if isinstance(y, int) and y != 1}
                if not ra and not hasloc(x) and x[0] == "c": continue
                r.check(G.guarded(q, b, limit(32767), ra or roots(x)), "cell:%s:%s" % (q, v), "a %s cell is built without a comparison of the character count of its text with 32767" % v, wh(q, b))
                tight(p, w, r, q, 32767, wh)
    r.floor("string cell constructions", ncell, 3)
    # notes
    for q, b in inserts(p, w, "worksheet::Worksheet.notes"):
        n += 1
        def mk(args):
            def pred(fa): return any(u == "chars" and k == 32713 and any(y[0] == "fld" and y[2] == "note::Note.text" for y in subexprs(x)) for u, x, k in bounds(fa))
            pred.closed = True
            return pred
        pr = mk(()); r.check(G.guarded(q, b, lambda a: pr, {2}), "note:" + q, "a note is stored without a comparison of its character count with 32713", wh(q, b))
    # urls
    def field(fld, k0):
        def pred(fa): return any(u == "chars" and k == k0 and any(y[0] == "fld" and y[2] == fld for y in subexprs(x)) for u, x, k in bounds(fa))
        pred.closed = True
        return pred
    preds = [("link", field("url::Url.link", 2080), 2080), ("anchor", field("url::Url.anchor", 2080), 2080), ("tool_tip", field("url::Url.tool_tip", 255), 255)]
    def validated(q, b): return any(y[0] == "fld" and y[2].endswith(".url") and "Worksheet" not in y[2] for x in p.fns[q].term(b)["args"][1:] for y in subexprs(w.sym(q).op(x)))
    sinks = [x for x in inserts(p, w, "worksheet::Worksheet.hyperlinks") if not validated(*x)] + list(urlstores(p, w))
    r.floor("places that store a url", len(sinks), 3)
    for q, b in sinks:
        for nm, pr, lim in preds:
            n += 1
            r.check(G.guarded(q, b, lambda a: pr, {2}), "url:%s:%s" % (q, nm), "a url is stored without a comparison of the character count of its %s with %d" % (nm, lim), wh(q, b))
    # names
    def nameset(chars, what):
        def mk(args):
            def pred(fa):
                x = truth(fa)
                if not x or x[1] or x[0][0] != "call": return False
                nme, a = x[0][1], x[0][2]
                if what == "forbid":
                    if nme.endswith("::any") and len(a) == 2 and a[1][0] == "closure": return closurechars(p, w, a[1][1]) == chars
                    if not nme.endswith(("::contains",)) or len(a) < 2: return False
                    got = {chr(const(y)) if const(y) is not None and y[1] == "char" else y[2] for y in subexprs(a[1]) if y[0] == "c" and y[2] is not None} if a[1][0] != "closure" else closurechars(p, w, a[1][1])
                    got = {z for z in got if isinstance(z, str)}
                    s = set("".join(got)) 
                    return s == chars
                if what == "blank": return nme.endswith("::is_empty")
                if what in ("starts_with", "ends_with"): return nme.endswith("::" + what) and a[1][0] == "c" and str(a[1][2]) in ("39", "'")
                return False
            pred.closed = True
            return pred
        m = mk(()); return lambda a: m
    stores = list(fieldstores(p, w, "worksheet::Worksheet.name"))
    r.floor("places that store a sheet name", len(stores), 1)
    for q, b in stores:
        n += 5
        r.check(G.guarded(q, b, sameunit(31), {2}), "sheet:length:" + q, "a sheet name is stored without a comparison of its character count with 31", wh(q, b))
        r.check(G.guarded(q, b, nameset(FORBID_SHEET, "forbid"), {2}), "sheet:characters:" + q, "a sheet name is stored without having been checked for the characters %s" % "".join(sorted(FORBID_SHEET)), wh(q, b))
        r.check(G.guarded(q, b, nameset(None, "blank"), {2}), "sheet:blank:" + q, "a sheet name is stored without having been checked for being blank", wh(q, b))
        for k in ("starts_with", "ends_with"): r.check(G.guarded(q, b, nameset(None, k), {2}), "sheet:%s:%s" % (k, q), "a sheet name is stored without having been checked for an apostrophe (%s)" % k, wh(q, b))
    for q in ("utility::check_sheet_name",):
        if q not in p.fns: r.bad("missing:" + q, "the public function was not found"); continue
        for b, e, s, key in w.ret_defs(q):
            pass
    # vba names
    vb = [(q, b) for fl in ("worksheet::Worksheet.vba_codename", "workbook::Workbook.vba_codename") for q, b in fieldstores(p, w, fl)]
    r.floor("places that store a VBA name", len(vb), 2)
    for q, b in vb:
        n += 1
        r.check(G.guarded(q, b, sameunit(31), {2}), "vba:length:" + q, "a VBA name is stored without a comparison of its character count with 31", wh(q, b))
        r.check(G.guarded(q, b, nameset(None, "blank"), {2}), "vba:blank:" + q, "a VBA name is stored without having been checked for being blank", wh(q, b))
        def alln(fa):
            x = truth(fa)
            return bool(x) and x[0][0] == "call" and (x[1] and x[0][1].endswith("::all") or not x[1] and x[0][1].endswith("::any"))
        alln.closed = True
        r.check(G.guarded(q, b, lambda a: alln, {2}), "vba:characters:" + q, "a VBA name is stored without having been checked for characters other than letters, digits and underscores", wh(q, b))
        def alpha(fa):
            x = truth(fa)
            return bool(x) and x[1] and x[0][0] == "call" and x[0][1].endswith("::is_alphabetic")
        alpha.closed = True
        r.check(G.guarded(q, b, lambda a: alpha, {2}), "vba:first:" + q, "a VBA name is stored without having been checked for starting with a letter", wh(q, b))
    # defined names
    dn = [(q, b) for q, b in inserts(p, w, "workbook::Workbook.user_defined_names")]
    r.floor("places that store a user defined name", len(dn), 1)
    for q, b in dn:
        n += 1
        r.check(G.guarded(q, b, nameset(FORBID_NAME, "forbid"), {2}), "name:characters:" + q, "a defined name is stored without having been checked for the forbidden characters", wh(q, b))
    # page breaks and outline levels
    for fl in ("worksheet::Worksheet.horizontal_breaks", "worksheet::Worksheet.vertical_breaks"):
        ss = list(fieldstores(p, w, fl))
        r.floor("stores of " + fl, len(ss), 1)
        for q, b in ss:
            n += 1
            pr = limit(1023, ("items",))(())
            r.check(G.guarded(q, b, lambda a: pr, {2}), "breaks:" + q, "page breaks are stored without a comparison of their number with 1023", wh(q, b))
    for fl in ("worksheet::RowOptions.level", "worksheet::ColOptions.level"):
        ss = list(fieldstores(p, w, fl))
        r.floor("stores of " + fl, len(ss), 1)
        for q, b in ss:
            n += 1
            vals = [w.sym(q).rv(st[2]) for st in p.fns[q].stmts(b) if st[0] == "=" and any(isinstance(x, list) and is_field(x) and fkey(x) == fl for x in st[1][1:])]
            def lv(fa): return any(op == "Le" and const(y) == 7 or op == "Lt" and const(y) == 8 for op, x, y in comparisons(fa) if const(y) is not None and (x in vals or hasloc(x)))
            r.check(G.guarded(q, b, lambda a: lv, {2}), "level:" + q, "an outline level is stored without a comparison with 7", wh(q, b))
    r.floor("stores of limited values", n, 40)

def sameunit(k0):
    def pred(fa): return any(u == "chars" and k == k0 for u, x, k in bounds(fa))
    pred.closed = True
    return lambda a: pred

def gate_into(G, p, w, q, b, mk, args):
    """gated here, or the store is a call whose own stores are gated"""
    if G.passed(q, b, mk(args)): return True
    f = p.fns[q]; t = f.term(b)
    if t["k"] != "call": return False
    for g in p.callees(t):
        if g not in p.fns: return False
        for i, x in enumerate(t["args"]):
            if i and roots(w.sym(q).op(x)) & args:
                ss = selfstores(p, w, p.fns[g], i + 1)
                if not ss or not all(gate_into(G, p, w, g, s, mk, {i + 1}) for s in ss): return False
                return True
    return False

def tight(p, w, r, q, lim, wh):
    """no comparison of a text length with another limit"""
    f = p.fns[q]
    for b in f.reachable():
        if f.cleanup(b) or f.term(b)["k"] != "switch": continue
        e = w.sym(q).op(f.term(b)["on"])
        for v in (0, 1):
            for u, x, k in bounds((e, v)):
                if u != "items" and 0 < k and (k != lim or u == "bytes"):
                    r.bad("other:%s" % q, "a text is compared with a limit of %d %s; the limit is %d characters" % (k, u, lim), wh(q, b))

def inserts(p, w, fld):
    """calls that add to a container field"""
    for q in sorted(p.fns):
        f = p.fns[q]
        if " as std::" in q: continue
        for b, t in f.calls():
            if f.cleanup(b) or not re.search(r"::(insert|push|or_insert|or_insert_with|entry|extend|push_back)$", callname(t)) or not t["args"]: continue
            e = w.sym(q).op(t["args"][0])
            last = e
            while last[0] == "call" and last[2] and re.search(r"::(deref_mut|as_mut|borrow_mut)$", last[1]): last = last[2][0]
            if last[0] == "fld" and last[2] == fld: yield q, b

def fieldstores(p, w, fld):
    """non-constant, non-generated values stored to a field"""
    for q in sorted(p.fns):
        f = p.fns[q]
        if " as std::" in q: continue
        for b in sorted(f.reachable()):
            if f.cleanup(b): continue
            es = []
            for st in f.stmts(b):
                if st[0] == "=" and any(isinstance(x, list) and is_field(x) and fkey(x) == fld for x in st[1][1:]): es.append(w.sym(q).rv(st[2]))
            t = f.term(b)
            if t["k"] == "call" and any(isinstance(x, list) and is_field(x) and fkey(x) == fld for x in t["dest"][1:]): es.append(w.sym(q).call(b, t))
            for e in es:
                if not any(x[0] in ("arg", "loc") for x in subexprs(e)): continue
                if any(x[0] == "call" and x[1].endswith("fmt::format") for x in subexprs(e)) : continue
                yield q, b

def urlstores(p, w):
    """stores of a url into an object (image, shape)"""
    for a, d in sorted(p.adts.items()):
        for v in d["variants"]:
            for x in v["fields"]:
                if re.search(r"\burl::Url\b", x[1]) and a != "url::Url" and not a.startswith("worksheet::Worksheet"):
                    yield from fieldstores(p, w, "%s.%s" % (a, x[0]))

def closurechars(p, w, c):
    out = set(); f = p.fns.get(c)
    if not f: return out
    for b in f.reachable():
        for st in f.stmts(b):
            if st[0] == "=":
                for o in rv_operands(st[2]):
                    if o.get("c") == "int" and "char" in str(o): out.add(chr(int(o.get("v", 0))))
        t = f.term(b)
        if t["k"] == "switch" and f.ty(2) == "char": out |= {chr(int(v)) for v, _ in t["targets"]}
    return out
