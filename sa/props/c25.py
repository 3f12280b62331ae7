"""Where the parts of every written cell come from, over MIR. For every function
of the crate the set of cells that it writes is composed bottom up over the call
graph: for each cell its kind, its row and column, its value fields and its
format, as terms over the arguments of the function (sa/terms.py: what the value
is derived from and every operation applied on the way, with lossy casts,
arithmetic and mutation recorded). Rules, for every implementation of the cell
data trait, every public write method and every serializer method: the cell has
the kind that belongs to the type; its row and column are the arguments, or step
by one per item in the array writers; its value is derived from the data argument
by the conversions of that type only; the format is passed on; every path that
returns success has written the cell; the generic and the specific route of a
date type use the same conversion."""
RULE = "kind, row, column, value and format of every cell written by a generic, specific or serializer route derive unchanged from the caller's arguments"
ASSUMPTIONS = ["The numerical conversion of dates and times is C40, the format indices are C10 and C12, NaN and infinities are C17."]
import re
from sym import *
from mir import *
from terms import *
from ctx import loc
from props.c12 import must
from props.c20 import Gate, callname
from props.c24 import Loops, w_of

W = "worksheet::Worksheet."
STR = {"String", "InlineString"}
KINDS = {"str": STR, "std::string::String": STR, "std::borrow::Cow<'_, str>": STR, "bool": {"Boolean"}, "rust_decimal::Decimal": {"Number"},
         "datetime::ExcelDateTime": {"DateTime"}, "chrono::NaiveDateTime": {"DateTime"}, "chrono::NaiveDate": {"DateTime"}, "chrono::NaiveTime": {"DateTime"},
         "formula::Formula": {"Formula", "ArrayFormula"}, "url::Url": STR | {"hyperlink"}}
for n in ("u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "f32", "f64"): KINDS[n] = {"Number"}
PUBLIC = {"number": {"Number"}, "string": STR, "rich_string": {"RichString"}, "formula": {"Formula", "ArrayFormula"}, "array_formula": {"ArrayFormula"},
          "dynamic_array_formula": {"ArrayFormula"}, "dynamic_formula": {"ArrayFormula"}, "blank": {"Blank"}, "boolean": {"Boolean"},
          "url": STR | {"hyperlink"}, "url_with_text": STR | {"hyperlink"}, "url_with_options": STR | {"hyperlink"},
          "datetime": {"DateTime"}, "date": {"DateTime"}, "time": {"DateTime"},
          "": {"generic"}, "row": {"generic"}, "column": {"generic"}, "row_matrix": {"generic"}, "column_matrix": {"generic"}}
STEP = {"row": "col", "column": "row", "row_matrix": "both", "column_matrix": "both"}
CONV = {"Number": r"::to_f64$", "DateTime": r"::to_excel(_serial_date)?$|::chrono_\w+_to_excel$|^datetime::\w+::to_excel", "RichString": r"::get_rich_string$", "String": r"Url::set_(text|tip)$", "InlineString": r"Url::set_(text|tip)$", "hyperlink": r"Url::set_(text|tip)$"}
MUT = {"hyperlink": r"Url::initialize$", "String": r"Url::initialize$", "InlineString": r"Url::initialize$"}
SPECIAL = {W + "nan", W + "infinity", W + "neg_infinity"}
SLOT = {"DateTime": ("number",), "Number": ("number",), "Boolean": ("boolean",), "String": ("string",), "InlineString": ("string",), "RichString": ("string", "raw_string"), "Formula": ("formula", "result"), "ArrayFormula": ("formula", "result"), "hyperlink": ("url",), "generic": ("data",), "Blank": ()}
PATHS = {("Formula", "formula"): "formula::Formula.formula_string", ("Formula", "result"): "formula::Formula.result", ("ArrayFormula", "formula"): "formula::Formula.formula_string", ("ArrayFormula", "result"): "formula::Formula.result"}

def base_type(t):
    t = re.sub(r"^(&('\w+ )?(mut )?)+", "", t)
    return "str" if t == "str" else t

def special(e):
    s = e.val.get("string")
    return e.name in STR and s and all(any(x in SPECIAL for x in path) for b, path, o in s)
def isrange(ts): return any(b[0] == "range" for b, pa, o in ts)
def pad(e):
    n = e.val.get("number") or e.val.get("string")
    return (isrange(e.row) or isrange(e.col)) and (e.name == "Blank" or special(e) or n is not None and all(b[0] == "c" for b, pa, o in n))
def plain(o): return not any(x[0] in ("bin", "un", "cast", "mut", "part", "call", "index", "sub", "discr") for x in o)

def run(c, r):
    p = c.prog(); w = World(p); X = Cells(p, w); G = Gate(p, w); L = Loops(p, w, G)
    ctx = (p, w, X, G, L, r)
    nimpl = 0; convs = {}
    for q in sorted(p.fns):
        f = p.fns[q]
        im = f.impl or {}
        if "{closure" in q or im.get("trait") != "worksheet::IntoExcelData" or im.get("derived"): continue
        fmt = 5 if f.nargs == 5 else None
        ty = base_type(im["self"])
        if ty.startswith(("std::option::Option", "std::result::Result")): kinds = {"generic"}
        elif ty in KINDS: kinds = KINDS[ty]
        else: r.notes.append("the type %s is not in the table" % ty); continue
        nimpl += 1
        rules(ctx, q, kinds, 3, 4, [1], fmt, "impl:" + q, None, optional=ty.startswith("std::option::Option"))
        if kinds == {"DateTime"}:
            for e in X.events(q):
                for b, pa, o in e.val.get("number", ()):
                    for x in o:
                        if x[0] == "call": convs.setdefault(ty, {}).setdefault(final(p, X, x[1], im["self"]), q)
    r.floor("implementations of the cell data trait", nimpl, 46)
    # the specific route of the date types
    nd = 0
    for q in sorted(p.fns):
        f = p.fns[q]; im = f.impl or {}
        if "IntoExcelDateTime" not in str(im.get("trait")) or "{closure" in q: continue
        ty = base_type(im["self"]); nd += 1
        cs = set()
        for b, pa, o in X.local(q, 0):
            r.check(b == ("arg", 1) and not any(x[0] in ("bin", "un", "cast", "mut") for x in o), "date:" + q, "the serial number of a %s is changed on the way" % ty, loc(p, q))
            cs |= {final(p, X, x[1], im["self"]) for x in o if x[0] == "call"}
        for x in sorted(cs): convs.setdefault(ty, {}).setdefault(x, q)
    r.floor("date and time types", nd, 8)
    for ty, d in sorted(convs.items()):
        r.check(len(d) == 1, "conv:" + ty, "the generic and the specific writers convert %s by different functions (%s)" % (ty, ", ".join(sorted(x.rsplit("::", 1)[-1] for x in d))), "; ".join(sorted(loc(p, q) for q in d.values())))
    # public methods
    npub = 0
    for q in sorted(p.fns):
        f = p.fns[q]
        if not q.startswith("worksheet::Worksheet::write") or not f.pub or "{closure" in q: continue
        m = q.rsplit("::", 1)[-1][6:]
        stem = m[:-len("with_format")].rstrip("_") if m.endswith("with_format") else m
        if stem not in PUBLIC:
            r.notes.append("the public method %s is not in the table" % q); continue
        names = {f.lname(i): i for i in range(2, f.nargs + 1)}
        ro = names.get("row") or names.get("first_row") or next((i for i in range(2, f.nargs + 1) if f.ty(i) == "u32"), None)
        co = names.get("col") or names.get("first_col") or next((i for i in range(2, f.nargs + 1) if f.ty(i) == "u16"), None)
        fm = [i for i in range(2, f.nargs + 1) if "format::Format" in f.ty(i) and "(" not in f.ty(i)]
        data = [i for i in range(2, f.nargs + 1) if i not in fm and f.ty(i) not in ("u32", "u16")]
        npub += 1
        rules(ctx, q, PUBLIC[stem], ro, co, data, fm[0] if fm else None, "pub:" + q, STEP.get(stem))
        if stem.startswith("dynamic"):
            yes = lambda b: b == ("c", "bool", "1") or b[0] == "c" and b[2] in ("1", "true")
            r.check(all(all(yes(b) or "has_dynamic_function" in str((b, pa)) for b, pa, o in e.val.get("is_dynamic", ())) and any(yes(b) for b, pa, o in e.val.get("is_dynamic", ((("c", "bool", "1"), (), 0),))) for e in X.events(q) if e.name == "ArrayFormula"), "dynamic:" + q, "a dynamic formula can be written as a static one", loc(p, q))
        if "array" in stem:
            rows = [i for i in range(2, f.nargs + 1) if f.ty(i) in ("u32", "u16")]
            for e in X.events(q):
                if e.name != "ArrayFormula": continue
                have = {b[1] for b, pa, o in e.val.get("range", ()) if b[0] == "arg"}
                r.check(have >= set(rows), "range:" + q, "the range of the array formula does not use all of the given rows and columns", loc(p, q))
    r.floor("public write methods", npub, 33)
    table(ctx); pads(ctx)
    serializer(ctx)

def final(p, X, g, slf):
    """the conversion that a call ends in"""
    for k in range(4):
        gs = [g] if g in p.fns else []
        if g.endswith("::to_excel_serial_date") and not g.startswith("<"):
            n = "<%s as %s>::to_excel_serial_date" % (slf, g.rsplit("::", 1)[0])
            gs = [n] if n in p.fns else [x for x in p.fns if x.endswith("to_excel_serial_date") and base_type((p.fns[x].impl or {}).get("self", "")) == base_type(slf)][:1]
        if not gs: return g
        cs = {x[1] for b, pa, o in X.local(gs[0], 0) for x in o if x[0] == "call"}
        if len(cs) != 1 or not gs[0].endswith("to_excel_serial_date"): return gs[0]
        g = list(cs)[0]
    return g

def rules(ctx, q, kinds, ro, co, data, fmt, key, step, optional=False):
    p, w, X, G, L, r = ctx
    f = p.fns[q]; es = X.events(q); wh = loc(p, q)
    if not r.check(bool(es), key, "%s does not write a cell" % q, wh): return
    have = set(); used = set()
    for e in es:
        name = "generic" if e.kind == "generic" else e.name
        site = "%s -> %s" % (wh, w_of(p, *e.site)) if e.site[0] != q else w_of(p, *e.site)
        if pad(e): continue
        # the position
        for what, ts, i in (("row", e.row, ro), ("column", e.col, co)):
            stepped = step == "both" or step == {"row": "row", "column": "col"}[what]
            good = bool(ts)
            for b, pa, o in ts:
                ok = (b == ("arg", i) or stepped and (b[0] in ("idx", "c") or b[0] == "range" and all(x[0] == ("arg", i) and plain(x[2]) for x in b[1]) and not b[2] and not b[3])) and not pa
                for x in o:
                    if x[0] == "bin" and stepped and x[1] == "Add" and x[2] in ("1", None): continue
                    if x[0] == "cast" and stepped: continue
                    if x[0] in ("bin", "un", "cast", "mut", "call", "part", "index"): ok = False
                good = good and ok
            if stepped: good = good and any(b == ("arg", i) or b[0] == "range" for b, pa, o in ts)
            r.check(good, "%s:%s:%s" % (key, what, name), "%s writes a cell of the kind %s at a %s that is not the one given" % (q, name, what), site)
        if special(e): continue
        if e.name == "Blank" and "Blank" not in kinds:
            if "generic" in kinds: have.add("Blank")
            # an empty string or no value
        elif name not in kinds and not (e.name == "ArrayFormula" and "Formula" in kinds):
            r.bad("%s:kind:%s" % (key, name), "%s writes a cell of the kind %s" % (q, name), site); continue
        else: r.ok()
        have.add(name)
        # the value
        for s in SLOT.get(name, ()):
            ts = e.val.get(s, frozenset())
            if not r.check(bool(ts), "%s:value:%s.%s" % (key, name, s), "%s writes no value" % q, site): continue
            n = 0
            for b, pa, o in ts:
                if s == "result" and W + "default_result" in pa: continue
                bad = None
                if b[0] != "arg" or b[1] not in data: bad = "a value that is not the one given (%s)" % (b[2] if b[0] == "c" else b[0] if b[0] != "arg" else ".".join(pa) or f.lname(b[1]) or b[1])
                pf = PATHS.get((name, s))
                if bad is None and pf and not any(x == pf for x in pa) and not any(x[0] == "ret" and pf in x for x in o): bad = "another field of the formula"
                if bad is None and s == "string" and name in STR and ("url::Url" in f.ty(b[1]) or "Url" in f.ty(b[1])) and not any(x.startswith("url::Url.text") for x in pa) and not any(x[0] == "ret" and "url::Url.text" in x for x in o): bad = "a text that is not that of the url"
                for x in o:
                    if bad: break
                    if x[0] == "call" and not re.search(CONV.get(name, "^$"), x[1]): bad = "the result of %s" % x[1]
                    if x[0] == "mut" and not re.search(MUT.get(name, "^$"), x[1]) and (b[0] == "arg" and b[1] in data): bad = "a value changed by %s" % x[1]
                    if x[0] in ("bin", "un"): bad = "a value that is computed (%s)" % x[1]
                    if x[0] == "cast": bad = "a value that is narrowed from %s to %s" % x[1:3]
                    if x[0] in ("index", "sub"): bad = "a part of the value"
                if bad is None and pa and not pf and not any(x.startswith(("url::Url.", "().")) for x in pa): bad = "a part of the value (%s)" % pa[0]
                r.check(bad is None, "%s:value:%s.%s" % (key, name, s), "%s stores %s" % (q, bad), site)
                if bad is None: n += 1; used.add(b[1])
            r.check(n > 0, "%s:value:%s.%s" % (key, name, s), "%s does not store the given value" % q, site)
        # the format
        if name == "hyperlink": continue
        bases = {b for b, pa, o in e.fmt}
        if fmt and not any(k == "d" and i == fmt and v == 0 for i, k, v in e.conds):
            r.check(("arg", fmt) in bases and ("none",) not in bases, "%s:format:%s" % (key, name), "%s writes a cell of the kind %s without the given format" % (q, name), site)
            if name == "generic": r.check(bases == {("arg", fmt)}, "%s:format:%s" % (key, name), "%s writes with another format" % q, site)
        elif e.kind == "generic": r.check(bases == {("none",)} or not bases, "%s:format:%s" % (key, name), "%s writes with a format that was not given" % q, site)
    miss = {k for k in kinds if k not in have}
    if kinds >= STR and have & STR: miss -= STR
    r.check(not miss, key + ":missing", "%s does not write a cell of the kind %s" % (q, ", ".join(sorted(miss))), wh)
    if "generic" in kinds and optional and fmt: r.check("Blank" in have, key + ":blank", "%s does not write a blank cell for no value" % q, wh)
    if data: r.check(used >= set(data), key + ":data", "%s does not use its parameter %s" % (q, ", ".join(str(f.lname(i)) for i in data if i not in used)), wh)
    # every successful path writes
    if step: loops(ctx, q, ro, co, step, key); return
    ev = X.blocks.get(q, set()); m = must(f, ev); dd = None
    for b, e, fs, k in w.ret_defs(q):
        if e[0] == "agg" and e[2] == "Err" or e[0] == "call" and e[1].endswith("::from_residual") or b in ev or m.get(b): continue
        if e[0] == "call" and e[1] not in p.fns and not e[1].startswith("std::"): continue
        if e[0] == "call" and e[1] in p.fns and not X.events(e[1]) and "Result" in p.fns[e[1]].ty(0): continue
        fx = w.expand(fs)
        if optional and not fmt and any(x[0] == "discr" and x[1] == ("arg", 1) and (v == 0 or v == ("not", (1,))) for x, v in fx): continue
        r.bad(key + ":skip", "%s can return success without having written the cell" % q, w_of(p, q, b)); break
    else: r.ok()

def loops(ctx, q, ro, co, step, key):
    """every item is written, and the position moves by one per item"""
    p, w, X, G, L, r = ctx
    own = X.blocks.get(q, set())
    f = p.fns[q]; nx = [b for b, t in f.calls() if not f.cleanup(b) and callname(t).endswith("::next")]
    if not nx:
        # delegated
        r.check(bool(own), key + ":loop", "%s does not write its items" % q, loc(p, q)); return
    X.load(q)
    for nb in nx:
        # adapters that drop or reorder items
        for bb, t in f.calls():
            if f.cleanup(bb): continue
            m = callname(t).rsplit("::", 1)[-1]
            if "Iterator::" in callname(t) or "iter::" in callname(t):
                r.check(m in ("next", "into_iter", "iter", "enumerate", "zip", "by_ref", "size_hint", "peekable", "fuse", "map", "for_each", "try_for_each", "chain", "cloned", "copied"), key + ":adapter:" + m, "%s does not write every item in order (%s)" % (q, m), w_of(p, q, bb))
        st, done = L.edges(q, nb)
        if st is None: r.bad(key + ":loop", "%s: the end of the items is not tested" % q, w_of(p, q, nb)); continue
        inner = {b for b in nx if b != nb and L.dom(f, nb, b)}
        writes = {b for b in own} | inner
        r.check(not reaches(f, st, {nb}, writes), key + ":item", "%s can leave out an item" % q, w_of(p, q, nb))
        okb = [b for b, e, fs, k in w.ret_defs(q) if e[0] == "agg" and e[2] == "Ok"]
        r.check(not reaches(f, st, set(okb), {nb}), key + ":early", "%s can return success before the last item" % q, w_of(p, q, nb))
    # counters
    axes = {"col": [co], "row": [ro], "both": [ro, co]}[step]
    for l in range(1, len(f.locals)):
        incs = []; inits = []
        for pr, kind, rv, b in X.defs[q].get(l, []):
            if pr or kind != "rv": continue
            ts = X.rvalue(q, rv, (), frozenset(), ((l, ()),), b)
            self_ = [x for x in ts if x[0] == ("rec", (l, ()))]
            if self_: incs.append((b, self_))
            else: inits.append(b)
        if not incs or f.ty(l) not in ("u32", "u16", "usize"): continue
        I = {b for b, _ in incs}
        for b, ts in incs:
            for _, pa, o in ts:
                bs = [x for x in o if x[0] == "bin"]
                r.check(len(bs) == 1 and bs[0][1] == "Add" and bs[0][2] == "1", key + ":step", "%s does not step by one" % q, w_of(p, q, b))
        loop = sorted((nb for nb in nx if any(b in f.reachable(nb) and nb in f.reachable(b) for b in I)), key=lambda n: -sum(1 for m in nx if L.dom(f, m, n)))
        if not loop: continue
        # innermost loop that contains the increment and not the initialisation
        nb = next((n for n in loop if not any(i in body(f, n, nx, L) for i in inits)), loop[0])
        st, done = L.edges(q, nb)
        inner = {b for b in nx if b != nb and L.dom(f, nb, b)}
        writes = own | inner
        r.check(not reaches(f, st, {nb}, I), key + ":still", "%s can write two items at the same position" % q, w_of(p, q, nb))
        for i in I:
            again = [x for s in f.succ(i) for x in [s] if reaches(f, s, I, {nb})]
            r.check(not again, key + ":twice", "%s can leave a gap between two items" % q, w_of(p, q, i))
        r.check(not any(i_before(f, st, i, writes, nb) for i in I), key + ":before", "%s moves on before an item is written" % q, w_of(p, q, nb))

def body(f, nb, nx, L):
    return {b for b in f.reachable(f.term(nb)["to"]) if nb in f.reachable(b)} if f.term(nb)["to"] >= 0 else set()

def i_before(f, st, i, writes, nb): return reaches(f, st, {i}, (writes - {i}) | {nb})

def reaches(f, start, goals, stop):
    """goals can be reached from start without passing stop"""
    seen = set(); q = [start]
    while q:
        b = q.pop()
        if b in seen or f.cleanup(b): continue
        if b in stop: continue
        seen.add(b)
        if b in goals: return True
        q += f.succ(b)
    return False

def table(ctx):
    """a stored cell replaces the one at its place, under its own row and column"""
    p, w, X, G, L, r = ctx
    n = 0
    for q in sorted(p.fns):
        if not X.leaf(q): continue
        f = p.fns[q]; ty = [f.ty(i) for i in range(1, f.nargs + 1)]
        if not ("u32" in ty and "u16" in ty): continue
        ro, co, ce = ty.index("u32") + 1, ty.index("u16") + 1, ty.index(CELL) + 1
        wh = loc(p, q); sinks = set(); X.load(q)
        for b, t in f.calls():
            if f.cleanup(b): continue
            nm = callname(t); m = nm.rsplit("::", 1)[-1]; a = t["args"]
            gs = [g for g in p.callees(t) if X.leaf(g)]
            if gs:
                g = p.fns[gs[0]]; ty2 = [g.ty(i) for i in range(1, g.nargs + 1)]
                for what, T, i in (("row", "u32", ro), ("column", "u16", co), ("cell", CELL, ce)):
                    ts = X.op(q, a[ty2.index(T)])
                    r.check(ts == {(("arg", i), (), frozenset())}, "table:%s:%s" % (q, what), "a cell is stored under another %s than the one given" % what, w_of(p, q, b))
                sinks.add(b); n += 1; continue
            if m in ("or_insert", "or_insert_with", "try_insert") and any(any(x[0] == ("arg", ce) for x in X.op(q, o)) for o in a):
                r.bad("table:%s:replace" % q, "a stored cell does not replace the one that is already there", w_of(p, q, b))
            if m == "entry" or m == "insert" and len(a) == 3 or m in ("get_mut",) and len(a) == 2:
                mt = f.ty(a[0]["p"][0]) if "p" in a[0] else ""
                k = X.op(q, a[1])
                want = co if re.search(r"Map<u16,", mt) and not re.search(r"Map<u32,", mt) else ro if "Map<u32," in mt else None
                if want:
                    r.check(k == {(("arg", want), (), frozenset())}, "table:%s:key" % q, "a cell is stored under another position than the one given", w_of(p, q, b)); n += 1
            if m in ("from", "insert", "push") and any(any(x[0] == ("arg", ce) for x in X.op(q, o)) for o in a): sinks.add(b)
            if m == "from" and a and any(x[0] == ("arg", ce) for x in X.op(q, a[0])):
                k = {x[0] for x in X.op(q, a[0]) if x[0] != ("arg", ce)}
                r.check(k == {("arg", co)}, "table:%s:key" % q, "a cell is stored under another column than the one given", w_of(p, q, b)); n += 1
    r.floor("stores of cells in the tables", n, 5)

def pads(ctx):
    """the cells that fill the range of an array formula"""
    p, w, X, G, L, r = ctx
    n = 0
    for q in sorted(p.fns):
        if "{closure" in q or q not in X.ev: continue
        f = p.fns[q]
        if not any(e.site[0] == q and e.name == "ArrayFormula" for e in X.ev[q]): continue
        u = [i for i in range(1, f.nargs + 1) if f.ty(i) == "u32"]; v = [i for i in range(1, f.nargs + 1) if f.ty(i) == "u16"]
        if len(u) != 2 or len(v) != 2: continue
        n += 1; cover = set()
        for e in X.ev[q]:
            if not pad(e): continue
            def shape(ts, lo, hi):
                for b, pa, o in ts:
                    if b == ("arg", lo): yield "first"
                    elif b[0] == "range":
                        a = {(x[0], any(y[0] == "bin" and y[1] == "Add" and y[2] == "1" for y in x[2])) for x in b[1]}; z = {(x[0], plain(x[2])) for x in b[2]}
                        yield "%s-%s" % ("first" if a == {(("arg", lo), False)} else "next" if a == {(("arg", lo), True)} else "?", "last" if z == {(("arg", hi), True)} and b[3] or z and all(x[0] == ("arg", hi) for x in z) and not b[3] and all(any(y[0] == "bin" and y[1] == "Add" for y in x[2]) for x in b[2]) else "?")
                    else: yield "?"
            cover.add((tuple(sorted(set(shape(e.row, u[0], u[1])))), tuple(sorted(set(shape(e.col, v[0], v[1]))))))
        good = {(("first",), ("next-last",)), (("next-last",), ("first-last",))}
        if any("?" == x for rc in cover for s in rc for x in s): r.bad("pads:" + q, "the range of an array formula is filled with cells at other positions", loc(p, q))
        elif cover <= good or cover == {(("first-last",), ("first-last",))}:
            r.check(cover == good or cover == {(("first-last",), ("first-last",))}, "pads:" + q, "the range of an array formula is not filled with cells", loc(p, q))
        else: r.bad("pads:" + q, "the range of an array formula is filled with cells at other positions", loc(p, q))
    r.floor("writers of array formulas", n, 1)

SER = {"bool": 2, "i8": 2, "u8": 2, "i16": 2, "u16": 2, "i32": 2, "u32": 2, "i64": 2, "u64": 2, "f32": 2, "f64": 2, "str": 2, "char": 2,
       "some": 2, "newtype_struct": 3, "newtype_variant": 5, "unit_variant": 4}
ELEM = {"field", "element", "value", "key"}

def serializer(ctx):
    p, w, X, G, L, r = ctx
    S = "serializer::SerializerState."; H = "serializer::SerializationHeaderConfig."; C = "serializer::CustomSerializeField."
    n = 0
    for q in sorted(p.fns):
        f = p.fns[q]
        if "{closure" in q or f.nargs < 1 or "::serialize_" not in q or "Worksheet" not in f.ty(1) or "serde" not in q: continue
        m = q.rsplit("::", 1)[-1][len("serialize_"):]
        es = X.events(q); wh = loc(p, q)
        if "Serializer for" in q or "serde::Serializer" in q and "serde::ser::Serialize" not in q:
            if m in SER: want = SER[m]
            elif m in ("none", "unit", "unit_struct"):
                ok = bool(es) and all(all(b[0] == "c" and b[2] == "" for b, pa, o in e.val["data"]) for e in es)
                r.check(ok, "serde:" + q, "%s does not write an empty cell" % q, wh); n += 1; continue
            else: continue
        elif m in ELEM: want = f.nargs
        else: continue
        n += 1
        if not r.check(bool(es), "serde:" + q, "%s does not write its value" % q, wh): continue
        seen = False
        for e in es:
            for b, pa, o in e.val["data"]:
                if b == ("arg", want) and plain(o) and not pa: seen = True; r.ok()
                elif b[0] == "arg" and b[1] == 2 and m == "field" and plain(o) and e.kind == "serde": r.ok()      # the key of a variant
                else: r.bad("serde:" + q, "%s writes something else than its value" % q, w_of(p, *e.site))
        r.check(seen, "serde:" + q, "%s does not write its value" % q, wh)
        ev = X.blocks.get(q, set()); mm = must(f, ev)
        for b, e, fs, k in w.ret_defs(q):
            if e[0] == "agg" and e[2] == "Err" or e[0] == "call" and e[1].endswith("::from_residual") or b in ev or mm.get(b): continue
            r.bad("serde:skip:" + q, "%s can return success without having written its value" % q, w_of(p, q, b))
        if m == "field" and "SerializeStruct>" in q or m == "field" and q.rstrip().endswith("SerializeStruct for &mut worksheet::Worksheet>::serialize_field"):
            sets = [(b, st) for b in f.reachable() if not f.cleanup(b) for st in f.stmts(b) if st[0] == "=" and any(isinstance(x, list) and is_field(x) and fkey(x) == S + "current_field" for x in st[1][1:])]
            calls = [b for b, t in f.calls() if not f.cleanup(b) and t["args"] and any(any(x == S + "current_field" for x in pa) for bb, pa, o in X.op(q, t["args"][0]))]
            sb = {b for b, st in sets} | {b for b in calls if any(("arg", 2) == x[0] for x in [y for o in f.term(b)["args"][1:] for y in X.op(q, o)])}
            good = bool(sb) and all(all(x[0] == ("arg", 2) and plain(x[2]) for x in X.rvalue(q, st[2], (), frozenset(), (), b)) for b, st in sets)
            fm = must(f, sb)
            good = good and all(fm.get(b) or b in sb for b in X.blocks.get(q, ()))
            r.check(good, "serde:current_field", "the current field is not set to the name of the field before its value is written", wh)
    r.floor("serializer methods", n, 24)
    # the position
    sites = [(q, e) for q in sorted(p.fns) if "{closure" not in q and q.startswith(("worksheet::", "serializer::")) and "Serialize" not in q for e in X.events(q) if e.kind == "generic" and any(S[:-1].split("::")[-1] in str(b) or W + "serializer_state" in pa or any(x.startswith(S) for x in pa) for b, pa, o in e.row)]
    r.floor("writes at the serializer's position", len(sites), 2)
    src = set()
    for q, e in sites:
        for what, ts, k in (("row", e.row, "().0"), ("column", e.col, "().1")) + ((("format", e.fmt, "().2"),) if e.name == "write_with_format" else ()):
            for b, pa, o in ts:
                cs = [x[1] for x in o if x[0] == "call"]
                if len(cs) == 1: r.check(("ret", k) in o and not any(x[0] in ("bin", "un", "cast") for x in o), "serde:pos:%s:%s" % (q, what), "a serialized value is written at another %s" % what, w_of(p, *e.site)); src.add(cs[0])
        if e.name == "write_with_format": r.check(("none",) not in {b for b, pa, o in e.fmt}, "serde:pos:%s:format" % q, "a serialized value is written without its format", w_of(p, *e.site))
        r.check(all(b[0] == "arg" and plain(o) for b, pa, o in e.val["data"]), "serde:pos:%s:data" % q, "something else than the value is written", w_of(p, *e.site))
    r.check(len(src) <= 1, "serde:pos", "serialized values are written at positions from different sources")
    for g in sorted(src):
        if g not in p.fns: continue
        wh = loc(p, g)
        def got(k): return [(b, pa, o) for b, pa, o in X.local(g, 0, (k,)) if b[0] != "none"]
        def sel(t): return set(t[1]) | {y for x in t[2] if x[0] == "ret" for y in x[1:]}
        R = got("().0"); Cc = got("().1"); F = got("().2")
        r.check(bool(R) and any(H + "max_row" in sel(t) for t in R) and all(any(x[0] == "bin" and x[1] == "Sub" and x[2] == "1" for x in t[2]) for t in R if H + "max_row" in sel(t)) and all(H + "max_row" in sel(t) or not sel(t) - {"().0"} or any(x.startswith(S) for x in t[1]) for t in R), "serde:row", "the row of a serialized value is not the row of the current record", wh)
        r.check(bool(Cc) and any(C + "col" in sel(t) for t in Cc) and not any(x[0] in ("bin", "un") for t in Cc for x in t[2]), "serde:col", "the column of a serialized value is not that of its field", wh)
        r.check(bool(F) and any(C + "value_format" in sel(t) for t in F), "serde:format", "the format of a serialized value is not that of its field", wh)
        keys = {x for t in Cc for x in t[1] if x.startswith(S)}
        r.check({S + "structs", S + "current_struct", S + "current_field"} <= keys, "serde:key", "the field of a serialized value is not looked up by the current structure and field", wh)
    record(ctx, S, H)
    headers(ctx, S, H, C)

def fieldsets(p, f, fld):
    return [(b, st) for b in f.reachable() if not f.cleanup(b) for st in f.stmts(b) if st[0] == "=" and any(isinstance(x, list) and is_field(x) and fkey(x) == fld for x in st[1][1:])]

def record(ctx, S, H):
    """every record gets a row of its own"""
    p, w, X, G, L, r = ctx
    n = 0
    for q in sorted(p.fns):
        f = p.fns[q]
        if "{closure" in q or not q.startswith("serializer::SerializerState"): continue
        inc = fieldsets(p, f, H + "max_row")
        if not inc: continue
        n += 1; wh = loc(p, q)
        for b, st in inc:
            ts = X.rvalue(q, st[2], (), frozenset(), (), b)
            r.check(all([x for x in o if x[0] == "bin"] == [("bin", "Add", "1")] for bb, pa, o in ts), "record:step:" + q, "the row of the records does not move by one", w_of(p, q, b))
        I = {b for b, st in inc}
        for b in I: r.check(not any(reaches(f, s, I, set()) for s in f.succ(b)), "record:twice:" + q, "the row of the records can move twice", w_of(p, q, b))
        # every path on which the structure is known
        miss = unincremented(p, w, q, I)
        r.check(not miss, "record:all:" + q, "a record of a known structure can be written without a row of its own", wh)
        names = fieldsets(p, f, S + "current_struct")
        calls = [b for b, t in f.calls() if not f.cleanup(b) and t["args"] and callname(t).rsplit("::", 1)[-1] in ("clone_from", "clone_into", "push_str") and any(S + "current_struct" in pa for o in t["args"] for bb, pa, oo in X.op(q, o))]
        r.check(bool(names or calls) and all(all(x[0] == ("arg", 2) for x in X.rvalue(q, st[2], (), frozenset(), (), b)) for b, st in names), "record:name:" + q, "the name of the current structure is not set", wh)
        # it is set before the structure is looked up, unless it is already the same
        for b, t in f.calls():
            if f.cleanup(b) or callname(t).rsplit("::", 1)[-1] not in ("get_mut", "get") or len(t["args"]) != 2: continue
            k = X.op(q, t["args"][1])
            if any(S + "current_struct" in pa for bb, pa, o in k):
                sb = {x for x, st in names} | set(calls)
                def same(fa):
                    e, v = fa; tt = truth(fa)
                    return bool(tt) and tt[1] is True and tt[0][0] == "call" and tt[0][1].endswith("::eq") and any(z[0] == "fld" and z[2] == S + "current_struct" for z in subexprs(tt[0])) and any(z == ("arg", 2) for z in subexprs(tt[0]))
                okk = G.passed(q, b, same) if not sb else passed_or_block(p, w, G, q, b, sb, same)
                r.check(okk, "record:stale:" + q, "the row of another structure can be moved", w_of(p, q, b))
            else: r.check(all(bb == ("arg", 2) or S in str(pa) or bb == ("arg", 1) for bb, pa, o in k), "record:stale:" + q, "the row of another structure can be moved", w_of(p, q, b))
    r.floor("functions that give a record its row", n, 1)

def passed_or_block(p, w, G, q, sink, blocks, pred):
    """every path to sink passes one of the blocks or an accepting edge"""
    f = p.fns[q]; fa = w.facts(q); sy = fa.sym
    seen = set(); st = [(0, k) for k in (fa.parts.get(0) or {frozenset(): 0})]
    while st:
        b, key = st.pop()
        if (b, key) in seen or f.cleanup(b) or b not in fa.kcache: continue
        seen.add((b, key))
        if b in blocks: continue
        if b == sink: return False
        if len(seen) > 6000: return False
        t = f.term(b); keys = list(fa.transfer(b, {key: frozenset()}))
        if t["k"] != "switch":
            st += [(x, k) for x in f.succ(b) for k in keys]; continue
        e = sy.op(t["on"]); vals = tuple(int(v) for v, _ in t["targets"])
        for x, v in [(x, int(v)) for v, x in t["targets"]] + [(t["else"], ("not", vals))]:
            for k in keys:
                fs = fa.refine((e, v), dict(k))
                if fs is None or G.accepts(fs, pred): continue
                st.append((x, k))
    return True

def unincremented(p, w, q, I):
    """a return is reached without an increment although the structure was found"""
    f = p.fns[q]; sy = w.sym(q)
    for b, t in f.calls():
        if f.cleanup(b) or callname(t).rsplit("::", 1)[-1] not in ("get_mut", "get"): continue
        st = [f.term(b)["to"]]; seen = set()
        while st:
            x = st.pop()
            if x in seen or f.cleanup(x) or x in I: continue
            seen.add(x); u = f.term(x)
            if u["k"] == "return": return True
            if u["k"] == "switch":
                e = sy.op(u["on"])
                if e[0] == "discr" and any(z[0] == "call" and z[3] == b for z in subexprs(e)):
                    br = any(z[0] == "call" and z[1].endswith("::branch") for z in subexprs(e))
                    some = 0 if br else 1
                    st += [y for v, y in u["targets"] if int(v) == some] or [u["else"]]; continue
            st += f.succ(x)
    return False

def headers(ctx, S, H, C):
    """the fields of a structure have consecutive columns, with their header above"""
    p, w, X, G, L, r = ctx
    n = 0
    for q in sorted(p.fns):
        f = p.fns[q]
        if "{closure" in q: continue
        aggs = [(b, st) for b in f.reachable() if not f.cleanup(b) for st in f.stmts(b) if st[0] == "=" and st[2][0] == "agg" and isinstance(st[2][1], dict) and st[2][1].get("adt") == H[:-1]]
        if not aggs or q.endswith("::clone"): continue
        n += 1; wh = loc(p, q)
        ro = next((i for i in range(1, f.nargs + 1) if f.ty(i) == "u32"), None); co = next((i for i in range(1, f.nargs + 1) if f.ty(i) == "u16"), None)
        for b, st in aggs:
            fs = dict(zip([str(x) for x in st[2][1]["fields"]], st[2][2]))
            def T(k): return X.op(q, fs[k])
            exact = {(("arg", ro), (), frozenset())}
            r.check(T("min_row") == exact, "headers:min_row", "the first row of a serialized structure is not the given row", w_of(p, q, b))
            r.check(T("min_col") == {(("arg", co), (), frozenset())}, "headers:min_col", "the first column of a serialized structure is not the given column", w_of(p, q, b))
            mr = T("max_row")
            r.check(all(x[0] == ("arg", ro) and all(y == ("bin", "Add", "1") for y in x[2] if y[0] == "bin") for x in mr if x[0][0] == "arg") and any(any(y[0] == "bin" for y in x[2]) for x in mr) and any(not any(y[0] == "bin" for y in x[2]) for x in mr), "headers:max_row", "the records of a serialized structure do not start below its header row", w_of(p, q, b))
            r.check(any(x[0] == ("arg", co) for x in T("max_col")), "headers:max_col", "the last column of a serialized structure does not follow from the given column", w_of(p, q, b))
        # the row moves exactly when headers are written
        X.events(q)
        nexts = [b for b, t in f.calls() if not f.cleanup(b) and callname(t).endswith("::next")]
        sym = w.sym(q)
        looped = {b for nb in nexts for b in f.reachable(nb) if nb in f.reachable(b)}
        hw = [b for b in X.blocks.get(q, ()) if b in looped and any(e.name in STR and e.kind == "cell" and not isrange(e.row) for g in p.callees(f.term(b)) if g in p.fns and g != q for e in X.events(g))]
        incs = {}
        for l in range(1, len(f.locals)):
            for pr, kind, rv, b in X.defs[q].get(l, []):
                if pr or kind != "rv": continue
                ts = X.rvalue(q, rv, (), frozenset(), ((l, ()),), b)
                if any(x[0] == ("rec", (l, ())) for x in ts):
                    incs.setdefault(l, set()).add(b)
                    for _, pa, o in [x for x in ts if x[0] == ("rec", (l, ()))]:
                        r.check([y for y in o if y[0] == "bin"] == [("bin", "Add", "1")], "headers:step", "the columns or rows of a serialized structure do not follow each other", w_of(p, q, b))
        for l, I in sorted(incs.items()):
            inloop = [nb for nb in nexts if any(nb in f.reachable(b) and b in f.reachable(nb) for b in I)]
            if not inloop:
                # the header row
                for b in I:
                    fa = w.at(q, b)
                    r.check(any(any(z[0] == "fld" and z[2].endswith(".has_headers") for z in subexprs(e)) and (truth((e, v)) or (0, False))[1] is True for e, v in fa), "headers:row", "the header row is counted without having been written", w_of(p, q, b))
                    for hb in hw:
                        r.check(hb not in f.reachable(b), "headers:order", "the headers are written below their row", w_of(p, q, hb))
                continue
            for nb in inloop:
                stt, done = L.edges(q, nb)
                if stt is None: continue
                stores = {b for b, t in f.calls() if not f.cleanup(b) and callname(t).rsplit("::", 1)[-1] == "insert" and b in f.reachable(nb) and nb in f.reachable(b)}
                if not stores: continue
                # an iteration either stores the field and moves on, or does neither
                for s in stores:
                    before = reaches(f, stt, {s}, I | {nb}); after = any(reaches(f, x, {nb}, I) for x in f.succ(s))
                    r.check(not (before and after), "headers:same", "two fields of a serialized structure can share a column", w_of(p, q, s))
                for i in I:
                    before = reaches(f, stt, {i}, stores | {nb}); after = any(reaches(f, x, {nb}, stores) for x in f.succ(i))
                    r.check(not (before and after), "headers:gap", "a column of a serialized structure can be left out", w_of(p, q, i))
        # the header of a field
        r.check(bool(hw), "headers:text", "no headers are written", wh)
        for hb in hw:
            t = f.term(hb)
            for g in p.callees(t):
                if g not in p.fns: continue
                for e in X.events(g):
                    if e.name not in STR: continue
                    r.check(all(C + "header_name" in pa and plain(o) for b, pa, o in X.subst(e.val["string"], q, t["args"])), "headers:text", "the header of a field is not its header name", w_of(p, q, hb))
                    r.check(all(b == ("arg", ro) for b, pa, o in X.subst(e.row, q, t["args"])), "headers:at", "the header of a field is not in the header row", w_of(p, q, hb))
                    r.check(any(b == ("arg", co) for b, pa, o in X.subst(e.col, q, t["args"])), "headers:at", "the header of a field is not in its column", w_of(p, q, hb))
        # the column of the field and of its header are the same value
        cs = [(b, st) for b, st in fieldsets(p, f, C + "col")]
        r.check(bool(cs), "headers:col", "the column of a field is not stored", wh)
        for b, st in cs:
            ts = frozenset(X.rvalue(q, st[2], (), frozenset(), (), b))
            for hb in hw:
                t = f.term(hb)
                cand = [frozenset(X.op(q, o)) for o in t["args"]]
                r.check(ts in cand, "headers:col", "the header of a field is not above its values", w_of(p, q, hb))
        names = [t for b, t in f.calls() if not f.cleanup(b) and callname(t).rsplit("::", 1)[-1] == "insert" and len(t["args"]) == 3]
        fields_ = [t for t in names if "CustomSerializeField" in str(t.get("targs")) or any("CustomSerializeField" in f.ty(o["p"][0]) for o in t["args"] if "p" in o)]
        r.check(any(all(C + "field_name" in pa for b, pa, o in X.op(q, t["args"][1])) for t in fields_), "headers:key", "the fields of a structure are not stored under their names", wh)
    r.floor("functions that lay out a serialized structure", n, 1)
