"""Dataflow analysis over MIR. For every function with a format parameter
(`&Format` or `Option<&Format>`) that belongs to the worksheet or to the cell
data trait, the values derived from that parameter are followed through the
function (locals, match arms, format index look-ups). Rules: (1) wherever the
function calls another function that takes a format or a format index, what it
passes is derived from its own parameter; (2) wherever it builds or updates a
cell, row or column record, the format index stored is derived from it; (3) a
branch that replaces the derived value by something else must know that no
format was given; (4) data is never handed to a writer without a format; (5)
every path that returns success has used the parameter (the zero-iteration exit
of a loop that uses it counts as used); (6) updating an existing row or column
record sets the same format fields as creating one. Further, the format index
of every kind of cell is read by each of the row writers."""
RULE = "on every success path the format parameter reaches the format index that is stored with the data"
ASSUMPTIONS = ["Worksheet::format_xf_index and its helpers return the index that belongs to the format they are given (C10, C13)."]
import re
from sym import *
from ctx import loc

def isfmt(t):
    return re.fullmatch(r"(&(mut )?)?(std::option::Option<)?(&)?(mut )?format::Format>?", t) is not None

def scope(p):
    out = {}
    for q, f in p.fns.items():
        if not q.startswith("worksheet::") and "IntoExcelData" not in q: continue
        if "{closure" in q or f.nargs == 0: continue
        ps = [i for i in range(1, f.nargs + 1) if isfmt(f.ty(i))]
        if ps: out[q] = ps
    return out

RICH = ("worksheet::Worksheet::write_rich_string", "worksheet::Worksheet::get_rich_string")

def derived(f, ps):
    """locals whose value derives from a parameter in ps (flow insensitive)"""
    d = set(ps); changed = True
    def ops(o): return "p" in o and (o["p"][0] in d or any(isinstance(x, list) and x[0] == "#" and x[1] in d for x in o["p"][1:]))
    while changed:
        changed = False
        for b in f.reachable():
            if f.cleanup(b): continue
            for st in f.stmts(b):
                if st[0] != "=": continue
                rv = st[2]
                src = ops({"p": rv[2]}) if rv[0] == "ref" else False if rv[0] == "discr" else any(ops(o) for o in rv_operands(rv))
                if src and st[1][0] not in d and st[1][0] > f.nargs and "*" not in st[1][1:]: d.add(st[1][0]); changed = True
            t = f.term(b)
            if t["k"] == "call" and any(ops(o) for o in t["args"]):
                l = t["dest"][0]
                if l not in d and not f.ty(l).startswith("&mut worksheet") and not "XlsxError" in f.ty(l) and f.ty(l) not in ("()", "bool"): d.add(l); changed = True
    return d

def none_known(w, q, b, ps):
    """facts at block b say that some optional format parameter is None"""
    facts = w.at(q, b)
    for pi in ps:
        for e, v in facts:
            if e == ("discr", ("arg", pi)) and two(v) == 0: return True
    return False

def edge_none(w, q, b, ps):
    return none_known(w, q, b, ps)

def default_known(w, q, b):
    """the index looked up for the format is known to be that of the default format"""
    for fa in w.at(q, b):
        for op, x, y in comparisons(fa):
            if op == "Eq" and y[0] == "c" and str(y[2]) == "0" and (x[0] == "loc" and w.p.fns[q].lname(x[1]) is not None and w.p.fns[q].ty(x[1]) == "u32" or x[0] == "call" and "format_xf_index" in x[1]): return True
        if fa[0][0] in ("loc", "call") and fa[1] == 0 and (fa[0][0] == "call" and "format_xf_index" in fa[0][1] or fa[0][0] == "loc" and w.p.fns[q].ty(fa[0][1]) == "u32"): return True
    return False

def loops(f):
    """natural loops: header -> set of blocks"""
    # dominators by simple iteration
    order = sorted(f.reachable()); preds = f.preds()
    dom = {b: set(order) for b in order}; dom[0] = {0}
    ch = True
    while ch:
        ch = False
        for b in order:
            if b == 0: continue
            ps = [dom[x] for x in preds[b] if x in dom]
            n = ({b} | set.intersection(*ps)) if ps else {b}
            if n != dom[b]: dom[b] = n; ch = True
    out = {}
    for b in order:
        for s in f.succ(b):
            if s in dom[b]:
                body = {s}; st = [b]
                while st:
                    x = st.pop()
                    if x in body: continue
                    body.add(x); st += [y for y in preds[x] if y in dom]
                out.setdefault(s, set()).update(body)
    return out

def writers(p):
    """worksheet methods that store a cell, row or column record"""
    base = {q for q in p.fns if q.startswith("worksheet::Worksheet::insert_cell")}
    out = set(base); cg = p.callgraph(); ch = True
    while ch:
        ch = False
        for q, s in cg.items():
            if q not in out and set(s) & out and (q.startswith("worksheet::Worksheet::") or "IntoExcelData" in q): out.add(q); ch = True
    return out, base

RECORDS = re.compile(r"worksheet::(CellType|ColOptions|RowOptions)$")

def run(c, r):
    p = c.prog(); w = World(p)
    sc = scope(p); wr, base = writers(p); cg = p.callgraph()
    ncalls = nrec = npaths = nidx = 0
    # functions that take a format index
    for q, ps in sorted(sc.items()):
        f = p.fns[q]
        if f.ty(0) == "u32": nidx += index_rule(p, w, r, q, f, ps); continue
        if f.ty(0) == "format::Format" or f.ty(0).startswith("("): continue
        d = derived(f, ps); where = lambda b: "%s:%d %s" % (f.file, f.blocks[b][3], q)
        def der(o): return "p" in o and (o["p"][0] in d)
        events = set(); fields = {}
        for b in sorted(f.reachable()):
            if f.cleanup(b): continue
            for st in f.stmts(b):
                if st[0] != "=": continue
                rv = st[2]
                if rv[0] == "agg" and isinstance(rv[1], dict) and RECORDS.search(rv[1].get("adt") or ""):
                    fs = rv[1].get("fields", []); adt = rv[1]["adt"]
                    for n, o in zip(fs, rv[2]):
                        ty = next((x[1] for v in p.adts[adt]["variants"] for x in v["fields"] if x[0] == n), "")
                        if n == "xf_index" or isfmt(ty):
                            nrec += 1
                            ok = der(o) or none_known(w, q, b, ps)
                            r.check(ok, "record:%s:%s.%s" % (q, adt, n), "%s stores a %s whose %s does not come from its format parameter" % (q, adt, n), where(b))
                            if der(o): events.add(b); fields.setdefault(adt, {}).setdefault("new", set()).add(n)
                pl = st[1]
                if "*" in pl[1:]:
                    src = any(der(o) for o in rv_operands(rv)) 
                    k = [x for x in pl[1:] if isinstance(x, list) and is_field(x)]
                    if src and k and RECORDS.search(k[-1][0].split("<")[0]):
                        events.add(b); fields.setdefault(k[-1][0], {}).setdefault("set", set()).add(k[-1][1]); nrec += 1
            t = f.term(b)
            if t["k"] == "call":
                n = t.get("res") or t.get("f") or "?"
                gs = w.targets(n) or w.targets(t.get("f") or "?")
                if not gs: 
                    # an indirect store of a field, e.g. a drop-and-replace of an Option
                    continue
                g = p.fns[gs[0]]
                takes = [i for i, o in enumerate(t["args"]) if "p" in o and isfmt(f.ty(o["p"][0])) or i + 1 <= g.nargs and (isfmt(g.ty(i + 1)) or g.lname(i + 1) == "xf_index")]
                store = (any(x in wr for x in gs) or any(x in sc for x in gs)) and g.ty(0) not in ("u32", "format::Format")
                if g.ty(0) == "format::Format": takes = []
                if takes and (store or g.lname(takes[0] + 1) == "xf_index" or g.ty(0) == "u32" and "xf_index" in gs[0]):
                    ncalls += 1
                    ok = any(der(t["args"][i]) for i in takes) or none_known(w, q, b, ps)
                    r.check(ok, "call:%s->%s" % (q, gs[0]), "%s calls %s with a format that does not come from its own format parameter" % (q, gs[0]), where(b))
                    if ok and store: events.add(b)
                elif store and not takes:
                    ncalls += 1
                    ok = any(der(o) for o in t["args"][1:])
                    if ok: events.add(b)
                    r.check(ok or none_known(w, q, b, ps), "noformat:%s->%s" % (q, gs[0]), "%s stores data through %s, which takes no format, although a format was given" % (q, gs[0]), where(b))
        # (3) branches that replace the derived value
        uses = used_as_format(p, w, f, d)
        for l in sorted(uses):
            ds = w.sym(q).defs.get(l, [])
            if len(ds) < 2: continue
            for b, i, rv in ds:
                src = any(der(o) for o in (rv["args"] if i < 0 else [{"p": rv[2]}] if rv[0] == "ref" else rv_operands(rv)))
                if not src:
                    r.check(default_known(w, q, b) or none_known(w, q, b, ps), "replace:%s:%s" % (q, f.lname(l) or f.ty(l)), "%s replaces the given format by another on a path where a format may have been given" % q, where(b))
        # (5) success paths
        ls = loops(f)
        for h, body in ls.items():
            if events & body: events.add(h)
        seen = must(f, events)
        for b, e, s, key in w.ret_defs(q):
            if f.ty(0).startswith("std::result::Result") and w.outcome(e, "ok") is None: continue
            npaths += 1
            ok = b in events or seen.get(b) or any(x == ("discr", ("arg", pi)) and two(v) == 0 for x, v in s for pi in ps)
            r.check(ok, "path:%s" % q, "%s can return success without having stored the format it was given" % q, where(b))
        # every pass through a loop
        for h, body in ls.items():
            inner = events & (body - {h})
            if not inner or seen.get(h): continue
            m = must(f, inner, h, body)
            for b in body:
                if h in f.succ(b) and b != h:
                    ok = b in inner or m.get(b) or none_known(w, q, b, ps)
                    r.check(ok, "loop:%s" % q, "a pass through a loop of %s stores data without the format" % q, where(b))
        # (6)
        for adt, kinds in fields.items():
            if "new" in kinds and "set" in kinds:
                r.check(kinds["new"] == kinds["set"], "update:%s:%s" % (q, adt.rsplit("::", 1)[-1]),
                        "%s sets %s of a new %s but %s of an existing one" % (q, sorted(kinds["new"]), adt, sorted(kinds["set"])), loc(p, q))
        r.sample("%s: parameter(s) %s, %d storing events" % (q, [f.lname(i) for i in ps], len(events)))
    # the cell writers read the index of every kind of cell
    adt = p.adts.get("worksheet::CellType"); nw = 0
    allv = {v["name"] for v in adt["variants"] if any(x[0] == "xf_index" for x in v["fields"])} if adt else set()
    saved = p.reach([q for q in p.fns if re.search(r"workbook::Workbook::save|worksheet::Worksheet::insert_cell", q)])
    for q in sorted(saved):
        f = p.fns.get(q)
        if f is None or not q.startswith("worksheet::Worksheet"): continue
        vs = cell_reads(f)
        if any(n == "xml_raw_string" or "write" in n and "cell" in n.lower() for n in (x.rsplit("::", 1)[-1] for x in cg.get(q, ()))) and len(vs) >= 3:
            nw += 1
            for v in sorted(allv):
                r.check(v in vs, "writer:%s:%s" % (q, v), "%s writes cells but does not read the format index of CellType::%s" % (q, v), loc(p, q))
            for v in sorted(vs & allv): r.check(vs_passed(p, f, v), "writer-pass:%s:%s" % (q, v), "%s does not pass the format index of CellType::%s on to the cell writer" % (q, v), loc(p, q))
    r.floor("cell writers", nw, 2)
    r.floor("returns of format index look-ups", nidx, 5)
    r.floor("functions with a format parameter", len(sc), 45)
    r.floor("calls that pass a format on", ncalls, 40)
    r.floor("records with a format index", nrec, 12)
    r.floor("success returns", npaths, 45)

def index_rule(p, w, r, q, f, ps):
    """a function that turns a format into an index returns what belongs to that format"""
    d = derived(f, ps); n = 0
    ins = {b for b, t in f.calls() if (t.get("f") or "").rsplit("::", 1)[-1] in ("insert", "or_insert", "or_insert_with", "entry", "push") and any("p" in o and o["p"][0] in d for o in t["args"])}
    seen = must(f, ins)
    for b in sorted(f.reachable()):
        if f.cleanup(b): continue
        hits = []
        for st in f.stmts(b):
            if st[0] == "=" and st[1] == [0]: hits.append(any("p" in o and o["p"][0] in d for o in ([{"p": st[2][2]}] if st[2][0] == "ref" else rv_operands(st[2]))))
        t = f.term(b)
        if t["k"] == "call" and t["dest"] == [0]: hits.append(any("p" in o and o["p"][0] in d for o in t["args"]))
        for h in hits:
            n += 1
            r.check(h or b in ins or seen.get(b) or none_known(w, q, b, ps) or default_known(w, q, b), "index:" + q, "%s can return an index that is not that of the format it was given" % q, "%s:%d %s" % (f.file, f.blocks[b][3], q))
    return n

def used_as_format(p, w, f, d):
    out = set()
    for b in f.reachable():
        if f.cleanup(b): continue
        for st in f.stmts(b):
            if st[0] == "=" and st[2][0] == "agg" and isinstance(st[2][1], dict) and RECORDS.search(st[2][1].get("adt") or ""):
                for n, o in zip(st[2][1].get("fields", []), st[2][2]):
                    if n in ("xf_index", "format") and "p" in o: out.add(o["p"][0])
        t = f.term(b)
        if t["k"] == "call":
            gs = w.targets(t.get("res") or t.get("f") or "?")
            for i, o in enumerate(t["args"]):
                if "p" in o and gs and i + 1 <= p.fns[gs[0]].nargs and (isfmt(p.fns[gs[0]].ty(i + 1)) or p.fns[gs[0]].lname(i + 1) == "xf_index"): out.add(o["p"][0])
    # through copies
    ch = True
    while ch:
        ch = False
        for b in f.reachable():
            for st in f.stmts(b):
                if st[0] == "=" and len(st[1]) == 1 and st[1][0] in out and st[1][0] > f.nargs:
                    src = [st[2][2][0]] if st[2][0] == "ref" else [o["p"][0] for o in rv_operands(st[2]) if "p" in o]
                    for x in src:
                        if x not in out and x > f.nargs: out.add(x); ch = True
    return {l for l in out if l in d}

def must(f, events, start=0, within=None):
    """block -> every path from start to its end... (entry) has passed an event"""
    order = [b for b in f.reachable() if within is None or b in within]
    st = {start: False}; work = [start]
    while work:
        b = work.pop()
        o = st[b] or b in events
        for s in f.succ(b):
            if within is not None and (s not in within or s == start): continue
            n = o if s not in st else st[s] and o
            if s not in st or n != st[s]: st[s] = n; work.append(s)
    return st

def xf_places(f):
    """[(block, dest local, variant)] of reads of a cell variant's xf_index"""
    out = []
    for b in f.reachable():
        if f.cleanup(b): continue
        for st in f.stmts(b):
            if st[0] != "=": continue
            rv = st[2]; pls = [rv[2]] if rv[0] == "ref" else [o["p"] for o in rv_operands(rv) if "p" in o]
            for pl in pls:
                for i, x in enumerate(pl[1:], 1):
                    if isinstance(x, list) and is_field(x) and x[1] == "xf_index" and x[0].startswith("worksheet::CellType"):
                        v = [y[1] for y in pl[1:i] if isinstance(y, list) and y[0] == "as"]
                        if v: out.append((b, st[1][0], v[-1]))
    return out

def cell_reads(f): return {v for _, _, v in xf_places(f)}

def vs_passed(p, f, v):
    d = {l for _, l, x in xf_places(f) if x == v}; ch = True
    while ch:
        ch = False
        for b in f.reachable():
            if f.cleanup(b): continue
            for st in f.stmts(b):
                if st[0] != "=": continue
                rv = st[2]
                src = [rv[2][0]] if rv[0] == "ref" else [o["p"][0] for o in rv_operands(rv) if "p" in o]
                if any(x in d for x in src) and st[1][0] not in d: d.add(st[1][0]); ch = True
            t = f.term(b)
            if t["k"] == "call" and any("p" in o and o["p"][0] in d for o in t["args"]):
                n = (t.get("res") or t.get("f") or "")
                if n in p.fns and "write" in n: return True
                if t["dest"][0] not in d: d.add(t["dest"][0]); ch = True
    return False
