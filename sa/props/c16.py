"""Access-path analysis over MIR. Every chart range whose cached values the chart
writer may write is identified by its access path from the chart object (for
example Chart.series.value_range); containers, references, iterators and helper
functions are followed between functions. Two more path sets come from the code
that runs before the parts are written: the ranges whose keys are inserted into
the look-up table, and the ranges whose cache field is assigned. Rules: (1) every
written path is in both sets, for the charts of a worksheet and for the combined
chart inside them; (2) collection and filling are not conditional on any chart
property other than the presence of the object and a non-empty sheet name; (3)
the look-up goes to the worksheet named in the range, for exactly the rectangle
of the range, and a range on an unknown worksheet is an error; (4) the cache gets
exactly one entry per cell of the rectangle on every path, its type is set where
and only where a string, number or date cell was read, and string wins over the
others; (5) preparation precedes writing in the save path."""
RULE = "every chart range that is written with cached data is collected, looked up for its own sheet and rectangle, and filled before the chart is written"
ASSUMPTIONS = ["Two ranges with equal keys have equal caches; the cell table returns the cell stored at the given row and column (C05, C12)."]
import collections, re
from sym import *
from mir import *
from paths import Paths
from props.c12 import loops
import regions

CACHE = "chart::ChartRange.cache"
ORDER = ["first_row", "first_col", "last_row", "last_col"]

def holders(p, target):
    """the struct types through which a value of the target type can be owned"""
    out = {target}; ch = True
    while ch:
        ch = False
        for a, d in p.adts.items():
            if a in out: continue
            if any(re.search(r"\b" + re.escape(o) + r"\b", x[1]) for v in d["variants"] for x in v["fields"] for o in out): out.add(a); ch = True
    return out

def reads(p, P, fld):
    """[(fn, path)] of reads of a field"""
    out = []
    for q, L in P.loc.items():
        f = p.fns[q]
        if re.search(r"Clone>|PartialEq|Debug>|Hash>", q): continue
        for b in f.reachable():
            if f.cleanup(b): continue
            pls = []
            for st in f.stmts(b):
                if st[0] == "=":
                    if st[2][0] == "ref": pls.append(st[2][2])
                    else: pls += [x["p"] for x in rv_operands(st[2]) if "p" in x]
            t = f.term(b)
            if t["k"] == "call": pls += [x["p"] for x in t["args"] if "p" in x]
            if t["k"] == "switch" and "p" in t["on"]: pls.append(t["on"]["p"])
            for pl in pls:
                for i, x in enumerate(pl[1:]):
                    if x != "*" and is_field(x) and fkey(x) == fld:
                        out += [(q, s) for s in P.place(f, L, pl[:i + 1])]
    return out

def fullpaths(s, prefix):
    """a path from the root of a series or other part, expanded to the chart"""
    if not s[0].startswith("T:"): return prefix + s[1:]
    owner = {"T:chart::ChartSeries": ("series",), "T:chart::Chart": ()}.get(s[0])
    return None if owner is None else prefix + owner + s[1:]

def run(c, r):
    p = c.prog(); w = World(p)
    T = {a for a in holders(p, "chart::ChartRange") if a.startswith("chart::")}
    root = "chart::Chart::assemble_xml_file"
    if root not in p.fns or "chart::ChartRange" not in p.adts: r.bad("anchor", "the chart writer was not found"); return
    roots = {"%s.%s" % (a, x[0]): "Chart" for a, d in p.adts.items() for v in d["variants"] for x in v["fields"]
             if not a.startswith("chart::") and re.search(r"\bchart::Chart\b", x[1])}
    r.count("fields holding charts", len(roots))
    wr = p.reach([root])
    W = Paths(p, T, roots); W.run([(root, 1, {("Chart",)})], wr)
    written = collections.defaultdict(set)
    for q, s in reads(p, W, CACHE): written[s].add(q)
    main = set(); comb = set()
    for s in written:
        if s[:2] == ("Chart", "combined_chart"): comb.add(s); continue
        x = fullpaths(s, ("Chart",))
        if x is None: r.bad("path:" + ".".join(s), "the chart writer reads the cache of a range whose owner is not known (%s in %s)" % (".".join(s), ", ".join(sorted(written[s])))); continue
        main.add(x)
        if x[1:2] == ("series",): comb.add(("Chart", "combined_chart") + x[1:])
    r.floor("ranges written with a cache", len(main), 11)
    # preparation
    save = "workbook::Workbook::save_internal"
    if save not in p.fns: r.bad("anchor:save", "the save function was not found"); return
    rs = p.reach([save]) - wr
    P = Paths(p, T, roots)
    for q in sorted(rs):
        f = p.fns[q]
        if any(fkey(x) in roots for b in f.reachable() for pl in places(f, b) for x in pl[1:] if isinstance(x, list) and is_field(x)): P.push(q)
    P.run([], rs)
    collected = collections.defaultdict(list); filled = collections.defaultdict(list)
    steps = collections.defaultdict(set)      # functions that collect / fill
    for q, L in P.loc.items():
        f = p.fns[q]; sy = w.sym(q)
        if re.search(r"Clone>|::new$|Default>", q): continue
        for b in f.reachable():
            if f.cleanup(b): continue
            for st in f.stmts(b):
                if st[0] == "=" and any(isinstance(x, list) and is_field(x) and fkey(x) == CACHE for x in st[1][1:]):
                    for s in P.place(f, L, upto(st[1])): filled[s].append((q, b, w.sym(q).rv(st[2])))
            t = f.term(b)
            if t["k"] != "call": continue
            if any(isinstance(x, list) and is_field(x) and fkey(x) == CACHE for x in t["dest"][1:]):
                for s in P.place(f, L, upto(t["dest"])): filled[s].append((q, b, sy.call(b, t)))
            n = t.get("res") or t.get("f") or ""
            if re.search(r"(HashMap|BTreeMap|HashSet|BTreeSet|Vec).*::(insert|entry|push|extend)$", n) and len(t["args"]) > 1:
                for e in subexprs(sy.op(t["args"][1])):
                    if e[0] == "call" and e[1] == "chart::ChartRange::key":
                        blk = e[3]
                        for s in P.place(f, L, f.term(blk)["args"][0]["p"]): collected[s].append((q, b))
    r.floor("collected ranges", len(collected), 11); r.floor("filled ranges", len(filled), 11)
    def have(d, s):
        if s in d: return True
        return s[:2] == ("Chart", "series") and ("T:chart::ChartSeries",) + s[2:] in d or s[:3] == ("Chart", "combined_chart", "series") and ("T:chart::ChartSeries",) + s[3:] in d
    for s in sorted(main | comb):
        names = ".".join(s)
        r.check(have(collected, s), "collect:" + names, "the chart writer writes a cache for %s but its range is never looked up" % names, ", ".join(sorted(written.get(s, ()))) or root)
        r.check(have(filled, s), "fill:" + names, "the chart writer writes a cache for %s but the cache is never filled" % names, ", ".join(sorted(written.get(s, ()))) or root)
        r.sample("%s: collected and filled" % names)
    # conditions
    sites = collections.defaultdict(set)
    ends = {q for l in collected.values() for q, b in l} | {q for l in filled.values() for q, b, e in l}
    back = {q for q in rs if p.reach([q]) & ends}
    for l in collected.values():
        for q, b in l: sites[q].add(b)
    for l in filled.values():
        for q, b, e in l: sites[q].add(b)
    for q in back:
        f = p.fns[q]
        for b, t in f.calls():
            if not f.cleanup(b) and any(x in back for x in p.callees(t)): sites[q].add(b)
    ncond = 0
    for q in sorted(sites):
        f = p.fns[q]
        for b in sorted(sites[q]):
            for fa in w.at(q, b):
                ncond += 1
                bad = blocking(p, fa)
                if bad: r.bad("cond:%s:%s" % (q, bad), "the look-up or filling of chart caches depends on %s" % bad, "%s:%d %s" % (f.file, f.blocks[b][3], q))
                else: r.ok()
        for b, t in f.calls():
            n = t.get("res") or t.get("f") or ""
            if re.search(r"::(take|skip|step_by|take_while|skip_while|nth|split_at|truncate|chunks|windows)$", n) and any(P.rel(f.ty(t["dest"][0])) for _ in (0,)):
                r.bad("adaptor:%s:%s" % (q, n.rsplit("::", 1)[-1]), "only part of the charts or series is looked at when caches are collected or filled", "%s:%d %s" % (f.file, f.blocks[b][3], q))
    r.count("conditions examined at collection and fill sites", ncond)
    # the lookup
    key = p.fns.get("chart::ChartRange::key")
    comps = None
    if key:
        for b, e, s, k in w.ret_defs("chart::ChartRange::key"):
            if e[0] == "agg" and len(e[3]) == 5: comps = [compname(x) for x in e[3]]
        r.check(comps is not None and comps[0] == "sheet_name" and sorted(comps[1:]) == sorted(ORDER), "key", "the key of a chart range does not consist of its sheet name and four corners: %s" % comps, "chart::ChartRange::key")
    nlook = 0
    for q in sorted(rs):
        f = p.fns[q]
        for b, t in f.calls():
            n = t.get("res") or ""
            if f.cleanup(b) or n not in p.fns or p.fns[n].ty(0) != "chart::ChartRangeCacheData" or p.fns[n].nargs != 5: continue
            nlook += 1; wh = "%s:%d %s" % (f.file, f.blocks[b][3], q)
            es = [w.sym(q).op(x) for x in t["args"]]
            cache_rules(p, w, r, n)
            if comps:
                got = [component(e, comps) for e in es[1:]]
                for want, g in zip(ORDER, got):
                    r.check(g in (want, None), "rect:%s" % want, "the chart cache is read for another rectangle: %s is taken from %s" % (want, g), wh)
                look = [x for x in subexprs(es[0]) if x[0] == "call" and x[1] in p.fns and "Worksheet" in p.fns[x[1]].ty(0)]
                for x in look:
                    g = [component(a, comps) for a in x[2]]
                    r.check("sheet_name" in g or all(y is None for y in g), "sheet", "the worksheet of a chart cache is looked up by something else than the sheet name of the range", wh)
            # the error path
            for b2 in sorted(f.reachable()):
                if f.cleanup(b2): continue
                for e, v in w.at(q, b2):
                    if e[0] == "discr" and two(v) == 1 and e[1][0] == "call" and e[1][1].endswith("::worksheet_from_name"):
                        r.check(not leads_on(f, b2, w, q), "unknown:%s" % q, "a chart range on an unknown worksheet does not make the save fail", wh); break
    r.floor("cache look-ups", nlook, 1)
    # order in the save path
    nord = 0
    fillers = {q for l in filled.values() for q, b, e in l}
    for q in sorted(rs | {save}):
        f = p.fns[q]
        calls = [(b, set().union(*[p.reach([x]) for x in p.callees(t) if x in p.fns] or [set()])) for b, t in f.calls() if not f.cleanup(b)]
        prep = [b for b, s in calls if s & fillers and root not in s]; out = [b for b, s in calls if root in s]
        if not out or not prep: continue
        from live import postdom
        for b in out:
            nord += 1
            r.check(any(dominates(f, x, b) for x in prep), "order:" + q, "the charts can be written before their caches are filled", "%s:%d %s" % (f.file, f.blocks[b][3], q))
    r.floor("save paths with preparation before writing", nord, 1)

def upto(pl):
    for i, x in enumerate(pl):
        if i and isinstance(x, list) and is_field(x) and fkey(x) == CACHE: return pl[:i]
    return pl

def places(f, b):
    for st in f.stmts(b):
        if st[0] != "=": continue
        yield st[1]
        if st[2][0] == "ref": yield st[2][2]
        else:
            for x in rv_operands(st[2]):
                if "p" in x: yield x["p"]
    t = f.term(b)
    if t["k"] == "call":
        yield t["dest"]
        for x in t["args"]:
            if "p" in x: yield x["p"]

def compname(e):
    while e[0] == "call" and e[2] and re.search(r"::(clone|to_string|to_owned|as_str|deref|into)$", e[1]): e = e[2][0]
    return e[2].rsplit(".", 1)[-1] if e[0] == "fld" else None

def component(e, comps):
    """the field of the range that an expression over its key stands for"""
    while e[0] == "call" and e[2] and re.search(r"::(clone|to_string|to_owned|as_str|deref|into)$", e[1]): e = e[2][0]
    if e[0] == "fld" and e[2].startswith("().") and e[2][3:].isdigit() and int(e[2][3:]) < len(comps): return comps[int(e[2][3:])]
    if e[0] == "fld" and e[2].startswith("chart::ChartRange."): return e[2].rsplit(".", 1)[-1]
    return None

def blocking(p, fact):
    """a chart or worksheet property that a fact tests, beyond presence"""
    e, v = fact
    if e[0] == "discr":
        x = e[1]
        if x[0] == "fld":
            a, n = x[2].rsplit(".", 1)
            ty = fieldty(p, a, n)
            if ty and a.startswith("chart::") and not ty.startswith("std::option::Option"): return x[2]
        return None
    fl = [x[2] for x in subexprs(e) if x[0] == "fld" and re.match(r"(chart|worksheet)::", x[2])]
    if e[0] == "call" and e[1].endswith("::is_empty") or e[0] == "un" and e[2][0] == "call" and e[2][1].endswith("::is_empty"):
        x = e if e[0] == "call" else e[2]
        last = x[2][0]
        if last[0] == "fld" and (last[2] == "chart::ChartRange.sheet_name" or re.search(r"\b(Vec|BTreeMap|HashMap)<", fieldty(p, *last[2].rsplit(".", 1)) or "")): return None
    if e[0] == "call" and e[1] == "chart::ChartRange::has_data": return None
    if e[0] == "call" and e[1].startswith("chart::"): return e[1]
    if e[0] == "call" and e[1].endswith("PartialEq>::eq") or e[0] == "bin" or e[0] == "fld" or e[0] == "un" or e[0] == "call":
        own = [x for x in fl if x.startswith("chart::")]
        if own:
            lastf = own[-1] if len(own) == 1 else [x for x in own if x != "chart::Chart.combined_chart"][0]
            if all(x in ("chart::Chart.combined_chart", "chart::Chart.series", "chart::ChartRange.sheet_name") or "Option<" in (fieldty(p, *x.rsplit(".", 1)) or "") or fieldty(p, *x.rsplit(".", 1)) in p.adts for x in own) and e[0] == "call" and e[1].endswith(("::is_some", "::is_none")): return None
            return lastf
        ws = [x for x in fl if x != "worksheet::Worksheet.charts"]
        if ws and "worksheet::Worksheet.charts" not in fl and e[0] in ("fld", "bin"): return ws[0]
    return None

def fieldty(p, a, n):
    d = p.adts.get(a)
    if not d: return None
    for v in d["variants"]:
        for x in v["fields"]:
            if x[0] == n: return x[1]
    return None

def leads_on(f, b, w, q):
    """from block b some path returns Ok or goes round a loop that contains b"""
    seen = set(); st = [b]
    while st:
        x = st.pop()
        if x in seen or f.cleanup(x): continue
        seen.add(x)
        for stt in f.stmts(x):
            if stt[0] == "=" and stt[1] == [0]:
                e = w.sym(q).rv(stt[2])
                if e[0] == "agg" and e[2] == "Ok": return True
                if e[0] == "agg" and e[2] == "Err": break
        st += f.succ(x)
    return any(b in body and h in seen for h, body in loops(f).items())

def dominates(f, a, b):
    """every path from entry to b passes a"""
    seen = set(); st = [0]
    if a == b: return True
    while st:
        x = st.pop()
        if x in seen or x == a or f.cleanup(x): continue
        seen.add(x); st += f.succ(x)
    return b not in seen

# -- the contents of one cache
def vecadds(p, f, b, t):
    """number of entries a call appends to a Vec<String>, None: not an append, -1: unknown"""
    n = t.get("res") or t.get("f") or ""
    if not t["args"] or "p" not in t["args"][0]: return None
    ty = f.ty(t["args"][0]["p"][0]) if len(t["args"][0]["p"]) == 1 else ""
    if "Vec<std::string::String" not in ty and "ChartRangeCacheData" not in ty: return None
    if n.endswith("Vec::<T, A>::push"): return 1
    if re.search(r"Vec::<T, A>::(extend|append|resize|insert|extend_from_slice)|Extend<.*extend$", n): return -1
    return None

def cache_rules(p, w, r, n):
    f = p.fns[n]; A = regions.All(p); ls = loops(f); sy = w.sym(n)
    # the two loops run over the rows and columns of the rectangle
    bounds = set(); ROWS, COLS = (("arg", 2), ("arg", 4)), (("arg", 3), ("arg", 5))
    for b, t in f.calls():
        m = t.get("res") or t.get("f") or ""
        if "RangeInclusive" in m and m.endswith("::new"): bounds.add(tuple(sy.op(x) for x in t["args"]))
    for b in f.reachable():
        for st in f.stmts(b):
            if st[0] == "=" and st[2][0] == "agg" and isinstance(st[2][1], dict) and (st[2][1].get("adt") or "").startswith("std::ops::Range"):
                e = sy.rv(st[2]); lo, hi = e[3][0], e[3][-1]
                if hi[0] == "bin" and hi[1].startswith("Add") and hi[3][0] == "c" and str(hi[3][2]) == "1": bounds.add((lo, hi[2]))
                else: bounds.add((lo, ("before", hi)))
    pushes = {b: vecadds(p, f, b, t) for b, t in f.calls() if not f.cleanup(b)}
    pushes = {b: v for b, v in pushes.items() if v is not None}
    if bounds:
        if len(bounds) >= 2:
            r.check(ROWS in bounds, "rows", "the rows of a chart cache are not those from the first to the last row of its range", n)
            r.check(COLS in bounds, "cols", "the columns of a chart cache are not those from the first to the last column of its range", n)
        for x in sorted(bounds - {ROWS, COLS}, key=str): r.bad("bounds:%s" % (x,), "a chart cache is read over a range that is not that of the chart range", n)
    if ls and pushes and len(bounds) == 2:
        inner = [h for h, body in ls.items() if not any(h2 != h and h2 in body for h2 in ls)]
        for h in inner:
            cnt = counts(f, h, ls[h], pushes)
            r.check(cnt == {1} or -1 in cnt, "once:inner", "a cell of the rectangle adds %s entries to the chart cache" % sorted(cnt), n)
        # a row adds one entry per cell: every pass of the row loop goes through a loop over the columns
        outer = [h for h in ls if h not in inner]
        for h in outer:
            body = ls[h]
            seen = set(); st = [(x, False) for x in f.succ(h) if x in body]
            free = False; direct = False
            while st:
                x, done = st.pop()
                if (x, done) in seen or x not in body: continue
                seen.add((x, done))
                if x == h:
                    if not done: free = True
                    continue
                if x in inner: done = True
                if pushes.get(x) == -1: done = True
                if pushes.get(x) == 1 and not any(x in ls[i] for i in inner): direct = True
                st += [(y, done) for y in f.succ(x)]
            r.check(not free and not direct, "once:row", "a row without cells does not add one entry per column to the chart cache", n)
    # the type
    want = {"String": {"String"}, "Number": {"Number"}, "Date": {"DateTime"}}
    seen = set()
    for q in sorted({n} | set(p.callgraph().get(n, ()))):
        if q not in p.fns: continue
        g = p.fns[q]
        for b in g.reachable():
            if g.cleanup(b): continue
            for st in g.stmts(b):
                if st[0] != "=" or not any(isinstance(x, list) and is_field(x) and fkey(x) == "chart::ChartRangeCacheData.cache_type" for x in st[1][1:]): continue
                e = w.sym(q).rv(st[2])
                if e[0] != "agg": continue
                v = e[2]; cells = None; prev = None
                for a, x, s in A.sets_at(q, b):
                    if a == "worksheet::CellType": cells = s if cells is None else cells & s
                    if a == "chart::ChartRangeCacheDataType": prev = s if prev is None else prev & s
                wh = "%s:%d %s" % (g.file, g.blocks[b][3], q)
                if v not in want: continue
                seen.add(v)
                r.check(cells is not None and cells <= want[v], "type:" + v, "a chart cache becomes of type %s where the cell is not known to be a %s cell (%s)" % (v, "/".join(want[v]), sorted(cells) if cells else "anything"), wh)
                if v == "String": r.check(prev is None, "type:String:cond", "a chart cache with a string cell does not always become a string cache", wh)
                else: r.check(prev is not None and "String" not in prev, "type:%s:over" % v, "a %s cell can turn a string cache into a number cache" % v, wh)
    if seen:
        for v in want: r.check(v in seen, "type:set:" + v, "no cell makes a chart cache of type %s" % v, n)

def counts(f, h, body, pushes):
    """numbers of entries added on the paths once around a loop"""
    out = set(); seen = set(); st = [(x, 0) for x in f.succ(h) if x in body]
    while st:
        x, k = st.pop()
        if (x, k) in seen or x not in body: continue
        seen.add((x, k))
        if x == h: out.add(k); continue
        if pushes.get(x) == -1: out.add(-1); continue
        k = min(2, k + pushes.get(x, 0))
        st += [(y, k) for y in f.succ(x)]
    return out
