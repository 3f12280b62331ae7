"""Constant-memory mode against normal mode, over MIR and the emission summary.
The two row writers are found by the writer they use (in memory or the temporary
file). Both must write the same row attributes, from the same fields and under
conditions on the same fields, and treat every variant of the cell type, with
the same renderers and arguments. The flush protocol (rows leave the buffer in
order, once each, together with the rows written ahead) is a set of path rules."""
RULE = "both modes write the same row attributes and cell kinds; buffered rows are flushed in order, once, before packaging"
ASSUMPTIONS = ["A rich string is written inline in constant-memory mode and as a shared string in normal mode: the only difference between the modes in the markup of a cell.",
               "Cell formats that are set apart from the data only work on the current row (documented)."]
import re
from sym import *
from mir import *
from ctx import loc
from props.c20 import Gate, inserts, callname, const
from props.c24 import fields, calls_in, w_of, Loops, flag, boolcall, anyof

W = "worksheet::Worksheet."
CELL = "worksheet::CellType"
INLINE = {"RichString"}
ESC = {"xmlwriter::escape_xml_data", "xmlwriter::escape_xml_escapes", "xmlwriter::escape_attributes"}

def mode_of(path):
    s = {str(x).rsplit(".", 1)[-1] for x in path if isinstance(x, str) and "." in x}
    return "constant" if "file_writer" in s else "normal" if "writer" in s else None

def tfs(p, q): x = p.trans_fields().get(q); return x[0] | x[1] if x else set()
def dfs(p, q):
    out = set()
    for g in [q] + list(p.closures_of(q)): x = p.direct_fields().get(g); out |= x[0] | x[1] if x else set()
    return out

class Defs:
    """expressions that a local can hold"""
    def __init__(self, p, w, q):
        self.f = p.fns[q]; self.sy = w.sym(q); self.d = {}
        f = self.f
        for b in f.reachable():
            if f.cleanup(b): continue
            for st in f.stmts(b):
                if st[0] == "=" and len(st[1]) == 1: self.d.setdefault(st[1][0], []).append(self.sy.rv(st[2]))
            t = f.term(b)
            if t["k"] == "call" and len(t["dest"]) == 1: self.d.setdefault(t["dest"][0], []).append(self.sy.call(b, t))
    def deep(self, e):
        """the sub-expressions of e, with those of its locals"""
        out = set(); st = [e]; seen = set()
        while st:
            x = st.pop()
            if x in seen or len(seen) > 400: continue
            seen.add(x)
            for y in subexprs(x):
                out.add(y)
                if y[0] == "loc": st += self.d.get(y[1], [])
        return out

def flds(xs): return {y[2] for y in xs if y[0] == "fld" and "::" in str(y[2]) and not str(y[2]).startswith(("std::", "core::", "()"))}

class Cdep:
    """control dependence"""
    def __init__(self, f):
        self.f = f; self.pd = {}; self.R = [b for b in f.reachable() if not f.cleanup(b)]
        self.sw = [b for b in self.R if f.term(b)["k"] == "switch"]
    def avoid(self, b):
        """blocks from which a return can be reached without passing b"""
        if b in self.pd: return self.pd[b]
        f = self.f; good = {x for x in self.R if f.term(x)["k"] == "return" and x != b}; ch = True
        while ch:
            ch = False
            for x in self.R:
                if x not in good and x != b and any(y in good for y in f.succ(x)): good.add(x); ch = True
        self.pd[b] = good; return good
    def of(self, b):
        out = {}; st = [b]
        while st:
            x = st.pop(); av = self.avoid(x)
            for s in self.sw:
                if s == x: continue
                su = set(self.f.succ(s))
                yes = {t for t in su if t not in av}; no = su - yes
                if yes and no and s not in out: out[s] = yes; st.append(s)
        return out

def must_pass(f, blocks, start=0, edge=None):
    """every path from start to a return passes one of the blocks (or an accepted edge)"""
    seen = set(); st = [start]
    while st:
        b = st.pop()
        if b in seen or b in blocks or f.cleanup(b): continue
        seen.add(b); t = f.term(b)
        if t["k"] == "return": return False
        if edge and t["k"] == "switch":
            vals = tuple(int(v) for v, _ in t["targets"])
            st += [x for x, v in [(x, int(v)) for v, x in t["targets"]] + [(t["else"], ("not", vals))] if not edge(b, v)]
        else: st += f.succ(b)
    return True

def run(c, r):
    p = c.prog(); w = World(p); G = Gate(p, w); L = Loops(p, w, G)
    E = c.emission()
    D = {}
    def defs(q):
        if q not in D: D[q] = Defs(p, w, q)
        return D[q]
    # the two row writers
    rows = {"normal": {}, "constant": {}}; cells = {"normal": {}, "constant": {}}
    for ev in E.events:
        if ev[3] not in ("row", "c") or ev[7][0].split("::")[0] != "worksheet": continue
        m = mode_of(ev[0])
        if not m or ev[4][0] != "list": continue
        d = (rows if ev[3] == "row" else cells)[m].setdefault(ev[7][0], [set(), set(), set()])
        d[0] |= {a[0] for a in ev[4][1]}; d[1].add(ev[5])
        for a in ev[4][1]:
            if a[0] == "t": d[2] |= {v[1] for v in a[3] if v[0] == "s"}
    for m in rows:
        r.floor("row writers of %s mode" % m, len(rows[m]), 1); r.floor("cell writers of %s mode" % m, len(cells[m]), 6)
    if not all(rows.values()): return
    names = {m: set().union(*[d[0] for d in rows[m].values()]) for m in rows}
    diff = (names["normal"] ^ names["constant"]) - {"spans"}
    for a in sorted(diff):
        r.bad("row:%s" % a, "the row attribute %s is only written in %s mode" % (a, "normal" if a in names["normal"] else "constant-memory"), "; ".join(loc(p, q) for m in rows for q in rows[m]))
    r.count("row attributes compared", len(names["normal"] | names["constant"]))
    kinds = {m: set().union(*[d[1] for d in rows[m].values()]) for m in rows}
    r.check(kinds["normal"] == kinds["constant"], "row:kinds", "rows with and without cells are not written by both modes")
    # conditions and values of the attributes
    def pushes(m):
        out = {}; todo = list(rows[m]); seen = set()
        while todo:
            q = todo.pop()
            if q in seen or q not in p.fns: continue
            seen.add(q); f = p.fns[q]; cd = None; dd = defs(q)
            for b in sorted(f.reachable()):
                if f.cleanup(b): continue
                for st in f.stmts(b):
                    if st[0] == "=" and st[2][0] == "agg" and st[2][1] == "tuple":
                        e = dd.sy.rv(st[2]); a = e[3] if e[0] == "agg" else ()
                        if len(a) == 2 and a[0][0] == "c" and a[0][1] in ("str", "&str") and str(a[0][2]).strip('"') in names[m]:
                            nm = str(a[0][2]).strip('"')
                            cd = cd or Cdep(f); co = set(); k = cd.of(b)
                            # a condition that is kept in a variable depends on what decides its value
                            k = set(k)
                            for s in list(k):
                                o = f.term(s)["on"]
                                if "p" in o and len(o["p"]) == 1:
                                    hs = {o["p"][0]}
                                    for _ in range(3):
                                        for b3 in f.reachable():
                                            for s3 in f.stmts(b3):
                                                if s3[0] == "=" and len(s3[1]) == 1 and s3[1][0] in hs and s3[2][0] == "use" and "p" in s3[2][1] and len(s3[2][1]["p"]) == 1: hs.add(s3[2][1]["p"][0])
                                    db = [b3 for b3 in f.reachable() for s3 in f.stmts(b3) if s3[0] == "=" and len(s3[1]) == 1 and s3[1][0] in hs]
                                    if len(db) > 1:
                                        for b3 in db: k |= set(cd.of(b3))
                            for s in k:
                                xs = dd.deep(dd.sy.op(f.term(s)["on"])); co |= flds(xs)
                                for y in xs:
                                    if y[0] == "call" and y[1] in p.fns: co |= {z for z in tfs(p, y[1]) if z.startswith("worksheet::")}
                            ve = dd.deep(a[1]); v = flds(ve) | {x for y in ve if y[0] == "call" and y[1] in p.fns and not y[1].endswith("get_global_xf_index") for x in tfs(p, y[1]) if x.startswith("worksheet::RowOptions")}
                            fs = {(e2[2], v2) for e2, v2 in w.at(q, b) if e2[0] == "fld" and e2[2].startswith("worksheet::") and isinstance(v2, int)}
                            v -= {W + "global_xf_indices", W + "has_workbook_global_xfs"}
                            g = any(y[0] == "call" and (y[1].endswith("get_global_xf_index") or W + "global_xf_indices" in tfs(p, y[1])) for y in ve) or W + "global_xf_indices" in flds(ve)
                            out.setdefault(nm, []).append((q, b, co, v, fs, g))
            for b, t in f.calls():
                if f.cleanup(b): continue
                for g in p.callees(t):
                    if g.startswith("worksheet::") and g in p.fns and not p.fns[g].exported: todo.append(g)
        return out
    P = {m: pushes(m) for m in rows}
    r.floor("places that add row attributes", sum(len(x) for m in P for x in P[m].values()), 12)
    GX = {W + "global_xf_indices", W + "has_workbook_global_xfs"}
    for a in sorted(set(P["normal"]) & set(P["constant"])):
        A, B = P["normal"][a], P["constant"][a]
        if {x[:2] for x in A} == {x[:2] for x in B}: r.ok(); continue
        wh = "; ".join(sorted({loc(p, x[0]) for x in A + B}))
        ca = set().union(*[x[2] for x in A]) - GX; cb = set().union(*[x[2] for x in B]) - GX
        r.check(ca == cb, "row:%s:when" % a, "the row attribute %s depends on other fields in constant-memory mode (%s)" % (a, ",".join(sorted(y.rsplit(".", 1)[-1] for y in ca ^ cb))), wh)
        va = {frozenset(x[3]) for x in A}; vb = {frozenset(x[3]) for x in B}
        r.check(va == vb or set().union(*va) == set().union(*vb) and len(va) == len(vb), "row:%s:value" % a, "the value of the row attribute %s comes from other fields in constant-memory mode" % a, wh)
        fa = set.intersection(*[x[4] for x in A]); fb = set.intersection(*[x[4] for x in B])
        for n, v in sorted(fa):
            r.check(not any(n2 == n and v2 != v for n2, v2 in fb), "row:%s:sense" % a, "the row attribute %s is written under the opposite condition in constant-memory mode" % a, wh)
    for x in P["normal"].get("s", []):
        r.check(x[5], "row:s:global", "the row format is written without having been converted to the workbook's index", loc(p, x[0]))
    # cells
    V = [v["name"] for v in p.adts[CELL]["variants"]] if CELL in p.adts else []
    dv = {str(v["discr"]): v["name"] for v in p.adts[CELL]["variants"]} if CELL in p.adts else {}
    r.floor("kinds of cells", len(V), 10)
    T = {m: {} for m in rows}; where = {m: set() for m in rows}; nsw = {m: 0 for m in rows}
    for m in rows:
        ren = set(cells[m])
        for q in sorted(p.fns):
            f = p.fns[q]
            if not q.startswith("worksheet::Worksheet::") and not q.startswith("<worksheet"): continue
            calls = {b for b, t in f.calls() if not f.cleanup(b) and any(g in ren for g in p.callees(t))}
            if not calls: continue
            dd = defs(q)
            def right(b):
                # the writer that is passed decides the mode, when it can be seen
                xs = flds(dd.deep(dd.sy.op(f.term(b)["args"][0]))) if f.term(b)["args"] else set()
                return W + "file_writer" in xs if m == "constant" else W + "file_writer" not in xs
            calls = {b for b in calls if right(b) or not any(x in (W + "file_writer", W + "writer") for x in flds(dd.deep(dd.sy.op(f.term(b)["args"][0]))))}
            if not calls: continue
            nexts = {b for b, t in f.calls() if callname(t).endswith("::next")}
            for s in sorted(f.reachable()):
                t = f.term(s)
                if f.cleanup(s) or t["k"] != "switch" or "p" not in t["on"]: continue
                dl = [st[2][1] for st in f.stmts(s) if st[0] == "=" and st[1] == t["on"]["p"] and st[2][0] == "discr"]
                if not dl or strip_refs(f.ty(dl[0][0])) != CELL or any(x != "*" for x in dl[0][1:]): continue
                if len(t["targets"]) < 3: continue
                nsw[m] += 1; where[m].add(q)
                tg = dict((str(v), x) for v, x in t["targets"])
                for d, name in sorted(dv.items()):
                    tb = tg.get(d, t["else"])
                    reach = set(); st = [tb]; missed = False
                    while st:
                        b = st.pop()
                        if b in reach or f.cleanup(b): continue
                        reach.add(b)
                        if b in nexts or b == s: continue
                        st += f.succ(b)
                    hit = calls & reach
                    seen = set(); st = [tb]
                    while st and not missed:
                        b = st.pop()
                        if b in seen or b in calls or f.cleanup(b): continue
                        seen.add(b); u = f.term(b)
                        if b in nexts or u["k"] == "return": missed = True; break
                        if u["k"] == "switch":
                            e = dd.sy.op(u["on"])
                            if e[0] == "discr" and any(z.endswith(".string_id") for z in flds(dd.deep(e))):
                                st += [x for v, x in u["targets"] if int(v) == 1] or [u["else"]]; continue
                        if u["k"] == "unreachable": continue
                        st += f.succ(b)
                    r.check(bool(hit) and not missed, "cell:%s:%s" % (m, name), "a cell of the kind %s is not written in %s mode" % (name, "constant-memory" if m == "constant" else "normal"), w_of(p, q, s))
                    for b in hit:
                        u = f.term(b); ren_ = [g for g in p.callees(u) if g in ren][0]
                        ar = []
                        for x in u["args"][1:]:
                            xs = dd.deep(dd.sy.op(x))
                            ar.append((frozenset(z for z in flds(xs) if z.startswith(CELL + "::" + name + ".")), any(y[0] == "call" and W + "changed_cols" in tfs(p, y[1]) for y in xs)))
                        T[m].setdefault(name, set()).add((ren_, tuple(ar)))
                        rowargs(p, w, r, q, b, dd, rows[m], m)
    for m in T: r.floor("cell kind dispatches of %s mode" % m, nsw[m], 1)
    for name in V:
        A, B = T["normal"].get(name, set()), T["constant"].get(name, set())
        if not A or not B: continue
        key = "cell:%s" % name
        if name in INLINE:
            ta = set().union(*[cells["normal"][x[0]][2] for x in A]); tb = set().union(*[cells["constant"][x[0]][2] for x in B])
            for x in B:
                r.check(not any(g in ESC for g in p.reach([x[0]])), key + ":raw", "the runs of a rich string, which are markup, are escaped in constant-memory mode", loc(p, x[0]))
            r.check(ta == {"s"} and tb == {"inlineStr"}, key + ":type", "a cell of the kind %s is written with the types %s and %s" % (name, sorted(ta), sorted(tb)))
            continue
        r.check({x[0] for x in A} == {x[0] for x in B}, key + ":writer", "a cell of the kind %s is written by other functions in constant-memory mode" % name, "; ".join(loc(p, x[0]) for x in A | B))
        for ren_, ar in sorted(B, key=str):
            mate = [x for x in A if x[0] == ren_ and len(x[1]) == len(ar)]
            r.check(any(all(x[0] == y[0] for x, y in zip(z[1], ar)) for z in mate) or not mate, key + ":fields", "the fields of a cell of the kind %s are passed to its writer differently in constant-memory mode" % name, loc(p, ren_))
            r.check(any(y[1] for y in ar), key + ":format", "a cell of the kind %s is written in constant-memory mode without its row and column formats" % name, loc(p, ren_))
    r.count("cell kinds compared", len(V))
    flush(p, w, r, G, L, defs, set(rows["constant"]), E)
    modes(p, w, r)

def rowargs(p, w, r, q, b, dd, rowfns, m):
    """the cell is written with the row and column under which it is stored"""
    f = p.fns[q]; u = f.term(b); args = [dd.sy.op(x) for x in u["args"]]
    tagged = [tuple(dd.sy.op(x) for x in t["args"]) for bb, t in f.calls() if not f.cleanup(bb) and any(g in rowfns for g in p.callees(t))]
    ra = [e for e in args if e[0] == "bin" and "Add" in e[1] and const(e[3]) == 1]
    if tagged:
        r.check(any(e[2] in t for e in ra for t in tagged), "cell:row:" + q, "a cell is not written with the row number of the row that it is in", w_of(p, q, b))
    nx = {y[3] for e in args for y in dd.deep(e) if y[0] == "call" and y[1].endswith("::next") and any(z.startswith(CELL) for z in flds(dd.deep(e)))}
    if nx:
        cols = [e for e in args if any(y[0] == "call" and y[3] in nx for y in dd.deep(e)) and any(y[0] == "fld" and y[2] == "().0" for y in dd.deep(e)) and any(y[0] == "call" and y[1] == "utility::column_number_to_name" or y[0] in ("c", "static") and "COLUMN" in str(y) or y[0] == "closure" or y[0] == "call" and y[1] in p.fns for y in dd.deep(e))]
        r.check(bool(cols), "cell:col:" + q, "a cell is not written with the column under which it is stored", w_of(p, q, b))

def nonefact(e, v, x):
    """e = v shows that the option x is None"""
    t = truth((e, v))
    if e == ("discr", x): return v == 0 or v == ("not", (1,))
    if t and t[0][0] == "call" and t[0][2] and t[0][2][0] == x:
        n = t[0][1].rsplit("::", 1)[-1]
        return n == "is_some" and not t[1] or n == "is_none" and t[1]
    return False

def flush(p, w, r, G, L, defs, rowfns, E):
    CUR = W + "current_row"
    def stores(q):
        f = p.fns[q]
        for b in f.reachable():
            if f.cleanup(b): continue
            for st in f.stmts(b):
                if st[0] == "=" and any(isinstance(x, list) and is_field(x) and fkey(x) == CUR for x in st[1][1:]): yield b, w.sym(q).rv(st[2])
    fl = {}
    for q in sorted(p.fns):
        f = p.fns[q]
        ss = list(stores(q)) if q.startswith("worksheet::") else []
        if not ss: continue
        calls = {b for b, t in f.calls() if not f.cleanup(b) and any(g in rowfns for g in p.callees(t))}
        if calls or any(g in rowfns for g in p.reach([q])): fl[q] = (ss, calls)
        else: r.bad("current:" + q, "the current row is changed without the row before it being written", loc(p, q))
    r.floor("functions that write the buffered row", len(fl), 1)
    for q, (ss, calls) in sorted(fl.items()):
        f = p.fns[q]; dd = defs(q); wh = loc(p, q); sy = dd.sy
        nxt = {e for b, e in ss}
        r.check(len(nxt) == 1 and list(nxt)[0][0] == "arg", "flush:next:" + q, "the current row is set to something else than the row that follows", wh)
        if len(nxt) != 1: continue
        nx = list(nxt)[0]
        r.check(must_pass(f, {b for b, e in ss}), "flush:advance:" + q, "the buffered row can be written without the current row being advanced", wh)
        # rows written ahead
        rem = {b for b, t in f.calls() if not f.cleanup(b) and callname(t).endswith(("::remove", "::pop_first", "::remove_entry")) and W + "write_ahead" in fields(sy.op(t["args"][0])) and any(y == nx for a in t["args"][1:] for y in dd.deep(sy.op(a)))}
        r.check(bool(rem) and must_pass(f, rem), "flush:ahead:" + q, "the cells that were written ahead for the next row are not taken up on every path", wh)
        ins = set()
        for b, t in f.calls():
            if f.cleanup(b) or not callname(t).endswith(("::insert", "::extend", "::append")) or not t["args"]: continue
            es = [dd.deep(sy.op(a)) for a in t["args"]]
            if W + "data_table" in flds(es[0]) and any(y[0] == "call" and y[3] in rem for x in es[1:] for y in x) and any(y == nx for x in es[1:2] for y in x): ins.add(b)
        for b in sorted(rem):
            e = sy.call(b, f.term(b))
            okp = must_pass(f, ins, b, lambda bb, v: nonefact(sy.op(f.term(bb)["on"]), v, e))
            r.check(bool(ins) and okp, "flush:ahead:stored:" + q, "the cells that were written ahead are dropped", wh)
        # what is taken out is put back
        taken = [b for b, t in f.calls() if not f.cleanup(b) and re.search(r"mem::(swap|take|replace)$", callname(t)) and any(W + "changed_rows" in fields(sy.op(a)) for a in t["args"])]
        back = set(taken) | {b for b in f.reachable() for st in f.stmts(b) if st[0] == "=" and any(isinstance(x, list) and is_field(x) and fkey(x) == W + "changed_rows" for x in st[1][1:])}
        first = [b for b in taken if not any(b in f.reachable(f.term(x)["to"]) for x in taken if x != b)]
        for b in first:
            r.check(must_pass(f, back - {b}, f.term(b)["to"]), "flush:options:" + q, "the row options are lost when a row is written", wh)
        # the row is written when it has cells or options
        opts = set(); cols = set()
        for b in calls:
            for a in f.term(b)["args"]:
                if "p" in a and "RowOptions" in f.ty(a["p"][0]): opts.add(sy.op(a))
        for b, t in f.calls():
            if not f.cleanup(b) and "CellType" in f.ty(t["dest"][0]) and callname(t).endswith(("::get", "::get_mut", "::remove")) and b not in rem: cols.add(sy.call(b, t))
        if calls:
            for x, nm in ((opts, "options"), (cols, "cells")):
                good = len(x) >= 1 and all(must_pass(f, calls, 0, lambda bb, v, y=y: nonefact(sy.op(f.term(bb)["on"]), v, y)) for y in x)
                r.check(good, "flush:row:%s:%s" % (nm, q), "a row that has %s can be passed over" % nm, wh)
    # who flushes what
    orderly = {}
    for q in sorted(fl):
        for up in sorted(G.callers.get(q, ())):
            f = p.fns.get(up)
            if not f: continue
            dd = defs(up); sy = dd.sy; wh = loc(p, up); k = []
            for b, t in f.calls():
                if f.cleanup(b) or q not in p.callees(t): continue
                e = sy.op(t["args"][-1]); k.append((b, e)); xs = dd.deep(e)
                nx = {y[3] for y in xs if y[0] == "call" and y[1].endswith("::next")}
                if nx:
                    for nb in nx: rowlist(p, w, r, up, nb, dd, wh)
                elif e[0] == "arg": pass
                elif e[0] == "bin" and "Add" in e[1] and const(e[3]) == 1 and e[2][0] == "fld" and e[2][2] == CUR: pass
                else: r.bad("order:%s" % up, "the row that follows the buffered row is not known to follow it", w_of(p, up, b))
            orderly[up] = k
            own = dfs(p, up)
            for g in p.callgraph().get(up, ()):
                if g != q and not g in fl: own |= tfs(p, g)
            for fld in ("write_ahead", "changed_rows"):
                r.check(W + fld in own, "order:%s:%s" % (fld, up), "rows are flushed without regard to %s" % ("the rows that were written ahead" if fld == "write_ahead" else "rows that only have options"), wh)
            if any(e[0] == "arg" for b, e in k):
                # flush up to a row: ends with that row
                r.check(must_pass(f, {b for b, e in k if e[0] == "arg"}), "order:target:" + up, "the rows can be flushed without the given row becoming the current one", wh)
            else:
                # flush everything: ends with the row after the current one, if the current one has anything
                last = {b for b, e in k if e[0] == "bin"}
                def empty(bb, v, fld):
                    t = truth((sy.op(f.term(bb)["on"]), v))
                    return bool(t) and t[0][0] == "call" and t[0][1].endswith("::contains_key") and not t[1] and W + fld in fields(t[0]) and any(y[0] == "fld" and y[2] == CUR for a in t[0][2][1:] for y in dd.deep(a))
                for fld in ("data_table", "changed_rows"):
                    r.check(bool(last) and must_pass(f, last, 0, lambda bb, v: empty(bb, v, fld)), "order:last:%s:%s" % (fld, up), "the last row is not flushed when it has %s" % ("cells" if fld == "data_table" else "options only"), wh)
                for b in sorted(last):
                    again = {b2 for b2, e in k if b2 != b and b2 in f.reachable(f.term(b)["to"])}
                    r.check(not again, "order:after:" + up, "rows are flushed after the last row", wh)
    r.floor("functions that flush rows", len(orderly), 2)
    # inserting a cell
    tofl = {q for q, k in orderly.items() if any(e[0] == "arg" for b, e in k)}; allfl = set(orderly) - tofl
    n = 0
    for q in sorted(p.fns):
        f = p.fns[q]
        fb = {b for b, t in f.calls() if not f.cleanup(b) and any(g in tofl for g in p.callees(t))}
        if not fb or q in orderly: continue
        n += 1; dd = defs(q); sy = dd.sy; wh = loc(p, q)
        def puts(fld):
            out = set()
            for b, t in f.calls():
                if f.cleanup(b): continue
                if any(W + fld in fields(sy.op(a)) and "p" in a and f.ty(a["p"][0]).startswith("&mut") for a in t["args"]) and (any("insert" in g or "entry" in g for g in p.callees(t)) or callname(t).endswith(("::insert", "::entry"))): out.add(b)
            return out
        data = puts("data_table"); ahead = puts("write_ahead")
        def cmp(o, x, y): return any(z[0] == "arg" for z in (x,)) and y[0] == "fld" and y[2] == CUR
        def ge(fa): return any(o in ("Le",) and y[0] == "arg" and x[0] == "fld" and x[2] == CUR for o, x, y in comparisons(fa)) or gt(fa)
        def gt(fa): return any(o == "Lt" and y[0] == "arg" and x[0] == "fld" and x[2] == CUR for o, x, y in comparisons(fa))
        def le(fa): return any(o == "Le" and x[0] == "arg" and y[0] == "fld" and y[2] == CUR for o, x, y in comparisons(fa))
        off = flag(W + "use_constant_memory", False)
        for x in (ge, gt, le): x.closed = False
        for b in sorted(data):
            r.check(G.passed(q, b, anyof2(off, ge)), "insert:order:" + q, "a cell can be stored in a row that was already flushed", w_of(p, q, b))
            # behind a flush, or in the current row
            r.check(passed_or(f, w, q, G, b, fb, anyof2(off, le)), "insert:flush:" + q, "a cell of a later row can be stored without the buffered row having been flushed", w_of(p, q, b))
        on = flag(W + "is_writing_ahead", True)
        for b in sorted(ahead):
            r.check(G.passed(q, b, on), "insert:ahead:" + q, "a cell is put in the write-ahead buffer outside of writing ahead", w_of(p, q, b))
            r.check(G.passed(q, b, gt), "insert:ahead:row:" + q, "a cell that is not in a later row is put in the write-ahead buffer", w_of(p, q, b))
        for b in sorted(fb):
            r.check(G.passed(q, b, flag(W + "is_writing_ahead", False)), "insert:ahead:flush:" + q, "the buffered row is flushed while writing ahead", w_of(p, q, b))
            e = sy.op(f.term(b)["args"][-1])
            r.check(e[0] == "arg", "insert:row:" + q, "rows are not flushed up to the row of the cell", w_of(p, q, b))
            r.check(G.passed(q, b, gt), "insert:again:" + q, "the buffered row is flushed although it is the row of the cell", w_of(p, q, b))
    r.floor("functions that store cells in constant-memory mode", n, 1)
    # packaging
    m = 0
    for q in sorted(p.fns):
        if not q.startswith(("packager::", "workbook::", "worksheet::")): continue
        f = p.fns[q]; sy = w.sym(q)
        cp = [b for b, t in f.calls() if not f.cleanup(b) and callname(t).endswith(("::rewind", "::get_ref", "::into_inner", "::seek")) and t["args"] and W + "file_writer" in fields(sy.op(t["args"][0]))]
        if not cp or q in fl: continue
        m += 1
        fb = {b for b, t in f.calls() if not f.cleanup(b) and any(g in allfl or (allfl & p.reach([g]) and not (tofl & p.reach([g]))) for g in p.callees(t))}
        for b in cp:
            seen = set(); st = [0]
            while st:
                x = st.pop()
                if x in seen or x in fb or f.cleanup(x): continue
                seen.add(x); st += f.succ(x)
            r.check(bool(fb) and b not in seen, "package:flush:" + q, "the temporary file is copied without the remaining rows having been flushed", w_of(p, q, b))
    r.floor("functions that copy the temporary file", m, 1)

def anyof2(*ps):
    def pred(fa): return any(x(fa) for x in ps)
    pred.closed = False; return pred

def passed_or(f, w, q, G, goal, blocks, pred):
    """every path to goal passes one of the blocks or an accepting edge"""
    fa = w.facts(q); sy = fa.sym
    seen = set(); st = [(0, k) for k in (fa.parts.get(0) or {frozenset(): 0})]
    while st:
        b, key = st.pop()
        if (b, key) in seen or b in blocks or f.cleanup(b) or b not in fa.kcache: continue
        seen.add((b, key))
        if b == goal: return False
        t = f.term(b); keys = list(fa.transfer(b, {key: frozenset()}))
        if t["k"] != "switch":
            st += [(x, k) for x in f.succ(b) for k in keys]; continue
        e = sy.op(t["on"]); vals = tuple(int(v) for v, _ in t["targets"])
        for x, v in [(x, int(v)) for v, x in t["targets"]] + [(t["else"], ("not", vals))]:
            for k in keys:
                fs = fa.refine((e, v), dict(k))
                if fs is None or G.accepts(fs, pred): continue
                st.append((x, k))
    return True

def rowlist(p, w, r, q, nb, dd, wh):
    """the rows that are flushed in a loop are in order and without repeats"""
    f = p.fns[q]; xs = dd.deep(dd.sy.op(f.term(nb)["args"][0]))
    locs = {y[1] for y in xs if y[0] == "loc"}
    n = f.term(nb); tys = {f.ty(l) for l in locs} | {str(n.get("targs")), str(n["f"])} | {f.ty(o["p"][0]) for o in n["args"] if "p" in o}
    if any(re.search("BTree(Set|Map)|btree_(set|map)|btree::(set|map)", t) for t in tys): r.ok(); return
    vec = {l for l in locs if f.ty(l).startswith("std::vec::Vec<")}
    done = {}
    for b, t in f.calls():
        if f.cleanup(b) or not t["args"]: continue
        n = callname(t).rsplit("::", 1)[-1]
        if n.startswith("sort") or n.startswith("dedup"):
            ys = dd.deep(dd.sy.op(t["args"][0]))
            if any(y[0] == "loc" and y[1] in vec for y in ys): done.setdefault("sort" if n.startswith("sort") else "dedup", set()).add(b)
    for k, msg in (("sort", "are not sorted"), ("dedup", "can be repeated")):
        bs = done.get(k, set()); seen = set(); st = [0]
        while st:
            x = st.pop()
            if x in seen or x in bs or f.cleanup(x): continue
            seen.add(x); st += f.succ(x)
        r.check(bool(bs) and nb not in seen, "order:%s:%s" % (k, q), "the rows that are flushed " + msg, wh)
    if "sort" in done and "dedup" in done:
        r.check(all(d in f.reachable(f.term(s)["to"]) for s in done["sort"] for d in done["dedup"]), "order:dedup:first:" + q, "the rows that are flushed can be repeated: they are not sorted before repeats are removed", wh)
        late = [b for b, t in f.calls() if not f.cleanup(b) and callname(t).endswith(("::push", "::insert", "::extend")) and t["args"] and any(y[0] == "loc" and y[1] in vec for y in dd.deep(dd.sy.op(t["args"][0]))) and b in f.reachable(f.term(min(done["dedup"]))["to"])]
        r.check(not late, "order:late:" + q, "rows are added to the rows to flush after they were sorted", wh)
    # the bounds
    CUR = W + "current_row"
    for b, t in f.calls():
        if f.cleanup(b) or not callname(t).endswith("::next") or b == nb: continue
        for y in dd.deep(dd.sy.op(t["args"][0])):
            if y[0] == "agg" and str(y[1]).endswith(("ops::Range", "ops::RangeInclusive")) and len(y[3]) >= 2:
                lo, hi = y[3][0], y[3][1]
            elif y[0] == "call" and y[1].endswith("RangeInclusive::<Idx>::new"): lo, hi = y[2][0], y[2][1]
            else: continue
            r.check(lo[0] == "bin" and "Add" in lo[1] and const(lo[3]) == 1 and lo[2][0] == "fld" and lo[2][2] == CUR, "order:from:" + q, "the rows to flush do not start after the current row", wh)
            r.check(hi[0] != "arg" or y[0] == "agg" and str(y[1]).endswith("ops::Range"), "order:to:" + q, "the rows to flush reach the row that is flushed to", wh)
    for b, t in f.calls():
        if f.cleanup(b) or not callname(t).endswith("::filter"): continue
        e = dd.sy.call(b, t)
        for y in subexprs(e):
            if y[0] == "closure" and y[1] in p.fns:
                for bb, x, s, k in w.ret_defs(y[1]):
                    for o, l, h in comparisons((x, 1)):
                        if ("arg", 2) in subexprs(l): r.check(o == "Lt", "order:strict:" + q, "the rows to flush include the row that is flushed to", wh)

def modes(p, w, r):
    """a worksheet in constant-memory mode is set up completely; writing ahead ends"""
    n = 0
    def sets(q, fld):
        f = p.fns[q]
        for b in sorted(f.reachable()):
            if f.cleanup(b): continue
            for st in f.stmts(b):
                if st[0] == "=" and any(isinstance(x, list) and is_field(x) and fkey(x) == W + fld for x in st[1][1:]): yield b, w.sym(q).rv(st[2])
            t = f.term(b)
            if t["k"] == "call" and any(isinstance(x, list) and is_field(x) and fkey(x) == W + fld for x in t["dest"][1:]): yield b, w.sym(q).call(b, t)
    for q in sorted(p.fns):
        f = p.fns[q]
        on = [b for b, e in sets(q, "use_constant_memory") if const(e) != 0]
        if not on: continue
        n += 1
        def has(fld, test, what):
            bs = {b for b, e in sets(q, fld) if test(e)}
            r.check(bool(bs) and must_pass(f, bs), "mode:%s:%s" % (fld, q), "a constant-memory worksheet is created without %s" % what, loc(p, q))
            return bool(bs)
        has("file_writer", lambda e: e[0] == "agg" and e[2] == "Some" or e[0] != "agg", "its temporary file")
        has("workbook_xf_indices", lambda e: any(y[0] == "fld" and y[2] == "workbook::Workbook.xf_indices" for y in subexprs(e)), "the workbook's formats")
        has("has_workbook_global_xfs", lambda e: const(e) == 1 or const(e) is None, "the workbook's formats")
        has("embedded_image_table", lambda e: any(y[0] == "fld" and y[2] == "workbook::Workbook.embedded_image_table" for y in subexprs(e)), "the workbook's embedded images")
        inl = [e for b, e in sets(q, "use_inline_strings")]
        if not (inl and all(const(e) == 1 for e in inl)):
            has("string_table", lambda e: any(y[0] == "fld" and y[2] == "workbook::Workbook.string_table" for y in subexprs(e)), "the workbook's strings")
            has("has_workbook_global_sst", lambda e: const(e) == 1 or const(e) is None, "the workbook's strings")
    r.floor("functions that set up constant-memory worksheets", n, 1)
    # writing ahead
    AH = W + "is_writing_ahead"; setters = {q for q in p.fns if q.startswith("worksheet::") and list(sets(q, "is_writing_ahead"))}
    k = 0
    for q in sorted(p.fns):
        f = p.fns[q]
        if q in setters: continue
        def ev(val): return {b for b, t in f.calls() if not f.cleanup(b) and any(g in setters for g in p.callees(t)) and const(w.sym(q).op(t["args"][-1])) == val}
        on, off = ev(1), ev(0)
        if not on and not off: continue
        k += 1
        oks = {b for b, e, s, kk in w.ret_defs(q) if w.outcome(e, "ok") is not None}
        for b in sorted(on):
            seen = set(); st = [f.term(b)["to"]]
            while st:
                x = st.pop()
                if x in seen or x in off or f.cleanup(x): continue
                seen.add(x); st += f.succ(x)
            r.check(not (oks & seen), "ahead:end:" + q, "writing ahead is not ended before %s returns" % q, w_of(p, q, b))
    r.floor("functions that write ahead", k, 3)
    # loops over rows of a range write ahead
    L = Loops(p, w, None); z = 0
    for q in sorted(p.fns):
        f = p.fns[q]
        if not q.startswith("worksheet::Worksheet::"): continue
        dd = None
        for b, t in f.calls():
            if f.cleanup(b): continue
            g = [x for x in p.callees(t) if x.startswith("worksheet::Worksheet::write") or x.startswith("worksheet::Worksheet::store_")]
            if not g or len(t["args"]) < 3: continue
            if "worksheet::Worksheet::insert_cell" not in p.reach(g) and not any("insert_cell" in x for x in p.reach(g)): continue
            e = w.sym(q).op(t["args"][1])
            nx = [y for y in subexprs(e) if y[0] == "call" and y[1].endswith("::next") and "Range" in y[1] and "ops" in y[1]]
            if not nx: continue
            z += 1
            on = {x for x, u in f.calls() if any(h in setters for h in p.callees(u)) and const(w.sym(q).op(u["args"][-1])) == 1}
            off = {x for x, u in f.calls() if any(h in setters for h in p.callees(u)) and const(w.sym(q).op(u["args"][-1])) == 0}
            # may the call be reached with writing ahead off?
            seen = set(); st = [(0, False)]; bad = False
            while st:
                x, a = st.pop()
                if (x, a) in seen or f.cleanup(x): continue
                seen.add((x, a))
                if x == b and not a: bad = True; break
                a2 = True if x in on else False if x in off else a
                st += [(y, a2) for y in f.succ(x)]
            r.check(not bad, "ahead:loop:" + q, "%s writes the later rows of a range without writing ahead" % q, w_of(p, q, b))
    r.floor("loops over the rows of a range", z, 2)
