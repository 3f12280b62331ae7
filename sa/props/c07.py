"""C07: saving again starts from the workbook alone.

What a save leaves behind in the workbook must not change what the next save
writes. state.State lists, over all paths of the call graph below the common
save function, the places in the workbook that a save adds to or overwrites and
that no path from the start of the save clears first."""
import re
from mir import *
from sym import *
from state import State, absent, guards, lastfield, norm
from terms import Trace

ROOT = "workbook::Workbook::save_internal"
# Places that a save writes and that the next save may read before it writes
# them again, each with the reason why the next save still starts afresh.
T = "the tables of formats keep what was used once, by design"
CM = "constant memory mode writes rows as they come; what was written is not written again"
CH = "the worksheet's own copy of the chart; the user cannot change it, and the value is computed from that copy alone"
ALLOWED = {
    "workbook::Workbook.feature_property_bags": T, "workbook::Workbook.has_hyperlink_style": T,
    "worksheet::Worksheet.current_row": CM, "worksheet::Worksheet.data_table": CM, "worksheet::Worksheet.has_sheet_data": CM,
    "worksheet::Worksheet.global_xf_indices": "constant memory mode does not read it, the other mode reads it after it was made",
    "worksheet::Worksheet.use_constant_memory": "chartsheets stay chartsheets",
    "worksheet::CellRange.first_col": "minimum of the rows of a filter, which cannot be taken back", "worksheet::CellRange.first_row": "minimum", "worksheet::CellRange.last_col": "maximum", "worksheet::CellRange.last_row": "maximum",
    "worksheet::Worksheet.global_embedded_image_indices": "made again whenever the worksheet has embedded images, and read only for those",
    "worksheet::Worksheet.vml_data_id": "made again whenever the worksheet has a VML part, and read only for that", "worksheet::Worksheet.vml_shape_id": "as vml_data_id",
    "chart::Chart.axis_ids": CH, "chart::Chart.axis2_ids": CH, "chart::Chart.category_has_num_format": CH, "chart::Chart.gap": CH, "chart::Chart.overlap": CH,
    "chart::Chart.has_secondary_axis": CH, "chart::ChartLegend.font": CH, "chart::Chart.protection_on": CH, "chart::ChartFont.right_to_left": CH,
    "chart::ChartRange.cache": "made again for every range of every chart",
    "table::TableColumn.dxf_index": "made again whenever the column has a format, which cannot be taken back",
}
STREAM = {"worksheet::Worksheet.file_writer"}   # rows of constant memory mode are added as they come
# Defaults that are filled in once: they depend on nothing that can change.
ONCE = {"chart::Chart.axis_ids", "chart::Chart.axis2_ids", "chart::ChartLegend.font", "worksheet::Worksheet.has_sheet_data"}
FORMATS = {"workbook::Workbook.xf_formats", "workbook::Workbook.dxf_formats", "workbook::Workbook.xf_indices", "workbook::Workbook.dxf_indices"}

def show(x): return "/".join(z.rsplit("::", 1)[-1] for z in x[1] if isinstance(z, str))
def loc(p, q, b): f = p.fns[q]; return "%s:%d" % (f.file, f.blocks[b][3])

def flds(e): return {z[2] for z in subexprs(e) if z[0] == "fld" and "::" in z[2]}
def derived(w, p, q, e, seen):
    """the fields behind an expression, also through locals"""
    out = flds(e); f = p.fns[q]; sy = w.sym(q)
    for z in subexprs(e):
        if z[0] == "call" and z[1] in p.fns: out |= p.direct_fields()[z[1]][0]
        if z[0] == "loc" and z[1] not in seen:
            seen.add(z[1])
            for b in f.reachable():
                if f.cleanup(b): continue
                for st in f.stmts(b):
                    if st[0] == "=" and st[1][0] == z[1]: out |= derived(w, p, q, sy.rv(st[2]), seen)
                t = f.term(b)
                if t["k"] == "call" and t["dest"][0] == z[1]: out |= derived(w, p, q, sy.call(b, t), seen)
    return out

def constant(e):
    if e[0] == "c": return True
    return e[0] == "agg" and all(constant(z) for z in e[3])

def run(c, r):
    p = c.prog(); w = World(p); X = Trace(p)
    if ROOT not in p.fns: r.bad("missing:root", "the common save function was not found"); return
    S = State(p, w, X, [ROOT]); grow, sets, kills, _, _ = S.sum[ROOT]
    # every way to save goes through the function that was analysed
    ex = [q for q, f in p.fns.items() if f.exported and f.impl and f.impl["self"] == "workbook::Workbook" and re.search(r"::save(_|$)", q)]
    for q in ex: r.check(ROOT in p.reach([q]), "root:" + q, "this way to save does not go through " + ROOT, loc(p, q, 0))
    r.floor("ways to save", len(ex), 3)
    r.floor("functions", len(S.sum), 500); r.floor("kills", len(kills), 25)
    # what is added to something that an earlier save left behind
    for x, src in sorted(grow, key=lambda z: show(z[0])):
        if lastfield(x) in STREAM: r.ok(); continue
        for q, m, b in sorted(src):
            f = p.fns[q]; t = f.term(b); sy = w.sym(q)
            if m == "insert" and t["k"] == "call" and "Set" in (t.get("res") or t.get("f") or "") and len(t["args"]) > 1 and constant(sy.op(t["args"][1])):
                fs = set()
                for e, v in w.at(q, b): fs |= derived(w, p, q, e, set())
                top = {z for z in fs if z.startswith(("workbook::Workbook.", "worksheet::Worksheet."))}
                if top and top <= FORMATS: r.ok(); continue
            r.bad("grows:%s:%s" % (show(x), q), "a save adds to %s, where an earlier save has left what it added" % show(x), loc(p, q, b))
    r.ok(len(S.excused))
    # entries that are made for absent keys only are not kept when what is made with them is not
    killed = {lastfield(x) for x in kills}; pairs = {}
    for (q, b, y), fs in S.excused.items():
        m = re.match(r"it fills (\S+), which was empty$", y)
        if m: pairs.setdefault((q, m.group(1)), set()).update(fs)
    for (q, fld), bs in S.arms.items():
        if (q, fld) in pairs: pairs[(q, fld)] |= {x for b, x in S.armev.get(q, ()) if b in bs}
    df = p.direct_fields()
    for (q, fld), fs in sorted(pairs.items()):
        # ... unless it is made again from the keys
        again = {x for x in fs if any(x in df[g][1] and fld not in df[g][1] and fld in p.trans_fields()[g][0] for g in df if (g, fld) not in pairs)}
        gone = sorted(x for x in fs - again if x != fld and x in killed)
        own = fld in killed
        r.check(own or not gone, "kept:%s:%s" % (fld, q), "%s keeps its keys from one save to the next, but %s, which is filled for new keys only, is cleared" % (fld, ", ".join(gone)), loc(p, q, 0))
    r.count("tables whose new keys fill something else", len(pairs))
    # what is read before this save has written it
    W = S.writes(ROOT); fields = {y[-1] for y in W if y}
    R = State(p, w, X, [ROOT], fields); reads = R.sum[ROOT][3]
    r.floor("places that a save writes", len(W), 100)
    hit = set()
    for x, src in sorted(reads, key=lambda z: show(z[0])):
        n = norm(x); k = [y for y in W if n[:len(y)] == y]
        if not k: r.ok(); continue
        fld = max(k, key=len)[-1]
        if fld in ALLOWED: hit.add(max(k, key=len)); r.ok(); continue
        q, m, b = sorted(src)[0]; q2, m2, b2 = sorted(W[max(k, key=len)])[0]
        r.bad("stale:" + show((0, max(k, key=len))), "%s is read here before this save has written it: it may hold what an earlier save wrote in %s" % (show((0, max(k, key=len))), q2), loc(p, q, b))
    r.count("places that are written before they are read", len(W) - len(hit)); r.count("places that are kept on purpose", len(hit))
    # none of the places that are kept is filled in only when it is empty
    for y in sorted(hit):
        for q, m, b in sorted(W[y]):
            if y[-1] in ONCE or m not in ("store", "minmax"): r.ok(); continue
            own = any(y[-1] in guards(fa) for fa in w.at(q, b))
            r.check(not own, "once:%s:%s" % (show((0, y)), q), "%s is only written when it is empty, so an earlier save's value stays" % show((0, y)), loc(p, q, b))
    for x in sorted(kills, key=show)[:12]: r.sample("cleared or rewritten by every save: " + show(x))
