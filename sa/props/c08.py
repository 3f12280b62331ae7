"""Package assembly by abstract interpretation (sa/pkg.py). For every combination of
the kinds of objects that a worksheet can hold, the functions that prepare and write
the package are interpreted over MIR for one symbolic worksheet; collections are
symbolic, counters are linear forms, and the result is the sequence of parts, content
types and relationships with the loops and conditions they are under. On it: (1) each
family of numbered parts is numbered 1, 2, 3 ... over the whole package; (2) each part
has exactly the content type of its kind, by an override with the same number or by
the extension, and an override names only written parts; (3) each relationship file
belongs to a written part with the same number, and is written whenever there is a
relationship for it; (4) the target of each relationship is a written part of the kind
of the relationship, with the same number under the same conditions; (5) each part is
the target of a relationship. How Relationship and ContentTypes write down what they
are given is interpreted too."""
RULE = "in every configuration, parts, overrides and relationship targets are the same set of names with the same numbering under the same conditions"
ASSUMPTIONS = ["Objects of one kind in a worksheet are independent of each other; images with the same hash have the same type.",
    "Chartsheets hold a chart and header images only.",
    "The content type and relationship type of each kind of part are the reviewed tables in sa/props/c08.py (ECMA-376 and the MS-XLSX extensions)."]
import itertools, os, re
from pkg import *
from pkgrules import *

SS = "application/vnd.openxmlformats-officedocument.spreadsheetml."
# part pattern -> (content type, relationship: kind, type, version)
PARTS = {
    "xl/workbook.xml": (None, ("doc", "officeDocument", "")),
    "docProps/core.xml": ("application/vnd.openxmlformats-package.core-properties+xml", ("pkg", "metadata/core-properties", "")),
    "docProps/app.xml": ("application/vnd.openxmlformats-officedocument.extended-properties+xml", ("doc", "extended-properties", "")),
    "docProps/custom.xml": ("application/vnd.openxmlformats-officedocument.custom-properties+xml", ("doc", "custom-properties", "")),
    "xl/worksheets/sheet{#}.xml": (SS + "worksheet+xml", ("doc", "worksheet", "")),
    "xl/chartsheets/sheet{#}.xml": (SS + "chartsheet+xml", ("doc", "chartsheet", "")),
    "xl/theme/theme1.xml": ("application/vnd.openxmlformats-officedocument.theme+xml", ("doc", "theme", "")),
    "xl/styles.xml": (SS + "styles+xml", ("doc", "styles", "")),
    "xl/sharedStrings.xml": (SS + "sharedStrings+xml", ("doc", "sharedStrings", "")),
    "xl/metadata.xml": (SS + "sheetMetadata+xml", ("doc", "sheetMetadata", "")),
    "xl/tables/table{#}.xml": (SS + "table+xml", ("doc", "table", "")),
    "xl/comments{#}.xml": (SS + "comments+xml", ("doc", "comments", "")),
    "xl/drawings/drawing{#}.xml": ("application/vnd.openxmlformats-officedocument.drawing+xml", ("doc", "drawing", "")),
    "xl/charts/chart{#}.xml": ("application/vnd.openxmlformats-officedocument.drawingml.chart+xml", ("doc", "chart", "")),
    "xl/drawings/vmlDrawing{#}.vml": ("application/vnd.openxmlformats-officedocument.vmlDrawing", ("doc", "vmlDrawing", "")),
    "xl/media/image{#}.{ext}": (None, ("doc", "image", "")),
    "xl/vbaProject.bin": ("application/vnd.ms-office.vbaProject", ("office", "vbaProject", "2006")),
    "xl/vbaProjectSignature.bin": ("application/vnd.ms-office.vbaProjectSignature", ("office", "vbaProjectSignature", "2006")),
    "xl/richData/richValueRel.xml": ("application/vnd.ms-excel.richvaluerel+xml", ("office", "richValueRel", "2022/10")),
    "xl/richData/rdrichvalue.xml": ("application/vnd.ms-excel.rdrichvalue+xml", ("office", "rdRichValue", "2017/06")),
    "xl/richData/rdrichvaluestructure.xml": ("application/vnd.ms-excel.rdrichvaluestructure+xml", ("office", "rdRichValueStructure", "2017/06")),
    "xl/richData/rdRichValueTypes.xml": ("application/vnd.ms-excel.rdrichvaluetypes+xml", ("office", "rdRichValueTypes", "2017/06")),
    "xl/featurePropertyBag/featurePropertyBag.xml": ("application/vnd.ms-excel.featurepropertybag+xml", ("office", "FeaturePropertyBag", "2022/11")),
}
WORKBOOK = {0: SS + "sheet.main+xml", 1: "application/vnd.ms-excel.sheet.macroEnabled.main+xml"}
IMAGES = {"png": "image/png", "jpeg": "image/jpeg", "gif": "image/gif", "bmp": "image/bmp"}
SCHEMAS = {"add_document_relationship": "http://schemas.openxmlformats.org/officeDocument/2006/relationships/{type}",
    "add_package_relationship": "http://schemas.openxmlformats.org/package/2006/relationships/{type}",
    "add_office_relationship": "http://schemas.microsoft.com/office/{version}/relationships/{type}"}
# an item of the first collection is there only if the second one has items
IMPLIED = {"workbook::Workbook.embedded_images": ("ne", "worksheet::Worksheet.embedded_images")}

def configs(thorough):
    out = []
    K = list(KINDS)
    if thorough: sets = [set(x for i, x in enumerate(K) if n >> i & 1) for n in range(1 << len(K))]
    else:
        sets = [set(), set(K)] + [{a} for a in K] + [set(K) - {a} for a in K] + [set(x) for x in itertools.combinations(K, 2)]
    for s in sets:
        out.append((tuple(x for x in K if x in s), {}))
        if "notes" not in s and (thorough or len(s) <= 1 or len(s) >= len(K) - 1): out.append((tuple(x for x in K if x in s), {"vml": True}))
    for s in (("charts",), ("charts", "header_footer_images")): out.append((s, {"chartsheet": True}))
    out.append((tuple(K), {"memory": True}))
    return out
def label(c):
    return "+".join(c[0]) + "".join(" %s" % k for k in c[1]) or "empty"

def examine(p, c, bad, ok):
    """the obligations of one configuration"""
    k = analyse(p, set(c[0]), **c[1])
    lab = label(c)
    if k is None: bad("root", "the function that assembles the package is not unique", ""); return None
    N = Names(k)
    def B(key, msg, e=None): bad(key, "with %s: %s" % (lab, msg), e[1] if e else "")
    for f, q in sorted(k.bad): B("last:" + f, "%s gets the value of the last worksheet only" % short(f), (None, q))
    for m, v in k.mapuse:
        vals = k.mapvals.get(m, [])
        if v in vals or not vals and m[0] != "map": ok()
        else: B("map:" + short(m[1]), "a number is looked up in a map that never gets it (%s)" % show(v), (None, m[1]))
    parts = [e for e in k.events if e[0] == "part"]
    byname = {}; rels_parts = []
    for e in parts:
        pat, nums = pieces(e[2])
        if pat is None or len(nums) > 1: B("name:" + e[1], "a part name is not understood: %s" % show(e[2]), e); continue
        nm = N.number(nums[0], e[-1]) if nums else ()
        if nm is None: B("number:" + pat, "the number of %s is not understood: %s" % (pat, show(nums[0])), e); continue
        if pat.endswith(".rels"): rels_parts.append((e, pat, nm))
        else: byname.setdefault(pat, []).append((e, nm))
    def have(pat, nm, ctx, e, what):
        """a written part with that name, whenever the context holds"""
        c0 = conds(ctx); cand = byname.get(pat, [])
        for x, n in cand:
            if n == nm and conds(x[-1]) <= c0 | implied(ctx): return x
        if not cand: B("%s:%s" % (what, pat), "%s names %s, and no such part is written" % (what, pat), e)
        elif not any(n == nm for x, n in cand): B("%s#:%s" % (what, pat), "%s numbers %s by %s, and the parts are numbered by %s" % (what, pat, shown(nm), " / ".join(shown(n) for x, n in cand)), e)
        else: B("%s?:%s" % (what, pat), "%s names %s in cases where the part is not written" % (what, pat), e)
        return None
    def implied(ctx):
        return frozenset(("if", IMPLIED[x[1]], (1,)) for x in ctx if x[0] == "in" and x[1] in IMPLIED)
    def shown(n): return "nothing" if n == () else show(n[0]) + (" (+%s per worksheet)" % show(n[1]) if n and n[1] else "")
    # (1) the numbering
    for pat, es in sorted(byname.items()):
        if "{#}" not in pat:
            for i, (e, n) in enumerate(es):
                clash = [x for x, _ in es[:i] if not exclusive(x[-1], e[-1])]
                if clash or any(y[0] == "in" for y in e[-1]): B("twice:" + pat, "%s is written more than once" % pat, e)
                else: ok()
            continue
        run = num(1); sheets = False; delta = num(0); d0 = None; good = True
        for e, n in es:
            insheet = SHEET in e[-1]; t = N.times(e[-1]); S = source_of(e[-1])
            if insheet and not sheets: sheets = True; run0 = run
            if insheet != (n[1] is not None) and not (insheet and n[1] is None and False): B("family:" + pat, "%s is numbered %s" % (pat, shown(n)), e); good = False; break
            want = run
            if S: want = plus(want, L({frozenset(("p", x[1]) if x == ("n", S) else x for x in m): c for m, c in t[1]}))
            if n[0] != want: B("family:" + pat, "%s is numbered %s where the parts before it call for %s" % (pat, shown(n), show(want)), e); good = False; break
            run = plus(run, t)
            if insheet: delta = plus(delta, t); d0 = n[1] if d0 is None else d0
        if good and sheets and d0 != delta: B("step:" + pat, "the number of %s grows by %s per worksheet, which has %s of them" % (pat, show(d0), show(delta)), es[-1][0])
        elif good: ok()
    # (2) content types
    over = {}; dflt = {}
    for e in k.events:
        if e[0] == "override":
            pat, nums = pieces(e[2])
            if pat is None or not e[3] or e[3][0] != "s": B("override:" + e[1], "a content type is not understood: %s" % show(e[2]), e); continue
            over.setdefault(pat.lstrip("/"), []).append((e, nums, e[3][1]))
            if not pat.startswith("/"): B("slash:" + pat, "the part name of an override has no leading slash: %s" % pat, e)
        if e[0] == "default" and e[2] and e[2][0] == "s" and e[3] and e[3][0] == "s": dflt.setdefault(e[2][1], []).append((e, e[3][1]))
    for a, b in k.builtin:
        if a.startswith("/"): over.setdefault(a[1:], []).append((("override", "content_types::ContentTypes::new", None, None, ()), [], b))
        else: dflt.setdefault(a, []).append((("default", "content_types::ContentTypes::new", None, None, ()), b))
    for pat, os_ in sorted(over.items()):
        if pat == "xl/workbook.xml":
            got = {}
            for e, _, ct in os_:
                for c1 in conds(e[-1]):
                    if "is_xlsm_file" in str(c1[1]): got[c1[2][0]] = ct
            if got != WORKBOOK: B("type:" + pat, "the content types of %s are %s" % (pat, got), os_[0][0])
            else: ok()
            continue
        for e, nums, ct in os_:
            if pat not in PARTS: B("override:" + pat, "an override for an unknown part %s" % pat, e); continue
            if ct != PARTS[pat][0]: B("type:" + pat, "the content type of %s is %s" % (pat, ct), e); continue
            if not nums: have(pat, (), e[-1], e, "an override") and ok(); continue
            # 1 .. the total
            S = source_of(e[-1])
            if not (isinstance(S, tuple) and S[0] == "tot") or nums[0] != plus(num(1), L({frozenset({("p", S)}): 1})): B("override#:" + pat, "the overrides of %s are numbered %s" % (pat, show(nums[0])), e); continue
            init, delta, _ = k.counters[S[1]]
            cnt = L({})
            for x, n in byname.get(pat, []): cnt = plus(cnt, N.times(x[-1]))
            if init != num(0) or not isL(delta) or N.lin(delta) != cnt: B("overrides:" + pat, "overrides of %s are written for %s + %s per worksheet, which has %s" % (pat, show(init), show(delta), show(cnt)), e)
            else: ok()
        if len(os_) > 1 and any(not exclusive(a[0][-1], b[0][-1]) for a, b in itertools.combinations(os_, 2)): B("double:" + pat, "%s has two overrides" % pat, os_[0][0])
    flags = [e for e in k.events if e[0] == "flag" and "image_types" in str(e[2])]
    if "xl/media/image{#}.{ext}" in byname:
        top = max(k.variant_of(x) or 0 for x in IMAGES)
        def passed(fl):
            m = [x for mm, cc in fl[3][1] for x in mm] if isL(fl[3]) else []
            return fl[2].endswith("PackagerOptions.image_types") and SHEET in fl[-1] and len(m) == 1 and m[0][0] == "p" and fl[3] == L({frozenset(m): 1}) and (m[0][1][:1] != ("range",) or isinstance(m[0][1], tuple) and str(m[0][1][1]).isdigit() and int(m[0][1][1]) > top)
        if any(passed(fl) for fl in flags): ok()
        else: B("flags", "the image types of a worksheet do not reach the content types")
    for pat, es in sorted(byname.items()):
        if pat not in PARTS: B("part:" + pat, "the package has a part of an unknown kind: %s" % pat, es[0][0]); continue
        for e, n in es:
            if pat == "xl/workbook.xml": ok(pat in over) if pat in over else B("untyped:" + pat, "%s has no content type" % pat, e); continue
            if pat.endswith(".{ext}"):
                S = source_of(e[-1])
                ext = next((x for x in e[2][1] if isext(x)), None); o = ext[2][0] if ext else None
                S = S or (o[2] if isinstance(o, tuple) and len(o) > 2 else None)
                if not (isinstance(o, tuple) and o[0] == "o" and o[1] == "image::Image.image_type"): B("ext:" + pat, "the extension of %s is not that of the image" % pat, e); continue
                S2 = "worksheet::Worksheet.embedded_images" if S == "workbook::Workbook.embedded_images" else S
                def covers(fl):
                    o2 = fl[3]
                    while isinstance(o2, tuple) and o2 and o2[0] in ("d", "u") and len(o2) > 1: o2 = o2[1] if o2[0] == "d" else o2[2][0] if o2[2] else None
                    if not isinstance(o2, tuple) or o2[:2] != ("o", "image::Image.image_type") or any(y[0] == "if" for y in fl[-1]): return False
                    return S2 in (source_of(fl[-1]), o2[2] if len(o2) > 2 else None)
                if any(covers(fl) for fl in flags): ok()
                else: B("flag:" + short(S), "the type of an image of %s is not recorded for the content types whenever the image is written" % short(S), e)
                continue
            if pat in over:
                if any(conds(o[-1]) <= conds(e[-1]) for o, nums, ct in over[pat]): ok()
                else: B("untyped:" + pat, "%s has no content type in some cases" % pat, e)
            else:
                x = pat.rsplit(".", 1)[-1]; ds = [o for o, ct in dflt.get(x, []) if ct == PARTS[pat][0] and conds(o[-1]) <= conds(e[-1])]
                if ds: ok()
                else: B("untyped:" + pat, "%s has no content type" % pat, e)
    for x, want in (("rels", "application/vnd.openxmlformats-package.relationships+xml"), ("xml", "application/xml"), ("vml", PARTS["xl/drawings/vmlDrawing{#}.vml"][0]), ("bin", PARTS["xl/vbaProject.bin"][0])):
        for e, ct in dflt.get(x, []):
            if ct != want: B("default:" + x, "the content type of .%s is %s" % (x, ct), e)
            else: ok()
    for x, want in IMAGES.items():
        ds = dflt.get(x, [])
        if len(ds) != 1 or ds[0][1] != want: B("default:" + x, "the content type of .%s is not %s" % (x, want)); continue
        e = ds[0][0]; cs = [c1 for c1 in e[-1] if c1[0] == "if"]; v = k.variant_of(x)
        i = [s for c1 in cs for s in indexes(c1[1])]
        if len(cs) > 1 or cs and (v is None or i != [v] or cs[0][2] != (1,)): B("default?:" + x, "the content type of .%s is written under the wrong condition" % x, e)
        else: ok()
    if not any(ct == "application/vnd.openxmlformats-package.relationships+xml" for e, ct in dflt.get("rels", []) if not conds(e[-1])): B("default:rels", "relationship files have no content type")
    # (3, 4) relationships
    targeted = {}
    for re_, rs, n in relgroups(k):
        if re_ is None:
            for e in rs: B("norels:" + e[1], "a relationship of type %s is added to no relationship file" % show(e[3]), e)
            continue
        if n != 1: B("fresh:" + pieces(re_[2])[0], "the relationship file %s does not begin empty" % pieces(re_[2])[0], re_)
        pat, nums = pieces(re_[2]); own = owner(pat); rn = N.number(nums[0], re_[-1]) if nums else ()
        if own is None: B("rels:" + pat, "%s is not the name of a relationship file" % pat, re_); continue
        if own != "": have(own, rn, re_[-1], re_, "the relationship file") and ok()
        for e in rs:
            t, tn = pieces(e[4]); kind, ver = e[3], e[6]
            if kind and kind[0] == "s" and kind[1] == "hyperlink": ok(); continue
            if t is None: B("target:" + e[1], "the target of a relationship is not understood: %s" % show(e[4]), e); continue
            if e[5] != ("s", ""): B("mode:" + t, "the relationship to %s has a target mode" % t, e)
            if not conds(re_[-1]) <= conds(e[-1]): B("lost:" + t, "the relationship to %s is not written in some cases" % t, e)
            full = resolve(own or "x", t) if own else t
            tnum = N.number(tn[0], e[-1]) if tn else ()
            if full not in PARTS: B("target:" + t, "%s has a relationship to %s" % (own or "the package", full), e); continue
            want = PARTS[full][1]; got = (e[2], kind[1] if kind[0] == "s" else None, ver[1] if ver and ver[0] == "s" else None)
            if got != want: B("reltype:" + full, "the relationship to %s is of type %s" % (full, got), e)
            if tnum is None: B("target#:" + full, "the number of %s is not understood: %s" % (full, show(tn[0])), e); continue
            x = have(full, tnum, e[-1], e, "a relationship")
            if x is not None: ok(); targeted.setdefault(id(x), []).append(e)
    uses = {}; counts = {}
    def used(v, fam):
        for m, _ in v[1]:
            for x in m:
                if x[0] == "ctr": uses[x[1]] = fam
    for pat, es in byname.items():
        t = L({})
        for e, n in es:
            if SHEET in e[-1]:
                t = plus(t, N.times(e[-1]))
                for x in pieces(e[2])[1]: used(x, pat)
        counts[pat] = show(t)
    for re_, rs, n in relgroups(k):
        if re_ is None: continue
        own = owner(pieces(re_[2])[0])
        for x in pieces(re_[2])[1]: used(x, own)
        for e in rs:
            t, tn = pieces(e[4])
            if t and tn: used(tn[0], resolve(own or "x", t) if own else t)
    for pat, os_ in over.items():
        for e, nums, ct in os_:
            S = source_of(e[-1])
            if isinstance(S, tuple) and S[0] == "tot": uses[S[1]] = pat
    deltas = {c: (show(N.lin(d)) if isL(d) else "?", q) for c, (i, d, q) in k.counters.items()}
    k.summary = (uses, counts, deltas, {f: (show_end(v), q) for f, (v, q) in k.ends.items()})
    # (5) nothing is unreachable
    for pat, es in sorted(byname.items()):
        for e, n in es:
            if pat == "[Content_Types].xml": continue
            rs = targeted.get(id(e), [])
            if any(conds(r[-1]) <= conds(e[-1]) | implied(e[-1]) for r in rs): ok()
            else: B("orphan:" + pat, "%s is the target of no relationship%s" % (pat, " in some cases" if rs else ""), e)
    return k
def together(p, R, sums):
    """across the configurations, because a workbook mixes them: a counter takes the same
    steps as the parts that it numbers, also past a worksheet without any, and a flag of
    the package does not forget what an earlier worksheet set"""
    use = {}
    for lab, (uses, counts, deltas, ends) in sums:
        for c, fam in uses.items(): use.setdefault(c, set()).add(fam)
    for c, fams in sorted(use.items()):
        for lab, (uses, counts, deltas, ends) in sums:
            if c not in deltas: continue
            d, q = deltas[c]
            for fam in fams:
                if fam == "": continue
                w = counts.get(fam, "0")
                f = p.fns.get(q)
                R.check(d == w, "mixed:%s" % fam, "a counter of %s that numbers %s grows by %s past a worksheet with %s, which has %s of them" % (q.rsplit("::", 1)[-1], fam, d, lab, w), "%s:%s" % (f.file, f.line) if f else q)
    keys = {k for _, sm in sums for k in sm[3]}
    for k in sorted(keys):
        vals = {}
        for lab, sm in sums:
            if k in sm[3]: vals.setdefault(sm[3][k][0], (lab, sm[3][k][1]))
        # set to true by the worksheets that need it is one value
        R.check(len(vals) == 1, "last:" + k, "%s gets the value of the last worksheet only: %s" % (short(k), "; ".join("%s with %s" % (v, l[0]) for v, l in sorted(vals.items()))), next(iter(vals.values()))[1])
def exclusive(a, b):
    """the two contexts exclude each other"""
    ca = {c[1]: set(c[2]) for c in a if c[0] == "if"}; cb = {c[1]: set(c[2]) for c in b if c[0] == "if"}
    return any(x in cb and not (v & cb[x]) for x, v in ca.items())
def show_end(v): return str(v[1]).lower() if v[0] == "b" else short(v)
def indexes(v):
    if isinstance(v, tuple):
        if v and v[0] == "u" and v[1] == "[]" and isnum(v[2][1]): return [intval(v[2][1])]
        return [i for x in v for i in indexes(x)]
    return []
PARTS["[Content_Types].xml"] = ("application/xml", None)

def builtin(p):
    """what a new ContentTypes holds"""
    k = Pkg(p, {}, {q for q in p.fns if "ContentTypes" in q}); st = St(); q = [x for x in p.fns if x.endswith("ContentTypes::new")]
    if len(q) != 1: return None
    try: k.inline(q[0], st, [])
    except Dead: return None
    out = [(e[2], e[3]) for e in st.ev if e[0] == "pair"]
    out += [(e[2][1], e[3][1]) for e in st.ev if e[0] in ("override", "default") and e[2][0] == "s" and e[3][0] == "s"]
    return out
def variants(p):
    """extension -> number of the image type"""
    qs = [x for x in p.fns if x.endswith("ImageType::extension")]
    if len(qs) != 1: return {}
    f = p.fns[qs[0]]; out = {}
    adt = next((a for n, a in p.adts.items() if n.endswith("ImageType") and a["kind"] == "enum"), None)
    if adt is None: return {}
    k = Pkg(p, {}, {qs[0]})
    for i, v in enumerate(adt["variants"]):
        st = St(); d = int(v["discr"]) if v.get("discr") is not None else i
        try: r = k.inline(qs[0], st, [("var", adt["path"], v["name"])])
        except Dead: continue
        r = k.full(st, r)
        if isinstance(r, tuple) and r and r[0] == "s": out[r[1]] = d
    return out
BUILT = {}
def prepare(p):
    if id(p) not in BUILT: BUILT[id(p)] = (builtin(p), variants(p))
    b, v = BUILT[id(p)]
    Pkg.builtin = b or []; Pkg.variant_of = lambda self, x: v.get(x)
    return b, v

def work(a):
    p, c = POOL[0], a; bads = []; n = [0]
    def bad(key, msg, q): bads.append((key, msg, q))
    def ok(*x): n[0] += 1
    k = examine(p, c, bad, ok)
    return c, bads, n[0], (k.steps if k else 0), (len(k.events) if k else 0), sorted(k.touched) if k else [], k.summary if k else None
POOL = [None]
def sweep(p, cs, fn):
    import multiprocessing as mp
    POOL[0] = p; interesting(p); p.callgraph()
    try:
        with mp.get_context("fork").Pool(min(6, os.cpu_count() or 1)) as pool: return pool.map(fn, cs, chunksize=2)
    except OSError: return [fn(c) for c in cs]

def run(ctx, R):
    p = ctx.prog("full")
    b, v = prepare(p)
    R.check(b is not None and len(b) >= 4, "builtin", "the content types that every package has are not found", "src/content_types.rs")
    R.check(set(IMAGES) <= set(v), "extensions", "the extensions of the image types are %s" % sorted(v), "src/image.rs")
    cs = configs(getattr(ctx, "tier", "quick") == "thorough"); seen = set(); steps = events = total = 0; fns = set()
    sums = []
    for c, bads, n, s, e, fs, sm in sweep(p, cs, work):
        if sm: sums.append((label(c), sm))
        R.ok(n); total += n; steps += s; events += e; fns |= set(fs)
        for key, msg, q in bads:
            if key in seen: continue
            seen.add(key); f = p.fns.get(q)
            R.bad(key, msg, "%s:%s" % (f.file, f.line) if f else q)
    together(p, R, sums)
    writing(p, R)
    R.count("configurations", len(cs)); R.count("interpreted basic blocks", steps); R.count("events", events); R.count("functions interpreted", len(fns))
    R.floor("configurations", len(cs), 50); R.floor("obligations", total, 3000); R.floor("events", events, 5000); R.floor("functions interpreted", len(fns), 40)
    for q in sorted(fns)[:12]: R.sample(q)

def writing(p, R):
    """how relationships and content types are stored and written"""
    rel = [q for q in p.fns if re.search(r"\brelationship::Relationship::", q)]; ct = [q for q in p.fns if re.search(r"\bcontent_types::ContentTypes::", q)]
    for m, want in SCHEMAS.items():
        qs = [q for q in rel if q.endswith("::" + m)]
        if not R.check(len(qs) == 1, "fn:" + m, "Relationship::%s is not found" % m): continue
        f = p.fns[qs[0]]; k = Pkg(p, {}, set(rel)); st = St(); kind, i, j, l = REL[m]
        args = [("own", "relationship::Relationship")] + [("u", "arg", (n,)) for n in range(1, f.nargs)]
        try: k.inline(qs[0], st, args)
        except Dead: pass
        ps = [e for e in st.ev if e[0] == "push" and e[2] == "relationship::Relationship.relationships"]
        want_t = template([x for s in re.split(r"(\{\w+\})", want) if s for x in [s if s[0] != "{" else args[1 + i] if s == "{type}" else args[1]]])
        want_v = ("agg", (want_t, args[1 + j], args[1 + l] if l is not None else ("s", "")))
        R.check(len(ps) == 1 and ps[0][3] == want_v and not ps[0][-1], "store:" + m, "Relationship::%s stores %s" % (m, [show(x) for e in ps for x in (e[3][1] if e[3] and e[3][0] == "agg" else ())]), "src/relationship.rs")
    for m, fld in (("add_default", "defaults"), ("add_override", "overrides")):
        qs = [q for q in ct if q.endswith("::" + m)]
        if not R.check(len(qs) == 1, "fn:" + m, "ContentTypes::%s is not found" % m): continue
        k = Pkg(p, {}, set(ct)); st = St(); args = [("own", "content_types::ContentTypes"), ("u", "arg", (1,)), ("u", "arg", (2,))]
        try: k.inline(qs[0], st, args)
        except Dead: pass
        ps = [e for e in st.ev if e[0] == "push"]
        R.check(len(ps) == 1 and ps[0][2].endswith("." + fld) and ps[0][3] == ("agg", tuple(args[1:])) and not ps[0][-1], "store:" + m, "ContentTypes::%s does not store the pair it is given" % m, "src/content_types.rs")
    def item(fld, i): return [("u", ".%d" % i, (("it", fld),)), ("it", fld) if i == 0 else None]
    def attrs(mod, fns, want, loops):
        qs = [q for q in fns if q.endswith("::assemble_xml_file")]
        if not R.check(len(qs) == 1, "fn:" + mod, "%s::assemble_xml_file is not found" % mod): return
        k = Pkg(p, {}, set(fns)); st = St(); st.fld["relationship::Relationship.id_num"] = num(1)
        try: k.inline(qs[0], st, [("own", mod)])
        except Dead: R.bad("write:" + mod, "%s::assemble_xml_file is not understood" % mod); return
        for fld, a, v, cond in want:
            es = [e for e in st.ev if e[0] == "attr" and e[2] == a and ("in", fld) in e[-1]]
            good = [e for e in es if e[3] in v and (cond or not any(x[0] == "if" for x in e[-1]))]
            R.check(len(es) == 1 and good, "write:%s:%s" % (short(fld), a), "%s of each item of %s is %s" % (a, short(fld), [show(e[3]) for e in es] or "not written"), mod)
        tags = [(e[2], tuple(x[1] for x in e[-1] if x[0] == "in")) for e in st.ev if e[0] == "tag"]
        for t, l in loops: R.check(tags.count((t, l)) == 1 if l else tags.count((t, l)) in (1, 2), "tag:" + t, "<%s> is not written once for each of %s" % (t, [short(x) for x in l]), mod)
    F = "relationship::Relationship.relationships"
    attrs("relationship::Relationship", rel, [(F, "Id", [template(["rId", plus(num(1), L({frozenset({("p", F)}): 1}))])], False), (F, "Type", item(F, 0), False), (F, "Target", item(F, 1), False), (F, "TargetMode", item(F, 2), True)], [("Relationship", (F,)), ("Relationships", ())])
    A, B = "content_types::ContentTypes.defaults", "content_types::ContentTypes.overrides"
    attrs("content_types::ContentTypes", ct, [(A, "Extension", item(A, 0), False), (A, "ContentType", item(A, 1), False), (B, "PartName", item(B, 0), False), (B, "ContentType", item(B, 1), False)], [("Default", (A,)), ("Override", (B,)), ("Types", ())])
    # a new Relationship counts from 1
    qs = [q for q in rel if q.endswith("::new")]
    if R.check(len(qs) == 1, "fn:new", "Relationship::new is not found"):
        k = Pkg(p, {}, set(rel)); st = St()
        try: r = k.inline(qs[0], st, [])
        except Dead: r = None
        v = dict(r[2]).get("id_num") if isinstance(r, tuple) and r and r[0] == "adt" else st.fld.get("relationship::Relationship.id_num")
        R.check(v == num(1), "first", "the relationships of a file are numbered from %s" % show(v), "src/relationship.rs")
