"""Relationship ids against relationship files, by abstract interpretation of the
package assembly (sa/pkg.py), for every combination of the kinds of objects that a
worksheet can hold. Each relationship file is a list of relationships whose positions
are linear forms over the symbolic collections; each r:id that a part writes is a
linear form too. (1) The r:id of a sheet, hyperlink, drawing, comment drawing, header
image drawing, background picture, table or rich value image is the position of a
relationship of its kind, under the same loop and conditions; (2) the ids that objects
carry into drawings and VML files are positions of their relationships in the drawing's
relationship file; (3) ids that are looked up come from maps that only received such
positions, by a key that decides the target; (4) each relationship of a worksheet is
referred to; (5) the drawing and VML writers write the id that the object carries."""
RULE = "in every configuration the number in an r:id equals the position of a relationship of the right kind in the part's relationship file"
ASSUMPTIONS = ["Objects of one kind in a worksheet are independent of each other.", "Chartsheets hold a chart and header images only.", "Hashes of images identify images."]
import re
from pkg import *
from pkgrules import *
from props import c08

TAGS = {"sheet": ("xl/workbook.xml", ("worksheet", "chartsheet")), "hyperlink": (None, ("hyperlink",)), "drawing": (None, ("drawing",)), "legacyDrawing": (None, ("vmlDrawing",)),
    "legacyDrawingHF": (None, ("vmlDrawing",)), "picture": (None, ("image",)), "tablePart": (None, ("table",)), "rel": ("xl/richData/richValueRel.xml", ("image",))}
SHEETS = ("xl/worksheets/sheet{#}.xml", "xl/chartsheets/sheet{#}.xml")
REFERRED = ("hyperlink", "drawing", "vmlDrawing", "image", "table")
# ids that objects carry: (field, loop) -> (owner, relationship type)
D = "xl/drawings/drawing{#}.xml"; V = "xl/drawings/vmlDrawing{#}.vml"
CARRY = {("drawing::DrawingInfo.rel_id", W + "images"): (D, "image"), ("drawing::DrawingInfo.rel_id", W + "charts"): (D, "chart"), ("drawing::DrawingInfo.rel_id", W + "shapes"): None,
    ("url::Url.rel_id", W + "images"): (D, "hyperlink"), ("url::Url.rel_id", W + "shapes"): (D, "hyperlink"), ("url::Url.rel_id", W + "hyperlinks"): (SHEETS[0], "hyperlink"),
    ("vml::VmlInfo.rel_id", W + "header_footer_images"): (V, "image")}

def positions(N, own_insheet, rs):
    """[(event, position)]: the first position is 1"""
    out = []; run = num(1); coll = None; base = None; per = num(0)
    for e in rs:
        cp = e[-2]; S = source_of(e[-1]); t = N.times(e[-1])
        if not own_insheet and SHEET in e[-1]:
            # one for each worksheet: counted per worksheet
            out.append((e, (run, t))); per = plus(per, t); coll = None; continue
        if cp is not None and cp[0] is not None:
            if coll != cp[0]: coll = cp[0]; base = run
            out.append((e, (plus(base, N.lin(cp[1], e[-1])), None)))
        else:
            coll = None; pos = run
            if S:
                i = max(j for j, c in enumerate(e[-1]) if c == ("in", S))
                pos = plus(pos, L({frozenset(("p", x[1]) if x == ("n", S) else x for x in m): c for m, c in N.times(e[-1][i:])[1]}))
            out.append((e, (pos, None)))
        run = plus(run, t)
    return out

def examine(p, c, bad, ok):
    k = analyse(p, set(c[0]), **c[1]); lab = c08.label(c)
    if k is None: bad("root", "the function that assembles the package is not unique", ""); return None
    N = Names(k)
    def B(key, msg, e=None): bad(key, "with %s: %s" % (lab, msg), e[1] if e else "")
    files = {}; vmlrels = None
    for re_, rs, n in relgroups(k):
        if re_ is None: continue
        pat, nums = pieces(re_[2]); own = owner(pat or "")
        if own is None: continue
        if own in files: B("files:" + own, "%s has two relationship files" % own, re_); continue
        files[own] = positions(N, SHEET in re_[-1], rs)
        if own == V: vmlrels = N.number(nums[0], re_[-1])
    def kind(e): return e[3][1] if e[3] and e[3][0] == "s" else None
    def shown(n): return show(n[0]) + (" (+%s per worksheet)" % show(n[1]) if n[1] else "")
    used = set()
    def match(own, types, value, ctx, ev, what, loop=True):
        """the relationship at that position"""
        cand = [(e, q) for e, q in files.get(own, []) if kind(e) in types]
        if not cand: B("none:" + what, "%s refers to a %s, and %s has no relationship of that kind" % (what, types[0], own), ev); return None
        S = source_of(ctx); hits = []
        for e, q in cand:
            if source_of(e[-1]) != S: continue
            if q[0] != value[0] or (q[1] or num(0)) != (value[1] or num(0)): continue
            # a list that an item comes from is not empty
            if not {x for x in conds(e[-1]) if not (e[-2] and x[1] == ("ne", e[-2][0]))} <= conds(ctx): continue
            hits.append(e)
        if hits: ok(); used.update(id(e) for e in hits); return hits[0]
        B("id:" + what, "%s has id %s, and its relationship in %s is number %s" % (what, shown(value), own, " / ".join(sorted({shown(q) for e, q in cand}))), ev)
        return None
    # (1)
    ev = k.events; seen = set()
    for i, e in enumerate(ev):
        if e[0] != "rid": continue
        tag = next((x[2] for x in ev[i + 1:i + 12] if x[0] == "tag"), None)
        if tag not in TAGS: B("tag:%s" % tag, "<%s> has an %s" % (tag, e[2]), e); continue
        own, types = TAGS[tag]; seen.add(tag)
        own = own or SHEETS[1 if c[1].get("chartsheet") else 0]
        v = e[3]
        if not (isinstance(v, tuple) and v and v[0] in ("t", "s")): B("value:" + tag, "the id of <%s> is not understood: %s" % (tag, show(v)), e); continue
        if v[0] == "s": m = re.match(r"^rId(\d+)$", v[1]); l = num(int(m.group(1))) if m else None
        else: l = v[1][1] if len(v[1]) == 2 and v[1][0] == "rId" and isL(v[1][1]) else None
        n = N.number(l, e[-1]) if l is not None else None
        if n is None: B("value:" + tag, "the id of <%s> is not understood: %s" % (tag, show(v)), e); continue
        r = match(own, types, n, e[-1], e, "<%s>" % tag)
        if r is not None and tag.startswith("legacy") and vmlrels is not None:
            t, tn = pieces(r[4]); tv = N.number(tn[0], r[-1]) if tn else None
            if (tv == vmlrels) != (tag == "legacyDrawingHF"): B("vml:" + tag, "<%s> refers to the drawing of the %s" % (tag, "comments" if tag == "legacyDrawingHF" else "header images"), e)
            else: ok()
    if "sheet" not in seen: B("sheet", "no id of a sheet is found")
    # (4)
    own = SHEETS[1 if c[1].get("chartsheet") else 0]
    for e, q in files.get(own, []):
        if kind(e) in REFERRED:
            if id(e) in used: ok()
            else: B("unused:%s" % kind(e), "nothing in %s refers to its %s relationship" % (own, kind(e)), e)
    # (2)
    for e in ev:
        if e[0] != "set" or not e[2].endswith(".rel_id"): continue
        S = source_of(e[-1])
        if (e[2], S) not in CARRY:
            if isL(e[3]) and e[3] == num(0): continue
            B("carry:%s:%s" % (short(e[2]), short(S)), "an id is stored in %s for %s" % (short(e[2]), short(S)), e); continue
        want = CARRY[(e[2], S)]
        if want is None: continue
        if c[1].get("chartsheet") and want[0] == SHEETS[0]: continue
        v = e[3]; n = N.number(v, e[-1]) if isL(v) else None
        if n is None: B("carried:%s:%s" % (short(e[2]), short(S)), "the id of %s is not understood: %s" % (short(S), show(v)), e); continue
        match(want[0], (want[1],), n, e[-1], e, "%s of %s" % (short(e[2]), short(S)))
    # every object of a kind that has relationships carries an id
    done = {(e[2], source_of(e[-1])) for e in ev if e[0] == "set" and e[2].endswith(".rel_id")}
    for (f, S), want in CARRY.items():
        if want is None: continue
        n = S.rsplit(".", 1)[-1]
        if n in c[0] and not (c[1].get("chartsheet") and n not in ("charts", "header_footer_images")):
            if (f, S) in done: ok()
            else: B("missing:%s:%s" % (short(f), n), "no id is stored in %s for %s" % (short(f), n))
    # (3)
    for m, v in k.mapuse:
        vals = k.mapvals.get(m, [])
        if v in vals: ok()
        else: B("map:" + short(m[1]), "an id is looked up in a map that never gets it (%s)" % show(v), (None, m[1]))
    for own, es in files.items():
        for e, q in es:
            news = [x for x in e[-1] if x[0] == "if" and isinstance(x[1], tuple) and x[1][:1] == ("new",)]
            for x in news:
                key = x[1][2]
                if kind(e) == "hyperlink":
                    if isinstance(key, tuple) and isinstance(e[4], tuple) and key[:2] == e[4][:2]: ok()
                    else: B("key:hyperlink:%s" % short(source_of(e[-1])), "hyperlinks of %s share a relationship when %s is the same, and its target is %s" % (short(source_of(e[-1])), show(key), show(e[4])), e)
                elif kind(e) == "image":
                    if isinstance(key, tuple) and key[:2] == ("o", "image::Image.hash"): ok()
                    else: B("key:image:%s" % short(source_of(e[-1])), "images share a relationship when %s is the same" % show(key), e)
                else: B("key:%s" % kind(e), "a %s relationship is shared when %s is the same" % (kind(e), show(key)), e)
    k.rids = len([e for e in ev if e[0] == "rid"])
    return k

def work(c):
    p = c08.POOL[0]; bads = []; n = [0]
    def bad(key, msg, q): bads.append((key, msg, q))
    def ok(*x): n[0] += 1
    k = examine(p, c, bad, ok)
    return c, bads, n[0], (k.steps if k else 0), (k.rids if k else 0), sorted(k.touched) if k else []

def carried(p, R):
    """(5) the writers of drawings and VML files write the ids that the objects carry"""
    want = {"drawing": {"a:hlinkClick": "url::Url.rel_id", "a:blip": "drawing::DrawingInfo.rel_id", "c:chart": "drawing::DrawingInfo.rel_id"}, "vml": {"v:imagedata": "vml::VmlInfo.rel_id"}}
    for mod, tags in want.items():
        fns = {q for q in p.fns if re.search(r"\b%s::(Drawing|Vml)::" % mod, q)}
        rt = [q for q in fns if q.endswith("::assemble_xml_file")]
        if not R.check(len(rt) == 1, "fn:" + mod, "the writer of %s files is not found" % mod): continue
        k = Pkg(p, {}, fns); st = St()
        try: k.inline(rt[0], st, [("own", mod + "::" + mod.capitalize())])
        except Dead: R.bad("write:" + mod, "the writer of %s files is not understood" % mod); continue
        seen = set()
        for i, e in enumerate(st.ev):
            if e[0] != "rid": continue
            tag = next((x[2] for x in st.ev[i + 1:i + 12] if x[0] == "tag"), None); v = e[3]
            f = p.fns[e[1]]; at = "%s:%s" % (f.file, f.line)
            if not R.check(tag in tags, "tag:%s:%s" % (mod, tag), "<%s> in a %s file has an id" % (tag, mod), at): continue
            seen.add(tag)
            x = v[1][1] if isinstance(v, tuple) and v and v[0] == "t" and len(v[1]) == 2 and v[1][0] == "rId" else None
            R.check(isinstance(x, tuple) and x[:1] == ("o",) and x[1] == tags[tag], "carries:" + tag, "<%s> writes the id %s, not %s" % (tag, show(v), tags[tag]), at)
            if tag in ("a:blip", "c:chart"):
                a = next((z for n, z in p.adts.items() if n.endswith("DrawingType")), None)
                sets = [set(cc[2]) for cc in e[-1] if cc[0] == "if" and isinstance(cc[1], tuple) and cc[1][0] == "d" and "DrawingInfo.drawing_type" in str(cc[1])]
                if a and sets:
                        names = [a["variants"][i]["name"] for i in sorted(set.intersection(*sets), key=str) if isinstance(i, int)]
                        R.check(all(("Image" in n) if tag == "a:blip" else ("Chart" in n) for n in names), "drawn:" + tag, "<%s> is written for %s" % (tag, names), at)
        R.check(seen == set(tags), "tags:" + mod, "the elements with an id in %s files are %s" % (mod, sorted(seen)))

def run(ctx, R):
    p = ctx.prog("full")
    cs = c08.configs(getattr(ctx, "tier", "quick") == "thorough"); seen = set(); steps = total = rids = 0; fns = set()
    for c, bads, n, s, r, fs in c08.sweep(p, cs, work):
        R.ok(n); total += n; steps += s; rids += r; fns |= set(fs)
        for key, msg, q in bads:
            if key in seen: continue
            seen.add(key); f = p.fns.get(q)
            R.bad(key, msg, "%s:%s" % (f.file, f.line) if f else q)
    carried(p, R)
    R.count("configurations", len(cs)); R.count("interpreted basic blocks", steps); R.count("ids compared", rids); R.count("functions interpreted", len(fns))
    R.floor("configurations", len(cs), 50); R.floor("obligations", total, 700); R.floor("ids compared", rids, 150); R.floor("functions interpreted", len(fns), 40)
    for q in sorted(fns)[:12]: R.sample(q)
