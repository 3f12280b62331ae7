"""The code that numbers formats, fonts, fills, borders, number formats, strings,
authors and images is interpreted path by path (sa/intern.py): a new key gets the
number of keys that there are, or the position of the item that is appended for it
on the same path; what is stored or returned is the index of the very key that was
looked up. Lists made from an index map are ordered by the index. The attributes
that hold such an index take it from the field that the numbering fills, local
indices go through the worksheet's table of workbook indices, and a pair of axes
shares one pair of ids."""
RULE = "an index that is stored, returned or written is the position of the entry made for that key"
ASSUMPTIONS = ["The indices that populate_string_table() (hidden, for tests) and set_axis_ids() are given by the caller are right.",
               "Maps and vectors of the standard library keep what is put into them."]
import re
from mir import *
from sym import Sym, subexprs
import intern
import mir as _mir
def is_field(x): return x != "*" and _mir.is_field(x)
from intern import isL, plus, num, isconst, const, syms, under, callee

KEYT = ("format::Format", "format::Font", "format::Fill", "format::Border", "format::FormatBorder", "std::sync::Arc<str>")
# what the numbering has to fill: stored field -> (offset of the first number, flag of the object that introduces an entry)
FIELDS = {"format::Format.font_index": (0, "format::Format.has_font", "workbook::Workbook.xf_formats"),
          "format::Format.fill_index": (0, "format::Format.has_fill", "workbook::Workbook.xf_formats"),
          "format::Format.border_index": (0, "format::Format.has_border", "workbook::Workbook.xf_formats"),
          "format::Format.num_format_index": (164, None, None),
          "note::Note.author_id": (0, None, None)}
MAPS = {"worksheet::Worksheet.xf_indices": "worksheet::Worksheet.xf_formats", "worksheet::Worksheet.dxf_indices": "worksheet::Worksheet.dxf_formats",
        "workbook::Workbook.dxf_indices": None, "workbook::Workbook.xf_indices": None, "worksheet::Worksheet.workbook_xf_indices": None,
        "shared_strings_table::SharedStringsTable.strings": "shared_strings_table::SharedStringsTable.unique_count",
        "worksheet::Worksheet.embedded_image_ids": "worksheet::Worksheet.embedded_images"}
STRMAPS = ("worksheet::Worksheet.note_authors", "worksheet::Worksheet.embedded_image_ids")
UNIQUE = ("workbook::Workbook.embedded_image_table",)      # see the rule for it below
EXTERNAL = ("populate_string_index",)      # the index is the caller's

def interesting(t):
    k = intern.mapty(t)
    return k is not None and (k in KEYT or re.fullmatch(r"[A-Z]\w?", k) is not None or "Format" in k)
def inserts(f, t): return callee(t).rsplit("::", 1)[-1] in ("insert", "or_insert", "or_insert_with", "or_insert_with_key", "or_default", "insert_entry")
def shortf(x): return x.rsplit("::", 1)[-1]
def mapname(i):
    if i[0] == "o":
        t = i[1]
        while t[0] in ("snap", "as"): t = t[1]
        if t[0] == "f": return t[2]
        if t[0] == "elem": return mapname(t[2]) if isinstance(t[2], tuple) and t[2] and t[2][0] == "o" else None
    return None
def unsnap(t):
    """the place that a copied value comes from"""
    while t[0] in ("snap",): t = t[1]
    if t[0] == "f": return ("f", unsnap(t[1]), t[2])
    if t[0] == "as": return ("as",) + (unsnap(t[1]) if isinstance(t[1], tuple) else t[1],) + t[2:]
    return t
def fieldpath(t):
    o = []
    while isinstance(t, tuple) and t and t[0] in ("f", "as", "snap", "upd"):
        if t[0] == "f": o.append(t[2])
        t = t[1]
    return tuple(reversed(o))

def run(c, r):
    p = c.prog()
    eq = {}
    for q in p.fns:
        m = re.match(r"<(.*) as std::cmp::PartialEq>::eq$", q)
        if m and m.group(1) in p.adts: eq[m.group(1)] = {k for k in p.trans_fields()[q][0] if k.rsplit(".", 1)[0] == m.group(1)}
    eq = {a: s for a, s in eq.items() if s}
    roots = set()
    for q, f in p.fns.items():
        for b, t in f.calls():
            if f.cleanup(b) or not t["args"] or "p" not in t["args"][0] or not inserts(f, t): continue
            ty = f.ty(t["args"][0]["p"][0])
            n, a = split_generics(re.sub(r"'\{?\w+\}?(, | )", "", strip_refs(ty)))
            e = intern.isentry(ty) and a and (a[0].strip() in KEYT or re.fullmatch(r"[A-Z]\w?", a[0].strip()))
            s = (intern.mapty(ty) == "std::string::String" or intern.isentry(ty)) and stringmap(p, q)
            if interesting(ty) or e or s: roots.add(q.split("::{closure")[0])
    done = {}; work = sorted(roots); seenfields = {}; seenmaps = {}; stats = {"paths": 0, "inserts": 0, "indices": 0}
    while work:
        q = work.pop()
        if q in done: continue
        done[q] = True
        if q.rsplit("::", 1)[-1] in EXTERNAL: continue
        I = intern.Interp(p, eq); I.maps = set(); I.counters = tuple(v for v in MAPS.values() if v and v.endswith('_count'))
        try: outs = I.run(q)
        except intern.TooBig:
            r.bad("paths:%s" % shortf(q), "the numbering in %s cannot be followed" % q, where(p, q)); continue
        paths = [("back", s, None) for _, _, s in I.log] + [(k, s, v) for k, s, v in outs]
        # a map that is an argument: the callers tell what it is
        args = {e[1] for k, s, v in paths for e in s.ev if e[0] == "insert" and argmap(e[1])}
        if args:
            ups = {g for g in p.fns for b, t in p.fns[g].calls() if q in p.callees(t)}
            r.check(bool(ups), "caller:%s" % shortf(q), "%s numbers keys in a map that no caller gives" % q, where(p, q))
            for g in ups: work.append(g.split("::{closure")[0])
            continue
        judge(p, r, q, I, paths, seenfields, seenmaps, stats, eq)
    ordered(p, r)
    table(c, p, r)
    globals_(p, r)
    translated(p, r)
    numorder(p, r)
    taint(p, r)
    axes(c, p, r)
    rules14(p, r)
    numfmts(p, r)
    for fld in FIELDS:
        r.check(fld in seenfields, "filled:%s" % fld, "no numbering fills %s" % fld)
    for m in MAPS:
        r.check(m in seenmaps, "map:%s" % m, "no numbering adds keys to %s" % m)
    r.floor("numbering functions", len(done), 10); r.count("paths", stats["paths"]); r.floor("insertions on paths", stats["inserts"], 12); r.floor("indices stored or returned", stats["indices"], 20)

def stringmap(p, q):
    f = p.direct_fields().get(q, ((), ())); f = set(f[0]) | set(f[1])
    return any(x in f for x in STRMAPS + ("workbook::Workbook.num_formats", "workbook::Workbook.embedded_image_table"))
def argmap(i): return i[0] == "o" and i[1][0] == "arg"
def where(p, q):
    f = p.fns[q]; return "%s:%s %s" % (f.file, f.line, q)

def judge(p, r, q, I, paths, seenfields, seenmaps, stats, eq):
    f = p.fns[q]; w = where(p, q); name = shortf(q)
    offs = {}
    for kind, st, ret in paths:
        stats["paths"] += 1
        idx = {}          # map -> {key: index}
        pushes = [e for e in st.ev if e[0] == "push"]
        for e in st.ev:
            if e[0] != "insert": continue
            _, m, k, v, n, was, qq, line = e
            stats["inserts"] += 1; mn = mapname(m); ww = "%s:%s %s" % (p.fns[qq].file, line, qq)
            if mn: seenmaps[mn] = True
            if was != "preset":
                r.check(was == "absent" or free(k, m), "key:%s:%s" % (name, mn or "local"), "%s adds a key to %s that was not looked up before (a key that is there already would get another index)" % (q, mn or "its map"), ww)
            if v is None or not isL(v):
                if isinstance(v, tuple) and v and v[0] == "o" and unsnap(v[1])[0] == "f" and counterfield(unsnap(v[1])[2], mn): # a counter kept in a field
                    ct = unsnap(v[1])
                    bump = [x for x in st.ev if x[0] == "store" and x[1] == ct]
                    ok = len(bump) == 1 and all(isinstance(x[2], tuple) and x[2] and x[2][0] == "u" and x[2][1][:2] == ("bin", "Add") and unsnap(x[2][1][2][1]) == ct and x[2][1][3] == num(1) for x in bump) and (v[1][0] != "snap" or v[1][2] == 0)
                    r.check(ok, "counter:%s:%s" % (name, mn), "%s gives a new key the number in %s but does not add one to it" % (q, ct[2]), ww)
                    continue
                r.bad("number:%s:%s" % (name, mn or "local"), "%s gives a new key a number that does not come from the number of keys" % q, ww); continue
            d = plus(v, n, -1)
            if isconst(d):
                offs.setdefault(m, {}).setdefault(const(d), ww)
            else:
                hit = [x for x in pushes if isL(x[3]) and isconst(plus(v, x[3], -1))]
                for x in hit: offs.setdefault(m, {}).setdefault(const(plus(v, x[3], -1)), ww)
                good = [x for x in hit if related(x[2], k)]
                r.check(bool(good), "position:%s:%s" % (name, mn or "local"), "%s gives a new key a number that is neither the number of keys nor the position of the item it appends for it" % q, ww)
                if good: r.check(all(under_count(st, x[1]) <= 1 for x in good), "once:%s:%s" % (name, mn or "local"), "%s appends more than one item for a new key" % q, ww)
        # the ids in the workbook of images that are written at once
        for e in pushes:
            if mapname(e[1]) != "worksheet::Worksheet.global_embedded_image_indices": continue
            v = e[2][1]; tp = [x for x in pushes if mapname(x[1]) in ("worksheet::Worksheet.embedded_image_table", "workbook::Workbook.embedded_image_table")]
            if isL(v): ok = any(v == plus(x[3], num(1)) for x in tp)
            elif isinstance(v, tuple) and v[0] == "u" and v[1][0] == "bin": ok = not tp and v[1][1] == "Add" and num(1) in v[1][2:4] and "embedded_image_table" in str(v)
            else: ok = True
            r.check(ok, "image:%s" % name, "%s records as the id of an image something other than its position in the list of images" % q, w)
            r.check(sum(1 for x in pushes if mapname(x[1]) == "worksheet::Worksheet.embedded_images") == sum(1 for x in pushes if x[1] == e[1]), "images2:%s" % name, "%s does not record one id for each image" % q, w)
        # lists that go with a map by position
        for m, l in MAPS.items():
            if l is None or l.endswith("_count"): continue
            ins = sum(1 for e in st.ev if e[0] == "insert" and mapname(e[1]) == m)
            psh = sum(1 for e in pushes if mapname(e[1]) == l)
            if ins or psh: r.check(ins == psh, "pair:%s:%s" % (name, m), "%s adds %d keys to %s but %d items to %s" % (q, ins, m, psh, l), w)
        for m, d in st.facts.items():
            for k, z in d.items():
                if isL(z): idx.setdefault(m, {})[k] = z
        known = [(m, k, z) for m, d in idx.items() for k, z in d.items()]
        stored = {}
        for e in st.ev:
            if e[0] != "store": continue
            _, t, v, qq, line = e; fld = t[2] if t[0] == "f" else None
            stored[fld] = (t, v, qq, line)
            if fld in FIELDS or isL(v) and any(s[0] == "idx" for s in syms(v)):
                if not isL(v): 
                    if fld in FIELDS and known: r.bad("store:%s:%s" % (name, fld), "%s stores something other than the index of a key in %s" % (q, fld), "%s:%s %s" % (p.fns[qq].file, line, qq))
                    continue
                match = [(m, k) for m, k, z in known if z == v]
                ww = "%s:%s %s" % (p.fns[qq].file, line, qq)
                if fld in FIELDS:
                    stats["indices"] += 1
                    ok = [k for m, k in match if owner(k, t)]
                    if r.check(bool(ok), "store:%s:%s" % (name, fld), "%s stores in %s a number that is not the index of a key of the same object" % (q, fld), ww): seenfields[fld] = True
                    r.check(kind_ok(ok, fld), "kind:%s:%s" % (name, fld), "%s stores in %s the index of another property" % (q, fld), ww)
                elif v not in (num(0), num(1)) and not match and any(s[0] == "idx" for s in syms(v)):
                    r.bad("store:%s:%s" % (name, fld), "%s stores in %s a number computed from an index" % (q, fld), ww)
        # objects that introduce an entry are marked
        if kind == "back":
            item = next((e[1] for e in reversed(st.ev) if e[0] == "item"), None)
            for fld, (o, flag, lst) in FIELDS.items():
                if flag is None: continue
                mine = [e for e in st.ev if e[0] == "store" and e[1][0] == "f" and e[1][2] == fld]
                if not mine: continue
                t, v = mine[-1][1], mine[-1][2]
                new = any(e[0] == "insert" and e[5] == "absent" and e[3] == v for e in st.ev)
                fs = [e for e in st.ev if e[0] == "store" and e[1] == ("f", t[1], flag)]
                r.check(bool(fs) and fs[-1][2] == ("b", new), "flag:%s:%s" % (name, flag), "%s %s %s of a format whose %s is %s" % (q, "does not set" if new else "sets or leaves", flag, fld, "new" if new else "there already"), w)
        if kind == "ret" and isinstance(ret, tuple):
            rt = f.ty(0)
            cnt = [e[3] for e in st.ev if e[0] == "insert"]
            if rt in intern.INTS and (known or cnt) and not (isL(ret) and isconst(ret)):
                stats["indices"] += 1
                v = I.val(st, ret)
                own = [z for m, k, z in known]
                r.check(any(v == z for z in own) or v in cnt, "return:%s" % name, "%s returns a number that is not the index of the key" % q, w)
            elif rt in intern.INTS and any(e[0] == "insert" for e in st.ev): r.bad("return:%s" % name, "%s returns a constant on a path that adds a key" % q, w)
    # every pass over the formats gives each of them an index
    for fld, (o, flag, lst) in FIELDS.items():
        if lst is None: continue
        loops = {}
        for kind, st, ret in paths:
            if kind != "back": continue
            item = [e for e in st.ev if e[0] == "item"]
            for e in item:
                if mapname(e[1]) == lst or lst in str(e[1]): loops.setdefault(e[1], []).append(any(x[0] == "store" and x[1][0] == "f" and x[1][2] == fld for x in st.ev))
        for it, l in loops.items():
            if any(l): r.check(all(l), "each:%s:%s" % (name, fld), "%s leaves out some formats when it sets %s" % (q, fld), w)
    for m, d in offs.items():
        mn = mapname(m)
        r.check(len(d) == 1, "offset:%s:%s" % (name, mn or "local"), "%s numbers the keys of one map with different starts: %s" % (q, sorted(d)), sorted(d.values())[0])
        want = offset_of(m, mn, paths)
        if want is not None: r.check(set(d) == {want}, "start:%s:%s" % (name, mn or "local"), "%s numbers from %s where the first entry has the index %d" % (q, sorted(d), want), sorted(d.values())[0])

def free(k, m):
    """keys of a list in which every key occurs once"""
    t = k[1]
    while isinstance(t, tuple) and t and t[0] in ("f", "as", "snap"): t = t[1]
    return isinstance(t, tuple) and t and t[0] == "elem" and isinstance(t[2], tuple) and mapname(t[2]) in UNIQUE
def counterfield(fld, m): return m in MAPS and MAPS[m] == fld
def under_count(st, l): return sum(1 for e in st.ev if e[0] == "push" and e[1] == l)
def related(a, b):
    """the item appended for a key: the key itself or the object that has it"""
    if a == b: return True
    ta, tb = a[1], b[1]
    if not (isinstance(ta, tuple) and isinstance(tb, tuple)): return False
    return under(unsnap(tb), unsnap(ta))
def owner(k, t):
    """the key is of the object that t is a field of"""
    kt = k[1]
    return isinstance(kt, tuple) and kt and under(unsnap(kt), unsnap(t[1]))
KIND = {"format::Format.font_index": "format::Format.font", "format::Format.fill_index": "format::Format.fill", "format::Format.border_index": "format::Format.borders",
        "format::Format.num_format_index": "format::Format.num_format", "note::Note.author_id": "note::Note.author"}
def kind_ok(keys, fld): return not keys or any(KIND[fld] in fieldpath(k[1]) for k in keys)
def offset_of(m, mn, paths):
    if mn in MAPS: return 0
    for kind, st, ret in paths:
        for e in st.ev:
            if e[0] == "store" and e[1][0] == "f" and e[1][2] in FIELDS and isL(e[2]) and any(isL(z) and z == e[2] for k, z in st.facts.get(m, {}).items()): return FIELDS[e[1][2]][0]
    return None

# ---- lists made from an index map are in the order of the index
SORTS = ("sort_by", "sort_by_key", "sort_unstable_by", "sort_unstable_by_key", "sort_by_cached_key")
def forward(f, l):
    """locals of f that hold what l holds"""
    out = {l}; ch = True
    while ch:
        ch = False
        for b in f.reachable():
            if f.cleanup(b): continue
            for s in f.stmts(b):
                if s[0] != "=" or len(s[1]) != 1 or s[1][0] in out: continue
                rv = s[2]; pl = rv[2] if rv[0] == "ref" else rv[1]["p"] if rv[0] in ("use", "cast") and "p" in rv[1] else None
                if pl and pl[0] in out and all(x == "*" for x in pl[1:]): out.add(s[1][0]); ch = True
            t = f.term(b)
            if t["k"] == "call" and len(t["dest"]) == 1 and t["dest"][0] not in out and t["args"] and "p" in t["args"][0] and t["args"][0]["p"][0] in out and callee(t).rsplit("::", 1)[-1] not in ("next", "len", "is_empty"):
                out.add(t["dest"][0]); ch = True
    return out
def valueof(p, q, args):
    """does the closure compare or return the second component of its argument, ascending? True / False / None"""
    g = p.fns.get(q)
    if g is None: return None
    s = Sym(g); rets = []
    def second(e):
        """argument whose component 1 the expression is"""
        while e[0] in ("call",) and len(e[2]) == 1: e = e[2][0]
        flds = []
        while e[0] in ("fld", "as", "call"):
            if e[0] == "fld": flds.append(e[2])
            e = e[1] if e[0] != "call" else (e[2][0] if e[2] else ("?",))
        if e[0] == "arg" and flds and flds[-1].rsplit(".", 1)[-1] in ("0", "1") : return (e[1], flds[-1].rsplit(".", 1)[-1])
        return None
    e = s.local(0)
    if args == 1:
        z = second(e)
        return None if z is None else z[1] == "1" and "Reverse" not in str(e)
    if e[0] == "call" and e[1].rsplit("::", 1)[-1] in ("cmp", "partial_cmp", "total_cmp"): 
        a, b = second(e[2][0]), second(e[2][1])
        return None if a is None or b is None else a == (2, "1") and b == (3, "1")
    if "reverse" in str(e): return False
    return None
def ordered(p, r):
    n = 0
    for q, f in sorted(p.fns.items()):
        for b, t in f.calls():
            if f.cleanup(b) or not t["args"] or "p" not in t["args"][0]: continue
            m = callee(t).rsplit("::", 1)[-1]; ty = f.ty(t["args"][0]["p"][0]); k = intern.mapty(ty)
            if not k or m not in ("iter", "keys", "values", "into_iter", "into_keys", "drain"): continue
            if not (k in KEYT or stringmap(p, q)): continue
            hold = forward(f, t["dest"][0]); w = "%s:%s %s" % (f.file, f.line, q); nm = "%s:%s" % (shortf(q), k)
            sorts = []; rev = False
            for b2, t2 in f.calls():
                if f.cleanup(b2): continue
                m2 = callee(t2).rsplit("::", 1)[-1]
                if t2["args"] and "p" in t2["args"][0] and t2["args"][0]["p"][0] in hold:
                    if m2 in SORTS: sorts.append((m2, t2))
                    elif m2 in ("sort", "sort_unstable", "reverse", "rev", "sorted"): rev = m2
            if not sorts:
                r.check("BTreeMap" not in ty or m == "keys" and False, "order:%s" % nm, "%s takes the entries of an index map in the order of the keys, not of the indices" % q, w)
                continue
            n += 1
            for m2, t2 in sorts:
                c = closure_of(f, t2["args"][1])
                v = valueof(p, c, 1 if "key" in m2 else 2) if c else None
                r.check(v is True, "order:%s" % nm, "%s orders the entries of an index map by something other than the index" % q, w)
            r.check(not rev, "order2:%s" % nm, "%s changes the order of the sorted entries of an index map (%s)" % (q, rev), w)
    r.floor("lists ordered by index", n, 4)
def closure_of(f, o):
    if "p" not in o:
        m = re.search(r"\{closure[^}]*\}", str(o)); return o.get("f") if o.get("c") == "fn" else (o.get("closure") or closure_ty(f, str(o.get("ty", ""))))
    l = o["p"][0]
    for b in f.reachable():
        for s in f.stmts(b):
            if s[0] == "=" and s[1] == [l] and s[2][0] == "agg" and isinstance(s[2][1], dict) and "closure" in s[2][1]: return s[2][1]["closure"]
    return closure_ty(f, f.ty(l))
def closure_ty(f, ty):
    return next((x for x in f.program.closures_of(f.path) if x in ty), None)

# ---- the attributes that hold an index
ATTRS = {("xf", "fontId"): ("format::Format.font_index",), ("xf", "fillId"): ("format::Format.fill_index",), ("xf", "borderId"): ("format::Format.border_index",),
         ("xf", "numFmtId"): ("format::Format.num_format_index",), ("comment", "authorId"): ("note::Note.author_id",),
         ("cfRule", "dxfId"): ("worksheet::Worksheet.global_dxf_indices",), ("tableColumn", "dataDxfId"): ("table::TableColumn.dxf_index",),
         ("c:axId", "val"): ("chart::Chart.axis_ids", "chart::Chart.axis2_ids"), ("c:crossAx", "val"): ("chart::Chart.axis_ids", "chart::Chart.axis2_ids"),
         ("definedName", "localSheetId"): ("worksheet::DefinedName.index",), ("c", "vm"): ("worksheet::Worksheet.global_embedded_image_indices",)}
def leaves(v):
    if not isinstance(v, tuple) or not v: return
    if v[0] == "phi":
        for x in v[1]: yield from leaves(x)
    elif v[0] == "str": yield from leaves(v[1])
    elif v[0] == "fmt" and len(v[1]) == 1 and not isinstance(v[1][0], str): yield from leaves(v[1][0][2])
    elif v[0] == "sym" and len(v) > 3: yield from leaves(v[3])
    else: yield v
def table(c, p, r):
    got = {}; open_ = set()
    for e in c.emission().events:
        tag, attrs, site = e[3], e[4], e[7]
        for a in (attrs[1] if attrs and len(attrs) > 1 else ()):
            want = ATTRS.get((tag, a[0]))
            if not want: continue
            for v in a[3]:
                for x in leaves(v):
                    if x[0] in ("s", "i"):
                        r.check(tag == "xf" and str(x[1]) == "0" or tag == "c", "attr:%s@%s:const" % (tag, a[0]), "%s@%s is always %s" % (tag, a[0], x[1]), str(site)); continue
                    if x[0] in ("p", "fld"):
                        fl = [z for z in x[1] if isinstance(z, str) and "." in z] if x[0] == "p" else [x[2]]
                        fl = [z for z in fl if not z.startswith(("()", "{closure", "std::"))]
                        ok = bool(fl) and fl[-1] in want
                        got[tag, a[0]] = got.get((tag, a[0]), 0) + ok
                        r.check(ok, "attr:%s@%s:%s" % (tag, a[0], fl[-1] if fl else "?"), "%s@%s is taken from %s, not from %s" % (tag, a[0], fl[-1] if fl else "another value", " or ".join(want)), str(site))
                    elif x[0] != "bin": open_.add((tag, a[0]))
                    elif x[0] == "bin": r.bad("attr:%s@%s:bin" % (tag, a[0]), "%s@%s is computed from the index" % (tag, a[0]), str(site))
    # the index that a rule is given
    n = 0
    for q, f in sorted(p.fns.items()):
        for b, t in f.calls():
            if f.cleanup(b) or not t.get("virt") or callee(t) != "conditional_format::ConditionalFormat::rule" or "p" not in t["args"][1]: continue
            fields = set(); n += 1
            Slice(p).of(q, t["args"][1]["p"][0], set(), fields, None, None)
            r.check("worksheet::Worksheet.global_dxf_indices" in fields and "worksheet::Worksheet.global_xf_indices" not in fields, "rule:%s" % shortf(q), "%s gives a conditional format something other than the index of its format in the workbook" % q, where(p, q))
    r.floor("conditional formats that are given an index", n, 1)
    for k in ATTRS: r.check(got.get(k, 0) > 0 or k == ("cfRule", "dxfId") and k in open_, "attr:%s@%s" % k, "no value of %s@%s is taken from %s" % (k[0], k[1], " or ".join(ATTRS[k])))

# ---- local indices are translated by the worksheet's own tables
GLOBAL = {"worksheet::Worksheet.global_xf_indices": ("workbook::Workbook::format_xf_index", "worksheet::Worksheet.xf_formats", "worksheet::Worksheet.dxf_formats"),
          "worksheet::Worksheet.global_dxf_indices": ("workbook::Workbook::format_dxf_index", "worksheet::Worksheet.dxf_formats", "worksheet::Worksheet.xf_formats")}
INTERN = tuple(x[0] for x in GLOBAL.values())
class Slice:
    """what a value is made from: fields read, calls made, with local functions entered"""
    def __init__(self, p): self.p = p; self.feed = {}; self.memo = {}
    def feeds(self, q):
        """local -> [operand descriptions] that flow into it"""
        if q in self.feed: return self.feed[q]
        f = self.p.fns[q]; d = {}; refs = {}
        for b in f.reachable():
            if f.cleanup(b): continue
            for s in f.stmts(b):
                if s[0] == "=":
                    l = s[1][0]
                    for o in operands(s[2]): d.setdefault(l, []).append(("o", o))
                    if s[2][0] == "ref" and s[2][1] and len(s[1]) == 1: refs[l] = s[2][2][0]
                    elif s[2][0] in ("use",) and len(s[1]) == 1 and "p" in s[2][1] and s[2][1]["p"][0] in refs: refs[l] = s[2][1]["p"][0]
        for b, t in f.calls():
            if f.cleanup(b): continue
            d.setdefault(t["dest"][0], []).append(("c", t, b))
            for x in t["args"]:
                if "p" in x and x["p"][0] in refs:
                    l = refs[x["p"][0]]
                    while l in refs and refs[l] != l: l = refs[l]
                    d.setdefault(l, []).append(("m", t, b, x["p"][0]))
        self.feed[q] = d
        return d
    def of(self, q, l, seen=None, fields=None, calls=None, lists=None, stack=()):
        seen = set() if seen is None else seen
        work = [("l", q, l, stack)]
        while work:
            _, q, l, st = work.pop()
            key = (q, l, repr(st) if st else ())
            if key in seen: continue
            seen.add(key); f = self.p.fns[q]
            if lists is not None: lists.add((q, l))
            if 1 <= l <= f.nargs and st:
                gq, args = st[-1]
                if l - 1 < len(args) and args[l - 1] is not None: self.operand(gq, args[l - 1], st[:-1], work, fields)
            for x in self.feeds(q).get(l, ()):
                if x[0] == "o": self.operand(q, x[1], st, work, fields)
                else:
                    t = x[1]; n = callee(t); m = n.rsplit("::", 1)[-1]
                    if calls is not None: calls.append((q, x[2], n, t, st))
                    if n in INTERN: continue
                    if m in ("index", "get", "get_mut", "len", "is_empty") and not (t.get("local") and n in self.p.fns):
                        self.operand(q, t["args"][0], st, work, fields); continue
                    if n in self.p.fns and len(st) < 3 and x[0] == "c":
                        work.append(("l", n, 0, st + ((q, tuple(t["args"])),)))
                        continue
                    for o in t["args"]:
                        if x[0] == "m" and "p" in o and o["p"][0] == x[3]: continue
                        if "p" in o or o.get("c") in ("fn", "zst"): self.operand(q, o, st, work, fields)
                        cq = closure_of(f, o) if ("p" in o and "closure" in f.ty(o["p"][0]) or "closure" in str(o.get("ty", ""))) else None
                        if cq and len(st) < 3: work.append(("l", cq, 0, st + ((q, (None,) + (t["args"][0],) * 3),)))
    def operand(self, q, o, st, work, fields):
        if "p" not in o: return
        pl = o["p"]; fl = [fkey(x) for x in pl[1:] if x != "*" and is_field(x)]
        fl = [x for x in fl if not x.startswith(("std::", "()", "{"))]
        if fl and fields is not None: fields.add(fl[-1])
        if fl and fl[-1].startswith("worksheet::Worksheet."): return
        if strip_refs(self.p.fns[q].ty(pl[0])) in ("workbook::Workbook", "worksheet::Worksheet"): return      # the object as a whole says nothing
        work.append(("l", q, pl[0], st))
def operands(rv):
    k = rv[0]
    if k in ("use", "repeat", "cast"): return [rv[1]]
    if k == "ref": return [{"p": rv[2]}]
    if k == "bin": return [rv[2], rv[3]]
    if k == "un": return [rv[2]]
    if k == "agg": return list(rv[2])
    return []
BADADAPT = ("filter", "filter_map", "rev", "skip", "skip_while", "take_while", "dedup", "retain", "reverse", "step_by", "sort", "sort_by", "sort_by_key", "sort_unstable", "truncate", "pop", "remove", "swap", "insert")
def globals_(p, r):
    S = Slice(p)
    n = 0
    for fld, (fn, own, other) in GLOBAL.items():
        stores = []
        for q, f in p.fns.items():
            for b in f.reachable():
                if f.cleanup(b): continue
                for s in f.stmts(b):
                    if s[0] == "=" and len(s[1]) > 1 and is_field(s[1][-1]) and fkey(s[1][-1]) == fld:
                        for o in operands(s[2]): stores.append((q, o, b))
                t = f.term(b)
                if t["k"] == "call" and len(t["dest"]) > 1 and is_field(t["dest"][-1]) and fkey(t["dest"][-1]) == fld:
                    for o in t["args"]: stores.append((q, o, b))
        k = 0
        for q, o, b in stores:
            if "p" not in o: continue
            # from the function that stores it up to where the list is made
            todo = [(q, o["p"][0], ())]
            for g, l, st in todo:
                fields = set(); calls = []; seen = set(); lists = set()
                S.of(g, l, seen, fields, calls, lists, st)
                cs = [c for c in calls if c[2] in INTERN]
                if not cs:
                    ups = {a for a in seen if 1 <= a[1] <= p.fns[a[0]].nargs and a[0] == g and not a[2]}
                    for h in sorted(p.callers().get(g, ())) if ups else ():
                        if len(st) > 2: continue
                        for b2, t2 in p.fns[h].calls():
                            if g in p.callees(t2):
                                for a in ups:
                                    x = t2["args"][a[1] - 1]
                                    if "p" in x: todo.append((h, x["p"][0], st))
                    continue
                k += 1; w = where(p, g); nm = "%s:%s" % (shortf(g), fld.rsplit(".", 1)[-1])
                r.check(all(c[2] == fn for c in cs), "table:%s" % nm, "%s fills %s with results of %s" % (g, fld, ", ".join(sorted({shortf(c[2]) for c in cs}))), w)
                for cq, cb, cn, ct, cst in cs:
                    ff = set(); S.of(cq, ct["args"][1]["p"][0], set(), ff, None, None, cst)
                    r.check(own in ff and other not in ff, "formats:%s" % nm, "%s looks up %s for %s instead of %s" % (g, ", ".join(sorted(ff)) or "other formats", fld, own), w)
                bad = sorted({shortf(c[2]) for c in calls if shortf(c[2]) in BADADAPT and not (c[2] in p.fns)})
                r.check(not bad, "adapt:%s" % nm, "%s leaves out or moves entries of %s (%s)" % (g, fld, ", ".join(bad)), w)
                pushed = 0
                for cq, cb, cn, ct, cst in calls:
                    if shortf(cn) not in ("push", "push_back"): continue
                    pushed += 1
                    r.check(everytime(p.fns[cq], cb), "all:%s" % nm, "%s does not add an entry to the list for %s on every pass of the loop" % (cq, fld), where(p, cq))
                n += 1
        r.check(k > 0, "filled:%s" % fld, "nothing fills %s with the indices of the workbook" % fld)
    r.floor("tables of workbook indices", n, 2)

def numorder(p, r):
    """the number formats of cell formats are numbered before those that are not written in the same list"""
    XF, DXF = "workbook::Workbook.xf_formats", "workbook::Workbook.dxf_formats"; n = 0
    for q, f in sorted(p.fns.items()):
        d = p.trans_fields().get(q, ((), ())); dd = p.direct_fields().get(q, ((), ()))
        if "format::Format.num_format_index" not in d[1] or "workbook::Workbook.num_formats" not in set(dd[0]) | set(dd[1]): continue
        if XF not in d[0] or DXF not in d[0]: continue
        from sym import Facts
        pos = {}; holds = {}
        order = [b for b in f.rpo()] if hasattr(f, "rpo") else sorted(f.reachable())
        arr = None
        for i, b in enumerate(order):
            if f.cleanup(b): continue
            for j, s in enumerate(f.stmts(b)):
                if s[0] != "=": continue
                for o in operands(s[2]):
                    if "p" not in o: continue
                    for k in (XF, DXF):
                        if any(is_field(x) and fkey(x) == k for x in o["p"][1:]):
                            pos.setdefault(k, (i, j))
                            if len(s[1]) == 1: holds[s[1][0]] = k
                    if o["p"][0] in holds and len(s[1]) == 1 and s[2][0] in ("use", "ref", "cast"): holds[s[1][0]] = holds[o["p"][0]]
                if s[2][0] == "agg":
                    ks = [holds.get(o["p"][0]) for o in operands(s[2]) if "p" in o]
                    if XF in ks and DXF in ks and s[2][1] in ("array", "tuple"): arr = arr or (ks.index(XF), ks.index(DXF))
            t = f.term(b)
            if t["k"] == "call":
                ks = [holds.get(o["p"][0]) if "p" in o else None for o in t["args"]]
                if XF in ks and DXF in ks and callee(t).rsplit("::", 1)[-1] == "chain": arr = arr or (ks.index(XF), ks.index(DXF))
                if any(ks) and len(t["dest"]) == 1: holds[t["dest"][0]] = next(k for k in ks if k)
        a, b = arr or (pos.get(XF), pos.get(DXF))
        if a is None or b is None: continue
        n += 1
        r.check(a < b, "numorder:%s" % shortf(q), "%s numbers the number formats of other formats before those that are written in the list of number formats" % q, where(p, q))
    r.floor("numberings of number formats", n, 1)
TRANSLATES = {"table::TableColumn.dxf_index": "worksheet::Worksheet.global_dxf_indices"}
def translated(p, r):
    S = Slice(p); n = 0
    for q, f in sorted(p.fns.items()):
        for b in f.reachable():
            if f.cleanup(b): continue
            for s in f.stmts(b):
                if s[0] == "=" and len(s[1]) > 1 and is_field(s[1][-1]) and fkey(s[1][-1]) in TRANSLATES:
                    want = TRANSLATES[fkey(s[1][-1])]; fields = set(); n += 1
                    for o in operands(s[2]):
                        if "p" in o:
                            fields |= {fkey(x) for x in o["p"][1:] if is_field(x)}
                            S.of(q, o["p"][0], set(), fields, None, None)
                    r.check(want in fields and not (set(GLOBAL) - {want}) & fields, "translate:%s:%s" % (shortf(q), fkey(s[1][-1])), "%s does not set %s to the index that %s has for it" % (q, fkey(s[1][-1]), want), where(p, q))
    r.floor("stores of translated indices", n, 1)
    # the ids of the embedded images of a worksheet: one for each of its images
    LIST = "worksheet::Worksheet.global_embedded_image_indices"; n = 0
    for q, f in sorted(p.fns.items()):
        for b in f.reachable():
            if f.cleanup(b): continue
            for s in f.stmts(b):
                if s[0] == "=" and len(s[1]) > 1 and is_field(s[1][-1]) and fkey(s[1][-1]) == LIST:
                    for o in operands(s[2]):
                        if "p" not in o: continue
                        calls = []; fields = set()
                        S.of(q, o["p"][0], set(), fields, calls, None)
                        bad = sorted({shortf(c[2]) for c in calls if shortf(c[2]) in BADADAPT and shortf(c[2]) != "insert" and not (c[2] in p.fns)})
                        r.check(not bad, "images:%s" % shortf(q), "%s leaves out or moves entries of %s (%s)" % (q, LIST, ", ".join(bad)), where(p, q))
                        for cq, cb, cn, ct, cst in calls:
                            if shortf(cn) not in ("push", "push_back"): continue
                            g = p.fns[cq]
                            if not (ct["args"] and "p" in ct["args"][0] and re.search(r"Vec<u32>", g.ty(ct["args"][0]["p"][0]))): continue
                            n += 1
                            r.check(everytime(g, cb), "images:%s" % shortf(cq), "%s does not add an id for every image of a worksheet" % cq, where(p, cq))
    r.floor("lists of image ids", n, 1)
def everytime(f, pb):
    """every pass of the innermost loop around the block goes through it"""
    succ = lambda b: [x for x in f.succ(b) if not f.cleanup(x)]
    heads = loops_of(f)
    inner = [h for h, body in heads.items() if pb in body]
    if not inner: return True
    h = min(inner, key=lambda x: len(heads[x])); body = heads[h]
    seen = set(); work = [x for x in succ(h) if x in body and x != pb] if h != pb else []
    while work:
        x = work.pop()
        if x == h: return False
        if x in seen or x == pb: continue
        seen.add(x); work += [y for y in succ(x) if y in body and y != pb]
    return True
def loops_of(f):
    I = intern.Interp(f.program); return I.loops(f.path)

# ---- a local index is not written without the translation
LOCAL = re.compile(r"^worksheet::(CellType::\w+|RowOptions|ColOptions)\.xf_index$")
CARRY = re.compile(r"\bu32\b")
TRANSLATED = ("worksheet::Worksheet.has_workbook_global_xfs", "worksheet::Worksheet.use_constant_memory")
def taint(p, r):
    src = {"%s.%s" % (a if d["kind"] == "struct" else a + "::" + v["name"], x[0]) for a, d in p.adts.items() for v in d["variants"] for x in v["fields"]}
    src = {k for k in src if LOCAL.match(k) and "InlineString" not in k}
    r.floor("fields that hold an index of the worksheet", len(src), 8)
    def carries(f, l): return bool(CARRY.search(f.ty(l))) and not re.search(r"Vec|Map|\[", f.ty(l))
    fs = {q: f for q, f in p.fns.items() if f.file.endswith("worksheet.rs")}
    clean = {}
    def isclean(q, b):
        """where the indices are those of the workbook already"""
        if q not in clean:
            f = p.fns[q]; clean[q] = set()
            if any(k in (p.direct_fields().get(q) or ((), ()))[0] for k in TRANSLATED):
                s = Sym(f); R = set(f.reachable())
                for b2 in R:
                    t = f.term(b2)
                    if t["k"] != "switch": continue
                    e = s.op(t["on"]); neg = False
                    while e[0] == "un": e = e[2]; neg = not neg
                    if not (e[0] == "fld" and e[2] in TRANSLATED): continue
                    off = [x for v, x in t["targets"] if v == "0"]; on = [x for v, x in t["targets"] if v != "0"] + [t["else"]]
                    if neg: off, on = on, off
                    # what is not reached without the edge to where the field is true
                    seen = {0}; work = [0]
                    while work:
                        x = work.pop()
                        for y in ([z for z in off] if x == b2 else f.succ(x)):
                            if y not in seen: seen.add(y); work.append(y)
                    clean[q] |= R - seen
        return b in clean[q]
    # a worksheet in constant memory mode has the indices of the workbook
    n = 0
    for q, f in sorted(p.fns.items()):
        w = {}
        for b in f.reachable():
            if f.cleanup(b): continue
            for st in f.stmts(b):
                if st[0] == "=" and len(st[1]) > 1 and is_field(st[1][-1]) and fkey(st[1][-1]) in TRANSLATED and st[2][0] == "use": w.setdefault(fkey(st[1][-1]), set()).add(str(st[2][1].get("v")))
        if TRANSLATED[1] in w and w[TRANSLATED[1]] & {"1", "True", "true"}:
            n += 1
            r.check(w.get(TRANSLATED[0]) == w[TRANSLATED[1]], "mode:%s" % shortf(q), "%s makes a worksheet in constant memory mode whose indices are not those of the workbook" % q, where(p, q))
    r.floor("functions that make a worksheet in constant memory mode", n, 1)
    ex = {q: True for q, f in fs.items() if not f.exported and p.callers().get(q)}
    ch = True
    while ch:
        ch = False
        for q in list(ex):
            if not ex[q]: continue
            for h in p.callers()[q]:
                for b, t in p.fns[h].calls():
                    if q in p.callees(t) and not p.fns[h].cleanup(b) and not ex.get(h) and not isclean(h, b): ex[q] = False; ch = True
                if "{closure" in q and not ex.get(h): ex[q] = False; ch = True
    params = {q: {} for q in fs}; rets = {}; sinks = {}; total = set()
    def flow(q):
        f = fs[q]; inn = {0: dict(params[q])}; work = [0]; newp = []
        while work:
            b = work.pop(); S = dict(inn[b])
            if isclean(q, b): S = {}
            def tainted(o):
                if "p" not in o or isclean(q, b): return None
                pl = o["p"]
                for x in pl[1:]:
                    if is_field(x) and fkey(x) in src: return fkey(x)
                if pl[0] in S and all(x == "*" or x[0] in ("as", "()") or not is_field(x) or fkey(x).startswith(("std::option", "()", "std::result", "std::ops")) for x in pl[1:]): return S[pl[0]]
                return None
            zero = {}                # locals that say whether another is 0
            copy = {}
            for s in f.stmts(b):
                if s[0] != "=": continue
                rv = s[2]; d = s[1]
                if rv[0] == "bin" and rv[1] in ("Eq", "Ne", "Lt", "Gt", "Le", "Ge") or rv[0] == "discr":
                    if rv[0] == "bin" and rv[1] in ("Eq", "Ne", "Gt") and "p" in rv[2] and str(rv[3].get("v")) == "0": zero[d[0]] = (copy.get(rv[2]["p"][0], rv[2]["p"][0]), rv[1])
                    if len(d) == 1: S.pop(d[0], None)
                    continue
                z = next((x for x in map(tainted, operands(rv)) if x), None)
                if len(d) == 1:
                    if z and carries(f, d[0]): S[d[0]] = z; total.add((q, d[0]))
                    else: S.pop(d[0], None)
                    if rv[0] == "use" and "p" in rv[1] and len(rv[1]["p"]) == 1: copy[d[0]] = copy.get(rv[1]["p"][0], rv[1]["p"][0])
                elif z and d[0] not in S and carries(f, d[0]): S[d[0]] = z
            t = f.term(b)
            if t["k"] == "call":
                m_ = callee(t); m = m_.rsplit("::", 1)[-1]
                zs = [tainted(o) for o in t["args"]]; z = next((x for x in zs if x), None); out = None
                if m_ in fs and not m_.endswith("::clone"):
                    for i, x in enumerate(zs):
                        if x and i + 1 <= fs[m_].nargs and carries(fs[m_], i + 1) and (i + 1) not in params[m_]: params[m_][i + 1] = x; newp.append(m_)
                    out = rets.get(m_)
                elif z:
                    if m == "to_string" or "fmt::rt::Argument" in m_: sinks[q, z] = b
                    elif m_ in p.fns and not m_.endswith("::clone") or m in ("index", "get", "get_unchecked", "len", "eq", "ne", "cmp", "lt", "gt", "le", "ge", "is_some", "is_none"): pass
                    else: out = z
                if len(t["dest"]) == 1:
                    if out and carries(f, t["dest"][0]): S[t["dest"][0]] = out; total.add((q, t["dest"][0]))
                    else: S.pop(t["dest"][0], None)
            if t["k"] == "return" and 0 in S and q not in rets: rets[q] = S[0]; newp += [h for h in p.callers().get(q, ()) if h in fs]
            # no index at all: 0 is the same for both
            edges = []
            if t["k"] == "switch" and "p" in t["on"]:
                l = t["on"]["p"][0]; l0 = copy.get(l, l)
                for v, x in [(v, x) for v, x in t["targets"]] + [(None, t["else"])]:
                    S2 = dict(S)
                    if l in zero and len(t["on"]["p"]) == 1:
                        iszero = (v == "0") != (zero[l][1] == "Eq")
                        if iszero: S2.pop(zero[l][0], None)
                    elif v == "0" and len(t["on"]["p"]) == 1: S2.pop(l0, None)
                    edges.append((x, S2))
            else: edges = [(x, S) for x in f.succ(b)]
            for x, S2 in edges:
                if f.cleanup(x): continue
                if x not in inn: inn[x] = dict(S2); work.append(x)
                elif not set(S2) <= set(inn[x]): inn[x] = {**S2, **inn[x]}; work.append(x)
        return newp
    todo = [q for q in sorted(fs) if not ex.get(q)]
    k = 0
    while todo and k < 20000:
        q = todo.pop(); k += 1
        todo += [x for x in flow(q) if not ex.get(x) and x not in todo]
    r.ok(len(src))
    for (q, z), b in sorted(sinks.items()):
        r.bad("local:%s:%s" % (shortf(q), z), "%s writes the index of a format in the worksheet (%s) where the index in the workbook belongs" % (q, z), where(p, q))
    r.count("values that hold an index of the worksheet", len(total))
    r.floor("places where an index of the worksheet is read", len(total), 10)

# ---- axes
IDS = ("chart::Chart.axis_ids", "chart::Chart.axis2_ids")
def axes(c, p, r):
    w1 = {str(e[7][0] if isinstance(e[7], (tuple, list)) else e[7]) for e in c.emission().events if e[3] == "c:axId"}
    w2 = {str(e[7][0] if isinstance(e[7], (tuple, list)) else e[7]) for e in c.emission().events if e[3] == "c:crossAx"}
    A = {q for q in p.fns if q in w1}; B = {q for q in p.fns if q in w2}
    r.check(bool(A) and bool(B), "axes:writers", "no writer of c:axId or c:crossAx")
    kinds = {}; n = 0
    def comp(e):
        """(pair, member) of an id"""
        if e[0] == "fld" and e[2].rsplit(".", 1)[-1] in ("0", "1") and e[2].startswith("()"): return (e[1], int(e[2].rsplit(".", 1)[-1]))
        return None
    for q, f in sorted(p.fns.items()):
        s = Sym(f)
        ia = [(b, comp(s.op(t["args"][-1]))) for b, t in f.calls() if not f.cleanup(b) and callee(t) in A and callee(t) != q]
        ib = [(b, comp(s.op(t["args"][-1]))) for b, t in f.calls() if not f.cleanup(b) and callee(t) in B and callee(t) != q]
        if ib:
            n += 1
            ok = len(ia) == 1 and len(ib) == 1 and ia[0][1] and ib[0][1] and ia[0][1][0] == ib[0][1][0] and ia[0][1][1] != ib[0][1][1]
            if r.check(ok, "cross:%s" % shortf(q), "%s does not give the axis one id and the other id of the same pair as the axis that it crosses" % q, where(p, q)) and ia[0][1][0][0] == "arg": kinds[q] = (ia[0][1][0][1], ia[0][1][1])
        elif ia:
            n += 1
            by = {}
            for b, x in ia:
                if x is None: r.bad("pair:%s" % shortf(q), "%s writes an axis id that is not a member of the chart's pairs" % q, where(p, q)); continue
                by.setdefault(str(x[0]), []).append((b, x[1]))
            for k, l in by.items():
                r.check(sorted(x for _, x in l) == [0, 1] and (l[0][0] in f.reachable(l[1][0]) or l[1][0] in f.reachable(l[0][0])), "pair:%s" % shortf(q), "%s does not write the two ids of one pair" % q, where(p, q))
    # the axes of a chart: one of each kind for a pair
    for q, f in sorted(p.fns.items()):
        s = Sym(f); ev = {}
        for b, t in f.calls():
            if f.cleanup(b) or callee(t) not in kinds: continue
            i, k = kinds[callee(t)]; e = s.op(t["args"][i - 1])
            fl = e[2] if e[0] == "fld" else None
            r.check(fl in IDS, "ids:%s" % shortf(q), "%s gives an axis ids other than those of the chart" % q, where(p, q)); n += 1
            if fl in IDS: ev[b] = (fl, k)
        if not ev: continue
        inn = {0: {()}}; work = [0]; rets = set()
        while work:
            b = work.pop()
            for st in list(inn[b]):
                if b in ev:
                    d = dict(st); d[ev[b]] = min(3, d.get(ev[b], 0) + 1); st = tuple(sorted(d.items()))
                if f.term(b)["k"] == "return": rets.add(st)
                for x in f.succ(b):
                    if f.cleanup(x): continue
                    if st not in inn.setdefault(x, set()): inn[x].add(st); work.append(x)
        for st in rets:
            d = dict(st)
            for fl in IDS: r.check(d.get((fl, 0), 0) == d.get((fl, 1), 0) <= 1, "axes:%s:%s" % (shortf(q), fl), "%s can write axes of which two have the same id or refer to an axis that is not there" % q, where(p, q))
        r.check({k for k in ev.values()} >= {(fl, k) for fl in IDS for k in (0, 1)}, "both:%s" % shortf(q), "%s does not write both axes for both pairs of ids" % q, where(p, q)) if len(ev) > 2 else None
    # four ids that are not the same
    for q, f in sorted(p.fns.items()):
        s = None; lin = {}
        for b in f.reachable():
            if f.cleanup(b): continue
            for st in f.stmts(b):
                if st[0] == "=" and len(st[1]) > 1 and is_field(st[1][-1]) and fkey(st[1][-1]) in IDS:
                    s = s or Sym(f); e = s.rv(st[2])
                    if e[0] == "agg" and len(e[3]) == 2: lin.setdefault(fkey(st[1][-1]), []).append([linear(x) for x in e[3]])
        prim = [x for l in lin.get(IDS[0], ()) for x in l]; sec = [x for l in lin.get(IDS[1], ()) for x in l]
        for a in prim:
            for b2 in sec: r.check(not (a[0] == b2[0] and a[1] == b2[1]), "distinct:%s" % shortf(q), "%s gives an axis of the secondary pair the id of a primary axis" % q, where(p, q))
        for l in list(lin.values()):
            for x, y in l: r.check(x != y or x[0] is None, "distinct2:%s" % shortf(q), "%s gives the two axes of a pair one id" % q, where(p, q))
        # the ids of the next chart come after those of this one
        for a in prim + sec:
            for k in ([a[1] - b2[1] for b2 in prim + sec if b2[0] == a[0]] if a[0] else ()):
                m = multiple(a[0])
                if m: r.check(k == 0 or k % m[1] != 0 or abs(k) >= 1000 * m[1], "charts:%s" % shortf(q), "%s gives two charts the same axis ids" % q, where(p, q))
    # a combined chart has the ids of the chart it is combined with
    for q, f in sorted(p.fns.items()):
        s = None
        for b in f.reachable():
            if f.cleanup(b): continue
            for st in f.stmts(b):
                if st[0] == "=" and len(st[1]) > 1 and is_field(st[1][-1]) and fkey(st[1][-1]) in IDS:
                    s = s or Sym(f); e = s.rv(st[2]); k = fkey(st[1][-1]); n += 1
                    if e[0] == "fld" and e[2] in IDS: r.check(e[2] == k, "copy:%s" % shortf(q), "%s copies the ids of the other pair of axes" % q, where(p, q))
                    elif e[0] == "agg" and len(e[3]) == 2: r.check(e[3][0] != e[3][1] or e[3][0][0] == "c", "same:%s" % shortf(q), "%s gives two axes one id" % q, where(p, q))
    r.floor("uses of axis ids", n, 20)

def linear(e):
    """(rest, constant)"""
    if e[0] == "bin" and e[1].replace("WithOverflow", "").replace("Unchecked", "") == "Add":
        a, b = linear(e[2]), linear(e[3])
        if a[0] is None: return (b[0], a[1] + b[1])
        if b[0] is None: return (a[0], a[1] + b[1])
        return (e, 0)
    if e[0] == "fld" and e[2].startswith("().0"): return linear(e[1])
    if e[0] == "c":
        try: return (None, int(e[2]))
        except (ValueError, TypeError): pass
    return (e, 0)
def multiple(e):
    """(expression, factor) of a product with a constant"""
    if e[0] == "fld" and e[2].startswith("().0"): return multiple(e[1])
    if e[0] == "bin" and e[1].startswith("Mul"):
        for x, y in ((e[2], e[3]), (e[3], e[2])):
            if y[0] == "c" and str(y[2]).isdigit(): return (x, int(y[2]))
    return None

# ---- the two parts of an extended conditional format
def rules14(p, r):
    names = ("worksheet::Worksheet.conditional_formats", "worksheet::Worksheet.conditional_format_order")
    found = {}
    for q, f in sorted(p.fns.items()):
        d = p.direct_fields().get(q, ((), ()))
        if names[0] not in d[0] or "{closure" in q: continue
        if not any(callee(t).rsplit("::", 1)[-1] in ("rule", "x14_rule") for b, t in f.calls()) and not any(callee(t2).rsplit("::", 1)[-1] in ("rule", "x14_rule") for b, t in f.calls() for g in p.callees(t) if g in p.fns for b2, t2 in p.fns[g].calls()): continue
        I = intern.Interp(p); I.touches = lambda n: any(callee(t).rsplit("::", 1)[-1] in ("rule", "x14_rule") for b, t in p.fns[n].calls()) if n in p.fns else False
        try: I.run(q)
        except intern.TooBig: r.bad("rules:%s" % shortf(q), "%s cannot be followed" % q, where(p, q)); continue
        found[q] = I
    r.check(len(found) >= 2, "rules:writers", "the writers of the two parts of an extended conditional format are not found")
    srcs = {}
    for q, I in found.items():
        w = where(p, q); nm = shortf(q)
        inner = {}; prio = set(); guid = set()
        for qq, h, st in I.log:
            lid = (qq, h)
            for e in st.ev:
                if e[0] == "pass" and e[1].rsplit("::", 1)[-1] in ("rule", "x14_rule"):
                    for v in e[2]:
                        if isL(v):
                            for s in syms(v):
                                if s[0] == "h" and s[1] == lid: prio.add(s[2]); inner.setdefault(lid, True)
                if e[0] == "show" and isL(e[1]):
                    for s in syms(e[1]):
                        if s[0] == "h" and s[1] == lid: guid.add(s[2])
        guid -= prio
        r.check(len(prio) == 1, "prio:%s" % nm, "%s does not number the rules by one counter" % q, w)
        r.check(len(guid) == 1, "guid:%s" % nm, "%s does not number the ids of the extended rules by one counter" % q, w)
        if len(prio) != 1 or len(guid) != 1: continue
        pc, gc = next(iter(prio)), next(iter(guid))
        n = 0
        for qq, h, st in I.log:
            lid = (qq, h)
            def now(c): return (st.env if c[0] == "e" else st.mem if c[0] == "m" else st.size).get(c[1])
            def was(c): return I_head(lid, c)
            P, G = now(pc), now(gc); hp, hg = L1(("h", lid, pc)), L1(("h", lid, gc))
            if lid in inner:
                n += 1
                r.check(P == plus(hp, num(1)), "step:%s" % nm, "%s does not count every rule once" % q, w)
                ext = None
                for k, v in st.cond.items():
                    if "has_x14_extensions" in str(k): ext = v not in (0, None) if v is not None else True
                    if "has_x14_extensions" in str(k) and v == 0: ext = False
                shown = [e for e in st.ev if e[0] == "show" and e[1] == hg]
                if ext is False: r.check(not shown and G == hg, "guid0:%s" % nm, "%s counts an id for a rule that has no extended part" % q, w)
                else: r.check(len(shown) == 1 and G == plus(hg, num(1)), "guid1:%s" % nm, "%s does not use one id for each rule that has an extended part" % q, w)
                for e in st.ev:
                    if e[0] == "pass" and e[1].rsplit("::", 1)[-1] in ("rule", "x14_rule"): r.check(hp in e[2], "given:%s" % nm, "%s gives a rule another priority than its own" % q, w)
            else:
                # a range: its rules are counted by the inner loop, or all at once
                if not (isL(P) and P != hp): 
                    if isL(P) and any(l2 != lid for l2 in inner) and P == hp: r.bad("skip:%s" % nm, "%s passes over rules without counting them" % q, w)
                    continue
                d = plus(P, hp, -1)
                fromin = any(s[0] == "h" and s[1] in inner for s in syms(P))
                r.check(fromin and P in [L1(s) for s in syms(P)] or len(d) > 1 and len(d[1]) == 1 and len(d[1][0]) == 2 and isinstance(d[1][0][0], tuple) and d[1][0][0] and d[1][0][1] == 1 and d[1][0][0][0] in ("n",), "skip:%s" % nm, "%s passes over rules without counting them" % q, w)
        r.floor("rule loops of %s" % nm, n, 1)
        srcs[q] = {i for i in items(I) if i}
        st0 = {c: v for lid, cells in I.init.items() for c, v in cells.items() if c in (pc, gc) and isL(v) and isconst(v)}
        r.check(all(const(v) == 1 for v in st0.values()) and len(st0) == 2, "from1:%s" % nm, "%s does not number the rules from 1" % q, w)
    vals = list(srcs.values())
    if len(vals) > 1: r.check(all(v == vals[0] for v in vals), "same", "the two parts of the extended conditional formats are written in the order of different collections: %s" % "; ".join("%s: %s" % (shortf(q), ", ".join(sorted(v))) for q, v in srcs.items()), where(p, sorted(srcs)[0]))
def L1(s): return intern.L({s: 1})
def I_head(lid, c): return L1(("h", lid, c))
def items(I):
    for qq, h, st in I.log:
        for e in st.ev:
            if e[0] == "item" and isinstance(e[1], tuple) and e[1][0] == "o":
                n = mapname(e[1])
                if n and n.startswith("worksheet::Worksheet.conditional"): yield n
            elif e[0] == "item" and "conditional" in str(e[1]):
                yield next((x for x in ("worksheet::Worksheet.conditional_format_order", "worksheet::Worksheet.conditional_formats") if x in str(e[1])), None)

# ---- number formats are written with the numbers they were given
def numfmts(p, r):
    n = 0
    for q, f in sorted(p.fns.items()):
        if "{closure" in q or "numFmts" not in consts_of(f): continue
        I = intern.Interp(p); I.touches = lambda g: False
        try: I.run(q)
        except intern.TooBig: r.bad("numfmts:%s" % shortf(q), "%s cannot be followed" % q, where(p, q)); continue
        for qq, h, st in I.log:
            vals = [e[1] for e in st.ev if e[0] == "show" and isL(e[1])] + [v for e in st.ev if e[0] == "pass" for v in e[2] if isL(v) and not isconst(v)]
            for v in vals:
                ss = syms(v); n += 1
                if all(s[0] == "pos" for s in ss): r.check(v == plus(L1(next(iter(ss))), num(164)), "numfmts:%s" % shortf(q), "%s does not number the number formats from 164" % q, where(p, q))
                else:
                    s = next(iter(ss)); c0 = I.init.get(s[1], {}).get(s[2]) if s[0] == "h" else None
                    now = (st.env if s[2][0] == "e" else st.mem).get(s[2][1]) if s[0] == "h" else None
                    r.check(c0 is not None and isL(now) and plus(v, L1(s), -1) == plus(num(164), c0, -1) and now == plus(L1(s), num(1)), "numfmts:%s" % shortf(q), "%s does not number the number formats from 164" % q, where(p, q))
    r.floor("numbers of number formats", n, 1)
def consts_of(f): return {o.get("v") for b in f.reachable() for s in f.stmts(b) if s[0] == "=" for o in operands(s[2]) if o.get("c") == "str"} | {o.get("v") for b, t in f.calls() for o in t["args"] if o.get("c") == "str"}
