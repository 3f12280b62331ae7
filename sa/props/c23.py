"""Declared numbers of items against the items written, over MIR. For every tag
that the emission model shows with a count attribute, all paths from the tag to
its end are walked with the integer locals as linear forms over collection
sizes, loops collapsed to (size of what is iterated) x (what one iteration does)
and split by the condition that decides it: the count and the number of child
elements have to be the same form on every path. Counters that live in fields
(styles, shared strings) are tied to their collections by the same walk of the
functions that maintain them."""
RULE = "on every path, the declared count and the number of child elements written are the same linear form over the sizes of the iterated collections"
ASSUMPTIONS = ["The number of string references in the shared string table (its count attribute, as opposed to uniqueCount) is informative and not compared.",
               "Two expressions that select the same field are taken to denote the same collection."]
from sym import *
from mir import *
from terms import *
from counts import *
from ctx import loc
from props.c24 import w_of

N = {"count", "uniqueCount", "size", "manualBreakCount"}
INFORMATIVE = {("sst", "count")}
# tags whose count attribute is the number of their children in the file format
MUST = {"fonts", "fills", "borders", "cellStyleXfs", "cellXfs", "cellStyles", "dxfs", "numFmts", "tableColumns", "mergeCells", "dataValidations", "tableParts", "rowBreaks", "colBreaks", "sst", "vt:vector"}

def run(c, r):
    p = c.prog(); w = World(p); X = Trace(p); em = c.emission()
    sites = {}; pts = set(); ptc = {}; NA = set(); seen_tags = {}
    for ev in em.events:
        if ev[4] and ev[4][0] == "list":
            ns = [a for a in ev[4][1] if a[0] in N]
            if ns and ev[5] in ("open", "empty"): sites.setdefault(ev[7], (ev[3], {}))[1].update({a[0]: a[3] for a in ns})
        if ev[3] in MUST and ev[5] in ("open", "empty"): seen_tags.setdefault(ev[3], set()).add(ev[7])
        if ev[3] == "c:pt": pts.add(ev[7][0])
        if ev[3] == "c:ptCount": ptc[ev[7]] = 1
    n = 0; rel = {}
    for (q, line), (tag, ns) in sorted(sites.items()):
        f = p.fns[q]; B = {b for b, t in f.calls() if callee(t).rsplit("::", 1)[-1] in PRIM and not f.cleanup(b) and f.blocks[b][3] == line}
        S = Sim(p, w, X, em); S.target = {(q, b) for b in B}
        key = "count:%s" % tag
        outs = climb(p, S, q, r, key, tag)
        if outs is None: continue
        n += 1
        if not outs: r.bad(key, "the end of <%s> was not found" % tag, loc(p, q)); continue
        for kind, s, x, root in outs:
            S.settle(s)
            if kind != "closed": r.bad(key, "<%s> is not closed on every path" % tag, loc(p, q)); continue
            kids = {}
            for v in s.kids.values(): kids = add(kids, v)
            for a in sorted(ns):
                if (tag, a) in INFORMATIVE: continue
                have = s.counts.get(a)
                if have is None:
                    cs = {z[1] for z in ns[a] if z[0] == "s"}
                    if len(cs) == 1 and str(list(cs)[0]).isdigit() and len(ns[a]) == 1: have = const(int(list(cs)[0]))
                if not r.check(have is not None, key + ":" + a, "the value of the attribute %s of <%s> was not followed" % (a, tag), loc(p, q)): continue
                d = simplify(add(have, kids, -1), s)
                vs = [m for m in d if m[0:1] == ("val",)]
                if len(vs) == 1 and d[vs[0]] == 1:
                    # a number that is kept beside the collection
                    rel.setdefault((vs[0][1], fz(scale(add(d, {vs[0]: 1}, -1), -1))), (tag, q, s)); continue
                r.check(not d, key + ":" + a, "<%s %s> declares %s, but %s elements are written" % (tag, a, show(simplify(have, s)), show(simplify(kids, s))), loc(p, q))
    for t in sorted(MUST):
        r.check(t in seen_tags, "anchor:" + t, "no place that writes <%s> was found" % t)
        for s in seen_tags.get(t, ()): r.check(s in sites, "attr:" + t, "<%s> is written without its count" % t, "%s:%s %s" % (p.fns[s[0]].file, s[1], s[0]))
    r.floor("elements with a declared count", n, 22)
    stored(p, w, X, em, r, rel)
    points(p, w, X, em, r, ptc, pts)
    parts(p, w, X, em, r)

def simplify(d, s):
    return {m: k for m, k in d.items() if not (m[0:1] == ("len",) and s.empty.get(m[1]) == 1)}

def climb(p, S, q, r, key, tag):
    roots = {q}; outs = []
    for k in range(4):
        up = set()
        for root in sorted(roots):
            S.inl |= {root}
            S.steps = 0
            try: o = S.walk((root, None, None), 0, St())
            except TooBig as e:
                r.bad(key, "the paths of %s are too many to follow" % root, loc(p, root)); return None
            if any(kd == "ret" and s.on for kd, s, x in o):
                up |= {z[0] if isinstance(z, tuple) else z for z in p.callers().get(root, ())}
                outs += [(kd, s, x, root) for kd, s, x in o if s.on and kd != "ret"] if not up else []
            else: outs += [(kd, s, x, root) for kd, s, x in o if s.on]
        if not up: break
        roots = {x for x in up if x in p.fns}
    return outs

def stored(p, w, X, em, r, rel):
    """a count that is kept in a field equals what it counts"""
    n = 0
    for (key, form), (tag, q, s) in sorted(rel.items(), key=str):
        wh = loc(p, q); form = dict(form); n += 1
        k = "stored:" + tag
        if len(key) != 1 or "::" not in str(key[0][0]) or key[0][1]:
            r.bad(k, "<%s> declares a number whose origin was not found" % tag, wh); continue
        fld = key[0][0]
        lens = [m for m in form if m[0:1] == ("len",)]; cls = [m for m in form if m[0:1] == ("cls",)]
        if len(form) == 1 and lens and form[lens[0]] == 1 and len(lens[0][1]) == 1:
            table(p, w, X, em, r, fld, lens[0][1][0][0], tag, wh); continue
        if len(cls) == 1 and form[cls[0]] == 1 and set(form) <= {(), cls[0]} and len(cls[0][2]) == 1 and cls[0][2][0][1] in (1, ("not", 0)):
            e = cls[0][2][0][0]; k0 = form.get((), 0); lid = cls[0][1]
            flag = e[2] if isinstance(e, tuple) and e[:1] == ("fld",) and e[1] == "item" else None
            if not r.check(flag is not None, k, "what decides on the items of <%s> is not a mark on them" % tag, wh): continue
            coll = lid[0] if isinstance(lid[0], tuple) else None
            flagged(p, w, X, em, r, fld, coll, flag, k0, tag, wh); continue
        r.bad(k, "<%s> declares %s, but %s elements are written" % (tag, fld, show(form)), wh)
    r.floor("counts that are kept in a field", n, 4)

def field_source(p, X, owner_field):
    """what the field of a structure is built from: {(caller, field or constant)}"""
    ow, n = owner_field.rsplit(".", 1); out = []
    for q in sorted(p.fns):
        f = p.fns[q]
        if "{closure" in q or f.impl and (f.impl or {}).get("derived"): continue
        for b in f.reachable():
            if f.cleanup(b): continue
            for st in f.stmts(b):
                if st[0] == "=" and st[2][0] == "agg" and isinstance(st[2][1], dict) and st[2][1].get("adt") == ow and n in [str(x) for x in st[2][1]["fields"]]:
                    o = st[2][2][[str(x) for x in st[2][1]["fields"]].index(n)]
                    out.append((q, frozenset(X.op(q, o))))
                if st[0] == "=" and len(st[1]) > 1 and isinstance(st[1][-1], list) and is_field(st[1][-1]) and fkey(st[1][-1]) == owner_field:
                    out.append((q, frozenset(X.rvalue(q, st[2], (), frozenset(), (), b))))
    return out

def origins(p, X, fld):
    """per construction: (caller, term of the field)"""
    res = []
    for q, ts in field_source(p, X, fld):
        if any(b[0] == "arg" and not pa for b, pa, o in ts):
            for cq in sorted({z[0] if isinstance(z, tuple) else z for z in p.callers().get(q, ())}):
                f = p.fns[cq]
                for b, t in f.calls():
                    if not f.cleanup(b) and q in p.callees(t): res.append(((cq, b), X.subst(ts, cq, t["args"])))
        else: res.append(((q, -1), ts))
    return res

def lastfields(ts): return {([x for x in pa if "::" in x] or [None])[-1] if b[0] != "c" else "=" + str(b[2]) for b, pa, o in ts if b[0] not in ("none", "agg")}

def flagged(p, w, X, em, r, fld, coll, flag, k0, tag, wh):
    """fld = k0 + number of items of coll whose flag is set"""
    k = "stored:" + tag
    if coll is None: r.bad(k, "the items of <%s> are not those of one collection" % tag, wh); return
    # where the writer gets both from
    fs = dict(origins(p, X, fld)); cs = dict(origins(p, X, coll[0]))
    pairs = set()
    r.check(bool(fs) and set(fs) == set(cs), k + ":wiring", "the count and the items of <%s> are handed over at different places" % tag, wh)
    for site in sorted(set(fs) & set(cs)):
        a, b = lastfields(fs[site]), lastfields(cs[site])
        if a == {"=0"} and (not b or b == {None} or all(x is None or str(x).startswith("=") for x in b)): r.ok(); continue      # nothing to write
        if not r.check(len(a) == 1 and len(b) == 1 and None not in a | b, k + ":wiring", "the count and the items of <%s> do not come from one place each" % tag, w_of(p, *site) if site[1] >= 0 else loc(p, site[0])): continue
        pairs.add((list(a)[0], list(b)[0]))
    r.check(len(pairs) == 1, k + ":wiring", "the count of <%s> was not found" % tag, wh)
    for cf, cc in sorted(pairs):
        stores = [q for q in sorted(p.fns) if "{closure" not in q and cf in p.direct_fields().get(q, ((), ()))[1] and not p.fns[q].path.endswith(("::new", "::default", "::clone"))]
        r.check(bool(stores), k + ":store", "nothing keeps %s up to date" % cf, wh)
        for q in stores:
            S = Sim(p, w, X, em); S.fieldvars = frozenset([cf]); S.watchf = {flag}
            try: o = S.walk((q, None, None), 0, St())
            except TooBig: r.bad(k + ":store", "the paths of %s are too many to follow" % q, loc(p, q)); continue
            for kind, s, x in o:
                S.settle(s); v = s.env.get(("fld", -1, cf)); true = s.watch.get(flag, {}); sets = s.watch.get(flag + "=", {})
                if v is None: r.bad(k + ":store", "the value that %s gives to %s was not followed" % (q, cf), loc(p, q)); continue
                lids = {m[1] for m in v if m[0:1] in (("cls",),)}
                mine = {m: z for m, z in true.items() if m[0:1] == ("cls",) and m[1] in lids}
                d = add(add(v, mine, -1), const(k0), -1)
                r.check(not d and bool(mine), k + ":store", "%s gives %s the value %s, but marks %s items to be written in addition to %d" % (q, cf, show(v), show(true), k0), loc(p, q))
                C = {m for m in sets if m[0:1] == ("len",) and any(z[0] == cc for z in m[1])}
                r.check(any(sets[m] == 1 for m in C), k + ":all", "%s does not decide for every item of %s whether it is written" % (q, cc), loc(p, q))

def table(p, w, X, em, r, cf, coll, tag, wh):
    """cf = number of entries of coll: both change together"""
    k = "stored:" + tag; n = 0
    for q in sorted(p.fns):
        f = p.fns[q]
        rd, wr = p.direct_fields().get(q, ((), ()))
        if "{closure" in q or f.impl and f.impl.get("derived"): continue
        tf = p.trans_fields().get(q, ((), ()))
        cl = [z for z in p.closures_of(q)] if q in p.fns else []
        w2 = set(wr) | {y for z in cl for y in p.direct_fields().get(z, ((), ()))[1]}
        touches = cf in w2 or any(not f.cleanup(b) and callee(t).rsplit("::", 1)[-1] in ("insert", "or_insert", "or_insert_with", "or_default", "remove", "clear", "retain", "entry") and t["args"] and any(coll in pa or any(coll in z for z in o if z[0] == "ret") for bb, pa, o in X.op(q, t["args"][0])) for b, t in f.calls())
        if not touches: continue
        n += 1
        S = Sim(p, w, X, em); S.fieldvars = frozenset([cf]); S.inserts = frozenset([coll])
        for kind, s, x in S.walk((q, None, None), 0, St()):
            v = s.env.get(("fld", -1, cf), {("old", cf): 1})
            ins = s.watch.get("ins " + coll, {})
            d = None if v is None else add(add(v, {("old", cf): 1}, -1), ins, -1)
            r.check(d == {} and not any(z.split()[0] not in ("ins",) for z in s.watch), k + ":" + q, "%s changes the number of strings and their table by different amounts" % q, loc(p, q))
            if ins and not any(z[0] == "present" for z in s.conds):
                r.check(any("::get" in str(z) or "contains_key" in str(z) or "Vacant" in str(z) or "::entry" in str(z) for z in s.conds), k + ":absent:" + q, "%s counts a string that is already in the table" % q, loc(p, q))
    r.check(n > 0, k, "nothing that keeps %s up to date was found" % cf, wh)

def points(p, w, X, em, r, ptc, pts):
    n = 0
    for (q, line) in sorted(ptc):
        f = p.fns[q]; B = {b for b, t in f.calls() if callee(t).rsplit("::", 1)[-1] in PRIM and not f.cleanup(b) and f.blocks[b][3] == line}
        S = Sim(p, w, X, em); S.target = set(); S.sib = {(q, b) for b in B}; S.inl |= pts
        for kind, s, x, root in climb(p, S, q, r, "points", "c:ptCount") or []:
            n += 1; wh = loc(p, root)
            cnt = s.counts.get("val")
            ok = cnt is not None and len(cnt) == 1 and list(cnt)[0][0:1] == ("len",) and list(cnt.values()) == [1]
            if cnt is not None and len(cnt) == 1 and list(cnt)[0][0:1] == ("val",): ok = False
            if not r.check(ok, "points:count:" + root, "the number of points is not the number of cached values", wh): continue
            coll = list(cnt)[0][1]
            seen = 0
            for kk, v in s.kids.items():
                if not isinstance(kk, tuple) or kk[0] != "c:pt": continue
                seen += 1; idx = dict(kk[1])
                ix = [m for m in idx if m[0:1] == ("idx",)]
                if not r.check(len(idx) == 1 and len(ix) == 1 and idx[ix[0]] == 1, "points:idx:" + root, "the index of a point is not its position", wh): continue
                qq, bb = ix[0][1:3]
                kk2 = S.key((qq, None, None), X.op(qq, p.fns[qq].term(bb)["args"][0]))
                r.check({z[0] for z in kk2} == {z[0] for z in coll} and not any(z[1] for z in kk2), "points:same:" + root, "the points are not those that were counted", wh)
                r.check(all(z == 1 for z in v.values()) and len({m[1] for m in v}) == 1, "points:once:" + root, "a point can be written more than once", wh)
            r.check(seen > 0, "points:none:" + root, "no points are written", wh)
    r.floor("writers of cached points", n, 2)

def parts(p, w, X, em, r):
    """the titles of the parts: as many as the heading pairs announce"""
    A = "app::App."
    def pushes(fld):
        return {q for q in p.fns if "{closure" not in q and any(not p.fns[q].cleanup(b) and callee(t).rsplit("::", 1)[-1] in ("push", "extend", "insert") and t["args"] and any(A + fld in pa for bb, pa, o in X.op(q, t["args"][0])) for b, t in p.fns[q].calls())}
    hp, tp = pushes("heading_pairs"), pushes("table_parts"); n = 0
    r.check(bool(hp) and bool(tp), "parts:anchor", "the functions that collect the titles of the parts were not found")
    roots = {z[0] if isinstance(z, tuple) else z for g in hp | tp for z in p.callers().get(g, ())}
    for q in sorted(x for x in roots if x in p.fns and "test" not in x):
        S = Sim(p, w, X, em); wh = loc(p, q)
        def val(S, frame, st, a):
            o = a[-1]; return S.num(frame, st, o)
        S.watchc = {g: [("pairs", val)] for g in hp}
        for g in tp: S.watchc[g] = [("titles", lambda S, fr, st, a: const(1))]
        try: o = S.walk((q, None, None), 0, St())
        except TooBig: r.bad("parts:" + q, "the paths of %s are too many to follow" % q, wh); continue
        for kind, s, x in o:
            n += 1; S.settle(s)
            d = simplify(add(s.watch.get("pairs", {}), s.watch.get("titles", {}), -1), s)
            if any(m[0:1] == ("brk",) for m in d) or kind == "ret" and d and iserr(p, w, q, s, x): continue
            r.check(not d, "parts:" + q, "the heading pairs announce %s titles, but %s are listed" % (show(simplify(s.watch.get("pairs", {}), s)), show(simplify(s.watch.get("titles", {}), s))), wh)
    r.floor("paths that list the titles of the parts", n, 1)

def iserr(p, w, q, s, x): return False
