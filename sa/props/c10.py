"""Analysis of what identifies a format. The fields that the public setters of
Format can write (interprocedural write effects over MIR) are compared with the
facts that equality implies (symbolic outcome analysis of the eq method: which
pairs of fields are known to be equal wherever it returns true), with the fields
the hash method reads, and with the fields that merging reads from the other
format and writes to its own. Rules: (1) eq returning true implies the equality
of every settable field; (2) every field that is hashed is compared by eq; (3)
Clone is derived for formats and their components; the equality and the hash of
the components (fonts, fills, borders, alignments, colours, styles) are derived
or obey the same rules; (4) merging reads every settable field of the other
format and writes the same field of its own; (5) the tables that share font,
fill, border and number format indices in the styles part are keyed by the whole
component (or the whole number format string) of the format that gets the index; (6) the tables of format
indices are keyed by the whole format that the function was given; (7) every
settable field is read by the code that writes the styles part; (8) no setter
except the chained constructors writes nothing."""
RULE = "settable fields of Format = fields implied equal by eq = fields merged; hashed fields are a subset; index tables are keyed by whole components"
ASSUMPTIONS = ["Derived PartialEq, Hash and Clone implementations cover all fields (Rust reference)."]
import re
from sym import *
from ctx import loc
from flow import *

FMT = "format::Format"
def last(ty): return re.sub(r"^(&|mut |std::option::Option<|std::vec::Vec<)*", "", ty).rstrip(">")

def components(p):
    """local types that a Format is made of"""
    out = []; st = [FMT]
    while st:
        a = st.pop()
        if a in out or a not in p.adts: continue
        out.append(a)
        for v in p.adts[a]["variants"]:
            for fl in v["fields"]: st += re.findall(r"[\w:]+", fl[1])
    return out

def impl_of(p, trait, ty):
    return [i for i in p.impls if i["trait"] and i["trait"].split("<")[0] == trait and i["self"] == ty]

def method(p, ty, trait, name):
    q = "<%s as %s>::%s" % (ty, trait, name)
    return q if q in p.fns else None

def eq_fields(p, w, q):
    """fields (owner.field) of which eq -> true implies equality on both sides"""
    s = w.implied(q, True)
    if s is None: return set()
    out = set()
    def prefixes(a, b):
        r = []
        while a[0] == "fld" and b[0] == "fld" and a[2] == b[2]:
            r.append(a[2]); a, b = a[1], b[1]
        return r if {a, b} == {("arg", 1), ("arg", 2)} else []
    for fact in s:
        for op, x, y in comparisons(fact):
            if op == "Eq":
                pr = prefixes(x, y)
                if pr: out.add(pr[0])
        e, v = fact
        if e[0] == "call" and e[1].endswith("PartialEq>::eq") and two(v) == 1 and len(e[2]) == 2:
            pr = prefixes(e[2][0], e[2][1])
            if pr: out.add(pr[0])
    return out

def fields_of(p, a):
    return ["%s.%s" % (a, fl[0]) for fl in p.adts[a]["variants"][0]["fields"]] if p.adts[a]["kind"] == "struct" else []

def run(c, r):
    p = c.prog(); w = World(p)
    if FMT not in p.adts: r.bad("anchor:Format", "the type format::Format is gone"); return
    comps = components(p); tf = p.trans_fields(); cg = p.callgraph()
    r.floor("component types", len(comps), 8)
    structs = [a for a in comps if p.adts[a]["kind"] == "struct"]
    ftype = {"%s.%s" % (a, fl[0]): fl[1] for a in structs for fl in p.adts[a]["variants"][0]["fields"]}
    own = set(ftype)
    # (1) what can be set
    settable = {}; ns = 0
    for q, f in sorted(p.fns.items()):
        if not q.startswith(FMT + "::") or not f.exported or f.nargs == 0: continue
        n = f.name
        if not (f.ty(0) == FMT and f.ty(1) == FMT): continue
        ns += 1
        wr = {x for x in tf[q][1] if x in own}
        if not wr: r.bad("noeffect:" + q, "the public method %s changes no field of the format" % n, loc(p, q))
        else: r.ok()
        for x in wr: settable.setdefault(x, q)
    r.floor("format setters", ns, 40)
    leaf = {x: q for x, q in settable.items() if last(ftype[x]) not in structs}
    r.floor("settable fields", len(leaf), 35)
    # (1)-(3) equality, hash and clone of every component
    known = set()
    for a in comps:
        cl = impl_of(p, "std::clone::Clone", a)
        r.check(len(cl) == 1 and cl[0]["derived"], "clone:" + a, "%s is not cloned by the derived implementation: a clone may differ from its original" % a, a)
        e = impl_of(p, "std::cmp::PartialEq", a); h = impl_of(p, "std::hash::Hash", a)
        e = [i for i in e if i["trait"] in ("std::cmp::PartialEq", "std::cmp::PartialEq<%s>" % a)] or e
        if not e or not h: r.bad("traits:" + a, "%s has no %s" % (a, "equality" if not e else "hash"), a); continue
        ed, hd = e[0]["derived"], h[0]["derived"]
        if ed: known |= set(fields_of(p, a))
        if p.adts[a]["kind"] != "struct":
            r.check(ed, "eq:" + a, "the equality of the enumeration %s is not derived: different values may compare equal" % a, a)
            r.check(hd, "hash:" + a, "the hash of the enumeration %s is not derived while its equality is" % a, a) if ed else None
            continue
        fs = set(fields_of(p, a))
        if not ed:
            q = method(p, a, "std::cmp::PartialEq", "eq")
            ef = (eq_fields(p, w, q) & own) if q else set()
            known |= ef
            # a component is compared if all of it is
            direct = {x for x in fs if x in ef or last(ftype[x]) in structs and all(y in ef for y in fields_of(p, last(ftype[x])))}
        else: direct = fs
        if hd: hf = fs
        else:
            q = method(p, a, "std::hash::Hash", "hash")
            hf = {x for x in tf[q][0] if x in fs} if q else set()
            r.check(bool(hf), "hashes:" + a, "the hash of %s reads no field" % a, a)
            extra = {x for x in tf[q][0] if x in own and x not in fs} if q else set()
            for x in sorted(extra): r.check(x in known or ed, "hasheq:" + x, "the hash of %s reads %s, which its equality does not compare" % (a, x), a)
        for x in sorted(hf): r.check(x in direct, "hasheq:" + x, "%s is hashed but equality does not compare it: equal formats may get different indices" % x, a)
    for x, q in sorted(leaf.items()):
        r.check(x in known, "eq:" + x, "%s can be set by %s but two formats that differ in it compare equal: one of them is written in place of the other" % (x, q.rsplit("::", 1)[-1]), loc(p, q))
    # (4) merge
    mq = [q for q, f in p.fns.items() if q.startswith(FMT + "::") and f.exported and f.nargs == 2 and f.ty(0) == FMT and f.ty(1) == "&" + FMT and f.ty(2) == "&" + FMT]
    r.floor("merge methods", len(mq), 1)
    for q in mq:
        rd, wr, cross = merged(p, w, q, own, ftype, structs)
        for x, y, wq in sorted(cross): r.bad("merge-cross:%s:%s" % (x, y), "%s writes %s of the other format to %s of the merged one" % (wq, y, x), loc(p, wq))
        for x in sorted(leaf):
            r.check(x in rd, "merge-read:" + x, "%s does not take over %s of the other format" % (q, x), loc(p, q))
            r.check(x in wr, "merge-write:" + x, "%s does not set %s of the merged format" % (q, x), loc(p, q))
    # (5) tables of component indices
    ntab = 0
    index = {}
    for q, f in p.fns.items():
        if q.startswith(FMT + "::") and not f.exported and f.nargs >= 2 and f.ty(1) == "&mut " + FMT:
            for b in f.reachable():
                for st in f.stmts(b):
                    if st[0] == "=" and len(st[1]) > 1 and isinstance(st[1][-1], list) and st[1][-1][0] == FMT:
                        x = w.sym(q).rv(st[2])
                        while x[0] in ("call", "cast", "un") and x[0] == "call" and len(x[2]) == 1: x = x[2][0]
                        if x == ("arg", 2) and st[1][-1][1].endswith("_index"): index[q] = st[1][-1][1]
    WH = {"font_index": FMT + ".font", "fill_index": FMT + ".fill", "border_index": FMT + ".borders", "num_format_index": FMT + ".num_format"}
    seen = set()
    def deloc(e):
        return e
    for q, f in sorted(p.fns.items()):
        used = {index[c2] for b, t in f.calls() for c2 in p.callees(t) if c2 in index} | \
               {st[1][-1][1] for b in f.reachable() for st in f.stmts(b) if st[0] == "=" and len(st[1]) > 1 and isinstance(st[1][-1], list) and st[1][-1][0] == FMT and st[1][-1][1] in WH and not q.startswith("format::")}
        if not used or q.startswith("format::"): continue
        s = w.sym(q)
        for fld in sorted(used):
            if fld not in WH: continue
            fe = WH[fld]; want = ftype.get(fe)
            maps = 0
            for b, t in f.calls():
                if not t["f"] or not re.search(r"(HashMap|BTreeMap)::<.*>::(get|get_mut|insert|entry|contains_key)$", t["f"]): continue
                kt = (t.get("targs") or [""])[0]
                key = s.op(t["args"][1]); maps += 1; ntab += 1
                r.check(kt == want, "tablekey:%s:%s" % (q, fld), "%s shares %s through a table keyed by %s instead of %s: formats that differ elsewhere get the same index" % (q, fld, kt, want), "%s:%d %s" % (f.file, t.get("line", f.blocks[b][3]), q))
                ks = unclone(key)
                good = ks[0] == "fld" and ks[2] == fe
                r.check(good, "tableexpr:%s:%s" % (q, fld), "%s looks up %s with a key that is not the %s of the format" % (q, fld, fe), "%s:%d %s" % (f.file, f.blocks[b][3], q))
            if maps: seen.add(fld)
    for x in WH: r.check(x in seen, "table:" + x, "no table was found that assigns %s by %s" % (x, WH[x]))
    r.floor("component table operations", ntab, 8)
    # (6) tables of format indices
    nf = 0
    for q, f in sorted(p.fns.items()):
        ps = [i for i in range(1, f.nargs + 1) if f.ty(i) == "&" + FMT]
        for b, t in f.calls():
            if not t["f"] or not re.search(r"(HashMap|BTreeMap)::<.*>::(get|get_mut|insert|entry|contains_key)$", t["f"]): continue
            if (t.get("targs") or [""])[0] != FMT: continue
            nf += 1
            if not ps: continue
            from props.c12 import derived
            o = t["args"][1]
            r.check("p" in o and o["p"][0] in derived(f, ps), "fmtkey:" + q, "%s looks up a format index with a key that does not come from the format it was given" % q, "%s:%d %s" % (f.file, f.blocks[b][3], q))
    r.floor("format index table operations", nf, 8)
    for a in p.adts.values():
        for v in a["variants"]:
            for fl in v["fields"]:
                if re.search(r"_indices$", fl[0]) and "xf" in fl[0] and "Map<" in fl[1]:
                    m = re.search(r"Map<([\w:]+)", fl[1])
                    r.check(m and m.group(1) == FMT, "fmttable:%s.%s" % (a["path"], fl[0]), "the format index table %s is not keyed by the whole format" % fl[0], a["path"])
    # (7) everything settable is read by the styles writer
    roots = [q for q in p.fns if q.startswith("styles::Styles::")]
    r.floor("style writers", len(roots), 15)
    rd = set()
    for q in p.reach(roots): rd |= p.direct_fields()[q][0]
    wbq = {q for q in p.reach([q for q in p.fns if re.match(r"workbook::Workbook::(save|prepare_)", q)]) if not q.startswith("<") and not q.startswith(FMT + "::set_") and not q.startswith(FMT + "::merge")}
    for q in wbq: rd |= p.direct_fields()[q][0]
    for x, q in sorted(leaf.items()):
        r.check(x in rd, "written:" + x, "%s is set by %s but never read when the styles part is written" % (x, q.rsplit("::", 1)[-1]), loc(p, q))
    r.sample("settable: " + ", ".join(sorted(leaf)))

def unclone(e):
    while e[0] == "call" and len(e[2]) == 1 and (e[1].endswith("Clone>::clone") or e[1].endswith("::clone") or e[1].endswith("to_owned") or e[1].endswith("Deref>::deref") or e[1].endswith("to_string")): e = e[2][0]
    return e

def merged(p, w, q, own, ftype, structs):
    """fields read from the other format (parameter 2) / written to the result, over all helpers"""
    rd, wr, cross = set(), set(), set(); seen = set()
    # (function, index of the parameter that holds the other side)
    st = [(q, frozenset([2]))]
    while st:
        q, other = st.pop()
        if (q, other) in seen or q not in p.fns: continue
        seen.add((q, other)); f = p.fns[q]; s = w.sym(q)
        def side(e):
            """'o' when the expression comes from the other format, 's' otherwise"""
            return any(x[0] == "arg" and x[1] in other for x in subexprs(e))
        def place_expr(pl):
            try: return s.place(pl)
            except Exception: return ("?",)
        wr |= {x for x in p.direct_fields()[q][1] if x in own}
        for b in f.reachable():
            if f.cleanup(b): continue
            exprs = []
            for stt in f.stmts(b):
                if stt[0] == "=":
                    tgt = stt[1][-1] if len(stt[1]) > 1 and isinstance(stt[1][-1], list) and len(stt[1][-1]) == 2 else None
                    if tgt and "%s.%s" % tuple(tgt) in own and stt[2][0] in ("use", "bin"):
                        for x in subexprs(s.rv(stt[2])):
                            if x[0] == "fld" and x[2] in own and side(x) and last(ftype[x[2]]) not in structs and x[2] != "%s.%s" % tuple(tgt): cross.add(("%s.%s" % tuple(tgt), x[2], q))
                    if stt[2][0] == "ref": exprs.append(place_expr(stt[2][2]))
                    else: exprs.append(s.rv(stt[2]))
            t = f.term(b)
            if t["k"] == "call":
                args = [s.op(o) for o in t["args"]]; exprs += args
                for c2 in p.callees(t):
                    if c2 in p.fns and c2.startswith("format::"):
                        st.append((c2, frozenset(i + 1 for i, a in enumerate(args) if side(a))))
                    if c2.endswith("::clone_from"):
                        e = args[0]
                        if e[0] == "fld":
                            wr.add(e[2]); src = unclone(args[1])
                            if src[0] == "fld" and src[2] in own and src[2] != e[2]: cross.add((e[2], src[2], q))
            elif t["k"] == "switch": exprs.append(s.op(t["on"]))
            for e in exprs:
                for x in subexprs(e):
                    if x[0] == "fld" and x[2] in own and side(x): rd.add(x[2])
    return rd, wr, cross
