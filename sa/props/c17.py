"""Every construction of a numeric cell (a crate enum variant with a `number: f64`
field) is found in MIR, and the branch facts that hold on every path to it must
exclude NaN and the infinities for exactly the value stored. Every read of the
three substitute strings must lie on paths where the value is known to be a
NaN, positive or negative respectively."""
RULE = "at CellType::{Number,DateTime} construction: !is_nan && !is_infinite (or is_finite) of the stored value; substitute strings used under the matching classification"
from sym import *
from ctx import loc

def nonfinite_excluded(facts, e):
    nan = inf = False; ne = set()
    for fa in facts:
        for op, a, b in comparisons(fa):
            if a == e and op == "Ne" and b[0] == "c":
                s = str(b[2]).lower()
                if "inf" in s: ne.add(s.startswith("-"))
        t = truth(fa)
        if not t: continue
        x, v = t
        if x[0] == "call" and x[2] and x[2][0] == e:
            n = x[1].rsplit("::", 1)[-1]
            if n == "is_nan" and not v: nan = True
            if n == "is_infinite" and not v: inf = True
            if n in ("is_finite", "is_normal") and v: nan = inf = True
        if x[0] == "bin" and x[1] == "Lt" and v and x[3][0] == "c" and x[2][0] == "call" and x[2][1].endswith("::abs") and x[2][2][0] == e: nan = inf = True
        if x[0] == "bin" and x[2] == e and x[3] == e and (x[1] == "Eq" and v or x[1] == "Ne" and not v): nan = True
    return nan, inf or len(ne) == 2

def integer(p, f, e):
    return e[0] == "c"

def classify(facts):
    """what is known about some float: {'nan','inf','finite','pos','neg'}"""
    out = set()
    for fa in facts:
        t = truth(fa)
        if t:
            x, v = t
            if x[0] == "call" and x[2]:
                n = x[1].rsplit("::", 1)[-1]
                if n == "is_nan": out.add("nan" if v else "notnan")
                if n == "is_infinite": out.add("inf" if v else "notinf")
                if n == "is_finite": out.add("finite" if v else "notfinite")
                if n == "is_sign_negative": out.add("neg" if v else "pos")
                if n == "is_sign_positive": out.add("pos" if v else "neg")
        for op, a, b in comparisons(fa):
            if b[0] == "c" and ("f64" in b[1] or b[1] == "float"):
                s = str(b[2]).lower()
                c = "ninf" if s.startswith("-inf") else "inf" if s.startswith("inf") else "zero" if float_zero(s) else None
                if c == "zero": out.add({"Gt": "pos", "Ge": "pos", "Lt": "neg", "Le": "neg"}.get(op, "?"))
                if c == "inf": out.add({"Eq": "pos", "Ne": "notposinf", "Lt": "notposinf"}.get(op, "?"))
                if c == "ninf": out.add({"Eq": "neg", "Ne": "notneginf", "Gt": "notneginf"}.get(op, "?"))
                if c in ("inf", "ninf") and op == "Eq": out.add("inf"); out.add("notnan")
    if "inf" in out or "notfinite" in out and "notnan" in out:
        if "notposinf" in out: out.add("neg")
        if "notneginf" in out: out.add("pos")
    return out

def float_zero(s):
    try: return float(s.replace("f64", "")) == 0.0
    except ValueError: return False

def run(c, r):
    p = c.prog(); w = World(p); n = 0
    for q, f in sorted(p.fns.items()):
        if f.impl and "Clone" in str(f.impl): continue
        hits = []
        for b in f.reachable():
            if f.cleanup(b): continue
            for st in f.stmts(b):
                if st[0] != "=": continue
                rv = st[2]
                if rv[0] == "agg" and isinstance(rv[1], dict) and rv[1].get("adt") == "worksheet::CellType" and "number" in rv[1].get("fields", []):
                    hits.append((b, rv[2][rv[1]["fields"].index("number")], rv[1]["variant"]))
                pl = st[1]
                if any(isinstance(x, list) and x[0].startswith("worksheet::CellType") and x[1] == "number" for x in pl[1:]) and rv[0] == "use":
                    hits.append((b, rv[1], "assignment"))
        if not hits: continue
        if q.endswith("::clone"): continue
        for b, o, v in hits:
            n += 1
            e = w.sym(q).op(o)
            facts = w.at(q, b)
            nan, inf = nonfinite_excluded(facts, e)
            where = "%s:%d %s" % (f.file, f.blocks[b][3], q)
            r.check(nan or integer(p, f, e), "nan:%s:%s" % (q, v), "a NaN can reach the %s cell built in %s" % (v, q), where)
            r.check(inf or integer(p, f, e), "inf:%s:%s" % (q, v), "an infinity can reach the %s cell built in %s" % (v, q), where)
            r.sample("%s: CellType::%s value guarded against NaN and infinities" % (where, v))
    r.floor("numeric cell constructions", n, 2)
    # the substitutes
    m = 0; definite = 0
    for setter, want in (("set_nan_value", "nan"), ("set_infinity_value", "pos"), ("set_neg_infinity_value", "neg")):
        q = "worksheet::Worksheet::" + setter
        if q not in p.fns:
            r.bad("anchor:" + setter, "Worksheet::%s not found" % setter); continue
        fl = {x for st in stores(p.fns[q]) for x in st}
        if len(fl) != 1:
            r.bad("setter:" + setter, "%s stores %s instead of one substitute string" % (q, sorted(fl) or "nothing"), loc(p, q)); continue
        fl = next(iter(fl)); uses = 0
        for g, f in sorted(p.fns.items()):
            if g == q or f.name in ("clone", "fmt", "eq", "hash") or f.ty(0) == "worksheet::Worksheet": continue
            for b in reads(f, fl):
                uses += 1; m += 1
                k = classify(w.at(g, b))
                ok = "nan" in k if want == "nan" else (want in k or ("inf" in k or {"notfinite", "notnan"} <= k) and {"pos": "neg", "neg": "pos"}[want] not in k) and "nan" not in k
                if want in k: definite += 1
                r.check(ok, "substitute:%s:%s" % (setter, g), "%s uses the string of %s for a value that is not known to be %s" % (g, setter, {"nan": "a NaN", "pos": "positive infinity", "neg": "negative infinity"}[want]),
                        "%s:%d" % (f.file, f.blocks[b][3]))
        r.check(uses, "unused:" + setter, "the string of %s is never written" % setter, loc(p, q))
    r.check(definite >= 2, "definite", "no path tells positive from negative infinity")
    r.floor("uses of substitute strings", m, 3)

def stores(f):
    out = []
    for b in f.reachable():
        if f.cleanup(b): continue
        pls = [st[1] for st in f.stmts(b) if st[0] == "="]
        t = f.term(b)
        if t["k"] == "call": pls.append(t["dest"])
        for pl in pls:
            if len(pl) > 1 and "*" in pl: out.append([fkey(x) for x in pl[1:] if isinstance(x, list) and is_field(x)][:1])
    return out

def reads(f, key):
    out = []
    for b in f.reachable():
        if f.cleanup(b): continue
        pls = []
        for st in f.stmts(b):
            if st[0] != "=": continue
            rv = st[2]
            if rv[0] in ("ref", "discr"): pls.append(rv[2] if rv[0] == "ref" else rv[1])
            pls += [o["p"] for o in rv_operands(rv) if "p" in o]
        t = f.term(b)
        if t["k"] == "call": pls += [o["p"] for o in t["args"] if "p" in o]
        if any(any(isinstance(x, list) and is_field(x) and fkey(x) == key for x in pl[1:]) for pl in pls): out.append(b)
    return out
