"""Whole-program value flow from the text parameters of the public API to the
statements that write bytes into an XML buffer (sa/flow.py). The escape
functions of the xmlwriter module cut the flow, so every flow that reaches a
write is unescaped user text. In addition: the escape tables (read from the
switch statements of the escape functions) cover the special characters, text
inside attribute values went through the attribute table, cell strings went
through the `_xHHHH_` escaper, and the primitive writers escape their data."""
RULE = "no flow from a public text parameter to an XML write without an escape function; escape tables complete; escaper fits the context"
ASSUMPTIONS = [
    "Flows through integers, characters counted as numbers, files and caller-supplied closures are not followed.",
    "The Display of foreign types passed as numbers (Decimal, i128 ...) prints no XML characters.",
]
from flow import Flow, textlike
from mir import *
import re

ESC = ("xmlwriter::escape_attributes", "xmlwriter::escape_xml_data")

def switch_table(p, path):
    """char -> replacement of a match function, from its MIR"""
    f = p.fns[path]; out = {}
    def consts(b, seen=()):
        """string constants reachable before return from block b"""
        res = set(); work = [b]; vis = set()
        while work:
            x = work.pop()
            if x in vis: continue
            vis.add(x)
            got = False
            for st in f.stmts(x):
                if st[0] == "=":
                    for o in rv_operands(st[2]):
                        if o.get("c") == "str": res.add(o.get("v", o.get("str"))); got = True
            if not got: work.extend(f.succ(x))
        return res
    for b in f.reachable():
        t = f.term(b)
        if t["k"] != "switch": continue
        for v, tgt in t["targets"]:
            cs = consts(tgt)
            if len(cs) == 1: out[chr(int(v))] = next(iter(cs))
    return out

def unscanned(p, path):
    """blocks that return the parameter unchanged although no scan of all its
    characters lies on every path to them"""
    f = p.fns[path]
    if not f.ty(0).startswith("std::borrow::Cow"): return []
    # locals that alias the text parameters
    al = {i for i in range(1, f.nargs + 1) if textlike(f.ty(i))}
    ch = True
    while ch:
        ch = False
        for b in f.live_blocks():
            for st in f.stmts(b):
                if st[0] != "=" or len(st[1]) > 1 or st[1][0] in al: continue
                rv = st[2]
                src = rv[2] if rv[0] == "ref" else rv[1].get("p") if rv[0] in ("use", "cast") and isinstance(rv[1], dict) else None
                if src and src[0] in al and all(e == "*" for e in src[1:]) and f.ty(st[1][0]).startswith("&"): al.add(st[1][0]); ch = True
    scan = set()
    for b, t in f.calls():
        nm = t.get("res") or t.get("f") or ""
        fn = any(o.get("c") == "fn" or "closure" in (o.get("ty") or "") or ("p" in o and ("closure" in f.ty(o["p"][0]) or re.fullmatch(r"[A-Z]\w?", f.ty(o["p"][0])))) for o in t["args"])
        if nm.endswith("::next") or fn: scan.add(t["dest"][0])
    ch = True
    while ch:
        ch = False
        for b in f.live_blocks():
            for st in f.stmts(b):
                if st[0] == "=" and st[1][0] not in scan:
                    rv = st[2]
                    src = [rv[1]] if rv[0] == "discr" else [rv[2]] if rv[0] == "ref" else [o["p"] for o in rv_operands(rv) if "p" in o]
                    if any(x[0] in scan for x in src): scan.add(st[1][0]); ch = True
            t = f.term(b)
            if t["k"] == "call" and t["dest"][0] not in scan and any("p" in o and o["p"][0] in scan for o in t["args"]): scan.add(t["dest"][0]); ch = True
    stop = {b for b in f.live_blocks() if f.term(b)["k"] == "switch" and "p" in f.term(b)["on"] and f.term(b)["on"]["p"][0] in scan}
    free = f.reachable(0, stop)
    out = []
    for b in free:
        for st in f.stmts(b):
            if st[0] == "=" and st[2][0] == "agg" and isinstance(st[2][1], dict) and st[2][1].get("variant") == "Borrowed":
                if any("p" in o and o["p"][0] in al for o in st[2][2]): out.append(b)
    return out

def run(c, r):
    p = c.prog(); em = c.emission()
    emitters = set(em.emitters)
    nsink = [0]
    def sinkcall(f, b, t):
        nm = t.get("f") or ""
        if f.path in emitters and nm in ("std::io::Write::write_fmt", "std::io::Write::write_all", "std::io::Write::write"):
            o = t["args"][0]
            ty = (f.ty(o["p"][0]) if "p" in o else "") + " ".join(t.get("targs", []))
            if "Zip" in ty: return []
            nsink[0] += 1
            return [(t["args"][1], f.path)]
        return []
    def skip(t):
        return (t.get("f") or "").startswith("std::io::Write::")
    class F(Flow):
        # the name of an attribute is constant (C03): only values carry text
        def cutfield(self, f, e): return f.path.endswith("::write_to") and e[0] == "()" and e[1] == "0"
    fl = F(p, sanitizers=ESC, sinkcall=sinkcall, skipcall=skip)
    src = {}
    for f in p.fns.values():
        if not f.exported or "{closure" in f.path: continue
        for i in range(1, f.nargs + 1):
            if fl.can(f.ty(i)) and not f.ty(i).startswith("&mut"):
                src[(f.path, i)] = None
    r.floor("public text parameters (sources)", len(src), 230)
    r.floor("XML write statements (sinks)", nsink[0], 28)
    r.count("value flow edges", sum(map(len, fl.succ.values())))
    pred = fl.taint(list(src))
    def report(n, lab):
        path = [x for x in fl.path(pred, n)]
        hops = []
        for x in path:
            y = x if isinstance(x, str) else x[0]
            if not hops or hops[-1] != y: hops.append(y)
        r.bad("unescaped:" + lab, "user text reaches this XML write unescaped: " + " -> ".join(hops), C_loc(p, lab.split(" ")[0]))
    # raw parameters of the primitives: judged at each call
    rawparam = set()
    for f in p.fns.values():
        if "xmlwriter::" not in f.path: continue
        for i in range(1, f.nargs + 1):
            if not fl.can(f.ty(i)): continue
            seen = set(); work = [(f.path, i)]
            while work:
                n = work.pop()
                if n in seen: continue
                seen.add(n)
                work.extend(m for m in fl.succ.get(n, ()) if isinstance(m, tuple) and "xmlwriter::" in m[0])
            if any(n in fl.sinks for n in seen): rawparam.add((f.path, i))
    r.count("unescaped parameters of primitives", len(rawparam))
    for f in sorted(p.fns.values(), key=lambda f: f.path):
        if "xmlwriter::" in f.path: continue
        for b, t in f.calls():
            for q in p.callees(t):
                for i, o in enumerate(t["args"]):
                    if (q, i + 1) in rawparam:
                        n = fl.op(f, o)
                        if n is not None and n in pred: report(n, f.path + " calls " + q.rsplit("::", 1)[-1])
                        else: r.ok()
    for n, labs in sorted(fl.sinks.items(), key=str):
        for lab in labs:
            if "xmlwriter::" in lab: continue
            if n in pred: report(n, lab)
            else: r.ok()
    r.count("text flows reach (nodes)", len(pred))
    # tables
    need = {"xmlwriter::escape_xml_data": {"&": "&amp;", "<": "&lt;", ">": "&gt;"},
            "xmlwriter::escape_attributes": {"&": "&amp;", "<": "&lt;", ">": "&gt;", '"': "&quot;", "\n": "&#xA;"}}
    for i in list(range(0, 9)) + [11, 12] + list(range(13, 32)):
        need["xmlwriter::escape_xml_data"][chr(i)] = "_x%04X_" % i
    for fn, tab in need.items():
        f = p.fns.get(fn)
        if f is None:
            r.bad("anchor:" + fn, "the escape function %s does not exist" % fn); continue
        got = {}
        for q in p.reach([fn]): got.update(switch_table(p, q) if q != fn or True else {})
        r.count("characters escaped by " + fn.rsplit("::", 1)[-1], len(got))
        for ch, rep in tab.items():
            r.check(got.get(ch) == rep, "table:%s:%02x" % (fn, ord(ch)),
                    "%s replaces U+%04X by %r, not by %r" % (fn, ord(ch), got.get(ch), rep), C_loc(p, fn))
    nb = 0
    for q in sorted(p.reach([x for x in need if x in p.fns])):
        f = p.fns[q]
        if f.ty(0).startswith("std::borrow::Cow"):
            nb += 1
            r.check(not unscanned(p, q), "fastpath:" + q, "%s can return its text unchanged without having looked at every character" % q, C_loc(p, q))
    r.floor("functions returning escaped text", nb, 3)
    # contexts
    def escs(v, out):
        """escape functions applied to the arguments of a written value"""
        if isinstance(v, frozenset):
            for x in v: escs(x, out)
        elif isinstance(v, tuple):
            if len(v) == 3 and v[0] == "esc":
                ch = [v[1]]; x = v[2]
                while isinstance(x, tuple) and len(x) == 3 and x[0] == "esc": ch.append(x[1]); x = x[2]
                out.append(tuple(ch)); return
            for x in v: escs(x, out)
    ctxn = 0
    for w, kind, v, chain, site in em.raws:
        out = []; escs(v, out)
        for ch in out:
            ctxn += 1
            ch = tuple(x.rsplit("::", 1)[-1] for x in ch)
            if kind in ("attr", "attrs"):
                r.check(ch[0] == "escape_attributes", "attrctx:" + site[0], "an attribute value is escaped by %s, which leaves quotes as they are" % ch[0], C_loc(p, site[0]))
            elif chain and chain[-1] == "t":
                r.check("escape_xml_data" in ch and "escape_xml_escapes" in ch, "strctx:" + site[0],
                        "a cell string is written without neutralising literal _xHHHH_ sequences", C_loc(p, site[0]))
    r.floor("escaped raw writes", ctxn, 300)
    # primitives
    for q, (exits, raws, events, issues) in em.prims.items():
        n = q.rsplit("::", 1)[-1]
        if n in ("xml_data_element", "xml_data_element_only", "xml_si_element"):
            out = []
            for w, kind, v, chain, site in raws:
                if kind == "text" and not site[0].endswith("::write_to"): escs(v, out)
            r.check(bool(out) and all("escape_xml_data" in x for ch in out for x in [[y.rsplit("::", 1)[-1] for y in ch]]), "prim:" + n, "the element data is not escaped", C_loc(p, q))
            if n == "xml_si_element":
                r.check(bool(out) and all("escape_xml_escapes" in [y.rsplit("::", 1)[-1] for y in ch] for ch in out), "prim:escapes:" + n, "shared strings are written without neutralising literal _xHHHH_ sequences", C_loc(p, q))
        if n == "write_to":
            out = []
            for w, kind, v, chain, site in raws: escs(v, out)
            r.check(bool(out) and all(ch[0].endswith("escape_attributes") for ch in out), "prim:" + q, "the attribute value is not escaped", C_loc(p, q))

from ctx import loc as C_loc
