"""Every call reachable from the save methods that yields an I/O or zip error
(directly, or through functions of the crate that propagate one) is examined:
its Result must be propagated with `?`, returned, or matched so that no path
from the error arm returns success. Results that are unwrapped, converted to an
Option, tested without returning, or dropped are violations. Writers of
in-memory buffers are exempt; generic writers that panic on error are followed
to the calls that give them a file. Success must be dominated by finishing the
zip archive."""
RULE = "results of fallible I/O in reach(save*) are propagated; Ok of save* is dominated by a checked ZipWriter::finish"
ASSUMPTIONS = ["Panics inside the zip and tempfile crates are out of scope."]
import re, collections
from sym import *
from ctx import loc

IOERR = re.compile(r"io::Error|ZipError|XlsxError")
MEM = re.compile(r"Cursor<|Vec<u8>|String\b|\[u8\]")
BADUSE = ("::unwrap", "::expect", "::unwrap_or", "::unwrap_or_else", "::unwrap_or_default", "::ok", "::err", "::is_ok_and", "::is_err_and", "::iter", "::into_iter", "::unwrap_unchecked",
          "::expect_err", "::unwrap_err", "::or", "::map_or", "::map_or_else", "::flatten", "::inspect_err" + "?")
PASS = ("::map_err", "::map", "::and_then", "::inspect_err", "::inspect", "::and", "::into", "::from", "::clone")

def isres(ty): return ty.startswith("std::result::Result<") and IOERR.search(split_generics(ty[len("std::result::"):] if 0 else ty)[-1] if split_generics(ty) else ty)

class Disc:
    def __init__(self, p, w):
        self.p = p; self.w = w; self.uses_c = {}
    def uses(self, f):
        if f.path in self.uses_c: return self.uses_c[f.path]
        U = collections.defaultdict(list)
        for b in f.reachable():
            if f.cleanup(b): continue
            for st in f.stmts(b):
                if st[0] != "=": continue
                rv = st[2]
                if rv[0] == "discr": U[rv[1][0]].append((b, "discr", st))
                elif rv[0] == "ref": U[rv[2][0]].append((b, "ref", st))
                else:
                    for o in rv_operands(rv):
                        if "p" in o: U[o["p"][0]].append((b, "use", st))
            t = f.term(b)
            if t["k"] == "call":
                for i, o in enumerate(t["args"]):
                    if "p" in o: U[o["p"][0]].append((b, "arg", t))
            elif t["k"] == "switch" and "p" in t["on"]: U[t["on"]["p"][0]].append((b, "switch", t))
            elif t["k"] == "return": U[0].append((b, "return", t))
        self.uses_c[f.path] = U
        return U

    def okdefs(self, f):
        """blocks where the return value can become a success"""
        out = set()
        isr = f.ty(0).startswith("std::result::Result<")
        s = self.w.sym(f.path)
        for b in f.reachable():
            if f.cleanup(b): continue
            for st in f.stmts(b):
                if st[0] == "=" and st[1] == [0]:
                    e = s.rv(st[2])
                    if not (isr and e[0] == "agg" and e[2] == "Err"): out.add(b)
            t = f.term(b)
            if t["k"] == "call" and t["dest"] == [0] and not (t.get("f") or "").endswith("::from_residual") and not (t.get("res") or "").endswith("::from_residual"): out.add(b)
        if not isr and not out: out = {b for b in f.reachable() if f.term(b)["k"] == "return"}
        return out

    def errpath_ok(self, f, start):
        """no success can be returned from block start on"""
        r = f.reachable(start)
        return not (set(r) & self.okdefs(f))

    def judge(self, f, l, seen=None):
        """None if the Result in local l is handled, otherwise what happens to it"""
        seen = seen or set()
        if l in seen: return None
        seen.add(l)
        if l == 0: return None
        good = False; probs = []
        for b, k, x in self.uses(f).get(l, []):
            if k == "arg":
                n = x.get("res") or x.get("f") or ""
                if n.endswith("::branch"): good = True; continue
                if any(n.endswith(y) for y in PASS) or n.endswith("::or_else"):
                    q = self.judge(f, x["dest"][0], seen)
                    if q is None: good = True
                    else: probs.append(q)
                    continue
                if any(n.endswith(y) for y in BADUSE): probs.append("is handled with " + n.rsplit("::", 1)[-1] + "()"); continue
                if n.endswith("mem::drop") or n.endswith("::drop"): continue
                if x.get("local") or x.get("virt"): good = True; continue
                if f.ty(x["dest"][0]).startswith("std::result::Result<"):
                    q = self.judge(f, x["dest"][0], seen)
                    if q is None: good = True
                    else: probs.append(q)
                continue
            if k == "use":
                st = x
                if st[2][0] in ("use", "cast"):
                    src = st[2][1]
                    if "p" in src and len(src["p"]) == 1:
                        q = self.judge(f, st[1][0], seen) if len(st[1]) == 1 else None
                        if q is None: good = True
                        else: probs.append(q)
                elif st[2][0] == "agg":
                    q = self.judge(f, st[1][0], seen) if len(st[1]) == 1 and f.ty(st[1][0]).startswith("std::result") else None
                    if q is None: good = True
            if k == "ref":
                st = x; rl = st[1][0]
                for b2, k2, x2 in self.uses(f).get(rl, []):
                    if k2 == "arg":
                        n = x2.get("res") or x2.get("f") or ""
                        if n.endswith(("::is_err", "::is_ok")):
                            g = self.branch(f, x2["dest"][0], 1 if n.endswith("is_err") else 0)
                            if g: good = True
                            else: probs.append("is only tested with " + n.rsplit("::", 1)[-1] + "()")
                        elif n.endswith(("::as_ref", "::as_mut", "::as_deref")):
                            q = self.judge(f, x2["dest"][0], seen)
                            if q is None: good = True
            if k == "discr":
                d = x[1][0]
                g = self.branch(f, d, 1)
                if g: good = True
                else: probs.append("is matched, but the error arm can go on to success")
        if good: return None
        return probs[0] if probs else "is discarded"

    def branch(self, f, l, errval):
        """switches on local l: the edge `errval` never returns success"""
        found = False
        for b, k, t in self.uses(f).get(l, []):
            if k == "use" and len(t[1]) == 1 and t[2][0] in ("use", "un"):
                v = errval if t[2][0] == "use" else 1 - errval
                if self.branch(f, t[1][0], v): found = True
            if k == "switch":
                tg = [x for v, x in t["targets"] if int(v) == errval] or [t["else"]]
                if all(self.errpath_ok(f, x) for x in tg): found = True
        return found

def run(c, r):
    p = c.prog(); w = World(p); D = Disc(p, w)
    W = "workbook::Workbook::"
    roots = [W + "save", W + "save_to_buffer", W + "save_to_writer"]
    for q in roots:
        if q not in p.fns: r.bad("anchor:" + q, q + " not found")
    roots = [q for q in roots if q in p.fns]
    R = p.reach(roots)
    # functions whose Result can carry an I/O error
    cap = set()
    base = collections.defaultdict(list)      # fn -> [(block, term)]
    for q in R:
        f = p.fns[q]
        for b, t in f.calls():
            if p.callees(t): continue
            n = t.get("res") or t.get("f") or ""
            ty = f.ty(t["dest"][0]) if len(t["dest"]) == 1 else f.ty(0) if t["dest"] == [0] else ""
            if not ty.startswith("std::result::Result<") or not IOERR.search(ty) or n.endswith("::from_residual"): continue
            if any(n.endswith(y) for y in PASS + BADUSE): continue
            a0 = f.ty(t["args"][0]["p"][0]) if t["args"] and "p" in t["args"][0] else ""
            if "io::Write::" in n or "fmt::Write" in n or n.endswith(("::flush", "::write_all", "::write_fmt", "::write")):
                if MEM.search(a0) and "ZipWriter" not in a0: continue
            base[q].append((b, t, a0))
    ch = True
    while ch:
        ch = False
        for q in R:
            f = p.fns[q]
            if q in cap or not (f.ty(0).startswith("std::result::Result<") and IOERR.search(f.ty(0))): continue
            if base.get(q) or any(x in cap for b, t in f.calls() for x in p.callees(t)) or any(x in cap for x in p.closures_of(q)): cap.add(q); ch = True
    panicking = {}      # generic writers that do not return their error
    n = 0
    for q in sorted(R):
        f = p.fns[q]
        for b, t in f.calls():
            cal = [x for x in p.callees(t) if x in cap]
            nm = t.get("res") or t.get("f") or ""
            bb = next(((t2, a0) for b2, t2, a0 in base.get(q, ()) if b2 == b), None)
            if not cal and not bb: continue
            n += 1
            if nm.endswith("io::Write::write") and not cal: prob = "may write a part of the data only (write instead of write_all)"
            else: prob = D.judge(f, t["dest"][0]) if len(t["dest"]) == 1 else None
            if prob is None: r.ok(); continue
            if bb and re.fullmatch(r"&mut [A-Z][A-Za-z0-9]{0,2}", bb[1]) and w.sym(q).op(t["args"][0])[0] == "arg":
                panicking.setdefault((q, w.sym(q).op(t["args"][0])[1]), prob); r.ok(); continue
            short = nm.rsplit("::", 1)[-1]
            r.bad("%s:%s" % (q, short), "the result of %s in %s %s" % (nm, q, prob), "%s:%d" % (f.file, f.blocks[b][3]))
    r.floor("fallible calls on the save paths", n, 120)
    r.floor("functions that propagate I/O errors", len(cap), 25)
    # generic writers that panic: what are they given
    def captured(q, e):
        """the parameters that a writer captured by the closure q comes from"""
        x = [x for x in subexprs(e) if x[0] == "fld" and x[1] and "{closure}" in str(x)]
        out = []
        for par in p.fns.values():
            if not q.startswith(par.path + "::{closure") or par.path not in R: continue
            for b in par.live_blocks():
                for st in par.stmts(b):
                    if st[0] == "=" and st[2][0] == "agg" and isinstance(st[2][1], dict) and st[2][1].get("closure") == q:
                        for fx in x:
                            i = int(fx[2]) if str(fx[2]).isdigit() else None
                            if i is None:
                                m2 = re.search(r"(\d+)$", str(fx[2])); i = int(m2.group(1)) if m2 else None
                            if i is None or i >= len(st[2][2]): return []
                            pe = w.sym(par.path).op(st[2][2][i])
                            ar = {y for y in subexprs(pe) if y[0] == "arg"}
                            if len(ar) != 1: return []
                            out.append((par.path, next(iter(ar))[1]))
        return out
    work = list(panicking); done = set(); m = 0
    while work:
        g, i = work.pop()
        if (g, i) in done: continue
        done.add((g, i))
        for q in sorted(p.callers().get(g, ())):
            if q not in R: continue
            f = p.fns[q]
            for b, t in f.calls():
                if g not in p.callees(t): continue
                m += 1
                o = t["args"][i - 1]
                a0 = f.ty(o["p"][0]) if "p" in o else "?"
                e = w.sym(q).op(o)
                if re.fullmatch(r"(&mut )+[A-Z][A-Za-z0-9]{0,2}", a0) and e[0] == "arg":
                    work.append((q, e[1]))
                elif MEM.search(a0): r.ok()
                elif re.search(r"^(&mut |&)+[A-Z][A-Za-z0-9]{0,2}$", a0) and captured(q, e): work.extend(captured(q, e))
                else:
                    fl = sorted({x[2] for x in subexprs(e) if x[0] == "fld"})
                    r.bad("panic:%s" % (fl[-1] if fl else q), "%s gives a %s to a writer that panics when a write fails" % (q, strip_refs(a0)), "%s:%d" % (f.file, f.blocks[b][3]))
    r.count("calls of infallible writers", m)
    # success only after the archive is finished
    must = set(); ch = True
    def mustcall(f):
        s = w.sym(f.path)
        hit = set()
        for b, t in f.calls():
            nm = t.get("res") or t.get("f") or ""
            cs = p.callees(t)
            if (not cs and "ZipWriter" in nm and nm.endswith(("::finish", "::finish_into_readable"))) or (cs and all(x in must for x in cs)): hit.add(b)
        if not hit: return False
        ok = D.okdefs(f)
        seen = set(); st = [0]
        while st:
            b = st.pop()
            if b in seen: continue
            seen.add(b)
            if b in hit: continue
            st += [x for x in f.succ(b) if not f.cleanup(x)]
        return not ((ok & seen) - hit)
    while ch:
        ch = False
        for q in R:
            if q not in must and "{closure" not in q and mustcall(p.fns[q]): must.add(q); ch = True
    for q in roots: r.check(q in must, "finish:" + q, "%s can return success without having finished the zip archive" % q, loc(p, q))
    r.count("functions that finish the archive before success", len(must))
    r.sample("must finish: " + ", ".join(sorted(must)))
    r.sample("propagating functions: " + ", ".join(sorted(cap)[:12]) + " ...")
