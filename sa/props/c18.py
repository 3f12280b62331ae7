"""Effect analysis over the call graph (closures, trait implementations and
function values included): every call in the crate to a library function that
touches the file system, the environment, processes or the network is listed
and classified. The functions reachable from the in-memory save methods may
contain none; `save(path)` may contain one file creation, whose operand is the
path parameter itself; the constructors of constant-memory worksheets (and set_tempdir, as a probe) may
create anonymous temporary files only; everything else may at most open a file
that the caller named for reading."""
RULE = "reach(save_to_buffer, save_to_writer) has no file-system effect; reach(save) creates its path argument only; temporary files are anonymous; other effects are reads of a path parameter"
ASSUMPTIONS = ["File-system effects are recognised by the library function's path (std::fs, tempfile, Path queries, std::env, std::process, std::net, std::os).",
               "The zip crate writes only through the writer it is given."]
import re
from sym import *
from ctx import loc

EFFECT = re.compile(r"(^|[<: ])std::fs::|(^|[<: ])tempfile::|(^|[<: ])std::process::|(^|[<: ])std::net::|(^|[<: ])std::env::|(^|[<: ])std::os::|Path::(exists|try_exists|is_file|is_dir|is_symlink|metadata|symlink_metadata|canonicalize|read_dir|read_link)$|(^|[<: ])libc::|(^|[<: ])zip::read|(^|[<: ])zip::write::ZipWriter::<.*File>")
PURE = re.compile(r"std::fs::File as std::(io|fmt|convert|clone|ops)|std::fs::File::(sync_all|sync_data|try_clone|metadata)$|std::env::temp_dir$|std::fs::OpenOptions::(new|read|write|create|append|truncate|create_new)$")
ANON = ("tempfile::tempfile", "tempfile::tempfile_in", "tempfile::spooled_tempfile", "tempfile::spooled_tempfile_in")
READ = ("std::fs::File::open", "std::fs::read", "std::fs::read_to_string", "std::fs::metadata")

def effects(p):
    out = {}
    for q, f in p.fns.items():
        for b, t in f.calls():
            n = t.get("res") or t.get("f") or "?"
            if EFFECT.search(n) and not PURE.search(n) and not t.get("local"): out.setdefault(q, []).append((b, n, t))
        for b in f.reachable():        # function values
            for st in f.stmts(b):
                if st[0] == "=":
                    for o in rv_operands(st[2]):
                        n = o.get("res") or o.get("f") or ""
                        if o.get("c") == "fn" and EFFECT.search(n) and not PURE.search(n): out.setdefault(q, []).append((b, n, None))
            t = f.term(b)
            if t["k"] == "call":
                for o in t["args"]:
                    n = o.get("res") or o.get("f") or ""
                    if o.get("c") == "fn" and EFFECT.search(n) and not PURE.search(n): out.setdefault(q, []).append((b, n, None))
    return out

def frompath(p, w, q, e, depth=0):
    """is e the (path) parameter of q, and in turn of every private caller"""
    args = {x for x in subexprs(e) if x[0] == "arg"}
    if len(args) != 1 or any(x[0] in ("loc", "c", "bin") for x in subexprs(e)): return False
    for x in subexprs(e):
        if x[0] == "call" and not x[1].endswith(("::path", "::as_path", "::to_path_buf", "::new", "::as_os_str", "::into", "::from")): return False
    f = p.fns[q]
    if f.exported: return True
    i = next(iter(args))[1]
    ok = False
    for c in p.callers().get(q, ()):
        for b, t in p.fns[c].calls():
            if q in p.callees(t):
                ok = True
                if depth > 6 or not frompath(p, w, c, w.sym(c).op(t["args"][i - 1]), depth + 1): return False
    return ok

def run(c, r):
    p = c.prog(); w = World(p)
    W = "workbook::Workbook::"
    eff = effects(p)
    r.floor("file-system calls", sum(len(v) for v in eff.values()), 4)
    mem = [W + "save_to_buffer", W + "save_to_writer"]
    for q in mem + [W + "save"]:
        if q not in p.fns: r.bad("anchor:" + q, q + " not found")
    R = p.reach([q for q in mem if q in p.fns]); S = p.reach([W + "save"] if W + "save" in p.fns else [])
    r.floor("functions reachable from the in-memory saves", len(R), 700)
    other = [q for q, f in p.fns.items() if f.exported and re.match(r"workbook::Workbook::save", q) and q not in mem and q != W + "save"]
    for q in other: r.bad("newsave:" + q, "%s is a save method that is not classified" % q, loc(p, q))
    for q in sorted(R):
        if q in eff:
            for b, n, t in eff[q]: r.bad("memory:%s:%s" % (q, n), "%s is reachable from saving to memory and calls %s" % (q, n), "%s:%d" % (p.fns[q].file, p.fns[q].blocks[b][3]))
        else: r.ok()
    creates = 0
    for q, l in sorted(eff.items()):
        for b, n, t in l:
            where = "%s:%d %s" % (p.fns[q].file, p.fns[q].blocks[b][3], q)
            r.sample("%s calls %s" % (where, n))
            if q in R: continue
            if n in ANON:
                r.check(q not in S, "tempsave:" + q, "saving to a path creates a temporary file in " + q, where)
                # only the constructors of constant-memory worksheets
                callers = exported_callers(p, q)
                for x in callers: r.check(re.search(r"constant_memory|low_memory|::set_tempdir$", x), "temp:%s" % x, "%s creates a temporary file" % x, where)
            elif n in READ or n.endswith(("OpenOptions::open",)) and False:
                r.check(q not in S, "readsave:%s" % q, "saving opens a file in " + q, where)
                r.check(t is not None and frompath(p, w, q, w.sym(q).op(t["args"][0])), "read:%s:%s" % (q, n), "%s opens a file that is not the path it was given" % q, where)
            elif n.startswith("std::fs::File::create") and q in S:
                creates += 1
                r.check(t is not None and frompath(p, w, q, w.sym(q).op(t["args"][0])), "create:%s" % q, "%s creates a file that is not the path it was given" % q, where)
            else:
                r.bad("effect:%s:%s" % (q, n), "%s calls %s: an effect that no public method documents" % (q, n), where)
    r.check(creates == 1, "creates", "saving to a path has %d file creations instead of one" % creates, loc(p, W + "save"))

def exported_callers(p, q):
    seen = set(); work = [q]; out = set()
    while work:
        x = work.pop()
        if x in seen: continue
        seen.add(x)
        if p.fns[x].exported and "{closure" not in x: out.add(x)
        work += p.callers().get(x, ())
    return out
