"""Lock-discipline analysis over MIR. All acquisitions of a Mutex or RwLock are
listed; guards are followed to the operations on the table they protect. Rules:
(1) a table is only added to by a get-or-insert that is atomic under one
exclusive guard: entry().or_insert*(), or an insert that is dominated by a failed
look-up through the same guard; methods of the table that take &mut self are
judged the same way; (2) the index that is inserted is computed under the same
guard (its length or a counter that the same step increments), never from an
earlier guard; (3) shared tables never shrink; (4) no lock is acquired while a
guard of the same table is alive (self-deadlock), directly or through calls; (5)
code that runs on spawned threads acquires no exclusive lock; (6) a worksheet is
switched to a shared table only together with a clone of the workbook's own
Arc."""
RULE = "check and insert under one exclusive guard; index computed under that guard; no re-acquisition; threads acquire nothing; shared Arc comes from the workbook"
ASSUMPTIONS = ["Data races proper are excluded by the compiler (Send/Sync, C19); the crate has no unsafe code."]
import re
from sym import *
from ctx import loc

ACQ = re.compile(r"(Mutex|RwLock)(::<.*>)?::(lock|read|write|try_lock|try_read|try_write)$")
EXCL = re.compile(r"::(lock|write|try_lock|try_write)$")
SHRINK = {"clear", "remove", "remove_entry", "retain", "drain", "take", "replace", "extract_if", "pop", "truncate", "swap_remove"}
GUARDTY = re.compile(r"(MutexGuard|RwLockReadGuard|RwLockWriteGuard)<")

def acquires(e):
    return [x for x in subexprs(e) if x[0] == "call" and ACQ.search(x[1])]

def table_type(t):
    """the protected type of a guard or lock type"""
    m = re.search(r"(?:MutexGuard|RwLockReadGuard|RwLockWriteGuard|Mutex|RwLock)<(?:'[\w_]+, )?(.*)>", t)
    s = m.group(1) if m else t
    d = 0
    for i, ch in enumerate(s):
        if ch == "<": d += 1
        elif ch == ">":
            if d == 0: return s[:i]
            d -= 1
    return s

def absent(w, q, b, table, key):
    """a look-up of key in table (expression) is known to have failed at block b"""
    for e, v in w.at(q, b):
        if e[0] == "discr" and e[1][0] == "call" and e[1][1].rsplit("::", 1)[-1] in ("get", "get_mut", "get_key_value") and two(v) == 0 and e[1][2] and e[1][2][0] == table and e[1][2][1:2] == (key,): return True
        t = truth((e, v))
        if t and t[0][0] == "call" and t[0][1].endswith("::contains_key") and not t[1] and t[0][2][0] == table and t[0][2][1:2] == (key,): return True
    return False

def mutations(p, w, q, is_table, seen=None):
    """[(block, kind, table expr, call expr, term)] of operations on tables for which is_table(expr) holds"""
    f = p.fns[q]; out = []
    for b, t in f.calls():
        if not t["args"]: continue
        s = w.sym(q); a = tuple(s.op(o) for o in t["args"])
        if not is_table(a[0]): continue
        n = t.get("res") or t.get("f") or "?"
        out.append((b, n, a, t))
    return out

def atomic_in(p, w, r, q, is_table, what, counts, depth=0):
    f = p.fns[q]
    for b, n, a, t in mutations(p, w, q, is_table):
        m = n.rsplit("::", 1)[-1]; where = "%s:%d %s" % (f.file, f.blocks[b][3], q)
        gs = w.targets(n)
        if gs and depth < 4:
            for g in gs:
                if p.fns[g].nargs and p.fns[g].ty(1).startswith("&mut"):
                    atomic_in(p, w, r, g, lambda e: e == ("arg", 1) or e[0] == "fld" and mentions(e, ("arg", 1)), what, counts, depth + 1)
            continue
        if "HashMap" in n or "BTreeMap" in n or "IndexMap" in n or "Vec" in n or "HashSet" in n:
            if m in SHRINK:
                r.bad("shrink:%s:%s" % (q, m), "%s removes entries from the shared table %s: indices would be given out twice" % (q, what), where); continue
            if m == "insert":
                counts["insert"] += 1
                r.check(absent(w, q, b, a[0], a[1]), "checked:%s" % q, "%s inserts into the shared table %s without a failed look-up of the same key under the same exclusive guard: another thread may have added it since the earlier look-up" % (q, what), where)
                value(p, w, r, q, b, a[0], a[2] if len(a) > 2 else None, what, where)
            elif m == "entry":
                counts["insert"] += 1; r.ok()
    # or_insert*(value)
    for b, t in f.calls():
        n = t.get("f") or "?"
        if "Entry" in n and n.rsplit("::", 1)[-1] in ("or_insert", "or_insert_with", "or_insert_with_key", "insert", "insert_entry", "insert_entry", "or_default"):
            s = w.sym(q); a = tuple(s.op(o) for o in t["args"])
            if not any(is_table(x) for x in subexprs(a[0])): continue
            where = "%s:%d %s" % (f.file, f.blocks[b][3], q)
            tabs = [x[2][0] for x in subexprs(a[0]) if x[0] == "call" and x[1].endswith("::entry")]
            value(p, w, r, q, b, tabs[0] if tabs else None, a[1] if len(a) > 1 else None, what, where)

def value(p, w, r, q, b, table, v, what, where):
    if v is None: return
    f = p.fns[q]
    # locals with several definitions: all of them
    vals = [v]; seen = set(); work = [v]
    while work:
        x = work.pop()
        for y in subexprs(x):
            if y[0] == "loc" and y[1] not in seen:
                seen.add(y[1])
                for bb, i, rv in w.sym(q).defs.get(y[1], []):
                    z = w.sym(q).call(bb, rv) if i < 0 else w.sym(q).rv(rv); vals.append(z); work.append(z)
    own = set(acquires(table)) if table is not None else set()
    for y in subexprs(table or ()):
        if y[0] == "loc":
            for bb, i, rv in w.sym(q).defs.get(y[1], []): own |= set(acquires(w.sym(q).call(bb, rv) if i < 0 else w.sym(q).rv(rv)))
    for x in vals:
        for y in acquires(x):
            if y not in own:
                r.bad("stale:%s" % q, "%s computes the index for the shared table %s under a different guard from the one it inserts with" % (q, what), where); return
    # a closure that computes the value: counter read and incremented
    for x in vals:
        for y in subexprs(x):
            if y[0] == "closure" and y[1] in p.fns:
                g = p.fns[y[1]]; inc = ret = False
                for bb in g.reachable():
                    for st in g.stmts(bb):
                        if st[0] == "=" and "*" in st[1][1:]:
                            e = w.sym(y[1]).rv(st[2])
                            if any(z[0] == "bin" and z[1] == "Add" and z[3][0] == "c" and z[3][2] == "1" for z in subexprs(e)): inc = True
                r.check(inc or not g.nargs, "counter:%s" % y[1], "the counter that numbers the entries of the shared table %s is not incremented by the step that uses it" % what, where)
                return
    fields = [y for x in vals for y in subexprs(x) if y[0] == "fld"]
    if any(y[0] == "call" and y[1].endswith("::len") for x in vals for y in subexprs(x)):
        ok = any(y[0] == "call" and y[1].endswith("::len") and y[2] and y[2][0] == table for x in vals for y in subexprs(x))
        r.check(ok, "length:%s" % q, "%s numbers an entry of the shared table %s with the length of something else" % (q, what), where)
    else: r.ok()

def run(c, r):
    p = c.prog(); w = World(p); cg = p.callgraph()
    acq = {}
    for q, f in sorted(p.fns.items()):
        for b, t in f.calls():
            n = t.get("res") or t.get("f") or ""
            if ACQ.search(n) or ACQ.search(t.get("f") or ""): acq.setdefault(q, []).append((b, n, t))
    counts = {"insert": 0}
    # (1)-(3)
    for q, l in sorted(acq.items()):
        f = p.fns[q]
        tys = {table_type(f.ty(t["args"][0]["p"][0])) for b, n, t in l if "p" in t["args"][0]}
        for ty in sorted(tys):
            atomic_in(p, w, r, q, lambda e: is_guard_path(e, f, ty), short(ty), counts)
        r.sample("%s acquires %s" % (loc(p, q), ", ".join(sorted(map(short, tys)))))
    r.floor("lock acquisitions", sum(map(len, acq.values())), 10)
    r.floor("insertions into shared tables", counts["insert"], 3)
    # (4)
    reach_acq = {}
    def acquired_by(q, seen):
        if q in reach_acq: return reach_acq[q]
        out = set()
        for g in p.reach([q]):
            for b, n, t in acq.get(g, ()):
                if "p" in t["args"][0]: out.add(table_type(p.fns[g].ty(t["args"][0]["p"][0])))
        reach_acq[q] = out
        return out
    nlive = 0
    for q, l in sorted(acq.items()):
        f = p.fns[q]; live = guard_live(f)
        for b, t in f.calls():
            held = {table_type(f.ty(g)) for g in live.get(b, ()) if not any("p" in o and o["p"] == [g] for o in t["args"])}
            if not held: continue
            nlive += 1
            n = t.get("res") or t.get("f") or "?"
            if ACQ.search(n) or ACQ.search(t.get("f") or ""):
                ty = table_type(f.ty(t["args"][0]["p"][0])) if "p" in t["args"][0] else "?"
                r.check(ty not in held, "deadlock:%s" % q, "%s acquires the lock of %s while it holds a guard of it" % (q, short(ty)), "%s:%d" % (f.file, f.blocks[b][3]))
            for g in w.targets(n):
                x = acquired_by(g, set()) & held
                r.check(not x, "deadlock:%s->%s" % (q, g), "%s calls %s, which acquires the lock of %s, while it holds a guard of it" % (q, g, ", ".join(map(short, x))), "%s:%d" % (f.file, f.blocks[b][3]))
    r.count("calls under a guard", nlive)
    # (5)
    nthr = 0
    for q, f in sorted(p.fns.items()):
        for b, t in f.calls():
            n = t.get("res") or t.get("f") or ""
            if not re.search(r"(thread|Scope|Builder|rayon).*::(spawn|spawn_scoped|spawn_unchecked|join|for_each|par_\w+)$", n): continue
            for o in t["args"]:
                e = w.sym(q).op(o)
                for x in subexprs(e):
                    if x[0] in ("closure", "fn") and x[1] in p.fns:
                        sub = p.reach([x[1]])
                        if n.endswith("::join"): continue
                        top = not any(isinstance(y, tuple) and y[0] == "call" and re.search("thread::scope", y[1]) for y in subexprs(e))
                        nthr += 1
                        bad = [(g, m) for g in sorted(sub) for bb, m, tt in acq.get(g, ()) if EXCL.search(m)]
                        r.check(not bad, "thread:%s" % (bad[0][0] if bad else q), "code that runs on a spawned thread acquires an exclusive lock in %s: the order of the entries depends on the thread schedule" % (bad[0][0] if bad else ""), "%s:%d %s" % (f.file, f.blocks[b][3], q))
    r.floor("closures run on threads", nthr, 1)
    # (6)
    nsh = 0
    locks = {}
    for a, d in p.adts.items():
        for v in d["variants"]:
            for x in v["fields"]:
                if re.search(r"Arc<.*(Mutex|RwLock)<", x[1]): locks[a + "." + x[0]] = x[1]
    flags = {}
    for q, l in acq.items():
        for b, n, t in l:
            fl = [x[2] for x in subexprs(w.sym(q).op(t["args"][0])) if x[0] == "fld" and x[2] in locks]
            if not fl: continue
            sites = [(q, b)]
            gf = flagfacts(w, q, b)
            if not gf: sites = [(g, bb) for g in p.callers().get(q, ()) if g in p.fns for bb, tt in p.fns[g].calls() if q in w.targets(tt.get("res") or tt.get("f") or "?")]
            common = None
            for s in sites:
                x = flagfacts(w, *s); common = x if common is None else common & x
            for k in common or (): flags.setdefault(k, set()).add(fl[0])
    for q, f in sorted(p.fns.items()):
        st = {}; fl = {}
        for b in f.reachable():
            if f.cleanup(b): continue
            for s in f.stmts(b):
                if s[0] == "=" and len(s[1]) > 1:
                    k = [fkey(x) for x in s[1][1:] if isinstance(x, list) and is_field(x)]
                    if k and k[-1] in flags and w.sym(q).rv(s[2])[0] == "c" and str(w.sym(q).rv(s[2])[2]) in ("1", "true"): fl[k[-1]] = b
                    if k and k[-1] in locks: st[k[-1]] = w.sym(q).rv(s[2])
            t = f.term(b)
            if t["k"] == "call" and len(t["dest"]) > 1:
                k = [fkey(x) for x in t["dest"][1:] if isinstance(x, list) and is_field(x)]
                if k and k[-1] in locks: st[k[-1]] = w.sym(q).call(b, t)
        for k, b in fl.items():
            for lk in flags[k]:
                nsh += 1
                v = st.get(lk)
                ok = v is not None and any(x[0] == "fld" and x[2] in locks and x[2] != lk for x in subexprs(v))
                r.check(ok, "share:%s:%s" % (q, k), "%s sets %s without giving the worksheet the workbook's own %s" % (q, k, lk), "%s:%d %s" % (f.file, f.blocks[b][3], q))
    r.floor("worksheets switched to shared tables", nsh, 4)
    # (7)
    for d in getattr(p, "statics", ()):
        pass

def short(t): return re.sub(r"[\w:]+::", "", t)

def is_guard_path(e, f, ty):
    """the expression is a guard, or a field of what it protects"""
    while True:
        if e[0] == "loc": return bool(GUARDTY.search(f.ty(e[1]))) and table_type(f.ty(e[1])) == ty
        if e[0] in ("fld", "as"): e = e[1]
        elif e[0] == "call" and e[1].rsplit("::", 1)[-1] in ("unwrap", "expect", "unwrap_or_else", "into_inner") and e[2]: e = e[2][0]
        else: return e[0] == "call" and bool(ACQ.search(e[1]))

def flagfacts(w, q, b):
    out = set()
    for fa in w.at(q, b):
        t = truth(fa)
        if t and t[1] and t[0][0] == "fld" and t[0][1][0] in ("arg",): out.add(t[0][2])
    return out

def guard_live(f):
    """block -> guards (locals) alive at its terminator"""
    gl = [l for l in range(len(f.locals)) if GUARDTY.search(f.ty(l)) and not f.ty(l).startswith(("&", "std::result", "std::option"))]
    inn = {0: frozenset()}; out = {}; work = [0]
    while work:
        b = work.pop(); s = set(inn[b])
        for st in f.stmts(b):
            if st[0] == "=":
                if len(st[1]) == 1 and st[1][0] in gl: s.add(st[1][0])
                for o in rv_operands(st[2]):
                    if "p" in o and o.get("m") and o["p"][0] in gl and len(o["p"]) == 1: s.discard(o["p"][0])
                if len(st[1]) == 1 and st[1][0] in gl: s.add(st[1][0])
            elif st[0] == "dead" and st[1] in s: s.discard(st[1])
        t = f.term(b); out[b] = frozenset(s)
        if t["k"] == "call":
            for o in t["args"]:
                if "p" in o and o.get("m") and len(o["p"]) == 1: s.discard(o["p"][0])
            if len(t["dest"]) == 1 and t["dest"][0] in gl: s.add(t["dest"][0])
        elif t["k"] == "drop" and len(t.get("p", t.get("place", [None]))) == 1: s.discard(t.get("p", t.get("place"))[0])
        for x in f.succ(b):
            n = frozenset(s) | inn.get(x, frozenset())
            if x not in inn or n != inn[x]: inn[x] = n; work.append(x)
    return out
