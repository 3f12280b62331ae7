"""Dataflow and effect analysis over MIR. (1) Every iteration over a hash
container in the crate is found (iterator methods, for loops, extend/collect from
a map); the unordered values are followed through adaptors and collections. They
may end in another map, in a vector that is sorted by the whole element, its key
or a unique index before any other use, in a terminal operation that does not
depend on order (max, min, any, all, count, contains ...), or in a loop whose
body has no order-sensitive effect: no append to a list or text or writer, no
store of a value that differs between iterations outside a map entry of its own,
no value carried from one iteration to the next, in the body and transitively in
the functions it calls. (2) Code handed to a thread uses no lock, channel or
atomic, so the schedule cannot be observed. (3) Clock, random, process, thread
identity, environment and address sources are called nowhere, except that the
clock may reach the documented creation time and the unused default of a custom
property. (4) The time stamps of the zip entries are constants."""
RULE = "no hash order, thread schedule, clock, random number, address or environment value reaches the output"
ASSUMPTIONS = ["The zip crate and the deflate implementation are deterministic.", "Index tables (shared strings, cell formats) hold each index once, so that sorting by the index is a total order (C10)."]
import re
from sym import *
from mir import *
from props.c12 import loops
from props.c16 import dominates

HASH = re.compile(r"\bHash(Map|Set)<")
ITER = re.compile(r"::(iter|iter_mut|keys|values|values_mut|into_iter|into_keys|into_values|drain|retain|extract_if|difference|intersection|union|symmetric_difference)$")
POINT = re.compile(r"::(insert|get|get_mut|get_key_value|contains|contains_key|entry|new|len|is_empty|remove|remove_entry|take|replace|clear|default|with_capacity|clone|clone_from|reserve|shrink_to_fit|eq|ne|deref|deref_mut|as_ref|as_mut|borrow|borrow_mut|drop|swap|unwrap|expect|lock|read|write|get_or_init|get_or_insert|get_or_insert_with|get_mut_or_init|is_subset|is_superset|is_disjoint|try_insert|and_modify|or_insert|or_insert_with|or_default|index|from_output|branch|hasher|capacity|ok|is_some|is_none|is_ok|into_inner|replace|try_read|try_write|set)$")
ADAPT = re.compile(r"::(map|filter|filter_map|copied|cloned|enumerate|flat_map|flatten|chain|zip|inspect|rev|peekable|into_iter|iter|iter_mut|by_ref|take_while|skip_while|map_while|as_slice|as_mut_slice|deref|deref_mut|clone|to_vec|to_owned|unwrap|expect|into_boxed_slice|as_ref|collect|from_iter)$")
TERM = re.compile(r"::(max|min|any|all|count|len|is_empty|contains|sum|product|size_hint|drop|dedup|eq|capacity|reserve|is_sorted)$")
SORT = re.compile(r"::sort(_unstable|_by|_by_key|_unstable_by|_unstable_by_key|_by_cached_key|)$")
UNIQUE_VALUES = {"shared_strings_table::SharedStringsTable.strings", "workbook::Workbook.xf_indices", "workbook::Workbook.dxf_indices"}
UNIQUE_KEYS = {"serializer::TableData": ("0", "1")}   # first row and column: two tables cannot start in the same cell
CLOCK = re.compile(r"(SystemTime|Instant|Utc|Local|OffsetDateTime)(::<[^>]*>)?::(now|now_utc|now_local|elapsed)$|zip::.*DateTime.*default_for_write$")
ENV = re.compile(r"^std::env::|std::process::id$|std::thread::current$|ThreadId|RandomState|BuildHasher.*hash_one|^(rand|getrandom|uuid|fastrand)::|std::ptr::.*(addr|expose)|::as_ptr$.*usize|std::any::type_name|std::net::|std::os::|available_parallelism|hostname|type_id$|std::panic::Location")
LOCK = re.compile(r"(Mutex|RwLock)::<T>::(lock|try_lock|write|try_write|read)|sync::atomic::|mpsc::|Condvar|OnceLock::<T>::set|Barrier")
WRITERS = re.compile(r"std::io::Write>?::|std::fmt::Write>?::|ZipWriter|std::fs::|write_fmt$|write_all$")
APPEND = re.compile(r"(Vec|VecDeque|LinkedList|BinaryHeap)::<T, A>::(push|push_back|push_front|extend_from_slice|append|insert|remove|swap_remove|pop|truncate|resize)$|String::(push|push_str|insert|insert_str|extend)$|Vec.*Extend.*::extend$|String.*Extend.*::extend$|AddAssign<&str>>::add_assign$")

def callname(t): return t.get("res") or t.get("f") or ""

def refs_to(f, l):
    """locals that are references to (or plain moves of) local l"""
    out = {l}; ch = True
    while ch:
        ch = False
        for b in f.reachable():
            for st in f.stmts(b):
                if st[0] != "=" or len(st[1]) != 1 or st[1][0] in out: continue
                rv = st[2]
                if rv[0] == "ref" and rv[2][0] in out and all(x == "*" for x in rv[2][1:]): out.add(st[1][0]); ch = True
                elif rv[0] == "use" and "p" in rv[1] and rv[1]["p"][0] in out and len(rv[1]["p"]) == 1: out.add(st[1][0]); ch = True
            t = f.term(b)
            if t["k"] == "call" and len(t["dest"]) == 1 and t["dest"][0] not in out and re.search(r"::(deref|deref_mut|as_mut_slice|as_slice|as_mut|as_ref)$", callname(t)) and "p" in t["args"][0] and t["args"][0]["p"][0] in out and len(t["args"][0]["p"]) == 1:
                out.add(t["dest"][0]); ch = True
    return out

class Effects:
    """order-sensitive effects of functions, transitively"""
    def __init__(self, p, w): self.p = p; self.w = w; self.memo = {}
    def fn(self, q):
        """set of reasons why calling q once per element of an unordered sequence would show the order"""
        if q in self.memo: return self.memo[q]
        self.memo[q] = set()
        f = self.p.fns[q]
        out = self.body(f, set(f.reachable()), set(range(1, f.nargs + 1)), None)
        self.memo[q] = out
        return out
    def body(self, f, blocks, outer, elem, onlocal=None):
        """outer: locals that exist before (arguments, or everything defined outside the loop); elem: locals derived from the element"""
        out = set(); sy = self.w.sym(f.path)
        own = self.owned(f, outer)
        def external(pl): return not own(pl[0])
        for b in sorted(blocks):
            if f.cleanup(b): continue
            for st in f.stmts(b):
                if st[0] != "=": continue
                pl = st[1]
                if len(pl) == 1: continue
                if "*" not in pl and not (pl[0] in outer and elem is not None): continue
                if not external(pl) or self.keyed(f, pl[0]): continue
                if elem is not None and pl[0] in elem: continue
                e = sy.rv(st[2])
                if e[0] == "c" or e[0] == "agg" and not e[3] or st[2][0] == "discr": continue
                fld = [fkey(x) for x in pl[1:] if isinstance(x, list) and is_field(x)]
                if self.guarded(f, b, e, fld): continue
                out.add("stores %s" % (fld[-1] if fld else f.lname(pl[0]) or "a value"))
            t = f.term(b)
            if t["k"] != "call": continue
            n = callname(t)
            if APPEND.search(n) and t["args"] and "p" in t["args"][0]:
                pl = t["args"][0]["p"]
                tgt = self.target(f, pl[0])
                if onlocal and len(tgt) == 1 and tgt[0] > f.nargs and not f.ty(tgt[0]).startswith("&") and "Vec<" in f.ty(tgt[0]):
                    out |= onlocal(tgt[0], b); continue
                if not own(tgt[0]) and not self.keyed(f, tgt[0]) and not (elem is not None and tgt[0] in elem): out.add("appends to %s (%s)" % (self.describe(f, tgt), n.rsplit("::", 1)[-1]))
                continue
            if WRITERS.search(n): out.add("writes output (%s)" % n.rsplit("::", 1)[-1]); continue
            for g in self.p.callees(t):
                if g not in self.p.fns: continue
                gf = self.p.fns[g]
                muts = [i for i, x in enumerate(t["args"]) if "p" in x and i < gf.nargs and re.search(r"&mut |Mutex|RwLock|RefCell|Cell<", gf.ty(i + 1))]
                muts = [i for i in muts if external(self.target(f, t["args"][i]["p"][0])) and not (elem is not None and self.target(f, t["args"][i]["p"][0])[0] in elem)]
                if muts:
                    for x in self.fn(g): out.add("%s in %s" % (x, g) if " in " not in x else x)
        return out
    def guarded(self, f, b, e, fld):
        """the store keeps a maximum or minimum"""
        for fa in self.w.at(f.path, b):
            for op, x, y in comparisons(fa):
                if op in ("Lt", "Gt", "Le", "Ge") and (x == e or y == e):
                    o = y if x == e else x
                    if o[0] == "fld" and fld and o[2] == fld[-1]: return True
        return e[0] == "call" and re.search(r"::(max|min)$", e[1]) is not None
    def describe(self, f, tgt):
        fld = [fkey(x) for x in tgt[1:] if isinstance(x, list) and is_field(x)]
        return fld[-1] if fld else (f.lname(tgt[0]) or "a list")
    def target(self, f, l):
        """the place a reference local points to"""
        for _ in range(12):
            d = [st[2] for b in f.reachable() for st in f.stmts(b) if st[0] == "=" and st[1] == [l]]
            if len(d) == 1 and d[0][0] == "ref":
                pl = d[0][2]
                if pl[0] == l or len(pl) > 1 and not all(x == "*" for x in pl[1:]): return pl
                if len(pl) == 1: return pl
                l = pl[0]; continue
            if len(d) == 1 and d[0][0] == "use" and "p" in d[0][1] and len(d[0][1]["p"]) == 1: l = d[0][1]["p"][0]; continue
            return [l]
        return [l]
    def keyed(self, f, l, n=0):
        """l refers into a map entry of its own (get_mut, entry ...)"""
        if n > 8: return False
        for b, t in f.calls():
            if t["dest"] == [l]:
                m = callname(t)
                if re.search(r"(HashMap|BTreeMap|HashSet|BTreeSet).*::(get_mut|get|entry)$|Entry.*::(or_insert|or_insert_with|or_default|and_modify)$", m): return True
                if t["args"] and "p" in t["args"][0] and re.search(r"::(unwrap|expect|as_mut|deref_mut)$", m): return self.keyed(f, t["args"][0]["p"][0], n + 1)
        for b in f.reachable():
            for st in f.stmts(b):
                if st[0] == "=" and st[1] == [l]:
                    pl = st[2][2] if st[2][0] == "ref" else st[2][1].get("p") if st[2][0] == "use" else None
                    if pl and pl[0] != l and self.keyed(f, pl[0], n + 1): return True
        return False
    def owned(self, f, outer):
        """locals created inside: no pointer to anything outside"""
        def own(l):
            if l in outer: return False
            t = f.ty(l)
            if t.startswith("&") or "&mut" in t:
                tgt = self.target(f, l)
                if tgt[0] != l: return own(tgt[0]) and "*" not in tgt[1:]
                return False
            return True
        return own

def run(c, r):
    p = c.prog(); w = World(p); E = Effects(p, w); nsrc = nloop = 0
    done = set()
    for q in sorted(p.fns):
        f = p.fns[q]
        if re.search(r" as std::(clone|fmt|cmp|hash|default)::", q): continue
        for b, t in f.calls():
            if f.cleanup(b): continue
            n = callname(t); m = n.rsplit("::", 1)[-1]
            hs = [x["p"][0] for x in t["args"] if "p" in x and HASH.search(f.ty(x["p"][0])) and not re.match(r"&?(mut )?\(?(closure|fn)", f.ty(x["p"][0]))]
            pure = [l for l in hs if re.match(r"(&(mut )?)*std::collections::Hash(Map|Set)<", f.ty(l)) or "hash_map::" in f.ty(l)]
            wh = "%s:%d %s" % (f.file, f.blocks[b][3], q)
            if n in p.fns or not pure: continue
            if POINT.search(n) and not ITER.search(n): continue
            if not ITER.search(n) and not re.search(r"::(extend|from_iter|collect|from)$", n):
                if re.search(r"::(next|fmt|hash)$", n) and "hash_map::" not in n and "hash_set::" not in n: r.bad("use:%s:%s" % (q, m), "a hash container is passed to %s" % n, wh)
                elif re.search(r"::next$", n): continue
                else: r.note("hash container passed to %s in %s" % (n, q)) if hasattr(r, "note") else None
                continue
            nsrc += 1
            fld = None
            es = [w.sym(q).op(x) for x in t["args"]]
            for x in subexprs(es[0]) if es else ():
                if x[0] == "fld" and "::" in x[2]: fld = x[2]; break
            if m == "retain": continue
            if re.search(r"::(extend|from_iter|from)$", n):
                d = t["args"][0]["p"][0] if m == "extend" else t["dest"][0]
                bad = follow(p, w, E, f, d, fld, b, set())
            else: bad = follow(p, w, E, f, t["dest"][0], fld, b, set())
            r.check(not bad, "iter:%s:%s" % (q, fld or m), "the iteration order of a hash container (%s) can be observed: %s" % (fld or f.ty(pure[0])[:60], "; ".join(sorted(bad)[:3])), wh)
            r.sample("%s: %s over %s" % (wh, m, fld or "a local map"))
    r.floor("iterations over hash containers", nsrc, 5)
    # threads
    nth = 0
    for q in sorted(p.fns):
        f = p.fns[q]
        for b, t in f.calls():
            n = callname(t)
            if not re.search(r"(thread::|Scope.*::)spawn", n) : continue
            nth += 1
            for x in t["args"]:
                e = w.sym(q).op(x)
                tgts = [e[1]] if e[0] in ("closure", "fn") else []
                if not tgts:
                    mm = "p" in x and re.match(r"\{closure", f.ty(x["p"][0]))
                    if mm: tgts = [g for g in p.fns if g.startswith(q + "::{closure")]
                for g in tgts:
                    for h in sorted(p.reach([g])):
                        hf = p.fns[h]
                        for b2, t2 in hf.calls():
                            k = callname(t2)
                            if LOCK.search(k): r.bad("thread:%s:%s" % (h, k.rsplit("::", 1)[-1]), "code that runs on several threads uses shared mutable state (%s), so the result depends on the schedule" % k, "%s:%d %s" % (hf.file, hf.blocks[b2][3], h))
                            else: r.ok()
    r.floor("thread spawn sites", nth, 1)
    # clock, environment, addresses
    ncall = 0; clock = set()
    for q in sorted(p.fns):
        f = p.fns[q]
        for b, t in f.calls():
            n = callname(t); ncall += 1
            if CLOCK.search(n): clock.add(q)
            elif ENV.search(n) and not re.search(r"std::env::temp_dir", n): r.bad("source:%s:%s" % (q, n), "%s is called" % n, "%s:%d %s" % (f.file, f.blocks[b][3], q))
        for b in f.reachable():
            for st in f.stmts(b):
                if st[0] == "=" and st[2][0] == "cast" and re.search(r"Expose|PtrToInt|PointerExpose", str(st[2][1])): r.bad("address:" + q, "an address is converted to a number", "%s:%d %s" % (f.file, st[3] if len(st) > 3 else 0, q))
    r.count("calls examined for clock, random, address and environment sources", ncall)
    allowed = {"properties::DocProperties.creation_time", "properties::CustomProperty.datetime"}
    frontier = set(clock); seen = set(); nclk = 0
    while frontier:
        g = frontier.pop()
        if g in seen: continue
        seen.add(g); gf = p.fns[g]
        # the value leaves through the return value, or into fields of an object
        leaves = False; flds = set(); other = set()
        carriers = {callname(t) for b, t in gf.calls() if CLOCK.search(callname(t)) or any(x in seen or x in clock for x in p.callees(t))}
        for b in gf.reachable():
            if gf.cleanup(b): continue
            for st in gf.stmts(b):
                if st[0] != "=": continue
                e = w.sym(g).rv(st[2])
                if not any(x[0] == "call" and x[1] in carriers for x in subexprs(e)): continue
                if e[0] == "agg" and e[1] in p.adts and p.adts[e[1]]["kind"] == "struct" and any(x[0] == "call" and x[1] in carriers for x in e[3]):
                    for nm, x in zip(e[4], e[3]):
                        if any(y[0] == "call" and y[1] in carriers for y in subexprs(x)): flds.add("%s.%s" % (e[1], nm))
                if len(st[1]) > 1:
                    fl = [fkey(x) for x in st[1][1:] if isinstance(x, list) and is_field(x)]
                    if fl: flds.add(fl[-1])
        if not flds:
            for q in sorted(p.callers().get(g, ())): frontier.add(q)
            if gf.pub and gf.exported and not gf.impl: pass
        for x in sorted(flds):
            nclk += 1
            r.check(x in allowed, "clock:%s:%s" % (g, x), "the current time reaches %s" % x, "%s:%d %s" % (gf.file, gf.line, g))
    r.floor("fields that receive the current time", nclk, 1)
    # a custom date property never keeps the default time
    for q in sorted(p.fns):
        f = p.fns[q]
        for b in f.reachable():
            for st in f.stmts(b):
                if st[0] != "=" or st[2][0] != "agg" or not isinstance(st[2][1], dict) or st[2][1].get("adt") != "properties::CustomProperty": continue
                e = w.sym(q).rv(st[2]); d = dict(zip(e[4], e[3]))
                ty = d.get("property_type")
                if ty and ty[0] == "agg" and ty[2] == "DateTime": r.check(not any(x[0] == "call" and ("default" in x[1].lower() or x[1] in seen) for x in subexprs(d["datetime"])), "custom:" + q, "a custom date property is built with the current time", q)
    readers = [(q, fl) for q in sorted(p.fns) for fl in p.direct_fields().get(q, ()) if fl == "properties::CustomProperty.datetime"] if isinstance(p.direct_fields(), dict) else []
    # zip entries
    nz = 0
    for q in sorted(p.fns):
        f = p.fns[q]
        for b, t in f.calls():
            n = callname(t)
            if f.cleanup(b) or not re.search(r"FileOptions.*(::default|Default>::default)$", n): continue
            nz += 1
            # some last_modified_time call in the same function consumes this value
            ok = False
            for b2, t2 in f.calls():
                if not callname(t2).endswith("::last_modified_time"): continue
                es = [w.sym(q).op(x) for x in t2["args"]]
                if any(x[0] == "call" and x[3] == b for x in subexprs(es[0])) and not any(x[0] == "call" and not re.search(r"DateTime.*(default|from_date_and_time)|unwrap|expect", x[1]) for x in subexprs(es[1])): ok = True
            r.check(ok, "zip:%s:%d" % (q, nz), "the time stamp of the zip entries is not set to a constant", "%s:%d %s" % (f.file, f.blocks[b][3], q))
    r.floor("zip entry option values", nz, 1)

def follow(p, w, E, f, l, fld, blk, seen):
    """reasons why the order of the unordered value in local l shows"""
    out = set()
    if l in seen: return out
    seen.add(l)
    ty = f.ty(l)
    if re.match(r"(std::result::Result<|std::option::Option<)?(std::collections::)(Hash(Map|Set)|BTree(Map|Set)|hash_map::HashMap)<", ty) and not re.match(r"(std::option::Option<)?std::collections::hash_(map|set)::", ty): return out
    sy = w.sym(f.path); al = refs_to(f, l)
    sorts = []
    for b, t in f.calls():
        if f.cleanup(b) or not t["args"] or "p" not in t["args"][0]: continue
        if t["args"][0]["p"][0] in al and len(t["args"][0]["p"]) == 1 and SORT.search(callname(t)):
            if total(p, w, f, t, fld): sorts.append(b)
            else: out.add("it is sorted by something that is not unique (%s)" % callname(t).rsplit("::", 1)[-1])
    if 0 in al:
        for b in f.reachable():
            if any(st[0] == "=" and st[1] == [0] for st in f.stmts(b)) and not any(dominates(f, x, b) for x in sorts): out.add("it is returned unsorted")
    for b, t in f.calls():
        if f.cleanup(b): continue
        for i, x in enumerate(t["args"]):
            if "p" not in x or x["p"][0] not in al: continue
            n = callname(t); m = n.rsplit("::", 1)[-1]
            if b == blk and (i == 0 or not ITER.search(n)) or SORT.search(n) or re.search(r"::(deref_mut|deref|as_mut_slice)$", n): continue
            if any(dominates(f, s, b) and s != b for s in sorts): continue
            if TERM.search(n) or m in ("dedup", "push") and sorts: continue
            if n.endswith("::next"):
                out |= loop_effects(p, w, E, f, b, t, al, fld); continue
            if m in ("for_each", "try_for_each", "fold", "reduce", "position", "find", "find_map", "last", "nth", "max_by_key", "min_by_key", "max_by", "min_by"):
                for c in closures(w, f, t):
                    g = p.fns.get(c)
                    if g: out |= E.body(g, set(g.reachable()), {1}, {2})
                if m in ("fold", "reduce", "position", "find", "find_map", "last", "nth", "max_by_key", "min_by_key", "max_by", "min_by"): out.add("%s depends on the order" % m)
                continue
            if ADAPT.search(n) or m in ("into_iter",):
                for c in closures(w, f, t):
                    g = p.fns.get(c)
                    if g: out |= {x for x in E.body(g, set(g.reachable()), {1}, {2})}
                out |= follow(p, w, E, f, t["dest"][0], fld, b, seen); continue
            if m in ("extend", "append", "extend_from_slice") and i > 0 and "p" in t["args"][0]:
                tgt = E.target(f, t["args"][0]["p"][0])
                if HASH.search(f.ty(tgt[0])) or "BTree" in f.ty(tgt[0]): continue
                if len(tgt) == 1: out |= follow(p, w, E, f, tgt[0], fld, b, seen)
                else: out.add("it is appended to %s" % E.describe(f, tgt))
                continue
            if n in p.fns: out.add("it is passed on to %s" % n); continue
            if m in ("drop", "size_hint", "push", "with_capacity", "last", "last_mut", "first") and sorts: continue
            out.add("it is used by %s before it is sorted" % m)
    return out

def closures(w, f, t):
    out = []
    for x in t["args"]:
        e = w.sym(f.path).op(x)
        if e[0] in ("closure", "fn"): out.append(e[1])
    return out

def total(p, w, f, t, fld):
    """the sort is by a key that no two elements share"""
    n = callname(t); m = n.rsplit("::", 1)[-1]
    if m in ("sort", "sort_unstable"): return True
    keys = set()
    for c in closures(w, f, t):
        g = p.fns.get(c)
        if not g: return False
        gs = w.sym(c)
        for b in g.reachable():
            for st in g.stmts(b):
                if st[0] == "=":
                    for pl in ([st[2][2]] if st[2][0] == "ref" else [x["p"] for x in rv_operands(st[2]) if "p" in x]):
                        if pl[0] > 1 or True:
                            for y in pl[1:]:
                                if isinstance(y, list) and is_field(y) and (y[0] == "()" or y[0] in UNIQUE_KEYS): keys.add(y[1] if y[0] == "()" else fkey(y)); break
            tt = g.term(b)
            if tt["k"] == "call":
                for x in tt["args"]:
                    if "p" in x:
                        for y in x["p"][1:]:
                            if isinstance(y, list) and is_field(y) and y[0] == "()": keys.add(y[1]); break
                if callname(tt) in p.fns: return False
                if re.search(r"::(len|chars|to_lowercase|to_uppercase)$", callname(tt)): return False
    if "0" in keys: return True
    if any({"%s.%s" % (o, k) for k in ks} <= keys for o, ks in UNIQUE_KEYS.items()): return True
    if "1" in keys and fld in UNIQUE_VALUES: return True
    return False

def loop_effects(p, w, E, f, b, t, al, fld=None):
    """effects of the loop around the next() call in block b"""
    ls = loops(f); bodies = [(len(s), h, s) for h, s in ls.items() if b in s]
    if not bodies: return {"its first element is taken"}
    _, h, body = min(bodies)
    # the element and what derives from it by reference
    elem = {t["dest"][0]}; ch = True
    while ch:
        ch = False
        for x in body:
            for st in f.stmts(x):
                if st[0] == "=" and len(st[1]) == 1 and st[1][0] not in elem:
                    src = st[2][2] if st[2][0] == "ref" else st[2][1].get("p") if st[2][0] in ("use", "cast") and isinstance(st[2][1], dict) else None
                    if src and src[0] in elem: elem.add(st[1][0]); ch = True
            tt = f.term(x)
            if tt["k"] == "call" and len(tt["dest"]) == 1 and tt["dest"][0] not in elem and tt["args"] and "p" in tt["args"][0] and tt["args"][0]["p"][0] in elem and f.ty(tt["dest"][0]).startswith(("&mut", "std::option::Option<&mut")):
                elem.add(tt["dest"][0]); ch = True
    outer = set(range(1, f.nargs + 1))
    inside = set(); outside = set()
    for x in f.reachable():
        for st in f.stmts(x):
            if st[0] == "=" and len(st[1]) == 1: (inside if x in body else outside).add(st[1][0])
        tt = f.term(x)
        if tt["k"] == "call" and len(tt["dest"]) == 1: (inside if x in body else outside).add(tt["dest"][0])
    out = E.body(f, body, outer | (outside - inside), elem, lambda l, blk: follow(p, w, E, f, l, fld, blk, set()))
    # locals carried round the loop
    its = refs_to(f, t["args"][0]["p"][0]) | al
    for l in sorted((outside & inside) - its - {0}):
        if l in elem: continue
        for x in sorted(body):
            if f.cleanup(x): continue
            for st in f.stmts(x):
                if st[0] == "=" and st[1] == [l]:
                    e = w.sym(f.path).rv(st[2])
                    if e[0] == "c" or e[0] == "agg" and not e[3]: continue
                    if E.guarded(f, x, e, []) or any(op in ("Lt", "Gt", "Le", "Ge") and ("loc", l) in (y, z) for fa in w.at(f.path, x) for op, y, z in comparisons(fa)): continue
                    if f.lname(l) is None and f.ty(l) == "bool": continue
                    out.add("the local %s is carried from one iteration to the next" % (f.lname(l) or l))
    return out
