"""Token tables. A forward dataflow (sa/regions.py) computes for every block of
every function which variants of each enumeration are possible there (refined by
match, if let, ==, matches! and boolean helper functions; joined by union). The
constants of the block (strings, attribute pairs, format templates, integers,
values of other enumerations, texts reached through the functions called) are
compared with reviewed tables written from the format documents
(sa/token_tables.py): (1) a constant of an enumeration's vocabulary in a region
belongs to every variant that is possible there; (2) a function that gives
tokens to the variants of an enumeration gives every variant its token;
(3) the text of every Display impl of an enumeration is the table's, distinct and
non-empty; (4) every constant value of an enumerated attribute that the emission
analysis finds is one the format's simple type allows; (5) theme colours: the
tint, scheme name and luminance constants per (theme, shade) region are the
tables'."""
RULE = "a region of the program where only the variants V of an enumeration are possible uses only tokens that belong to every variant of V, and every variant has its token"
ASSUMPTIONS = ["The reviewed tables in sa/token_tables.py state the file format's token of each value.",
               "That a token found in a region is the one written to the part (and not dropped) is the subject of C11 and of the emission checks C01-C03."]
import ctx as C
import collections, re
from mir import *
from sym import *
import regions

def consts(p, sy, f, b):
    """tokens of one block: strings, (name, value) pairs, enum values, callees"""
    out = set()
    def o(x):
        if "p" in x: return
        if x.get("c") == "str": out.add("s:" + x["v"])
        elif x.get("c") == "int" and x.get("ty") != "usize": out.add("i:" + x["v"])
        elif x.get("c") == "bytes":
            try: out.add("t:" + "".join(y if isinstance(y, str) else "{}" for y in decode_template(x["v"])))
            except Exception: pass
    for st in f.stmts(b):
        if st[0] != "=": continue
        rv = st[2]
        if rv[0] in ("ref", "discr"): continue
        for x in rv_operands(rv): o(x)
        if rv[0] == "agg":
            e = sy.rv(rv)
            if e[0] == "agg" and e[1] == "tuple" and len(e[3]) == 2 and e[3][0][0] == "c" and e[3][0][1] == "str":
                v = e[3][1]
                if v[0] == "c": out.add("p:%s=%s" % (e[3][0][2], v[2]))
            elif e[0] == "agg" and e[1] in p.adts and p.adts[e[1]]["kind"] == "enum":
                out.add("e:%s::%s" % (e[1].split("::")[-1], e[2]))
        if rv[0] == "bin" and rv[1] in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"): out.add("o:" + rv[1])
    t = f.term(b)
    if t["k"] == "call":
        for x in t["args"]: o(x)
        n = t.get("res") or t.get("f") or ""
        if n in p.fns: out.add("f:" + n)
        else: out.add("m:" + n.rsplit("::", 1)[-1])
    return out


def collect(p):
    A = regions.All(p)
    T = collections.defaultdict(list)      # enum -> [(variants, token, function, block)]
    for q, f in sorted(p.fns.items()):
        if "promoted" in q or re.search(r" as (std::clone::Clone|std::cmp::|std::fmt::Debug|std::hash)", q): continue
        A.of(q); sy = A.w.sym(q)
        for b in f.reachable():
            if f.cleanup(b) or not A.of(q).reached(b): continue
            ss = A.sets_at(q, b)
            if not ss: continue
            for tok in consts(p, sy, f, b):
                for a, e, s in ss: T[a].append((s, tok, q))
    return A, T

def reached_texts(p, vocab):
    """function -> texts of the vocabulary in its call closure"""
    own = {}
    for q, f in p.fns.items():
        o = set()
        for b in f.reachable():
            if f.cleanup(b): continue
            for st in f.stmts(b):
                if st[0] == "=" :
                    for x in rv_operands(st[2]):
                        if x.get("c") == "str" and x["v"] in vocab: o.add(x["v"])
            t = f.term(b)
            if t["k"] == "call":
                for x in t["args"]:
                    if x.get("c") == "str" and x["v"] in vocab: o.add(x["v"])
        if o: own[q] = o
    memo = {}
    def get(q):
        if q not in memo:
            memo[q] = set()
            for g in p.reach([q]): memo[q] |= own.get(g, set())
        return memo[q]
    return get

class Table:
    def __init__(self, ent, variants):
        self.name, d = ent[0], dict(ent[1]); self.alts = [set(x) for x in ent[2]] if len(ent) > 2 else []
        star = d.pop("*", None)
        for v in variants:
            if v not in d: d[v] = star if star is not None else []
        self.want = {v: {t for t in d[v] if not t.startswith("?")} for v in d}
        self.may = {v: {t.lstrip("?") for t in d[v]} for v in d}
        self.vocab = set().union(*self.may.values())
        self.pairs = {t for t in self.vocab if "=" in t and t[0] != "=" and t[1] != ":"}
        attrs = {t.split("=")[0] for t in self.pairs}
        self.values = {}                     # plain text -> the vocabulary tokens it may stand for
        for t in self.vocab:
            if t[0] == "=": self.values.setdefault(t[1:], set()).add(t)
            elif t in self.pairs:
                v = t.split("=", 1)[1]
                if v not in attrs and not re.fullmatch(r"-?\d+", v) and len(v) > 1: self.values.setdefault(v, set()).add(t)
        self.names = {a: {t for t in self.pairs if t.split("=")[0] == a and t.split("=", 1)[1] not in self.values} for a in attrs}
    def hits(self, tok):
        """(exact vocabulary tokens, alternatives: one of them is meant)"""
        k, x = tok[0], tok[2:]
        if k == "p":
            return ({x}, set()) if x in self.vocab else (set(), set())
        if k == "s": return set(), self.values.get(x, set())
        if k in "ite": return ({tok}, set()) if tok in self.vocab else (set(), set())
        return set(), set()

def label(s, allv):
    s = sorted(s)
    return "|".join(s) if len(s) <= 3 else "%s|... (%d variants)" % ("|".join(s[:3]), len(s))

def run(c, r):
    import token_tables as K
    p = c.prog(); em = c.emission()
    A, T = collect(p)
    byname = {a.split("::")[-1]: a for a in A.types.enums}
    short = lambda q: re.sub(r"^<?(?:\w+::)+(?=\w+(?:::|<| as))", "", q)
    # --- 1, 2: inline tables
    nreg = nfun = 0
    rv = {t[2:] for ent in K.INLINE for l in ent[1].values() for t in l if t.lstrip("?").startswith("r:")}
    closure = reached_texts(p, rv)
    covered = 0
    for ent in K.INLINE:
        if ent[0] not in byname: r.bad("enum:" + ent[0], "the enumeration %s is gone" % ent[0]); continue
        a = byname[ent[0]]; variants = A.types.enums[a]
        tb = Table(ent, variants)
        for v in tb.want:
            if v not in variants: r.bad("variant:%s::%s" % (ent[0], v), "the table's variant %s::%s is gone" % (ent[0], v), a)
        new = [v for v in variants if v not in dict(ent[1]) and "*" not in ent[1]]
        for v in new:
            if "*" not in ent[1]: r.notes.append("%s::%s has no entry in the table" % (ent[0], v))
        have = collections.defaultdict(lambda: collections.defaultdict(set))   # function -> variant -> tokens
        soft = collections.defaultdict(lambda: collections.defaultdict(set))
        # texts that are the value of an attribute in the same place
        paired = {(q, v, tok[2:].split("=", 1)[1]) for s, tok, q in T[a] if tok[0] == "p" and "=" in tok for v in s}
        for s, tok, q in T[a]:
            if tok[0] == "f":
                rt = {"r:" + x for x in closure(tok[2:])} & tb.vocab
                exact, alt = (rt, set()) if len(rt) == 1 else (set(), set())
            else: exact, alt = tb.hits(tok)
            if tok[0] == "s":
                for v in s: soft[q][v] |= tb.names.get(tok[2:], set()) | ({t for t in tb.pairs if t.split("=", 1)[1] == tok[2:]} if len(s) < len(variants) and (q, v, tok[2:]) not in paired else set())
            if not exact and not alt: continue
            nreg += 1
            miss = [v for v in s if not ((exact and exact <= tb.may[v]) or (alt and alt & tb.may[v]))]
            if miss and len(miss) < len(s) and len(s) > 1 and (tok[0] == "i"): continue
            r.check(not miss, "token:%s:%s:%s" % (ent[0], "|".join(sorted(miss)[:3]), tok[2:]),
                    "in %s, where %s is %s, the token %r is used, which is not the one of %s" % (short(q), ent[0], label(s, variants), tok[2:], label(miss, variants)), C.loc(p, q))
            for v in s:
                if v not in miss: have[q][v] |= (exact | alt) & tb.may[v]
        # a caller that delegates to a helper: the helper's tokens belong to the region too
        need = {v for v in tb.want if tb.want[v]}
        ok_any = collections.defaultdict(set)
        for q in sorted(have):
            full = {v for v in need if tb.want[v] <= (have[q][v] | soft[q][v])}
            part = {v for v in need if have[q][v] & tb.want[v]}
            for v in full: ok_any[v].add(q)
            if len(full) * 2 >= len(need) and len(need) > 1 or part == need:
                nfun += 1
                lack = need - full
                if lack and any(full == alt for alt in tb.alts): lack = set()
                r.check(not lack, "copy:%s:%s" % (ent[0], short(q)),
                        "%s gives tokens to the variants of %s but %s lacks %s" % (short(q), ent[0], label(lack, variants), ", ".join(sorted(set().union(*[tb.want[v] - have[q][v] for v in lack])) if lack else [])), C.loc(p, q))
        for v in sorted(need):
            # the tokens may be spread over several functions
            allh = set().union(*[have[q][v] | soft[q][v] for q in have]) if have else set()
            if not tb.want[v] <= allh:
                r.bad("missing:%s::%s:%s" % (ent[0], v, ",".join(sorted(tb.want[v] - allh))), "no region of the program where %s is %s uses the token %s" % (ent[0], v, ", ".join(sorted(tb.want[v] - allh))), a)
            else: r.ok(); covered += 1
    r.floor("regions with a table token", nreg, 300); r.floor("functions that implement a table", nfun, 25); r.floor("variants whose token was found", covered, 130)
    # --- 3: Display impls
    nd = 0
    for name, want in K.DISPLAY.items():
        a = byname.get(name)
        if not a: r.bad("display:" + name, "the enumeration %s is gone" % name); continue
        got = em.tokens.get(a)
        if not got: r.bad("display:" + name, "the Display impl of %s could not be evaluated: its tokens are undecided" % name, a); continue
        for v, t in sorted(got.items()):
            if v not in want: r.notes.append("%s::%s is not in the reviewed table (token %r)" % (name, v, t)); continue
            nd += 1
            if want[v] is None: r.ok(); continue
            r.check(t == want[v], "display:%s::%s" % (name, v), "%s::%s is written as %r, the format's token is %r" % (name, v, t, want[v]), "%s (Display of %s)" % (a, name))
        seen = {}
        for v, t in got.items():
            if t is None: continue
            if t in seen: r.bad("distinct:%s:%s" % (name, "/".join(sorted((v, seen[t])))), "%s::%s and %s::%s are both written as %r" % (name, v, name, seen[t], t), a)
            seen[t] = v
            if t == "" and (name, v) not in (("ChartDataLabelPosition", "Default"), ("DataValidationRuleInternal", "CustomFormula")):
                r.bad("empty:%s::%s" % (name, v), "%s::%s is written as the empty text" % (name, v), a)
        for v in want:
            if v not in got: r.bad("display:%s::%s" % (name, v), "the variant %s::%s is gone" % (name, v), a)
    r.floor("Display tokens compared", nd, 300)
    shown = {a for a in em.tokens if em.tokens[a] and not a.endswith("XlsxError")}
    for a in sorted(shown):
        if a.split("::")[-1] not in K.DISPLAY: r.notes.append("the Display impl of %s is not in the reviewed tables" % a)
    # --- 4: constant values of enumerated attributes
    n4 = 0
    legal = {tuple(k.split(" ", 1)): set(v.split(" ")) for k, v in K.LEGAL.items()}
    seen4 = set()
    for e in em.events:
        w, chain, prev, tag, attrs, kind, data, site = e
        if not attrs or attrs[0] != "list": continue
        for n, mi, ma, vals in attrs[1]:
            lg = legal.get((tag, n))
            if lg is None: continue
            for v in vals or ():
                if v[0] != "s" or v[1] == "" or (tag, n, v[1]) in seen4: continue
                seen4.add((tag, n, v[1])); n4 += 1
                r.check(v[1] in lg or re.fullmatch(r"-?[\d.]+", v[1]) is not None and tag in ("c:crossesAt",), "value:%s %s=%s" % (tag, n, v[1]), "the attribute %s of <%s> is written as %r, which its type does not allow (%s)" % (n, tag, v[1], " ".join(sorted(lg))), str(site))
    r.floor("constant values of enumerated attributes", n4, 100)
    # --- 5: theme colours
    n5 = theme(p, A, r, K)
    r.floor("theme colour cells", n5, 60)

def theme(p, A, r, K):
    """constants per (theme, shade) region"""
    tints = {t for d in K.TINT.values() for t in d.values()}
    got = collections.defaultdict(lambda: collections.defaultdict(set))
    for q, f in sorted(p.fns.items()):
        if not any(("color::Color::Theme" in str(st)) for b in f.reachable() for st in f.stmts(b)): continue
        W = A.w; fx = W.facts(q); sy = W.sym(q)
        for b in f.reachable():
            if f.cleanup(b): continue
            toks = set()
            for t in consts(p, sy, f, b):
                if t[0] == "s" and (t[2:] in tints or t[2:] in K.SCHEME): toks.add(t[2:])
            for st in f.stmts(b):
                if st[0] == "=" and st[2][0] == "agg":
                    e = sy.rv(st[2])
                    if e[0] == "agg" and e[1] == "tuple" and len(e[3]) == 3 and e[3][0][0] == "c" and all(x[0] == "c" and x[1] == "u32" for x in e[3][1:]) and e[3][0][2] in K.SCHEME:
                        toks.add((e[3][0][2], int(e[3][1][2]), int(e[3][2][2])))
            if not toks: continue
            sets = {0: set(range(10)), 1: set(range(6))}; known = False
            for e, v in fx.at(b):
                if e[0] == "fld" and re.search(r"color::Color::Theme\.[01]$", e[2]):
                    i = int(e[2][-1]); known = True
                    sets[i] &= {v} if not isinstance(v, tuple) else set(range(10)) - set(v[1])
            if not known: continue
            for x in sets[0]:
                for y in sets[1]: got[q][(x, y)] |= toks
    n = 0
    for q, d in sorted(got.items()):
        tt = any(isinstance(t, str) and t in tints for s in d.values() for t in s)
        ss = any(isinstance(t, tuple) or t in K.SCHEME for s in d.values() for t in s)
        for x in range(10):
            for y in range(6):
                s = d.get((x, y), set())
                if tt:
                    n += 1; want = {K.TINT[min(x, 3)][y]} if y else set()
                    have = {t for t in s if isinstance(t, str) and t in tints}
                    r.check(have == want, "tint:%d,%d" % (x, y), "%s gives the theme colour (%d, %d) the tint %s, the format's is %s" % (q, x, y, sorted(have), sorted(want)), C.loc(p, q))
                if ss:
                    n += 1; want = (K.SCHEME[x],) + K.LUM[x][y]
                    have = {t for t in s if isinstance(t, tuple)}
                    if have: r.check(have == {want}, "scheme:%d,%d" % (x, y), "%s gives the theme colour (%d, %d) %s, the format's is %s" % (q, x, y, sorted(have), want), C.loc(p, q))
                    else:
                        names = {t for t in s if isinstance(t, str) and t in K.SCHEME}
                        r.check(names == {K.SCHEME[x]}, "scheme:%d,%d" % (x, y), "%s gives the theme colour (%d, %d) the scheme name %s, the format's is %s" % (q, x, y, sorted(names), K.SCHEME[x]), C.loc(p, q))
    # the RGB text: six upper-case hexadecimal digits, zero padded
    for q, f in sorted(p.fns.items()):
        if "promoted" in q or "Color" not in q: continue
        for b in f.reachable():
            if f.cleanup(b): continue
            for a, e, s in A.sets_at(q, b) if A.of(q).reached(b) else ():
                if a.endswith("color::Color") and s == frozenset(["RGB"]):
                    t = f.term(b)
                    nm = (t.get("res") or t.get("f") or "") if t["k"] == "call" else ""
                    if nm.endswith(("new_display", "new_lower_hex", "new_upper_hex")) and f.ty(0).endswith("String"):
                        r.check(nm.endswith("new_upper_hex"), "rgb:" + q, "%s formats an RGB colour with %s, the parts want upper-case hexadecimal" % (q, nm.rsplit("::", 1)[-1]), C.loc(p, q))
                    for st in f.stmts(b): 
                        for x in rv_operands(st[2]) if st[0] == "=" else (): n += hexspec(x, q, p, f, r)
                    if t["k"] == "call":
                        for x in t["args"]: n += hexspec(x, q, p, f, r)
    return n

def hexspec(x, q, p, f, r):
    if x.get("c") != "bytes" or not f.ty(0).endswith("String"): return 0
    for y in decode_template(x["v"]):
        if isinstance(y, tuple):
            r.check(y[2].get("width") == 6, "rgbwidth:" + q, "%s does not pad an RGB colour to six digits" % q, C.loc(p, q))
            return 1
    return 0
