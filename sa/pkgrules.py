"""What the events of the package assembly (sa/pkg.py) have to satisfy, for one
configuration of a worksheet."""
import re
from pkg import *

def isext(v): return isinstance(v, tuple) and v and v[0] == "u" and str(v[1]).endswith("extension")
def pieces(v):
    """(pattern, numbers): a part name with its holes"""
    if v and v[0] == "s": return v[1], []
    if not v or v[0] != "t": return None, []
    out = ""; nums = []
    for x in v[1]:
        if isinstance(x, str): out += x
        elif isL(x): out += "{#}"; nums.append(x)
        elif isext(x): out += "{ext}"
        else: return None, []
    return out, nums
def conds(ctx): return frozenset(c for c in ctx if c[0] == "if" and not (isinstance(c[1], tuple) and c[1] and c[1][0] == "new"))
def source_of(ctx):
    return next((c[1] for c in reversed(ctx) if c[0] == "in" and c != SHEET), None)

class Names:
    """identities that do not depend on the container a function happens to use: a set of
    seen hashes is named by the collections whose items go into it"""
    def __init__(self, k):
        self.k = k; self.src = {}
        def see(key, dflt):
            if isinstance(key, tuple) and key and key[0] == "new" and isinstance(key[1], tuple) and key[1][0] == "map": self.src.setdefault(key[1], set()).add(self.root(key, dflt))
        def walkL(v, ctx):
            if isL(v):
                for m, _ in v[1]:
                    d = next((x[1] for x in m if x[0] in ("n", "p")), None) or source_of(ctx)
                    for x in m:
                        if x[0] == "if": see(x[1], d)
            elif isinstance(v, tuple) and v and v[0] == "t":
                for x in v[1]: walkL(x, ctx)
        for e in k.events:
            for c in e[-1]:
                if c[0] == "if": see(c[1], source_of(e[-1]))
            for x in e[2:-1]: walkL(x, e[-1])
        for a, d, _ in k.counters.values(): walkL(a, ()); walkL(d, ())
    def root(self, key, dflt):
        o = key[2]
        return o[2] if isinstance(o, tuple) and len(o) > 2 and o[0] == "o" and o[2] else dflt
    def factor(self, x, dflt):
        if x[0] == "if" and isinstance(x[1], tuple) and x[1] and x[1][0] == "new" and isinstance(x[1][1], tuple) and x[1][1][0] == "map":
            m = x[1][1]; o = x[1][2]
            return ("if", ("new", frozenset(self.src.get(m, ())), m[3], self.root(x[1], dflt), o[1] if isinstance(o, tuple) and len(o) > 1 else o), x[2])
        return x
    def lin(self, v, ctx=()):
        """the number with its containers named and the context's own conditions taken as true"""
        d = {}
        if not isL(v): return None
        have = {self.factor(c, source_of(ctx)) for c in ctx if c[0] == "if"}
        for m, c in v[1]:
            s = next((x[1] for x in m if x[0] in ("n", "p")), None)
            s = s or source_of(ctx)
            fs = frozenset(y for y in (self.factor(x, s) for x in m) if y not in have or any(x[0] in ("n", "p") for x in m))
            d[fs] = d.get(fs, 0) + c
        return L(d)
    def number(self, v, ctx=()):
        """(value for the first worksheet, increase per worksheet)"""
        ks = [x[1] for m, c in v[1] for x in m if x[0] == "ctr"]
        if not ks: return self.lin(v, ctx), None
        if len(ks) > 1: return None
        k = ks[0]; init, delta, _ = self.k.counters.get(k, (None, None, None))
        if not isL(init) or not isL(delta): return None
        m1 = [m for m, c in v[1] if any(x[0] == "ctr" for x in m)]
        if m1 != [frozenset({("ctr", k)})] or D(v)[m1[0]] != 1: return None
        # what is the same before every worksheet
        base = plus(v, L({m1[0]: 1}), -1)
        return self.lin(plus(base, init), ctx), self.lin(delta)
    def times(self, ctx):
        """how often something under the context happens, per worksheet"""
        S = source_of(ctx)
        return self.lin(L({mono(tuple(c for c in ctx if c != SHEET)): 1}), ())

def relgroups(k):
    """[(rels part event or None, [relationship events], number of Relationship objects)]"""
    out = []; cur = []; n = 0
    for e in k.events:
        if e[0] == "rel": cur.append(e)
        elif e[0] == "newrels": n += 1
        elif e[0] == "part":
            pat, _ = pieces(e[2])
            if pat and pat.endswith(".rels"): out.append((e, cur, n)); cur = []; n = 0
    if cur: out.append((None, cur, n))
    return out
def owner(pat):
    m = re.match(r"^(.*?)_rels/([^/]*)\.rels$", pat)
    return (m.group(1) + m.group(2)) if m else None
def resolve(own, target):
    """the part that a relative target names"""
    base = own.rsplit("/", 1)[0].split("/") if "/" in own else []
    if target.startswith("/"): return target[1:]
    for x in target.split("/"):
        if x == "..":
            if not base: return None
            base.pop()
        elif x != ".": base.append(x)
    return "/".join(base)
