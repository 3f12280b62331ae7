"""The attributes of every element written (names with minimal and maximal
number of occurrences over all paths) are taken from the abstract
interpretation of all XML writers (see C01) and compared with the attribute
lists of the schemas (sa/schema_tables.py)."""
RULE = "attribute name defined for the element; at most one occurrence on any path"
import schema_tables as S

def run(c, r):
    em = c.emission(); p = c.prog()
    bad = {}; pairs = set(); unk = set()
    for w, ch, prev, tag, attrs, kind, data, site in em.events:
        if not isinstance(tag, str): continue
        if attrs[0] != "list":
            unk.add((tag, site[0])); continue
        A = S.ATTRSET.get(tag, frozenset())
        for n, mi, ma, vs in attrs[1]:
            if not isinstance(n, str): unk.add((tag, site[0])); continue
            pairs.add((tag, n))
            if n not in A: bad.setdefault(("name", tag, n), site)
            if ma > 1: bad.setdefault(("twice", tag, n), site)
    r.floor("element-attribute pairs", len(pairs), 640)
    r.count("elements with unresolved attributes", len(unk))
    for t, s in sorted(unk): r.notes.append("attributes of <%s> not resolved in %s" % (t, s))
    r.ok(len(pairs))
    for k, site in sorted(bad.items()):
        m = "<%s> has no attribute %s in the file format" % k[1:] if k[0] == "name" else "<%s> can carry the attribute %s twice" % k[1:]
        f = p.fns.get(site[0])
        r.bad(":".join(k), m, "%s:%s %s" % (f.file if f else "?", site[1], site[0]))
    for e in sorted(pairs)[::90]: r.sample("%s/@%s" % e)
