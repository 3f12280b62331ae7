"""The elements written by the crate, with their ancestors and the set of
siblings that can precede them, are taken from the abstract interpretation of
all XML writers (see C01) and compared with the content models of the
ECMA-376 and Microsoft extension schemas (sa/schema_tables.py). A violation is
an element under a parent that does not allow it, after a sibling that the
schema puts behind it, or twice where it may occur once."""
RULE = "child allowed by parent; no preceding sibling that the schema orders later; no repetition of a single element"
import schema_tables as S

# Edges that the path analysis cannot exclude, one reason each.
INFEASIBLE = {
    ("worksheet", "cfRule"): "rule() runs outside conditionalFormatting only if has_x14_only is set, and then the rule has no 2007 part",
    ("worksheet", "row"): "sheetData is written empty only if there are no rows: the row loops that follow do not run",
}

def names(em):
    return {e[3] for e in em.events}

def run(c, r):
    em = c.emission(); p = c.prog()
    bad = {}; edges = set(); tags = set()
    for w, ch, prev, tag, attrs, kind, data, site in em.events:
        pa = ch[-1]
        tags.add(tag if isinstance(tag, str) else "?")
        if not isinstance(tag, str):
            r.notes.append("element name not constant in %s" % site[0]); continue
        # "#top": a fragment whose buffer is swapped into another one (combined charts).
        if not isinstance(pa, str) or pa == "#top": continue
        edges.add((pa, tag))
        if (pa, tag) in INFEASIBLE: continue
        o = S.ORDER.get(pa)
        if o is None:
            bad.setdefault(("parent", pa, tag), site); continue
        if tag not in o:
            bad.setdefault(("child", pa, tag), site); continue
        for q in prev:
            if q is None or q not in o: continue
            a, b = o[q], o[tag]
            if a[0] > b[0]: bad.setdefault(("order", pa, q, tag), site)
            elif a[0] == b[0] and b[1] in ("one", "alt"): bad.setdefault(("twice", pa, q, tag), site)
            elif q == tag and b[1] == "any": bad.setdefault(("twice", pa, q, tag), site)
    r.floor("parent-child edges", len(edges), 700)
    r.floor("distinct elements", len(tags), 400)
    r.ok(len(edges))
    for k, site in sorted(bad.items()):
        if k[0] == "parent": m = "<%s> has no content in the schema, but <%s> is written inside it" % (k[1], k[2])
        elif k[0] == "child": m = "the schema does not allow <%s> inside <%s>" % (k[2], k[1])
        elif k[0] == "order": m = "inside <%s>, <%s> can be written before <%s>, against the schema's sequence" % (k[1], k[2], k[3])
        else: m = "inside <%s>, <%s> can be written again after <%s>" % (k[1], k[3], k[2])
        f = p.fns.get(site[0])
        r.bad(":".join(k), m, "%s:%s %s" % (f.file if f else "?", site[1], site[0]))
    for e in sorted(edges)[::80]: r.sample("<%s> under <%s>" % (e[1], e[0]))
