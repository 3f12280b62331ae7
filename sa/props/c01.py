"""Element stack effects of every XML writing function, computed by a context
and path sensitive abstract interpretation of the MIR of the whole crate
(sa/emit.py, sa/emit2.py). Each path through a writer is followed with the
stack of open elements of each output buffer; a function whose effect is not
balanced is inlined into its callers, up to the function that starts the
document. A violation is an end tag that closes another (or no) element, an
element that is still open when the document ends, a second root, a document
without root, or content inside an unfinished tag."""
RULE = "on every path of every document writer: start and end tags balance, one root, nothing after it"
ASSUMPTIONS = [
    "A callee that cannot be resolved (caller-supplied closures and traits) writes nothing to the XML buffers (they are private).",
    "Correlated conditions are tracked for fields, enum discriminants, option/emptiness tests and locals, not for arithmetic.",
]
KINDS = {"close", "mismatch", "decl", "partial", "root", "open", "noroot", "fragment"}

def prims(c, r):
    """the primitive writers do what their name says, by the same interpretation"""
    em = c.emission()
    import emit
    tagp = lambda q, i: ("fmt", (("a", "&str", ("p", (("A", q, i),)), None),))
    n = 0
    for q, (exits, raws, events, issues) in em.prims.items():
        name = q.rsplit("::", 1)[-1]
        kind = emit.PRIMS.get(name)
        if kind is None: continue
        n += 1
        bad = None
        for stk in exits:
            for w, k in stk.items() or [(None, ((), frozenset(), (), None))]:
                closes, opens, partial = k[0], k[2], k[3]
                if partial is not None: bad = "leaves a tag unfinished"
                elif kind == "open" and (closes or len(opens) != 1): bad = "does not open exactly one element"
                elif kind == "close" and (opens or len(closes) != 1): bad = "does not close exactly one element"
                elif kind in ("empty", "data", "si", "richsi", "decl", "raw") and (opens or closes): bad = "is not balanced"
        if not exits: bad = "never returns"
        for kk, what, site in issues:
            if kk in ("mismatch", "root", "partial", "open", "decl"): bad = what
        r.check(bad is None, "prim:" + name, "the primitive %s %s" % (name, bad), q)
    r.floor("primitive writers", n, 10)

def run(c, r):
    em = c.emission(); p = c.prog()
    r.floor("document and fragment roots", len(em.roots), 25)
    r.floor("functions interpreted", len(em.analysed), 350)
    r.floor("elements opened (with context)", len(em.events), 2500)
    prims(c, r)
    bad = {}
    for kind, what, site in em.issues:
        if kind in KINDS: bad.setdefault((kind, what, site[0]), site[1])
        else: r.notes.append("not analysed: %s in %s" % (what, site[0]))
    for (kind, what, fn), line in sorted(bad.items()):
        f = p.fns.get(fn)
        r.bad("%s:%s:%s" % (kind, fn, what), "%s, in %s" % (what, fn), "%s:%s" % (f.file if f else "?", line or (f.line if f else 0)))
    r.ok(len(em.analysed))
    for x in em.roots[:6]: r.sample("root " + x)
