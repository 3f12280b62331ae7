"""Auto-trait query on the type-checked program: for every exported data type of
the crate the compiler's trait solver is asked whether the type (with its type
parameters Send and Sync) implements Send and Sync, in each feature set. For a
type that does not, the offending fields are found by the same query on the
field types, transitively. A hand-written `unsafe impl` of either trait, which
would turn the question into a claim, is reported as a violation. The unit of
work that runs on several threads (the closures handed to thread::spawn and
scope) is covered by the compiler itself."""
RULE = "every exported struct and enum is Send and Sync by auto-trait derivation (no unsafe impl)"
ASSUMPTIONS = ["Negative or manual impls in dependencies are what the compiler's trait solver says they are."]
import re
CONFIGS = ("full", "default")
def culprit(p, a, letter, seen):
    """path of the field that lacks the trait"""
    if a["path"] in seen: return None
    seen.add(a["path"])
    for v in a["variants"]:
        for f in v["fields"]:
            if letter not in f[3]:
                for m in re.findall(r"[A-Za-z_][\w:]*", f[1]):
                    sub = p.adts.get(m.removeprefix("crate::"))
                    if sub and sub is not a:
                        c = culprit(p, sub, letter, seen)
                        if c: return "%s.%s -> %s" % (a["path"], f[0], c)
                return "%s.%s: %s" % (a["path"], f[0], f[1])
    return None

def run(c, r):
    n = 0
    for cfg in CONFIGS:
        p = c.prog(cfg)
        for q, a in sorted(p.adts.items()):
            if not (a["pub"] or a["exp"]): continue
            n += 1
            if "?" in a["auto"]: r.bad("unknown:" + q, "the trait solver gave no answer for %s" % q); continue
            for letter, tr in (("S", "Send"), ("Y", "Sync")):
                if letter in a["auto"]: r.ok()
                else: r.bad("%s:%s" % (tr, q), "%s is not %s because of %s" % (q, tr, culprit(p, a, letter, set())), q)
        for tr, ty in [(i.get("trait"), i.get("self") or i.get("ty")) for i in p.impls]:
            if tr and re.search(r"(^|::)(Send|Sync)$", tr):
                r.bad("manual:%s for %s" % (tr, ty), "manual implementation of %s for %s: the property would rest on an unchecked claim" % (tr, ty))
    r.floor("exported data types (all configurations)", n, 200)
    r.floor("manual Send/Sync impls examined among", len(c.prog("full").impls), 300)
