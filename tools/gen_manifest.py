#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OTHER = "other"
CHECKS = {
 "C01": ("abstract interpretation of MIR: element stack effects of all XML writers",
         "Every path of every XML writer (over-approximated, correlated conditions tracked) is balanced. Trusts the interpreter in /verif/sa and rustc's MIR."),
 "C02": ("abstract interpretation of MIR: parent/previous-sibling sets against schema content models",
         "Every element-parent and element-sibling pair any path can write agrees with the content models in sa/schema_tables.py (union per element name, not per parent type)."),
 "C03": ("abstract interpretation of MIR: attribute multisets of every element against schema attribute lists",
         "Every attribute of every element on every path is known to the format and occurs at most once."),
 "C04": ("whole-program taint analysis over MIR from public text parameters to XML writes; escape-table extraction",
         "No unescaped flow from API text to an XML buffer; escape tables complete. Field based and flow insensitive."),
 "C05": ("MIR dataflow: dominating limit facts at every store of a caller's row or column, with function summaries",
         "Every store, on every path of every public method, is dominated by a limit check of that value (partitioned must-facts, interprocedural summaries)."),
 "C06": ("MIR effect and provenance analysis: iteration over hash containers, clocks, randomness, addresses and thread results",
         "Every call of a hash-container iterator in the crate must flow into an order-free or sorted consumer; all nondeterminism sources in the call graph are enumerated."),
 "C09": ("MIR dataflow of possible enum variants per program region, checked against reviewed token tables; attribute constants from the emission analysis",
         "Path-sensitive per function; 208 variant tokens of 34 tables, 359 Display tokens, 160 attribute constants, 120 theme colour cells."),
 "C10": ("MIR effect sets and symbolic outcome facts: settable fields against what eq implies, hash reads and merge copies",
         "Equality facts are derived from the eq method's return paths; setters' write effects from the call graph; index tables by key type and key expression."),
 "C11": ("whole-program value and control flow liveness over MIR; store effects of every setter parameter",
         "Field based: a field is live if some emitter uses it. Every parameter of 639 public methods is followed to a store."),
 "C12": ("MIR dataflow: derivation of the stored format index from the format parameter on every success path",
         "Intraprocedural derivation with call rules for every method that takes a format; partitioned must-facts."),
 "C13": ("lock-discipline analysis over MIR: guards, check-then-insert atomicity, index provenance",
         "All lock acquisitions and all operations under guards; no schedule is explored, the discipline implies the property."),
 "C14": ("MIR discipline of fallible I/O results: every io/zip Result is propagated, merged or reported on all paths to save",
         "Every fallible I/O call in code reachable from save; call sites enumerated from the call graph."),
 "C15": ("MIR effect analysis: no path from a change of the object to an error return, with per-outcome call summaries",
         "Every store through &mut self and every mutating container call, on all paths of every fallible public method; callee effects are attributed to the outcome of the call."),
 "C16": ("interprocedural access-path analysis over MIR: ranges written with a cache against ranges collected and updated",
         "Every ChartRange path from a chart that a writer passes to a cache writer must be passed to both cache collectors, on the same conditions; the loops over worksheets and charts are checked for exits."),
 "C17": ("MIR dataflow: dominating finiteness facts at every store of a float in a number cell",
         "Every construction of a number cell from a caller's float is dominated by the NaN and infinity tests."),
 "C18": ("call-graph effect analysis: file-system effects reachable from the in-memory save entry points",
         "All std::fs, env and process effects in the call graph of every save method, with mode facts at the sites that are conditional."),
 "C20": ("MIR dataflow: dominating limit tests at every store of a limited text or number",
         "Every store of each limited value is behind a test of that value's character count (or character class) against the documented constant on every path, interprocedurally."),
 "C19": ("auto-trait query: the compiler's trait solver on every exported type and field",
         "Send and Sync of every exported type, asked of the type-checked program in two feature sets; no manual impls."),
 "C21": ("differential emission analysis of the two row writers plus MIR path rules for the flush protocol",
         "Row attributes, their fields and conditions, renderer and arguments of every cell kind are compared between the modes; the flush order, once-only and no-loss obligations are must-pass path rules."),
 "C24": ("MIR dataflow: must-pass success edges of validations before stores and before the package is created; exhaustive-loop rules",
         "Every store of a validated object, every Ok return of every validator and the creation of the package are only reachable through the accepting edges; loops over names, series and cells are shown to skip no element."),
 "C08": ("abstract interpretation of the package assembly over MIR: one symbolic worksheet per combination of object kinds, counters as linear forms, parts, content types and relationships compared as symbolic sets",
         "Quick: all combinations of up to two kinds of objects and the full set; thorough: all 256 sets of kinds in each memory mode. Within a combination the numbers of objects are unbounded (symbolic)."),
 "C22": ("abstract interpretation over MIR: relationship ids in the parts as linear forms over the collections, compared with the position of the relationship in the file that is written",
         "Same interpreter as C08; each r:id reference must resolve to the relationship at that position, of the kind its element needs and made for the same object."),
 "C07": ("interprocedural effect analysis over MIR: upward-exposed reads and additions against must-kill sets, over the places reachable from the workbook",
         "Bottom-up summaries of what each function below the common save function adds to, overwrites, clears on every path and reads first; a place written by a save and read or extended by the next one before it is rewritten is a violation. Places kept on purpose are listed with reasons. Shared references to whole containers are read as a whole."),
 "C23": ("path-wise symbolic counting over MIR: counters as linear forms over collection sizes, loops collapsed per deciding condition, compared with the children written on every path",
         "Sound up to the naming of collections by the field they are kept in; counters in fields are tied to their collections by the same walk over the functions that maintain them."),
 "C25": ("whole-program term analysis over MIR: provenance of kind, position, value and format of every written cell, with must-pass and loop rules",
         "The cells that every function writes are composed bottom-up over the call graph as terms over its arguments; every lossy cast, computation, mutation or substitution on the way is a violation, as is a successful path without a write."),
"C26": ("type check of abstract attribute values from an abstract interpretation of all XML writers, with an integrality analysis of the floating point fields over MIR",
  "each typed attribute's abstract values (constants, printed values with their Rust type, field paths) are decided against the lexical type of the attribute; f64 fields printed as integers must be rounded at every store. Values that the interpretation leaves unknown (about 125 of 1,450) are only listed, not judged; the type tables are written by hand from ECMA-376"),
"C27": ("path-wise symbolic interpretation of the numbering code over MIR (map sizes, list lengths and counters as linear forms), with a forward taint analysis of untranslated indices and provenance of the attributes that hold an index",
  "On every path through the code that numbers objects a new key gets the number of keys or the position of the item appended for it, and what is stored or returned is the index of the key that was looked up; lists made from index maps are sorted by the index; local indices go through the worksheet's own table; axis ids, x14 ids and priorities are counted in step. Indices held by ranges of cells in constant memory mode are taken to be those of the workbook because the mode and the table are set together (checked)."),
"C28": ("abstract interpretation of all XML writers over MIR; per element the sibling graph from opening to closing tag, decided by reachability without the required child; minimal attribute counts; prefix declarations followed over all ancestor chains",
  "A required child that can be avoided, an attribute whose minimum over all paths is zero, or a prefix with an undeclaring ancestor chain is a violation naming the writer. The tables of what is required are written by hand from ECMA-376; elements are told apart by name (and by parent where the tables say so); choices are groups of which one must be present. Where two options decide the presence of a parent and of its child through different fields, the analysis does not relate them"),
}
NA = {
 "C40": "The property is an equation over calendar arithmetic for every date; it needs evaluation or a solver over 64-bit and floating point values, which is a different family. The static rules of C25 only cover that the value stored is the converted one.",
 "C41": "The anchor is the result of a loop over user-set widths and heights with floating point rounding; no static rule short of numeric proof decides that it spans the object's size.",
 "C42": "Base-26 arithmetic in a loop; that the digits are right for all 16384 columns is a numeric fact which only evaluation or a solver decides.",
 "C43": "The expected width is defined by Excel's font metrics at runtime; there is no specification in the source to decide against.",
 "C44": "Correct parsing of external image formats depends on the bytes of the file; a static rule could only restate the code's own offsets.",
}
import importlib.util
def main():
    props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
    m = {"version": 1, "setup_cmd": "python3 sa/extract.py",
         "checks": [], "not_applicable": [],
         "notes": "All checks read the MIR of /repo's current source through the rustc driver in /verif/driver; nothing of the code under test is executed. No hooks in /repo."}
    for p in props:
        i = p["id"]
        if i in CHECKS:
            t, n = CHECKS[i][:2]
            m["checks"].append({"property": i, "quick_cmd": "python3 sa/check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 sa/check.py " + i,
                                "evidence_file": "evidence/%s.json" % i, "technique": t, "level": "other", "level_note": n})
        else:
            m["not_applicable"].append({"property": i, "reason": NA.get(i, "No check is armed for it (yet).")})
    with open(os.path.join(V, "MANIFEST.json"), "w") as f: json.dump(m, f, indent=1); f.write("\n")
main()
