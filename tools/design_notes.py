GENERAL = r'''
# Static verification of rust_xlsxwriter

This file is written by `tools/gen_design.py` from `properties.jsonl`, the docstrings of the checks, `known-findings.txt`,
`seeded/*/meta.json` and `tools/design_notes.py`.

## What is analysed, and how

Every check decides its property from the source of /repo as it is when the check runs; nothing of the code under test is
executed, neither concretely nor symbolically.

* **Facts.** `driver/` is a `rustc_private` driver (nightly) that `sa/extract.py` runs as `RUSTC_WORKSPACE_WRAPPER` under
  `cargo +nightly check --lib`. It dumps, as JSON, the MIR of every function, closure, promoted and constant of the crate after
  type checking and borrow checking (optimized-MIR passes off), with resolved callees (also through trait implementations and
  virtual calls), types, field names, constants (strings, format templates, arrays), the definitions of all types, visibility,
  effective exports and the compiler's auto trait answers. The facts are cached under `build/` by a hash of the source tree,
  the manifest and the driver, so that a changed tree is always analysed anew. The configuration `full` (all features that
  add code: chrono, serde, rust_decimal, constant_memory, ryu, wasm) is the one analysed by all checks; `default` (no features)
  is added by C01-C03, C18 and C19 in the thorough tier or always, as the evidence says.
* **Program model.** `sa/mir.py` (functions, call graph, callers, implementations, field effects), `sa/sym.py` (symbolic
  expressions of MIR operands, branch facts that hold on every path to a block, summaries of what a call's outcome implies),
  `sa/regions.py` (possible enum variants per block), `sa/flow.py` (value flow), `sa/live.py` (liveness of fields),
  `sa/terms.py` (what a value is derived from, with every operation on the way), `sa/counts.py` (integers as linear forms over
  collection sizes), `sa/state.py` (what a function reads, adds to, overwrites and clears in the objects reachable from its
  arguments), `sa/emit.py` and `sa/emit2.py` (what XML every path of every writer emits: elements, attributes, order, data).
* **Rules.** `sa/props/cNN.py`, one module per property. `python3 sa/check.py Cnn` runs one, writes `evidence/Cnn.json` (rule
  instances, functions and places analysed, samples) and prints violations: function, construct and the rule instance, whose key
  has no line numbers. Exit 0 or 1; exit 2 only if the crate does not compile or the analyser itself fails.
* **Oracles.** The tables that come from outside the code are in `sa/schema_tables.py` (content models and attribute lists of
  ECMA-376 and the Microsoft extensions), `sa/token_tables.py` (the tokens of the file format per enum variant) and in the check
  modules (Excel's limits, escape sets). They were written from the format documents and reviewed against the repository's own
  reference files where these have the construct.
* **Fail closed.** Every check has floors: when an anchor (writers, setters, call sites, tables) disappears or its number falls
  below what the tree has by a margin, that is a violation and not silence.
* **Judging behaviour, not style.** Rules are stated on MIR (dataflow, dominance, must-pass edges, effects), which is the same
  for `match`, `if let`, `?`, early returns, loops and iterator adaptors up to recognised forms. Each check was tried on
  behaviour-preserving rewrites (helper extracted or inlined, loops rewritten, statements reordered, match against if chains,
  `mem::take` against `clear`, iterator adaptors against loops); those it wrongly flagged led to corrections of the rule.

## Cost

Extraction takes about 4 s when the tree has changed (once per tree, shared by all checks) and 60 s for the driver in
`setup_cmd`. A check takes 2-40 s (C02/C03/C09/C11/C21/C23 use the emission analysis, 15-20 s, cached by the same hash).

## Repairs and findings

Repairs of genuine defects are the commits in /repo that start with `fix:`; `known-findings.txt` names each (fixed lines), and the
two findings that are recorded and not repaired. Every repair was confirmed with a program that shows the defect before and
not after, and the 4476 stable tests pass with all of them.
'''
TAIL = r'''
## What is not covered

* Third-party code: the zip crate (2.6.1) can panic in `ZipWriter::drop` after a transient write error; chrono, serde and tempfile
  are trusted.
* Panics in general (index, unwrap, arithmetic): only the places that C05, C14 and C24 name.
* Properties C40-C44 (see above): their content is numeric or about external data formats; no sound static argument in reach
  decides them, and they are listed as not applicable instead of being tested under a static label.

## Method of planting

Bugs are written from the property text with `mkseed` (not part of /verif): patch, demonstration program built against the
library, run on the unchanged and the changed tree, stable tests with the patch, and then the checks. Besides the seeds kept in
`seeded/`, each check was tried on 15-40 small mutations of the code (bugs and behaviour-preserving rewrites) with
`tools/mut.py`, which runs a check on edited copies.
'''
CAUGHT = {}
NOTES = {
 "C01": [("Limits", "correlated conditions are tracked within a function and its inlined callees; loops are iterated to a fixed point with the stack as state.")],
 "C02": [("Limits", "parents are names of elements, so two elements of one name in different parts share the union of their models where the schema gives them different types and the part does not tell them apart.")],
 "C04": [("Limits", "control characters in attribute values and U+FFFE/U+FFFF are not among the armed escape tables.")],
 "C06": [("Limits", "zip entry times are set to a fixed default in the code; the only clock is the document creation time, which is documented and excluded in the statement.")],
 "C07": [("Exceptions", "the places in `ALLOWED` of the check are kept on purpose, each with its reason; such a place may still not be filled in only when it is empty. Growth is also accepted in get-or-insert form (guarded by the absence of the key that the same step inserts) and for what a call takes out of the object (serialized tables). A table that is filled in that form must itself be cleared when what is added along with its new keys is cleared, unless that is made again from the keys."), ("False alarms handled", "loops by index, `for_each` with a function item, `mem::swap` with a local, kills on the empty branch of a collection, and path meets in which one side kills a prefix of the other.")],
 "C08": [("Limits", "a chartsheet with a background image or notes is outside the statement (its relationship file leaves them out); objects of a kind are interchangeable, so a condition on an individual object's content (for example on an image's type) is one symbolic factor."), ("False alarms handled", "sets of seen hashes are named by the collections whose items go into them, so that a set shared by two loops and two separate sets are told apart only when that matters; early `continue`, index loops, and helpers are interpreted, not matched.")],
 "C22": [("Limits", "as C08; the ids that chart parts or shapes would need do not occur in this code base.")],
 "C13": [("Why static", "no schedule is explored: the discipline (atomic get-or-insert under one guard, index computed under it, tables never shrink) implies unique and stable indices for every schedule.")],
 "C14": [("Limits", "writes to in-memory buffers cannot fail and are exempt; the temporary file of a constant-memory worksheet is the recorded finding.")],
 "C20": [("Limits", "lengths are counted in characters as the code and Excel's documentation do; UTF-16 units are not considered.")],
    "C26": [("Limits", "values whose type the interpretation cannot tell (text taken from a field that holds prepared text) are counted as unclassified in the evidence, not checked. Numeric ranges (minInclusive and the like) are not checked: they are limits on arguments (C20).")],
 "C27": [("Limits", "populate_string_table() and set_axis_ids() are hidden functions for tests that take indices from the caller: they are exempt. The ids of drawings, charts and relationships are C08 and C22."), ("False alarms handled", "counters or lengths, match or entry, loop or iterator chain, field or local for the counter, sort_by or sort_by_key are all the same to the interpretation; a store of an index that only moves a value between variables is not a rule's business.")],
 "C28": [("Limits", "an empty element is accepted where its content is optional as a whole (`EMPTY_OK`); `a:latin/@typeface` is left out of the tables because Excel itself accepts the files without it."), ("False alarms handled", "loops over constant arrays (`for`, `iter().enumerate()`, `for_each`) are unrolled, so borders, font schemes or tick attributes written in a loop count as written.")],
 "C24": [("False alarms handled", "names obtained through accessors (for example a default table name) are followed into the accessor.")],
}
