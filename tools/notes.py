"""Per-property notes for DESIGN.md: limits, exceptions, and false alarms corrected on the way."""
TECH = {
 "C01": "path-sensitive access-path dataflow (copy completeness, loop summaries)",
 "C02": "path-sensitive access-path dataflow (facts established on each path of the comparisons)",
 "C03": "ownership/typestate dataflow",
 "C04": "definite-initialisation dataflow",
 "C05": "per-precision access-path dataflow with an exact value domain (polynomials over operands, sign classes)",
 "C06": "interval analysis of every signed operation under the guards of its path",
 "C07": "owner analysis of cell addresses (typestate of precisions) over access paths",
 "C08": "interprocedural mod/ref effect analysis",
 "C09": "relational interval analysis of positions and sizes; guards-before-effects ordering",
 "C10": "fault-outcome constant propagation at every allocation site",
 "C11": "call-table resolution and indirect-call typing on the whole-program IR",
 "C12": "conditional constant propagation of printer and reader per enumerated value",
 "C13": "symbolic text-sequence extraction of printers versus read-sequence extraction of readers (dataflow)",
 "C14": "output-operand dataflow with loop coverage",
 "C16": "fault-outcome constant propagation at every read",
 "C17": "access-path dataflow with universally quantified loop facts",
 "C18": "heap-shape dataflow (which link is written, which node it is proved to be)",
 "C20": "access-path dataflow (facts required on every accepting path)",
 "C21": "interprocedural conditional constant propagation with absent operands and parts",
 "C22": "access-path dataflow over the recorded sizes of every relation a function writes",
 "C24": "access-path dataflow over cell rectangles (loop ranges, index mappings, tiling of the documented layout)",
 "C23": "access-path dataflow with loop coverage over unions and lists",
 "C15": "buffer-bounds analysis over access paths",
 "C19": "ownership/typestate dataflow of temporaries",
}
NOTES = {
 "C19": ["`oslan/owner.py` tracks, per path, every block a function obtains (allocators, results the summaries know as new) and everything it releases: `released-once`, `used-after-release`, `lost` (an exit with an owned block that "
         "nobody was given), `displaced` (an owning field overwritten while it holds something).  Summaries say for every function which arguments it releases (deeply or the shell only), keeps, moves, and what it answers; "
         "allocation failures are not followed (C10).",
         "Limits: releases through a cursor that has moved along a list, an element stolen from the middle of an array, and a shell freed instead of a clone with contents nested deeper than fields are not seen (three of the bugs in "
         "`dev/ed_own.py` stay unreported for that); whole lists and arrays of structures are C03/C17's."],
 "C01": ["`new-result` covers the other building operations: an operand that is not absent is never answered itself, nor stored in (or handed to a callee that links it to) a structure that becomes part of the answer; operands shared "
         "through a cursor or a part of the operand are not followed there.", "Comment and raw textual text are content too; borrowed pointers (usr, statement pointers of a dependence) are copied as they are.",
         "A copy made through a helper, a descriptor's clone operation or an element loop counts the same as an inlined one."],
 "C02": ["Not compared by design: comment text and raw textual text, addresses of other objects (the statement and relation pointers of a dependence), usr.",
         "Sets of annotations/extensions are compared regardless of order; descriptors node to node; an unregistered generic equals nothing but itself."],
 "C03": ["`free` of an absent part is accepted (it is a no-op)."],
 "C04": ["A field may be left to the caller only if the function is not public."],
 "C05": ["`long` is 64 bits here, so single and double precision coincide in width: a confusion between the two is invisible on this target (it is reported only where the fields differ).",
         "Operands read after the (possibly aliased) multi-precision result was written are violations. `mpz_cmp` is trusted for its sign only; a test `== -1` is undecided.",
         "Not judged: osl_int_sread advancing by the number of items, the size in base 10 of a difference at 0."],
 "C06": ["A primitive that stops for a representable result is a violation as well (the old guards did so)."],
 "C07": ["Contracts are used for public operations on whole objects; non-public helpers with a (value, precision) pair are analysed alone when the caller becomes too large.  Analysis falls back in stages "
         "(everything in place; helpers without cells opaque; all helpers opaque) and the last stage is never used for the range rule of C09."],
 "C08": ["The destination of an output operation and reference counters/caches do not exist in this code base; a `const` operand of any function is an obligation as well as the non-const operand of an observer."],
 "C09": ["A linear elimination over the path's facts (no solver) bounds each index.  Positions computed from the dimension counts (nb_output_dims...) are undecided: their relation to nb_columns is C20's integrity check.",
         "NULL operands and a swap of equal rows are exempt; delegating to a guarded edit counts as guarding.  osl_relation_expression's row argument is not judged."],
 "C10": ["A static function may answer a constant failure status: the obligation then moves to its callers. A public one may only answer nothing."],
 "C11": ["`irregular` is not in the default registry (as documented in the code) and not required to be."],
 "C12": ["Undecided: tags composed by strcat from parts not known, and table-driven reader loops.  OSL_TYPE_GENERIC/STRING/ACCESS are not printable kinds.",
         "False alarm corrected: a reader accepting more words than the printer writes is fine."],
 "C13": ["Not compared: the tag pair of osl_generic, the word splitting of osl_strings_sread, formats that consist of one text.  A constant word may stand for an absent field (\"(null)\")."],
 "C14": ["Texts may be abbreviated in dumps; interfaces appear as URIs; the textual extension has no printed form.  osl_relation_spprint_polylib's type word and osl_statement's SCoPLib form are not analysed."],
 "C16": ["Not judged: trailing characters after a number, negative counts.  Word rule: only in functions that take the input and compare one word with at least two constants."],
 "C17": ["Duplicates inside the added list itself are not covered by the promise."],
 "C18": ["osl_relation_list_count counts the entries that hold a relation, as documented."],
 "C20": ["A union's kind is the kind of its first part, as osl_relation_integrity_check compares each part with it."],
 "C21": ["Rules: `absent-operand` (each structure argument NULL in turn), `absent-part` (one field NULL in every structure reached from the arguments), `absent-in-one` (one field NULL in the structures one value of the function points to, "
         "the same field present in all others: an element of a list without content, two compared structures of which one lacks a text; what a test told about a loaded part holds for the place it was loaded from until something is written), "
         "`empty-list` (the place of the head holds NULL, or the node to add is NULL).  A part that only a local structure lacks is judged in the function itself, not in the helpers it is handed to.",
         "Not promised: helpers working on inner texts, *_clone_one, partially filled name tables."],
 "C22": ["Readers (C13), constructors (C04), full copies (C01) and attribute setters (C23) are judged there.  A matrix that is shrunk in place without being re-made is undecided."],
 "C24": ["Documented layouts are written once, as rectangles with the value each cell receives relative to its position; delegating to another edit composes its documented layout.",
         "Inequalities between bounds are decided by linear elimination over the path's facts; two limits that cannot be compared split the path into both cases.  A counter that advances under a "
         "condition, row pointers moved as a whole, and memcpy of cells are undecided.  The marker cell of a row that is added to may be replaced by the vector's (as documented) or kept."],
 "C15": ["Sizes are compared as linear forms; wrap-around of the sums themselves (texts near the size of the address space) is not considered.  A size that comes from an object's field, or an index "
         "kept in step only by the object's own invariants (number of columns and number of names) is undecided; a store at the recorded number of entries needs the array made larger on every way there (the arrays have no spare entries).  Matrix rows and cells are C09.",
         "A buffer the caller provides is held to what the callee writes; only osl_int_sprint and osl_int_sprint_txt (public, no size parameter) remain, as known findings."],
 "C23": ["The cell values moved by osl_relation_extend_output are compared by C24."],
}
NA = {
 "N01": "Equality of a scop with its re-reading quantifies over the meaning of the text; deciding it needs a symbolic execution of printer and reader against each other. The static parts of it are C11-C14 and C16.",
 "N02": "That the printed expression denotes the row is an equality of runtime strings built cell by cell; no sound static argument in reach relates the text to the affine form.",
 "N03": "Equality of instance sets and schedules before/after is a semantic (polyhedral) statement about runtime matrices; the structural part (every pair of parts becomes a statement) is C23.",
 "N04": "Termination on every finite text depends on the lengths and counts in the input (read loops driven by input values); a sound ranking argument for all of them is out of reach here.",
 "N05": "The exactness of multi-precision arithmetic is libgmp's; openscop only dispatches to it (that dispatch is decided by C05).",
}
