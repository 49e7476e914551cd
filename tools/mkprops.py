#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/mkprops.py > properties.jsonl)."""
import json
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append({
        "id": id, "title": title, "statement": " ".join(statement.split()),
        "quantifier": {"over": over, "text": " ".join(qtext.split())},
        "why_tests_cant": " ".join(why.split()),
        "anchors": {"files": files,
                    "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
                    "mechanism": [dict(name=n, where=w) for n, w in mech],
                    "observe_at": list(observe), "hook_needed": None}})

ALL = ["source/*.c", "source/extensions/*.c"]
EXT = ["source/extensions/*.c"]

prop("C01", "Cloning makes a complete, independent deep copy",
 """Cloning any library structure (core objects, extensions, generic lists, interfaces, names,
 string lists) yields a structure in which every content field of every copied node carries the value of
 the same field of the source node, for all cells and entries of the source and for every node of the
 list (or the requested number of nodes), in order. Every block owned by the source (strings, arrays, nested
 structures) is duplicated, never shared. Cloning nothing gives nothing. Operations that build a new structure from others (concatenation,
 union, filtering, one-element lists, vector arithmetic, lists of names, splitting unions) likewise answer a structure no node of which belongs to an operand.""",
 ["inputs"], "every structure of every type, every list length, array size and presence/absence of optional parts",
 """The suite only clones whole scops read from ~20 files and compares with equal(); structures those files do not
 contain (NULL optional parts, long unions, most extensions) and sharing (visible only after mutation or double
 free) are never exercised.""",
 ALL, [("*_clone / *_nclone functions", "source/*.c, source/extensions/*.c")])
prop("C02", "Equality verdicts depend on all content and only on content",
 """Comparing two structures of the same type answers "equal" only if every content field, every cell and entry, and
 every node of the two lists has been found equal, and answers "different" only after finding an actual difference; a structure is
 equal to itself, and a missing structure is different from any existing one without crashing.""",
 ["inputs"], "every pair of structures of every type",
 """Tests compare a scop with its own re-read text, so they only see the 'equal' verdict on identical inputs: a skipped
 field, row, or node can never change any test's outcome.""",
 ALL, [("*_equal functions", "source/*.c, source/extensions/*.c")])
prop("C03", "Destroying a structure releases each owned block exactly once",
 """Freeing any library structure releases every block it owns (each string, array, cell, nested structure and each node of the
 list) exactly once, never touches memory already released, never releases what it does not own, and accepts a missing structure.""",
 ["inputs"], "every structure of every type, including partially filled ones",
 """The suite never runs under a leak or memory checker, and a leak or a use-after-free normally does not change printed output.""",
 ALL, [("*_free / *_free_inside functions", "source/*.c, source/extensions/*.c")])
prop("C04", "Fresh structures are fully initialised",
 """Every structure handed out by an allocation function has every field set to a defined neutral value (absent pointer, zero or
 undefined marker, or the requested size/precision), so that no field of it is ever read before being set and it can be freed right away.""",
 ["inputs"], "every allocation function, every requested size and precision",
 """malloc usually returns zeroed fresh pages in short test runs, so a missing initialisation is invisible there.""",
 ALL, [("*_malloc / *_pmalloc functions", "source/*.c, source/extensions/*.c")])
prop("C05", "Integer primitives compute the named operation in every precision",
 """Each integer primitive (assignment, arithmetic, comparison, sign tests, swap, conversion), for each of the three precisions (32-bit,
 64-bit, multi-precision), applies the operation its name says to its operands in the documented order and writes only its
 result; any other precision is refused with an error instead of computing something.""",
 ["inputs", "configurations"], "every operand value and precision",
 """Tests run one default precision on small constants taken from the sample files; most primitives and the other precisions are never called.""",
 ["source/int.c"], [("precision dispatch in osl_int_*", "source/int.c")])
prop("C06", "Machine-precision arithmetic never overflows silently",
 """When the result of an addition, subtraction, multiplication, increment, negation, absolute value, gcd, division or conversion to a
 narrower integer cannot be represented, the library stops with an error before a wrong result is stored, and an addition, subtraction,
 multiplication, increment, negation, absolute value or conversion never stops for a representable result.""",
 ["inputs"], "every operand pair in 32- and 64-bit precision",
 """Needs extreme operands; the sample inputs contain only small coefficients.""",
 ["source/int.c"], [("overflow guards before the operation", "source/int.c")])
prop("C07", "Values are handled with the precision of the object that holds them",
 """Whenever a matrix or vector cell is created, read, combined or destroyed, the precision used is the one recorded in the object that owns the cell;
 objects of different precision are never combined without an error.""",
 ["inputs", "configurations"], "every operation on relations and vectors in every precision",
 """With the suite's single precision, passing another object's or the default precision changes nothing.""",
 ["source/relation.c", "source/vector.c", "source/scop.c", "source/statement.c"],
 [("precision argument of osl_int_* calls", "source/relation.c, source/vector.c")])
prop("C08", "Inspection never modifies the inspected structure",
 """Printing, dumping, comparing, counting, looking up, integrity checking and copying leave every structure passed to them unchanged, on every path,
 not even temporarily; the same holds for every read-only (const) structure operand of any operation.""",
 ["inputs"], "every structure and every observer function",
 """Tests print and discard: a mutation during inspection is not visible unless the structure is inspected again and compared.""",
 ALL, [("absence of writes through the inspected argument", "source/*.c, source/extensions/*.c")])
prop("C09", "Out-of-range and incompatible edits are refused before any change",
 """Editing or combining relations and vectors (inserting, removing, replacing or adding rows, columns, blocks and cells, concatenating) with
 a position outside the object or with objects of different shape or precision ends in an error before any cell is touched;
 every accepted edit only accesses cells that exist.""",
 ["inputs"], "every position, size and precision combination",
 """The suite performs no direct row/column edits: the guards are never reached with bad arguments.""",
 ["source/relation.c", "source/vector.c"], [("range and shape guards", "source/relation.c, source/vector.c")])
prop("C10", "Allocation failure is always noticed before use",
 """Every request for memory is checked before the block is used; when memory is refused the library reports the failure and
 stops (or returns nothing where that is documented), never dereferencing the missing block.""",
 ["fault_sequences", "inputs"], "every allocation site, failing or not",
 """No test injects an allocation failure.""",
 ALL, [("OSL_malloc/OSL_realloc/OSL_strdup wrappers", "include/osl/macros.h")])
prop("C11", "Every structure type is wired to its own operations",
 """The descriptor of each structure type carries that type's unique identifier and binds each of its operations (dump, print, read, allocate,
 free, clone, compare) to the function of that same type; the default registry knows every registrable type, and copying,
 comparing and looking up descriptors takes all of the fields into account.""",
 ["configurations", "programs"], "every descriptor and every slot",
 """Tests go through read/print of the types occurring in sample files only; clone/equal/dump slots of most types are never called through the descriptor.""",
 ["source/interface.c", "source/generic.c"] + EXT, [("osl_*_interface functions", "source/**/*.c"), ("osl_interface_get_default_registry", "source/interface.c")])
prop("C12", "Keywords written are the keywords recognised",
 """Each symbolic type keyword (relation kind, symbol kind, dependence kind) and each section tag that the printer can emit is recognised by the reader and gives back exactly
 the value it was printed for; distinct values have distinct keywords, and an unknown keyword is refused or leaves the kind undefined.""",
 ["inputs"], "every enumerated value and keyword",
 """The sample files contain only some of the kinds; a swapped or misspelt keyword consistent in one direction is only visible on a value no test prints and re-reads.""",
 ["source/relation.c", "source/extensions/symbols.c", "source/extensions/dependence.c", "source/generic.c", "source/scop.c"],
 [("type string tables and their inverse", "source/relation.c, source/extensions/symbols.c, source/extensions/dependence.c")])
prop("C13", "The reader consumes fields in the order the printer emits them",
 """For every textual format, the sequence of fields the printer writes for an object is the sequence the reader consumes and stores, field by field into the same place,
 with counts written before the entries they count; a field printed only in some cases is read in exactly those cases. (Formats that consist of one free text, the splitting
of a list of words, and the pair of tags around an extension are not compared.)""",
 ["inputs"], "every structure of every type with a textual form",
 """Round trips are only tested for the sample files; fields that are equal there (e.g. all zero) can be swapped unnoticed.""",
 ["source/scop.c", "source/statement.c", "source/relation.c", "source/relation_list.c", "source/body.c"] + EXT,
 [("*_sprint versus *_sread", "source/*.c, source/extensions/*.c")])
prop("C14", "Printing and dumping cover every node and every content field",
 """Printing or dumping a structure shows every content field of every node of the list or union; nothing reachable from the structure is
 skipped. Texts (textual, comment, clay script) may be abbreviated in dumps, an interface is shown by its URI only, the textual extension has
no printed form of its own, a count may be shown by showing the entries it counts, the user text of a loop only belongs to a user directive.""",
 ["inputs"], "every structure of every type, every list length",
 """Dump output is not compared by any test, and most extension nodes occur at most once in the samples.""",
 ALL, [("*_idump / *_sprint functions", "source/*.c, source/extensions/*.c")])
prop("C15", "Text that is read or built never overruns a buffer",
 """Reading, copying or printing text of any length (numbers, words, lines, tags, comments, names, bodies, whole objects) never writes past the end of the buffer
it is collected in: fixed buffers are large enough for everything put into them, growing buffers are grown before text is appended (text formatted again
after the buffer has grown is formatted from the same arguments), and arrays of entries have room for every entry stored.""",
 ["inputs"], "every input text, every token and line length",
 """Sample files have short tokens; overruns need inputs longer than the fixed buffer size.""",
 ALL, [("bounded copies / growth checks before append", "source/util.c, source/strings.c, source/relation.c, source/extensions/*.c")])
prop("C16", "Malformed numbers and truncated input are detected",
 """Whenever the reader expects a number or a word, a missing or malformed one (a number that does not start like one, a type word
that is none of the expected ones, an end of input instead of a line, row, token or end tag) is detected on the spot and reported;
a value that was not actually read is never used.""",
 ["inputs"], "every malformed or truncated input",
 """The suite's inputs are all well formed.""",
 ["source/util.c", "source/relation.c", "source/int.c", "source/statement.c", "source/scop.c"] + EXT,
 [("checks of sscanf/fscanf/fgets/read results", "source/util.c, source/relation.c, source/int.c")])
prop("C17", "At most one extension and one descriptor per identifier",
 """Adding an extension or descriptor whose identifier is already in the list is refused without altering the list; a new one is linked
 at the end keeping all previous ones; lookups return the entry with that identifier or nothing; removal unlinks exactly the
 matching entry.""",
 ["histories", "inputs"], "every sequence of additions, lookups and removals",
 """Tests never add duplicates nor remove entries.""",
 ["source/generic.c", "source/interface.c"], [("osl_generic_add/remove/lookup, osl_interface_add/lookup", "source/generic.c, source/interface.c")])
prop("C18", "Appending keeps every node of both lists",
 """Appending to, concatenating or filtering a list (relations, relation lists, statements, scops, strings, generics, extensions) keeps every node exactly once and in order:
 the old nodes, then the new ones; counting a list counts every node.""",
 ["inputs", "histories"], "every pair of lists, including empty ones",
 """Samples use short lists; an append that replaces the second node or drops the tail needs three or more nodes.""",
 ["source/relation.c", "source/relation_list.c", "source/statement.c", "source/scop.c", "source/generic.c", "source/strings.c", "source/extensions/arrays.c"],
 [("*_add, *_append, *_concat, *_number functions", "source/*.c")])
prop("C19", "Temporary results are released and never used afterwards",
 """Every block or structure an operation obtains for its own use (intermediate text, temporary relations, vectors, name tables) is released exactly once before the operation returns, on
 every normal path, unless it is handed to the caller or stored in the result; nothing is used after its release.""",
 ["inputs"], "every normal path through every function",
 """Leaks and late uses do not change the output of short-lived tests and no test runs under a memory checker.""",
 ALL, [("ownership of returned strings and structures", "source/*.c, source/extensions/*.c")])
prop("C20", "The integrity check consults every part and fails if any part fails",
 """The integrity check of a scop succeeds only if every part (context, and for each statement its domain, scattering, accesses and number of body iterators, for every scop in the
 list) passes its own check, with the parameter count and expected kind of that part; the first failure makes the whole check fail. Reading and printing consult the check, and
 nothing that failed the SCoPLib compatibility check is printed in that format.""",
 ["inputs"], "every scop",
 """All sample files are valid, so the check always succeeds in the suite: a check that never fails passes every test.""",
 ["source/scop.c", "source/statement.c", "source/relation.c", "source/relation_list.c", "source/body.c"],
 [("*_integrity_check functions", "source/scop.c, source/statement.c, source/relation.c, source/relation_list.c, source/body.c")])
prop("C21", "Absent structures are accepted by every operation that promises it",
 """Every printing, dumping, cloning, freeing, comparing, counting, looking up and checking operation, called with an absent structure, or with a structure of which an
 optional part (nested structure, next node, optional text) is absent, treats it as empty and never dereferences what is not there, also when only one structure among several (an element of a list, one of two compared structures)
 lacks it; adding to, pushing on, popping, duplicating, dropping and removing from an empty list or stack, or with nothing to add, likewise.""",
 ["inputs"], "every such operation, with any of its structure arguments absent",
 """Sample files never produce absent parts for most types.""",
 ALL, [("NULL guards at entry", "source/*.c, source/extensions/*.c")])
prop("C22", "Relation size, kind and dimension counts stay consistent with its matrix",
 """Every operation that edits, grows, shrinks, combines or builds a relation or vector from others (inserting, removing, replacing, adding rows, columns, blocks; concatenating; extending the output
 dimensions; copying some rows) records the row and column numbers of the matrix it leaves in the result, in the documented size and the operands' precision; edits keep the kind, the output, input, local
 and parameter counts and the link to the next part, and part-wise rebuilding carries them over (extending changes the number of output dimensions only).""",
 ["inputs", "histories"], "every relation and every edit sequence",
 """The suite has no relation edit tests beyond reading and converting sample files.""",
 ["source/relation.c"], [("updates of nb_rows/nb_columns with m", "source/relation.c")])
prop("C23", "Type and size queries and conversions cover every union part",
 """Operations that set, convert, query or rebuild a property of a relation, relation list, statement or scop apply to every part of every union and every node, not only to
the first: setting kinds and attributes; converting the precision (all rows and columns, from the part's own former precision; two relations made alike end in the higher of their
precisions); the maximum numbers of parameters, iterators, scattering dimensions, local dimensions and the array identifier (each kind of relation counting its own dimensions), and
the names generated from them; extending the output dimensions; normalising scatterings; splitting unions into one statement per pair of domain and scattering parts.""",
 ["inputs"], "every list and union length",
 """Sample scops contain almost no unions.""",
 ["source/relation.c", "source/relation_list.c", "source/statement.c", "source/scop.c"],
 [("loops over ->next", "source/*.c")])
prop("C24", "Edits put every cell where it is documented to go",
 """Editing or combining relations and vectors (inserting, removing, replacing, adding, subtracting, swapping rows, columns, blocks and vectors; concatenating; extending the output dimensions; copying some
 rows; vector sums and products) leaves every old cell at its documented new place, puts every inserted or combined value where the position says, fills new blank cells with zero (and the new output
 dimensions with their defining equations), and changes no other cell of any operand.""",
 ["inputs"], "every size, position and cell value", """The suite calls none of these operations directly; wrong offsets are invisible for the first or last position, for one row or column, or for equal sizes.""",
 ["source/relation.c", "source/vector.c"], [("copy loops of the edits", "source/relation.c, source/vector.c")])
# declined
prop("N01", "Textual round trip preserves the meaning of a scop",
 """Printing a scop and reading the text back gives a scop equal to the original, for every scop.""",
 ["inputs"], "every scop", "Only ~20 samples are round-tripped.", ["source/scop.c"], [("osl_scop_print/osl_scop_read", "source/scop.c")])
prop("N02", "Printed expressions denote the matrix rows",
 """The human-readable constraint comments and access expressions printed next to matrices denote the same affine expressions as the matrix rows.""",
 ["inputs"], "every relation and name table", "Comments are not compared by tests on re-reading.", ["source/relation.c"], [("osl_relation_expression_element and callers", "source/relation.c")])
prop("N03", "Removing unions preserves the described iteration set",
 """Rewriting a scop without unions describes exactly the same statement instances and schedules as the original.""",
 ["inputs"], "every scop with unions", "Samples have few unions.", ["source/scop.c"], [("osl_scop_remove_unions", "source/scop.c")])
prop("N04", "Every operation terminates on every finite structure",
 """All library operations terminate on every acyclic structure and every finite input text.""",
 ["inputs"], "every structure and text", "Tests only see terminating samples.", ALL, [("loops", "source/*.c")])
prop("N05", "Multi-precision results equal exact arithmetic",
 """Multi-precision arithmetic gives the mathematically exact result for operands of any size.""",
 ["inputs"], "all big integers", "Values are small in samples.", ["source/int.c"], [("GMP", "libgmp")])
for p in P:
    print(json.dumps(p))
