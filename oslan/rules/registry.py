"""Which rules decide which property."""
RULES = {}


def rule(prop, run, explain, rules, need=None):
    RULES[prop] = dict(run=run, explain=explain, rules=rules, need=need or {})


rule("C01", [("clone", "run")],
     "Access-path dataflow over every path of every clone function (helpers analysed in place, loops summarised by a fixpoint "
     "over generic iterations).  One obligation per content field of the structure per path: the value left in the new node "
     "is the source node's value or a fresh full copy of the source's block; per list loop: every source node is copied and linked.",
     ["clone-field", "clone-link", "clone-all-nodes", "clone-null", "clone-delegate"],
     {"clone-field": 300, "clone-link": 30, "clone-all-nodes": 20})

rule("C02", [("equal", "run")],
     "Access-path dataflow over every path of every equality function, states kept apart by the facts they have established.  One "
     "obligation per content field and path answering 'equal' (the field's values were found equal in full, element loops summarised "
     "with their coverage), one per path answering 'different' (a fact that implies a difference), one per dereference of an operand "
     "that may be missing.",
     ["equal-yes", "equal-no", "equal-list", "equal-null"],
     {"equal-yes": 150, "equal-no": 60, "equal-list": 8, "equal-null": 200})

rule("C03", [("free", "run")],
     "Ownership/typestate dataflow over every path of every free function: each owned block (string, array, entries, cells, nested "
     "structure, the node itself) has exactly one release event on every path on which it exists; no load goes through a pointer that "
     "was released; no release of a field that is not owned or with another type's function; the argument is never dereferenced unless known present.",
     ["free-once", "free-use", "free-owned", "free-all-nodes", "free-null"],
     {"free-once": 100, "free-null": 50, "free-all-nodes": 8})

rule("C04", [("malloc", "run")],
     "Definite-initialisation dataflow over every path of every allocation function: each field of the returned structure holds a stored "
     "neutral value (absent pointer, zero count, undefined marker, requested size or precision), nothing in it derives from uninitialised "
     "memory; every matrix/vector block is large enough and the initialising loops cover exactly its rows and cells in the recorded precision.",
     ["malloc-field", "malloc-cells", "malloc-size"],
     {"malloc-field": 150, "malloc-cells": 6, "malloc-size": 4})

rule("C11", [("iface", "run"), ("iface", "run_descr")],
     "Resolution of every descriptor table on every path of the osl_<type>_interface functions (slot by slot, through wrappers), of the default "
     "registry, and of every indirect call through a descriptor: it must be the descriptor of the generic whose data is passed, the slot named by "
     "the operation, and data read through a descriptor must be stored with a copy of that same descriptor; copying and comparing descriptors covers every field.",
     ["iface-slot", "iface-uri", "iface-registry", "iface-dispatch", "iface-shell", "iface-clone", "iface-equal", "iface-type"],
     {"iface-slot": 130, "iface-uri": 19, "iface-registry": 15, "iface-dispatch": 10, "iface-shell": 3, "iface-type": 5, "iface-clone": 10, "iface-equal": 10})

rule("C17", [("lists", "run_uniq")],
     "Access-path dataflow over the addition, lookup and removal functions of generics and descriptors: on every path that links a node, the facts "
     "established by the loops prove that every added node was compared with every node of the list; lookups return only a node whose identifier was "
     "found equal, or nothing after the whole list; removals unlink and release exactly the matching node.",
     ["uniq-link", "uniq-add", "uniq-lookup", "uniq-remove"], {"uniq-link": 4, "uniq-add": 2, "uniq-lookup": 6, "uniq-remove": 6})

rule("C18", [("lists", "run")],
     "Heap-shape dataflow over every path of every add, concatenation, push, pop, filter, count and append function: the only link written is the one "
     "proved to be the end of the list (walk to the null link), it receives the added node, no other link changes; counting loops advance the count by one "
     "per node up to the end; appended entries go behind the existing ones.",
     ["list-add", "list-count", "list-concat", "list-push", "list-filter", "list-entry"],
     {"list-add": 12, "list-count": 8, "list-concat": 2, "list-push": 4, "list-filter": 3, "list-entry": 8})

rule("C08", [("purity", "run")],
     "Interprocedural mod/ref analysis of the whole library: for every function, which memory reachable from each parameter (directly or through any "
     "number of loads) it may store to, pass to a writing external function or release, through calls, descriptor slots and values stored in fresh objects.  "
     "One obligation per read-only structure operand of every function: its write set is empty.",
     ["purity"], {"purity": 200})

rule("C21", [("absent", "run")],
     "Conditional constant propagation over the whole program, interprocedural and context sensitive: every public printing, dumping, copying, releasing, "
     "comparing, counting, looking up and checking function is evaluated with each structure operand absent, and with each owned or linked part of each "
     "structure type absent; an access through the absent pointer on a feasible path (in the function, a callee, a descriptor operation or a library function) is a violation.",
     ["absent-operand", "absent-part"], {"absent-operand": 120, "absent-part": 60})

rule("C12", [("keywords", "run")],
     "Conditional constant propagation of both sides of every keyword table: the printer is evaluated with the type field holding each enumerated value, "
     "which leaves the literals it can emit for it; the reader is evaluated with the word read equal to each of these literals, which leaves the value it stores.  "
     "Tags: the forms printed and searched for, the name printed (the URI) and looked up, and the characters accepted in a tag against every registered URI.",
     ["keyword-table", "keyword-unknown", "keyword-env", "tag-form", "tag-scop", "tag-extension", "tag-chars"],
     {"keyword-table": 20, "keyword-unknown": 20, "keyword-env": 3, "tag-form": 2, "tag-scop": 2, "tag-extension": 4, "tag-chars": 15})

rule("C20", [("integrity", "run")],
     "Access-path dataflow over every path of the integrity and compatibility checks (helpers in place, checks of the parts as uninterpreted results): every "
     "path answering success has established, for every node (loop summaries, list walked to its end), that each part passed its check with the expected kind "
     "and counts; the relation check itself established kind, dimension counts, column count, first column and array identifier; readers and printers consult it.",
     ["integrity-relation", "integrity-part", "integrity-scoplib", "integrity-consulted"],
     {"integrity-relation": 30, "integrity-part": 10, "integrity-scoplib": 8, "integrity-consulted": 3})

rule("C23", [("unions", "run")],
     "Access-path dataflow over every path of the functions that set, convert, query or rebuild a property of a relation, list, statement or scop (helpers in "
     "place, functions of the parts uninterpreted): the list is walked to its end on every path and every completed iteration (and a last one left in the middle) "
     "treats its own node; precision conversion covers all rows and columns; maxima never shrink and use each kind's own dimension; names use the matching maximum; "
     "union splitting combines every pair of parts and links every new node.",
     ["union-set", "union-precision", "union-max", "union-names", "union-normalize", "union-split", "clone-field", "clone-link", "clone-all-nodes"],
     {"union-set": 12, "union-precision": 10, "union-max": 40, "union-names": 15, "union-normalize": 4, "union-split": 20, "clone-field": 6})

rule("C10", [("allocfail", "run")],
     "Fault-outcome constant propagation: for every memory request in the library (and every call of a function that answers nothing when a request is refused) the "
     "code behind the call is evaluated with the result NULL; on the feasible continuations no access goes through it (directly, in callees or in library "
     "functions) and none ends normally except by returning nothing, which moves the obligation to every call site of that function.",
     ["alloc-checked"], {"alloc-checked": 60})

rule("C05", [("ints", "run")],
     "Every integer primitive is analysed once per precision with the precision a constant, helpers in place and the multi-precision library modelled by its effect on "
     "values; on each returning path the value of the result (a polynomial over operands, truncated quotients and remainders, gcd) is compared with the operation's "
     "definition in each class of a finite partition of the operands (signs, divisibility); nothing but the result is written; with the precision unknown no path returns.",
     ["int-value", "int-precision", "int-writes", "int-storage", "int-text", "int-gcd"], {"int-value": 100, "int-precision": 40, "int-text": 8, "int-storage": 4})

rule("C06", [("ints", "run_overflow")],
     "Interval analysis of the machine-precision primitives, per path and per sign class of the operands: every signed operation executed on the path is in range under the "
     "facts established before it, every path that stops does so with a result out of range.", ["int-overflow"], {"int-overflow": 40})

rule("C16", [("reading", "run")],
     "Conditional constant propagation behind every call that may fail to read: formatted input with each failing outcome (end of text, nothing matched, "
     "every partial count), tokens, lines, marks.  No feasible continuation may use a text or an item that was not read, or end normally without giving the "
     "failure back; a failure that is given back is an obligation at every call site of the function.",
     ["read-checked", "read-missing"], {"read-checked": 8, "read-missing": 12})

rule("C13", [("order", "run")],
     "For every printer/reader pair of a textual format: the texts the printer composes on each path are put together symbolically (comments dropped) into a sequence of values, "
     "the reader's paths into a sequence of reading operations attributed to the fields their results end up in; both must agree on the order of fields, on the numbers in between "
     "(counts), on the loops around entries and on separators, and entry loops make as many rounds as the count read.",
     ["all-consumed", "same-order", "same-values", "same-loops", "separated"], {"all-consumed": 50, "same-order": 50, "separated": 50})
rule("C14", [("printing", "run")],
     "Access-path dataflow over every path of every public printing and dumping function (helpers in place, loops summarised): on each path each content field of "
     "each node is an operand of an output operation (through local buffers and temporary texts, which must be written out) or the path is conditioned on its value; "
     "lists are walked to their end and arrays over exactly their entries.",
     ["shows-fields", "shows-nodes"], {"shows-fields": 120, "shows-nodes": 25})

rule("C07", [("cells", "run")],
     "Owner analysis of every cell operand of every integer primitive called outside int.c, on every path of every public function (non-public helpers in place): the "
     "address of the cell gives the object that owns it (object -> matrix -> row -> column), and the precision passed must be the value of that object's precision field "
     "on this path (through constructors, copies and established equalities); temporaries keep one precision; a recorded precision changes only with the cells, "
     "a matrix moves only between objects of one precision.",
     ["cell-precision", "matrix-precision", "retag"], {"cell-precision": 80, "matrix-precision": 4, "retag": 4})

rule("C09", [("cells", "run_guards")],
     "Relational interval analysis over every path: at each cell access the facts established before it (guards, loop bounds, sizes of new objects) bound row and column "
     "inside the object that owns the cell; for every edit and combination, the documented conditions on positions, shapes and precisions are established on every "
     "accepting path, before the operand is first changed, and no position takes part in a sum before it is bounded.",
     ["range", "refused", "before-change", "wrap"], {"range": 250, "refused": 50, "before-change": 60, "wrap": 4})

rule("C22", [("edits", "run")],
     "Access-path dataflow over every path of every operation that edits, combines or rebuilds a relation or vector (helpers in place, other public operations by their own documented "
     "effect): on each returning path the recorded rows, columns, precision are the documented ones, kind, dimension counts and link are kept or carried over, and the matrix left "
     "in the object was made with exactly the sizes and precision recorded.",
     ["sizes", "kept", "matrix"], {"sizes": 80, "kept": 130, "matrix": 45})

rule("C24", [("edits", "run_layout")],
     "The cells written on each path are collected as rectangles (ranges of the loops around each write, split by the conditions inside) with the value put there relative to the "
     "written position; together with the initial contents they must tile the documented layout of the result: every old cell at its documented new place, every inserted cell "
     "where the position says, nothing else changed.",
     ["layout"], {"layout": 50})

rule("C19", [("temps", "run")],
     "Ownership typestate over every path of every function (property simulation: states that agree on the typestate and the names of the object are merged, branch facts "
     "intersected): every object a memory request or an allocating function hands out is released once, returned, or stored in something that outlives the operation before "
     "the function returns; no object is used, released or returned after its release.  Functions are summarised bottom-up (parameters kept / released / stored, contents of "
     "pointer parameters, results the caller has to release), so helpers and wrappers are followed.",
     ["released-once", "not-used-after"], {"released-once": 250, "not-used-after": 200})

rule("C15", [("fits", "run")],
     "Forward dataflow over every function: a linear bound of the length of the text each character buffer holds, the capacity each buffer was obtained with (as a linear form over "
     "the same quantities), and the comparisons that hold at each point (including what loops keep in step).  Every write of text (formatting, copying, appending, reading a line or "
     "a word, storing a character) and every store into an array made in the function is an obligation 'capacity >= end of the write', decided by linear elimination; writes through "
     "a parameter become obligations of the callers; the growing buffer of osl_util_safe_strcat is checked inside it and, at every use, for agreement of the buffer with the size recorded.  "
     "Variable arguments: on every path an argument list is started before each use and used once (a text formatted again after its buffer has grown starts them again).",
     ["bounded-write", "growing-buffer", "entry-in-array", "arguments-started"], {"bounded-write": 120, "growing-buffer": 200, "entry-in-array": 15, "arguments-started": 1})
