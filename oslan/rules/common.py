"""The repository's data model: which fields of which structure are content, how they are owned, and what is
deliberately not part of the content.  Filled from the headers, confirmed by reading; the struct layouts come
from the debug info of the current build and every name used here must exist there (else: analysis broken)."""
import re
from ..ir import AnalysisBroken
from ..engine import NULL

# kinds: val (plain value)  str (owned C string)  own (owned structure with its own clone/free/equal)
#        link (next node)   borrow (pointer that is not owned)  skip (user data, excluded by documentation)
#        arr:<elem>:<count>  heap array of <elem> (val/str/cell) with <count> entries
S = "struct.osl_"
FIELDS = {
    "relation": {"type": "val", "precision": "val", "nb_rows": "val", "nb_columns": "val", "nb_output_dims": "val",
                 "nb_input_dims": "val", "nb_local_dims": "val", "nb_parameters": "val", "m": "matrix", "usr": "skip", "next": "link"},
    "relation_list": {"elt": "own:relation", "next": "link"},
    "statement": {"domain": "own:relation", "scattering": "own:relation", "access": "own:relation_list", "extension": "own:generic", "usr": "skip", "next": "link"},
    "scop": {"version": "val", "language": "str", "context": "own:relation", "parameters": "own:generic", "statement": "own:statement",
             "registry": "own:interface", "extension": "own:generic", "usr": "skip", "next": "link"},
    "generic": {"data": "data", "interface": "own:interface", "next": "link"},
    "interface": {"URI": "str", "idump": "val", "sprint": "val", "sread": "val", "malloc": "val", "free": "val", "clone": "val", "equal": "val", "next": "link"},
    "strings": {"string": "strv"},
    "names": {"parameters": "own:strings", "iterators": "own:strings", "scatt_dims": "own:strings", "local_dims": "own:strings", "arrays": "own:strings"},
    "body": {"iterators": "own:strings", "expression": "own:strings"},
    "vector": {"precision": "val", "size": "val", "v": "cells"},
    "annotation": {"prefix": "sub:annotation_text", "suffix": "sub:annotation_text"},
    "annotation_text": {"types": "arr:val:count", "lines": "arr:str:count", "count": "val"},
    "arrays": {"nb_names": "val", "id": "arr:val:nb_names", "names": "arr:str:nb_names"},
    "clay": {"script": "str"},
    "comment": {"comment": "str"},
    "coordinates": {"name": "str", "line_start": "val", "line_end": "val", "column_start": "val", "column_end": "val", "indent": "val"},
    "dependence": {"label_source": "val", "label_target": "val", "ref_source": "val", "ref_target": "val", "depth": "val", "type": "val",
                   "domain": "own:relation", "source_nb_output_dims_domain": "val", "source_nb_output_dims_access": "val",
                   "target_nb_output_dims_domain": "val", "target_nb_output_dims_access": "val", "source_nb_local_dims_domain": "val",
                   "source_nb_local_dims_access": "val", "target_nb_local_dims_domain": "val", "target_nb_local_dims_access": "val",
                   "usr": "skip", "next": "link", "ref_source_access_ptr": "borrow", "ref_target_access_ptr": "borrow",
                   "stmt_source_ptr": "borrow", "stmt_target_ptr": "borrow"},
    "extbody": {"body": "own:body", "nb_access": "val", "start": "arr:val:nb_access", "length": "arr:val:nb_access"},
    "irregular": {"nb_control": "val", "nb_exit": "val", "nb_iterators": "arr:val:", "iterators": "arr2:str", "body": "arr:str:",
                  "nb_statements": "val", "nb_predicates": "arr:val:nb_statements", "predicates": "arr2:val"},
    "loop": {"iter": "str", "nb_stmts": "val", "stmt_ids": "arr:val:nb_stmts", "private_vars": "str", "directive": "val", "user": "str", "next": "link"},
    "null": {"fake_member_to_disable_warning": "skip"},
    "pluto_unroll": {"iter": "str", "jam": "val", "factor": "val", "next": "link"},
    "region": {"location": "val", "prefix": "sub:region_text", "suffix": "sub:region_text", "prelude": "sub:region_text", "postlude": "sub:region_text", "next": "link"},
    "region_text": {"types": "arr:val:count", "lines": "arr:str:count", "count": "val"},
    "scatinfos": {"nb_scatdims": "val", "parallel": "arr:val:nb_scatdims", "permutable": "arr:val:nb_scatdims", "type": "arr:val:nb_scatdims"},
    "scatnames": {"names": "own:strings"},
    "symbols": {"type": "val", "generated": "val", "nb_dims": "val", "identifier": "own:generic", "datatype": "own:generic", "scope": "own:generic",
                "extent": "own:generic", "usr": "skip", "next": "link"},
    "textual": {"textual": "str"},
}
EXTENSIONS = ["annotation", "arrays", "clay", "comment", "coordinates", "dependence", "extbody", "irregular", "loop", "null", "pluto_unroll",
              "region", "scatinfos", "scatnames", "symbols", "textual"]
IFACE_TYPES = EXTENSIONS + ["strings", "body", "relation"]
SPLIT = {"annotation_text": "annotation", "region_text": "region"}


def check_model(M):
    """every field of every structure of the current tree is classified, and vice versa"""
    for t, fs in FIELDS.items():
        real = M.fields.get(S + t)
        if real is None:
            raise AnalysisBroken("structure osl_%s not found" % t)
        rn = [n for n, _ in real]
        for n in fs:
            if n not in rn:
                raise AnalysisBroken("field osl_%s.%s not found" % (t, n))


def unclassified(M):
    """fields present in the tree but not in the model (new content)"""
    out = []
    for k, v in M.fields.items():
        if k.startswith(S):
            t = k[len(S):]
            if t in FIELDS:
                for n, ty in v:
                    if n not in FIELDS[t]:
                        out.append((t, n, ty))
    return out


def fields(M, t):
    """[(index, name, kind, ctype)] of content fields; unknown new fields get a kind from their C type"""
    out = []
    for i, (n, ty) in enumerate(M.fields[S + t]):
        k = FIELDS[t].get(n)
        if k is None:
            k = "skip"
        out.append((i, n, k, ty))
    return out


def fidx(M, t, f):
    for i, (n, _) in enumerate(M.fields[S + t]):
        if n == f:
            return i
    raise AnalysisBroken(f"field {t}.{f} not found")


def F(M, base, t, f):
    return ("fld", base, S + t, fidx(M, t, f))


def is_ld(t, addr):
    return t[0] == "ld" and t[1] == addr


def strip_ep(t):
    """forget load epochs, so that paths can be compared"""
    if not isinstance(t, tuple):
        return t
    if t and t[0] == "ld":
        return ("ld", strip_ep(t[1]), 0)
    return tuple(strip_ep(x) if isinstance(x, tuple) else x for x in t)


def ptr_type_of(M, t):
    """struct type T* of a term, when syntactically known"""
    if t[0] == "ld" and t[1][0] == "fld":
        return M.fields[t[1][2]][t[1][3]][1]
    return None


def show(M, t, names=None, d=0):
    """human-readable term"""
    if not isinstance(t, tuple):
        return str(t)
    if d > 7:
        return "..."
    k = t[0]
    if k == "arg":
        return (names[t[1]] if names and t[1] < len(names) and names[t[1]] else "arg%d" % t[1])
    if k == "int":
        return str(t[1])
    if k == "null":
        return "NULL"
    if k == "str":
        return repr(t[1])[:40]
    if k == "fn":
        return t[1]
    if k == "glob":
        return t[1]
    if k == "ld":
        a = t[1]
        if a[0] == "fld":
            return show(M, a[1], names, d + 1) + "->" + M.fields[a[2]][a[3]][0] if a[2] in M.fields and 0 <= a[3] < len(M.fields[a[2]]) else "?"
        if a[0] == "idx":
            return show(M, a[1], names, d + 1) + "[" + show(M, a[3], names, d + 1) + "]"
        return "*" + show(M, a, names, d + 1)
    if k == "fld":
        nm = M.fields[t[2]][t[3]][0] if t[2] in M.fields and 0 <= t[3] < len(M.fields[t[2]]) else "?"
        return "&" + show(M, t[1], names, d + 1) + "->" + nm
    if k == "idx":
        return "&" + show(M, t[1], names, d + 1) + "[" + show(M, t[3], names, d + 1) + "]"
    if k == "alloc":
        return "new{" + t[2] + "@" + str(t[1][1]) + "}"
    if k == "alloca":
        return "local@" + str(t[1][1])
    if k in ("ret", "call"):
        return t[1] + "(" + ", ".join(show(M, a, names, d + 1) for a in t[2]) + ")"
    if k == "it":
        return "it%d" % t[2]
    if k == "itp":
        return "it%d(%s)" % (t[2], t[3])
    if k == "itm":
        return "cell(" + show(M, t[2], names, d + 1) + ")"
    if k == "lin":
        return " + ".join(([str(t[1])] if t[1] else []) + [("" if c == 1 else str(c) + "*") + show(M, x, names, d + 1) for x, c in t[2]])
    if k == "lit":
        return show_lit(M, (t[1], t[2]), names)
    if k == "uninit":
        return "uninitialised " + show(M, t[1], names, d + 1)
    if k == "bin":
        return t[1] + "(" + ", ".join(show(M, a, names, d + 1) for a in t[2:]) + ")"
    return str(k) + str([show(M, x, names, d + 1) if isinstance(x, tuple) else x for x in t[1:]])


def show_lit(M, l, names=None):
    a, p = l
    if a[0] == "peq":
        return f"{show(M, a[1], names)} {'==' if p else '!='} {show(M, a[2], names)}"
    if a[0] == "eq0":
        return f"{show(M, a[1], names)} {'==' if p else '!='} 0"
    if a[0] == "le0":
        return f"{show(M, a[1], names)} {'<=' if p else '>'} 0"
    return str(a)[:60] + " " + str(p)


def models(M):
    """contracts of the sized allocation functions (decided by C04): the requested sizes are recorded in the new object"""
    def relation_pmalloc(E, frame, i, s, args):
        E.opaque_call(frame, i, s, "osl_relation_pmalloc", args)
        r = s.env[i.n]
        for f, v in dict(precision=args[0], nb_rows=args[1], nb_columns=args[2], usr=NULL, next=NULL).items():
            s.mem[F(M, r, "relation", f)] = v
        for f in ("type", "nb_output_dims", "nb_input_dims", "nb_local_dims", "nb_parameters"):
            s.mem[F(M, r, "relation", f)] = ("int", -1)
        return [s]

    def vector_pmalloc(E, frame, i, s, args):
        E.opaque_call(frame, i, s, "osl_vector_pmalloc", args)
        r = s.env[i.n]
        for f, v in dict(precision=args[0], size=args[1]).items():
            s.mem[F(M, r, "vector", f)] = v
        return [s]
    return {"osl_relation_pmalloc": relation_pmalloc, "osl_vector_pmalloc": vector_pmalloc}


class Report:
    def __init__(self, M, prop):
        self.M, self.prop = M, prop
        self.violations = []      # dict(file,line,func,rule,msg,key)
        self.instances = []       # analysed obligations: dict
        self.undecided = []
        self.counts = {}

    def bad(self, func, line, rule, msg, key=None):
        Fn = self.M.funcs.get(func)
        file = Fn.file if Fn is not None else func
        k = key or f"{func}:{rule}:{msg}"
        if any(v["key"] == k for v in self.violations):
            return
        self.violations.append(dict(file=file, line=line or (Fn.line if Fn else 0), func=func, rule=rule, msg=msg, key=k))

    def ok(self, func, rule, what):
        self.instances.append((func, rule, what))
        self.counts[rule] = self.counts.get(rule, 0) + 1

    def undec(self, func, rule, what):
        self.undecided.append((func, rule, what))

    def need(self, rule, n):
        c = self.counts.get(rule, 0) + sum(1 for v in self.violations if v["rule"] == rule) + sum(1 for u in self.undecided if u[1] == rule)
        if c < n:
            raise AnalysisBroken(f"rule {rule}: only {c} instances analysed, {n} expected")


def pub(M, name):
    return name in M.public
