import importlib.util, os
sp = importlib.util.spec_from_file_location("s1", os.path.join(os.path.dirname(os.path.abspath(__file__)), "s1.py")); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
H, W, WF = m.H, m.W, m.WF
F = '''
#include <unistd.h>
#include <sys/wait.h>
static int armed, left, refused; static void arm(void) { armed = 1; }
void* __real_malloc(size_t); void* __real_realloc(void*, size_t);
static int no(void) { if (armed && left-- == 0) { refused = 1; return 1; } return 0; }
void* __wrap_malloc(size_t n) { return no() ? NULL : __real_malloc(n); }
void* __wrap_realloc(void* q, size_t n) { return no() ? NULL : __real_realloc(q, n); }
char* __wrap_strdup(const char* s) { char* p = __wrap_malloc(strlen(s) + 1); return p ? strcpy(p, s) : NULL; }
/* refuses the k-th request, for every k: the operation must stop with an error */
static int faults(void (*op)(void)) { for (int k = 0; k < 200; k++) { pid_t p = fork(); int st; if (p == 0) { freopen("/dev/null", "w", stderr); left = k; op(); _exit(refused ? 3 : 4); }
  waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st) == 3) return 1; if (WEXITSTATUS(st) == 4) return 0; } return 2; }
'''
WR = "-fno-builtin -Wl,--wrap=malloc,--wrap=realloc,--wrap=strdup"
DEP = '''static int back(int k) { osl_dependence_p d = osl_dependence_malloc(), e; char *s, *p; d->type = k; d->domain = osl_relation_malloc(0, 2);
  osl_relation_set_type(d->domain, OSL_TYPE_DOMAIN); osl_relation_set_attributes(d->domain, 0, 0, 0, 0); d->label_source = d->label_target = d->depth = d->ref_source = d->ref_target = 1;
  p = s = osl_dependence_sprint(d); e = osl_dependence_sread(&p); return e ? e->type : -2; }
'''
SEEDS = [
dict(id="c12-dependence-raw-prefix", prop="C12", subs=[("source/extensions/dependence.c", "if (!strcmp(buffer, \"RAW\"))", "if (!strncmp(buffer, \"RAW\", 3))")],
  needs="a scalar-privatisation dependence printed and read back", breaks="RAW_SCALPRIV is recognised as plain RAW",
  demo=H + DEP + '''int main(void) { return back(OSL_DEPENDENCE_RAW_SCALPRIV) == OSL_DEPENDENCE_RAW_SCALPRIV && back(OSL_DEPENDENCE_RAW) == OSL_DEPENDENCE_RAW ? 0 : 1; }
'''),
dict(id="c12-relation-may-write-printed-write", prop="C12", subs=[("source/relation.c", "snprintf(string, OSL_MAX_STRING, OSL_STRING_MAY_WRITE);", "snprintf(string, OSL_MAX_STRING, \"%s\", &OSL_STRING_MAY_WRITE[4]);")],
  needs="a may-write access printed and read back", breaks="the keyword printed for may-write is that of write",
  demo=H + '''int main(void) { osl_relation_p r = osl_relation_malloc(1, 4), q; char *s, *p; osl_relation_set_type(r, OSL_TYPE_MAY_WRITE); osl_relation_set_attributes(r, 1, 1, 0, 0);
  osl_int_set_si(r->precision, &r->m[0][1], -1); osl_int_set_si(r->precision, &r->m[0][3], 1);
  p = s = osl_relation_sprint(r); q = osl_relation_psread(&p, osl_util_get_precision()); return q->type == OSL_TYPE_MAY_WRITE ? 0 : 1; }
'''),
dict(id="c12-symbols-function-keyword", prop="C12", subs=[("source/extensions/symbols.c", "      else if (strcmp(type, \"Function\") == 0)\n        symbols->type = OSL_SYMBOL_TYPE_FUNCTION;\n", "      else if (strncmp(type, \"Function\", sizeof(\"Function\") + 1) > 0)\n        symbols->type = OSL_SYMBOL_TYPE_FUNCTION;\n")],
  needs="a function symbol printed and read back", breaks="the keyword is never recognised, the symbol becomes undefined",
  demo=H + '''static osl_generic_p g(const char* s) { osl_generic_p x = osl_generic_malloc(); osl_strings_p t = osl_strings_malloc(); osl_strings_add(t, s); x->data = t; x->interface = osl_strings_interface(); return x; }
int main(void) { osl_symbols_p a = osl_symbols_malloc(), b; char *s, *p; a->type = OSL_SYMBOL_TYPE_FUNCTION; a->generated = 0; a->nb_dims = 0; a->identifier = g("f"); a->datatype = g("int"); a->scope = g("s"); a->extent = g("e");
  p = s = osl_symbols_sprint(a); b = osl_symbols_sread(&p); return b && b->type == OSL_SYMBOL_TYPE_FUNCTION ? 0 : 1; }
'''),
dict(id="c20-statement-scattering-needs-domain", prop="C20", subs=[("source/statement.c", "    if (!osl_relation_integrity_check(\n            statement->scattering,", "    if (expected_nb_iterators != OSL_UNDEFINED && !osl_relation_integrity_check(\n            statement->scattering,")],
  needs="a statement without domain whose scattering is not a scattering", breaks="its scattering is not checked at all",
  demo=H + '''int main(void) { osl_statement_p s = osl_statement_malloc(); s->scattering = osl_relation_malloc(0, 2); osl_relation_set_type(s->scattering, OSL_TYPE_DOMAIN); osl_relation_set_attributes(s->scattering, 0, 0, 0, 0);
  if (osl_statement_integrity_check(s, 0)) return 1; osl_relation_set_type(s->scattering, OSL_TYPE_SCATTERING); return osl_statement_integrity_check(s, 0) ? 0 : 2; }
'''),
dict(id="c20-scop-stops-at-empty", prop="C20", subs=[("source/scop.c", "    if (!osl_statement_integrity_check(scop->statement, expected_nb_parameters))\n      return 0;\n\n    scop = scop->next;", "    if (scop->statement == NULL)\n      return 1;\n    if (!osl_statement_integrity_check(scop->statement, expected_nb_parameters))\n      return 0;\n\n    scop = scop->next;")],
  needs="a list of scops, one without statements before an ill-formed one", breaks="the scops behind one without statements are not checked",
  demo=H + '''int main(void) { osl_scop_p a = osl_scop_malloc(), b = osl_scop_malloc(); a->next = b; b->context = osl_relation_malloc(0, 2); osl_relation_set_type(b->context, OSL_TYPE_DOMAIN);
  osl_relation_set_attributes(b->context, 0, 0, 0, 0); if (osl_scop_integrity_check(a)) return 1; osl_relation_set_type(b->context, OSL_TYPE_CONTEXT); return osl_scop_integrity_check(a) ? 0 : 2; }
'''),
dict(id="c20-relation-marker-last-row", prop="C20", subs=[("source/relation.c", "    if ((relation->nb_rows > 0) && (relation->nb_columns > 0)) {\n      for (i = 0; i < relation->nb_rows; i++) {\n        if (!osl_int_zero", "    if ((relation->nb_rows > 0) && (relation->nb_columns > 0)) {\n      for (i = 0; i < relation->nb_rows - (relation->next != NULL); i++) {\n        if (!osl_int_zero")],
  needs="a union whose non-last part has a bad marker in its last row", breaks="the last row of every part but the last is not checked",
  demo=H + '''int main(void) { osl_relation_p a = osl_relation_malloc(1, 3), b = osl_relation_malloc(1, 3); osl_relation_set_type(a, OSL_TYPE_DOMAIN); osl_relation_set_attributes(a, 1, 0, 0, 0); a->next = b;
  osl_relation_set_type(b, OSL_TYPE_DOMAIN); osl_relation_set_attributes_one(b, 1, 0, 0, 0);
  if (!osl_relation_integrity_check(a, OSL_TYPE_DOMAIN, 1, 0, 0)) return 2;
  osl_int_set_si(a->precision, &a->m[0][0], 2); return osl_relation_integrity_check(a, OSL_TYPE_DOMAIN, 1, 0, 0) ? 1 : 0; }
'''),
dict(id="c10-arrays-add-refused", prop="C10", subs=[("source/extensions/arrays.c", "  OSL_realloc(arrays->names, char**,\n              (size_t)(arrays->nb_names + 1) * sizeof(char*));\n  arrays->id[arrays->nb_names] = id;", "  char** names = realloc(arrays->names, (size_t)(arrays->nb_names + 1) * sizeof(char*));\n  if (names == NULL)\n    return arrays->nb_names;\n  arrays->names = names;\n  arrays->id[arrays->nb_names] = id;")],
  needs="the growth of the name table refused", breaks="the entry is silently dropped", flags=WR,
  demo=H + F + """static void op(void) { osl_arrays_p a = osl_arrays_malloc(); osl_arrays_add(a, 1, "x"); arm(); osl_arrays_add(a, 2, "y"); }
int main(void) { return faults(op); }
"""),
dict(id="c10-irregular-add-exit-last", prop="C10", subs=[("source/extensions/irregular.c", "  // copy statements\n  result->nb_predicates = (int*)malloc(sizeof(int) * irregular->nb_statements);\n  result->predicates = (int**)malloc(sizeof(int*) * irregular->nb_statements);\n  if (result->nb_predicates == NULL || result->predicates == NULL) {\n    fprintf(stderr, \"[OpenScop] Error: memory overflow.\\n\");\n    exit(1);\n  }\n  for (i = 0; i < irregular->nb_statements; i++) {\n    result->predicates[i] =\n        (int*)malloc(sizeof(int) * irregular->nb_predicates[i]);\n    if (result->predicates[i] == NULL) {\n      fprintf(stderr, \"[OpenScop] Error: memory overflow.\\n\");\n      exit(1);\n    }\n    result->nb_predicates[i] = irregular->nb_predicates[i];\n    for (j = 0; j < irregular->nb_predicates[i]; j++)\n      result->predicates[i][j] = irregular->predicates[i][j];\n  }\n  return result;\n}\n\nosl_irregular_p osl_irregular_add_predicates(", "  // copy statements\n  result->nb_predicates = (int*)malloc(sizeof(int) * irregular->nb_statements);\n  result->predicates = (int**)malloc(sizeof(int*) * irregular->nb_statements);\n  if (result->nb_predicates == NULL && result->predicates == NULL) {\n    fprintf(stderr, \"[OpenScop] Error: memory overflow.\\n\");\n    exit(1);\n  }\n  for (i = 0; i < irregular->nb_statements; i++) {\n    result->predicates[i] =\n        (int*)malloc(sizeof(int) * irregular->nb_predicates[i]);\n    if (result->predicates[i] == NULL) {\n      fprintf(stderr, \"[OpenScop] Error: memory overflow.\\n\");\n      exit(1);\n    }\n    result->nb_predicates[i] = irregular->nb_predicates[i];\n    for (j = 0; j < irregular->nb_predicates[i]; j++)\n      result->predicates[i][j] = irregular->predicates[i][j];\n  }\n  return result;\n}\n\nosl_irregular_p osl_irregular_add_predicates(")],
  needs="one of the two statement tables refused while adding an exit predicate", breaks="the missing table is written through", flags=WR,
  demo=H + F + """static void op(void) { char* its[] = {"i"}; int ps[] = {0}; osl_irregular_p a = osl_irregular_malloc(), b = osl_irregular_add_control(a, its, 1, "b"); b = osl_irregular_add_predicates(b, ps, 1); arm(); osl_irregular_add_exit(b, its, 1, "c"); }
int main(void) { return faults(op); }
"""),
]
