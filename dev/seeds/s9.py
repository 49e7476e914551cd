import importlib.util, os
sp = importlib.util.spec_from_file_location("s1", os.path.join(os.path.dirname(os.path.abspath(__file__)), "s1.py")); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
H = m.H
FORK = '''#include <sys/wait.h>
#include <unistd.h>
/* 1: the call ended the program with an error, 0: it returned, 2: it crashed */
static int refused(void (*f)(void)) { int st; pid_t p = fork(); if (p == 0) { f(); _exit(77); } waitpid(p, &st, 0); return !WIFEXITED(st) ? 2 : WEXITSTATUS(st) == 77 ? 0 : 1; }
'''
SEEDS = [
dict(id="c07-array-id-precision", prop="C07", subs=[("source/relation.c", "  while (relation != NULL) {\n    precision = relation->precision;\n\n    // There should be room", "  precision = relation->precision;\n  while (relation != NULL) {\n    // There should be room")],
  needs="an access union whose parts have different precisions, one of them multi-precision", breaks="the cells of the later parts are read with the first part's precision",
  demo=H + '''static osl_relation_p acc(int p) { osl_relation_p r = osl_relation_pmalloc(p, 1, 3); r->type = OSL_TYPE_READ; osl_relation_set_attributes_one(r, 1, 0, 0, 0);
  osl_int_set_si(p, &r->m[0][1], -1); osl_int_set_si(p, &r->m[0][2], 7); return r; }
int main(void) { osl_relation_p a = acc(OSL_PRECISION_DP); a->next = acc(OSL_PRECISION_MP); return osl_relation_get_array_id(a) == 7 ? 0 : 1; }
'''),
dict(id="c07-vector-mul-default", prop="C07", subs=[("source/vector.c", "  osl_vector_p result = osl_vector_pmalloc(v->precision, v->size);", "  osl_vector_p result = osl_vector_malloc(v->size);")],
  needs="a vector whose precision is not the default one", breaks="the entries of the product are stored with another precision than the one the product records",
  demo=H + '''int main(void) { osl_vector_p v = osl_vector_pmalloc(OSL_PRECISION_SP, 2), r; osl_int_set_si(OSL_PRECISION_SP, &v->v[1], 21); r = osl_vector_mul_scalar(v, 2);
  return r->precision == OSL_PRECISION_SP && osl_int_get_si(r->precision, r->v[1]) == 42 ? 0 : 1; }
'''),
dict(id="c07-concat-mixed", prop="C07", subs=[("source/relation.c", "  osl_relation_replace_constraints(new, r2, r1->nb_rows);\n", "  int i, j;\n\n  for (i = 0; i < r2->nb_rows; i++)\n    for (j = 0; j < r2->nb_columns; j++)\n      osl_int_assign(r2->precision, &new->m[r1->nb_rows + i][j], r2->m[i][j]);\n")],
  needs="two relations of equal shape and different precisions", breaks="they are concatenated without an error, the cells of one are in another precision than the result records",
  demo=H + FORK + '''static void f(void) { osl_relation_p a = osl_relation_pmalloc(OSL_PRECISION_SP, 1, 3), b = osl_relation_pmalloc(OSL_PRECISION_DP, 1, 3); osl_relation_concat_constraints(a, b); }
static void g(void) { osl_relation_p a = osl_relation_pmalloc(OSL_PRECISION_DP, 1, 3), b = osl_relation_pmalloc(OSL_PRECISION_DP, 1, 3); osl_relation_concat_constraints(a, b); }
int main(void) { return refused(f) == 1 && refused(g) == 0 ? 0 : 1; }
'''),
dict(id="c09-insert-row-clamped", prop="C09", subs=[("source/relation.c", "    osl_relation_insert_vector(relation, vector, row);\n    osl_vector_free(vector);", "    osl_relation_insert_vector(relation, vector,\n                               row <= relation->nb_rows ? row : -1);\n    osl_vector_free(vector);")],
  needs="a blank row inserted behind the end", breaks="a position outside the relation is accepted",
  demo=H + FORK + '''static void f(void) { osl_relation_insert_blank_row(osl_relation_pmalloc(OSL_PRECISION_DP, 2, 3), 5); }
static void g(void) { osl_relation_insert_blank_row(osl_relation_pmalloc(OSL_PRECISION_DP, 2, 3), 2); }
int main(void) { return refused(f) == 1 && refused(g) == 0 ? 0 : 1; }
'''),
dict(id="c09-replace-wider", prop="C09", subs=[("source/relation.c", "      (relation->nb_columns != vector->size) || (row >= relation->nb_rows) ||\n      (row < 0))\n    OSL_error(\"vector cannot replace relation row\");", "      (relation->nb_columns < vector->size) || (row >= relation->nb_rows) ||\n      (row < 0))\n    OSL_error(\"vector cannot replace relation row\");")],
  needs="a vector shorter than the row it replaces", breaks="operands of different shape are combined: the row is replaced in part",
  demo=H + FORK + '''static void f(void) { osl_relation_replace_vector(osl_relation_pmalloc(OSL_PRECISION_DP, 2, 4), osl_vector_pmalloc(OSL_PRECISION_DP, 3), 1); }
static void g(void) { osl_relation_replace_vector(osl_relation_pmalloc(OSL_PRECISION_DP, 2, 4), osl_vector_pmalloc(OSL_PRECISION_DP, 4), 1); }
int main(void) { return refused(f) == 1 && refused(g) == 0 ? 0 : 1; }
'''),
dict(id="c09-add-checked-late", prop="C09", subs=[("source/relation.c", "  if ((relation == NULL) || (vector == NULL) ||\n      (relation->precision != vector->precision) ||\n      (relation->nb_columns != vector->size) || (row >= relation->nb_rows) ||\n      (row < 0))\n    OSL_error(\"vector cannot be added to relation\");", "  if ((relation == NULL) || (vector == NULL) ||\n      (relation->precision != vector->precision) || (vector->size < 0) ||\n      (relation->nb_columns == 0) || (row >= relation->nb_rows) || (row < 0))\n    OSL_error(\"vector cannot be added to relation\");"),
     ("source/relation.c", "  for (i = 1; i < vector->size; i++)\n    osl_int_add(", "  if (relation->nb_columns != vector->size)\n    OSL_error(\"vector cannot be added to relation\");\n\n  for (i = 1; i < vector->size; i++)\n    osl_int_add(")],
  needs="an inequality vector of the wrong size added to an equality row, seen by a handler that runs at exit", breaks="the row is already marked as an inequality when the error is raised",
  demo=H + '''#include <unistd.h>
static osl_relation_p r; static void late(void) { _exit(osl_int_zero(r->precision, r->m[0][0]) ? 0 : 1); }
int main(void) { osl_vector_p v = osl_vector_pmalloc(OSL_PRECISION_DP, 2); r = osl_relation_pmalloc(OSL_PRECISION_DP, 1, 3); osl_vector_tag_inequality(v); atexit(late); osl_relation_add_vector(r, v, 0); _exit(3); }
'''),
]
