import importlib.util, os
sp = importlib.util.spec_from_file_location("s1", os.path.join(os.path.dirname(os.path.abspath(__file__)), "s1.py")); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
H = m.H + '''#define P OSL_PRECISION_DP
/* a relation whose cells hold base, base + 1, ... */
static osl_relation_p rel(int n, int c, int base) { osl_relation_p r = osl_relation_pmalloc(P, n, c); int i, j; for (i = 0; i < n; i++) for (j = 0; j < c; j++) osl_int_set_si(P, &r->m[i][j], base++); return r; }
static long at(osl_relation_p r, int i, int j) { return osl_int_get_si(P, r->m[i][j]); }
'''
SEEDS = [
dict(id="c24-insert-columns-first-only", prop="C24", subs=[("source/relation.c", "                     insert->m[i][j - column]);", "                     insert->m[i][OSL_min(j - column, 0)]);")],
  needs="two or more columns inserted at once", breaks="every inserted column is a copy of the first one",
  demo=H + '''int main(void) { osl_relation_p a = rel(2, 3, 0), b = rel(2, 2, 100); osl_relation_insert_columns(a, b, 1); return at(a, 1, 1) == 102 && at(a, 1, 2) == 103 && at(a, 1, 3) == 4 ? 0 : 1; }
'''),
dict(id="c24-concat-second-offset", prop="C24", subs=[("source/relation.c", "  osl_relation_replace_constraints(new, r2, r1->nb_rows);", "  osl_relation_replace_constraints(new, r2, new->nb_rows - r1->nb_rows);")],
  needs="two relations of which the first has more constraints than the second", breaks="the second relation's constraints overwrite some of the first's and the last rows stay zero",
  demo=H + '''int main(void) { osl_relation_p a = rel(3, 2, 1), b = rel(1, 2, 50), c = osl_relation_concat_constraints(a, b); return at(c, 1, 0) == 3 && at(c, 2, 1) == 6 && at(c, 3, 0) == 50 ? 0 : 1; }
'''),
dict(id="c24-extend-diagonal", prop="C24", subs=[("source/relation.c", "(j - relation->nb_output_dims - 1))", "(j - dim))")],
  needs="a relation extended by other than one output dimension", breaks="the equations of the new dimensions constrain other columns",
  demo=H + '''int main(void) { osl_relation_p a = rel(1, 4, 1), b; osl_relation_set_attributes_one(a, 1, 0, 0, 1); b = osl_relation_extend_output(a, 3);
  return at(b, 1, 2) == -1 && at(b, 2, 3) == -1 && at(b, 1, 3) == 0 && at(b, 2, 4) == 0 ? 0 : 1; }
'''),
dict(id="c24-sub-vector-constant", prop="C24", subs=[("source/relation.c", "  for (i = 1; i < vector->size; i++)\n    osl_int_sub(", "  for (i = 1; i < relation->nb_columns - 1; i++)\n    osl_int_sub(")],
  needs="a subtracted vector with a constant other than zero", breaks="the constant of the row keeps its old value",
  demo=H + '''int main(void) { osl_relation_p a = rel(2, 3, 1); osl_vector_p v = osl_vector_pmalloc(P, 3); osl_int_set_si(P, &v->v[2], 4); osl_relation_sub_vector(a, v, 1); return at(a, 1, 2) == 2 && at(a, 1, 1) == 5 ? 0 : 1; }
'''),
dict(id="c22-insert-constraints-type", prop="C22", subs=[("source/relation.c", "  // Replace the inside of relation.\n  r1->nb_rows = temp->nb_rows;", "  // Replace the inside of relation.\n  if (r1->type == OSL_UNDEFINED)\n    r1->type = r2->type;\n  r1->nb_rows = temp->nb_rows;")],
  needs="constraints of a relation with a kind inserted into a relation without one", breaks="the edited relation changes its kind",
  demo=H + '''int main(void) { osl_relation_p a = rel(2, 3, 1), b = rel(1, 3, 9); osl_relation_set_type(b, OSL_TYPE_READ); osl_relation_insert_constraints(a, b, -1); return a->type == OSL_UNDEFINED && a->nb_rows == 3 ? 0 : 1; }
'''),
dict(id="c22-extend-output-later-parts", prop="C22", subs=[("source/relation.c", "    node->nb_output_dims = OSL_max(relation->nb_output_dims, dim);\n", "    node->nb_output_dims = first ? dim : relation->nb_output_dims;\n")],
  needs="a union of two or more parts extended to more output dimensions", breaks="the later parts still record their former number of output dimensions",
  demo=H + '''int main(void) { osl_relation_p a = rel(1, 4, 1), b; osl_relation_set_attributes_one(a, 1, 0, 0, 1); a->next = osl_relation_clone(a); b = osl_relation_extend_output(a, 2);
  return b->nb_output_dims == 2 && b->next->nb_output_dims == 2 && b->next->nb_columns == 5 ? 0 : 1; }
'''),
dict(id="c22-remove-last-row", prop="C22", subs=[("source/relation.c", '    OSL_error("bad row number");\n', '    OSL_error("bad row number");\n\n  if (r->nb_rows == 1) {\n    osl_relation_free_inside(r);\n    r->m = NULL;\n    r->nb_rows = r->nb_columns = 0;\n    return;\n  }\n')],
  needs="the only row of a relation removed", breaks="the number of columns is lost with it: rows of the former width can no longer be inserted",
  demo=H + '''int main(void) { osl_relation_p a = rel(1, 4, 1); osl_relation_remove_row(a, 0); return a->nb_rows == 0 && a->nb_columns == 4 ? 0 : 1; }
'''),
]
