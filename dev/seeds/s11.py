import importlib.util, os
sp = importlib.util.spec_from_file_location("s1", os.path.join(os.path.dirname(os.path.abspath(__file__)), "s1.py")); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
H = m.H
LEAK = '''#include <malloc.h>
/* 1: memory grows with the number of calls */
static int leaks(void (*f)(void)) { size_t a, b; int i; for (i = 0; i < 20; i++) f(); a = mallinfo2().uordblks; for (i = 0; i < 500; i++) f(); b = mallinfo2().uordblks;
  if (b > a + 1000) printf("%zu bytes lost in 500 calls\\n", b - a); return b > a + 1000; }
'''
ASAN = "-fsanitize=address"
IV = "  temp = osl_relation_from_vector(vector);\n  osl_relation_insert_constraints(relation, temp, row);\n  osl_relation_free(temp);\n"
SEEDS = [
dict(id="c19-normalize-same-size", prop="C19", subs=[("source/scop.c", "        osl_relation_free(statement->scattering);\n        statement->scattering = extended;\n",
  "        if (extended->nb_columns != statement->scattering->nb_columns)\n          osl_relation_free(statement->scattering);\n        statement->scattering = extended;\n")],
  needs="a scop one of whose scatterings already has the largest number of dimensions", breaks="the scattering that is replaced by its extension is not released",
  demo=H + LEAK + '''static void f(void) { osl_scop_p s = osl_scop_malloc(); osl_statement_p t = osl_statement_malloc(); osl_relation_p r = osl_relation_pmalloc(OSL_PRECISION_DP, 3, 6);
  osl_relation_set_attributes_one(r, 3, 1, 0, 0); r->type = OSL_TYPE_SCATTERING; t->scattering = r; s->statement = t; osl_scop_normalize_scattering(s);
  if (s->statement->scattering->nb_output_dims != 3) exit(3); osl_scop_free(s); }
int main(void) { return leaks(f); }
'''),
dict(id="c19-unknown-extension", prop="C19", subs=[("source/generic.c", "    fprintf(stderr, \"[osl] Warning: unknown URI \\\"%s\\\".\\n\", tag);\n  } else {\n    generic = osl_generic_malloc();\n    generic->interface = osl_interface_nclone(interface, 1);\n    generic->data = interface->sread(&temp);\n  }\n\n  free(content);\n  free(tag);\n  return generic;\n}\n\n/**\n * osl_generic_read_one function:",
  "    fprintf(stderr, \"[osl] Warning: unknown URI \\\"%s\\\".\\n\", tag);\n    free(tag);\n    return NULL;\n  } else {\n    generic = osl_generic_malloc();\n    generic->interface = osl_interface_nclone(interface, 1);\n    generic->data = interface->sread(&temp);\n  }\n\n  free(content);\n  free(tag);\n  return generic;\n}\n\n/**\n * osl_generic_read_one function:")],
  needs="an extension the registry does not know", breaks="its text is not released",
  demo=H + LEAK + '''static osl_interface_p r;
static void f(void) { char t[] = "<nosuch>\\nsome text\\n</nosuch>\\n"; char* p = t; if (osl_generic_sread_one(&p, r) != NULL) exit(3); }
int main(void) { r = osl_interface_get_default_registry(); return leaks(f); }
'''),
dict(id="c19-symbols-undefined", prop="C19", subs=[("source/extensions/symbols.c", "        OSL_error(\"symbol type not supported\");\n      free(type);\n", "        OSL_error(\"symbol type not supported\");\n      if (symbols->type != OSL_UNDEFINED)\n        free(type);\n")],
  needs="a symbol of undefined type", breaks="the text of its type is not released when it is read",
  demo=H + LEAK + '''static char* text;
static void f(void) { char* p = text; osl_symbols_p s = osl_symbols_sread(&p); if (s == NULL || s->type != OSL_UNDEFINED) exit(3); osl_symbols_free(s); }
int main(void) { osl_symbols_p s = osl_symbols_malloc(); osl_strings_p n = osl_strings_encapsulate(strdup("x")); s->identifier = osl_generic_shell(n, osl_strings_interface());
  s->type = OSL_UNDEFINED; s->nb_dims = 0; text = osl_symbols_sprint(s); return leaks(f); }
'''),
dict(id="c19-concat-vector-twice", prop="C19", subs=[("source/relation.c", "  new = osl_relation_concat_constraints(relation, temp);\n  osl_relation_free(temp);\n  return new;\n",
  "  new = osl_relation_concat_constraints(relation, temp);\n  osl_relation_free(temp);\n  if (new->nb_rows == temp->nb_rows)\n    OSL_debug(\"nothing to concatenate with\");\n  return new;\n")],
  needs="any concatenation of a relation and a vector, under a memory checker or an allocator that reuses the block at once", breaks="the temporary relation is read after its release", flags=ASAN,
  demo=H + '''int main(void) { osl_relation_p r = osl_relation_pmalloc(OSL_PRECISION_DP, 2, 4); osl_vector_p v = osl_vector_pmalloc(OSL_PRECISION_DP, 4); osl_relation_p n;
  osl_int_set_si(OSL_PRECISION_DP, &v->v[2], 5); n = osl_relation_concat_vector(r, v); return n->nb_rows == 3 && osl_int_get_si(OSL_PRECISION_DP, n->m[2][2]) == 5 ? 0 : 1; }
'''),
dict(id="c19-body-stale-text", prop="C19", subs=[("source/body.c", "    expression = osl_strings_sprint(body->expression);\n    osl_util_safe_strcat(&string, expression, &high_water_mark);\n    free(expression);\n  } else {",
  "    char* start = string;\n    expression = osl_strings_sprint(body->expression);\n    osl_util_safe_strcat(&string, expression, &high_water_mark);\n    if (start[0] == '\\0')\n      OSL_debug(\"empty body\");\n    free(expression);\n  } else {")],
  needs="a statement body whose text outgrows the first buffer", breaks="the text is read through a pointer to the block that growing it has released", flags=ASAN,
  demo=H + '''int main(void) { int i; osl_body_p b = osl_body_malloc(); char* t; b->iterators = osl_strings_malloc(); b->expression = osl_strings_malloc(); for (i = 0; i < 300; i++) osl_strings_add(b->expression, "aaaaaaaaa");
  t = osl_body_sprint(b); return strstr(t, "aaaa") != NULL ? 0 : 1; }
'''),
dict(id="c19-insert-null", prop="C19", subs=[("source/relation.c", IV, IV.replace("  osl_relation_insert", "  if (relation == NULL)\n    return;\n  osl_relation_insert"))],
  needs="a vector inserted in no relation", breaks="the temporary relation is not released on that path",
  demo=H + LEAK + '''static osl_vector_p v;
static void f(void) { osl_relation_insert_vector(NULL, v, -1); }
int main(void) { v = osl_vector_pmalloc(OSL_PRECISION_DP, 4); return leaks(f); }
'''),
dict(id="c19-access-list-shell", prop="C19", subs=[("source/relation_list.c", "  osl_relation_list_p top = osl_relation_list_pop(head);\n  osl_relation_list_free(top);\n", "  osl_relation_list_p top = osl_relation_list_pop(head);\n\n  if (top != NULL && top->elt != NULL)\n    osl_relation_list_free(top);\n")],
  needs="a stack whose top has no relation", breaks="the node that is taken off the stack is not released",
  demo=H + LEAK + '''static void f(void) { osl_relation_list_p l = osl_relation_list_malloc(); osl_relation_list_drop(&l); if (l != NULL) exit(3); }
int main(void) { return leaks(f); }
'''),
]
