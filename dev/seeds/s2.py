import importlib.util, os
sp = importlib.util.spec_from_file_location("s1", os.path.join(os.path.dirname(os.path.abspath(__file__)), "s1.py")); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
H, W, WF = m.H, m.W, m.WF
SEEDS = [
dict(id="c17-interface-add-checks-first-only", prop="C17", subs=[("source/interface.c", "      check_interface = check_interface->next;\n    }\n\n    if (*list != NULL) {", "      if ((check_interface = check_interface->next) == interface->next)\n        break;\n    }\n\n    if (*list != NULL) {")],
  needs="adding a list of two or more descriptors whose second one has an identifier already registered", breaks="the duplicate descriptor is accepted",
  demo=H + '''#include <unistd.h>
#include <sys/wait.h>
int main(void) { osl_interface_p l = NULL, a = NULL; int st; pid_t k = fork(); if (k) { waitpid(k, &st, 0); return WEXITSTATUS(st) == 77; }
  osl_interface_add(&l, osl_comment_interface()); osl_interface_add(&l, osl_body_interface());
  a = osl_scatnames_interface(); a->next = osl_body_interface(); osl_interface_add(&l, a);   /* must stop here with an error */
  { int n = 0; osl_interface_p i; for (i = l; i; i = i->next) if (!strcmp(i->URI, OSL_URI_BODY)) n++; puts("not refused"); fflush(stdout); _exit(n > 1 ? 77 : 0); } }
'''),
dict(id="c17-generic-remove-node-last", prop="C17", subs=[("source/generic.c", "      while (tmp->next != generic && tmp->next != NULL)\n        tmp = tmp->next;\n\n      if (tmp->next == generic) {\n        tmp->next = generic->next;", "      while (tmp->next != generic && tmp->next != NULL)\n        tmp = tmp->next;\n\n      if (tmp->next == generic) {\n        tmp->next = tmp == *list ? generic->next : NULL;")],
  needs="removing a generic that is neither among the first two of its list nor the last", breaks="the generics after the removed one are lost",
  demo=H + '''static osl_generic_p g(int k) { osl_comment_p c; osl_arrays_p a; osl_scatnames_p s; osl_body_p b;
  switch (k) { case 0: c = osl_comment_malloc(); c->comment = strdup("x"); return osl_generic_shell(c, osl_comment_interface());
   case 1: a = osl_arrays_malloc(); return osl_generic_shell(a, osl_arrays_interface());
   case 2: s = osl_scatnames_malloc(); return osl_generic_shell(s, osl_scatnames_interface());
   default: b = osl_body_malloc(); return osl_generic_shell(b, osl_body_interface()); } }
int main(void) { osl_generic_p l = NULL; int i; for (i = 0; i < 4; i++) osl_generic_add(&l, g(i));
  osl_generic_remove(&l, OSL_URI_SCATNAMES);
  return osl_generic_number(l) == 3 && osl_generic_lookup(l, OSL_URI_BODY) && !osl_generic_lookup(l, OSL_URI_SCATNAMES) ? 0 : 1; }
'''),
dict(id="c18-relation-list-filter-gap", prop="C18", subs=[("source/relation_list.c", "      if (!first)\n        previous->next = copy->next;\n      copy = copy->next;\n      trash->next = NULL;", "      if (!first)\n        previous->next = copy->next;\n      copy = copy->next;\n      if (copy != NULL && copy->elt == NULL && !first)\n        copy = copy->next;\n      trash->next = NULL;")],
  needs="a list with an empty node after a rejected relation, after at least one kept one", breaks="the empty node stays in the filtered list",
  demo=H + '''static osl_relation_list_p n(int t) { osl_relation_list_p l = osl_relation_list_malloc(); if (t) { l->elt = osl_relation_malloc(1, 3); osl_relation_set_type(l->elt, t); } return l; }
int main(void) { osl_relation_list_p l = NULL, f; int c = 0; osl_relation_list_add(&l, n(OSL_TYPE_READ)); osl_relation_list_add(&l, n(OSL_TYPE_WRITE)); osl_relation_list_add(&l, n(0)); osl_relation_list_add(&l, n(OSL_TYPE_READ));
  f = osl_relation_list_filter(l, OSL_TYPE_READ); for (; f; f = f->next) { if (!f->elt || f->elt->type != OSL_TYPE_READ) return 1; c++; } return c == 2 ? 0 : 1; }
'''),
dict(id="c18-dependence-add-tail", prop="C18", subs=[("source/extensions/dependence.c", "    } else {\n      (*now)->next = dependence;\n      *now = (*now)->next;\n    }\n\n    while ((*now)->next != NULL)\n      *now = (*now)->next;", "    } else {\n      (*now)->next = dependence;\n      *now = (*now)->next;\n    }\n\n    if ((*now)->next != NULL)\n      *now = (*now)->next;")],
  needs="adding a list of three or more dependences and then another one", breaks="the third and later dependences of the first added list are lost",
  demo=H + '''int main(void) { osl_dependence_p s = NULL, now = NULL, a = osl_dependence_malloc(); a->next = osl_dependence_malloc(); a->next->next = osl_dependence_malloc();
  osl_dependence_add(&s, &now, a); osl_dependence_add(&s, &now, osl_dependence_malloc()); return osl_nb_dependences(s) == 4 ? 0 : 1; }
'''),
dict(id="c18-strings-add-long", prop="C18", subs=[("source/strings.c", "  strcpy(strings->string[original_size], string);", "  strcpy(strings->string[original_size], string);\n  if (original_size > 1 && strcmp(strings->string[0], string) == 0)\n    strings->string[0] = strings->string[original_size - 1];")],
  needs="adding to a list of two or more strings one equal to the first", breaks="the first string is replaced by another one",
  demo=H + '''int main(void) { osl_strings_p s = osl_strings_malloc(); osl_strings_add(s, "a"); osl_strings_add(s, "b"); osl_strings_add(s, "a"); return osl_strings_size(s) == 3 && !strcmp(s->string[0], "a") && !strcmp(s->string[1], "b") ? 0 : 1; }
'''),
dict(id="c11-extbody-interface-equal", prop="C11", subs=[("source/extensions/extbody.c", "  interface->equal = (osl_equal_f)osl_extbody_equal;", "  interface->equal = (osl_equal_f)osl_body_equal;")],
  needs="comparing two extended bodies through their descriptor", breaks="the extended body is compared as a plain body (its access marks are ignored)",
  demo=H + '''int main(void) { osl_interface_p i = osl_extbody_interface(); osl_extbody_p a = osl_extbody_malloc(), b = osl_extbody_malloc(); a->body = osl_body_malloc(); b->body = osl_body_clone(a->body);
  osl_extbody_add(a, 1, 2); osl_extbody_add(b, 1, 3); return i->equal == (osl_equal_f)osl_extbody_equal && !i->equal(a, b) ? 0 : 1; }
'''),
dict(id="c11-registry-loses-clay", prop="C11", subs=[("source/interface.c", "  osl_interface_add(&registry, osl_clay_interface());\n", "  if (osl_interface_lookup(registry, OSL_URI_ARRAYS) == NULL)\n    osl_interface_add(&registry, osl_clay_interface());\n")],
  needs="using the default registry for a clay extension (no sample has one)", breaks="the clay extension type is unknown to the default registry",
  demo=H + '''int main(void) { osl_interface_p r = osl_interface_get_default_registry(); return osl_interface_lookup(r, OSL_URI_CLAY) && osl_interface_lookup(r, OSL_URI_ARRAYS) && osl_interface_lookup(r, OSL_URI_COMMENT) ? 0 : 1; }
'''),
dict(id="c04-scatinfos-nb", prop="C04", subs=[("source/extensions/scatinfos.c", "  scatinfos->nb_scatdims = 0;\n", "")],
  needs="heap memory that is not zero", breaks="the number of dimensions of a new scatinfos is whatever was in memory", flags=WF,
  demo=H + W + '''int main(void) { osl_scatinfos_p s = osl_scatinfos_malloc(); return s->nb_scatdims == 0 && !s->parallel && !s->permutable && !s->type ? 0 : 1; }
'''),
dict(id="c04-relation-malloc-last-row", prop="C04", subs=[("source/relation.c", "      for (j = 0; j < nb_columns; j++)\n        osl_int_init_set_si(precision, &relation->m[i][j], 0);", "      for (j = 0; j < nb_columns; j++)\n        if (i == 0 || precision != OSL_PRECISION_SP)\n          osl_int_init_set_si(precision, &relation->m[i][j], 0);")],
  needs="a relation of two or more rows in 32-bit precision", breaks="the cells of its later rows are uninitialised", flags=WF,
  demo=H + W + '''int main(void) { osl_relation_p r = osl_relation_pmalloc(OSL_PRECISION_SP, 3, 4); int i, j; for (i = 0; i < 3; i++) for (j = 0; j < 4; j++) if (!osl_int_zero(OSL_PRECISION_SP, r->m[i][j])) return 1; return 0; }
'''),
dict(id="c08-clay-sprint-trim", prop="C08", subs=[("source/extensions/clay.c", "    // Print the clay.\n", "    // Print the clay (without blanks at the end).\n    while (clay->script[0] != '\\0' && clay->script[strlen(clay->script) - 1] == ' ')\n      clay->script[strlen(clay->script) - 1] = '\\0';\n")],
  needs="a clay script ending with blanks, printed and then inspected again", breaks="printing cuts the script",
  demo=H + '''int main(void) { osl_clay_p c = osl_clay_malloc(); char* s; c->script = strdup("fission([1],1);  "); s = osl_clay_sprint(c); free(s); return !strcmp(c->script, "fission([1],1);  ") ? 0 : 1; }
'''),
dict(id="c08-generic-clone-unlinks", prop="C08", subs=[("source/generic.c", "  while ((generic != NULL) && (n > 0)) {\n    if (generic->interface != NULL) {\n      x =", "  while ((generic != NULL) && (n > 0)) {\n    if (generic->interface != NULL) {\n      if (generic->interface->next != NULL && generic->data == NULL)\n        ((osl_generic_p)generic)->interface->next = NULL;\n      x =")],
  needs="cloning a generic without data whose descriptor is part of a descriptor list", breaks="the descriptor list of the original is cut",
  demo=H + '''int main(void) { osl_interface_p r = osl_interface_get_default_registry(); osl_generic_p g = osl_generic_malloc(); g->interface = r; osl_generic_clone(g); return r->next ? 0 : 1; }
'''),
dict(id="c08-statement-pprint-keeps-iterators", prop="C08", subs=[("source/statement.c", "    // If necessary, switch back iterator names.\n    if (iterators_backedup) {\n      iterators_backedup = 0;\n      names->iterators = iterators_backup;\n    }\n\n    statement = statement->next;\n    number++;\n  }\n\n  osl_names_free(names);\n}\n\n/**\n * osl_statement_pprint_scoplib", "    // If necessary, switch back iterator names.\n    if (iterators_backedup && (iterators_backup != NULL)) {\n      iterators_backedup = 0;\n      names->iterators = iterators_backup;\n    }\n\n    statement = statement->next;\n    number++;\n  }\n\n  osl_names_free(names);\n}\n\n/**\n * osl_statement_pprint_scoplib")],
  needs="printing a statement with a body, with name tables that have no iterators", breaks="the iterators of the printed body are freed", flags="-fsanitize=address",
  demo=H + '''int main(void) { osl_statement_p s = osl_statement_malloc(); osl_body_p b = osl_body_malloc(); osl_names_p n = osl_names_malloc(); osl_strings_p k; b->iterators = osl_strings_malloc(); osl_strings_add(b->iterators, "i");
  b->expression = osl_strings_malloc(); osl_strings_add(b->expression, "x");
  osl_generic_add(&s->extension, osl_generic_shell(b, osl_body_interface())); osl_statement_pprint(stdout, s, n); fflush(stdout); k = b->iterators;
  return osl_strings_size(k) == 1 && !strcmp(k->string[0], "i") ? 0 : 1; }
'''),
]
