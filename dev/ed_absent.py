EDITS = []
ALL = ["C21"]
def ok(name, file, *subs, props=ALL): EDITS.append(dict(name=name, file="source/" + file, subs=list(subs), kind="ok", props=props))
def bug(name, file, *subs, props=ALL): EDITS.append(dict(name=name, file="source/" + file, subs=list(subs), kind="bug", props=props))
bug("a-body-free", "body.c", ("void osl_body_free(osl_body_t* body) {\n  if (body != NULL) {", "void osl_body_free(osl_body_t* body) {\n  if (body->expression != NULL || body->iterators != NULL || body != NULL) {"))
bug("a-loop-do", "extensions/loop.c", ("  while (loop != NULL) {\n    // Go to the right level.\n    if (!first) {", "  do {\n    // Go to the right level.\n    if (!first) {"),
    ("      fprintf(file, \"V\\n\");\n    }\n  }\n", "      fprintf(file, \"V\\n\");\n    }\n  } while (loop != NULL);\n"))
bug("a-body-part", "statement.c", ("    if (body && body->iterators != NULL) {\n      iterators_backedup = 1;\n      iterators_backup = names->iterators;\n      names->iterators = body->iterators;", "    if (body && body->iterators->string != NULL) {\n      iterators_backedup = 1;\n      iterators_backup = names->iterators;\n      names->iterators = body->iterators;"))
bug("a-scop-free", "scop.c", ("  while (scop != NULL) {\n    if (scop->language != NULL)\n      free(scop->language);", "  while (scop != NULL) {\n    if (scop->language[0] != 0 || scop->language != NULL)\n      free(scop->language);"))
bug("a-strings-size", "strings.c", ("  if ((strings != NULL) && (strings->string != NULL)) {\n    while", "  if (strings->string != NULL) {\n    while"))
bug("a-strings-size2", "strings.c", ("if ((strings != NULL) && (strings->string != NULL)) {\n    while", "if ((strings != NULL) || (strings->string != NULL)) {\n    while"))
ok("a-help", "body.c", ("void osl_body_free(osl_body_t* body) {\n  if (body != NULL) {\n    osl_strings_free(body->iterators);\n    osl_strings_free(body->expression);\n    free(body);\n  }\n}",
   "static int osl_body_absent(const osl_body_t* b) {\n  return b == NULL;\n}\nvoid osl_body_free(osl_body_t* body) {\n  if (osl_body_absent(body))\n    return;\n  osl_strings_free(body->iterators);\n  osl_strings_free(body->expression);\n  free(body);\n}"))
ok("a-flag", "body.c", ("void osl_body_free(osl_body_t* body) {\n  if (body != NULL) {", "void osl_body_free(osl_body_t* body) {\n  int there = (body != NULL);\n  if (there) {"))
ok("a-flag2", "body.c", ("void osl_body_free(osl_body_t* body) {\n  if (body != NULL) {", "void osl_body_free(osl_body_t* body) {\n  bool there = false;\n  if (body)\n    there = true;\n  if (there) {"), ("#include <stdio.h>\n", "#include <stdbool.h>\n#include <stdio.h>\n"))
ok("a-loop-guarded-do", "extensions/loop.c", ("  while (loop != NULL) {\n    // Go to the right level.\n    if (!first) {", "  if (loop != NULL) do {\n    // Go to the right level.\n    if (!first) {"),
    ("      fprintf(file, \"V\\n\");\n    }\n  }\n", "      fprintf(file, \"V\\n\");\n    }\n  } while (loop != NULL);\n"))
ok("a-tern", "statement.c", ("    if (body && body->iterators != NULL) {\n      iterators_backedup = 1;\n      iterators_backup = names->iterators;\n      names->iterators = body->iterators;", "    osl_strings_p its = body ? body->iterators : NULL;\n    if (its) {\n      iterators_backedup = 1;\n      iterators_backup = names->iterators;\n      names->iterators = its;"))

bug("a2-nbiter", "statement.c", ("  if (statement == NULL || statement->domain == NULL) {\n    OSL_warning", "  if (statement->domain == NULL) {\n    OSL_warning"))
bug("a2-nbiter-dom", "statement.c", ("  if (statement == NULL || statement->domain == NULL) {\n    OSL_warning", "  if (statement == NULL) {\n    OSL_warning"))
bug("a2-integ-dom", "statement.c", ("    if (statement->domain != NULL)\n      expected_nb_iterators = statement->domain->nb_output_dims;\n    else\n      expected_nb_iterators = OSL_UNDEFINED;", "    expected_nb_iterators = statement->domain->nb_output_dims;"))
bug("a2-integ-body", "statement.c", ("body &&\n        body->iterators != NULL &&\n", "\n        body->iterators != NULL &&\n"))
bug("a2-getbody", "statement.c", ("  if (statement == NULL || statement->extension == NULL) {\n    return NULL;\n  }\n", "  if (statement->extension == NULL) {\n    return NULL;\n  }\n"))
bug("a2-getbody-e", "statement.c", ("  if (ebody != NULL)\n    return ebody->body;\n  return NULL;", "  return ebody->body;"))
bug("a2-filter", "relation_list.c", ("    if ((copy->elt != NULL) &&\n        (((type", "    if ((((type"))
bug("a2-filter2", "relation_list.c", ("    if ((copy->elt != NULL) &&\n        (((type == OSL_TYPE_ACCESS) && (osl_relation_is_access(copy->elt))) ||\n         ((type != OSL_TYPE_ACCESS) && (type == copy->elt->type)))) {", "    if (((type == OSL_TYPE_ACCESS) && (osl_relation_is_access(copy->elt))) ||\n         ((type != OSL_TYPE_ACCESS) && (type == copy->elt->type))) {"))
bug("a2-print-elt", "relation_list.c", ("      if (head->elt != NULL && head->elt->type == OSL_TYPE_READ) {", "      if (head->elt->type == OSL_TYPE_READ) {"))
bug("a2-concat", "relation_list.c", ("  if (l1 == NULL)\n    return osl_relation_list_clone(l2);\n", ""))
bug("a2-pop", "relation_list.c", ("  if (*head != NULL) {\n    top = *head;\n    *head = (*head)->next;\n    top->next = NULL;\n  }\n", "  top = *head;\n  *head = (*head)->next;\n  top->next = NULL;\n"))
bug("a2-push", "relation_list.c", ("  if (node != NULL) {\n    node->next = *head;\n    *head = node;\n  }", "  node->next = *head;\n  *head = node;"))
bug("a2-drop", "relation_list.c", ("  osl_relation_list_p top = osl_relation_list_pop(head);\n  osl_relation_list_free(top);", "  osl_relation_list_p top = *head;\n  *head = top->next;\n  top->next = NULL;\n  osl_relation_list_free(top);"))
bug("a2-equal-do", "relation_list.c", ("    l1 = l1->next;\n    l2 = l2->next;\n  }\n", "    l1 = l1->next;\n    l2 = l1 ? l2->next : l2->next->next;\n  }\n"))
bug("a2-vec-scalar", "vector.c", ("  if (vector == NULL)\n", "  if (vector->size == 0)\n"))
bug("a2-vec-equal", "vector.c", ("  if ((v1 == NULL) || (v2 == NULL))\n", "  if ((v1 == NULL) && (v2 == NULL))\n"))
bug("a2-stmt-equal", "statement.c", ("  if ((s1 == NULL) || (s2 == NULL)) {", "  if ((s1 == NULL) && (s2 == NULL)) {"))
bug("a2-scop-lang", "scop.c", ("        ((s1->language == NULL) || (s2->language == NULL) ||", "        ((s1->language == NULL) && (s2->language == NULL) ||"))
bug("a2-scop-integ", "scop.c", ("    if ((scop->language != NULL) &&\n", "    if (\n"))
bug("a2-scop-ctx", "scop.c", ("    if (scop->context != NULL)\n      expected_nb_parameters = scop->context->nb_parameters;\n    else\n      expected_nb_parameters = OSL_UNDEFINED;\n", "    expected_nb_parameters = scop->context->nb_parameters;\n"))
bug("a2-dep-eq", "extensions/dependence.c", ("  if (d1 == NULL || d2 == NULL)\n", "  if (d1 == NULL)\n"))
bug("a2-dep-add", "extensions/dependence.c", ("  if (dependence != NULL) {\n    if (*start", "  {\n    if (*start"))
bug("a2-scat-sprint", "extensions/scatnames.c", ("  if (scatnames == NULL)\n    return NULL;\n\n  return osl_strings_sprint", "  return osl_strings_sprint"))
bug("a2-scat-clone", "extensions/scatnames.c", ("  if (scatnames == NULL)\n    return NULL;\n\n  clone", "  clone"))
bug("a2-ann-clone", "extensions/annotation.c", ("  if (source == NULL)\n    return NULL;\n", ""))
bug("a2-sym-eq", "extensions/symbols.c", ("  if (((c1 == NULL) && (c2 != NULL)) || ((c1 != NULL) && (c2 == NULL)))", "  if ((c1 == NULL) && (c2 != NULL))"))
bug("a2-free-order", "scop.c", ("    if (scop->language != NULL)\n      free(scop->language);\n", "    if (scop->language[0] != 0)\n      free(scop->language);\n"))
bug("a2-names-free", "names.c", ("  if (names != NULL) {\n    osl_strings_free(names->parameters);", "  {\n    osl_strings_free(names->parameters);"))
bug("a2-rel-isaccess", "relation.c", ("  if (relation == NULL)\n    return 0;\n\n  if ((relation->type == OSL_TYPE_ACCESS)", "  if ((relation->type == OSL_TYPE_ACCESS)"))

ok("a3-helper", "relation_list.c", ("osl_relation_list_t* osl_relation_list_filter(const", "static int osl_relation_list_full(const osl_relation_list_t* l) {\n  return l->elt != NULL;\n}\nosl_relation_list_t* osl_relation_list_filter(const"), ("    if ((copy->elt != NULL) &&\n", "    if (osl_relation_list_full(copy) &&\n"))
ok("a3-helper2", "relation_list.c", ("osl_relation_list_t* osl_relation_list_filter(const", "static int osl_relation_list_type(const osl_relation_list_t* l) {\n  return l->elt->type;\n}\nosl_relation_list_t* osl_relation_list_filter(const"), ("(type == copy->elt->type)", "(type == osl_relation_list_type(copy))"))
ok("a3-flag", "relation_list.c", ("    if ((copy->elt != NULL) &&\n        (((type", "    int keep = 0;\n    if (copy->elt != NULL)\n      keep = 1;\n    if (keep &&\n        (((type"))
ok("a3-var", "relation_list.c", ("    if ((copy->elt != NULL) &&\n        (((type == OSL_TYPE_ACCESS) && (osl_relation_is_access(copy->elt))) ||\n         ((type != OSL_TYPE_ACCESS) && (type == copy->elt->type)))) {", "    osl_relation_p elt = copy->elt;\n    if ((elt != NULL) &&\n        (((type == OSL_TYPE_ACCESS) && (osl_relation_is_access(elt))) ||\n         ((type != OSL_TYPE_ACCESS) && (type == copy->elt->type)))) {"))
ok("a3-kind", "relation_list.c", ("    if ((copy->elt != NULL) &&\n        (((type == OSL_TYPE_ACCESS) && (osl_relation_is_access(copy->elt))) ||\n         ((type != OSL_TYPE_ACCESS) && (type == copy->elt->type)))) {", "    int kind = copy->elt ? copy->elt->type : OSL_UNDEFINED;\n    if ((type == OSL_TYPE_ACCESS) ? (copy->elt && osl_relation_is_access(copy->elt)) : (copy->elt && type == kind)) {"))
ok("a3-elt-kind", "relation_list.c", ("void osl_relation_list_pprint_elts(FILE", "static int osl_relation_list_kind(const osl_relation_list_t* l) {\n  if (l == NULL || l->elt == NULL)\n    return OSL_UNDEFINED;\n  return l->elt->type;\n}\nvoid osl_relation_list_pprint_elts(FILE"), ("      if (head->elt != NULL && head->elt->type == OSL_TYPE_READ) {", "      if (osl_relation_list_kind(head) == OSL_TYPE_READ) {"))
ok("a3-kind-get", "relation_list.c", ("osl_relation_list_t* osl_relation_list_filter(const", "static int osl_relation_list_kind(const osl_relation_list_t* l) {\n  if (l == NULL || l->elt == NULL)\n    return OSL_UNDEFINED;\n  return l->elt->type;\n}\nosl_relation_list_t* osl_relation_list_filter(const"), ("    if ((copy->elt != NULL) &&\n        (((type == OSL_TYPE_ACCESS) && (osl_relation_is_access(copy->elt))) ||\n         ((type != OSL_TYPE_ACCESS) && (type == copy->elt->type)))) {", "    if (((type == OSL_TYPE_ACCESS) && copy->elt && (osl_relation_is_access(copy->elt))) ||\n         ((type != OSL_TYPE_ACCESS) && (osl_relation_list_kind(copy) != OSL_UNDEFINED) && (type == copy->elt->type))) {"))
ok("a3-body", "statement.c", ("    if ((expected_nb_iterators != OSL_UNDEFINED) && body &&\n        body->iterators != NULL &&\n", "    osl_strings_p its = body ? body->iterators : NULL;\n    if ((expected_nb_iterators != OSL_UNDEFINED) && its != NULL &&\n"))
ok("a3-lang", "scop.c", ("        ((s1->language == NULL) || (s2->language == NULL) ||", "        (!s1->language || !s2->language ||"))
ok("a3-pair", "scop.c", ("        ((s1->language == NULL) || (s2->language == NULL) ||", "        ((s1->language == NULL) + (s2->language == NULL) > 0 ||"))
ok("a3-unroll", "extensions/pluto_unroll.c", ("    if (a->iter == NULL && b->iter != NULL) {\n      return 0;\n    }\n    if (a->iter != NULL && b->iter == NULL) {\n      return 0;\n    }\n", "    if ((a->iter == NULL) != (b->iter == NULL)) {\n      return 0;\n    }\n"))
ok("a3-unroll2", "extensions/pluto_unroll.c", ("    if (a->iter == NULL && b->iter != NULL) {\n      return 0;\n    }\n    if (a->iter != NULL && b->iter == NULL) {\n      return 0;\n    }\n", "    const char* ai = a->iter;\n    const char* bi = b->iter;\n    if (ai == NULL && bi != NULL) {\n      return 0;\n    }\n    if (ai != NULL && bi == NULL) {\n      return 0;\n    }\n"))
ok("a3-unroll3", "extensions/pluto_unroll.c", ("bool osl_pluto_unroll_equal(const", "static bool osl_unroll_one_missing(const char* x, const char* y) {\n  return (x == NULL) != (y == NULL);\n}\nbool osl_pluto_unroll_equal(const"), ("    if (a->iter == NULL && b->iter != NULL) {\n      return 0;\n    }\n    if (a->iter != NULL && b->iter == NULL) {\n      return 0;\n    }\n", "    if (osl_unroll_one_missing(a->iter, b->iter)) {\n      return 0;\n    }\n"))
ok("a3-unroll4", "extensions/pluto_unroll.c", ("    if (a->iter == NULL && b->iter != NULL) {\n      return 0;\n    }\n    if (a->iter != NULL && b->iter == NULL) {\n      return 0;\n    }\n    if (a->iter != NULL) {\n      if (strcmp(a->iter, b->iter) != 0) {\n        return 0;\n      }\n    }", "    if (a->iter != NULL && b->iter != NULL) {\n      if (strcmp(a->iter, b->iter) != 0) {\n        return 0;\n      }\n    } else if (a->iter != b->iter) {\n      return 0;\n    }"))
