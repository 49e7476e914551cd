EDITS = []
ALL = ["C20"]
def ok(name, file, *subs, props=ALL): EDITS.append(dict(name=name, file="source/" + file, subs=list(subs), kind="ok", props=props))
def bug(name, file, *subs, props=ALL): EDITS.append(dict(name=name, file="source/" + file, subs=list(subs), kind="bug", props=props))
LIST = "  while (list != NULL) {\n    // Check the access function.\n    if (!osl_relation_integrity_check(list->elt, type, expected_nb_output_dims,\n                                      expected_nb_input_dims,\n                                      expected_nb_parameters)) {\n      return 0;\n    }\n\n    list = list->next;\n  }\n\n  return 1;"
bug("i-list-swap", "relation_list.c", ("osl_relation_integrity_check(list->elt, type, expected_nb_output_dims,\n                                      expected_nb_input_dims,", "osl_relation_integrity_check(list->elt, type, expected_nb_input_dims,\n                                      expected_nb_output_dims,"))
bug("i-list-ret", "relation_list.c", (LIST, LIST.replace("    list = list->next;", "    if (list->elt != NULL)\n      return 1;\n    list = list->next;")))
bug("i-list-last", "relation_list.c", (LIST, "  int ok = 1;\n  while (list != NULL) {\n    ok = osl_relation_integrity_check(list->elt, type, expected_nb_output_dims, expected_nb_input_dims, expected_nb_parameters);\n    list = list->next;\n  }\n\n  return ok;"))
ok("i-list-flag", "relation_list.c", (LIST, "  int ok = 1;\n  while (ok && list != NULL) {\n    ok = osl_relation_integrity_check(list->elt, type, expected_nb_output_dims, expected_nb_input_dims, expected_nb_parameters);\n    list = list->next;\n  }\n\n  return ok;"))
ok("i-list-flag2", "relation_list.c", (LIST, "  int ok = 1;\n  while (list != NULL) {\n    if (!osl_relation_integrity_check(list->elt, type, expected_nb_output_dims, expected_nb_input_dims, expected_nb_parameters)) ok = 0;\n    list = list->next;\n  }\n\n  return ok;"))
ok("i-list-for", "relation_list.c", (LIST, "  const osl_relation_list_t* l;\n  for (l = list; l; l = l->next) {\n    if (l->elt == NULL)\n      continue;\n    if (osl_relation_integrity_check(l->elt, type, expected_nb_output_dims, expected_nb_input_dims, expected_nb_parameters) == 0)\n      break;\n  }\n\n  return l == NULL;"))
ok("i-list-rec", "relation_list.c", (LIST, "  if (list == NULL)\n    return 1;\n  if (!osl_relation_integrity_check(list->elt, type, expected_nb_output_dims, expected_nb_input_dims, expected_nb_parameters))\n    return 0;\n  return osl_relation_list_integrity_check(list->next, type, expected_nb_output_dims, expected_nb_input_dims, expected_nb_parameters);"))
bug("i-st-type", "statement.c", ("statement->access, OSL_TYPE_ACCESS,", "statement->access, OSL_TYPE_READ,"))
bug("i-st-scat", "statement.c", ("            statement->scattering, OSL_TYPE_SCATTERING, OSL_UNDEFINED,\n            expected_nb_iterators, expected_nb_parameters", "            statement->scattering, OSL_TYPE_SCATTERING,\n            expected_nb_iterators, OSL_UNDEFINED, expected_nb_parameters"))
bug("i-st-iters", "statement.c", ("      expected_nb_iterators = statement->domain->nb_output_dims;\n    else\n      expected_nb_iterators = OSL_UNDEFINED;", "      expected_nb_iterators = statement->domain->nb_input_dims;\n    else\n      expected_nb_iterators = OSL_UNDEFINED;"))
bug("i-st-body", "statement.c", ("((size_t)expected_nb_iterators != osl_strings_size(body->iterators))", "((size_t)expected_nb_iterators > osl_strings_size(body->iterators))"))
bug("i-st-dom", "statement.c", ("OSL_UNDEFINED, 0,\n                                      expected_nb_parameters)) {", "OSL_UNDEFINED, OSL_UNDEFINED,\n                                      expected_nb_parameters)) {"))
bug("i-st-nscat", "statement.c", ("    if (!osl_relation_integrity_check(\n            statement->scattering,", "    if (statement->domain && !osl_relation_integrity_check(\n            statement->scattering,"))
ok("i-st-helper", "statement.c", ("    if ((expected_nb_iterators != OSL_UNDEFINED) && body &&\n        body->iterators != NULL &&\n        ((size_t)expected_nb_iterators != osl_strings_size(body->iterators))) {\n      OSL_warning(\"unexpected number of original iterators\");\n      return 0;\n    }", "    if (!osl_statement_body_ok(body, expected_nb_iterators))\n      return 0;"),
   ("int osl_statement_integrity_check(const", "static int osl_statement_body_ok(const osl_body_t* body, int n) {\n  if (body == NULL || body->iterators == NULL || n == OSL_UNDEFINED)\n    return 1;\n  if (osl_strings_size(body->iterators) == (size_t)n)\n    return 1;\n  OSL_warning(\"unexpected number of original iterators\");\n  return 0;\n}\nint osl_statement_integrity_check(const"))
bug("i-scop-first", "scop.c", ("    if (!osl_statement_integrity_check(scop->statement, expected_nb_parameters))\n      return 0;\n\n    scop = scop->next;", "    if (!osl_statement_integrity_check(scop->statement, expected_nb_parameters))\n      return 0;\n\n    scop = NULL;"))
bug("i-scop-np", "scop.c", ("      expected_nb_parameters = scop->context->nb_parameters;\n    else\n      expected_nb_parameters = OSL_UNDEFINED;\n\n    // TODO", "      expected_nb_parameters = OSL_UNDEFINED;\n    else\n      expected_nb_parameters = OSL_UNDEFINED;\n\n    // TODO"))
bug("i-scop-empty", "scop.c", ("    if (!osl_statement_integrity_check(scop->statement, expected_nb_parameters))", "    if (scop->context != NULL && !osl_statement_integrity_check(scop->statement, expected_nb_parameters))"))
bug("i-rel-sum", "relation.c", ("expected_nb_local_dims + expected_nb_parameters + 2;", "expected_nb_local_dims + expected_nb_parameters + 1 + 1 * (relation->nb_rows > 0);"))
bug("i-rel-first", "relation.c", ("    if ((relation->nb_rows > 0) && (relation->nb_columns > 0)) {\n      for (i = 0; i < relation->nb_rows; i++) {\n        if (!osl_int_zero", "    if ((relation->nb_rows > 0) && (relation->nb_columns > 0)) {\n      for (i = 1; i < relation->nb_rows; i++) {\n        if (!osl_int_zero"))
bug("i-rel-one", "relation.c", ("            !osl_int_one(relation->precision, relation->m[i][0])) {", "            !osl_int_pos(relation->precision, relation->m[i][0])) {"))
bug("i-rel-attr", "relation.c", ("      !osl_relation_check_attribute(&expected_nb_input_dims,\n                                    relation->nb_input_dims) ||", "      !osl_relation_check_attribute(&expected_nb_input_dims,\n                                    relation->nb_output_dims) ||"))
ok("i-rel-chk", "relation.c", ("    if ((actual != OSL_UNDEFINED) && (actual != *expected)) {", "    if ((actual != OSL_UNDEFINED) && (actual > *expected)) {"))
bug("i-rel-ctx", "relation.c", ("  if (((relation->type == OSL_TYPE_DOMAIN) ||\n       (relation->type == OSL_TYPE_CONTEXT)) &&\n      (relation->nb_input_dims != 0)) {", "  if ((relation->type == OSL_TYPE_DOMAIN) &&\n      (relation->nb_input_dims != 0)) {"))
bug("i-rel-part", "relation.c", ("        (expected_nb_parameters != relation->nb_parameters)) {\n      OSL_warning(\"inconsistent attributes\");", "        (expected_nb_parameters > relation->nb_parameters)) {\n      OSL_warning(\"inconsistent attributes\");"))
bug("i-rel-id", "relation.c", ("        (osl_relation_get_array_id(relation) == OSL_UNDEFINED)) {\n      osl_relation_dump(stderr, relation);\n      return 0;\n    }\n\n    relation = relation->next;", "        (osl_relation_get_array_id(relation) == OSL_UNDEFINED)) {\n      osl_relation_dump(stderr, relation);\n      return 1;\n    }\n\n    relation = relation->next;"))
bug("i-rel-id2", "relation.c", ("    if ((osl_relation_is_access(relation)) &&\n        (osl_relation_get_array_id(relation)", "    if ((osl_relation_is_access(relation)) && relation->nb_rows > 1 &&\n        (osl_relation_get_array_id(relation)"))
ok("i-rel-helper", "relation.c", ("    if ((relation->nb_rows > 0) && (relation->nb_columns > 0)) {\n      for (i = 0; i < relation->nb_rows; i++) {\n        if (!osl_int_zero(relation->precision, relation->m[i][0]) &&\n            !osl_int_one(relation->precision, relation->m[i][0])) {\n          OSL_warning(\n              \"first column of a relation is not \"\n              \"strictly made of 0 or 1\");\n          osl_relation_dump(stderr, relation);\n          return 0;\n        }\n      }\n    }", "    if (!osl_relation_markers(relation)) {\n      osl_relation_dump(stderr, relation);\n      return 0;\n    }"),
   ("  int i;\n\n  // Check the NULL case.\n  if (relation == NULL) {\n    if ((expected_nb_output_dims", "  // Check the NULL case.\n  if (relation == NULL) {\n    if ((expected_nb_output_dims"),
   ("int osl_relation_integrity_check(const", "static int osl_relation_markers(const osl_relation_t* r) {\n  for (int k = r->nb_rows - 1; k >= 0; --k) {\n    if (r->nb_columns < 1) return 1;\n    if (osl_int_one(r->precision, r->m[k][0])) continue;\n    if (!osl_int_zero(r->precision, r->m[k][0])) {\n      OSL_warning(\"first column\");\n      return 0;\n    }\n  }\n  return 1;\n}\nint osl_relation_integrity_check(const"))
bug("i-lib-local", "scop.c", ("    while (domain != NULL) {\n      if (domain->nb_local_dims != 0) {", "    if (domain != NULL) {\n      if (domain->nb_local_dims != 0) {"))
bug("i-lib-next", "scop.c", ("  if (scop->next != NULL)\n    return 0;\n  if (scop->statement", "  if (scop->statement"))
bug("i-lib-id", "scop.c", ("if (i == j) {  // -1", "if (i == j + 1) {  // -1"))
bug("i-lib-print", "scop.c", ("  if (osl_scop_check_compatible_scoplib(scop) == 0) {", "  if (osl_scop_integrity_check(scop) == 0) {"))
bug("i-read", "scop.c", ("  if (!osl_scop_integrity_check(list))\n    OSL_warning(\"scop integrity check failed\");\n\n  return list;", "  if (!osl_scop_integrity_check(current))\n    OSL_warning(\"scop integrity check failed\");\n\n  return list;"))
