EDITS = []
P = ["C14"]
X = "source/extensions/"
def ok(name, f, *subs): EDITS.append(dict(name="p-" + name, file=f, subs=list(subs), kind="ok", props=P))
def bug(name, f, *subs): EDITS.append(dict(name="p-" + name, file=f, subs=list(subs), kind="bug", props=P))
bug("loop-user-dump", X + "loop.c", ("    fprintf(file, \"+--user: %s\\n\", loop->user);\n", "    fprintf(file, \"+--user: %s\\n\", loop->private_vars);\n"))
bug("loop-next", X + "loop.c", ("    loop = loop->next;\n    number++;\n", "    loop = loop->next;\n    number++;\n    if (number > 8)\n      break;\n"))
bug("loop-ids", X + "loop.c", ("    for (i = 0; i < loop->nb_stmts; i++) {\n      // Go to the right level.", "    for (i = 1; i < loop->nb_stmts; i++) {\n      // Go to the right level."))
bug("loop-ids2", X + "loop.c", ("    for (i = 0; i < loop->nb_stmts; i++) {\n      sprintf(buffer", "    for (i = 0; i + 1 < loop->nb_stmts; i++) {\n      sprintf(buffer"))
bug("loop-nocat", X + "loop.c", ("    sprintf(buffer, \"%d\", loop->directive);\n    osl_util_safe_strcat(&string, buffer, &high_water_mark);\n", "    sprintf(buffer, \"%d\", loop->directive);\n"))
bug("sym-extent", X + "symbols.c", ("    osl_generic_idump(file, symbols->extent, level + 1);", "    osl_generic_idump(file, symbols->scope, level + 1);"))
bug("sym-extent-print", X + "symbols.c", ("    temp = osl_generic_sprint(symbols->extent);", "    temp = osl_generic_sprint(symbols->datatype);"))
bug("sym-cond", X + "symbols.c", ("    temp = osl_generic_sprint(symbols->extent);\n    osl_util_safe_strcat(&string, temp, &high_water_mark);\n", "    temp = osl_generic_sprint(symbols->extent);\n    if (symbols->next != NULL)\n      osl_util_safe_strcat(&string, temp, &high_water_mark);\n"))
bug("rel-cols", "source/relation.c", ("      for (j = 0; j < relation->nb_columns; j++) {\n        osl_int_print(", "      for (j = 0; j < relation->nb_columns - 1; j++) {\n        osl_int_print("))
bug("rel-params", "source/relation.c", ("             relation->nb_columns, relation->nb_output_dims,\n             relation->nb_input_dims, relation->nb_local_dims,\n             relation->nb_parameters);", "             relation->nb_columns, relation->nb_output_dims,\n             relation->nb_input_dims, relation->nb_local_dims,\n             relation->nb_local_dims);"))
bug("rel-parts", "source/relation.c", ("  for (part = 1; part <= nb_parts; part++) {\n    // Prepare the array of strings for comments.\n    name_array = osl_relation_strings(relation, names);\n\n    if (nb_parts > 1) {\n      snprintf", "  for (part = 1; part < nb_parts || part == 1; part++) {\n    // Prepare the array of strings for comments.\n    name_array = osl_relation_strings(relation, names);\n\n    if (nb_parts > 1) {\n      snprintf"))
bug("stmt-ext", "source/statement.c", ("    osl_generic_idump(file, statement->extension, level + 1);\n", ""))
bug("scop-ctx", "source/scop.c", ("    osl_relation_idump(file, scop->context, level + 1);", "    if (scop->parameters != NULL)\n      osl_relation_idump(file, scop->context, level + 1);"))
bug("list-skip", "source/relation_list.c", ("      if (head->elt != NULL) {\n        osl_relation_pprint(file, head->elt, names);", "      if (head->elt != NULL && head->elt->next == NULL) {\n        osl_relation_pprint(file, head->elt, names);"))
bug("list-second", "source/relation_list.c", ("        i++;\n      }\n      head = head->next;", "        i++;\n      }\n      head = head->next ? head->next->next : NULL;"))
bug("dep-print", X + "dependence.c", ("               tmp->target_nb_local_dims_domain,\n               tmp->target_nb_local_dims_access);\n      osl_util_safe", "               tmp->target_nb_local_dims_domain,\n               tmp->target_nb_local_dims_domain);\n      osl_util_safe"))
bug("region-postlude", X + "region.c", ("osl_region_text_idump(file, &region->postlude", "osl_region_text_idump(file, &region->prelude"))
bug("gen-sprint", "source/generic.c", ("        osl_util_safe_strcat(&string, content, &high_water_mark);\n", ""))
bug("coord-indent", X + "coordinates.c", ("fprintf(file, \"Indentation: %d\\n\", coordinates->indent);", "fprintf(file, \"Indentation: %d\\n\", coordinates->column_end);"))
bug("arrays-name", X + "arrays.c", ("    for (i = 0; i < arrays->nb_names; i++) {\n      sprintf(buffer", "    for (i = 0; i < arrays->nb_names; i += 2) {\n      sprintf(buffer"))
bug("strings-empty", "source/strings.c", ("      sprintf(buffer, \"%s\", strings->string[i]);\n      osl_util_safe_strcat(&string, buffer, &high_water_mark);\n", "      sprintf(buffer, \"%s\", strings->string[i]);\n      if (i > 0)\n        osl_util_safe_strcat(&string, buffer, &high_water_mark);\n"))
bug("vector-size", "source/vector.c", ("    for (j = 0; j < vector->size; j++) {", "    for (j = 1; j < vector->size; j++) {"))
bug("clay-null", X + "clay.c", ("  if (clay != NULL) {\n    // Go", "  if (clay != NULL && level < 8) {\n    // Go"))
# refactorings
ok("loop-helper", X + "loop.c", ("void osl_loop_idump(", "static void one(FILE* f, const osl_loop_t* l) {\n  fprintf(f, \"+--iterator: %s\\n\", l->iter);\n}\nvoid osl_loop_idump("), ("    fprintf(file, \"+--iterator: %s\\n\", loop->iter);\n", "    one(file, loop);\n"))
ok("loop-for", X + "loop.c", ("  while (loop != NULL) {\n    // Go to the right level.", "  for (; loop != NULL; loop = loop->next, number++) {\n    // Go to the right level."), ("    loop = loop->next;\n    number++;\n\n    // Next line.\n    if (loop != NULL) {", "    // Next line.\n    if (loop->next != NULL) {"))
ok("loop-direct", X + "loop.c", ("    sprintf(buffer, \"%d\", loop->directive);\n    osl_util_safe_strcat(&string, buffer, &high_water_mark);\n", "    char other[20];\n    sprintf(other, \"%d\", loop->directive);\n    osl_util_safe_strcat(&string, other, &high_water_mark);\n"))
ok("loop-merged", X + "loop.c", ("    sprintf(buffer, \"# Directive\\n\");\n    osl_util_safe_strcat(&string, buffer, &high_water_mark);\n    sprintf(buffer, \"%d\", loop->directive);\n    osl_util_safe_strcat", "    sprintf(buffer, \"# Directive\\n%d\", loop->directive);\n    osl_util_safe_strcat"))
ok("loop-while", X + "loop.c", ("    for (i = 0; i < loop->nb_stmts; i++) {\n      sprintf(buffer, \"%d\\n\", loop->stmt_ids[i]);\n      osl_util_safe_strcat(&string, buffer, &high_water_mark);\n    }\n", "    i = 0;\n    while (i != loop->nb_stmts) {\n      int id = loop->stmt_ids[i++];\n      snprintf(buffer, sizeof(buffer), \"%d\\n\", id);\n      osl_util_safe_strcat(&string, buffer, &high_water_mark);\n    }\n"))
ok("sym-order", X + "symbols.c", ("    // 6. Print the scope of the symbol.\n    osl_generic_idump(file, symbols->scope, level + 1);\n\n    // 7. Print the extent of the symbol.\n    osl_generic_idump(file, symbols->extent, level + 1);\n", "    osl_generic_idump(file, symbols->extent, level + 1);\n    osl_generic_idump(file, symbols->scope, level + 1);\n"))
ok("scop-rec", "source/scop.c", ("    osl_relation_idump(file, scop->context, level + 1);", "    const osl_relation_t* c = scop->context;\n    osl_relation_idump(file, c, level + 1);"))
ok("list-continue", "source/relation_list.c", ("    while (head) {\n      if (head->elt != NULL) {\n        osl_relation_pprint(file, head->elt, names);\n        if (head->next != NULL)\n          fprintf(file, \"\\n\");\n        i++;\n      }\n      head = head->next;\n    }\n", "    for (head = list; head; head = head->next) {\n      if (head->elt == NULL)\n        continue;\n      osl_relation_pprint(file, head->elt, names);\n      if (head->next != NULL)\n        fprintf(file, \"\\n\");\n    }\n"))
ok("gen-nobuf", "source/generic.c", ("        sprintf(buffer, \"<%s>\\n\", generic->interface->URI);\n        osl_util_safe_strcat(&string, buffer, &high_water_mark);\n", "        osl_util_safe_strcat(&string, \"<\", &high_water_mark);\n        osl_util_safe_strcat(&string, generic->interface->URI, &high_water_mark);\n        osl_util_safe_strcat(&string, \">\\n\", &high_water_mark);\n"))
ok("rel-wrap", "source/relation.c", ("    for (i = 0; i < relation->nb_rows; i++) {\n      for (j = 0; j < relation->nb_columns; j++) {\n        osl_int_sprint(buffer, relation->precision, relation->m[i][j]);", "    for (i = 0; i < relation->nb_rows; i++) {\n      osl_int_t* row = relation->m[i];\n      for (j = 0; j < relation->nb_columns; j++) {\n        osl_int_sprint(buffer, relation->precision, row[j]);"))
ok("strings-join", "source/strings.c", ("    for (i = 0; i < osl_strings_size(strings); i++) {\n      sprintf(buffer, \"%s\", strings->string[i]);\n      osl_util_safe_strcat(&string, buffer, &high_water_mark);\n      if (i < osl_strings_size(strings) - 1)", "    const size_t n = osl_strings_size(strings);\n    for (i = 0; i < n; i++) {\n      osl_util_safe_strcat(&string, strings->string[i], &high_water_mark);\n      if (i + 1 < n)"))
ok("dump-rec", "source/body.c", ("void osl_body_dump(FILE* const file, const osl_body_t* const body) {\n  osl_body_idump(file, body, 0);", "void osl_body_dump(FILE* const file, const osl_body_t* const body) {\n  const int level = 0;\n  osl_body_idump(file, body, level);"))
bug("rel-cols2", "source/relation.c", ("      for (j = 0; j < relation->nb_columns; j++) {\n        osl_int_print(", "      for (j = 0; j < relation->nb_columns - (relation->nb_parameters == 0 && relation->next != NULL); j++) {\n        osl_int_print("))
bug("loop-user-when", X + "loop.c", ("    if (loop->directive & OSL_LOOP_DIRECTIVE_USER) {\n      sprintf", "    if ((loop->directive & OSL_LOOP_DIRECTIVE_USER) && loop->private_vars) {\n      sprintf"))
