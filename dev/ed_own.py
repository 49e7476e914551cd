"""C19: releases of what an operation obtains for its own use"""
EDITS = []
def ok(name, file, *subs, props=("C19",)): EDITS.append(dict(name="own-" + name, file="source/" + file, subs=list(subs), kind="ok", props=list(props)))
def bug(name, file, *subs): EDITS.append(dict(name="own-" + name, file="source/" + file, subs=list(subs), kind="bug", props=["C19"]))
B, G, S, R, N = "body.c", "generic.c", "scop.c", "relation.c", "strings.c"
IT = "      iterators = osl_strings_sprint(body->iterators);\n      osl_util_safe_strcat(&string, iterators, &high_water_mark);\n      free(iterators);\n"
bug("body-if", B, (IT, IT.replace("      free(iterators);\n", "      if (nb_iterators > 1)\n        free(iterators);\n")))
bug("body-late", B, (IT, IT.replace("      osl_util_safe_strcat(&string, iterators, &high_water_mark);\n      free(iterators);\n", "      free(iterators);\n      osl_util_safe_strcat(&string, iterators, &high_water_mark);\n")))
bug("body-stale", B, (IT, IT.replace("      osl_util_safe_strcat(&string, iterators, &high_water_mark);\n", "      char *text = string;\n      osl_util_safe_strcat(&string, iterators, &high_water_mark);\n      if (strlen(text) > 100)\n        OSL_debug(\"long body\");\n")))
bug("body-again", B, ("    expression = osl_strings_sprint(body->expression);\n", "    expression = osl_strings_sprint(body->iterators);\n    expression = osl_strings_sprint(body->expression);\n"))
bug("body-empty", B, ("    free(expression);\n  } else", "    if (strlen(expression) == 0)\n      return string;\n    free(expression);\n  } else"))
ok("body-nested", B, (IT, "      osl_util_safe_strcat(&string, iterators = osl_strings_sprint(body->iterators), &high_water_mark);\n      free(iterators);\n"))
ok("body-one", B, ("    expression = osl_strings_sprint(body->expression);\n    osl_util_safe_strcat(&string, expression, &high_water_mark);\n    free(expression);\n",
   "    iterators = osl_strings_sprint(body->expression);\n    osl_util_safe_strcat(&string, iterators, &high_water_mark);\n    free(iterators);\n"))
ok("body-tail", B, (IT, IT.replace("      free(iterators);\n", "")), ("    free(expression);\n  } else", "    free(expression);\n    if (nb_iterators > 0)\n      free(iterators);\n  } else"))
ok("body-null", B, (IT, IT.replace("      free(iterators);\n", "")), ("  char *iterators, *expression;\n\n  OSL_malloc(string", "  char *iterators = NULL, *expression;\n\n  OSL_malloc(string"), ("    free(expression);\n  } else", "    free(expression);\n    free(iterators);\n  } else"))
ok("body-helper", B, ("char* osl_body_sprint(", "static void osl_body_append(char** string, const osl_strings_t* s, size_t* hwm) {\n  char* t = osl_strings_sprint(s);\n  osl_util_safe_strcat(string, t, hwm);\n  free(t);\n}\n\nchar* osl_body_sprint("), (IT, "      osl_body_append(&string, body->iterators, &high_water_mark);\n"))
bug("body-helper", B, ("char* osl_body_sprint(", "static void osl_body_append(char** string, const osl_strings_t* s, size_t* hwm) {\n  char* t = osl_strings_sprint(s);\n  osl_util_safe_strcat(string, t, hwm);\n  if (s == NULL)\n    free(t);\n}\n\nchar* osl_body_sprint("), (IT, "      osl_body_append(&string, body->iterators, &high_water_mark);\n"))
G1 = "  temp = content;\n  if (interface == NULL) {\n"
G2 = "  free(content);\n  free(tag);\n  return generic;\n"
UN = "    fprintf(stderr, \"[osl] Warning: unknown URI \\\"%s\\\".\\n\", tag);\n"
bug("gen-unknown", G, (UN, UN + "    return NULL;\n"))
bug("gen-untag", G, (UN, UN + "    free(content);\n    return NULL;\n"))
bug("gen-cursor", G, (G2, "  free(temp);\n  free(tag);\n  return generic;\n"))
bug("gen-tagfirst", G, ("  content = osl_util_read_uptoendtag(NULL, input, tag);\n  if (content", "  content = osl_util_read_uptoendtag(NULL, input, tag);\n  if (content != NULL && content[0] == '\\0')\n    free(tag);\n  if (content"))
bug("gen-nodata", G, ("    generic->data = interface->sread(&temp);\n", "    generic->data = interface->sread(&temp);\n    if (generic->data == NULL) {\n      free(content);\n      free(tag);\n      return NULL;\n    }\n"))
ok("gen-early", G, (UN, UN + "    free(content);\n    free(tag);\n    return NULL;\n"))
ok("gen-order", G, (G2, "  free(tag);\n  free(content);\n  return generic;\n"))
ok("gen-nodata", G, ("    generic->data = interface->sread(&temp);\n", "    generic->data = interface->sread(&temp);\n    if (generic->data == NULL) {\n      osl_generic_free(generic);\n      generic = NULL;\n    }\n"))
ok("gen-goto", G, (UN, UN + "    goto done;\n"), (G2, "done:\n" + G2))
T = "      OSL_debug(\"no more scop in the file\");\n      break;\n    } else {\n      free(tmp);\n    }\n"
bug("scop-if", S, (T, T.replace("    } else {\n      free(tmp);\n", "    } else if (list == NULL) {\n      free(tmp);\n")))
ok("scop-flat", S, (T, T.replace("    } else {\n      free(tmp);\n    }\n", "    }\n    free(tmp);\n")))
L = "    if (language != NULL) {\n      OSL_strdup(scop->language, language->string[0]);\n      osl_strings_free(language);\n    }\n"
bug("scop-shell", S, (L, L.replace("osl_strings_free(language)", "free(language)")))
bug("scop-steal", S, (L, L.replace("OSL_strdup(scop->language, language->string[0]);", "scop->language = language->string[0];")))
ok("scop-steal", S, (L, L.replace("OSL_strdup(scop->language, language->string[0]);", "scop->language = language->string[0];\n      language->string[0] = NULL;")))
ok("scop-else", S, (L, L.replace("    if (language != NULL) {\n", "    if (language == NULL) {\n    } else {\n")))
NS = "        extended = osl_relation_extend_output(statement->scattering,\n                                              max_scattering_dims);\n        osl_relation_free(statement->scattering);\n        statement->scattering = extended;\n"
bug("norm-same", S, (NS, NS.replace("        osl_relation_free(statement->scattering);\n", "        if (extended->nb_rows != statement->scattering->nb_rows)\n          osl_relation_free(statement->scattering);\n")))
bug("norm-order", S, (NS, "        extended = statement->scattering;\n        osl_relation_free(extended);\n        statement->scattering = osl_relation_extend_output(extended,\n                                              max_scattering_dims);\n"))
ok("norm-old", S, (NS, "        extended = statement->scattering;\n        statement->scattering = osl_relation_extend_output(extended,\n                                              max_scattering_dims);\n        osl_relation_free(extended);\n"))
NF = "  osl_names_free(names);\n}\n"
bug("scop-names", S, (NF, "  if (scop != NULL)\n    osl_names_free(names);\n}\n"))
IV = "  temp = osl_relation_from_vector(vector);\n  osl_relation_insert_constraints(relation, temp, row);\n  osl_relation_free(temp);\n"
bug("iv-null", R, (IV, IV.replace("  osl_relation_insert", "  if (relation == NULL)\n    return;\n  osl_relation_insert")))
bug("iv-shell", R, (IV, IV.replace("osl_relation_free(temp)", "free(temp)")))
ok("iv-null", R, (IV, IV.replace("  osl_relation_insert", "  if (relation == NULL) {\n    osl_relation_free(temp);\n    return;\n  }\n  osl_relation_insert")))
CV = "  new = osl_relation_concat_constraints(relation, temp);\n  osl_relation_free(temp);\n  return new;\n"
bug("cv-part", R, (CV, CV.replace("  osl_relation_free(temp);\n", "  if (new->nb_rows > 1)\n    osl_relation_free(temp);\n")))
bug("cv-double", R, (CV, CV.replace("  return new;\n", "  if (new->nb_rows == 1)\n    osl_relation_free(temp);\n  return new;\n")))
bug("cv-ret", R, (CV, "  new = osl_relation_concat_constraints(relation, temp);\n  osl_relation_free(temp);\n  return relation == NULL ? temp : new;\n"))
ok("cv-inline", R, (CV, "  new = osl_relation_concat_constraints(relation, temp);\n  if (temp != NULL)\n    osl_relation_free(temp);\n  return new;\n"))
BC = "  // Replace the inside of relation.\n  relation->nb_columns = temp->nb_columns;\n  relation->m = temp->m;\n\n  // Free the temp \"shell\".\n  free(temp);\n"
bug("bc-deep", R, (BC, BC.replace("free(temp)", "osl_relation_free(temp)")))
bug("bc-after", R, (BC, "  free(temp);\n  // Replace the inside of relation.\n  relation->nb_columns = temp->nb_columns;\n  relation->m = temp->m;\n"))
ok("bc-deep", R, (BC, BC.replace("  // Free the temp \"shell\".\n  free(temp)", "  temp->m = NULL;\n  temp->nb_rows = 0;\n  osl_relation_free(temp)")))
ok("bc-swap", R, ("  osl_relation_free_inside(relation);\n\n  // Replace the inside of relation.\n  relation->nb_columns = temp->nb_columns;\n  relation->m = temp->m;\n\n  // Free the temp \"shell\".\n  free(temp);\n}\n\n/**\n * osl_relation_from_vector",
   "  osl_relation_free_inside(relation);\n  relation->m = temp->m;\n  relation->nb_columns = temp->nb_columns;\n  free(temp);\n}\n\n/**\n * osl_relation_from_vector"))
SC = "  free(clone->string);\n  OSL_malloc(clone->string, char**, (nb_strings + 1) * sizeof(char*));\n"
bug("str-clone", N, (SC, SC.replace("  free(clone->string);\n", "")))
bug("str-clone-if", N, (SC, SC.replace("  free(clone->string);\n", "  if (nb_strings > 1)\n    free(clone->string);\n")))
ok("str-clone-re", N, (SC, "  OSL_realloc(clone->string, char**, (nb_strings + 1) * sizeof(char*));\n"))
ok("str-clone-tmp", N, (SC, "  char** old = clone->string;\n  OSL_malloc(clone->string, char**, (nb_strings + 1) * sizeof(char*));\n  free(old);\n"))
LP = "    if (!strcmp(loop->private_vars, \"(null)\")) {\n      free(loop->private_vars);\n      loop->private_vars = NULL;\n"
bug("loop-dangling", "extensions/loop.c", (LP, "    if (!strcmp(loop->private_vars, \"(null)\")) {\n      free(loop->private_vars);\n      if (strlen(loop->private_vars) > 0)\n        loop->private_vars = NULL;\n"))
bug("loop-user", "extensions/loop.c", ("        free(loop->user);\n        loop->user = NULL;\n", "        loop->user = NULL;\n"))
ok("loop-local", "extensions/loop.c", ("    loop->private_vars = osl_util_read_line(NULL, input);\n" + LP, "    char* vars = osl_util_read_line(NULL, input);\n    if (strcmp(vars, \"(null)\")) {\n      loop->private_vars = vars;\n    } else {\n      free(vars);\n      loop->private_vars = NULL;\n"))
D = "extensions/dependence.c"
DT = "    tmp = osl_statement_nclone(dependence->stmt_source_ptr, 1);\n    osl_statement_idump(file, tmp, level + 1);\n    osl_statement_free(tmp);\n"
bug("dep-tmp", D, (DT, DT.replace("    osl_statement_free(tmp);\n", "")))
bug("dep-alias", D, (DT, DT.replace("osl_statement_nclone(dependence->stmt_source_ptr, 1)", "dependence->stmt_source_ptr ? osl_statement_nclone(dependence->stmt_source_ptr, 1) : NULL").replace("osl_statement_free(tmp)", "free(tmp)")))
ok("dep-direct", D, (DT, "    if (dependence->stmt_source_ptr != NULL) {\n  " + DT.replace("\n    ", "\n      ").rstrip() + "\n    } else {\n      osl_statement_idump(file, NULL, level + 1);\n    }\n"))
BR = "    vector = osl_vector_pmalloc(relation->precision, relation->nb_columns);\n    osl_relation_insert_vector(relation, vector, row);\n    osl_vector_free(vector);\n"
bug("br-if", R, (BR, BR.replace("    osl_vector_free", "    if (row >= 0)\n      osl_vector_free")))
bug("br-shell", R, (BR, BR.replace("osl_vector_free", "free")))
Y = "extensions/symbols.c"
bug("sym-undef", Y, ("        symbols->type = OSL_UNDEFINED;\n      else\n        OSL_error(\"symbol type not supported\");\n      free(type);\n", "        symbols->type = OSL_UNDEFINED;\n      else\n        OSL_error(\"symbol type not supported\");\n      if (symbols->type != OSL_UNDEFINED)\n        free(type);\n"))
ST = "statement.c"
bug("st-shell", ST, ("    stmt->domain = domain_list->elt;\n    domain_list->elt = NULL;\n    osl_relation_list_free(domain_list);\n", "    stmt->domain = domain_list->elt;\n    domain_list->elt = NULL;\n    if (domain_list->next != NULL)\n      osl_relation_list_free(domain_list);\n"))
bug("st-list", ST, ("    OSL_error(\"unexpected relation type to define a statement\");\n\n  osl_relation_list_free(list);\n", "    OSL_error(\"unexpected relation type to define a statement\");\n\n  osl_relation_list_free(list);\n  if (osl_relation_list_count(list) == 0)\n    OSL_debug(\"empty statement\");\n"))
bug("st-access", ST, ("  nb_accesses = osl_relation_list_count(stmt->access);\n", "  nb_accesses = osl_relation_list_count(osl_relation_list_filter(list, OSL_TYPE_ACCESS));\n"))
ok("st-shell", ST, ("    stmt->domain = domain_list->elt;\n    domain_list->elt = NULL;\n    osl_relation_list_free(domain_list);\n", "    stmt->domain = domain_list->elt;\n    free(domain_list);\n"))
bug("ty-goto", R, ("    type = OSL_TYPE_MAY_WRITE;\n    goto return_type;\n", "    return OSL_TYPE_MAY_WRITE;\n"))
ok("ty-else", R, ("    type = OSL_TYPE_MAY_WRITE;\n    goto return_type;\n", "    osl_strings_free(strings);\n    return OSL_TYPE_MAY_WRITE;\n"))
bug("util-flag", "util.c", ("    OSL_debug(\"flag was not found, end of input reached\");\n    free(res);\n    return NULL;\n", "    OSL_debug(\"flag was not found, end of input reached\");\n    if (nb_chars > 0)\n      free(res);\n    return NULL;\n"))
bug("rl-dup", "relation_list.c", ("  osl_relation_list_push(head, osl_relation_list_clone(top));\n  osl_relation_list_push(head, top);\n", "  osl_relation_list_push(head, osl_relation_list_clone(top));\n  if (*head != NULL && (*head)->next == NULL)\n    return;\n  osl_relation_list_push(head, top);\n"))
bug("rl-filter", "relation_list.c", ("      trash->next = NULL;\n      osl_relation_list_free(trash);\n", "      osl_relation_list_free(trash);\n"))
bug("ex-body", "extensions/extbody.c", ("    free(body_string);\n", "    if (ebody->nb_access)\n      free(body_string);\n"))
SU = "      if (osl_int_pos(precision, val)) {\n        if (!(*first)) {\n"
bug("el-two", R, ("  free(temp);\n  free(body);\n", "  free(temp);\n  if (!cst)\n    free(body);\n"))
TY = "    temp = osl_relation_sprint_type(relation);\n    osl_util_safe_strcat(&string, temp, &high_water_mark);\n    free(temp);\n"
bug("sp-twice", R, (TY, TY.replace("    free(temp);\n", "    free(temp);\n    if (relation->next == NULL)\n      free(temp);\n")))
bug("sp-merge", R, (TY, TY.replace("    free(temp);\n", "")))
ok("sp-two", R, (TY, "    char* kind = osl_relation_sprint_type(relation);\n    osl_util_safe_strcat(&string, kind, &high_water_mark);\n    free(kind);\n"))
ok("sp-block", R, (TY, "    {\n      char* const kind = osl_relation_sprint_type(relation);\n      osl_util_safe_strcat(&string, kind, &high_water_mark);\n      free((void*)kind);\n    }\n"))
