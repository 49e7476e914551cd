EDITS = []
ALL = ["C23"]
def ok(name, file, *subs, props=ALL): EDITS.append(dict(name=name, file="source/" + file, subs=list(subs), kind="ok", props=props))
def bug(name, file, *subs, props=ALL): EDITS.append(dict(name=name, file="source/" + file, subs=list(subs), kind="bug", props=props))
R, RL, ST, SC = "relation.c", "relation_list.c", "statement.c", "scop.c"
TY = "  while (relation != NULL) {\n    relation->type = type;\n    relation = relation->next;\n  }\n"
ok("u-type-for", R, (TY, "  osl_relation_t* r;\n  for (r = relation; r; r = r->next)\n    r->type = type;\n"))
ok("u-type-rec", R, (TY, "  if (relation == NULL)\n    return;\n  relation->type = type;\n  osl_relation_set_type(relation->next, type);\n"))
ok("u-type-do", R, (TY, "  if (!relation)\n    return;\n  do {\n    relation->type = type;\n    relation = relation->next;\n  } while (relation != NULL);\n"))
ok("u-type-break", R, (TY, "  if (!relation)\n    return;\n  while (1) {\n    relation->type = type;\n    if (relation->next == NULL)\n      break;\n    relation = relation->next;\n  }\n"))
ok("u-type-if", R, (TY, TY.replace("    relation->type = type;", "    if (relation->type != type)\n      relation->type = type;")))
bug("u-type-first", R, (TY, "  if (relation != NULL)\n    relation->type = type;\n"))
bug("u-type-stop", R, (TY, TY.replace("while (relation != NULL)", "while (relation != NULL && relation->type != type)")))
bug("u-type-last", R, (TY, "  if (relation == NULL)\n    return;\n  while (relation->next != NULL) {\n    relation->type = type;\n    relation = relation->next;\n  }\n"))
bug("u-type-cond", R, (TY, TY.replace("    relation->type = type;", "    if (relation->type != OSL_UNDEFINED)\n      relation->type = type;")))
bug("u-type-reccond", R, (TY, "  if (relation == NULL)\n    return;\n  relation->type = type;\n  if (relation->next && relation->next->next)\n    osl_relation_set_type(relation->next, type);\n"))
AT = "    osl_relation_set_attributes_one(relation, nb_output_dims, nb_input_dims,\n                                    nb_local_dims, nb_parameters);\n"
ok("u-attr-inline", R, (AT, "    relation->nb_parameters = nb_parameters;\n    relation->nb_output_dims = nb_output_dims;\n    relation->nb_input_dims = nb_input_dims;\n    relation->nb_local_dims = nb_local_dims;\n"))
bug("u-attr-swap", R, (AT, AT.replace("nb_output_dims, nb_input_dims", "nb_input_dims, nb_output_dims")))
bug("u-attr-local", R, (AT, "    relation->nb_parameters = nb_parameters;\n    relation->nb_output_dims = nb_output_dims;\n    relation->nb_input_dims = nb_input_dims;\n    if (nb_local_dims > 0)\n      relation->nb_local_dims = nb_local_dims;\n"))
bug("u-attr1", R, ("    relation->nb_local_dims = nb_local_dims;\n    relation->nb_parameters = nb_parameters;\n  }\n}", "    relation->nb_local_dims = nb_local_dims;\n    if (relation->nb_parameters == OSL_UNDEFINED)\n      relation->nb_parameters = nb_parameters;\n  }\n}"))
LT = "  while (list != NULL) {\n    osl_relation_set_type(list->elt, type);\n    list = list->next;\n  }\n"
ok("u-ltype-for", RL, (LT, "  for (; list; list = list->next)\n    if (list->elt)\n      osl_relation_set_type(list->elt, type);\n"))
bug("u-ltype-one", RL, (LT, LT.replace("osl_relation_set_type(list->elt, type);", "if (list->elt)\n      list->elt->type = type;")))
bug("u-ltype-stop", RL, (LT, LT.replace("list != NULL", "list != NULL && list->elt != NULL")))
PR = """  while (r != NULL) {
    if (precision != r->precision) {
      size_t i;
      size_t j;
      for (i = 0; i < (size_t)r->nb_rows; ++i) {
        for (j = 0; j < (size_t)r->nb_columns; ++j) {
          osl_int_set_precision(r->precision, precision, &r->m[i][j]);
        }
      }
      r->precision = precision;
    }
    r = r->next;
  }
"""
ok("u-prec-helper", R, (PR, "  for (; r; r = r->next)\n    if (r->precision != precision)\n      convert_part(r, precision);\n"), ("/**\n * osl_relation_set_precision function:", """static void convert_part(osl_relation_t* r, int to) {
  int i, j, from = r->precision;
  r->precision = to;
  for (j = 0; j < r->nb_columns; j++)
    for (i = 0; i < r->nb_rows; i++)
      osl_int_set_precision(from, to, &r->m[i][j]);
}

/**\n * osl_relation_set_precision function:"""))
ok("u-prec-down", R, (PR, PR.replace("size_t i;", "int i;").replace("size_t j;", "int j;").replace("for (i = 0; i < (size_t)r->nb_rows; ++i)", "for (i = r->nb_rows - 1; i >= 0; i--)").replace("(size_t)r->nb_col", "r->nb_col")))
ok("u-prec-continue", R, (PR, PR.replace("    if (precision != r->precision) {", "    int same = precision == r->precision;\n    if (!same) {")))
bug("u-prec-first", R, (PR, PR.replace("    r = r->next;\n  }\n", "    break;\n  }\n")))
bug("u-prec-stop", R, (PR, PR.replace("  while (r != NULL) {", "  while (r != NULL && r->precision != precision) {")))
bug("u-prec-order", R, (PR, PR.replace("      r->precision = precision;\n", "").replace("      size_t i;", "      r->precision = precision;\n      size_t i;")))
bug("u-prec-rows", R, (PR, PR.replace("(size_t)r->nb_rows", "(size_t)r->nb_columns")))
bug("u-prec-col1", R, (PR, PR.replace("for (j = 0", "for (j = 1")))
bug("u-prec-norec", R, (PR, PR.replace("      r->precision = precision;\n", "      if (r->nb_rows > 0)\n        r->precision = precision;\n")))
bug("u-prec-skip0", R, (PR, PR.replace("          osl_int_set_precision(", "          if (!osl_int_zero(r->precision, r->m[i][j]))\n            osl_int_set_precision(")))
bug("u-same-a", R, ("    if (a->precision == OSL_PRECISION_MP || b->precision == OSL_PRECISION_MP) {\n      osl_relation_set_precision(OSL_PRECISION_MP, a);\n      osl_relation_set_precision(OSL_PRECISION_MP, b);", "    if (a->precision == OSL_PRECISION_MP || b->precision == OSL_PRECISION_MP) {\n      osl_relation_set_precision(OSL_PRECISION_MP, a);\n      osl_relation_set_precision(OSL_PRECISION_MP, a);"))
bug("u-same-dp", R, ("    if (a->precision == OSL_PRECISION_MP || b->precision == OSL_PRECISION_MP) {\n      osl_relation_set_precision(OSL_PRECISION_MP, a);", "    if (a->precision == OSL_PRECISION_MP) {\n      osl_relation_set_precision(OSL_PRECISION_MP, a);"))
SAME = """    if (a->precision == OSL_PRECISION_MP || b->precision == OSL_PRECISION_MP) {
      osl_relation_set_precision(OSL_PRECISION_MP, a);
      osl_relation_set_precision(OSL_PRECISION_MP, b);
    } else if (a->precision == OSL_PRECISION_DP ||
               b->precision == OSL_PRECISION_DP) {
      osl_relation_set_precision(OSL_PRECISION_DP, a);
      osl_relation_set_precision(OSL_PRECISION_DP, b);
    }
"""
ok("u-same-pick", R, (SAME, """    int p = OSL_PRECISION_DP;
    if (a->precision == OSL_PRECISION_MP || b->precision == OSL_PRECISION_MP)
      p = OSL_PRECISION_MP;
    osl_relation_set_precision(p, b);
    osl_relation_set_precision(p, a);
"""))
ok("u-same-one", R, (SAME, """    if (a->precision == OSL_PRECISION_MP || (a->precision == OSL_PRECISION_DP && b->precision == OSL_PRECISION_SP))
      osl_relation_set_precision(a->precision, b);
    else
      osl_relation_set_precision(b->precision, a);
"""))
bug("u-same-low", R, (SAME, """    if (a->precision > b->precision)
      osl_relation_set_precision(a->precision, b);
    else
      osl_relation_set_precision(b->precision, a);
"""))
# maxima
bug("u-max-iter", R, ("    *nb_iterators = OSL_max(*nb_iterators, local_nb_iterators);\n    *nb_scattdims = OSL_max(*nb_scattdims, local_nb_scattdims);\n    *nb_localdims = OSL_max(*nb_localdims, local_nb_localdims);\n    *array_id = OSL_max(*array_id, local_array_id);\n    relation = relation->next;", "    *nb_iterators = local_nb_iterators;\n    *nb_scattdims = OSL_max(*nb_scattdims, local_nb_scattdims);\n    *nb_localdims = OSL_max(*nb_localdims, local_nb_localdims);\n    *array_id = OSL_max(*array_id, local_array_id);\n    relation = relation->next;"))
bug("u-max-dom", R, ("        local_nb_iterators = relation->nb_output_dims;\n        local_nb_scattdims = 0;", "        local_nb_iterators = relation->nb_input_dims;\n        local_nb_scattdims = 0;"))
bug("u-max-stop", R, ("    *array_id = OSL_max(*array_id, local_array_id);\n    relation = relation->next;", "    *array_id = OSL_max(*array_id, local_array_id);\n    relation = (type == OSL_TYPE_CONTEXT) ? NULL : relation->next;"))
bug("u-max-ctx", R, ("    *array_id = OSL_max(*array_id, local_array_id);\n    relation = relation->next;", "    if (*array_id < local_array_id)\n      *array_id = local_array_id + 1;\n    relation = relation->next;"))
ok("u-max-if", R, ("    *array_id = OSL_max(*array_id, local_array_id);\n    relation = relation->next;", "    if (*array_id < local_array_id)\n      *array_id = local_array_id;\n    relation = relation->next;"))
ok("u-max-arr", R, ("        local_nb_scattdims = 0;\n        local_nb_localdims = relation->nb_local_dims;\n        local_array_id = osl_relation_get_array_id(relation);", "        local_nb_localdims = relation->nb_local_dims;\n        local_array_id = osl_relation_get_array_id(relation);\n        local_nb_scattdims = 0;"))
LG = "    osl_relation_get_attributes(list->elt, &local_nb_parameters,\n                                &local_nb_iterators, &local_nb_scattdims,\n                                &local_nb_localdims, &local_array_id);\n"
bug("u-lmax-swap", RL, (LG, LG.replace("&local_nb_iterators, &local_nb_scattdims", "&local_nb_scattdims, &local_nb_iterators")))
bug("u-lmax-local", RL, ("    *nb_localdims = OSL_max(*nb_localdims, local_nb_localdims);\n    *array_id = OSL_max(*array_id, local_array_id);\n    list = list->next;", "    *nb_localdims = OSL_max(*nb_localdims, local_nb_iterators);\n    *array_id = OSL_max(*array_id, local_array_id);\n    list = list->next;"))
LU = """    // Update.
    *nb_parameters = OSL_max(*nb_parameters, local_nb_parameters);
    *nb_iterators = OSL_max(*nb_iterators, local_nb_iterators);
    *nb_scattdims = OSL_max(*nb_scattdims, local_nb_scattdims);
    *nb_localdims = OSL_max(*nb_localdims, local_nb_localdims);
    *array_id = OSL_max(*array_id, local_array_id);
    list = list->next;
"""
ok("u-lmax-direct", RL, (LG + LU, "    osl_relation_get_attributes(list->elt, nb_parameters, nb_iterators, nb_scattdims, nb_localdims, array_id);\n    list = list->next;\n"))
bug("u-lmax-reset", RL, (LU, LU.replace("    *nb_iterators = OSL_max(*nb_iterators, local_nb_iterators);", "    *nb_iterators = OSL_max(*nb_parameters, local_nb_iterators);")))
SG = """    osl_relation_get_attributes(statement->scattering, &local_nb_parameters,
                                &local_nb_iterators, &local_nb_scattdims,
                                &local_nb_localdims, &local_array_id);
"""
bug("u-smax-noscat", ST, (SG, ""))
bug("u-smax-cond", ST, (SG, "    if (statement->domain == NULL)\n  " + SG.replace("\n", "\n  ")))
ok("u-smax-order", ST, (SG, ""), ("    osl_relation_get_attributes(statement->domain, &local_nb_parameters,", SG + "    osl_relation_get_attributes(statement->domain, &local_nb_parameters,"))
bug("u-smax-dom2", ST, (SG, SG.replace("statement->scattering", "statement->domain")))
bug("u-scmax-ctx", SC, ("    osl_relation_get_attributes(scop->context, &local_nb_parameters,\n                                &local_nb_iterators,", "    if (scop->statement == NULL)\n      osl_relation_get_attributes(scop->context, &local_nb_parameters,\n                                &local_nb_iterators,"))
bug("u-names-swap", SC, ('osl_names_generate("P", nb_parameters, "i", nb_iterators, "c",\n                            nb_scattdims, "l", nb_localdims', 'osl_names_generate("P", nb_parameters, "i", nb_iterators, "c",\n                            nb_localdims, "l", nb_scattdims'))
# extension
bug("u-ext-loc", R, ("    node->nb_local_dims = relation->nb_local_dims;\n    node->nb_parameters = relation->nb_parameters;\n\n    // Copy of", "    node->nb_local_dims = first ? relation->nb_local_dims : extended->nb_local_dims;\n    node->nb_parameters = relation->nb_parameters;\n\n    // Copy of"))
bug("u-ext-off", R, ("    offset = dim - relation->nb_output_dims;\n", "    if (first)\n      offset = dim - relation->nb_output_dims;\n"))
bug("u-ext-rows", R, ("    node = osl_relation_pmalloc(precision, relation->nb_rows + offset,\n                                relation->nb_columns + offset);\n\n    node->type", "    node = osl_relation_pmalloc(precision, relation->nb_rows,\n                                relation->nb_columns + offset);\n\n    node->type"))
bug("u-ext-type", R, ("    node->type = relation->type;\n    node->nb_output_dims = OSL_max", "    node->type = OSL_TYPE_SCATTERING;\n    node->nb_output_dims = OSL_max"))
bug("u-ext-link", R, ("      previous->next = node;\n      previous = previous->next;\n    }\n\n    relation = relation->next;\n  }\n\n  return extended;", "      extended->next = node;\n      previous = previous->next;\n    }\n\n    relation = relation->next;\n  }\n\n  return extended;"))
ok("u-ext-dim", R, ("    node->nb_output_dims = OSL_max(relation->nb_output_dims, dim);", "    node->nb_output_dims = dim;"))
# normalisation
NM = """      scattering = statement->scattering;
      while (scattering != NULL) {
        max_scattering_dims =
            OSL_max(max_scattering_dims, scattering->nb_output_dims);
        scattering = scattering->next;
      }
"""
ok("u-norm-for", SC, (NM, "      for (scattering = statement->scattering; scattering; scattering = scattering->next)\n        if (scattering->nb_output_dims > max_scattering_dims)\n          max_scattering_dims = scattering->nb_output_dims;\n"))
ok("u-norm-helper", SC, (NM, "      (void)scattering;\n      max_scattering_dims = largest(statement->scattering, max_scattering_dims);\n"), ("/**\n * osl_scop_normalize_scattering function:", "static int largest(const osl_relation_t* r, int m) {\n  for (; r != NULL; r = r->next)\n    m = OSL_max(m, r->nb_output_dims);\n  return m;\n}\n\n/**\n * osl_scop_normalize_scattering function:"))
bug("u-norm-first", SC, (NM, "      scattering = statement->scattering;\n      if (scattering)\n        max_scattering_dims = OSL_max(max_scattering_dims, scattering->nb_output_dims);\n"))
bug("u-norm-in", SC, (NM, NM.replace("scattering->nb_output_dims)", "scattering->nb_input_dims)")))
bug("u-norm-reset", SC, (NM, "      max_scattering_dims = 0;\n" + NM))
bug("u-norm-skip", SC, ("      if (statement->scattering != NULL) {\n        extended", "      if (statement->scattering != NULL && statement->scattering->nb_output_dims < max_scattering_dims) {\n        extended"))
bug("u-norm-last", SC, ("    // Normalize.\n    statement = scop->statement;\n    while (statement != NULL) {", "    // Normalize.\n    statement = scop->statement;\n    while (statement->next != NULL) {"))
# union removal
bug("u-rm-acc", ST, ("      new_statement->access = osl_relation_list_clone(statement->access);\n", "      new_statement->access = result ? NULL : osl_relation_list_clone(statement->access);\n"))
bug("u-rm-scat", ST, ("osl_relation_clone_one_safe(scattering)", "osl_relation_clone_one_safe(statement->scattering)"))
bug("u-rm-whole", ST, ("osl_relation_clone_one_safe(domain)", "osl_relation_clone(domain)"))
bug("u-rm-inner", ST, ("      if (scattering == NULL || scattering->next == NULL)\n        break;", "      if (scattering == NULL || scattering->next == NULL || domain == NULL)\n        break;"))
bug("u-rm-zip", ST, ("      scattering = scattering->next;\n    } while (1);", "      scattering = scattering->next;\n      if (domain != NULL && domain->next != NULL)\n        domain = domain->next;\n    } while (1);"))
bug("u-rm-link", ST, ("        statement_ptr->next = new_statement;\n        statement_ptr = statement_ptr->next;\n      }\n      if (scattering", "        statement_ptr->next = new_statement;\n      }\n      if (scattering"))
bug("u-rms-tail", SC, ("      while (scop_statement_ptr->next != NULL)\n        scop_statement_ptr = scop_statement_ptr->next;\n", "      if (scop_statement_ptr->next != NULL)\n        scop_statement_ptr = scop_statement_ptr->next;\n"))
bug("u-rms-par", SC, ("    new_scop->parameters = osl_generic_clone(scop->parameters);\n    new_scop->registry = osl_interface_clone(scop->registry);\n    new_scop->version = scop->version;\n    if (!result)", "    if (!result)\n      new_scop->parameters = osl_generic_clone(scop->parameters);\n    new_scop->registry = osl_interface_clone(scop->registry);\n    new_scop->version = scop->version;\n    if (!result)"))
bug("u-rms-link", SC, ("      scop_ptr->next = new_scop;\n      scop_ptr = scop_ptr->next;\n    }\n  }\n\n  return result;", "      scop_ptr->next = new_scop;\n    }\n  }\n\n  return result;"))
ok("u-rms-lang", SC, ("    if (scop->language != NULL) {\n      OSL_malloc(new_scop->language, char*, strlen(scop->language) + 1);\n      new_scop->language = strcpy(new_scop->language, scop->language);\n    }\n    new_scop->parameters = osl_generic_clone(scop->parameters);\n    new_scop->registry = osl_interface_clone(scop->registry);\n    new_scop->version = scop->version;\n    if (!result)", "    OSL_strdup(new_scop->language, scop->language);\n    new_scop->parameters = osl_generic_clone(scop->parameters);\n    new_scop->registry = osl_interface_clone(scop->registry);\n    new_scop->version = scop->version;\n    if (!result)"))
ok("u-rm-helper", ST, ("      osl_statement_p new_statement = osl_statement_malloc();\n      new_statement->domain = osl_relation_clone_one_safe(domain);\n      new_statement->scattering = osl_relation_clone_one_safe(scattering);\n      new_statement->access = osl_relation_list_clone(statement->access);\n      new_statement->extension = osl_generic_clone(statement->extension);\n", "      osl_statement_p new_statement = pair_of(statement, domain, scattering);\n"), ("/**\n * osl_statement_remove_unions function:", "static osl_statement_p pair_of(const osl_statement_t* s, osl_relation_p d, osl_relation_p c) {\n  osl_statement_p n = osl_statement_malloc();\n  n->access = osl_relation_list_clone(s->access);\n  n->extension = osl_generic_clone(s->extension);\n  n->domain = d ? osl_relation_nclone(d, 1) : NULL;\n  n->scattering = c ? osl_relation_nclone(c, 1) : NULL;\n  return n;\n}\n\n/**\n * osl_statement_remove_unions function:"))
