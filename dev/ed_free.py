EDITS = []
def ok(name, file, *subs): EDITS.append(dict(name=name, file="source/" + file, subs=list(subs), kind="ok", props=["C03"]))
def bug(name, file, *subs): EDITS.append(dict(name=name, file="source/" + file, subs=list(subs), kind="bug", props=["C03"]))
GEN = """    next = statement->next;
    osl_relation_free(statement->domain);
    osl_relation_free(statement->scattering);
    osl_relation_list_free(statement->access);
    osl_generic_free(statement->extension);

    free(statement);
    statement = next;"""
ok("f-stmt-helper", "statement.c", ("void osl_statement_free(", """static void osl_statement_release(osl_statement_t* s) {
  osl_relation_free(s->domain);
  osl_relation_free(s->scattering);
  osl_relation_list_free(s->access);
  osl_generic_free(s->extension);
  free(s);
}
void osl_statement_free("""), (GEN, "    next = statement->next;\n    osl_statement_release(statement);\n    statement = next;"))
ok("f-stmt-rec", "statement.c", ("  osl_statement_p next;\n\n  while (statement != NULL) {\n" + GEN + "\n  }", """  if (statement == NULL)
    return;
  osl_statement_free(statement->next);
  if (statement->domain) osl_relation_free(statement->domain);
  osl_relation_free(statement->scattering);
  osl_relation_list_free(statement->access);
  osl_generic_free(statement->extension);
  free(statement);"""))
ok("f-stmt-for", "statement.c", ("  while (statement != NULL) {\n" + GEN, "  for (; statement != NULL; statement = next) {\n" + GEN.replace("    statement = next;", "")))
ok("f-strings-for", "strings.c", ("""      i = 0;
      while (strings->string[i] != NULL) {
        free(strings->string[i]);
        i++;
      }
""", """      char** p;
      for (p = strings->string; *p; p++)
        free(*p);
      (void)i;
"""))
ok("f-strings-size", "strings.c", ("""      i = 0;
      while (strings->string[i] != NULL) {
        free(strings->string[i]);
        i++;
      }
""", """      int n = (int)osl_strings_size(strings);
      for (i = n - 1; i >= 0; i--)
        free(strings->string[i]);
"""))
ok("f-rel-nested", "relation.c", ("""  nb_elements = relation->nb_rows * relation->nb_columns;

  for (i = 0; i < nb_elements; i++)
    osl_int_clear(relation->precision, &relation->m[0][i]);
""", """  int j;
  nb_elements = relation->nb_rows * relation->nb_columns;
  for (i = 0; i < relation->nb_rows; i++)
    for (j = 0; j < relation->nb_columns; j++)
      osl_int_clear(relation->precision, &relation->m[i][j]);
"""))
ok("f-rel-rowcol", "relation.c", ("    if (nb_elements > 0)\n      free(relation->m[0]);", "    if (relation->nb_rows > 0 && relation->nb_columns > 0)\n      free(relation->m[0]);"))
ok("f-arrays-order", "extensions/arrays.c", ("""    free(arrays->id);
    for (i = 0; i < arrays->nb_names; i++)
      free(arrays->names[i]);
    free(arrays->names);
""", """    i = arrays->nb_names;
    while (i-- > 0)
      free(arrays->names[i]);
    free(arrays->names);
    if (arrays->id != NULL)
      free(arrays->id);
"""))
ok("f-generic-ptr", "generic.c", ("""    if (generic->interface != NULL) {
      generic->interface->free(generic->data);
      osl_interface_free(generic->interface);
    } else {""", """    osl_interface_t* itf = generic->interface;
    if (itf) {
      osl_free_f release = itf->free;
      release(generic->data);
      osl_interface_free(itf);
    } else {"""))
ok("f-region-unroll", "extensions/region.c", ("""    osl_region_t* const tmp = region;
""", """    osl_region_t* tmp = region;
"""), ("    /* Move along. */\n    region = region->next;\n\n    /* Do not forget to free the current region. */\n    free(tmp);", "    tmp = region->next;\n    free(region);\n    region = tmp;"))
ok("f-vector-while", "vector.c", ("      for (i = 0; i < vector->size; i++)\n        osl_int_clear(vector->precision, &vector->v[i]);\n\n      free(vector->v);", "      int n = vector->size, precision = vector->precision;\n      osl_int_p cell = vector->v;\n      for (i = n; i > 0; i--)\n        osl_int_clear(precision, cell++);\n      free(vector->v);"))
ok("f-loop-nocheck", "extensions/loop.c", ("    if (loop->iter)\n      free(loop->iter);\n    if (loop->stmt_ids)\n      free(loop->stmt_ids);", "    free(loop->iter);\n    free(loop->stmt_ids);"))
ok("f-null", "body.c", ("  if (body != NULL) {\n    osl_strings_free(body->iterators);\n    osl_strings_free(body->expression);\n    free(body);\n  }", "  if (!body)\n    return;\n  osl_strings_free(body->expression);\n  osl_strings_free(body->iterators);\n  free(body);"))
ok("f-scop-tmp", "scop.c", ("    if (scop->language != NULL)\n      free(scop->language);\n", "    char* language = scop->language;\n    free(language);\n"))
ok("f-irr-merge", "extensions/irregular.c", ("      for (j = 0; j < irregular->nb_iterators[i]; j++)\n        free(irregular->iterators[i][j]);\n      free(irregular->iterators[i]);\n      free(irregular->body[i]);", "      char** its = irregular->iterators[i];\n      j = 0;\n      while (j < irregular->nb_iterators[i])\n        free(its[j++]);\n      free(its);\n      free(irregular->body[i]);"))
ok("f-text-clean", "extensions/annotation.c", ("      if (text->lines[i])\n        free(text->lines[i]);", "      free(text->lines[i]);"))

bug("x-stmt-next", "statement.c", (GEN, GEN.replace("    next = statement->next;\n", "").replace("    statement = next;", "    next = statement->next;\n    statement = next;")))
bug("x-stmt-noscatt", "statement.c", ("    osl_relation_free(statement->scattering);\n    osl_relation_list_free", "    osl_relation_list_free"))
bug("x-stmt-twice", "statement.c", ("    osl_relation_free(statement->scattering);\n    osl_relation_list_free", "    osl_relation_free(statement->domain);\n    osl_relation_list_free"))
bug("x-rel-row", "relation.c", ("    if (nb_elements > 0)\n      free(relation->m[0]);", "    if (nb_elements > 1)\n      free(relation->m[0]);"))
bug("x-rel-order", "relation.c", ("    if (nb_elements > 0)\n      free(relation->m[0]);\n    free(relation->m);", "    free(relation->m);\n    if (nb_elements > 0)\n      free(relation->m[0]);"))
bug("x-rel-cells", "relation.c", ("  nb_elements = relation->nb_rows * relation->nb_columns;\n\n  for (i = 0; i < nb_elements; i++)\n    osl_int_clear", "  nb_elements = relation->nb_rows * relation->nb_columns;\n\n  for (i = 1; i < nb_elements; i++)\n    osl_int_clear"))
bug("x-rel-rows", "relation.c", ("  nb_elements = relation->nb_rows * relation->nb_columns;\n\n  for (i = 0; i < nb_elements; i++)\n    osl_int_clear", "  nb_elements = relation->nb_rows * relation->nb_columns;\n\n  for (i = 0; i < relation->nb_rows; i++)\n    osl_int_clear"))
bug("x-strings-off", "strings.c", ("      i = 0;\n      while (strings->string[i] != NULL) {\n        free", "      i = 1;\n      while (strings->string[i] != NULL) {\n        free"))
bug("x-strings-arr", "strings.c", ("        i++;\n      }\n      free(strings->string);\n    }\n    free(strings);", "        i++;\n      }\n    }\n    free(strings);"))
bug("x-arrays-off", "extensions/arrays.c", ("    for (i = 0; i < arrays->nb_names; i++)\n      free(arrays->names[i]);", "    for (i = 0; i < arrays->nb_names - 1; i++)\n      free(arrays->names[i]);"))
bug("x-generic-iface", "generic.c", ("      osl_interface_free(generic->interface);\n    } else", "    } else"))
bug("x-generic-order", "generic.c", ("      generic->interface->free(generic->data);\n      osl_interface_free(generic->interface);\n    } else", "      osl_interface_free(generic->interface);\n      generic->interface->free(generic->data);\n    } else"))
bug("x-symbols-extent", "extensions/symbols.c", ("    osl_generic_free(symbols->scope);\n    osl_generic_free(symbols->extent);", "    osl_generic_free(symbols->scope);\n    osl_generic_free(symbols->scope);"))
bug("x-dep-borrow", "extensions/dependence.c", ("    osl_relation_free(dependence->domain);\n    free(dependence);", "    osl_relation_free(dependence->domain);\n    osl_statement_free(dependence->stmt_source_ptr);\n    free(dependence);"))
bug("x-loop-user", "extensions/loop.c", ("    if (loop->user)\n      free(loop->user);\n", "    if (loop->user)\n      free(loop->private_vars);\n"))
bug("x-loop-next", "extensions/loop.c", ("    loop = loop->next;\n\n    free(tmp);", "    free(tmp);\n    loop = loop->next;\n"))
bug("x-list-one", "relation_list.c", ("    tmp = list->next;\n    free(list);\n    list = tmp;", "    tmp = NULL;\n    free(list);\n    list = tmp;"))
bug("x-coord-name", "extensions/coordinates.c", ("    free(coordinates->name);", "    if (coordinates->indent)\n      free(coordinates->name);"))
bug("x-scatinfos", "extensions/scatinfos.c", ("    if (scatinfos->type)\n      free(scatinfos->type);\n", ""))
bug("x-body-null", "body.c", ("  if (body != NULL) {\n    osl_strings_free(body->iterators);\n    osl_strings_free(body->expression);\n    free(body);\n  }", "  osl_strings_free(body->iterators);\n  if (body != NULL) {\n    osl_strings_free(body->expression);\n    free(body);\n  }"))
bug("x-vector-size", "vector.c", ("      for (i = 0; i < vector->size; i++)\n        osl_int_clear(vector->precision, &vector->v[i]);", "      for (i = 0; i <= vector->size; i++)\n        osl_int_clear(vector->precision, &vector->v[i]);"))
bug("x-irr-iter", "extensions/irregular.c", ("      for (j = 0; j < irregular->nb_iterators[i]; j++)\n        free(irregular->iterators[i][j]);\n      free(irregular->iterators[i]);", "      free(irregular->iterators[i]);"))
bug("x-names-dims", "names.c", ("    osl_strings_free(names->scatt_dims);\n", ""))
bug("x-pluto-list", "extensions/pluto_unroll.c", ("    osl_pluto_unroll_free(pluto_unroll->next);\n\n    free(pluto_unroll->iter);", "    free(pluto_unroll->iter);\n    if (pluto_unroll->iter) osl_pluto_unroll_free(pluto_unroll->next);"))
bug("x-extbody-len", "extensions/extbody.c", ("    free(ebody->start);\n    free(ebody->length);", "    free(ebody->start);\n    free(ebody->start);"))
