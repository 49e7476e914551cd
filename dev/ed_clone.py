EDITS = []
def ok(name, file, *subs): EDITS.append(dict(name=name, file="source/" + file, subs=list(subs), kind="ok", props=["C01"]))
def bug(name, file, *subs): EDITS.append(dict(name=name, file="source/" + file, subs=list(subs), kind="bug", props=["C01"]))

APP = """    if (first) {
      first = 0;
      clone = node;
      previous = node;
    } else {
      previous->next = node;
      previous = previous->next;
    }
"""
ok("c1-ptrptr", "relation_list.c", ("  osl_relation_list_p clone = NULL, node, previous = NULL;\n  int first = 1;\n\n  while (list != NULL) {\n    node = osl_relation_list_malloc();\n    node->elt = osl_relation_clone(list->elt);\n\n" + APP,
   "  osl_relation_list_p clone = NULL, node;\n  osl_relation_list_p* tail = &clone;\n\n  while (list != NULL) {\n    node = osl_relation_list_malloc();\n    node->elt = osl_relation_clone(list->elt);\n    *tail = node;\n    tail = &node->next;\n"))
ok("c1-scop-if-clone-null", "scop.c", (APP, """    if (clone == NULL)
      clone = node;
    else
      previous->next = node;
    previous = node;
"""), ("osl_scop_p clone = NULL, node, previous = NULL;\n  int first = 1;\n\n  while (scop != NULL) {\n    node = osl_scop_malloc();\n    node->version", "osl_scop_p clone = NULL, node, previous = NULL;\n\n  while (scop != NULL) {\n    node = osl_scop_malloc();\n    node->version"))
ok("c1-names-helper", "names.c", ("osl_names_t* osl_names_clone(", """static void osl_names_copy_dims(osl_names_p to, const osl_names_t* from) {
  to->scatt_dims = osl_strings_clone(from->scatt_dims);
  to->local_dims = osl_strings_clone(from->local_dims);
}
osl_names_t* osl_names_clone("""), ("    clone->scatt_dims = osl_strings_clone(names->scatt_dims);\n    clone->local_dims = osl_strings_clone(names->local_dims);\n", "    osl_names_copy_dims(clone, names);\n"))
ok("c1-reloop", "extensions/arrays.c", ("""  for (i = 0; i < arrays->nb_names; i++) {
    clone->id[i] = arrays->id[i];
    OSL_strdup(clone->names[i], arrays->names[i]);
  }

  return clone;""", """  for (i = 0; i < arrays->nb_names; i++)
    clone->id[i] = arrays->id[i];
  i = 0;
  while (i < clone->nb_names) {
    OSL_strdup(clone->names[i], arrays->names[i]);
    ++i;
  }

  return clone;"""))
ok("c1-backloop", "extensions/arrays.c", ("""  for (i = 0; i < arrays->nb_names; i++) {
    clone->id[i] = arrays->id[i];
    OSL_strdup(clone->names[i], arrays->names[i]);
  }

  return clone;""", """  for (i = arrays->nb_names - 1; i >= 0; i--) {
    clone->id[i] = arrays->id[i];
    OSL_strdup(clone->names[i], arrays->names[i]);
  }

  return clone;"""))
ok("c1-arrays-memcpy", "extensions/arrays.c", ("  for (i = 0; i < arrays->nb_names; i++) {\n    clone->id[i] = arrays->id[i];\n    OSL_strdup(clone->names[i], arrays->names[i]);\n  }\n\n  return clone;",
  "  memcpy(clone->id, arrays->id, (size_t)arrays->nb_names * sizeof(int));\n  for (i = 0; i < arrays->nb_names; i++)\n    OSL_strdup(clone->names[i], arrays->names[i]);\n\n  return clone;"))
ok("c1-arrays-local", "extensions/arrays.c", ("""  clone = osl_arrays_malloc();
  clone->nb_names = arrays->nb_names;
  OSL_malloc(clone->id, int*, (size_t)arrays->nb_names * sizeof(int));
  OSL_malloc(clone->names, char**, (size_t)arrays->nb_names * sizeof(char*));

  for (i = 0; i < arrays->nb_names; i++) {
    clone->id[i] = arrays->id[i];
    OSL_strdup(clone->names[i], arrays->names[i]);
  }
""", """  const int count = arrays->nb_names;
  int* ids;
  char** names;
  OSL_malloc(ids, int*, (size_t)count * sizeof(int));
  OSL_malloc(names, char**, (size_t)count * sizeof(char*));

  for (i = 0; i < count; i++) {
    ids[i] = arrays->id[i];
    OSL_strdup(names[i], arrays->names[i]);
  }
  clone = osl_arrays_malloc();
  clone->nb_names = count;
  clone->id = ids;
  clone->names = names;
"""))
ok("c1-arrays-ptr", "extensions/arrays.c", ("""  for (i = 0; i < arrays->nb_names; i++) {
    clone->id[i] = arrays->id[i];
    OSL_strdup(clone->names[i], arrays->names[i]);
  }

  return clone;""", """  const int* from = arrays->id;
  int* to = clone->id;
  for (i = 0; i < arrays->nb_names; i++) {
    *to++ = *from++;
    OSL_strdup(clone->names[i], arrays->names[i]);
  }

  return clone;"""))
ok("c1-loop-swap", "extensions/loop.c", ("    if (clone == NULL) {\n      head = clone = osl_loop_clone_one(loop);\n    } else {\n      clone->next = osl_loop_clone_one(loop);\n      clone = clone->next;\n    }\n",
  "    osl_loop_p one = osl_loop_clone_one(loop);\n    if (head == NULL)\n      head = one;\n    else\n      clone->next = one;\n    clone = one;\n"))
ok("c1-loop-recursive", "extensions/loop.c", ("  while (loop) {\n    if (clone == NULL) {\n      head = clone = osl_loop_clone_one(loop);\n    } else {\n      clone->next = osl_loop_clone_one(loop);\n      clone = clone->next;\n    }\n\n    loop = loop->next;\n  }\n",
  "  clone = osl_loop_clone_one(loop);\n  head = clone;\n  clone->next = osl_loop_clone(loop->next);\n"))
ok("c1-iface-for", "interface.c", ("  int i = 0;\n\n  while ((interface != NULL) && ((n == -1) || (i < n))) {\n    new = osl_interface_malloc();\n    OSL_strdup", "\n  for (int i = 0; interface != NULL && (n == -1 || i < n); i++, interface = interface->next) {\n    new = osl_interface_malloc();\n    OSL_strdup"),
  ("    osl_interface_add(&clone, new);\n    interface = interface->next;\n    i++;\n", "    osl_interface_add(&clone, new);\n"))
ok("c1-iface-countdown", "interface.c", ("  int i = 0;\n\n  while ((interface != NULL) && ((n == -1) || (i < n))) {\n    new = osl_interface_malloc();\n    OSL_strdup", "\n  while (interface != NULL && n != 0) {\n    new = osl_interface_malloc();\n    OSL_strdup"),
  ("    osl_interface_add(&clone, new);\n    interface = interface->next;\n    i++;\n", "    osl_interface_add(&clone, new);\n    interface = interface->next;\n    if (n > 0)\n      n--;\n"))
ok("c1-rel-rowptr", "relation.c", ("""        osl_int_assign(relation->precision, &node->m[i][j], relation->m[i][j]);

    if (first)""", """      {
        const osl_int_t* src = relation->m[i];
        osl_int_t* dst = node->m[i];
        osl_int_assign(node->precision, dst + j, src[j]);
      }

    if (first)"""))
ok("c1-rel-helper", "relation.c", ("osl_relation_t* osl_relation_nclone(", """static void osl_relation_copy_cells(osl_relation_p node, const osl_relation_t* src) {
  for (int r = 0; r < src->nb_rows; r++)
    for (int c = 0; c < src->nb_columns; c++)
      osl_int_assign(src->precision, &node->m[r][c], src->m[r][c]);
}
osl_relation_t* osl_relation_nclone("""), ("""    for (i = 0; i < relation->nb_rows; i++)
      for (j = 0; j < relation->nb_columns; j++)
        osl_int_assign(relation->precision, &node->m[i][j], relation->m[i][j]);

    if (first)""", """    osl_relation_copy_cells(node, relation);

    if (first)"""))
ok("c1-rel-noderows", "relation.c", ("""    for (i = 0; i < relation->nb_rows; i++)
      for (j = 0; j < relation->nb_columns; j++)
        osl_int_assign(relation->precision, &node->m[i][j], relation->m[i][j]);

    if (first)""", """    for (i = 0; i < node->nb_rows; i++)
      for (j = 0; j < node->nb_columns; j++)
        osl_int_assign(node->precision, &node->m[i][j], relation->m[i][j]);

    if (first)"""))
ok("c1-strings-while", "strings.c", ("  clone->string[nb_strings] = NULL;\n  for (i = 0; i < nb_strings; i++)\n    OSL_strdup(clone->string[i], strings->string[i]);\n\n  return clone;", "  for (i = 0; strings->string[i] != NULL; i++)\n    OSL_strdup(clone->string[i], strings->string[i]);\n  clone->string[i] = NULL;\n\n  return clone;"))
ok("c1-strings-desc", "strings.c", ("  for (i = 0; i < nb_strings; i++)\n    OSL_strdup(clone->string[i], strings->string[i]);\n\n  return clone;", "  for (i = nb_strings; i > 0; i--)\n    OSL_strdup(clone->string[i - 1], strings->string[i - 1]);\n\n  return clone;"))
ok("c1-pluto", "extensions/pluto_unroll.c", ("    osl_pluto_unroll_fill(p, pluto_unroll->iter, pluto_unroll->jam,\n                          pluto_unroll->factor);\n\n    pluto_unroll = pluto_unroll->next;\n\n    if (pluto_unroll != NULL) {\n      p->next = osl_pluto_unroll_malloc();\n    }\n    p = p->next;", "    const osl_pluto_unroll_t* const following = pluto_unroll->next;\n    osl_pluto_unroll_fill(p, pluto_unroll->iter, pluto_unroll->jam,\n                          pluto_unroll->factor);\n    if (following)\n      p->next = osl_pluto_unroll_malloc();\n    p = p->next;\n    pluto_unroll = following;"))
ok("c1-generic-flip", "generic.c", ("    if (generic->interface != NULL) {\n      x = generic->interface->clone(generic->data);\n      interface = osl_interface_clone(generic->interface);\n      new = osl_generic_malloc();\n      new->interface = interface;\n      new->data = x;\n      osl_generic_add(&clone, new);\n    } else {\n      OSL_warning(\"unregistered interface, cloning ignored\");\n    }", "    if (generic->interface == NULL) {\n      OSL_warning(\"unregistered interface, cloning ignored\");\n    } else {\n      new = osl_generic_malloc();\n      new->data = generic->interface->clone(generic->data);\n      new->interface = osl_interface_clone(generic->interface);\n      osl_generic_add(&clone, new);\n    }"))
ok("c1-textual-ifnot", "extensions/textual.c", ("  if (textual == NULL)\n    return NULL;\n\n  clone = osl_textual_malloc();\n  OSL_strdup(clone->textual, textual->textual);\n\n  return clone;", "  clone = NULL;\n  if (textual != NULL) {\n    clone = osl_textual_malloc();\n    OSL_strdup(clone->textual, textual->textual);\n  }\n  return clone;"))
ok("c1-textual-mallocstrcpy", "extensions/textual.c", ("  OSL_strdup(clone->textual, textual->textual);\n\n  return clone;", "  OSL_malloc(clone->textual, char*, strlen(textual->textual) + 1);\n  strcpy(clone->textual, textual->textual);\n\n  return clone;"))
ok("c1-body-early", "body.c", ("  osl_body_p copy = NULL;\n\n  if (body != NULL) {\n    copy = osl_body_malloc();\n    copy->iterators = osl_strings_clone(body->iterators);\n    copy->expression = osl_strings_clone(body->expression);\n  }\n\n  return copy;", "  osl_body_p copy;\n\n  if (!body)\n    return NULL;\n\n  copy = osl_body_malloc();\n  copy->expression = osl_strings_clone(body->expression);\n  copy->iterators = osl_strings_clone(body->iterators);\n  return copy;"))
ok("c1-coord-structcopy", "extensions/coordinates.c", ("  clone = osl_coordinates_malloc();\n  OSL_strdup(clone->name, coordinates->name);\n  clone->line_start = coordinates->line_start;\n  clone->column_start = coordinates->column_start;\n  clone->line_end = coordinates->line_end;\n  clone->column_end = coordinates->column_end;\n  clone->indent = coordinates->indent;\n", "  clone = osl_coordinates_malloc();\n  *clone = *coordinates;\n  OSL_strdup(clone->name, coordinates->name);\n"))
ok("c1-annot", "extensions/annotation.c", ("  for (size_t i = 0; i < source->count; ++i) {\n    char* line;\n    OSL_strdup(line, source->lines[i]);\n    osl_annotation_text_append(&destination, source->types[i], line);\n  }\n", "  size_t i = 0;\n  char* line;\n  while (i != source->count) {\n    OSL_strdup(line, source->lines[i]);\n    osl_annotation_text_append(&destination, source->types[i], line);\n    i++;\n  }\n"))
# ---------------------------------------------------------------- bugs
bug("b1-strings-share", "strings.c", ("    OSL_strdup(clone->string[i], strings->string[i]);\n\n  return clone;", "    clone->string[i] = strings->string[i];\n\n  return clone;"))
bug("b1-strings-short", "strings.c", ("  for (i = 0; i < nb_strings; i++)\n    OSL_strdup(clone->string[i], strings->string[i]);\n\n  return clone;", "  for (i = 0; i + 1 < nb_strings || i == 0; i++)\n    OSL_strdup(clone->string[i], strings->string[i]);\n\n  return clone;"))
bug("b1-names-swap", "names.c", ("    clone->local_dims = osl_strings_clone(names->local_dims);", "    clone->local_dims = osl_strings_clone(names->scatt_dims);"))
bug("b1-names-share", "names.c", ("    clone->arrays = osl_strings_clone(names->arrays);", "    clone->arrays = names->arrays;"))
bug("b1-stmt-first", "statement.c", ("return osl_statement_nclone(statement, -1);", "return osl_statement_nclone(statement, 1);"))
bug("b1-list-last", "relation_list.c", ("      previous->next = node;\n      previous = previous->next;\n    }\n\n    list = list->next;\n  }\n\n  return clone;", "      clone->next = node;\n      previous = node;\n    }\n\n    list = list->next;\n  }\n\n  return clone;"))
bug("b1-list-ret", "relation_list.c", ("    list = list->next;\n  }\n\n  return clone;", "    list = list->next;\n  }\n\n  return previous;"))
bug("b1-rel-cols", "relation.c", ("      for (j = 0; j < relation->nb_columns; j++)\n        osl_int_assign(relation->precision, &node->m[i][j], relation->m[i][j]);\n\n    if (first)", "      for (j = 0; j < relation->nb_columns - 1; j++)\n        osl_int_assign(relation->precision, &node->m[i][j], relation->m[i][j]);\n\n    if (first)"))
bug("b1-rel-part", "relation.c", ("    node->nb_local_dims = relation->nb_local_dims;\n    node->nb_parameters = relation->nb_parameters;\n\n    for (i = 0; i < relation->nb_rows; i++)", "    node->nb_local_dims = relation->nb_local_dims;\n    if (first)\n      node->nb_parameters = relation->nb_parameters;\n\n    for (i = 0; i < relation->nb_rows; i++)"))
bug("b1-loop-share", "extensions/loop.c", ("    OSL_strdup(clone->user, loop->user);", "    clone->user = loop->user;"))
bug("b1-loop-cond", "extensions/loop.c", ("  if (loop->private_vars != NULL)\n    OSL_strdup(clone->private_vars, loop->private_vars);", "  if (loop->private_vars != NULL && loop->directive)\n    OSL_strdup(clone->private_vars, loop->private_vars);"))
bug("b1-extbody-len", "extensions/extbody.c", ("    clone->length[i] = ebody->length[i];", "    clone->length[i] = ebody->start[i];"))
bug("b1-symbols-n", "extensions/symbols.c", ("return osl_symbols_nclone(symbols, -1);", "return osl_symbols_nclone(symbols, symbols ? symbols->nb_dims : 0);"))
bug("b1-symbols-n2", "extensions/symbols.c", ("  while ((symbols != NULL) && ((n == -1) || (i < n))) {\n    new = osl_symbols_malloc();", "  while ((symbols != NULL) && ((n == -1) || (i <= n)) && i < 64) {\n    new = osl_symbols_malloc();"))
bug("b1-scop-ctx", "scop.c", ("    node->context = osl_relation_clone(scop->context);", "    if (first)\n      node->context = osl_relation_clone(scop->context);"))
bug("b1-generic-iface", "generic.c", ("      interface = osl_interface_clone(generic->interface);\n      new = osl_generic_malloc();\n      new->interface = interface;", "      interface = generic->interface;\n      new = osl_generic_malloc();\n      new->interface = interface;"))
bug("b1-iface", "interface.c", ("    new->equal = interface->equal;\n\n    osl_interface_add", "    new->equal = (osl_equal_f)NULL;\n    if (interface->equal)\n      new->equal = (osl_equal_f)interface->clone;\n\n    osl_interface_add"))
bug("b1-pluto", "extensions/pluto_unroll.c", ("    if (pluto_unroll != NULL) {\n      p->next = osl_pluto_unroll_malloc();\n    }\n    p = p->next;\n  }\n\n  return r;", "    if (pluto_unroll != NULL && pluto_unroll->iter != NULL) {\n      p->next = osl_pluto_unroll_malloc();\n    } else\n      break;\n    p = p->next;\n  }\n\n  return r;"))
bug("b1-dep-lim", "extensions/dependence.c", ("    node->target_nb_local_dims_access = dep->target_nb_local_dims_access;\n    node->next", "    node->target_nb_local_dims_access = dep->source_nb_local_dims_access;\n    node->next"))
bug("b1-annot", "extensions/annotation.c", ("    OSL_strdup(line, source->lines[i]);\n    osl_annotation_text_append(&destination", "    line = source->lines[i];\n    osl_annotation_text_append(&destination"))
bug("b1-annot2", "extensions/annotation.c", ("  clone->suffix = osl_annotation_text_clone(&source->suffix);", "  clone->suffix = osl_annotation_text_clone(&source->prefix);"))
bug("b1-arrays-share-arr", "extensions/arrays.c", ("  OSL_malloc(clone->id, int*, (size_t)arrays->nb_names * sizeof(int));\n  OSL_malloc(clone->names, char**, (size_t)arrays->nb_names * sizeof(char*));\n\n  for (i = 0; i < arrays->nb_names; i++) {\n    clone->id[i] = arrays->id[i];\n    OSL_strdup(clone->names[i], arrays->names[i]);\n  }\n\n  return clone;", "  clone->id = arrays->id;\n  OSL_malloc(clone->names, char**, (size_t)arrays->nb_names * sizeof(char*));\n\n  for (i = 0; i < arrays->nb_names; i++) {\n    OSL_strdup(clone->names[i], arrays->names[i]);\n  }\n\n  return clone;"))
