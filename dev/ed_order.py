EDITS = []
P = ["C13"]
X = "source/extensions/"
def ok(name, f, *subs): EDITS.append(dict(name="o-" + name, file=f, subs=list(subs), kind="ok", props=P))
def bug(name, f, *subs): EDITS.append(dict(name="o-" + name, file=f, subs=list(subs), kind="bug", props=P))
C = X + "coordinates.c"
bug("coord-swap", C, ("  coordinates->column_start = osl_util_read_int(NULL, input);\n", ""), ("  coordinates->line_end = osl_util_read_int(NULL, input);\n", "  coordinates->line_end = osl_util_read_int(NULL, input);\n  coordinates->column_start = osl_util_read_int(NULL, input);\n"))
bug("coord-print-swap", C, ("coordinates->line_start, coordinates->column_start);\n    osl_util", "coordinates->column_start, coordinates->line_start);\n    osl_util"))
bug("coord-noindent", C, ("  coordinates->indent = osl_util_read_int(NULL, input);\n", "  coordinates->indent = 0;\n"))
bug("coord-comment", C, ("\"# Indentation\\n%d\\n\"", "\"# Indentation %d\\n\""))
bug("coord-run", C, ("column\\n%d %d\\n\", coordinates->line_end", "column\\n%d%d\\n\", coordinates->line_end"))
bug("coord-off", C, ("  coordinates->indent = osl_util_read_int(NULL, input);\n", "  coordinates->indent = osl_util_read_int(NULL, input) + 1;\n"))
bug("coord-drop", C, ("  coordinates->indent = osl_util_read_int(NULL, input);\n", "  (void)osl_util_read_int(NULL, input);\n  coordinates->indent = osl_util_read_int(NULL, input);\n"))
bug("arr-swap", X + "arrays.c", ("\"%d %s\\n\", arrays->id[i], arrays->names[i]", "\"%s %d\\n\", arrays->names[i], arrays->id[i]"))
bug("arr-count", X + "arrays.c", ("sprintf(buffer, \"%d\\n\", arrays->nb_names);", "sprintf(buffer, \"%d\\n\", arrays->nb_names + 1);"))
bug("arr-loop", X + "arrays.c", ("    arrays->id[k] = osl_util_read_int(NULL, input);\n\n    // Get the array name string.\n", "    arrays->id[k] = osl_util_read_int(NULL, input);\n  }\n  for (k = 0; k < nb_names; k++) {\n"))
bug("arr-rounds", X + "arrays.c", ("  for (k = 0; k < nb_names; k++) {\n    // Get the array name id", "  for (k = 0; k < nb_names - 1; k++) {\n    // Get the array name id"))
bug("arr-rev", X + "arrays.c", ("    arrays->names[k] = osl_util_read_string(NULL, input);", "    arrays->names[0] = osl_util_read_string(NULL, input);"))
bug("dep-two", X + "dependence.c", ("                    &dep->source_nb_output_dims_access,\n                    &dep->target_nb_output_dims_domain,\n", "                    &dep->target_nb_output_dims_domain,\n                    &dep->source_nb_output_dims_access,\n"))
bug("dep-depth", X + "dependence.c", ("  dep->depth = osl_util_read_int(NULL, input);\n", ""), ("  dep->ref_source = osl_util_read_int(NULL, input);\n", "  dep->ref_source = osl_util_read_int(NULL, input);\n  dep->depth = osl_util_read_int(NULL, input);\n"))
bug("dep-domain", X + "dependence.c", ("      osl_util_safe_strcat(&buffer, pbuffer, &buffer_size);\n      free(pbuffer);", "      if (nb_deps < 100)\n        osl_util_safe_strcat(&buffer, buff, &buffer_size);\n      free(pbuffer);"))
bug("dep-label", X + "dependence.c", ("nb_deps, type, tmp->label_source, tmp->label_target, tmp->depth", "nb_deps, type, tmp->label_target, tmp->label_source, tmp->depth"))
bug("dep-typelast", X + "dependence.c", ("               \"# type\\n%s\\n\"\n               \"# From source statement id\\n%d\\n\"", "               \"# From source statement id\\n%d\\n\"\n               \"# type\\n%s\\n\""), ("nb_deps, type, tmp->label_source,", "nb_deps, tmp->label_source, type,"))
bug("region-texts", X + "region.c", ("    osl_region_sread_text(suffix);\n    osl_region_sread_text(prelude);", "    osl_region_sread_text(prelude);\n    osl_region_sread_text(suffix);"))
bug("region-linetype", X + "region.c", ("      char* const line = osl_util_read_line(NULL, input);       \\\n      osl_region_text_append(&current->field, line_type, line); \\\n", "      char* const line = osl_util_read_line(NULL, input);       \\\n      (void)osl_util_read_int(NULL, input); \\\n      osl_region_text_append(&current->field, line_type, line); \\\n"))
bug("ann-count", X + "annotation.c", ("    for (size_t j = 0; j < count; ++j) {                           \\\n", "    for (size_t j = 1; j < count; ++j) {                           \\\n"))
bug("loop-directive", X + "loop.c", ("    loop->directive = osl_util_read_int(NULL, input);\n", ""), ("    loop->private_vars = osl_util_read_line(NULL, input);\n", "    loop->directive = osl_util_read_int(NULL, input);\n    loop->private_vars = osl_util_read_line(NULL, input);\n"))
bug("loop-ids", X + "loop.c", ("    for (i = 0; i < loop->nb_stmts; i++)\n      loop->stmt_ids[i] = osl_util_read_int(NULL, input);\n", ""), ("    loop->private_vars = osl_util_read_line(NULL, input);\n", "    loop->private_vars = osl_util_read_line(NULL, input);\n    for (i = 0; i < loop->nb_stmts; i++)\n      loop->stmt_ids[i] = osl_util_read_int(NULL, input);\n"))
bug("loop-nbloops", X + "loop.c", ("  while (nb_loops != 0) {\n    loop->iter", "  while (nb_loops != 1) {\n    loop->iter"))
bug("unroll-swap", X + "pluto_unroll.c", ("    p->jam = osl_util_read_int(NULL, input);\n", "    p->factor = (unsigned int)osl_util_read_int(NULL, input);\n"), ("    // factor\n    p->factor = (unsigned int)osl_util_read_int(NULL, input);\n", "    p->jam = osl_util_read_int(NULL, input);\n"))
bug("unroll-next", X + "pluto_unroll.c", ("    strcat(buffer, \"# Next\\n\");\n    if (pluto_unroll != NULL) {\n      strcat(buffer, \"1\\n\");\n    } else {\n      strcat(buffer, \"0\\n\");\n    }\n", "    strcat(buffer, \"# Next\\n\");\n"))
bug("sym-scope", X + "symbols.c", ("    symbols->scope = osl_generic_sread_one(input, registry);\n", ""), ("    symbols->extent = osl_generic_sread_one(input, registry);\n", "    symbols->extent = osl_generic_sread_one(input, registry);\n\n    symbols->scope = osl_generic_sread_one(input, registry);\n"))
bug("sym-gen", X + "symbols.c", ("Generated Boolean\\n%d\\n\", i, symbols->generated", "Generated Boolean\\n%d\\n\", symbols->generated, i"))
bug("rel-attr", "source/relation.c", ("                    &nb_output_dims, &nb_input_dims, &nb_local_dims,\n                    &nb_parameters);\n      *input", "                    &nb_input_dims, &nb_output_dims, &nb_local_dims,\n                    &nb_parameters);\n      *input"))
bug("rel-print-attr", "source/relation.c", ("             relation->nb_columns, relation->nb_output_dims,\n             relation->nb_input_dims, relation->nb_local_dims,\n             relation->nb_parameters);\n    osl_util", "             relation->nb_columns, relation->nb_output_dims,\n             relation->nb_local_dims, relation->nb_input_dims,\n             relation->nb_parameters);\n    osl_util"))
bug("rel-transposed", "source/relation.c", ("        osl_int_sread(&tmp, precision, &relation->m[i][j]);\n        *input", "        osl_int_sread(&tmp, precision, &relation->m[j][i]);\n        *input"))
bug("rel-nl", "source/relation.c", ("\"%d %d %d %d %d %d\\n\", relation->nb_rows,\n             relation->nb_columns, relation->nb_output_dims,\n             relation->nb_input_dims", "\"%d %d\\n%d %d %d %d\\n\", relation->nb_rows,\n             relation->nb_columns, relation->nb_output_dims,\n             relation->nb_input_dims"))
bug("rel-store", "source/relation.c", ("    relation->nb_local_dims = nb_local_dims;\n    relation->nb_parameters = nb_parameters;\n\n    // Read the matrix of constraints.\n    for (i = 0; i < relation->nb_rows; i++) {\n      c =", "    relation->nb_local_dims = nb_parameters;\n    relation->nb_parameters = nb_local_dims;\n\n    for (i = 0; i < relation->nb_rows; i++) {\n      c ="))
bug("list-count", "source/relation_list.c", ("  for (i = 0; i < nb_mat; ++i) {", "  for (i = 1; i < nb_mat; ++i) {"))
bug("stmt-ext", "source/statement.c", ("    fprintf(file, \"%d\\n\", nb_ext);\n", "    if (nb_ext > 0)\n      fprintf(file, \"# %d\\n\", nb_ext);\n"))
bug("stmt-ext-loop", "source/statement.c", ("    for (i = 0; i < nb_ext; i++) {\n      new = osl_generic_read_one", "    for (i = 0; i < nb_ext - 1; i++) {\n      new = osl_generic_read_one"))
bug("scop-order", "source/scop.c", ("    fprintf(file, \"# Language\\n\");\n    fprintf(file, \"%s\\n\\n\", scop->language);\n", ""), ("    osl_relation_pprint(file, scop->context, names);\n    fprintf(file, \"\\n\");\n\n    osl_util_print_provided", "    osl_relation_pprint(file, scop->context, names);\n    fprintf(file, \"\\n\");\n    fprintf(file, \"%s\\n\\n\", scop->language);\n    osl_util_print_provided"))
bug("scop-param", "source/scop.c", ("    if (osl_util_read_int(file, NULL) > 0)\n      scop->parameters = osl_generic_read_one(file, scop->registry);\n", "    scop->parameters = osl_generic_read_one(file, scop->registry);\n"))
bug("body-count", "source/body.c", ("    sprintf(buffer, \"# Number of original iterators\\n%zu\\n\", nb_iterators);", "    sprintf(buffer, \"# Number of original iterators: %zu\\n\", nb_iterators);"))
bug("body-order", "source/body.c", ("    // Read the iterator strings if any.\n", "    expression = osl_util_read_line(NULL, input);\n"), ("    // Read the body:\n    expression = osl_util_read_line(NULL, input);\n", ""))
# refactorings
ok("coord-local", C, ("  coordinates->line_start = osl_util_read_int(NULL, input);\n  coordinates->column_start = osl_util_read_int(NULL, input);\n", "  const int l = osl_util_read_int(NULL, input);\n  const int c = osl_util_read_int(NULL, input);\n  coordinates->column_start = c;\n  coordinates->line_start = l;\n"))
ok("coord-helper", C, ("osl_coordinates_t* osl_coordinates_sread(", "static int nextint(char** in) {\n  return osl_util_read_int(NULL, in);\n}\nosl_coordinates_t* osl_coordinates_sread("), ("  coordinates->indent = osl_util_read_int(NULL, input);\n", "  coordinates->indent = nextint(input);\n"))
ok("coord-split", C, ("    sprintf(buffer, \"# Starting line and column\\n%d %d\\n\",\n            coordinates->line_start, coordinates->column_start);\n", "    sprintf(buffer, \"# Starting line and column\\n%d\\n\", coordinates->line_start);\n    osl_util_safe_strcat(&string, buffer, &high_water_mark);\n    sprintf(buffer, \"%d\\n\", coordinates->column_start);\n"))
ok("coord-phelper", C, ("char* osl_coordinates_sprint(", "static void pair(char* b, const char* what, int x, int y) {\n  sprintf(b, \"# %s line and column\\n%d %d\\n\", what, x, y);\n}\nchar* osl_coordinates_sprint("), ("    sprintf(buffer, \"# Starting line and column\\n%d %d\\n\",\n            coordinates->line_start, coordinates->column_start);\n", "    pair(buffer, \"Starting\", coordinates->line_start, coordinates->column_start);\n"))
ok("coord-both", C, ("\"# File name\\n%s\\n\"", "\"# Name of the file\\n%s\\n\""))
ok("arr-while", X + "arrays.c", ("  for (k = 0; k < nb_names; k++) {\n    // Get the array name id.\n    arrays->id[k] = osl_util_read_int(NULL, input);\n\n    // Get the array name string.\n    arrays->names[k] = osl_util_read_string(NULL, input);\n", "  k = 0;\n  while (k != nb_names) {\n    int id = osl_util_read_int(NULL, input);\n    char* n = osl_util_read_string(NULL, input);\n    arrays->names[k] = n;\n    arrays->id[k] = id;\n    k++;\n"))
ok("arr-two", X + "arrays.c", ("      sprintf(buffer, \"%d %s\\n\", arrays->id[i], arrays->names[i]);\n      osl_util_safe_strcat(&string, buffer, &high_water_mark);\n", "      sprintf(buffer, \"%d\", arrays->id[i]);\n      osl_util_safe_strcat(&string, buffer, &high_water_mark);\n      osl_util_safe_strcat(&string, \" \", &high_water_mark);\n      osl_util_safe_strcat(&string, arrays->names[i], &high_water_mark);\n      osl_util_safe_strcat(&string, \"\\n\", &high_water_mark);\n"))
ok("dep-ternary", X + "dependence.c", ("  if (nb_deps) {\n    for (tmp = dependence, nb_deps = 1; tmp;", "  if (nb_deps > 0) {\n    for (tmp = dependence, nb_deps = 1; tmp != NULL;"))
ok("dep-read", X + "dependence.c", ("                    &dep->source_nb_output_dims_domain,\n                    &dep->source_nb_output_dims_access,\n", "                    &first,\n                    &dep->source_nb_output_dims_access,\n"), ("  char str[OSL_MAX_STRING];\n", "  int first = 0;\n  char str[OSL_MAX_STRING];\n"), ("  /* - Check we got what we want */\n", "  dep->source_nb_output_dims_domain = first;\n  /* - Check we got what we want */\n"))
ok("dep-buff", X + "dependence.c", ("  strcat(buffer, buff);\n", "  osl_util_safe_strcat(&buffer, buff, &buffer_size);\n"))
ok("loop-for", X + "loop.c", ("  while (nb_loops != 0) {\n    loop->iter", "  for (; nb_loops > 0;) {\n    loop->iter"))
ok("loop-up", X + "loop.c", ("  while (nb_loops != 0) {\n    loop->iter", "  for (int l = 0; l < nb_loops; l++) {\n    loop->iter"), ("    nb_loops--;\n    if (nb_loops != 0) {\n      loop->next", "    if (l + 1 < nb_loops) {\n      loop->next"))
ok("loop-null", X + "loop.c", ("    sprintf(buffer, \"%s\\n\", loop->private_vars);\n", "    sprintf(buffer, \"%s\\n\", loop->private_vars ? loop->private_vars : \"(null)\");\n"))
ok("region-func", X + "region.c", ("    osl_region_sread_text(suffix);\n    osl_region_sread_text(prelude);", "    osl_region_text_t* const where = &current->suffix;\n    size_t n = (size_t)osl_util_read_int(NULL, input);\n    while (n-- > 0) {\n      const int k = osl_util_read_int(NULL, input);\n      osl_region_text_append(where, k, osl_util_read_line(NULL, input));\n    }\n    osl_region_sread_text(prelude);"))
ok("unroll-print", X + "pluto_unroll.c", ("    sprintf(buffer + strlen(buffer), \"%i\\n\", pluto_unroll->jam);\n\n    strcat(buffer, \"# Factor\\n\");\n    sprintf(buffer + strlen(buffer), \"%u\\n\", pluto_unroll->factor);\n", "    sprintf(buffer + strlen(buffer), \"%i\\n# Factor\\n%u\\n\", pluto_unroll->jam, pluto_unroll->factor);\n"))
ok("unroll-flag", X + "pluto_unroll.c", ("    if (osl_util_read_int(NULL, input) == 1) {\n      p->next", "    const int more = osl_util_read_int(NULL, input);\n    if (more == 1) {\n      p->next"))
ok("sym-for", X + "symbols.c", ("  while (nb_symbols != 0) {", "  for (; nb_symbols != 0;) {"))
ok("sym-elseif", X + "symbols.c", ("    if (symbols->type == OSL_UNDEFINED) {\n      sprintf(buffer, \"# %d.1 Symbol type\\nUndefined\\n\", i);\n", "    if (symbols->type == OSL_UNDEFINED) {\n      sprintf(buffer, \"# %d.1 Symbol type\\n%s\\n\", i, \"Undefined\");\n"))
ok("rel-cells", "source/relation.c", ("        osl_int_sread(&tmp, precision, &relation->m[i][j]);\n        *input", "        osl_int_t* const row = relation->m[i];\n        osl_int_sread(&tmp, precision, &row[j]);\n        *input"))
ok("rel-sep", "source/relation.c", ("        snprintf(buffer, OSL_MAX_STRING, \" \");\n        osl_util_safe_strcat(&string, buffer, &high_water_mark);\n      }\n\n      if (name_array != NULL) {", "        osl_util_safe_strcat(&string, \" \", &high_water_mark);\n      }\n\n      if (name_array != NULL) {"))
ok("list-while", "source/relation_list.c", ("  for (i = 0; i < nb_mat; ++i) {", "  i = 0;\n  while (i < nb_mat) {"), ("    if (i < nb_mat - 1)\n      list->next = osl_relation_list_malloc();\n    list = list->next;\n", "    if (i < nb_mat - 1)\n      list->next = osl_relation_list_malloc();\n    list = list->next;\n    i++;\n"))
ok("stmt-tmp", "source/statement.c", ("      new = osl_generic_read_one(file, registry);\n      osl_generic_add(&stmt->extension, new);\n", "      osl_generic_add(&stmt->extension, osl_generic_read_one(file, registry));\n"))
ok("scop-helper", "source/scop.c", ("    scop->context = osl_relation_pread(file, precision);\n", "    osl_relation_p context = osl_relation_pread(file, precision);\n    scop->context = context;\n"))
ok("body-else", "source/body.c", ("    if (nb_iterators > 0) {\n      body->iterators = osl_strings_sread(input);\n    } else {\n      body->iterators = osl_strings_malloc();\n    }", "    body->iterators = nb_iterators > 0 ? osl_strings_sread(input) : osl_strings_malloc();"))
