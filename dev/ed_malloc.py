EDITS = []
def ok(name, file, *subs): EDITS.append(dict(name=name, file="source/" + file, subs=list(subs), kind="ok", props=["C04"]))
def bug(name, file, *subs): EDITS.append(dict(name=name, file="source/" + file, subs=list(subs), kind="bug", props=["C04"]))
LOOP = """    for (i = 0; i < nb_rows; i++) {
      relation->m[i] = q + i * nb_columns;
      for (j = 0; j < nb_columns; j++)
        osl_int_init_set_si(precision, &relation->m[i][j], 0);
    }"""
ok("m-rel-flat", "relation.c", (LOOP, """    for (i = 0; i < nb_rows; i++)
      relation->m[i] = q + i * nb_columns;
    for (i = 0; i < nb_rows; i++)
      for (j = 0; j < nb_columns; j++)
        osl_int_init_set_si(precision, &relation->m[i][j], 0);"""))
ok("m-rel-run", "relation.c", (LOOP, """    for (i = 0; i < nb_rows; i++, q += nb_columns) {
      relation->m[i] = q;
      for (j = 0; j < nb_columns; j++)
        osl_int_init_set_si(precision, q + j, 0);
    }"""))
ok("m-rel-while", "relation.c", (LOOP, """    i = nb_rows;
    while (i-- > 0) {
      relation->m[i] = &q[i * nb_columns];
      j = 0;
      while (j < nb_columns) {
        osl_int_init(relation->precision, &relation->m[i][j]);
        j++;
      }
    }"""))
ok("m-rel-helper", "relation.c", (LOOP, """    for (i = 0; i < nb_rows; i++)
      relation->m[i] = osl_relation_row_init(q + i * nb_columns, precision, nb_columns);"""),
   ("osl_relation_t* osl_relation_pmalloc(int precision,", """static osl_int_t* osl_relation_row_init(osl_int_t* row, int precision, int n) {
  int j;
  for (j = 0; j < n; j++)
    osl_int_init_set_si(precision, &row[j], 0);
  return row;
}
osl_relation_t* osl_relation_pmalloc(int precision,"""))
ok("m-rel-cells", "relation.c", (LOOP, """    for (i = 0; i < nb_rows; i++)
      relation->m[i] = q + i * nb_columns;
    for (i = 0; i < nb_rows * nb_columns; i++)
      osl_int_init_set_si(precision, &q[i], 0);"""))
ok("m-scop-calloc", "scop.c", ("""  OSL_malloc(scop, osl_scop_p, sizeof(osl_scop_t));
  scop->version = 1;
  scop->language = NULL;
  scop->context = NULL;
""", """  scop = calloc(1, sizeof(osl_scop_t));
  if (scop == NULL)
    OSL_error("memory overflow");
  scop->version = 1;
"""))
ok("m-stmt-memset", "statement.c", ("""  statement->domain = NULL;
  statement->scattering = NULL;
  statement->access = NULL;
  statement->extension = NULL;
  statement->usr = NULL;
  statement->next = NULL;

  return statement;""", """  memset(statement, 0, sizeof(osl_statement_t));
  return statement;"""))
ok("m-coord-init", "extensions/coordinates.c", ("  coordinates->line_start = OSL_UNDEFINED;\n", "  coordinates->line_start = coordinates->line_end = OSL_UNDEFINED;\n"))
ok("m-body-helper", "body.c", ("osl_body_t* osl_body_malloc(void) {", """static void osl_body_init(osl_body_t* b) {
  b->expression = NULL;
  b->iterators = NULL;
}
osl_body_t* osl_body_malloc(void) {"""), ("  body->iterators = NULL;\n  body->expression = NULL;\n\n  return body;", "  osl_body_init(body);\n  return body;"))
ok("m-vector-ptr", "vector.c", ("""    for (i = 0; i < size; i++)
      osl_int_init_set_si(precision, &vector->v[i], 0);
  }
  return vector;""", """    osl_int_t* p = vector->v;
    for (i = 0; i < size; i++)
      osl_int_init_set_si(vector->precision, p++, 0);
  }
  return vector;"""))
bug("m-rel-cols", "relation.c", (LOOP, LOOP.replace("j = 0; j < nb_columns", "j = 1; j < nb_columns")))
bug("m-rel-rows", "relation.c", (LOOP, LOOP.replace("i = 0; i < nb_rows", "i = 0; i < nb_rows - 1")))
bug("m-rel-stride", "relation.c", (LOOP, LOOP.replace("q + i * nb_columns", "q + i * nb_rows")))
bug("m-rel-swap", "relation.c", ("  relation->nb_rows = nb_rows;\n  relation->nb_columns = nb_columns;\n  relation->nb_output_dims = OSL_UNDEFINED", "  relation->nb_rows = nb_columns;\n  relation->nb_columns = nb_rows;\n  relation->nb_output_dims = OSL_UNDEFINED"))
bug("m-rel-local", "relation.c", ("  relation->nb_local_dims = OSL_UNDEFINED;\n  relation->precision = precision;", "  relation->precision = precision;"))
bug("m-rel-prec", "relation.c", (LOOP, LOOP.replace("(precision,", "(OSL_PRECISION_DP,")))
bug("m-rel-next", "relation.c", ("  relation->usr = NULL;\n  relation->next = NULL;", "  relation->usr = NULL;\n  if (relation->m == NULL)\n    relation->next = NULL;"))
bug("m-vec-size", "vector.c", ("(size_t)size * sizeof(osl_int_t));\n    for", "(size_t)(size - 1) * sizeof(osl_int_t));\n    for"))
bug("m-vec-one", "vector.c", ("    for (i = 0; i < size; i++)\n      osl_int_init_set_si(precision, &vector->v[i], 0);", "    for (i = 0; i < size - 1; i++)\n      osl_int_init_set_si(precision, &vector->v[i], 0);"))
bug("m-dep-usr", "extensions/dependence.c", ("  dependence->ref_source_access_ptr = NULL;\n", ""))
bug("m-region-suffix", "extensions/region.c", ("  osl_region_text_init(&region->prelude);", "  osl_region_text_init(&region->prefix);"))
bug("m-loop-count", "extensions/loop.c", ("  loop->nb_stmts = 0;\n", ""))
bug("m-generic-next", "generic.c", ("  generic->next = NULL;\n\n  return generic;", "  return generic;"))
bug("m-strings-term", "strings.c", ("  strings->string[0] = NULL;\n\n  return strings;", "  return strings;"))
