EDITS = []
ALL = ["C07", "C09", "C22", "C24"]
def ok(name, file, *subs, props=ALL): EDITS.append(dict(name=name, file="source/" + file, subs=list(subs), kind="ok", props=props))
def bug(name, file, prop, *subs): EDITS.append(dict(name=name, file="source/" + file, subs=list(subs), kind="bug", props=[prop]))
R, V, SC = "relation.c", "vector.c", "scop.c"
RV = "  for (i = 0; i < vector->size; i++)\n    osl_int_assign(relation->precision, &relation->m[row][i], vector->v[i]);\n"
RVG = "  if ((relation == NULL) || (vector == NULL) ||\n      (relation->precision != vector->precision) ||\n      (relation->nb_columns != vector->size) || (row >= relation->nb_rows) ||\n      (row < 0))\n    OSL_error(\"vector cannot replace relation row\");\n"
ok("cl-rv-hoist", R, (RV, "  int precision = relation->precision;\n" + RV.replace("relation->precision", "precision")))
ok("cl-rv-vecprec", R, (RV, RV.replace("relation->precision", "vector->precision")))
ok("cl-rv-cols", R, (RV, RV.replace("i < vector->size", "i < relation->nb_columns")))
ok("cl-rv-down", R, (RV, RV.replace("i = 0; i < vector->size; i++", "i = vector->size - 1; i >= 0; i--")))
ok("cl-rv-ne", R, (RV, RV.replace("i < vector->size", "i != vector->size")))
ok("cl-rv-while", R, (RV, "  i = 0;\n  while (i < vector->size) {\n    osl_int_assign(relation->precision, &relation->m[row][i], vector->v[i]);\n    i++;\n  }\n"))
ok("cl-rv-ptr", R, (RV, "  osl_int_t* line = relation->m[row];\n  for (i = 0; i < vector->size; i++)\n    osl_int_assign(relation->precision, &line[i], vector->v[i]);\n"))
ok("cl-rv-walk", R, (RV, "  osl_int_t* cell = relation->m[row];\n  for (i = 0; i < vector->size; i++, cell++)\n    osl_int_assign(relation->precision, cell, vector->v[i]);\n"))
ok("cl-rv-split", R, (RVG, "  if (relation == NULL || vector == NULL)\n    OSL_error(\"no operand\");\n  if (relation->precision != vector->precision)\n    OSL_error(\"vector cannot replace relation row\");\n  if (vector->size != relation->nb_columns)\n    OSL_error(\"size\");\n  if (!(row >= 0 && row < relation->nb_rows))\n    OSL_error(\"row\");\n"))
ok("cl-rv-helper", R, ("void osl_relation_replace_vector(", "static int osl_relation_takes(const osl_relation_t* relation, const osl_vector_t* vector, int row) {\n  return relation != NULL && vector != NULL && relation->precision == vector->precision && relation->nb_columns == vector->size && row < relation->nb_rows && row >= 0;\n}\nvoid osl_relation_replace_vector("),
   (RVG, "  if (!osl_relation_takes(relation, vector, row))\n    OSL_error(\"vector cannot replace relation row\");\n"))
ok("cl-rv-helper-err", R, ("void osl_relation_replace_vector(", "static void osl_relation_check(const osl_relation_t* relation, const osl_vector_t* vector, int row) {\n" + RVG + "}\nvoid osl_relation_replace_vector("),
   (RVG + "\n  for (i = 0; i < vector->size; i++)\n", "  osl_relation_check(relation, vector, row);\n  for (i = 0; i < vector->size; i++)\n"))
bug("cl-rv-noprec", R, "C09", ("      (relation->precision != vector->precision) ||\n      (relation->nb_columns != vector->size) || (row >= relation->nb_rows) ||\n      (row < 0))\n    OSL_error(\"vector cannot replace", "      (relation->nb_columns != vector->size) || (row >= relation->nb_rows) ||\n      (row < 0))\n    OSL_error(\"vector cannot replace"))
bug("cl-rv-noprec7", R, "C07", ("      (relation->precision != vector->precision) ||\n      (relation->nb_columns != vector->size) || (row >= relation->nb_rows) ||\n      (row < 0))\n    OSL_error(\"vector cannot replace", "      (relation->nb_columns != vector->size) || (row >= relation->nb_rows) ||\n      (row < 0))\n    OSL_error(\"vector cannot replace"))
bug("cl-rv-size", R, "C09", (RVG, RVG.replace("nb_columns != vector->size", "nb_columns < vector->size")))
bug("cl-rv-row", R, "C09", (RVG, RVG.replace("row >= relation", "row > relation")))
bug("cl-rv-neg", R, "C09", (RVG, RVG.replace(" ||\n      (row < 0)", "")))
bug("cl-rv-and", R, "C09", (RVG, RVG.replace("(row >= relation->nb_rows) ||\n      (row < 0)", "((row >= relation->nb_rows) &&\n      (row < 0))")))
bug("cl-rv-colrow", R, "C09", (RVG, RVG.replace("row >= relation->nb_rows", "row >= relation->nb_columns")))
bug("cl-rv-warn", R, "C09", (RVG, RVG.replace("OSL_error(\"vector cannot replace", "OSL_warning(\"vector cannot replace")))
bug("cl-rv-le", R, "C09", (RV, RV.replace("i < vector->size", "i <= vector->size")))
AV = "  if (osl_int_get_si(relation->precision, relation->m[row][0]) == 0)\n    osl_int_assign(relation->precision, &relation->m[row][0], vector->v[0]);\n\n  for (i = 1; i < vector->size; i++)\n    osl_int_add("
AVG = "  if ((relation == NULL) || (vector == NULL) ||\n      (relation->precision != vector->precision) ||\n      (relation->nb_columns != vector->size) || (row >= relation->nb_rows) ||\n      (row < 0))\n    OSL_error(\"vector cannot be added to relation\");\n\n  if (vector->size == 0)\n    return;\n\n"
bug("cl-av-late", R, "C09", (AVG + AV, "  if ((relation == NULL) || (vector == NULL) || (vector->size == 0) ||\n      (relation->nb_columns != vector->size) || (row >= relation->nb_rows) ||\n      (row < 0))\n    OSL_error(\"vector cannot be added to relation\");\n\n" + AV.split("  for")[0] + "  if (relation->precision != vector->precision)\n    OSL_error(\"precision\");\n  for" + AV.split("  for")[1]))
bug("cl-av-empty", R, "C09", (AVG, AVG.replace("  if (vector->size == 0)\n    return;\n\n", "")))
ok("cl-av-empty-cond", R, (AVG, AVG.replace("  if (vector->size == 0)\n    return;\n\n", "")), (AV, AV.replace("  if (osl_int_get_si", "  if (vector->size > 0 && osl_int_get_si")))
IBC = """  temp = osl_relation_pmalloc(relation->precision, relation->nb_rows,
                              relation->nb_columns + 1);

  for (i = 0; i < relation->nb_rows; i++) {
    for (j = 0; j < column; j++)
      osl_int_assign(relation->precision, &temp->m[i][j], relation->m[i][j]);

    for (j = column; j < relation->nb_columns; j++)
      osl_int_assign(relation->precision, &temp->m[i][j + 1],
                     relation->m[i][j]);
  }
"""
ok("cl-ibc-one", R, (IBC, "  temp = osl_relation_pmalloc(relation->precision, relation->nb_rows,\n                              relation->nb_columns + 1);\n  for (i = 0; i < relation->nb_rows; i++)\n    for (j = 0; j < relation->nb_columns; j++)\n      osl_int_assign(relation->precision, &temp->m[i][j < column ? j : j + 1], relation->m[i][j]);\n"))
ok("cl-ibc-tempprec", R, (IBC, IBC.replace("osl_int_assign(relation->precision", "osl_int_assign(temp->precision")))
ok("cl-ibc-k", R, (IBC, "  int k;\n  temp = osl_relation_pmalloc(relation->precision, relation->nb_rows,\n                              relation->nb_columns + 1);\n  for (i = 0; i < relation->nb_rows; i++)\n    for (j = 0, k = 0; j < relation->nb_columns; j++) {\n      if (j == column)\n        k++;\n      osl_int_assign(relation->precision, &temp->m[i][k++], relation->m[i][j]);\n    }\n"))
bug("cl-ibc-malloc", R, "C07", (IBC, IBC.replace("osl_relation_pmalloc(relation->precision, relation->nb_rows,", "osl_relation_malloc(relation->nb_rows,")))
bug("cl-ibc-env", R, "C07", (IBC, IBC.replace("osl_relation_pmalloc(relation->precision", "osl_relation_pmalloc(osl_util_get_precision()")))
bug("cl-ibc-size", R, "C09", (IBC, IBC.replace("relation->nb_columns + 1);", "relation->nb_columns);")))
bug("cl-ibc-guard", R, "C09", ("  if ((column < 0) || (column > relation->nb_columns))\n    OSL_error(\"bad column number\");", "  if ((column < 0) || (column > relation->nb_columns + 1))\n    OSL_error(\"bad column number\");"))
bug("cl-ibc-min", R, "C09", ("  if ((column < 0) || (column > relation->nb_columns))\n    OSL_error(\"bad column number\");", "  if (column > relation->nb_columns)\n    column = relation->nb_columns;\n  if (column < 0)\n    OSL_error(\"bad column number\");"))
RC = "  for (i = 0; i < r2->nb_rows; i++)\n    for (j = 0; j < r2->nb_columns; j++)\n      osl_int_assign(r1->precision, &r1->m[i + row][j], r2->m[i][j]);\n"
RCG = "  if ((r1 == NULL) || (r2 == NULL) || (r1->precision != r2->precision) ||\n      (r1->nb_columns != r2->nb_columns) ||\n      (row > (r1->nb_rows - r2->nb_rows)) || (row < 0))\n"
ok("cl-rc-cols", R, (RC, RC.replace("r2->nb_columns", "r1->nb_columns")))
ok("cl-rc-k", R, (RC, "  for (i = row; i < row + r2->nb_rows; i++)\n    for (j = 0; j < r2->nb_columns; j++)\n      osl_int_assign(r2->precision, &r1->m[i][j], r2->m[i - row][j]);\n"))
bug("cl-rc-wrap", R, "C09", (RCG, RCG.replace("(row > (r1->nb_rows - r2->nb_rows))", "((row + r2->nb_rows) > r1->nb_rows)")))
bug("cl-rc-nofit", R, "C09", (RCG, RCG.replace("(row > (r1->nb_rows - r2->nb_rows))", "(row >= r1->nb_rows)")))
bug("cl-rc-swap", R, "C09", (RC, RC.replace("i < r2->nb_rows", "i < r1->nb_rows")))
IC = "  if ((r1->nb_columns != r2->nb_columns) || (r1->precision != r2->precision) ||\n      (row > r1->nb_rows) || (row < 0))\n    OSL_error(\"constraints cannot be inserted\");\n"
ok("cl-ic-prec", R, (IC, IC.replace(" || (r1->precision != r2->precision)", "")))
ok("cl-ic-noprec-delegated", R, (IC, IC.replace("r1->nb_columns != r2->nb_columns", "r2->nb_columns != r1->nb_columns")))
ok("cl-ic-neg", R, (IC, IC.replace(" || (row < 0)", "")))
bug("cl-ic-order", R, "C09", ("  if (row == -1)\n    row = r1->nb_rows;\n\n", "  if (row < 0)\n    row = r1->nb_rows;\n\n"))
bug("cl-ic-tempprec", R, "C07", ("  temp = osl_relation_pmalloc(r1->precision, r1->nb_rows + r2->nb_rows,\n                              r1->nb_columns);\n\n  for (i = 0; i < row; i++)", "  temp = osl_relation_malloc(r1->nb_rows + r2->nb_rows, r1->nb_columns);\n\n  for (i = 0; i < row; i++)"))
bug("cl-ic-loop", R, "C09", ("  for (i = row + r2->nb_rows; i < r2->nb_rows + r1->nb_rows; i++)", "  for (i = row; i < r2->nb_rows + r1->nb_rows; i++)"))
SW = "  for (i = 0; i < relation->nb_columns; i++)\n    osl_int_swap(relation->precision, &relation->m[c1][i], &relation->m[c2][i]);\n"
ok("cl-sw-temp", R, (SW, "  osl_int_t t;\n  osl_int_init(relation->precision, &t);\n  for (i = 0; i < relation->nb_columns; i++) {\n    osl_int_assign(relation->precision, &t, relation->m[c1][i]);\n    osl_int_assign(relation->precision, &relation->m[c1][i], relation->m[c2][i]);\n    osl_int_assign(relation->precision, &relation->m[c2][i], t);\n  }\n  osl_int_clear(relation->precision, &t);\n"))
bug("cl-sw-temp", R, "C07", (SW, "  osl_int_t t;\n  osl_int_init(OSL_PRECISION_DP, &t);\n  for (i = 0; i < relation->nb_columns; i++) {\n    osl_int_assign(relation->precision, &t, relation->m[c1][i]);\n    osl_int_assign(relation->precision, &relation->m[c1][i], relation->m[c2][i]);\n    osl_int_assign(relation->precision, &relation->m[c2][i], t);\n  }\n  osl_int_clear(OSL_PRECISION_DP, &t);\n"))
bug("cl-sw-guard", R, "C09", ("(c2 >= relation->nb_rows) ||\n      (c2 < 0))", "(c2 > relation->nb_rows) ||\n      (c2 < 0))"))
bug("cl-sw-c1", R, "C09", ("  if ((c1 >= relation->nb_rows) || (c1 < 0) || (c2 >=", "  if ((c1 >= relation->nb_rows) || (c1 == -1) || (c2 >="))
RR = """  for (i = 0; i < row; i++)
    for (j = 0; j < r->nb_columns; j++)
      osl_int_assign(r->precision, &temp->m[i][j], r->m[i][j]);

  for (i = row + 1; i < r->nb_rows; i++)
    for (j = 0; j < r->nb_columns; j++)
      osl_int_assign(r->precision, &temp->m[i - 1][j], r->m[i][j]);
"""
ok("cl-rr-k", R, (RR, "  int k = 0;\n  for (i = 0; i < r->nb_rows; i++) {\n    if (i == row)\n      continue;\n    for (j = 0; j < r->nb_columns; j++)\n      osl_int_assign(r->precision, &temp->m[k][j], r->m[i][j]);\n    k++;\n  }\n"))
ok("cl-rr-shift", R, (RR, RR.replace("i = row + 1; i < r->nb_rows; i++", "i = row; i < r->nb_rows - 1; i++").replace("&temp->m[i - 1][j], r->m[i][j]", "&temp->m[i][j], r->m[i + 1][j]")))
ok("cl-rr-tern", R, (RR, "  for (i = 0; i < temp->nb_rows; i++)\n    for (j = 0; j < temp->nb_columns; j++)\n      osl_int_assign(r->precision, &temp->m[i][j], r->m[i < row ? i : i + 1][j]);\n"))
bug("cl-rr-start", R, "C09", (RR, RR.replace("i = row + 1", "i = row")))
bug("cl-rr-over", R, "C09", (RR, RR.replace("i < row; i++", "i <= row; i++")))
bug("cl-rr-guard", R, "C09", ("  if ((row < 0) || (row >= r->nb_rows))\n    OSL_error(\"bad row number\");", "  if ((row < 0) || (row > r->nb_rows))\n    OSL_error(\"bad row number\");"))
bug("cl-rr-silent", R, "C09", ("  if ((row < 0) || (row >= r->nb_rows))\n    OSL_error(\"bad row number\");", "  if ((row < 0) || (row >= r->nb_rows))\n    return;"))
bug("cl-rcol-guard", R, "C09", ("  if ((column < 0) || (column >= r->nb_columns))", "  if ((column < 0) || (column > r->nb_columns))"))
ICG = "  if ((relation->precision != insert->precision) ||\n      (relation->nb_rows != insert->nb_rows) || (column < 0) ||\n      (column > relation->nb_columns))\n"
bug("cl-icol-prec", R, "C07", (ICG, ICG.replace("(relation->precision != insert->precision) ||\n      ", "")))
bug("cl-icol-rows", R, "C09", (ICG, ICG.replace("relation->nb_rows != insert->nb_rows", "relation->nb_rows < insert->nb_rows")))
bug("cl-icol-col", R, "C09", (ICG, ICG.replace(" ||\n      (column > relation->nb_columns)", "")))
bug("cl-icol-src", R, "C09", ("                     insert->m[i][j - column]);", "                     insert->m[i][j]);"))
bug("cl-cat-cols", R, "C09", ("  if (r1->nb_columns != r2->nb_columns)\n    OSL_error(\"incompatible sizes for concatenation\");\n\n", ""), ("  osl_relation_replace_constraints(new, r2, r1->nb_rows);\n", "  if (r1->nb_columns == r2->nb_columns)\n    osl_relation_replace_constraints(new, r2, r1->nb_rows);\n"))
bug("cl-cat-rows", R, "C09", ("  osl_relation_replace_constraints(new, r2, r1->nb_rows);\n", "  int i, j;\n  for (i = 0; i < r2->nb_rows; i++)\n    for (j = 0; j < r2->nb_columns; j++)\n      osl_int_assign(r2->precision, &new->m[r1->nb_rows + i][j], r2->m[i][j]);\n"))
bug("cl-cat-rows7", R, "C07", ("  osl_relation_replace_constraints(new, r2, r1->nb_rows);\n", "  int i, j;\n  for (i = 0; i < r2->nb_rows; i++)\n    for (j = 0; j < r2->nb_columns; j++)\n      osl_int_assign(r2->precision, &new->m[r1->nb_rows + i][j], r2->m[i][j]);\n"))
ok("cl-cat-own", R, ("  new = osl_relation_pmalloc(r1->precision, r1->nb_rows + r2->nb_rows,", "  if (r1->precision != r2->precision)\n    OSL_error(\"incompatible precisions for concatenation\");\n  new = osl_relation_pmalloc(r1->precision, r1->nb_rows + r2->nb_rows,"), ("  osl_relation_replace_constraints(new, r2, r1->nb_rows);\n", "  int i, j;\n  for (i = 0; i < r2->nb_rows; i++)\n    for (j = 0; j < r2->nb_columns; j++)\n      osl_int_assign(r2->precision, &new->m[r1->nb_rows + i][j], r2->m[i][j]);\n"))
bug("cl-from-default", R, "C07", ("  relation = osl_relation_pmalloc(vector->precision, 1, vector->size);\n  osl_relation_replace_vector(relation, vector, 0);\n", "  int i;\n  relation = osl_relation_malloc(1, vector->size);\n  for (i = 0; i < vector->size; i++)\n    osl_int_assign(vector->precision, &relation->m[0][i], vector->v[i]);\n"))
bug("cl-blank-row", R, "C09", ("    osl_relation_insert_vector(relation, vector, row);\n    osl_vector_free(vector);", "    osl_relation_insert_vector(relation, vector, row < relation->nb_rows ? row : -1);\n    osl_vector_free(vector);"))
bug("cl-equal", R, "C07", ("  if ((r1->type != r2->type) || (r1->precision != r2->precision) ||\n", "  if ((r1->type != r2->type) ||\n"))
bug("cl-nclone-sp", R, "C07", ("        osl_int_assign(relation->precision, &node->m[i][j], relation->m[i][j]);\n\n    if (first) {", "        osl_int_assign(OSL_PRECISION_DP, &node->m[i][j], relation->m[i][j]);\n\n    if (first) {"))
bug("cl-nclone-guard", R, "C09", ("    if (n > relation->nb_rows)\n      OSL_error(\"not enough rows to clone in the relation\");\n\n", ""))
bug("cl-array-id", R, "C07", ("  while (relation != NULL) {\n    precision = relation->precision;\n\n    // There should be room", "  precision = relation->precision;\n  while (relation != NULL) {\n    // There should be room"))
bug("cl-extend", R, "C07", ("    offset = dim - relation->nb_output_dims;\n    precision = relation->precision;\n", "    offset = dim - relation->nb_output_dims;\n    if (first)\n      precision = relation->precision;\n"))
SP = "          osl_int_set_precision(r->precision, precision, &r->m[i][j]);"
bug("cl-setp-order", R, "C07", ("    if (precision != r->precision) {\n      size_t i;\n      size_t j;\n", "    if (precision != r->precision) {\n      size_t i;\n      size_t j;\n      r->precision = precision;\n"), ("      }\n      r->precision = precision;\n    }\n    r = r->next;", "      }\n    }\n    r = r->next;"))
bug("cl-setp-nocells", R, "C07", ("      osl_relation_set_precision(OSL_PRECISION_DP, a);\n      osl_relation_set_precision(OSL_PRECISION_DP, b);\n", "      a->precision = OSL_PRECISION_DP;\n      b->precision = OSL_PRECISION_DP;\n"))
ok("cl-setp-old", R, ("    if (precision != r->precision) {\n      size_t i;\n", "    int old = r->precision;\n    if (precision != old) {\n      size_t i;\n"), (SP, SP.replace("r->precision", "old")))
bug("cl-dump", R, "C07", ("osl_int_print(file, relation->precision, relation->m[i][j]);", "osl_int_print(file, OSL_PRECISION_DP, relation->m[i][j]);"))
bug("cl-pmalloc", R, "C07", ("osl_int_init_set_si(precision, &relation->m[i][j], 0);", "osl_int_init_set_si(osl_util_get_precision(), &relation->m[i][j], 0);"))
bug("cl-expr-sp", R, "C07", ("  osl_int_init(relation->precision, &value);\n", "  osl_int_init(OSL_PRECISION_SP, &value);\n"))
bug("cl-expr-arg", R, "C07", ("    sval = osl_relation_expression_element(value, relation->precision, &first,", "    sval = osl_relation_expression_element(value, OSL_PRECISION_DP, &first,"))
bug("cl-elem", R, "C07", ("osl_int_neg(precision, val)) {\n      if (osl_int_one(precision, val)) {", "osl_int_neg(precision, val)) {\n      if (osl_int_one(OSL_PRECISION_DP, val)) {"))
bug("cl-scoplib", R, "C07", ("          osl_int_sprint(buffer, relation->precision,\n                         relation->m[0][relation->nb_columns - 1]);", "          osl_int_sprint(buffer, osl_util_get_precision(),\n                         relation->m[0][relation->nb_columns - 1]);"))
bug("cl-free-inside", R, "C09", ("  nb_elements = relation->nb_rows * relation->nb_columns;\n\n  for (i = 0; i < nb_elements; i++)", "  nb_elements = relation->nb_rows * relation->nb_columns;\n\n  for (i = 0; i <= nb_elements; i++)"))
ok("cl-free-rc", R, ("  for (i = 0; i < nb_elements; i++)\n    osl_int_clear(relation->precision, &relation->m[0][i]);\n", "  int j;\n  for (i = 0; i < relation->nb_rows; i++)\n    for (j = 0; j < relation->nb_columns; j++)\n      osl_int_clear(relation->precision, &relation->m[i][j]);\n"))
bug("cl-vadd-size", V, "C09", ("  if ((v1 == NULL) || (v2 == NULL) || (v1->size != v2->size) ||\n      (v1->precision != v2->precision))\n    OSL_error(\"incompatible vectors for addition\");", "  if ((v1 == NULL) || (v2 == NULL) || (v1->size > v2->size) ||\n      (v1->precision != v2->precision))\n    OSL_error(\"incompatible vectors for addition\");"))
bug("cl-vsub-prec", V, "C07", (" ||\n      (v1->precision != v2->precision))\n    OSL_error(\"incompatible vectors for subtraction\");", ")\n    OSL_error(\"incompatible vectors for subtraction\");"))
bug("cl-vmul-malloc", V, "C07", ("osl_vector_pmalloc(v->precision, v->size);", "osl_vector_malloc(v->size);"))
bug("cl-vtag", V, "C09", ("  if ((vector == NULL) || (vector->size < 1))\n    OSL_error(\"vector cannot be tagged\");\n  osl_int_set_si(vector->precision, &vector->v[0], 0);", "  if ((vector == NULL) || (vector->size < 0))\n    OSL_error(\"vector cannot be tagged\");\n  osl_int_set_si(vector->precision, &vector->v[0], 0);"))
bug("cl-vscal", V, "C09", ("  last = vector->size - 1;", "  last = vector->size;"))
bug("cl-vscal-guard", V, "C09", ("(vector->size < 2)", "(vector->size < 0)"))
bug("cl-vequal", V, "C07", ("  if ((v1->size != v2->size) || (v1->precision != v2->precision))\n    return 0;", "  if (v1->size != v2->size)\n    return 0;"))
bug("cl-vfree", V, "C07", ("        osl_int_clear(vector->precision, &vector->v[i]);", "        osl_int_clear(osl_util_get_precision(), &vector->v[i]);"))
ok("cl-vadd-alias", V, ("    osl_int_add(v1->precision, &v3->v[i], v1->v[i], v2->v[i]);", "    osl_int_add(v3->precision, v3->v + i, v1->v[i], v2->v[i]);"))
bug("cl-scop-dom", SC, "C07", ("      precision = scattering->precision;\n", "      precision = statement->domain != NULL ? statement->domain->precision : scattering->precision;\n"))
bug("cl-scop-hoist", SC, "C07", ("      precision = scattering->precision;\n\n", ""), ("    while (scattering != NULL) {\n      if (scattering->nb_local", "    precision = scattering->precision;\n    while (scattering != NULL) {\n      if (scattering->nb_local"))
