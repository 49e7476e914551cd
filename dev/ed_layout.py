EDITS = []
ALL = ["C07", "C09", "C22", "C24"]
def ok(name, file, *subs, props=ALL): EDITS.append(dict(name=name, file="source/" + file, subs=list(subs), kind="ok", props=props))
def bug(name, file, prop, *subs): EDITS.append(dict(name=name, file="source/" + file, subs=list(subs), kind="bug", props=[prop]))
R, V = "relation.c", "vector.c"
RV = "  for (i = 0; i < vector->size; i++)\n    osl_int_assign(relation->precision, &relation->m[row][i], vector->v[i]);\n"
bug("ly-rv-one", R, "C24", (RV, RV.replace("i = 0", "i = 1")))
bug("ly-rv-short", R, "C24", (RV, RV.replace("i < vector->size", "i < vector->size - 1")))
bug("ly-rv-first", R, "C24", (RV, RV.replace("vector->v[i]", "vector->v[0]")))
bug("ly-rv-row0", R, "C24", (RV, RV.replace("[row]", "[0]")))
ok("ly-rv-down", R, (RV, "  for (i = vector->size; i-- > 0;)\n    osl_int_assign(relation->precision, &relation->m[row][i], vector->v[i]);\n"))
ok("ly-rv-shifted", R, (RV, "  for (i = 1; i <= vector->size; i++)\n    osl_int_assign(relation->precision, &relation->m[row][i - 1], vector->v[i - 1]);\n"))
ok("ly-rv-split", R, (RV, "  if (vector->size > 0)\n    osl_int_assign(relation->precision, &relation->m[row][0], vector->v[0]);\n" + RV.replace("i = 0", "i = 1")))
AV = "  if (osl_int_get_si(relation->precision, relation->m[row][0]) == 0)\n    osl_int_assign(relation->precision, &relation->m[row][0], vector->v[0]);\n\n  for (i = 1; i < vector->size; i++)\n    osl_int_add(relation->precision, &relation->m[row][i], relation->m[row][i],\n                vector->v[i]);\n"
bug("ly-av-zero", R, "C24", (AV, AV.replace("i = 1", "i = 0")))
bug("ly-av-two", R, "C24", (AV, AV.replace("i = 1", "i = 2")))
bug("ly-av-sub", R, "C24", (AV, AV.replace("osl_int_add", "osl_int_sub")))
bug("ly-av-lost", R, "C24", (AV, AV.replace("relation->m[row][i],\n                vector->v[i]", "vector->v[i],\n                vector->v[i]")))
ok("ly-av-commute", R, (AV, AV.replace("relation->m[row][i],\n                vector->v[i]", "vector->v[i],\n                relation->m[row][i]")))
IBC1 = "    for (j = 0; j < column; j++)\n      osl_int_assign(relation->precision, &temp->m[i][j], relation->m[i][j]);\n\n    for (j = column; j < relation->nb_columns; j++)\n      osl_int_assign(relation->precision, &temp->m[i][j + 1],\n                     relation->m[i][j]);\n"
bug("ly-ibc-noshift", R, "C24", (IBC1, IBC1.replace("[j + 1]", "[j]")))
bug("ly-ibc-late", R, "C24", (IBC1, IBC1.replace("j = column;", "j = column + 1;")))
bug("ly-ibc-le", R, "C24", (IBC1, IBC1.replace("j < column;", "j <= column;")))
bug("ly-ibc-dup", R, "C24", (IBC1, IBC1.replace("j < column;", "j < column - 1;")))
ok("ly-ibc-cond", R, (IBC1, "    for (j = 0; j < relation->nb_columns; j++) {\n      int to = j < column ? j : j + 1;\n      osl_int_assign(relation->precision, &temp->m[i][to], relation->m[i][j]);\n    }\n"))
ok("ly-ibc-cond2", R, (IBC1, "    for (j = 0; j < relation->nb_columns; j++) {\n      if (j < column)\n        osl_int_assign(relation->precision, &temp->m[i][j], relation->m[i][j]);\n      else\n        osl_int_assign(relation->precision, &temp->m[i][j + 1], relation->m[i][j]);\n    }\n"))
ok("ly-ibc-skip", R, (IBC1, "    for (j = 0; j < temp->nb_columns; j++) {\n      if (j == column)\n        continue;\n      osl_int_assign(relation->precision, &temp->m[i][j], relation->m[i][j < column ? j : j - 1]);\n    }\n"))
bug("ly-ibc-cond-gt", R, "C24", (IBC1, "    for (j = 0; j < relation->nb_columns; j++) {\n      int to = j <= column ? j : j + 1;\n      osl_int_assign(relation->precision, &temp->m[i][to], relation->m[i][j]);\n    }\n"))
bug("ly-ibc-cols", R, "C22", ("  relation->nb_columns = temp->nb_columns;\n  relation->m = temp->m;\n\n  // Free the temp \"shell\".\n  free(temp);\n}\n\n/**\n * osl_relation_from_vector", "  relation->m = temp->m;\n\n  // Free the temp \"shell\".\n  free(temp);\n}\n\n/**\n * osl_relation_from_vector"))
ok("ly-ibc-count", R, ("  relation->nb_columns = temp->nb_columns;\n  relation->m = temp->m;\n\n  // Free the temp \"shell\".\n  free(temp);\n}\n\n/**\n * osl_relation_from_vector", "  relation->nb_columns++;\n  relation->m = temp->m;\n\n  // Free the temp \"shell\".\n  free(temp);\n}\n\n/**\n * osl_relation_from_vector"))
RC = "  for (i = 0; i < r2->nb_rows; i++)\n    for (j = 0; j < r2->nb_columns; j++)\n      osl_int_assign(r1->precision, &r1->m[i + row][j], r2->m[i][j]);\n"
bug("ly-rc-one", R, "C24", (RC, RC.replace("i = 0", "i = 1")))
bug("ly-rc-row", R, "C24", (RC, RC.replace("i + row", "i")))
bug("ly-rc-col", R, "C24", (RC, RC.replace("j = 0", "j = 1")))
bug("ly-rc-back", R, "C24", (RC, RC.replace("&r1->m[i + row][j], r2->m[i][j]", "&r2->m[i][j], r1->m[i + row][j]").replace("r1->precision", "r2->precision")))
ok("ly-rc-swap", R, (RC, "  for (j = 0; j < r2->nb_columns; j++)\n    for (i = 0; i < r2->nb_rows; i++)\n      osl_int_assign(r1->precision, &r1->m[i + row][j], r2->m[i][j]);\n"))
ok("ly-rc-helper", R, ("void osl_relation_replace_constraints(osl_relation_t* r1,", "static void osl_relation_copy_row(osl_relation_t* to, int row, const osl_relation_t* from, int source) {\n  int j;\n  for (j = 0; j < from->nb_columns; j++)\n    osl_int_assign(to->precision, &to->m[row][j], from->m[source][j]);\n}\nvoid osl_relation_replace_constraints(osl_relation_t* r1,"),
   (RC, "  (void)j;\n  for (i = 0; i < r2->nb_rows; i++)\n    osl_relation_copy_row(r1, i + row, r2, i);\n"))
IC1 = "  for (i = 0; i < row; i++)\n    for (j = 0; j < r1->nb_columns; j++)\n      osl_int_assign(r1->precision, &temp->m[i][j], r1->m[i][j]);\n\n  osl_relation_replace_constraints(temp, r2, row);\n\n"
IC2 = "  for (i = row + r2->nb_rows; i < r2->nb_rows + r1->nb_rows; i++)\n    for (j = 0; j < r1->nb_columns; j++)\n      osl_int_assign(r1->precision, &temp->m[i][j], r1->m[i - r2->nb_rows][j]);\n"
ICE = "  r1->nb_rows = temp->nb_rows;\n  r1->m = temp->m;\n"
bug("ly-ic-end", R, "C24", ("  if (row == -1)\n    row = r1->nb_rows;\n", "  if (row == -1)\n    row = 0;\n"))
bug("ly-ic-tail", R, "C24", (IC2, IC2.replace("i < r2->nb_rows + r1->nb_rows", "i < r1->nb_rows")))
bug("ly-ic-tailsrc", R, "C24", (IC2, IC2.replace("r1->m[i - r2->nb_rows]", "r1->m[i - row]")))
bug("ly-ic-from", R, "C24", (IC2, IC2.replace("i = row + r2->nb_rows", "i = row + r2->nb_rows + 1")))
bug("ly-ic-nomid", R, "C24", (IC1, IC1.replace("  osl_relation_replace_constraints(temp, r2, row);\n", "  osl_relation_replace_constraints(temp, r2, 0);\n")))
bug("ly-ic-first", R, "C24", (IC1, IC1.replace("j = 0", "j = 1")))
bug("ly-ic-rows", R, "C22", (ICE, "  r1->nb_rows = temp->nb_rows - 1;\n  r1->m = temp->m;\n"))
bug("ly-ic-cols", R, "C22", (ICE, "  r1->nb_columns = temp->nb_rows;\n  r1->nb_rows = temp->nb_rows;\n  r1->m = temp->m;\n"))
bug("ly-ic-norows", R, "C22", (ICE, "  r1->m = temp->m;\n"))
bug("ly-ic-keepm", R, "C22", (ICE, "  r1->nb_rows = temp->nb_rows;\n"), ("  osl_relation_free_inside(r1);\n\n  // Replace the inside of relation.\n  r1->nb_rows", "  // Replace the inside of relation.\n  r1->nb_rows"))
bug("ly-ic-type", R, "C22", (ICE, ICE + "  r1->type = temp->type;\n"))
bug("ly-ic-all", R, "C22", (ICE, "  temp->next = r1->next;\n  *r1 = *temp;\n"))
bug("ly-ic-next", R, "C22", (ICE, ICE + "  r1->next = temp->next;\n"))
ok("ly-ic-plus", R, (ICE, "  r1->nb_rows += r2->nb_rows;\n  r1->m = temp->m;\n"))
ok("ly-ic-replace", R, (IC2, "  for (i = row; i < r1->nb_rows; i++)\n    for (j = 0; j < r1->nb_columns; j++)\n      osl_int_assign(r1->precision, &temp->m[i + r2->nb_rows][j], r1->m[i][j]);\n"))
ok("ly-ic-own", R, (IC1, IC1.replace("  osl_relation_replace_constraints(temp, r2, row);\n", "  for (i = 0; i < r2->nb_rows; i++)\n    for (j = 0; j < r1->nb_columns; j++)\n      osl_int_assign(r1->precision, &temp->m[row + i][j], r2->m[i][j]);\n")))

ok("ly-ic-one", R, (IC1 + IC2, "  for (i = 0; i < r1->nb_rows; i++) {\n    int to = i < row ? i : i + r2->nb_rows;\n    for (j = 0; j < r1->nb_columns; j++)\n      osl_int_assign(r1->precision, &temp->m[to][j], r1->m[i][j]);\n  }\n  osl_relation_replace_constraints(temp, r2, row);\n"))
RR1 = "  for (i = 0; i < row; i++)\n    for (j = 0; j < r->nb_columns; j++)\n      osl_int_assign(r->precision, &temp->m[i][j], r->m[i][j]);\n\n  for (i = row + 1; i < r->nb_rows; i++)\n    for (j = 0; j < r->nb_columns; j++)\n      osl_int_assign(r->precision, &temp->m[i - 1][j], r->m[i][j]);\n"
bug("ly-rr-short", R, "C24", (RR1, RR1.replace("i < r->nb_rows", "i < r->nb_rows - 1")))
bug("ly-rr-same", R, "C24", (RR1, RR1.replace("&temp->m[i - 1][j], r->m[i][j]", "&temp->m[i - 1][j], r->m[i - 1][j]")))
bug("ly-rr-late", R, "C24", (RR1, RR1.replace("row + 1", "row + 2")))
bug("ly-rr-rows", R, "C22", ("  r->nb_rows = temp->nb_rows;\n  r->m = temp->m;\n", "  r->m = temp->m;\n"))
bug("ly-rr-size", R, "C22", ("temp = osl_relation_pmalloc(r->precision, r->nb_rows - 1, r->nb_columns);", "temp = osl_relation_pmalloc(r->precision, r->nb_rows, r->nb_columns);"))
ok("ly-rr-k", R, (RR1, "  for (i = 0; i < r->nb_rows - 1; i++)\n    for (j = 0; j < r->nb_columns; j++)\n      osl_int_assign(r->precision, &temp->m[i][j], r->m[i < row ? i : i + 1][j]);\n"))
ok("ly-rr-skip", R, (RR1, "  for (i = 0; i < r->nb_rows; i++) {\n    if (i == row)\n      continue;\n    for (j = 0; j < r->nb_columns; j++)\n      osl_int_assign(r->precision, &temp->m[i > row ? i - 1 : i][j], r->m[i][j]);\n  }\n"))
ok("ly-rr-count", R, (RR1, "  int k = 0;\n  for (i = 0; i < r->nb_rows; i++) {\n    if (i == row)\n      continue;\n    for (j = 0; j < r->nb_columns; j++)\n      osl_int_assign(r->precision, &temp->m[k][j], r->m[i][j]);\n    k++;\n  }\n"), props=["C07", "C22", "C24"])
ok("ly-rr-rowptr", R, (RR1, "  for (i = 0; i < temp->nb_rows; i++) {\n    osl_int_t* from = i < row ? r->m[i] : r->m[i + 1];\n    for (j = 0; j < r->nb_columns; j++)\n      osl_int_assign(r->precision, &temp->m[i][j], from[j]);\n  }\n"))
RO1 = "    for (j = 0; j < column; j++)\n      osl_int_assign(r->precision, &temp->m[i][j], r->m[i][j]);\n\n    for (j = column + 1; j < r->nb_columns; j++)\n      osl_int_assign(r->precision, &temp->m[i][j - 1], r->m[i][j]);\n"
bug("ly-ro-same", R, "C24", (RO1, RO1.replace("r->m[i][j]);\n", "r->m[i][j]);\n", 1).replace("&temp->m[i][j - 1], r->m[i][j]", "&temp->m[i][j - 1], r->m[i][j - 1]")))
bug("ly-ro-row0", R, "C24", ("  for (i = 0; i < r->nb_rows; i++) {\n" + RO1, "  for (i = 1; i < r->nb_rows; i++) {\n" + RO1))
ok("ly-ro-k", R, (RO1, "    for (j = 0; j < temp->nb_columns; j++)\n      osl_int_assign(r->precision, &temp->m[i][j], r->m[i][j < column ? j : j + 1]);\n"))
IN = "    for (j = 0; j < column; j++)\n      osl_int_assign(relation->precision, &temp->m[i][j], relation->m[i][j]);\n\n    for (j = column; j < column + insert->nb_columns; j++)\n      osl_int_assign(relation->precision, &temp->m[i][j],\n                     insert->m[i][j - column]);\n"
IN3 = "         j < insert->nb_columns + relation->nb_columns; j++)\n      osl_int_assign(relation->precision, &temp->m[i][j],\n                     relation->m[i][j - insert->nb_columns]);\n"
bug("ly-in-one", R, "C24", (IN, IN.replace("j < column + insert->nb_columns", "j < column + 1")))
bug("ly-in-src", R, "C24", (IN3, IN3.replace("j - insert->nb_columns", "j - column")))
bug("ly-in-short", R, "C24", (IN3, IN3.replace("j < insert->nb_columns + relation->nb_columns", "j < insert->nb_columns + relation->nb_columns - 1")))
ok("ly-in-zero", R, (IN, IN.replace("j = column; j < column + insert->nb_columns", "j = 0; j < insert->nb_columns").replace("&temp->m[i][j],\n                     insert->m[i][j - column]", "&temp->m[i][column + j],\n                     insert->m[i][j]")))
CC = "  osl_relation_replace_constraints(new, r1, 0);\n  osl_relation_replace_constraints(new, r2, r1->nb_rows);\n"
bug("ly-cc-second", R, "C24", (CC, CC.replace("r2, r1->nb_rows", "r2, r2->nb_rows")))
bug("ly-cc-order", R, "C24", (CC, "  osl_relation_replace_constraints(new, r2, 0);\n  osl_relation_replace_constraints(new, r1, r2->nb_rows);\n"))
bug("ly-cc-lost", R, "C24", (CC, CC.replace("  osl_relation_replace_constraints(new, r2, r1->nb_rows);\n", "")))
bug("ly-cc-size", R, "C22", ("  new = osl_relation_pmalloc(r1->precision, r1->nb_rows + r2->nb_rows,\n                             r1->nb_columns);\n  osl", "  new = osl_relation_pmalloc(r1->precision, r1->nb_rows + r2->nb_rows + 1,\n                             r1->nb_columns);\n  osl"))
ok("ly-cc-rev", R, (CC, "  osl_relation_replace_constraints(new, r2, r1->nb_rows);\n  osl_relation_replace_constraints(new, r1, 0);\n"))
ok("ly-cc-clone", R, ("  new = osl_relation_pmalloc(r1->precision, r1->nb_rows + r2->nb_rows,\n                             r1->nb_columns);\n" + CC, "  new = osl_relation_pmalloc(r1->precision, r2->nb_rows + r1->nb_rows,\n                             r2->nb_columns);\n" + CC))
SW = "    osl_int_swap(relation->precision, &relation->m[c1][i], &relation->m[c2][i]);\n"
bug("ly-sw-one", R, "C24", (SW, "    osl_int_assign(relation->precision, &relation->m[c1][i], relation->m[c2][i]);\n"))
bug("ly-sw-col", R, "C24", ("  for (i = 0; i < relation->nb_columns; i++)\n" + SW, "  for (i = 1; i < relation->nb_columns; i++)\n" + SW))
ok("ly-sw-rev", R, (SW, SW.replace("&relation->m[c1][i], &relation->m[c2][i]", "&relation->m[c2][i], &relation->m[c1][i]")))
EX = "      for (j = 0; j <= relation->nb_output_dims; j++)\n        osl_int_assign(precision, &node->m[i][j], relation->m[i][j]);\n\n      for (j = relation->nb_output_dims + offset + 1;\n           j < relation->nb_columns + offset; j++)\n        osl_int_assign(precision, &node->m[i][j], relation->m[i][j - offset]);\n"
bug("ly-ex-lt", R, "C24", (EX, EX.replace("j <= relation", "j < relation")))
bug("ly-ex-off", R, "C24", (EX, EX.replace("offset + 1;", "offset;").replace("[j - offset]", "[j - offset + 1]")))
bug("ly-ex-src", R, "C24", (EX, EX.replace("j < relation->nb_columns + offset", "j < relation->nb_columns")))
DG = "        if ((i - relation->nb_rows) == (j - relation->nb_output_dims - 1))\n          osl_int_set_si(precision, &node->m[i][j], -1);\n"
bug("ly-ex-one", R, "C24", (DG, DG.replace(", -1);", ", 1);")))
bug("ly-ex-diag", R, "C24", (DG, DG.replace("nb_output_dims - 1", "nb_output_dims")))
bug("ly-ex-diag2", R, "C24", (DG, DG.replace("(i - relation->nb_rows)", "(i - relation->nb_rows + 1)")))
DL = "    for (i = relation->nb_rows; i < relation->nb_rows + offset; i++) {\n      for (j = 0; j < relation->nb_columns + offset; j++) {\n" + DG + "      }\n    }\n"
ok("ly-ex-direct", R, (DL, "    for (i = 0; i < offset; i++)\n      osl_int_set_si(precision, &node->m[relation->nb_rows + i][relation->nb_output_dims + 1 + i], -1);\n"), props=["C07", "C22", "C24"])
ok("ly-ex-direct2", R, (DL, "    for (i = relation->nb_rows; i < relation->nb_rows + offset; i++) {\n      j = relation->nb_output_dims + 1 + i - relation->nb_rows;\n      osl_int_set_si(precision, &node->m[i][j], -1);\n    }\n"), props=["C07", "C22", "C24"])
bug("ly-ex-directshort", R, "C24", (DL, "    for (i = 1; i < offset; i++)\n      osl_int_set_si(precision, &node->m[relation->nb_rows + i][relation->nb_output_dims + 1 + i], -1);\n"))
ok("ly-ex-else", R, (DG, DG + "        else\n          osl_int_set_si(precision, &node->m[i][j], 0);\n"))
bug("ly-ex-local", R, "C22", ("    node->nb_local_dims = relation->nb_local_dims;\n    node->nb_parameters = relation->nb_parameters;\n\n    // Copy", "    node->nb_parameters = relation->nb_parameters;\n\n    // Copy"))
bug("ly-ex-out", R, "C22", ("    node->nb_output_dims = OSL_max(relation->nb_output_dims, dim);\n", "    node->nb_output_dims = relation->nb_output_dims;\n"))
ok("ly-ex-dim", R, ("    node->nb_output_dims = OSL_max(relation->nb_output_dims, dim);\n", "    node->nb_output_dims = dim;\n"))
ok("ly-ex-outoff", R, ("    node->nb_output_dims = OSL_max(relation->nb_output_dims, dim);\n", "    node->nb_output_dims = relation->nb_output_dims + offset;\n"))
ok("ly-ex-attr", R, ("    node->nb_output_dims = OSL_max(relation->nb_output_dims, dim);\n    node->nb_input_dims = relation->nb_input_dims;\n    node->nb_local_dims = relation->nb_local_dims;\n    node->nb_parameters = relation->nb_parameters;\n", "    osl_relation_set_attributes_one(node, dim, relation->nb_input_dims, relation->nb_local_dims, relation->nb_parameters);\n"))
ok("ly-ex-attr2", R, ("    node->nb_output_dims = OSL_max(relation->nb_output_dims, dim);\n    node->nb_input_dims = relation->nb_input_dims;\n    node->nb_local_dims = relation->nb_local_dims;\n    node->nb_parameters = relation->nb_parameters;\n", "    osl_relation_set_attributes(node, dim, relation->nb_input_dims, relation->nb_local_dims, relation->nb_parameters);\n"))
bug("ly-bv", R, "C22", ("  relation = osl_relation_pmalloc(vector->precision, 1, vector->size);\n  osl_relation_replace", "  relation = osl_relation_pmalloc(vector->precision, 2, vector->size);\n  osl_relation_replace"))
bug("ly-iv", R, "C24", ("  osl_relation_insert_constraints(relation, temp, row);\n", "  osl_relation_insert_constraints(relation, temp, row + 1);\n"))
bug("ly-cv", R, "C24", ("  new = osl_relation_concat_constraints(relation, temp);", "  new = osl_relation_concat_constraints(temp, relation);"))
bug("ly-bb", R, "C24", ("    osl_relation_insert_vector(relation, vector, row);\n", "    osl_vector_tag_equality(vector);\n    osl_int_set_si(vector->precision, &vector->v[0], 1);\n    osl_relation_insert_vector(relation, vector, row);\n"))
ok("ly-iv-rv", R, ("  osl_relation_insert_constraints(relation, temp, row);\n", "  if (relation != NULL && row == -1)\n    row = relation->nb_rows;\n  osl_relation_insert_constraints(relation, temp, row);\n"))
NC = "    for (i = 0; i < n; i++)\n      for (j = 0; j < relation->nb_columns; j++)\n        osl_int_assign(relation->precision, &node->m[i][j], relation->m[i][j]);\n"
bug("ly-nc-less", R, "C24", (NC, NC.replace("j < relation->nb_columns", "j < relation->nb_columns - 1")))
bug("ly-nc-row", R, "C24", (NC, NC.replace("i = 0; i < n", "i = 1; i < n")))
bug("ly-nc-type", R, "C22", ("    node->nb_local_dims = relation->nb_local_dims;\n    node->nb_parameters = relation->nb_parameters;\n\n    for (i = 0; i < n", "    node->nb_local_dims = relation->nb_parameters;\n    node->nb_parameters = relation->nb_parameters;\n\n    for (i = 0; i < n"))
bug("ly-nc-size", R, "C22", ("osl_relation_pmalloc(relation->precision, n, relation->nb_columns);", "osl_relation_pmalloc(relation->precision, relation->nb_rows, relation->nb_columns);"))
ok("ly-nc-all", R, ("    if (all_rows)\n      n = relation->nb_rows;\n\n    if (n > relation->nb_rows)", "    const int rows = all_rows ? relation->nb_rows : n;\n    if (rows > relation->nb_rows)"), ("osl_relation_pmalloc(relation->precision, n, relation->nb_columns);", "osl_relation_pmalloc(relation->precision, rows, relation->nb_columns);"), (NC, NC.replace("i < n", "i < rows")))
AS = "  for (i = 0; i < vector->size; i++)\n    osl_int_assign(precision, &result->v[i], vector->v[i]);\n  osl_int_add_si(precision, &result->v[last], vector->v[last], scalar);\n"
bug("ly-as-first", V, "C24", (AS, AS.replace("[last]", "[0]")))
bug("ly-as-copy", V, "C24", (AS, AS.replace("i < vector->size", "i < last - 1")))
bug("ly-as-nolast", V, "C24", (AS, AS.replace("  osl_int_add_si(precision, &result->v[last], vector->v[last], scalar);\n", "")))
ok("ly-as-self", V, (AS, AS.replace("vector->v[last], scalar", "result->v[last], scalar")))
ok("ly-as-short", V, (AS, AS.replace("i < vector->size", "i < last")))
ok("ly-as-clone", V, ("  result = osl_vector_pmalloc(precision, vector->size);\n  for (i = 0; i < vector->size; i++)\n    osl_int_assign(precision, &result->v[i], vector->v[i]);\n  osl", "  (void)i;\n  result = osl_vector_pmalloc(precision, vector->size);\n  for (i = 0; i <= last; i++)\n    osl_int_assign(precision, &result->v[i], vector->v[i]);\n  osl"))
bug("ly-va-one", V, "C24", ("    osl_int_add(v1->precision, &v3->v[i], v1->v[i], v2->v[i]);", "    osl_int_add(v1->precision, &v3->v[i], v1->v[i], v1->v[i]);"))
bug("ly-vs-order", V, "C24", ("    osl_int_sub(v1->precision, &v3->v[i], v1->v[i], v2->v[i]);", "    osl_int_sub(v1->precision, &v3->v[i], v2->v[i], v1->v[i]);"))
bug("ly-vs-from", V, "C24", ("  for (i = 0; i < v1->size; i++)\n    osl_int_sub", "  for (i = 1; i < v1->size; i++)\n    osl_int_sub"))
bug("ly-vt", V, "C24", ("  osl_int_set_si(vector->precision, &vector->v[0], 1);", "  osl_int_set_si(vector->precision, &vector->v[0], 0);"))
bug("ly-vt2", V, "C24", ("  osl_int_set_si(vector->precision, &vector->v[0], 1);", "  osl_int_set_si(vector->precision, &vector->v[vector->size - 1], 1);"))
bug("ly-vm", V, "C24", ("    osl_int_mul_si(v->precision, &result->v[i], v->v[i], scalar);", "    osl_int_add_si(v->precision, &result->v[i], v->v[i], scalar);"))
bug("ly-vm-size", V, "C22", ("  osl_vector_p result = osl_vector_pmalloc(v->precision, v->size);", "  osl_vector_p result = osl_vector_pmalloc(v->precision, v->size + 1);"))
