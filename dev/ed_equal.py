EDITS = []
def ok(name, file, *subs): EDITS.append(dict(name=name, file="source/" + file, subs=list(subs), kind="ok", props=["C02"]))
def bug(name, file, *subs): EDITS.append(dict(name=name, file="source/" + file, subs=list(subs), kind="bug", props=["C02"]))

CELLS = """  for (i = 0; i < r1->nb_rows; ++i)
    for (j = 0; j < r1->nb_columns; ++j)
      if (osl_int_ne(r1->precision, r1->m[i][j], r2->m[i][j]))
        return 0;

  return 1;"""
NULLS = "  if (((r1 == NULL) && (r2 != NULL)) || ((r1 != NULL) && (r2 == NULL)))\n    return 0;\n"
ok("e-rel-while", "relation.c", (CELLS, """  i = 0;
  while (i < r2->nb_rows) {
    j = r2->nb_columns - 1;
    while (j >= 0) {
      if (!osl_int_eq(r1->precision, r2->m[i][j], r1->m[i][j]))
        return 0;
      j--;
    }
    i++;
  }
  return 1;"""))
ok("e-rel-flag", "relation.c", (CELLS, """  int same = 1;
  for (i = 0; same && i < r1->nb_rows; ++i)
    for (j = 0; same && j < r1->nb_columns; ++j)
      if (osl_int_ne(r1->precision, r1->m[i][j], r2->m[i][j]))
        same = 0;

  return same;"""))
ok("e-rel-helper", "relation.c", ("bool osl_relation_part_equal(", """static int osl_relation_rows_differ(int precision, osl_int_t* a, osl_int_t* b, int n) {
  int k;
  for (k = 0; k < n; k++)
    if (osl_int_ne(precision, a[k], b[k]))
      return 1;
  return 0;
}
bool osl_relation_part_equal("""), (CELLS, """  for (i = 0; i < r1->nb_rows; ++i)
    if (osl_relation_rows_differ(r1->precision, r1->m[i], r2->m[i], r1->nb_columns))
      return 0;
  (void)j;
  return 1;"""))
ok("e-rel-attr-helper", "relation.c", ("bool osl_relation_part_equal(", """static bool osl_relation_same_dims(const osl_relation_t* a, const osl_relation_t* b) {
  return a->nb_output_dims == b->nb_output_dims && a->nb_input_dims == b->nb_input_dims && a->nb_local_dims == b->nb_local_dims && a->nb_parameters == b->nb_parameters;
}
bool osl_relation_part_equal("""), ("""      (r1->nb_output_dims != r2->nb_output_dims) ||
      (r1->nb_input_dims != r2->nb_input_dims) ||
      (r1->nb_local_dims != r2->nb_local_dims) ||
      (r1->nb_parameters != r2->nb_parameters))
    return 0;

  for""", """      !osl_relation_same_dims(r1, r2))
    return 0;

  for"""))
ok("e-rel-nullsimple", "relation.c", ("  if (r1 == r2)\n    return 1;\n\n" + NULLS, "  if (r1 == r2)\n    return 1;\n  if (!r1 || !r2)\n    return 0;\n"))
ok("e-relequal-for", "relation.c", ("""  while ((r1 != NULL) && (r2 != NULL)) {
    if (!osl_relation_part_equal(r1, r2))
      return 0;

    r1 = r1->next;
    r2 = r2->next;
  }

""" + NULLS + "\n  return 1;", """  for (; r1 && r2; r1 = r1->next, r2 = r2->next)
    if (!osl_relation_part_equal(r2, r1))
      return 0;
  return r1 == r2;"""))
ok("e-relequal-rec", "relation.c", ("""  while ((r1 != NULL) && (r2 != NULL)) {
    if (!osl_relation_part_equal(r1, r2))
      return 0;

    r1 = r1->next;
    r2 = r2->next;
  }

""" + NULLS + "\n  return 1;", """  if (r1 == r2) return 1;
  if (r1 == NULL || r2 == NULL) return 0;
  return osl_relation_part_equal(r1, r2) && osl_relation_equal(r1->next, r2->next);"""))
ok("e-relequal-null", "relation.c", (NULLS + "\n  return 1;\n}\n\n/**\n * osl_relation_check_attribute", "  return r1 == NULL && r2 == NULL;\n}\n\n/**\n * osl_relation_check_attribute"))
ok("e-list-for", "relation_list.c", ("""  while ((l1 != NULL) && (l2 != NULL)) {
    if (l1 == l2)
      return 1;

    if (!osl_relation_equal(l1->elt, l2->elt))
      return 0;

    l1 = l1->next;
    l2 = l2->next;
  }
""", """  bool same = true;
  while (same && l1 && l2) {
    same = osl_relation_equal(l1->elt, l2->elt);
    l1 = l1->next;
    l2 = l2->next;
  }
  if (!same)
    return 0;
"""))
ok("e-arrays-while", "extensions/arrays.c", ("""    for (j = 0; j < a2->nb_names; j++) {
      if ((a1->id[i] == a2->id[j]) && (!strcmp(a1->names[i], a2->names[j]))) {
        found = 1;
        break;
      }
    }
""", """    j = 0;
    while (!found && j < a2->nb_names) {
      if ((a1->id[i] == a2->id[j]) && (strcmp(a2->names[j], a1->names[i]) == 0))
        found = 1;
      j++;
    }
"""))
ok("e-arrays-helper", "extensions/arrays.c", ("bool osl_arrays_equal(", """static int osl_arrays_has(const osl_arrays_t* a, int id, const char* name) {
  int k;
  for (k = 0; k < a->nb_names; k++)
    if (a->id[k] == id && !strcmp(name, a->names[k]))
      return 1;
  return 0;
}
bool osl_arrays_equal("""), ("""    found = 0;
    for (j = 0; j < a2->nb_names; j++) {
      if ((a1->id[i] == a2->id[j]) && (!strcmp(a1->names[i], a2->names[j]))) {
        found = 1;
        break;
      }
    }
    if (found != 1) {""", """    j = 0; found = j;
    if (!osl_arrays_has(a2, a1->id[i], a1->names[i])) {"""))
ok("e-strings-ptr", "strings.c", ("""  for (i = 0; i < nb_s1; i++)
    if (strcmp(s1->string[i], s2->string[i]) != 0)
      return 0;

  return 1;""", """  for (i = nb_s1; i-- > 0;)
    if (strcmp(s2->string[i], s1->string[i]))
      return 0;

  return 1;"""))
ok("e-scatinfos-split", "extensions/scatinfos.c", ("""    if (c1->permutable[i] != c2->permutable[i])
      return 0;
    if (c1->type[i] != c2->type[i])
      return 0;
  }""", """    if (c1->permutable[i] != c2->permutable[i])
      return 0;
  }
  for (size_t k = 0; k != c2->nb_scatdims; ++k)
    if (c1->type[k] != c2->type[k])
      return 0;"""))
ok("e-scatinfos-memcmp", "extensions/scatinfos.c", ("""    if (c1->type[i] != c2->type[i])
      return 0;
  }""", """  }
  if (memcmp(c1->type, c2->type, c1->nb_scatdims * sizeof(int)) != 0)
    return 0;"""))
ok("e-annot-ret", "extensions/annotation.c", ("""  bool equal = true;
  for (size_t i = 0; equal && i < t1->count; ++i) {
    if (t1->types[i] != t2->types[i] || strcmp(t1->lines[i], t2->lines[i])) {
      equal = false;
    }
  }

  return equal;""", """  for (size_t i = 0; i < t2->count; ++i) {
    if (t1->types[i] != t2->types[i])
      return false;
    if (strcmp(t1->lines[i], t2->lines[i]) != 0)
      return false;
  }

  return true;"""))
ok("e-coord-expr", "extensions/coordinates.c", ("  if (c1->line_start != c2->line_start) {\n    OSL_info(\"starting lines are not the same\");\n    return 0;\n  }\n\n  if (c1->column_start != c2->column_start) {", "  int d = c1->line_start - c2->line_start;\n  if (d != 0) return 0;\n  if (c1->column_start != c2->column_start) {"))
ok("e-pluto-cond", "extensions/pluto_unroll.c", ("""    // Next
    if (a->next == b->next) {
      return 1;
    }
    if (a->next == NULL && b->next != NULL) {
      return 0;
    }
    if (a->next != NULL && b->next == NULL) {
      return 0;
    }
    a = a->next;
    b = b->next;""", """    if (!a->next != !b->next)
      return 0;
    a = a->next;
    b = b->next;"""))
ok("e-scop-goto", "scop.c", ("""    if (!osl_relation_equal(s1->context, s2->context)) {
      OSL_info("contexts are not the same");
      return 0;
    }""", """    int ctx = osl_relation_equal(s2->context, s1->context);
    if (ctx == 0)
      goto different;"""), ("  if (((s1 == NULL) && (s2 != NULL)) || ((s1 != NULL) && (s2 == NULL)))\n    return 0;\n\n  return 1;\n}", "  if (((s1 == NULL) && (s2 != NULL)) || ((s1 != NULL) && (s2 == NULL)))\n    return 0;\n\n  return 1;\ndifferent:\n  return 0;\n}"))
ok("e-statement-iter", "statement.c", ("""  if ((s1->next != NULL) && (s2->next != NULL)) {
    if (!osl_statement_equal(s1->next, s2->next)) {
      OSL_info("number of statements is not the same");
      return 0;
    }
  }
""", """  if (s1->next && !osl_statement_equal(s1->next, s2->next))
    return 0;
"""))
ok("e-generic-found", "generic.c", ("""        if (equal == 0)
          return 0;
        else
          found = 1;
      }

      x2 = x2->next;""", """        if (!equal)
          return 0;
        found = 1;
        break;
      }

      x2 = x2->next;"""))
ok("e-loop-for", "extensions/loop.c", ("""    while (temp) {
      if (osl_loop_equal_one(a1, temp) == 1) {
        found = 1;
        break;
      }
      temp = temp->next;
    }
""", """    for (; temp && !found; temp = temp->next)
      found = osl_loop_equal_one(a1, temp);
"""))
ok("e-dep-split", "extensions/dependence.c", ("      d1->depth != d2->depth || d1->type != d2->type ||\n", "      d1->depth != d2->depth ||\n"), ("  if (!osl_relation_equal(d1->domain, d2->domain))\n    return 0;\n", "  if (d1->type != d2->type || !osl_relation_equal(d1->domain, d2->domain))\n    return 0;\n"))
ok("e-vector-both", "vector.c", ("  for (i = 0; i < v1->size; i++)\n    if (osl_int_ne(v1->precision, v1->v[i], v2->v[i]))\n      return 0;\n\n  return 1;", "  i = 0;\n  while (i < v1->size && osl_int_eq(v1->precision, v1->v[i], v2->v[i]))\n    i++;\n\n  return i >= v1->size;"))
ok("e-vector-do", "vector.c", ("  for (i = 0; i < v1->size; i++)\n    if (osl_int_ne(v1->precision, v1->v[i], v2->v[i]))\n      return 0;\n\n  return 1;", "  int diff = 0;\n  for (i = 0; i < v1->size; i++)\n    diff |= osl_int_ne(v1->precision, v1->v[i], v2->v[i]);\n\n  return !diff;"))
ok("e-region-loop", "extensions/region.c", ("""  if (r1 == r2)
    return true;

  bool equal = osl_region_equal_one(r1, r2);

  if (equal)
    return osl_region_equal(r1->next, r2->next);
  else
    return equal;""", """  while (r1 && r2) {
    if (!osl_region_equal_one(r1, r2))
      return false;
    r1 = r1->next;
    r2 = r2->next;
  }
  return !r1 && !r2;"""))
ok("e-symbols-flat", "extensions/symbols.c", ("""    if (osl_generic_equal(c1->identifier, c2->identifier)) {
      if (osl_generic_equal(c1->datatype, c2->datatype)) {
        if (osl_generic_equal(c1->scope, c2->scope)) {
          if (osl_generic_equal(c1->extent, c2->extent)) {
            return osl_symbols_equal(c1->next, c2->next);
          }
        }
      }
    }
  }

  return 0;""", """    if (!osl_generic_equal(c1->identifier, c2->identifier) || !osl_generic_equal(c1->datatype, c2->datatype))
      return 0;
    return osl_generic_equal(c1->scope, c2->scope) && osl_generic_equal(c1->extent, c2->extent) && osl_symbols_equal(c1->next, c2->next);
  }

  return 0;"""))
ok("e-iface-arr", "interface.c", ("  if (strcmp(interface1->URI, interface2->URI) ||\n      (interface1->idump != interface2->idump) ||", "  if (strcmp(interface1->URI, interface2->URI))\n    return 0;\n  if (!(interface1->idump == interface2->idump) ||"))

# ---- bugs
bug("b-rel-prec", "relation.c", ("(r1->precision != r2->precision) ||\n      (r1->nb_rows", "\n      (r1->nb_rows"))
bug("b-rel-local", "relation.c", ("      (r1->nb_local_dims != r2->nb_local_dims) ||\n", "      (r1->nb_local_dims != r1->nb_local_dims) ||\n"))
bug("b-rel-lastcol", "relation.c", ("    for (j = 0; j < r1->nb_columns; ++j)\n      if (osl_int_ne(r1->precision, r1->m[i][j], r2->m[i][j]))", "    for (j = 0; j < r1->nb_columns - 1; ++j)\n      if (osl_int_ne(r1->precision, r1->m[i][j], r2->m[i][j]))"))
bug("b-rel-row1", "relation.c", ("  for (i = 0; i < r1->nb_rows; ++i)\n    for (j = 0; j < r1->nb_columns; ++j)\n      if (osl_int_ne", "  for (i = 1; i < r1->nb_rows; ++i)\n    for (j = 0; j < r1->nb_columns; ++j)\n      if (osl_int_ne"))
bug("b-relequal-len", "relation.c", (NULLS + "\n  return 1;\n}\n\n/**\n * osl_relation_check_attribute", "  if ((r1 == NULL) && (r2 != NULL))\n    return 0;\n  return 1;\n}\n\n/**\n * osl_relation_check_attribute"))
bug("b-relequal-only-first", "relation.c", ("    r1 = r1->next;\n    r2 = r2->next;\n  }\n\n  if (((r1 == NULL)", "    r1 = NULL; r2 = NULL;\n  }\n\n  if (((r1 == NULL)"))
bug("b-list-elt", "relation_list.c", ("osl_relation_equal(l1->elt, l2->elt)", "osl_relation_part_equal(l1->elt, l2->elt)"))
bug("b-arrays-name", "extensions/arrays.c", ("(a1->id[i] == a2->id[j]) && (!strcmp(a1->names[i], a2->names[j]))", "(a1->id[i] == a2->id[j]) || (!strcmp(a1->names[i], a2->names[j]))"))
bug("b-arrays-mixed", "extensions/arrays.c", ("(!strcmp(a1->names[i], a2->names[j]))", "(!strcmp(a1->names[j], a2->names[i]))"))
bug("b-arrays-count", "extensions/arrays.c", ("  if (a1->nb_names != a2->nb_names) {", "  if (a1->nb_names > a2->nb_names) {"))
bug("b-strings-count", "strings.c", ("      ((nb_s1 = osl_strings_size(s1)) != osl_strings_size(s2)))", "      ((nb_s1 = osl_strings_size(s1)) > osl_strings_size(s2)))"))
bug("b-strings-off", "strings.c", ("  for (i = 0; i < nb_s1; i++)\n    if (strcmp(s1->string[i], s2", "  for (i = 0; i + 1 < nb_s1; i++)\n    if (strcmp(s1->string[i], s2"))
bug("b-scatinfos-type", "extensions/scatinfos.c", ("    if (c1->type[i] != c2->type[i])\n      return 0;\n", ""))
bug("b-annot-last", "extensions/annotation.c", ("    if (t1->types[i] != t2->types[i] || strcmp(t1->lines[i], t2->lines[i])) {\n      equal = false;\n    }", "    equal = t1->types[i] == t2->types[i] && !strcmp(t1->lines[0], t2->lines[0]);"))
bug("b-annot-flaglast", "extensions/annotation.c", ("  for (size_t i = 0; equal && i < t1->count; ++i) {\n    if (t1->types[i] != t2->types[i] || strcmp(t1->lines[i], t2->lines[i])) {\n      equal = false;\n    }", "  for (size_t i = 0; i < t1->count; ++i) {\n    equal = t1->types[i] == t2->types[i] && !strcmp(t1->lines[i], t2->lines[i]);"))
bug("b-annot-suffix", "extensions/annotation.c", ("  bool equal = osl_annotation_text_equal(&r1->prefix, &r2->prefix) &&\n               osl_annotation_text_equal(&r1->suffix, &r2->suffix);", "  bool equal = osl_annotation_text_equal(&r1->prefix, &r2->prefix) &&\n               osl_annotation_text_equal(&r1->prefix, &r2->prefix);"))
bug("b-coord-col", "extensions/coordinates.c", ("c1->column_end != c2->column_end", "c1->column_end != c2->column_end && c1->line_end != c2->line_end"))
bug("b-pluto-next", "extensions/pluto_unroll.c", ("    if (a->next == NULL && b->next != NULL) {\n      return 0;\n    }\n", ""))
bug("b-scop-ext", "scop.c", ("    if (!osl_generic_equal(s1->extension, s2->extension)) {", "    if (s1->extension && !osl_generic_equal(s1->extension, s2->extension)) {"))
bug("b-scop-lang", "scop.c", ("         (strcmp(s1->language, s2->language) != 0))", "         (strncmp(s1->language, s2->language, 1) != 0))"))
bug("b-statement-access", "statement.c", ("  if (!osl_relation_list_equal(s1->access, s2->access)) {", "  if (!osl_relation_list_equal(s1->access, s1->access)) {"))
bug("b-generic-count", "generic.c", ("  if (x1_generic_number != x2_generic_number)\n    return 0;\n", "  if (x1_generic_number > x2_generic_number)\n    return 0;\n"))
bug("b-generic-data", "generic.c", ("        if (equal == 0)\n          return 0;\n        else\n          found = 1;", "        found = 1;"))
bug("b-loop-user", "extensions/loop.c", ("  if (a1->user != a2->user) {", "  if (a1->user != a2->user && a1->private_vars != NULL) {"))
bug("b-loop-found", "extensions/loop.c", ("    found = 0;\n    const osl_loop_t* temp = a2;", "    const osl_loop_t* temp = a2;"))
bug("b-vector-bound", "vector.c", ("  for (i = 0; i < v1->size; i++)\n    if (osl_int_ne(v1->precision, v1->v[i], v2->v[i]))", "  for (i = 0; i < v1->precision; i++)\n    if (osl_int_ne(v1->precision, v1->v[i], v2->v[i]))"))
bug("b-region-field", "extensions/region.c", ("               osl_region_text_equal(&r1->postlude, &r2->postlude);", "               osl_region_text_equal(&r1->prelude, &r2->postlude);"))
bug("b-iface-eq", "interface.c", ("      (interface1->equal != interface2->equal))", "      (interface1->clone != interface2->clone))"))
bug("b-iface-uri-neg", "interface.c", ("  if (strcmp(interface1->URI, interface2->URI) ||", "  if (!strcmp(interface1->URI, interface2->URI) ||"))
bug("b-dep-local", "extensions/dependence.c", ("d1->target_nb_local_dims_access != d2->target_nb_local_dims_access", "d1->target_nb_local_dims_access != d2->target_nb_local_dims_domain"))
bug("b-dep-null", "extensions/dependence.c", ("  if (d1 == NULL || d2 == NULL)\n    return 0;\n", "  if (d1 == NULL)\n    return 0;\n"))
bug("b-body-iter", "body.c", ("osl_strings_equal(b1->expression, b2->expression)", "osl_strings_equal(b1->expression, b1->expression)"))
bug("b-names-arr", "scop.c", ("    if (!osl_statement_equal(s1->statement, s2->statement)) {\n", "    if (s1->statement != NULL && s1->statement->next != NULL && !osl_statement_equal(s1->statement, s2->statement)) {\n"))
bug("b-true-differs", "relation_list.c", ("    if (l1 == l2)\n      return 1;\n", "    if (l1 == l2)\n      return 0;\n"))
bug("b-always-diff-attr", "extensions/extbody.c", ("  return osl_body_equal(e1->body, e2->body);", "  return osl_body_equal(e1->body, e2->body) && e1->nb_access > 0;"))
bug("b-irr-exit", "extensions/irregular.c", ("  while (comp == 0 && i < c1->nb_control + c1->nb_exit) {\n    comp += c1", "  while (comp == 0 && i < c1->nb_control) {\n    comp += c1"))
