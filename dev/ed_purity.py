EDITS = []
ALL = ["C08"]
def ok(name, file, *subs): EDITS.append(dict(name=name, file="source/" + file, subs=list(subs), kind="ok", props=ALL))
def bug(name, file, *subs): EDITS.append(dict(name=name, file="source/" + file, subs=list(subs), kind="bug", props=ALL))
RESTORE = "    // If necessary, switch back iterator names.\n    if (iterators_backedup) {\n      iterators_backedup = 0;\n      names->iterators = iterators_backup;\n    }\n"
bug("p-norestore", "statement.c", (RESTORE, ""))
bug("p-restore-cond", "statement.c", (RESTORE, RESTORE.replace("if (iterators_backedup) {", "if (iterators_backedup && statement->next != NULL) {")))
bug("p-restore-late", "statement.c", (RESTORE, ""), ("  osl_names_free(names);\n}\n\n/**\n * osl_statement_pprint_scoplib", "  if (iterators_backedup && number > 2)\n    names->iterators = iterators_backup;\n  osl_names_free(names);\n}\n\n/**\n * osl_statement_pprint_scoplib"))
bug("p-lookup-mtf", "generic.c", ("    if (osl_generic_has_URI(x, URI))\n      return x->data;\n", "    if (osl_generic_has_URI(x, URI)) {\n      if (x->data == NULL) x->interface->URI[0] = 0;\n      return x->data;\n    }\n"))
bug("p-strtok", "extensions/clay.c", ("    sprintf(buffer, \"%s\", clay->script);", "    sprintf(buffer, \"%s\", strtok(clay->script, \"\\n\"));"))
bug("p-equal", "vector.c", ("  for (i = 0; i < v1->size; i++)\n    if (osl_int_ne(", "  if (v1->size > 7) osl_int_set_si(v1->precision, &v1->v[0], osl_int_get_si(v2->precision, v2->v[0]));\n  for (i = 0; i < v1->size; i++)\n    if (osl_int_ne("))
ok("p-local", "relation.c", ("  char* sval;\n  char* sline;\n  osl_int_t value;\n", "  char* sval;\n  char* sline;\n  osl_int_t value;\n  osl_relation_t view = *relation;\n  view.next = NULL;\n"))
ok("p-swap-help", "statement.c", ("      iterators_backedup = 1;\n      iterators_backup = names->iterators;\n      names->iterators = body->iterators;\n", "      iterators_backedup = 1;\n      iterators_backup = osl_statement_swap(names, body->iterators);\n"),
   ("void osl_statement_pprint(FILE* const file, const", "static osl_strings_p osl_statement_swap(osl_names_p names, osl_strings_p with) {\n  osl_strings_p old = names->iterators;\n  names->iterators = with;\n  return old;\n}\nvoid osl_statement_pprint(FILE* const file, const"))
ok("p-ptr", "statement.c", (RESTORE, "    if (iterators_backup != NULL || iterators_backedup) {\n      names->iterators = iterators_backup;\n      iterators_backedup = 0;\n      iterators_backup = NULL;\n    }\n"))
ok("p-shell", "relation_list.c", ("    new->elt = osl_relation_clone(r);\n", "    osl_relation_list_p tmp = osl_relation_list_malloc();\n    tmp->elt = (osl_relation_p)r;\n    new->elt = osl_relation_clone(tmp->elt);\n    tmp->elt = NULL;\n    osl_relation_list_free(tmp);\n"))

def share(name, file, *subs): EDITS.append(dict(name=name, file="source/" + file, subs=list(subs), kind="bug", props=["C01"]))
bug("p2-count-cache", "relation_list.c", ("  while (list != NULL) {\n    if (list->elt != NULL)\n      i++;\n    list = list->next;\n  }\n\n  return i;", "  while (list != NULL) {\n    if (list->elt != NULL && list->elt->nb_rows >= 0)\n      i++;\n    else if (list->elt != NULL)\n      list->elt->nb_rows = 0;\n    list = list->next;\n  }\n\n  return i;"))
bug("p2-scop-lang-case", "scop.c", ("    if ((scop->language != NULL) &&\n", "    if (scop->language != NULL && scop->language[0] == 'c')\n      scop->language[0] = 'C';\n    if ((scop->language != NULL) &&\n"))
bug("p2-clone-relink", "statement.c", ("  while ((statement != NULL) && ((n == -1) || (i < n))) {\n", "  while ((statement != NULL) && ((n == -1) || (i < n))) {\n    if (statement->access != NULL && statement->access->elt == NULL)\n      ((osl_statement_p)statement)->access = NULL;\n"))
bug("p2-dump-body", "body.c", ("  // Go to the right level.\n", "  if (body != NULL && body->iterators == NULL)\n    ((osl_body_p)body)->iterators = osl_strings_malloc();\n  // Go to the right level.\n"))
share("p2-concat-alias", "relation_list.c", ("  if (l2 == NULL)\n    return osl_relation_list_clone(l1);\n", "  if (l2 == NULL)\n    return (osl_relation_list_p)l1;\n"))
share("p2-concat-link", "relation_list.c", ("  end->next = osl_relation_list_clone(l2);\n\n  return new;", "  end->next = (osl_relation_list_p)l2;\n\n  return new;"))
share("p2-union-share", "relation.c", ("osl_relation_clone(r2)", "(osl_relation_p)r2"))

def oks(name, file, *subs): EDITS.append(dict(name=name, file="source/" + file, subs=list(subs), kind="ok", props=["C01", "C03", "C08", "C19"]))
oks("q-null-back", "relation_list.c", ("  if (l2 == NULL)\n    return osl_relation_list_clone(l1);\n", "  if (l1 == NULL && l2 == NULL)\n    return (osl_relation_list_p)l1;\n  if (l2 == NULL)\n    return osl_relation_list_clone(l1);\n"))
oks("q-null-back2", "relation_list.c", ("osl_relation_list_t* osl_relation_list_clone(const osl_relation_list_t* list) {\n  osl_relation_list_p clone = NULL, node, previous = NULL;\n  int first = 1;\n", "osl_relation_list_t* osl_relation_list_clone(const osl_relation_list_t* list) {\n  osl_relation_list_p clone = NULL, node, previous = NULL;\n  int first = 1;\n\n  if (list == NULL)\n    return (osl_relation_list_p)list;\n"))
oks("q-node-late", "relation_list.c", ("    new->elt = osl_relation_clone(r);\n", "    new->elt = r;\n    new->elt = osl_relation_clone(new->elt);\n"))
oks("q-union-loop", "relation.c", ("  osl_relation_add(&copy1, copy2);\n\n  return copy1;", "  if (copy1 == NULL)\n    return copy2;\n  osl_relation_p end = copy1;\n  while (end->next != NULL)\n    end = end->next;\n  end->next = copy2;\n  return copy1;"))
oks("q-union-swap", "relation.c", ("  copy1 = osl_relation_clone(r1);\n  copy2 = osl_relation_clone(r2);\n  osl_relation_add(&copy1, copy2);\n\n  return copy1;", "  osl_relation_p heads[2] = {r1, r2};\n  copy1 = NULL;\n  for (int k = 0; k < 2; k++) {\n    copy2 = osl_relation_clone(heads[k]);\n    osl_relation_add(&copy1, copy2);\n  }\n\n  return copy1;"))
oks("q-concat-temp", "relation_list.c", ("  new = osl_relation_list_clone(l1);\n  end = new;\n  while (end->next != NULL)\n    end = end->next;\n  end->next = osl_relation_list_clone(l2);\n\n  return new;", "  const osl_relation_list_t* both[2] = {l1, l2};\n  osl_relation_list_t** tail = &new;\n  new = NULL;\n  for (int k = 0; k < 2; k++) {\n    end = osl_relation_list_clone(both[k]);\n    *tail = end;\n    while (*tail != NULL)\n      tail = &(*tail)->next;\n  }\n\n  return new;"))
