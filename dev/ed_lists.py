EDITS = []
ALL = ["C11", "C17", "C18"]
def ok(name, file, *subs): EDITS.append(dict(name=name, file="source/" + file, subs=list(subs), kind="ok", props=ALL))
def bug(p, name, file, *subs): EDITS.append(dict(name=name, file="source/" + file, subs=list(subs), kind="bug", props=[p]))
bug("C11", "i-scop-reg", "scop.c", ("osl_generic_lookup(scop->extension, OSL_URI_TEXTUAL)", "osl_generic_lookup(scop->extension, interface->URI)"))
bug("C11", "i-swap", "extensions/loop.c", ("(osl_sprint_f)osl_loop_sprint", "(osl_sprint_f)osl_strings_sprint"))
bug("C11", "i-lookup-uri", "statement.c", ("(osl_body_p)osl_generic_lookup(statement->extension, OSL_URI_BODY)", "(osl_body_p)osl_generic_lookup(statement->extension, OSL_URI_EXTBODY)"))
bug("C11", "i-noclone", "extensions/loop.c", ("  interface->clone = (osl_clone_f)osl_loop_clone;\n", ""))
bug("C11", "i-equal2", "extensions/clay.c", ("(osl_equal_f)osl_clay_equal", "(osl_equal_f)osl_interface_equal"))
bug("C11", "i-uri", "extensions/clay.c", ("OSL_strdup(interface->URI, OSL_URI_CLAY)", "OSL_strdup(interface->URI, \"Clay\")"))
bug("C11", "i-reg-miss", "interface.c", ("  osl_interface_add(&registry, osl_region_interface());\n", ""))
bug("C11", "i-reg-two", "interface.c", ("  osl_interface_add(&registry, osl_region_interface());\n", "  { osl_interface_p r2 = NULL; osl_interface_add(&r2, osl_region_interface()); }\n"))
bug("C11", "i-sread-nclone", "generic.c", ("generic->interface = osl_interface_nclone(interface, 1);", "generic->interface = osl_interface_nclone(registry, 1);"))
bug("C11", "i-eq-self", "generic.c", ("x1->interface->equal(x1->data, x2->data)", "x1->interface->equal(x1->data, x1->data)"))
bug("C11", "i-eq-noif", "generic.c", ("if (osl_interface_equal(x1->interface, x2->interface)) {", "if (x2->interface != NULL) {"))
bug("C11", "i-wrap-bad", "extensions/loop.c", ("(osl_equal_f)osl_loop_equal;", "(osl_equal_f)osl_loop_eq1;"),
    ("osl_interface_p osl_loop_interface(void) {", "static bool osl_loop_eq1(osl_loop_t* a, osl_loop_t* b) { (void)b; return osl_loop_equal(a, a); }\nosl_interface_p osl_loop_interface(void) {"))
ok("i-wrap", "extensions/loop.c", ("(osl_equal_f)osl_loop_equal;", "(osl_equal_f)osl_loop_eq1;"),
    ("osl_interface_p osl_loop_interface(void) {", "static bool osl_loop_eq1(osl_loop_t* a, osl_loop_t* b) { return osl_loop_equal(a, b); }\nosl_interface_p osl_loop_interface(void) {"))
ok("i-setup", "extensions/loop.c", ("  interface->idump = (osl_idump_f)osl_loop_idump;\n  interface->sprint = (osl_sprint_f)osl_loop_sprint;\n", "  osl_loop_slots(interface);\n"),
    ("osl_interface_p osl_loop_interface(void) {", "static void osl_loop_slots(osl_interface_t* interface) {\n  interface->idump = (osl_idump_f)osl_loop_idump;\n  interface->sprint = (osl_sprint_f)osl_loop_sprint;\n}\nosl_interface_p osl_loop_interface(void) {"))
ok("i-lit", "extensions/loop.c", ("osl_interface_p interface = osl_interface_malloc();\n\n  OSL_strdup(interface->URI, OSL_URI_LOOP);", "osl_interface_p interface = osl_interface_malloc();\n\n  const char* uri = OSL_URI_LOOP;\n  OSL_malloc(interface->URI, char*, strlen(uri) + 1);\n  strcpy(interface->URI, uri);"))
ok("i-disp", "generic.c", ("x1->interface->equal(x1->data, x2->data)", "(*x1->interface->equal)(x1->data, x2->data)"))
ok("i-read", "generic.c", ("    generic = osl_generic_malloc();\n    generic->interface = osl_interface_nclone(interface, 1);\n    generic->data = interface->sread(&temp);\n", "    generic = osl_generic_shell(NULL, osl_interface_nclone(interface, 1));\n    generic->data = interface->sread(&temp);\n"))
ok("i-readhelp", "generic.c", ("    generic = osl_generic_malloc();\n    generic->interface = osl_interface_nclone(interface, 1);\n    generic->data = interface->sread(&temp);\n", "    generic = osl_generic_mk(interface, &temp);\n"),
  ("osl_generic_t* osl_generic_sread_one(char** const input,", "static osl_generic_t* osl_generic_mk(const osl_interface_t* interface, char** in) {\n  osl_generic_p g = osl_generic_malloc();\n  g->data = interface->sread(in);\n  g->interface = osl_interface_nclone(interface, 1);\n  return g;\n}\nosl_generic_t* osl_generic_sread_one(char** const input,"))
# ---- C17
CHK = """      for (tmp = *list; tmp != NULL; tmp = tmp->next)
        if (osl_generic_has_URI(tmp, check->interface->URI))
          OSL_error("only one generic with a given URI is allowed");
"""
ok("u-helper", "generic.c", (CHK, """      if (osl_generic_holds(*list, check->interface->URI))
        OSL_error("only one generic with a given URI is allowed");
"""), ("void osl_generic_add(osl_generic_t** list,", """static int osl_generic_holds(const osl_generic_t* x, const char* URI) {
  for (; x != NULL; x = x->next)
    if (osl_generic_has_URI(x, URI))
      return 1;
  return 0;
}
void osl_generic_add(osl_generic_t** list,"""))
ok("u-while", "generic.c", (CHK, """      tmp = *list;
      while (tmp) {
        if (tmp->interface && tmp->interface->URI && strcmp(check->interface->URI, tmp->interface->URI) == 0)
          OSL_error("only one generic with a given URI is allowed");
        tmp = tmp->next;
      }
"""))
ok("u-pp", "generic.c", ("""    if (*list != NULL) {
      tmp = *list;
      while (tmp->next != NULL)
        tmp = tmp->next;
      tmp->next = generic;
    } else {
      *list = generic;
    }
""", """    while (*list != NULL)
      list = &(*list)->next;
    *list = generic;
"""))
ok("u-early", "interface.c", ("  if (interface != NULL) {\n    // First", "  if (interface == NULL)\n    return;\n  {\n    // First"))
bug("C17", "u-first-only", "generic.c", ("      check = check->next;\n", "      check = NULL;\n"))
bug("C17", "u-wrong", "generic.c", ("if (osl_generic_has_URI(tmp, check->interface->URI))", "if (osl_generic_has_URI(tmp, generic->interface->URI))"))
bug("C17", "u-skip-head", "generic.c", ("for (tmp = *list; tmp != NULL; tmp = tmp->next)", "for (tmp = *list ? (*list)->next : NULL; tmp != NULL; tmp = tmp->next)"))
bug("C17", "u-last", "generic.c", ("for (tmp = *list; tmp != NULL; tmp = tmp->next)", "for (tmp = *list; tmp != NULL && tmp->next != NULL; tmp = tmp->next)"))
bug("C17", "u-ifirst", "interface.c", ("if (osl_interface_lookup(*list, check_interface->URI) != NULL)", "if (osl_interface_lookup(*list, interface->URI) != NULL)"))
bug("C17", "u-rm-free", "generic.c", ("        tmp->next = generic->next;\n        generic->next = NULL;", "        tmp->next = generic->next;\n        ;"))
bug("C17", "u-rm-cut", "generic.c", ("        tmp->next = generic->next;\n", "        tmp->next = NULL;\n"))
bug("C17", "u-rm-early", "generic.c", ("while (tmp->next != generic && tmp->next != NULL)", "while (tmp->next != generic && tmp->next != NULL && tmp->next->next != NULL)"))
bug("C17", "u-lk", "generic.c", ("    if (osl_generic_has_URI(x, URI))\n      return x->data;\n\n    x = x->next;", "    if (osl_generic_has_URI(x, URI) && x->data != NULL)\n      return x->data;\n\n    x = x->next;"))
bug("C17", "u-prefix", "interface.c", ("(!strcmp(list->URI, URI))", "(!strncmp(list->URI, URI, strlen(URI)))"))
bug("C17", "u-has", "generic.c", ("(strcmp(x->interface->URI, URI))", "(strncmp(x->interface->URI, URI, 6))"))
# ---- C18
bug("C18", "l-add-head", "statement.c", ("  while (*location != NULL)\n    location = &((*location)->next);\n\n  *location = statement;", "  if (*location != NULL)\n    location = &((*location)->next);\n\n  *location = statement;"))
bug("C18", "l-add-null", "scop.c", ("  *location = scop;\n}", "  *location = scop;\n  if (scop) scop->next = NULL;\n}"))
bug("C18", "l-cnt", "statement.c", ("  while (statement != NULL) {\n    number++;", "  while (statement != NULL) {\n    if (statement->domain) number++;"))
bug("C18", "l-cnt2", "extensions/loop.c", ("  while (ll) {\n    count++;", "  while (ll->next) {\n    count++;"))
bug("C18", "l-filter1", "relation_list.c", ("      if (first) {\n        filtered = copy;\n        first = 0;\n      }\n", "      filtered = copy;\n      first = 0;\n"))
bug("C18", "l-filter2", "relation_list.c", ("      if (!first)\n        previous->next = copy->next;\n", ""))
bug("C18", "l-filter3", "relation_list.c", ("      trash->next = NULL;\n", ""))
bug("C18", "l-filter4", "relation_list.c", ("((type != OSL_TYPE_ACCESS) && (type == copy->elt->type))", "((type != OSL_TYPE_ACCESS) && (type <= copy->elt->type))"))
bug("C18", "l-push", "relation_list.c", ("    node->next = *head;\n", "    node->next = *head ? (*head)->next : NULL;\n"))
bug("C18", "l-pop", "relation_list.c", ("    top->next = NULL;\n", ""))
bug("C18", "l-concat", "relation_list.c", ("  while (end->next != NULL)\n    end = end->next;\n", "  if (end->next != NULL)\n    end = end->next;\n"))
bug("C18", "l-dep", "extensions/dependence.c", ("    while ((*now)->next != NULL)\n      *now = (*now)->next;\n", ""))
bug("C18", "l-arr", "extensions/arrays.c", ("  arrays->id[arrays->nb_names] = id;", "  arrays->id[arrays->nb_names - (arrays->nb_names > 64)] = id;"))
bug("C18", "l-reg", "extensions/region.c", ("osl_region_text_append(&region->postlude, postlude_type, postlude);", "osl_region_text_append(&region->prelude, postlude_type, postlude);"))
ok("l-for", "statement.c", ("  while (*location != NULL)\n    location = &((*location)->next);\n\n  *location = statement;", "  osl_statement_t* last;\n  if (*location == NULL) {\n    *location = statement;\n    return;\n  }\n  for (last = *location; last->next; last = last->next)\n    ;\n  last->next = statement;"))
ok("l-for2", "scop.c", ("  while (*location != NULL)\n    location = &((*location)->next);\n\n  *location = scop;", "  for (; *location; location = &(*location)->next)\n    ;\n  *location = scop;"))
ok("l-cntfor", "extensions/loop.c", ("  int count = 0;\n  while (ll) {\n    count++;\n    ll = ll->next;\n  }\n\n  return count;", "  int n;\n  for (n = 0; ll != NULL; ll = ll->next, ++n)\n    ;\n  return n;"))
ok("l-cntlong", "scop.c", ("  size_t number = 0;\n\n  while (scop != NULL) {\n    number++;\n    scop = scop->next;\n  }", "  size_t number = 0;\n  const osl_scop_t* cur;\n\n  for (cur = scop; cur != NULL; cur = cur->next)\n    number += 1;"))
ok("l-concat2", "relation_list.c", ("  end = new;\n  while (end->next != NULL)\n    end = end->next;\n  end->next = osl_relation_list_clone(l2);\n", "  (void)end;\n  osl_relation_list_add(&new, osl_relation_list_clone(l2));\n"))
ok("l-filter", "relation_list.c", ("    if ((copy->elt != NULL) &&\n        (((type == OSL_TYPE_ACCESS) && (osl_relation_is_access(copy->elt))) ||\n         ((type != OSL_TYPE_ACCESS) && (type == copy->elt->type)))) {", "    if (osl_relation_list_match(copy, type)) {"),
  ("osl_relation_list_t* osl_relation_list_filter(const", "static int osl_relation_list_match(const osl_relation_list_t* n, int type) {\n  if (n->elt == NULL)\n    return 0;\n  if (type == OSL_TYPE_ACCESS)\n    return osl_relation_is_access(n->elt);\n  return n->elt->type == type;\n}\nosl_relation_list_t* osl_relation_list_filter(const"))
ok("l-pop2", "relation_list.c", ("  osl_relation_list_p top = NULL;\n\n  if (*head != NULL) {\n    top = *head;\n    *head = (*head)->next;\n    top->next = NULL;\n  }\n\n  return top;", "  osl_relation_list_p top = *head;\n\n  if (top == NULL)\n    return NULL;\n  *head = top->next;\n  top->next = NULL;\n  return top;"))
ok("l-stradd", "strings.c", ("  strings->string[original_size + 1] = NULL;\n  OSL_malloc(strings->string[original_size], char*,\n             sizeof(char) * (strlen(string) + 1));\n  strcpy(strings->string[original_size], string);", "  OSL_strdup(strings->string[original_size], string);\n  strings->string[original_size + 1] = NULL;"))
ok("l-ext", "extensions/extbody.c", ("  ebody->nb_access++;\n\n  OSL_realloc(ebody->start, int*, sizeof(int) * ebody->nb_access);\n  OSL_realloc(ebody->length, int*, sizeof(int) * ebody->nb_access);\n\n  ebody->start[ebody->nb_access - 1] = start;\n  ebody->length[ebody->nb_access - 1] = length;",
   "  const size_t n = ebody->nb_access;\n\n  OSL_realloc(ebody->start, int*, sizeof(int) * (n + 1));\n  OSL_realloc(ebody->length, int*, sizeof(int) * (n + 1));\n\n  ebody->start[n] = start;\n  ebody->length[n] = length;\n  ebody->nb_access = n + 1;"))
