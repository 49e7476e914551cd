EDITS = []
ALL = ["C10"]
def ok(name, file, *subs, props=ALL): EDITS.append(dict(name=name, file="source/" + file, subs=list(subs), kind="ok", props=props))
def bug(name, file, *subs, props=ALL): EDITS.append(dict(name=name, file="source/" + file, subs=list(subs), kind="bug", props=props))
IT = "  result->iterators = (char***)malloc(sizeof(char**) * nb_predicates);\n  result->nb_iterators = (int*)malloc(sizeof(int) * nb_predicates);\n  result->body = (char**)malloc(sizeof(char*) * nb_predicates);\n  if (result->iterators == NULL || result->nb_iterators == NULL ||\n      result->body == NULL) {\n    fprintf(stderr, \"[OpenScop] Error: memory overflow.\\n\");\n    exit(1);\n  }\n  // copy controls and exits\n  for (i = 0; i < nb_predicates - 1; i++) {"
IRR = "extensions/irregular.c"
bug("al-irr-partial", IRR, (IT, IT.replace(" ||\n      result->body == NULL", "")))
bug("al-irr-and", IRR, (IT, IT.replace("||", "&&")))
bug("al-irr-go", IRR, (IT, IT.replace("    exit(1);\n  }\n  // copy", "  }\n  // copy")))
bug("al-irr-wrong", IRR, ("  if (result->iterators[nb_predicates - 1] == NULL) {", "  if (result->iterators[0] == NULL) {"))
bug("al-body-direct", "body.c", ("  OSL_malloc(body, osl_body_p, sizeof(osl_body_t));", "  body = malloc(sizeof(osl_body_t));"))
bug("al-body-null-unused", "body.c", ("  OSL_malloc(body, osl_body_p, sizeof(osl_body_t));", "  body = malloc(sizeof(osl_body_t));\n  if (body == NULL)\n    return NULL;"))
bug("al-strdup", "interface.c", ("  OSL_strdup(interface->URI, URI)", "  interface->URI = strdup(URI)")) if 0 else None
bug("al-helper-status", "body.c", ("osl_body_t* osl_body_malloc(void) {", "static int osl_body_block(void** p, size_t n) {\n  *p = malloc(n);\n  if (!*p)\n    return -1;\n  return 0;\n}\nosl_body_t* osl_body_malloc(void) {"),
    ("  OSL_malloc(body, osl_body_p, sizeof(osl_body_t));", "  void* block;\n  osl_body_block(&block, sizeof *body);\n  body = block;"))
ok("al-helper-status-ok", "body.c", ("osl_body_t* osl_body_malloc(void) {", "static int osl_body_block(void** p, size_t n) {\n  *p = malloc(n);\n  if (!*p)\n    return -1;\n  return 0;\n}\nosl_body_t* osl_body_malloc(void) {"),
    ("  OSL_malloc(body, osl_body_p, sizeof(osl_body_t));", "  void* block;\n  if (osl_body_block(&block, sizeof *body) < 0)\n    OSL_error(\"memory overflow\");\n  body = block;"))
ok("al-helper", "body.c", ("osl_body_t* osl_body_malloc(void) {", "static void* osl_body_block(size_t n) {\n  void* p = malloc(n);\n  if (p)\n    return p;\n  OSL_error(\"memory overflow\");\n  return NULL;\n}\nosl_body_t* osl_body_malloc(void) {"),
    ("  OSL_malloc(body, osl_body_p, sizeof(osl_body_t));", "  body = osl_body_block(sizeof *body);"))
ok("al-helper-null", "body.c", ("osl_body_t* osl_body_malloc(void) {", "static void* osl_body_block(size_t n) {\n  void* p = malloc(n);\n  if (p)\n    memset(p, 0, n);\n  return p;\n}\nosl_body_t* osl_body_malloc(void) {"),
    ("  OSL_malloc(body, osl_body_p, sizeof(osl_body_t));", "  body = osl_body_block(sizeof *body);\n  if (!body)\n    OSL_error(\"memory overflow\");"))
ok("al-irr-split", IRR, (IT, IT.replace("  if (result->iterators == NULL || result->nb_iterators == NULL ||\n      result->body == NULL) {", "  int fine = result->iterators && result->nb_iterators;\n  if (!fine || result->body == NULL) {")))
ok("al-irr-demorgan", IRR, (IT, IT.replace("  if (result->iterators == NULL || result->nb_iterators == NULL ||\n      result->body == NULL) {", "  if (!(result->iterators != NULL && result->nb_iterators != NULL && result->body != NULL)) {")))
ok("al-irr-flag", IRR, (IT, IT.replace("  if (result->iterators == NULL || result->nb_iterators == NULL ||\n      result->body == NULL) {", "  int bad = 0;\n  if (!result->iterators)\n    bad = 1;\n  if (!result->nb_iterators)\n    bad = 1;\n  if (!result->body)\n    bad = 1;\n  if (bad) {")))
ok("al-irr-fail", IRR, ("osl_irregular_p osl_irregular_add_exit(", "static void osl_irregular_overflow(void) {\n  fprintf(stderr, \"[OpenScop] Error: memory overflow.\\n\");\n  exit(1);\n}\nosl_irregular_p osl_irregular_add_exit("),
   (IT, IT.replace("    fprintf(stderr, \"[OpenScop] Error: memory overflow.\\n\");\n    exit(1);\n  }\n  // copy", "    osl_irregular_overflow();\n  }\n  // copy")))
ok("al-irr-fail-cond", IRR, ("osl_irregular_p osl_irregular_add_exit(", "static void osl_irregular_check(const void* p) {\n  if (p != NULL)\n    return;\n  fprintf(stderr, \"[OpenScop] Error: memory overflow.\\n\");\n  exit(1);\n}\nosl_irregular_p osl_irregular_add_exit("),
   (IT, IT.replace("  if (result->iterators == NULL || result->nb_iterators == NULL ||\n      result->body == NULL) {\n    fprintf(stderr, \"[OpenScop] Error: memory overflow.\\n\");\n    exit(1);\n  }", "  osl_irregular_check(result->iterators);\n  osl_irregular_check(result->nb_iterators);\n  osl_irregular_check(result->body);")))
ok("al-tmp", "strings.c", ("  OSL_realloc(strings->string, char**, sizeof(char*) * (original_size + 1 + 1));", "  char** grown = realloc(strings->string, sizeof(char*) * (original_size + 1 + 1));\n  if (grown == NULL)\n    OSL_error(\"memory overflow\");\n  strings->string = grown;"))
bug("al-tmp-bug", "strings.c", ("  OSL_realloc(strings->string, char**, sizeof(char*) * (original_size + 1 + 1));", "  char** grown = realloc(strings->string, sizeof(char*) * (original_size + 1 + 1));\n  if (grown == NULL)\n    return;\n  strings->string = grown;"))
bug("al-late", "relation.c", ("    OSL_malloc(p, osl_int_t**, (size_t)nb_rows * sizeof(osl_int_t*));", "    p = malloc((size_t)nb_rows * sizeof(osl_int_t*));\n    relation->m = p;\n    p[0] = NULL;\n    if (p == NULL)\n      OSL_error(\"memory overflow\");"))
