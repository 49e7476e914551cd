"""C15: buffers and the text put into them"""
EDITS = []
def ok(name, file, *subs, props=("C15",)): EDITS.append(dict(name="fit-" + name, file="source/" + file, subs=list(subs), kind="ok", props=list(props)))
def bug(name, file, *subs): EDITS.append(dict(name="fit-" + name, file="source/" + file, subs=list(subs), kind="bug", props=["C15"]))
U = "util.c"
CAT = """  while ((strlen(*dst) + strlen(src)) >= *hwm) {
    *hwm += OSL_MAX_STRING;
    OSL_realloc(*dst, char*, *hwm * sizeof(char));
  }

  strcat(*dst, src);
"""
bug("cat-gt", U, ("strlen(src)) >= *hwm) {", "strlen(src)) > *hwm) {"))
bug("cat-if", U, ("while ((strlen(*dst) + strlen(src)) >= *hwm) {", "if ((strlen(*dst) + strlen(src)) >= *hwm) {"))
bug("cat-dst", U, ("while ((strlen(*dst) + strlen(src)) >= *hwm) {", "while (strlen(src) >= *hwm) {"))
bug("cat-size", U, ("    OSL_realloc(*dst, char*, *hwm * sizeof(char));", "    OSL_realloc(*dst, char*, (*hwm - 1) * sizeof(char));"))
bug("cat-late", U, ("    *hwm += OSL_MAX_STRING;\n    OSL_realloc(*dst, char*, *hwm * sizeof(char));", "    OSL_realloc(*dst, char*, *hwm * sizeof(char));\n    *hwm += OSL_MAX_STRING;"))
bug("cat-sum", U, ("while ((strlen(*dst) + strlen(src)) >= *hwm) {\n    *hwm += OSL_MAX_STRING;\n    OSL_realloc(*dst, char*, *hwm * sizeof(char));\n  }",
  "if ((strlen(*dst) + strlen(src)) >= *hwm) {\n    *hwm = strlen(*dst) + strlen(src);\n    OSL_realloc(*dst, char*, *hwm * sizeof(char));\n  }"))
bug("cat-minus", U, ("while ((strlen(*dst) + strlen(src)) >= *hwm) {", "while ((strlen(*dst) + strlen(src)) >= *hwm + 1) {"))
ok("cat-plus", U, ("while ((strlen(*dst) + strlen(src)) >= *hwm) {", "while ((strlen(*dst) + strlen(src) + 1) > *hwm) {"))
ok("cat-once", U, (CAT, """  size_t need = strlen(*dst) + strlen(src) + 1;
  if (need > *hwm) {
    *hwm = need + OSL_MAX_STRING;
    OSL_realloc(*dst, char*, *hwm * sizeof(char));
  }

  strcat(*dst, src);
"""))
ok("cat-locals", U, (CAT, """  size_t used = strlen(*dst), more = strlen(src), size = *hwm;
  while (used + more >= size)
    size += OSL_MAX_STRING;
  if (size != *hwm) {
    *hwm = size;
    OSL_realloc(*dst, char*, size * sizeof(char));
  }

  strcat(*dst, src);
"""))
ok("cat-order", U, ("    *hwm += OSL_MAX_STRING;\n    OSL_realloc(*dst, char*, *hwm * sizeof(char));", "    OSL_realloc(*dst, char*, (*hwm + OSL_MAX_STRING) * sizeof(char));\n    *hwm += OSL_MAX_STRING;"))
ok("cat-for", U, ("  while ((strlen(*dst) + strlen(src)) >= *hwm) {\n    *hwm += OSL_MAX_STRING;", "  for (; (strlen(src) + strlen(*dst)) >= *hwm;) {\n    *hwm = OSL_MAX_STRING + *hwm;"))
ok("cat-memcpy", U, ("  strcat(*dst, src);\n", "  memcpy(*dst + strlen(*dst), src, strlen(src) + 1);\n"))
ok("cat-strcpy", U, ("  strcat(*dst, src);\n", "  strcpy(*dst + strlen(*dst), src);\n"))
ok("cat-double", U, ("    *hwm += OSL_MAX_STRING;\n    OSL_realloc", "    *hwm *= 2;\n    OSL_realloc"))
ok("cat-helper", U, ("void osl_util_safe_strcat(char** dst, const char* src, size_t* hwm) {", "static size_t osl_util_room(const char* a, const char* b) {\n  return strlen(a) + strlen(b);\n}\n\nvoid osl_util_safe_strcat(char** dst, const char* src, size_t* hwm) {"), ("while ((strlen(*dst) + strlen(src)) >= *hwm) {", "while (osl_util_room(*dst, src) >= *hwm) {"))
bug("dup-size", U, ("  OSL_malloc(dup, char*, (strlen(str) + 1) * sizeof(char));", "  OSL_malloc(dup, char*, strlen(str) * sizeof(char));"))
ok("dup-mem", U, ("    strcpy(dup, str);", "    memcpy(dup, str, strlen(str) + 1);"))
ok("dup-len", U, ("  OSL_malloc(dup, char*, (strlen(str) + 1) * sizeof(char));\n  if (dup) {\n    strcpy(dup, str);\n  }", "  size_t n = strlen(str), i;\n  OSL_malloc(dup, char*, (n + 1) * sizeof(char));\n  for (i = 0; i < n; i++)\n    dup[i] = str[i];\n  dup[n] = '\\0';"))
bug("dup-loop", U, ("  OSL_malloc(dup, char*, (strlen(str) + 1) * sizeof(char));\n  if (dup) {\n    strcpy(dup, str);\n  }", "  size_t n = strlen(str), i;\n  OSL_malloc(dup, char*, n * sizeof(char));\n  for (i = 0; i < n; i++)\n    dup[i] = str[i];\n  dup[n] = '\\0';"))
bug("tag-start", U, ("  char tag[strlen(name) + 3];\n\n  sprintf", "  char tag[strlen(name) + 2];\n\n  sprintf"))
bug("tag-end", U, ("  char endtag[strlen(name) + 4];\n\n", "  char endtag[strlen(name) + 3];\n\n"))
bug("tag-content", U, ("  char endtag[strlen(name) + 4];\n  size_t size", "  char endtag[strlen(name) + 3];\n  size_t size"))
bug("tag-fixed", U, ("  char endtag[strlen(name) + 4];\n\n", "  char endtag[OSL_MAX_STRING];\n\n"))
bug("content-size", U, ("    OSL_malloc(res, char*, (size + 1) * sizeof(char));", "    OSL_malloc(res, char*, size * sizeof(char));"))
ok("tag-malloc", U, ("  char endtag[strlen(name) + 4];\n\n  sprintf(endtag, \"</%s>\", name);\n  return osl_util_read_uptoflag(file, str, endtag);", "  char *endtag, *res;\n\n  OSL_malloc(endtag, char*, strlen(name) + 4);\n  sprintf(endtag, \"</%s>\", name);\n  res = osl_util_read_uptoflag(file, str, endtag);\n  free(endtag);\n  return res;"))
ok("tag-cat", U, ("  sprintf(endtag, \"</%s>\", name);\n  return", "  strcpy(endtag, \"</\");\n  strcat(endtag, name);\n  strcat(endtag, \">\");\n  return"))
bug("tag-cat", U, ("  char endtag[strlen(name) + 4];\n\n  sprintf(endtag, \"</%s>\", name);\n  return", "  char endtag[strlen(name) + 3];\n\n  strcpy(endtag, \"</\");\n  strcat(endtag, name);\n  strcat(endtag, \">\");\n  return"))
bug("flag-gt", U, ("    if (nb_chars >= high_water_mark) {", "    if (nb_chars > high_water_mark) {"))
bug("flag-before", U, ("      high_water_mark += high_water_mark;\n      OSL_realloc(res, char*, high_water_mark * sizeof(char));", "      OSL_realloc(res, char*, high_water_mark * sizeof(char));\n      high_water_mark += high_water_mark;"))
bug("flag-none", U, ("    if (nb_chars >= high_water_mark) {\n      high_water_mark += high_water_mark;\n      OSL_realloc(res, char*, high_water_mark * sizeof(char));\n    }\n", ""))
bug("flag-start", U, ("  OSL_malloc(res, char*, high_water_mark * sizeof(char));\n\n  // Copy everything", "  OSL_malloc(res, char*, lenflag + 1);\n\n  // Copy everything"))
bug("flag-end", U, ("(nb_chars - strlen(flag) + 1) * sizeof(char));", "(nb_chars - strlen(flag)) * sizeof(char));"))
bug("flag-order", U, ("    res[nb_chars++] = (str != NULL) ? *((*str)++) : (char)fgetc(file);\n\n    if ((nb_chars", "    res[++nb_chars] = (str != NULL) ? *((*str)++) : (char)fgetc(file);\n\n    if ((nb_chars"))
ok("flag-add", U, ("      high_water_mark += high_water_mark;", "      high_water_mark += OSL_MAX_STRING;"))
ok("flag-first", U, ("    res[nb_chars++] = (str", "    if (nb_chars == high_water_mark) {\n      high_water_mark *= 2;\n      OSL_realloc(res, char*, high_water_mark * sizeof(char));\n    }\n    res[nb_chars++] = (str"),
  ("    if (nb_chars >= high_water_mark) {\n      high_water_mark += high_water_mark;\n      OSL_realloc(res, char*, high_water_mark * sizeof(char));\n    }\n", ""))
ok("flag-eq", U, ("    if (nb_chars >= high_water_mark) {", "    if (nb_chars == high_water_mark) {"))
ok("flag-keep", U, ("(nb_chars - strlen(flag) + 1) * sizeof(char));\n  res[nb_chars - strlen(flag)]", "(nb_chars - lenflag + 1) * sizeof(char));\n  res[nb_chars - lenflag]"))
bug("skip-big", U, ("fgets(str, OSL_MAX_STRING, file);", "fgets(str, 2 * OSL_MAX_STRING, file);"))
bug("skip-one", U, ("fgets(str, OSL_MAX_STRING, file);", "fgets(str, OSL_MAX_STRING + 1, file);"))
bug("int-small", U, ("int osl_util_read_int(FILE* file, char** str) {\n  char s[OSL_MAX_STRING], *start;", "int osl_util_read_int(FILE* file, char** str) {\n  char s[64], *start;"))
bug("int-free", U, (" &&\n           i < OSL_MAX_STRING - 1)\n      s[i++]", ")\n      s[i++]"))
bug("int-last", U, ("           i < OSL_MAX_STRING - 1)\n      s[i++]", "           i < OSL_MAX_STRING)\n      s[i++]"))
ok("int-while", U, ("    while (**str && !isspace(**str) && **str != '\\n' && **str != '#' &&\n           i < OSL_MAX_STRING - 1)\n      s[i++] = *((*str)++);", "    for (i = 0; i < OSL_MAX_STRING - 1; i++) {\n      if (!**str || isspace(**str) || **str == '\\n' || **str == '#')\n        break;\n      s[i] = **str;\n      (*str)++;\n    }"))
bug("word-scan", U, ("  OSL_malloc(res, char*, OSL_MAX_STRING * sizeof(char));\n  if (file != NULL) {\n    // Parse from a file.\n    start = osl_util_skip_blank_and_comments(file, s);\n    if (start == NULL || sscanf", "  OSL_malloc(res, char*, 256 * sizeof(char));\n  if (file != NULL) {\n    // Parse from a file.\n    start = osl_util_skip_blank_and_comments(file, s);\n    if (start == NULL || sscanf"))
bug("line-small", U, ("  OSL_malloc(res, char*, OSL_MAX_STRING * sizeof(char));\n  if (file != NULL) {\n    // Parse from a file.\n    start = osl_util_skip_blank_and_comments(file, s);\n    if (start == NULL)\n", "  OSL_malloc(res, char*, 1024 * sizeof(char));\n  if (file != NULL) {\n    // Parse from a file.\n    start = osl_util_skip_blank_and_comments(file, s);\n    if (start == NULL)\n"))
bug("line-shrink", U, ("    OSL_realloc(res, char*, (i + 1) * sizeof(char));\n    memcpy(res, start, i);", "    OSL_realloc(res, char*, i * sizeof(char));\n    memcpy(res, start, i);"))
bug("subst-buf", U, ("  char buffer[OSL_MAX_STRING];\n  char* string;\n\n  OSL_malloc(string, char*, high_water_mark * sizeof(char));\n  string[0] = '\\0';\n\n  index = 0;", "  char buffer[8];\n  char* string;\n\n  OSL_malloc(string, char*, high_water_mark * sizeof(char));\n  string[0] = '\\0';\n\n  index = 0;"))
bug("subst-mark", U, ("  size_t high_water_mark = OSL_MAX_STRING;\n  char buffer[OSL_MAX_STRING];\n  char* string;\n\n  OSL_malloc(string, char*, high_water_mark * sizeof(char));\n  string[0] = '\\0';\n\n  index = 0;",
  "  size_t high_water_mark = 2 * OSL_MAX_STRING;\n  char buffer[OSL_MAX_STRING];\n  char* string;\n\n  OSL_malloc(string, char*, OSL_MAX_STRING * sizeof(char));\n  string[0] = '\\0';\n\n  index = 0;"))
ok("subst-buf", U, ("  char buffer[OSL_MAX_STRING];\n  char* string;\n\n  OSL_malloc(string, char*, high_water_mark * sizeof(char));\n  string[0] = '\\0';\n\n  index = 0;", "  char buffer[20];\n  char* string;\n\n  OSL_malloc(string, char*, high_water_mark * sizeof(char));\n  string[0] = '\\0';\n\n  index = 0;"))
ok("subst-char", U, ("      sprintf(buffer, \"%c\", expression[index]);", "      buffer[0] = expression[index];\n      buffer[1] = '\\0';"))
bug("subst-at-once", U, ("        osl_util_safe_strcat(&string, buffer, &high_water_mark);\n        index += strlen(identifiers[j]);", "        strcat(string, buffer);\n        index += strlen(identifiers[j]);"))
S = "strings.c"; AN = "extensions/annotation.c"; RG = "extensions/region.c"; AR = "extensions/arrays.c"; EB = "extensions/extbody.c"; LO = "extensions/loop.c"; IR = "extensions/irregular.c"; PU = "extensions/pluto_unroll.c"
bug("str-read", S, ("    OSL_malloc(string, char**, sizeof(char*) * (nb_strings + 1));\n    string[nb_strings] = NULL;", "    OSL_malloc(string, char**, sizeof(char*) * nb_strings);\n    string[nb_strings] = NULL;"))
bug("str-read-word", S, ("      OSL_malloc(string[i], char*, (count + 1) * sizeof(char));", "      OSL_malloc(string[i], char*, count * sizeof(char));"))
bug("str-clone", S, ("  OSL_malloc(clone->string, char**, (nb_strings + 1) * sizeof(char*));", "  OSL_malloc(clone->string, char**, nb_strings * sizeof(char*));"))
bug("str-clone-le", S, ("  for (i = 0; i < nb_strings; i++)\n    OSL_strdup(clone->string[i], strings->string[i]);", "  for (i = 0; i <= nb_strings; i++)\n    clone->string[i + 1] = strings->string[i] == NULL ? NULL : osl_util_strdup(strings->string[i]);"))
bug("str-add", S, ("sizeof(char*) * (original_size + 1 + 1));", "sizeof(char*) * (original_size + 1));"))
bug("str-add-old", S, ("sizeof(char*) * (original_size + 1 + 1));", "(sizeof(char*) * original_size + 2));"))
bug("str-add-word", S, ("             sizeof(char) * (strlen(string) + 1));\n  strcpy(strings->string[original_size]", "             sizeof(char) * strlen(string));\n  strcpy(strings->string[original_size]"))
bug("str-gen", S, ("sizeof(char*) * (size_t)(nb_strings + 1));", "sizeof(char*) * (size_t)nb_strings);"))
bug("str-gen-buf", S, ("  char buff[strlen(prefix) + 16];", "  char buff[strlen(prefix) + 8];"))
bug("str-encap", S, ("  OSL_malloc(capsule->string, char**, 2 * sizeof(char*));", "  OSL_malloc(capsule->string, char**, sizeof(char*));"))
bug("str-new", S, ("  OSL_malloc(strings->string, char**, sizeof(char*));", "  OSL_malloc(strings->string, char**, sizeof(char));"))
bug("ann-append", AN, ("  OSL_realloc(text->types, int*, count * sizeof *text->types);", "  OSL_realloc(text->types, int*, text->count * sizeof *text->types);"))
bug("ann-append-all", AN, ("  const size_t count = text->count + 1;", "  const size_t count = text->count;"), ("  text->count = count;", "  text->count = count + 1;"))
bug("reg-append", RG, ("  OSL_realloc(text->lines, char**, count * sizeof *text->lines);", "  OSL_realloc(text->lines, char**, text->count * sizeof *text->lines);"))
bug("arr-read", AR, ("  OSL_malloc(arrays->names, char**, (size_t)nb_names * sizeof(char*));\n  arrays->nb", "  OSL_malloc(arrays->names, char**, (size_t)nb_names * sizeof(int));\n  arrays->nb"))
bug("arr-read-le", AR, ("  for (i = 0; i < nb_names; i++)\n    arrays->names[i] = NULL;", "  for (i = 0; i <= nb_names; i++)\n    arrays->names[i] = NULL;"))
bug("arr-clone-le", AR, ("  for (i = 0; i < arrays->nb_names; i++) {\n    clone->id[i]", "  for (i = 0; i <= arrays->nb_names; i++) {\n    clone->id[i]"))
bug("arr-add", AR, ("  OSL_realloc(arrays->id, int*, (size_t)(arrays->nb_names + 1) * sizeof(int));", "  OSL_realloc(arrays->id, int*, (size_t)arrays->nb_names * sizeof(int));"))
bug("arr-add-names", AR, ("              (size_t)(arrays->nb_names + 1) * sizeof(char*));", "              (size_t)(arrays->nb_names) * sizeof(char*));"))
bug("arr-add-early", AR, ("  arrays->id[arrays->nb_names] = id;\n  OSL_strdup(arrays->names[arrays->nb_names], name);\n  arrays->nb_names++;", "  arrays->id[arrays->nb_names++] = id;\n  OSL_strdup(arrays->names[arrays->nb_names], name);"))
bug("ext-add-late", EB, ("  ebody->nb_access++;\n\n  OSL_realloc", "  OSL_realloc"), ("  ebody->start[ebody->nb_access - 1] = start;\n  ebody->length[ebody->nb_access - 1] = length;", "  ebody->start[ebody->nb_access] = start;\n  ebody->length[ebody->nb_access] = length;\n  ebody->nb_access++;"))
bug("ext-clone-le", EB, ("  for (i = 0; i < ebody->nb_access; i++) {\n    clone->start", "  for (i = 0; i <= ebody->nb_access; i++) {\n    clone->start"))
bug("ext-read", EB, ("  OSL_malloc(ebody->length, int*, nb_access_unsigned * sizeof(int));\n  ebody->nb", "  OSL_malloc(ebody->length, int*, (nb_access_unsigned - 1) * sizeof(int));\n  ebody->nb"))
bug("loop-clone", LO, ("  OSL_malloc(clone->stmt_ids, int*, loop->nb_stmts * sizeof(int));", "  OSL_malloc(clone->stmt_ids, int*, loop->nb_stmts);"))
bug("loop-read-le", LO, ("    for (i = 0; i < loop->nb_stmts; i++)\n      loop->stmt_ids[i] = osl", "    for (i = 0; i <= loop->nb_stmts; i++)\n      loop->stmt_ids[i] = osl"))
bug("irr-clone-le", IR, ("    for (j = 0; j < copy->nb_predicates[i]; j++)", "    for (j = 0; j <= copy->nb_predicates[i]; j++)"))
bug("irr-clone-all", IR, ("  copy->body = (char**)malloc(sizeof(char*) * nb_predicates);", "  copy->body = (char**)malloc(sizeof(char*) * irregular->nb_control);"))
bug("unroll-fill", PU, ("                  (strlen(iterator_name) + 1) * sizeof(char));", "                  strlen(iterator_name) * sizeof(char));"))
ok("str-add-size", S, ("  OSL_realloc(strings->string, char**, sizeof(char*) * (original_size + 1 + 1));\n  strings->string[original_size + 1] = NULL;", "  const size_t size = original_size + 2;\n  OSL_realloc(strings->string, char**, size * sizeof *strings->string);\n  strings->string[size - 1] = NULL;"))
ok("str-add-local", S, ("  OSL_realloc(strings->string, char**, sizeof(char*) * (original_size + 1 + 1));\n  strings->string[original_size + 1] = NULL;\n  OSL_malloc(strings->string[original_size], char*,\n             sizeof(char) * (strlen(string) + 1));\n  strcpy(strings->string[original_size], string);", "  char** all = strings->string;\n  OSL_realloc(all, char**, sizeof(char*) * (original_size + 2));\n  strings->string = all;\n  all += original_size;\n  OSL_strdup(*all, string);\n  *++all = NULL;"))
ok("str-clone-while", S, ("  clone->string[nb_strings] = NULL;\n  for (i = 0; i < nb_strings; i++)\n    OSL_strdup(clone->string[i], strings->string[i]);", "  i = 0;\n  while (strings->string[i] != NULL && i < nb_strings) {\n    OSL_strdup(clone->string[i], strings->string[i]);\n    i++;\n  }\n  clone->string[i] = NULL;"))
ok("str-clone-end", S, ("  for (i = 0; i < nb_strings; i++)\n    OSL_strdup(clone->string[i], strings->string[i]);", "  for (i = nb_strings; i > 0; i--)\n    OSL_strdup(clone->string[i - 1], strings->string[i - 1]);"))
ok("str-clone-null", S, ("  for (i = 0; strings->string[i] != NULL; i++)\n" if 0 else "  for (i = 0; i < nb_strings; i++)\n    OSL_strdup(clone->string[i], strings->string[i]);", "  for (i = 0; strings->string[i] != NULL; i++)\n    OSL_strdup(clone->string[i], strings->string[i]);"))
ok("ann-append-two", AN, ("  const size_t count = text->count + 1;\n", "  size_t count = text->count;\n  count++;\n"), ("  text->lines[text->count] = line;\n  text->types[text->count] = line_type;\n  text->count = count;", "  text->count = count;\n  text->lines[count - 1] = line;\n  text->types[text->count - 1] = line_type;"))
ok("ann-append-inc", AN, ("  text->types[text->count] = line_type;\n  text->count = count;", "  text->types[text->count++] = line_type;"))
ok("arr-add-index", AR, ("  arrays->id[arrays->nb_names] = id;\n  OSL_strdup(arrays->names[arrays->nb_names], name);\n  arrays->nb_names++;", "  const int last = arrays->nb_names++;\n  arrays->id[last] = id;\n  OSL_strdup(arrays->names[last], name);"))
ok("arr-add-first", AR, ("  OSL_realloc(arrays->id, int*, (size_t)(arrays->nb_names + 1) * sizeof(int));\n  OSL_realloc(arrays->names, char**,\n              (size_t)(arrays->nb_names + 1) * sizeof(char*));\n  arrays->id[arrays->nb_names] = id;\n  OSL_strdup(arrays->names[arrays->nb_names], name);\n  arrays->nb_names++;", "  size_t n = (size_t)++arrays->nb_names;\n  OSL_realloc(arrays->id, int*, n * sizeof(int));\n  OSL_realloc(arrays->names, char**, n * sizeof(char*));\n  arrays->id[n - 1] = id;\n  OSL_strdup(arrays->names[n - 1], name);"))
ok("arr-clone-mem", AR, ("    clone->id[i] = arrays->id[i];\n    OSL_strdup", "    OSL_strdup"), ("  for (i = 0; i < arrays->nb_names; i++) {\n    OSL_strdup" if 0 else "  clone = osl_arrays_malloc();\n  clone->nb_names = arrays->nb_names;\n  OSL_malloc(clone->id, int*, (size_t)arrays->nb_names * sizeof(int));", "  clone = osl_arrays_malloc();\n  clone->nb_names = arrays->nb_names;\n  OSL_malloc(clone->id, int*, (size_t)arrays->nb_names * sizeof(int));\n  memcpy(clone->id, arrays->id, (size_t)arrays->nb_names * sizeof(int));"))
ok("arr-clone-n", AR, ("  for (i = 0; i < arrays->nb_names; i++) {\n    clone->id[i]", "  for (i = 0; i < clone->nb_names; i++) {\n    clone->id[i]"))
ok("ext-clone-mem", EB, ("  for (i = 0; i < ebody->nb_access; i++) {\n    clone->start[i] = ebody->start[i];\n    clone->length[i] = ebody->length[i];\n  }", "  i = ebody->nb_access * sizeof(int);\n  memcpy(clone->start, ebody->start, i);\n  memcpy(clone->length, ebody->length, i);"))
ok("ext-add-local", EB, ("  ebody->nb_access++;\n\n", "  const size_t n = ebody->nb_access + 1;\n  ebody->nb_access = n;\n\n"), ("  ebody->start[ebody->nb_access - 1] = start;\n  ebody->length[ebody->nb_access - 1] = length;", "  ebody->start[n - 1] = start;\n  ebody->length[n - 1] = length;"))
ok("ext-add-late", EB, ("  ebody->nb_access++;\n\n  OSL_realloc(ebody->start, int*, sizeof(int) * ebody->nb_access);\n  OSL_realloc(ebody->length, int*, sizeof(int) * ebody->nb_access);\n\n  ebody->start[ebody->nb_access - 1] = start;\n  ebody->length[ebody->nb_access - 1] = length;", "  OSL_realloc(ebody->start, int*, sizeof(int) * (ebody->nb_access + 1));\n  OSL_realloc(ebody->length, int*, sizeof(int) * (ebody->nb_access + 1));\n\n  ebody->start[ebody->nb_access] = start;\n  ebody->length[ebody->nb_access] = length;\n  ebody->nb_access++;"))
ok("irr-clone-while", IR, ("    for (j = 0; j < copy->nb_predicates[i]; j++)\n      copy->predicates[i][j] = irregular->predicates[i][j];", "    j = 0;\n    while (j < irregular->nb_predicates[i]) {\n      copy->predicates[i][j] = irregular->predicates[i][j];\n      j++;\n    }"))
ok("loop-clone-mem", LO, ("  for (i = 0; i < loop->nb_stmts; i++) {\n    clone->stmt_ids[i] = loop->stmt_ids[i];\n  }", "  memcpy(clone->stmt_ids, loop->stmt_ids, loop->nb_stmts * sizeof *loop->stmt_ids);\n  (void)i;"))
ok("gen-buf", S, ("  char buff[strlen(prefix) + 16];", "  char buff[strlen(prefix) + 12];"))
VA = "    // The arguments have to be started again when the buffer has grown.\n    va_list va;\n    va_start(va, fmt);\n    int printed = vsnprintf((*buf) + *offset, *buf_size - *offset, fmt, va);\n    va_end(va);\n"
bug("va-once", IR, ("  do {\n" + VA, "  va_list va;\n  va_start(va, fmt);\n  do {\n    int printed = vsnprintf((*buf) + *offset, *buf_size - *offset, fmt, va);\n"), ("    *buf_size *= 2;\n  } while (1);\n", "    *buf_size *= 2;\n  } while (1);\n  va_end(va);\n"))
bug("va-size", IR, (VA, "    va_list va;\n    va_start(va, fmt);\n    size_t room = (size_t)vsnprintf(NULL, 0, fmt, va);\n    if (room == 0) {\n      va_end(va);\n      break;\n    }\n    int printed = vsnprintf((*buf) + *offset, *buf_size - *offset, fmt, va);\n    va_end(va);\n"))
ok("va-copy", IR, ("  do {\n" + VA, "  va_list all, va;\n  va_start(all, fmt);\n  do {\n    va_copy(va, all);\n    int printed = vsnprintf((*buf) + *offset, *buf_size - *offset, fmt, va);\n    va_end(va);\n"), ("    *buf_size *= 2;\n  } while (1);\n", "    *buf_size *= 2;\n  } while (1);\n  va_end(all);\n"))
ok("va-two", IR, (VA, "    va_list va;\n    va_start(va, fmt);\n    int printed = vsnprintf(NULL, 0, fmt, va);\n    va_end(va);\n    if (printed >= 0 && (size_t)printed < *buf_size - *offset) {\n      va_start(va, fmt);\n      vsnprintf((*buf) + *offset, *buf_size - *offset, fmt, va);\n      va_end(va);\n    }\n"))
bug("va-room", IR, ("vsnprintf((*buf) + *offset, *buf_size - *offset, fmt, va);", "vsnprintf((*buf) + *offset, *buf_size, fmt, va);"))
bug("va-start", IR, ("    OSL_malloc(buffer, char*, OSL_MAX_STRING * sizeof(char));\n\n    // Print the content.", "    OSL_malloc(buffer, char*, OSL_MAX_STRING / 2 * sizeof(char));\n\n    // Print the content."))
ok("va-need", IR, ("    OSL_realloc(*buf, char*, *buf_size * 2);\n    *buf_size *= 2;\n", "    *buf_size = 2 * (*offset + retval + 1);\n    OSL_realloc(*buf, char*, *buf_size);\n"))
ok("va-room", IR, (VA, "    const size_t room = *buf_size - *offset;\n    char* end = *buf + *offset;\n    va_list va;\n    va_start(va, fmt);\n    int printed = vsnprintf(end, room, fmt, va);\n    va_end(va);\n"))

DEP = "extensions/dependence.c"
DA = "      osl_util_safe_strcat(&buffer, pbuffer, &buffer_size);\n      free(pbuffer);"
bug("dep-fast", DEP, (DA, "      if (strlen(buffer) + strlen(pbuffer) <= buffer_size)\n        strcat(buffer, pbuffer);\n      else\n" + DA))
ok("dep-fast", DEP, (DA, "      if (strlen(buffer) + strlen(pbuffer) < buffer_size)\n        strcat(buffer, pbuffer);\n      else\n" + DA))
ok("dep-fast-one", DEP, (DA, "      if (strlen(buffer) + strlen(pbuffer) + 1 <= buffer_size) {\n        strcat(buffer, pbuffer);\n      } else {\n" + DA.replace("      free", "      }\n      free")))
AA = "  OSL_realloc(arrays->id, int*, (size_t)(arrays->nb_names + 1) * sizeof(int));\n  OSL_realloc(arrays->names, char**,\n              (size_t)(arrays->nb_names + 1) * sizeof(char*));\n"
bug("arr-add-chunks", AR, (AA, "  if (arrays->nb_names % 8 == 0) {\n" + AA.replace("+ 1", "+ 8") + "  }\n"))
bug("arr-add-no", AR, (AA, AA.split("\n")[0] + "\n"))
ok("arr-add-helper", AR, (AA, "  osl_arrays_grow(arrays, (size_t)arrays->nb_names + 1);\n"), ("/**\n * osl_arrays_add function:", "static void osl_arrays_grow(osl_arrays_t* a, size_t n) {\n  OSL_realloc(a->id, int*, n * sizeof(int));\n  OSL_realloc(a->names, char**, n * sizeof(char*));\n}\n\n/**\n * osl_arrays_add function:"))
ok("arr-add-branch", AR, (AA, "  if (arrays->nb_names == 0) {\n    free(arrays->id);\n    free(arrays->names);\n    OSL_malloc(arrays->id, int*, sizeof(int));\n    OSL_malloc(arrays->names, char**, sizeof(char*));\n  } else {\n" + AA + "  }\n"))
bug("ann-types", AN, ("  OSL_realloc(text->types, int*, count * sizeof *text->types);", "  if (text->types == NULL || line_type != text->types[text->count - 1])\n    OSL_realloc(text->types, int*, count * sizeof *text->types);"))
bug("loop-clone-order", LO, ("  clone->nb_stmts = loop->nb_stmts;\n  OSL_malloc(clone->stmt_ids, int*, loop->nb_stmts * sizeof(int));\n", "  OSL_malloc(clone->stmt_ids, int*, clone->nb_stmts * sizeof(int));\n  clone->nb_stmts = loop->nb_stmts;\n"))
ok("loop-clone-own", LO, ("  OSL_malloc(clone->stmt_ids, int*, loop->nb_stmts * sizeof(int));\n", "  OSL_malloc(clone->stmt_ids, int*, clone->nb_stmts * sizeof(int));\n"))
bug("str-sprint-start", S, ("  char buffer[OSL_MAX_STRING];\n\n  OSL_malloc(string, char*, high_water_mark * sizeof(char));", "  char buffer[OSL_MAX_STRING];\n\n  OSL_malloc(string, char*, high_water_mark / 4 * sizeof(char));"))
