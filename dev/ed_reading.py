EDITS = []
P = ["C16"]
U, R, D, S, G, N, IR = "source/util.c", "source/relation.c", "source/extensions/dependence.c", "source/strings.c", "source/generic.c", "source/int.c", "source/extensions/irregular.c"
def ok(name, f, *subs): EDITS.append(dict(name="r-" + name, file=f, subs=list(subs), kind="ok", props=P))
def bug(name, f, *subs): EDITS.append(dict(name="r-" + name, file=f, subs=list(subs), kind="bug", props=P))
bug("dep8", D, ("  if (read != 8) {", "  if (read < 1) {"))
bug("dep8b", D, ("  if (read != 8) {", "  if (read < 7) {"))
bug("rel6", R, ("      if (((read != 1) && (read != 6)) ||\n          ((read == 1) && (may_read_nb_union_parts != 1)))\n        OSL_error(\"not 1 or 6 integers on the first relation line\");\n\n      if (read == 1) {\n        // Only one number means a union and is the number of parts.\n        nb_union_parts = nb_rows;\n        if (nb_union_parts < 1)\n          OSL_error(\"negative nb of union parts\");\n\n        // Allow to read the properties of the first part of the union.\n        read_attributes = 1;\n      }\n\n      may_read_nb_union_parts = 0;\n    }\n\n    // Allocate the union part and fill its properties.\n    relation = osl_relation_pmalloc(precision, nb_rows, nb_columns);\n    relation->type",
  "      if ((read < 1) ||\n          ((read == 1) && (may_read_nb_union_parts != 1)))\n        OSL_error(\"not 1 or 6 integers on the first relation line\");\n\n      if (read == 1) {\n        // Only one number means a union and is the number of parts.\n        nb_union_parts = nb_rows;\n        if (nb_union_parts < 1)\n          OSL_error(\"negative nb of union parts\");\n\n        // Allow to read the properties of the first part of the union.\n        read_attributes = 1;\n      }\n\n      may_read_nb_union_parts = 0;\n    }\n\n    // Allocate the union part and fill its properties.\n    relation = osl_relation_pmalloc(precision, nb_rows, nb_columns);\n    relation->type"))
bug("rows", R, ("      if (c == NULL)\n        OSL_error(\"not enough rows\");\n", ""))
bug("rows2", R, ("      if (c == NULL)\n        OSL_error(\"not enough rows\");\n", "      if (c == NULL)\n        break;\n"))
bug("elt", R, ("        if (sscanf(c, \"%s%n\", str, &n) != 1)", "        if (sscanf(c, \"%s%n\", str, &n) == 0)"))
bug("elt2", R, ("        if (sscanf(*input, \"%s%n\", str, &n) != 1)\n          OSL_error(\"not enough rows\");\n", "        sscanf(*input, \"%s%n\", str, &n);\n"))
bug("int", U, ("    if (sscanf(s, \"%d\", &res) != 1)", "    if (sscanf(s, \"%d\", &res) == 0)"))
bug("int-atoi", U, ("    if (sscanf(s, \"%d\", &res) != 1)\n      OSL_error(\"an int was expected\");", "    res = atoi(s);"))
bug("int-strtol", U, ("    if (sscanf(s, \"%d\", &res) != 1)\n      OSL_error(\"an int was expected\");", "    res = (int)strtol(s, NULL, 10);"))
ok("int-strtol-ok", U, ("    if (sscanf(s, \"%d\", &res) != 1)\n      OSL_error(\"an int was expected\");", "    char* end;\n    res = (int)strtol(s, &end, 10);\n    if (end == s)\n      OSL_error(\"an int was expected\");"))
bug("int-warn", U, ("    if (start == NULL || sscanf(start, \" %d\", &res) != 1)\n      OSL_error(\"an int was expected\");", "    if (start == NULL || sscanf(start, \" %d\", &res) != 1)\n      OSL_warning(\"an int was expected\");"))
bug("int-null", U, ("    if (start == NULL || sscanf(start, \" %d\", &res) != 1)", "    if (sscanf(start, \" %d\", &res) != 1)"))
bug("str-neg", U, ("    if (sscanf(s, \"%s\", res) != 1)", "    if (sscanf(s, \"%s\", res) < 0)"))
bug("line", U, ("    if (start == NULL)\n      OSL_error(\"a line was expected\");\n", ""))
bug("skip", U, ("    while ((start != NULL) && isspace(*start) && (*start != '\\n'))", "    while (isspace(*start) && (*start != '\\n'))"))
bug("tag", U, ("  if ((*str == NULL) || (**str == '\\0'))\n", "  if (**str == '\\0')\n"))
bug("strings", S, ("  if (start == NULL)\n    OSL_error(\"strings were expected\");\n", ""))
bug("endtag", G, ("  content = osl_util_read_uptoendtag(file, NULL, tag);\n  if (content == NULL)\n    OSL_error(\"missing end tag\");\n", "  content = osl_util_read_uptoendtag(file, NULL, tag);\n"))
bug("endtag-null", G, ("  content = osl_util_read_uptoendtag(file, NULL, tag);\n  if (content == NULL)\n    OSL_error(\"missing end tag\");\n", "  content = osl_util_read_uptoendtag(file, NULL, tag);\n  if (content == NULL)\n    return NULL;\n"))
bug("intss", N, ("  if (nb_read != 1) {", "  if (nb_read < 0) {"))
bug("intss-mp", N, ("      nb_read = gmp_sscanf(string, \"%lZd\", i->mp);", "      gmp_sscanf(string, \"%lZd\", i->mp);\n      nb_read = 1;"))
ok("intss-mp-set", N, ("      nb_read = gmp_sscanf(string, \"%lZd\", i->mp);", "      nb_read = mpz_set_str(*i->mp, string, 10) == 0 ? 1 : 0;"))
bug("intss-mp-set", N, ("      nb_read = gmp_sscanf(string, \"%lZd\", i->mp);", "      nb_read = 1;\n      mpz_set_str(*i->mp, string, 10);"))
bug("irr", IR, ("  if (token == NULL)\n    OSL_error(\"truncated irregular information\");\n", ""))
bug("irr2", IR, ("\"%d\", &value) != 1)", "\"%d\", &value) == 0)"))
bug("deptype", D, ("  else\n    OSL_error(\"dependence type not supported\");\n", ""))
bug("symtype", "source/extensions/symbols.c", ("      else if (strcmp(type, \"Undefined\") == 0)\n        symbols->type = OSL_UNDEFINED;\n      else\n        OSL_error(\"symbol type not supported\");\n", "      else\n        symbols->type = OSL_UNDEFINED;\n"))
bug("reltype", R, ("  OSL_error(\"relation type not supported\");\n", "  OSL_warning(\"relation type not supported\");\n"))
# refactorings
ok("dep-split", D, ("  if (read != 8) {\n    OSL_error(\"not 8 integers to provide dimension information\");\n  }", "  if (read == 8) {\n    ;\n  } else {\n    OSL_error(\"not 8 integers to provide dimension information\");\n  }"))
ok("rel-switch", R, ("      if (((read != 1) && (read != 6)) ||\n          ((read == 1) && (may_read_nb_union_parts != 1)))\n        OSL_error(\"not 1 or 6 integers on the first relation line\");\n",
  "      switch (read) {\n        case 6:\n          break;\n        case 1:\n          if (may_read_nb_union_parts == 1)\n            break;\n          /* fall through */\n        default:\n          OSL_error(\"not 1 or 6 integers on the first relation line\");\n      }\n"))
ok("int-helper", U, ("int osl_util_read_int(FILE* file, char** str) {", "static int one_int(const char* s, int* r) {\n  int k = sscanf(s, \"%d\", r);\n  return k == 1;\n}\nint osl_util_read_int(FILE* file, char** str) {"),
  ("    if (sscanf(s, \"%d\", &res) != 1)", "    if (!one_int(s, &res))"), ("    if (start == NULL || sscanf(start, \" %d\", &res) != 1)", "    if (!start || !one_int(start, &res))"))
bug("int-helper-bug", U, ("int osl_util_read_int(FILE* file, char** str) {", "static int one_int(const char* s, int* r) {\n  int k = sscanf(s, \"%d\", r);\n  return k != 0;\n}\nint osl_util_read_int(FILE* file, char** str) {"),
  ("    if (sscanf(s, \"%d\", &res) != 1)", "    if (!one_int(s, &res))"), ("    if (start == NULL || sscanf(start, \" %d\", &res) != 1)", "    if (!start || !one_int(start, &res))"))
ok("int-flag", U, ("  int res;\n  int i = 0;\n\n  if ((file != NULL && str != NULL) || (file == NULL && str == NULL))\n    OSL_error(\"one and only one of the two parameters can be non-NULL\");\n\n  if (file != NULL) {\n    // Parse from a file.\n    start = osl_util_skip_blank_and_comments(file, s);\n    if (start == NULL || sscanf(start, \" %d\", &res) != 1)\n      OSL_error(\"an int was expected\");",
   "  int res, got = 0;\n  int i = 0;\n\n  if ((file != NULL && str != NULL) || (file == NULL && str == NULL))\n    OSL_error(\"one and only one of the two parameters can be non-NULL\");\n\n  if (file != NULL) {\n    // Parse from a file.\n    start = osl_util_skip_blank_and_comments(file, s);\n    if (start != NULL)\n      got = sscanf(start, \" %d\", &res);"),
   ("    if (sscanf(s, \"%d\", &res) != 1)\n      OSL_error(\"an int was expected\");\n  }", "    got = sscanf(s, \"%d\", &res);\n  }\n  if (got != 1)\n    OSL_error(\"an int was expected\");"))
ok("skip-for", U, ("  do {\n    start = fgets(str, OSL_MAX_STRING, file);\n    while ((start != NULL) && isspace(*start) && (*start != '\\n'))\n      start++;\n  } while (start != NULL && (*start == '#' || *start == '\\n'));\n\n  return start;",
  "  for (;;) {\n    start = fgets(str, OSL_MAX_STRING, file);\n    if (start == NULL)\n      return NULL;\n    while (isspace(*start) && (*start != '\\n'))\n      start++;\n    if (*start != '#' && *start != '\\n')\n      return start;\n  }"))
ok("rows-order", R, ("      c = osl_util_skip_blank_and_comments(foo, s);\n      if (c == NULL)\n        OSL_error(\"not enough rows\");\n", "      if ((c = osl_util_skip_blank_and_comments(foo, s)) == NULL) {\n        OSL_error(\"not enough rows\");\n      }\n"))
ok("deptype-helper", D, ("static osl_dependence_p osl_dependence_read_one_dep(char** input,\n                                                    int precision) {", "static int dep_type(const char* buffer) {\n  if (!strcmp(buffer, \"RAW\"))\n    return OSL_DEPENDENCE_RAW;\n  if (!strcmp(buffer, \"RAR\"))\n    return OSL_DEPENDENCE_RAR;\n  if (!strcmp(buffer, \"WAR\"))\n    return OSL_DEPENDENCE_WAR;\n  if (!strcmp(buffer, \"WAW\"))\n    return OSL_DEPENDENCE_WAW;\n  if (!strcmp(buffer, \"RAW_SCALPRIV\"))\n    return OSL_DEPENDENCE_RAW_SCALPRIV;\n  if (strcmp(buffer, \"UNSET\"))\n    OSL_error(\"type\");\n  return OSL_UNDEFINED;\n}\nstatic osl_dependence_p osl_dependence_read_one_dep(char** input,\n                                                    int precision) {"),
  ("  if (!strcmp(buffer, \"RAW\"))\n    dep->type = OSL_DEPENDENCE_RAW;\n  else if (!strcmp(buffer, \"RAR\"))\n    dep->type = OSL_DEPENDENCE_RAR;\n  else if (!strcmp(buffer, \"WAR\"))\n    dep->type = OSL_DEPENDENCE_WAR;\n  else if (!strcmp(buffer, \"WAW\"))\n    dep->type = OSL_DEPENDENCE_WAW;\n  else if (!strcmp(buffer, \"RAW_SCALPRIV\"))\n    dep->type = OSL_DEPENDENCE_RAW_SCALPRIV;\n  else if (!strcmp(buffer, \"UNSET\"))\n    dep->type = OSL_UNDEFINED;\n  else\n    OSL_error(\"dependence type not supported\");\n", "  dep->type = dep_type(buffer);\n"))
ok("elt-helper", R, ("osl_relation_t* osl_relation_pread(FILE* foo, int precision) {", "static int word(const char* c, char* str) {\n  int n;\n  if (sscanf(c, \"%s%n\", str, &n) != 1)\n    OSL_error(\"not enough\");\n  return n;\n}\nosl_relation_t* osl_relation_pread(FILE* foo, int precision) {"),
  ("        if (sscanf(c, \"%s%n\", str, &n) != 1)\n          OSL_error(\"not enough rows\");\n", "        n = word(c, str);\n"))
