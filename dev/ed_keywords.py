EDITS = []
ALL = ["C12"]
def ok(name, file, *subs, props=ALL): EDITS.append(dict(name=name, file="source/" + file, subs=list(subs), kind="ok", props=props))
def bug(name, file, *subs, props=ALL): EDITS.append(dict(name=name, file="source/" + file, subs=list(subs), kind="bug", props=props))
bug("k-swap", "relation.c", ("      case OSL_TYPE_WRITE: {\n        snprintf(string, OSL_MAX_STRING, OSL_STRING_WRITE);", "      case OSL_TYPE_WRITE: {\n        snprintf(string, OSL_MAX_STRING, OSL_STRING_MAY_WRITE);"))
bug("k-sym", "extensions/symbols.c", ("sprintf(buffer, \"Function\\n\");", "sprintf(buffer, \"Func\\n\");"))
bug("k-symr", "extensions/symbols.c", ("strcmp(type, \"Parameter\") == 0", "strcmp(type, \"Param\") == 0"))
bug("k-prefix", "extensions/dependence.c", ("if (!strcmp(buffer, \"RAW\"))", "if (!strncmp(buffer, \"RAW\", 3))"))
bug("k-dep-order", "extensions/dependence.c", ("  else if (!strcmp(buffer, \"WAR\"))\n    dep->type = OSL_DEPENDENCE_WAR;", "  else if (!strcmp(buffer, \"WAR\"))\n    dep->type = OSL_DEPENDENCE_RAR;"))
bug("k-dep-hash", "extensions/dependence.c", ("type = \"WAW #(output)\";", "type = \"WAW-output\";"))
bug("k-case", "extensions/symbols.c", ("        case OSL_SYMBOL_TYPE_ARRAY:\n          sprintf(buffer, \"Array\\n\");\n          break;\n", "        case OSL_SYMBOL_TYPE_ARRAY:\n"))
bug("k-default", "extensions/symbols.c", ("        symbols->type = OSL_UNDEFINED;\n      free(type);", "        symbols->type = OSL_SYMBOL_TYPE_ITERATOR;\n      free(type);"))
bug("k-env", "util.c", ("else if (!strcmp(precision_env, OSL_PRECISION_ENV_DP))\n      precision = OSL_PRECISION_DP;", "else if (!strcmp(precision_env, OSL_PRECISION_ENV_DP))\n      precision = OSL_PRECISION_SP;"))
bug("k-endtag", "util.c", ("  sprintf(endtag, \"</%s>\", name);\n  return osl_util_read_uptoflag", "  sprintf(endtag, \"<%s/>\", name);\n  return osl_util_read_uptoflag"))
bug("k-scoptag", "scop.c", ("osl_util_read_uptotag(file, NULL, OSL_URI_SCOP)", "osl_util_read_uptotag(file, NULL, \"Openscop\")"))
bug("k-taguri", "generic.c", ("sprintf(buffer, \"</%s>\\n\", generic->interface->URI);", "sprintf(buffer, \"</%s>\\n\", (char*)generic->data);"))
bug("k-tagchars", "util.c", ("        (**str == '_')) {", "        (**str == '-')) {"))
bug("k-tagchars2", "util.c", ("((**str >= 'a') && (**str <= 'z'))", "((**str >= 'a') && (**str < 'z'))"), props=[])   # no URI has a z
bug("k-tagchars3", "util.c", ("((**str >= 'a') && (**str <= 'z'))", "((**str >= 'a') && (**str <= 'x'))"))
bug("k-mayread", "relation.c", ("  if (!strcmp(strings->string[0], OSL_STRING_MAY_WRITE)) {\n    type = OSL_TYPE_MAY_WRITE;", "  if (!strcmp(strings->string[0], OSL_STRING_MAY_WRITE)) {\n    type = OSL_TYPE_WRITE;"))
bug("k-post", "relation.c", ("  relation = osl_relation_psread_polylib(input, precision);\n  relation->type = type;", "  relation = osl_relation_psread_polylib(input, precision);\n  relation->type = type == OSL_TYPE_READ ? OSL_TYPE_ACCESS : type;"))
ok("k-table", "extensions/symbols.c", ("      switch (symbols->type) {\n        case OSL_SYMBOL_TYPE_ITERATOR:\n          sprintf(buffer, \"Iterator\\n\");\n          break;\n        case OSL_SYMBOL_TYPE_PARAMETER:\n          sprintf(buffer, \"Parameter\\n\");\n          break;\n        case OSL_SYMBOL_TYPE_ARRAY:\n          sprintf(buffer, \"Array\\n\");\n          break;\n        case OSL_SYMBOL_TYPE_FUNCTION:\n          sprintf(buffer, \"Function\\n\");\n          break;\n        default:\n          sprintf(buffer, \"Undefined\\n\");\n      }",
   "      static const char* const kw[] = {\"Undefined\", \"Iterator\", \"Parameter\", \"Array\", \"Function\"};\n      sprintf(buffer, \"%s\\n\", symbols->type >= 1 && symbols->type <= 4 ? kw[symbols->type] : kw[0]);"))
ok("k-helper", "extensions/symbols.c", ("      if (strcmp(type, \"Iterator\") == 0)\n        symbols->type = OSL_SYMBOL_TYPE_ITERATOR;\n      else if (strcmp(type, \"Parameter\") == 0)\n        symbols->type = OSL_SYMBOL_TYPE_PARAMETER;\n      else if (strcmp(type, \"Array\") == 0)\n        symbols->type = OSL_SYMBOL_TYPE_ARRAY;\n      else if (strcmp(type, \"Function\") == 0)\n        symbols->type = OSL_SYMBOL_TYPE_FUNCTION;\n      else\n        symbols->type = OSL_UNDEFINED;\n",
   "      symbols->type = osl_symbols_kind(type);\n"),
   ("osl_symbols_t* osl_symbols_sread(char** input) {", "static int osl_symbols_kind(const char* w) {\n  int k = OSL_UNDEFINED;\n  if (!strcmp(w, \"Iterator\")) return OSL_SYMBOL_TYPE_ITERATOR;\n  if (!strcmp(w, \"Parameter\")) k = OSL_SYMBOL_TYPE_PARAMETER;\n  if (!strcmp(w, \"Array\")) k = OSL_SYMBOL_TYPE_ARRAY;\n  if (!strcmp(w, \"Function\")) k = OSL_SYMBOL_TYPE_FUNCTION;\n  return k;\n}\nosl_symbols_t* osl_symbols_sread(char** input) {"))
ok("k-preset", "extensions/symbols.c", ("      if (strcmp(type, \"Iterator\") == 0)\n        symbols->type = OSL_SYMBOL_TYPE_ITERATOR;\n      else if (strcmp(type, \"Parameter\") == 0)\n        symbols->type = OSL_SYMBOL_TYPE_PARAMETER;\n      else if (strcmp(type, \"Array\") == 0)\n        symbols->type = OSL_SYMBOL_TYPE_ARRAY;\n      else if (strcmp(type, \"Function\") == 0)\n        symbols->type = OSL_SYMBOL_TYPE_FUNCTION;\n      else\n        symbols->type = OSL_UNDEFINED;\n",
   "      symbols->type = OSL_UNDEFINED;\n      if (strcmp(type, \"Iterator\") == 0)\n        symbols->type = OSL_SYMBOL_TYPE_ITERATOR;\n      if (strcmp(type, \"Parameter\") == 0)\n        symbols->type = OSL_SYMBOL_TYPE_PARAMETER;\n      if (strcmp(type, \"Array\") == 0)\n        symbols->type = OSL_SYMBOL_TYPE_ARRAY;\n      if (strcmp(type, \"Function\") == 0)\n        symbols->type = OSL_SYMBOL_TYPE_FUNCTION;\n"))
ok("k-dephelp", "extensions/dependence.c", ("      switch (tmp->type) {\n        case OSL_UNDEFINED:\n          type = \"UNSET\";\n          break;\n        case OSL_DEPENDENCE_RAW:\n          type = \"RAW #(flow)\";\n          break;\n        case OSL_DEPENDENCE_WAR:\n          type = \"WAR #(anti)\";\n          break;\n        case OSL_DEPENDENCE_WAW:\n          type = \"WAW #(output)\";\n          break;\n        case OSL_DEPENDENCE_RAR:\n          type = \"RAR #(input)\";\n          break;\n        case OSL_DEPENDENCE_RAW_SCALPRIV:\n          type = \"RAW_SCALPRIV #(scalar priv)\";\n          break;\n        default:\n          exit(1);\n          break;\n      }\n", "      type = osl_dependence_word(tmp->type);\n"),
   ("char* osl_dependence_sprint(const osl_dependence_t* const dependence) {", "static const char* osl_dependence_word(int t) {\n  if (t == OSL_UNDEFINED) return \"UNSET\";\n  if (t == OSL_DEPENDENCE_RAW) return \"RAW #(flow)\";\n  if (t == OSL_DEPENDENCE_WAR) return \"WAR #(anti)\";\n  if (t == OSL_DEPENDENCE_WAW) return \"WAW #(output)\";\n  if (t == OSL_DEPENDENCE_RAR) return \"RAR #(input)\";\n  if (t != OSL_DEPENDENCE_RAW_SCALPRIV) exit(1);\n  return \"RAW_SCALPRIV #(scalar priv)\";\n}\nchar* osl_dependence_sprint(const osl_dependence_t* const dependence) {"))
ok("k-rtable", "extensions/symbols.c", ("      if (strcmp(type, \"Iterator\") == 0)\n        symbols->type = OSL_SYMBOL_TYPE_ITERATOR;\n      else if (strcmp(type, \"Parameter\") == 0)\n        symbols->type = OSL_SYMBOL_TYPE_PARAMETER;\n      else if (strcmp(type, \"Array\") == 0)\n        symbols->type = OSL_SYMBOL_TYPE_ARRAY;\n      else if (strcmp(type, \"Function\") == 0)\n        symbols->type = OSL_SYMBOL_TYPE_FUNCTION;\n      else\n        symbols->type = OSL_UNDEFINED;\n",
   "      static const struct { const char* w; int k; } kw[] = {{\"Iterator\", OSL_SYMBOL_TYPE_ITERATOR}, {\"Parameter\", OSL_SYMBOL_TYPE_PARAMETER}, {\"Array\", OSL_SYMBOL_TYPE_ARRAY}, {\"Function\", OSL_SYMBOL_TYPE_FUNCTION}};\n      symbols->type = OSL_UNDEFINED;\n      for (int k = 0; k < 4; k++)\n        if (!strcmp(kw[k].w, type))\n          symbols->type = kw[k].k;\n"))
ok("k-tagcat", "util.c", ("  sprintf(endtag, \"</%s>\", name);\n  return osl_util_read_uptoflag", "  strcpy(endtag, \"</\");\n  strcat(endtag, name);\n  strcat(endtag, \">\");\n  return osl_util_read_uptoflag"))
ok("k-tagfn", "util.c", ("    if (((**str >= 'A') && (**str <= 'Z')) ||\n        ((**str >= 'a') && (**str <= 'z')) || ((**str == '/') && (i == 0)) ||\n        (**str == '_')) {", "    if (osl_util_is_tag_char(**str) || (**str == '/' && i == 0)) {"),
   ("char* osl_util_read_tag(FILE* file, char** str) {", "static int osl_util_is_tag_char(char c) {\n  if (c == '_') return 1;\n  return (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z');\n}\nchar* osl_util_read_tag(FILE* file, char** str) {"))
