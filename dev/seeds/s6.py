import importlib.util, os
sp = importlib.util.spec_from_file_location("s1", os.path.join(os.path.dirname(os.path.abspath(__file__)), "s1.py")); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
H = m.H
DUMP = '''
static int shows(FILE* f, const char* w) { static char b[1 << 16]; size_t n; rewind(f); n = fread(b, 1, sizeof(b) - 1, f); b[n] = 0; return strstr(b, w) != NULL; }
'''
SEEDS = [
dict(id="c14-loop-user-only", prop="C14", subs=[("source/extensions/loop.c", "    if (loop->directive & OSL_LOOP_DIRECTIVE_USER) {\n      osl_util_safe_strcat(&string, \" \"", "    if (loop->directive >= OSL_LOOP_DIRECTIVE_USER && loop->nb_stmts < 64) {\n      osl_util_safe_strcat(&string, \" \"")],
  needs="a loop over 64 statements with a user directive", breaks="the user text is not printed",
  demo=H + '''int main(void) { osl_loop_p a = osl_loop_malloc(); a->iter = strdup("i"); a->directive = OSL_LOOP_DIRECTIVE_USER; a->nb_stmts = 64; a->stmt_ids = calloc(64, sizeof(int)); a->user = strdup("omp_xyz"); 
  return strstr(osl_loop_sprint(a), "omp_xyz") ? 0 : 1; }
'''),
dict(id="c14-scop-dump-context", prop="C14", subs=[("source/scop.c", "    osl_relation_idump(file, scop->context, level + 1);\n\n    // Print the parameters.", "    if (scop->statement != NULL)\n      osl_relation_idump(file, scop->context, level + 1);\n\n    // Print the parameters.")],
  needs="a dump of a scop with a context and no statement", breaks="the context is missing in the dump",
  demo=H + DUMP + '''int main(void) { FILE* f = tmpfile(); osl_scop_p a = osl_scop_malloc(); a->context = osl_relation_malloc(1, 3); osl_relation_set_type(a->context, OSL_TYPE_CONTEXT);
  osl_int_set_si(a->context->precision, &a->context->m[0][2], 7654321); osl_scop_dump(f, a); return shows(f, "7654321") ? 0 : 1; }
'''),
dict(id="c14-relation-columns-one-row", prop="C14", subs=[("source/relation.c", "      for (j = 0; j < relation->nb_columns; j++) {\n        osl_int_print(file, relation->precision, relation->m[i][j]);", "      for (j = 0; j < relation->nb_columns - (relation->nb_parameters == 0 && relation->next != NULL); j++) {\n        osl_int_print(file, relation->precision, relation->m[i][j]);")],
  needs="a dump of a union whose part has no parameters", breaks="the constant column of every part but the last is not shown",
  demo=H + DUMP + '''int main(void) { FILE* f = tmpfile(); osl_relation_p a = osl_relation_malloc(1, 3), b = osl_relation_malloc(1, 3); a->nb_parameters = b->nb_parameters = 0; a->next = b;
  osl_int_set_si(a->precision, &a->m[0][2], 7654321); osl_relation_dump(f, a); return shows(f, "7654321") ? 0 : 1; }
'''),
dict(id="c14-symbols-dump-walk", prop="C14", subs=[("source/extensions/symbols.c", "    osl_generic_idump(file, symbols->scope, level + 1);", "    osl_generic_idump(file, symbols->generated ? symbols->datatype : symbols->scope, level + 1);")],
  needs="a generated symbol with a scope different from its data type", breaks="the scope is missing in the dump",
  demo=H + DUMP + '''static osl_generic_p g(const char* s) { osl_generic_p x = osl_generic_malloc(); osl_strings_p t = osl_strings_malloc(); osl_strings_add(t, s); x->data = t; x->interface = osl_strings_interface(); return x; }
int main(void) { FILE* f = tmpfile(); osl_symbols_p a = osl_symbols_malloc(); a->type = OSL_SYMBOL_TYPE_ARRAY; a->generated = 1; a->identifier = g("f"); a->datatype = g("int"); a->scope = g("myscope"); a->extent = g("e");
  osl_symbols_dump(f, a); return shows(f, "myscope") ? 0 : 1; }
'''),
]
