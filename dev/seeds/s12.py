import importlib.util, os
sp = importlib.util.spec_from_file_location("s1", os.path.join(os.path.dirname(os.path.abspath(__file__)), "s1.py")); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
H = m.H
ASAN = "-fsanitize=address"
SEEDS = [
dict(id="c15-strcat-exact", prop="C15", subs=[("source/util.c", "  while ((strlen(*dst) + strlen(src)) >= *hwm) {", "  while ((strlen(*dst) + strlen(src)) > *hwm) {")],
  needs="texts whose lengths add up to exactly the size of the buffer", breaks="the final zero byte is written past the end of the growing buffer", flags=ASAN,
  demo=H + '''int main(void) { int n; for (n = 0; n < 64; n++) { size_t hwm = OSL_MAX_STRING; char* t = malloc(hwm); char* s = malloc(hwm + 1); size_t k = hwm - 32 + n; if (k > hwm) k = hwm;
  t[0] = 0; memset(s, 'a', k); s[k] = 0; osl_util_safe_strcat(&t, s, &hwm); if (strlen(t) != k) return 1; free(s); free(t); } return 0; }
'''),
dict(id="c15-uptoflag-exact", prop="C15", subs=[("source/util.c", "    if (nb_chars >= high_water_mark) {", "    if (nb_chars > high_water_mark) {")],
  needs="a content longer than the first buffer, whose flag lies after that boundary", breaks="one character is stored past the end of the buffer before it grows", flags=ASAN,
  demo=H + '''int main(void) { int n = 3 * OSL_MAX_STRING; char* s = malloc(n + 10), *p = s, *r; memset(s, 'a', n); strcpy(s + n, "</x>"); r = osl_util_read_uptoflag(NULL, &p, "</x>"); return r != NULL && strlen(r) == (size_t)n ? 0 : 1; }
'''),
dict(id="c15-arrays-add-chunks", prop="C15", subs=[("source/extensions/arrays.c", "  OSL_realloc(arrays->id, int*, (size_t)(arrays->nb_names + 1) * sizeof(int));\n  OSL_realloc(arrays->names, char**,\n              (size_t)(arrays->nb_names + 1) * sizeof(char*));\n",
  "  // Grow by chunks.\n  if (arrays->nb_names % 8 == 0) {\n    OSL_realloc(arrays->id, int*, (size_t)(arrays->nb_names + 8) * sizeof(int));\n    OSL_realloc(arrays->names, char**,\n                (size_t)(arrays->nb_names + 8) * sizeof(char*));\n  }\n")],
  needs="a name added to an arrays structure that was read or cloned (its arrays have exactly the size needed) with a number of names that is no multiple of 8", breaks="the new entry is stored past the end of the array", flags=ASAN,
  demo=H + '''int main(void) { char t[] = "3 1 a 2 b 3 c"; char* p = t; osl_arrays_p a = osl_arrays_sread(&p), c = osl_arrays_clone(a); osl_arrays_add(c, 4, "d"); return c->nb_names == 4 && !strcmp(c->names[3], "d") ? 0 : 1; }
'''),
dict(id="c15-generate-names", prop="C15", subs=[("source/strings.c", "  char buff[strlen(prefix) + 16];", "  char buff[strlen(prefix) + 4];")],
  needs="at least 1000 generated names", breaks="the names with four digits do not fit in the buffer they are built in", flags=ASAN,
  demo=H + '''int main(void) { osl_strings_p s = osl_strings_generate("c", 1200); return osl_strings_size(s) == 1200 && !strcmp(s->string[1199], "c1200") ? 0 : 1; }
'''),
dict(id="c15-strings-sprint-start", prop="C15", subs=[("source/strings.c", "  char buffer[OSL_MAX_STRING];\n\n  OSL_malloc(string, char*, high_water_mark * sizeof(char));", "  char buffer[OSL_MAX_STRING];\n\n  // Most of the lists are short.\n  OSL_malloc(string, char*, high_water_mark / 4 * sizeof(char));")],
  needs="a list of strings of more than 512 and less than 2048 characters", breaks="the buffer is smaller than the size its growth is decided on", flags=ASAN,
  demo=H + '''int main(void) { int i; osl_strings_p s = osl_strings_malloc(); char* t; for (i = 0; i < 150; i++) osl_strings_add(s, "name"); t = osl_strings_sprint(s); return strlen(t) == 750 ? 0 : 1; }
'''),
dict(id="c15-irregular-room", prop="C15", subs=[("source/extensions/irregular.c", "vsnprintf((*buf) + *offset, *buf_size - *offset, fmt, va);", "vsnprintf((*buf) + *offset, *buf_size, fmt, va);")],
  needs="an irregular structure whose text crosses the end of the buffer it is built in", breaks="the text is formatted past the end of the buffer", flags=ASAN,
  demo=H + '''int main(void) { osl_irregular_p a = osl_irregular_malloc(), n; int i; char* it[1] = {"i"}; char body[64], *t; for (i = 0; i < 75; i++) { sprintf(body, "condition_number_%d(i)", i);
  n = osl_irregular_add_control(a, it, 1, body); a = n; } t = osl_irregular_sprint(a); return t != NULL ? 0 : 1; }
'''),
dict(id="c15-dependence-fast", prop="C15", subs=[("source/extensions/dependence.c", "      osl_util_safe_strcat(&buffer, pbuffer, &buffer_size);\n      free(pbuffer);", "      if (strlen(buffer) + strlen(pbuffer) <= buffer_size)\n        strcat(buffer, pbuffer);\n      else\n        osl_util_safe_strcat(&buffer, pbuffer, &buffer_size);\n      free(pbuffer);")],
  needs="a dependence whose text exactly fills the buffer", breaks="the final zero byte is written past the end of the buffer", flags=ASAN,
  demo=H + '''/* every size of the text: the digits of a matrix with few entries are varied */
int main(void) { int k, i, d; for (k = 60; k < 90; k++) for (d = 0; d < 10; d++) { osl_dependence_p x = osl_dependence_malloc(); char* t; int v = 1; x->type = OSL_DEPENDENCE_RAW;
  x->domain = osl_relation_pmalloc(OSL_PRECISION_DP, 12, 8); x->domain->type = OSL_TYPE_DOMAIN; osl_relation_set_attributes(x->domain, 2, 2, 0, 2);
  for (i = 0; i < k; i++) osl_int_set_si(OSL_PRECISION_DP, &x->domain->m[i % 12][1 + i / 12], -100000); for (i = 0; i < d; i++) v *= 10; x->label_source = v;
  t = osl_dependence_sprint(x); if (t == NULL) return 1; free(t); osl_dependence_free(x); } return 0; }
'''),
dict(id="c15-loop-clone-order", prop="C15", subs=[("source/extensions/loop.c", "  clone->nb_stmts = loop->nb_stmts;\n  OSL_malloc(clone->stmt_ids, int*, loop->nb_stmts * sizeof(int));\n", "  OSL_malloc(clone->stmt_ids, int*, clone->nb_stmts * sizeof(int));\n  clone->nb_stmts = loop->nb_stmts;\n")],
  needs="the clone of a loop with more statements than the smallest block has room for", breaks="the identifiers of the statements are stored past the end of the array of the clone", flags=ASAN,
  demo=H + '''int main(void) { int i; osl_loop_p l = osl_loop_malloc(), c; l->iter = strdup("i"); l->nb_stmts = 12; l->stmt_ids = malloc(12 * sizeof(int)); for (i = 0; i < 12; i++) l->stmt_ids[i] = i;
  c = osl_loop_clone(l); return osl_loop_equal(l, c) ? 0 : 1; }
'''),
dict(id="c15-annotation-types", prop="C15", subs=[("source/extensions/annotation.c", "  OSL_realloc(text->types, int*, count * sizeof *text->types);\n", "  if (text->types == NULL || line_type != text->types[text->count - 1])\n    OSL_realloc(text->types, int*, count * sizeof *text->types);\n")],
  needs="two successive lines of the same type in the text of an annotation", breaks="the type of the second line is stored past the end of the array", flags=ASAN,
  demo=H + '''#include <osl/extensions/annotation.h>
int main(void) { size_t n; osl_annotation_t *a = osl_annotation_malloc(), *c; a->prefix.lines = malloc(9 * sizeof(char*)); a->prefix.types = malloc(9 * sizeof(int));
  for (n = 0; n < 9; n++) { a->prefix.lines[n] = strdup("line"); a->prefix.types[n] = 2; } a->prefix.count = 9;
  c = osl_annotation_clone(a); return c->prefix.count == 9 && c->prefix.types[8] == 2 ? 0 : 1; }
'''),
]
