H = '#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n#include <osl/osl.h>\n'
W = '''
static int live;
void* __real_malloc(size_t); void __real_free(void*); void* __real_realloc(void*, size_t);
void* __wrap_malloc(size_t n) { void* p = __real_malloc(n); if (p) { memset(p, 0xA5, n); live++; } return p; }
void* __wrap_realloc(void* q, size_t n) { void* p = __real_realloc(q, n); if (!q && p) live++; return p; }
void __wrap_free(void* p) { if (p) live--; __real_free(p); }
char* __wrap_strdup(const char* s) { char* p = __wrap_malloc(strlen(s) + 1); strcpy(p, s); return p; }
'''
WF = "-fno-builtin -Wl,--wrap=malloc,--wrap=free,--wrap=realloc,--wrap=strdup"
SEEDS = [
dict(id="c01-symbols-nclone-second", prop="C01", subs=[("source/extensions/symbols.c", "    new->generated = symbols->generated;", "    new->generated = clone == NULL ? symbols->generated : clone->generated;")],
  needs="a symbols list of two or more nodes of which only some are generated", breaks="the second and later cloned symbols carry the first symbol's generated flag",
  demo=H + '''static osl_generic_p g(const char* s) { osl_generic_p x = osl_generic_malloc(); osl_strings_p t = osl_strings_malloc(); osl_strings_add(t, s); x->data = t; x->interface = osl_strings_interface(); return x; }
int main(void) { osl_symbols_p a = osl_symbols_malloc(), b = osl_symbols_malloc(), c; a->identifier = g("A"); b->identifier = g("B"); a->generated = 1; b->generated = 0; a->next = b;
  c = osl_symbols_clone(a);
  return c && c->next && c->generated == 1 && c->next->generated == 0 ? 0 : 1; }
'''),
dict(id="c01-relation-nclone-union-counts", prop="C01", subs=[("source/relation.c", "    node->nb_local_dims = relation->nb_local_dims;\n    node->nb_parameters = relation->nb_parameters;\n\n    for (i = 0; i < relation->nb_rows; i++)\n      for (j = 0; j < relation->nb_columns; j++)\n        osl_int_assign(relation->precision, &node->m[i][j], relation->m[i][j]);\n\n    if (first) {\n      first = 0;", "    node->nb_parameters = relation->nb_parameters;\n\n    for (i = 0; i < relation->nb_rows; i++)\n      for (j = 0; j < relation->nb_columns; j++)\n        osl_int_assign(relation->precision, &node->m[i][j], relation->m[i][j]);\n\n    node->nb_local_dims = first ? relation->nb_local_dims : clone->nb_local_dims;\n    if (first) {\n      first = 0;")],
  needs="a union of relations whose parts have different numbers of local dimensions", breaks="cloned later union parts record the first part's number of local dimensions",
  demo=H + '''int main(void) { osl_relation_p a = osl_relation_malloc(1, 4), b = osl_relation_malloc(1, 5), c;
  osl_relation_set_type(a, OSL_TYPE_DOMAIN); osl_relation_set_attributes_one(a, 1, 0, 0, 1); osl_relation_set_attributes_one(b, 1, 0, 1, 1); a->next = b;
  c = osl_relation_clone(a); return osl_relation_equal(a, c) ? 0 : 1; }
'''),
dict(id="c01-extbody-clone-length", prop="C01", subs=[("source/extensions/extbody.c", "  for (i = 0; i < ebody->nb_access; i++) {\n    clone->start[i] = ebody->start[i];\n    clone->length[i] = ebody->length[i];\n  }", "  memcpy(clone->start, ebody->start, ebody->nb_access * sizeof(int));\n  i = ebody->nb_access ? ebody->nb_access : 1;\n  memcpy(clone->length, ebody->length, (i - 1) * sizeof(int));\n  if (ebody->nb_access > 0)\n    clone->length[i - 1] = ebody->length[0];")],
  needs="an extended body with at least two accesses, the last of another length than the first", breaks="the length of the last access is not copied",
  demo=H + '''int main(void) { osl_extbody_p e = osl_extbody_malloc(), c; e->body = osl_body_malloc(); osl_extbody_add(e, 0, 3); osl_extbody_add(e, 7, 4); c = osl_extbody_clone(e);
  return c->nb_access == e->nb_access && c->length[0] == e->length[0] && c->length[1] == e->length[1] ? 0 : 1; }
'''),
dict(id="c02-relation-equal-equality-column", prop="C02", subs=[("source/relation.c", "    for (j = 0; j < r1->nb_columns; ++j)\n      if (osl_int_ne(r1->precision, r1->m[i][j], r2->m[i][j]))\n        return 0;\n\n  return 1;\n}", "    for (j = 0; j < r1->nb_columns; ++j)\n      if (osl_int_ne(r1->precision, r1->m[i][j], r2->m[i][j])) {\n        // output positions of an access are implied by its array identifier\n        if (osl_relation_is_access(r1) && i > 0 && j == 0)\n          continue;\n        return 0;\n      }\n\n  return 1;\n}")],
  needs="two access relations that differ only in the equality/inequality marker of a row after the first", breaks="such relations are reported equal",
  demo=H + '''int main(void) { osl_relation_p a = osl_relation_malloc(2, 4), b; osl_relation_set_type(a, OSL_TYPE_READ); osl_relation_set_attributes_one(a, 1, 1, 0, 0); b = osl_relation_clone(a);
  if (!osl_relation_equal(a, b)) return 3;
  osl_int_set_si(b->precision, &b->m[1][0], 1); return osl_relation_equal(a, b) ? 1 : 0; }
'''),
dict(id="c02-scatinfos-skip-last-type", prop="C02", subs=[("source/extensions/scatinfos.c", "    if (c1->type[i] != c2->type[i])\n      return 0;", "    if ((c1->type[i] != c2->type[i]) && (i == 0 || c1->parallel[i] || c1->permutable[i]))\n      return 0;")],
  needs="scattering infos that differ only in the type of a dimension that is neither parallel nor permutable, not the first", breaks="the difference is not seen",
  demo=H + '''static osl_scatinfos_p mk(int t) { osl_scatinfos_p s = osl_scatinfos_malloc(); s->nb_scatdims = 2; s->parallel = calloc(2, sizeof(int)); s->permutable = calloc(2, sizeof(int)); s->type = calloc(2, sizeof(int)); s->type[1] = t; return s; }
int main(void) { osl_scatinfos_p a = mk(0), b = mk(1), c = mk(0); if (!osl_scatinfos_equal(a, c)) return 3; return osl_scatinfos_equal(a, b) ? 1 : 0; }
'''),
dict(id="c02-interface-equal-same-uri", prop="C02", subs=[("source/interface.c", "      (interface1->malloc != interface2->malloc) ||\n      (interface1->free != interface2->free) ||", "      (interface1->malloc != interface2->malloc) ||\n      (interface1->free != interface1->free) ||")],
  needs="two descriptors that differ only in their destructor", breaks="they compare equal",
  demo=H + '''static void other(void* x) { (void)x; }
int main(void) { osl_interface_p a = osl_comment_interface(), b = osl_interface_clone(a); if (!osl_interface_equal(a, b)) return 3; b->free = other; return osl_interface_equal(a, b) ? 1 : 0; }
'''),
dict(id="c03-relation-free-inside-single", prop="C03", subs=[("source/relation.c", "  if (relation->m != NULL) {\n    if (nb_elements > 0)\n      free(relation->m[0]);\n    free(relation->m);\n  }", "  if (relation->m != NULL) {\n    if (nb_elements > 1)\n      free(relation->m[0]);\n    free(relation->m);\n  }")],
  needs="a relation with exactly one row and one column", breaks="its only cell is leaked", flags=WF,
  demo=H + W + '''int main(void) { int b = live; osl_relation_p r = osl_relation_malloc(1, 1); osl_relation_free(r); return live == b ? 0 : 1; }
'''),
dict(id="c03-symbols-free-shared-scope", prop="C03", subs=[("source/extensions/symbols.c", "    osl_generic_free(symbols->scope);\n    osl_generic_free(symbols->extent);\n    free(symbols);\n    symbols = tmp;", "    if (symbols->scope != symbols->datatype && symbols->nb_dims >= 0)\n      osl_generic_free(symbols->scope);\n    if (symbols->nb_dims > 0 || symbols->extent == NULL)\n      osl_generic_free(symbols->extent);\n    free(symbols);\n    symbols = tmp;")],
  needs="a scalar symbol (no dimension) that nevertheless has an extent", breaks="the extent is leaked", flags=WF,
  demo=H + W + '''static osl_generic_p g(const char* s) { osl_generic_p x = osl_generic_malloc(); osl_strings_p t = osl_strings_malloc(); osl_strings_add(t, s); x->data = t; x->interface = osl_strings_interface(); return x; }
int main(void) { int b = live; osl_symbols_p a = osl_symbols_malloc(); a->nb_dims = 0; a->identifier = g("x"); a->extent = g("1"); osl_symbols_free(a); return live == b ? 0 : 1; }
'''),
]
