import importlib.util, os
sp = importlib.util.spec_from_file_location("s1", os.path.join(os.path.dirname(os.path.abspath(__file__)), "s1.py")); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
H = m.H
SEEDS = [
dict(id="c13-dependence-dims", prop="C13", subs=[("source/extensions/dependence.c", "                    &dep->source_nb_output_dims_access,\n                    &dep->target_nb_output_dims_domain,\n", "                    &dep->target_nb_output_dims_domain,\n                    &dep->source_nb_output_dims_access,\n")],
  needs="a dependence whose source access and target domain have different numbers of output dimensions, printed and read back", breaks="two numbers of the dimension line are read into each other's field",
  demo=H + '''int main(void) { osl_dependence_p d = osl_dependence_malloc(), e; char *s, *p; d->type = OSL_DEPENDENCE_RAW; d->domain = osl_relation_malloc(0, 2);
  osl_relation_set_type(d->domain, OSL_TYPE_DOMAIN); osl_relation_set_attributes(d->domain, 0, 0, 0, 0); d->label_source = d->label_target = d->depth = d->ref_source = d->ref_target = 1;
  d->source_nb_output_dims_domain = 1; d->source_nb_output_dims_access = 2; d->target_nb_output_dims_domain = 3; d->target_nb_output_dims_access = 4;
  d->source_nb_local_dims_domain = 5; d->source_nb_local_dims_access = 6; d->target_nb_local_dims_domain = 7; d->target_nb_local_dims_access = 8;
  p = s = osl_dependence_sprint(d); e = osl_dependence_sread(&p); return e->source_nb_output_dims_domain == 1 && e->source_nb_output_dims_access == 2 && e->target_nb_output_dims_domain == 3 && e->target_nb_output_dims_access == 4
    && e->source_nb_local_dims_domain == 5 && e->source_nb_local_dims_access == 6 && e->target_nb_local_dims_domain == 7 && e->target_nb_local_dims_access == 8 ? 0 : 1; }
'''),
dict(id="c13-region-type-once", prop="C13", subs=[("source/extensions/region.c", "      sprintf(buffer, \"%d \", region->field.types[i]);          \\\n", "      sprintf(buffer, i > 0 && region->field.types[i] == region->field.types[i - 1] ? \" \" : \"%d \", region->field.types[i]); \\\n")],
  needs="a region text with two consecutive lines of the same type, printed and read back", breaks="the type of the second line is not printed, the reader takes the beginning of the line for it",
  demo=H + '''#include <osl/extensions/region.h>
int main(void) { osl_region_t *r = osl_region_malloc(), *e; char *s, *p; osl_region_append_prefix(r, 2, strdup("alpha")); osl_region_append_prefix(r, 2, strdup("12 beta"));
  p = s = osl_region_sprint(r); e = osl_region_sread(&p); return osl_region_equal(r, e) ? 0 : 1; }
'''),
dict(id="c13-loop-user-exact", prop="C13", subs=[("source/extensions/loop.c", "    // special case for OSL_LOOP_DIRECTIVE_USER\n    if (loop->directive & OSL_LOOP_DIRECTIVE_USER) {\n      loop->user = osl", "    // special case for OSL_LOOP_DIRECTIVE_USER\n    if (loop->directive == OSL_LOOP_DIRECTIVE_USER) {\n      loop->user = osl")],
  needs="a loop with the user directive together with another one, followed by a second loop", breaks="the user text is printed but not read, the reader is out of step from there on",
  demo=H + '''int main(void) { osl_loop_p a = osl_loop_malloc(), b = osl_loop_malloc(), e; char *s, *p; a->iter = strdup("i"); b->iter = strdup("j"); a->nb_stmts = b->nb_stmts = 1; a->stmt_ids = calloc(1, sizeof(int)); b->stmt_ids = calloc(1, sizeof(int));
  a->directive = OSL_LOOP_DIRECTIVE_USER | OSL_LOOP_DIRECTIVE_PARALLEL; b->directive = 0; a->user = strdup("myomp"); a->next = b;
  p = s = osl_loop_sprint(a); e = osl_loop_sread(&p); return e->next != NULL && e->user != NULL && !strcmp(e->user, "myomp") && !strcmp(e->next->iter, "j") ? 0 : 1; }
'''),
dict(id="c13-statement-count-parts", prop="C13", subs=[("source/statement.c", "    if (statement->scattering != NULL)\n      nb_relations++;\n    nb_relations +=", "    nb_relations += osl_relation_nb_components(statement->scattering);\n    nb_relations +=")],
  needs="a statement whose scattering is a union of several parts", breaks="the number of relations printed counts every part of the scattering, which the reader takes for relations of their own",
  demo=H + '''int main(void) { osl_scop_p s = osl_scop_malloc(), r; osl_statement_p t = osl_statement_malloc(); FILE* f = tmpfile(); osl_relation_p c = osl_relation_malloc(0, 2), d = osl_relation_malloc(1, 3), x = osl_relation_malloc(0, 2);
  s->version = 1; s->language = strdup("C"); s->registry = osl_interface_get_default_registry(); osl_relation_set_type(c, OSL_TYPE_CONTEXT); osl_relation_set_attributes(c, 0, 0, 0, 0); s->context = c;
  osl_relation_set_type(d, OSL_TYPE_DOMAIN); osl_relation_set_attributes(d, 1, 0, 0, 0); osl_relation_set_type(x, OSL_TYPE_SCATTERING); osl_relation_set_attributes(x, 0, 0, 0, 0); t->domain = d; t->scattering = x; x->next = osl_relation_malloc(0, 2); osl_relation_set_type(x, OSL_TYPE_SCATTERING); osl_relation_set_attributes(x, 0, 0, 0, 0); s->statement = t;
  osl_scop_print(f, s); rewind(f); r = osl_scop_read(f); return r && r->statement && osl_relation_equal(r->statement->scattering, x) && osl_relation_equal(r->statement->domain, d) ? 0 : 1; }
'''),
]
