import importlib.util, os
sp = importlib.util.spec_from_file_location("s1", os.path.join(os.path.dirname(os.path.abspath(__file__)), "s1.py")); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
H = m.H
REL = '''static osl_relation_p rel(int type, int prec, int out, int in, int loc) { osl_relation_p r = osl_relation_pmalloc(prec, 1, 2 + out + in + loc);
  r->type = type; osl_relation_set_attributes_one(r, out, in, loc, 0); return r; }
'''
SEEDS = [
dict(id="c23-precision-stops", prop="C23", subs=[("source/relation.c", "  while (r != NULL) {\n    if (precision != r->precision) {\n      size_t i;", "  while (r != NULL && r->precision != precision) {\n    {\n      size_t i;")],
  needs="a union whose first part already has the requested precision and a later one has another", breaks="the later parts keep their former precision",
  demo=H + REL + '''int main(void) { osl_relation_p a = rel(OSL_TYPE_DOMAIN, OSL_PRECISION_DP, 1, 0, 0); a->next = rel(OSL_TYPE_DOMAIN, OSL_PRECISION_SP, 1, 0, 0);
  osl_int_set_si(OSL_PRECISION_SP, &a->next->m[0][1], 5); osl_relation_set_precision(OSL_PRECISION_DP, a);
  return a->next->precision == OSL_PRECISION_DP && osl_int_get_si(a->next->precision, a->next->m[0][1]) == 5 ? 0 : 1; }
'''),
dict(id="c23-localdims-last", prop="C23", subs=[("source/relation.c", "    *nb_localdims = OSL_max(*nb_localdims, local_nb_localdims);", "    *nb_localdims =\n        relation->next ? *nb_localdims\n                       : OSL_max(*nb_localdims, local_nb_localdims);")],
  needs="a union in which a part before the last has the most local dimensions", breaks="only the last part's local dimensions are counted",
  demo=H + REL + '''int main(void) { osl_relation_p a = rel(OSL_TYPE_DOMAIN, OSL_PRECISION_SP, 1, 0, 3); int p = -1, i = -1, s = -1, l = -1, x = -1; a->next = rel(OSL_TYPE_DOMAIN, OSL_PRECISION_SP, 1, 0, 1);
  osl_relation_get_attributes(a, &p, &i, &s, &l, &x); return l == 3 ? 0 : 1; }
'''),
dict(id="c23-unions-diagonal", prop="C23", subs=[("source/statement.c", "      if (scattering == NULL || scattering->next == NULL)\n        break;", "      if (scattering == NULL || scattering->next == NULL ||\n          (domain != NULL && domain->next != NULL))\n        break;")],
  needs="a statement with unions both in its domain and in its scattering", breaks="only the last part of the domain is combined with all parts of the scattering",
  demo=H + REL + '''int main(void) { osl_statement_p s = osl_statement_malloc(), r; s->domain = rel(OSL_TYPE_DOMAIN, 32, 1, 0, 0); s->domain->next = rel(OSL_TYPE_DOMAIN, 32, 1, 0, 0);
  s->scattering = rel(OSL_TYPE_SCATTERING, 32, 1, 1, 0); s->scattering->next = rel(OSL_TYPE_SCATTERING, 32, 1, 1, 0); r = osl_statement_remove_unions(s);
  return osl_statement_number(r) == 4 ? 0 : 1; }
'''),
dict(id="c23-extend-offset", prop="C23", subs=[("source/relation.c", "      previous->next = node;\n      previous = previous->next;\n    }\n\n    relation = relation->next;\n  }\n\n  return extended;", "      previous->next = node;\n      node->nb_local_dims = extended->nb_local_dims;\n      previous = previous->next;\n    }\n\n    relation = relation->next;\n  }\n\n  return extended;")],
  needs="the extension of a union whose parts have different numbers of local dimensions", breaks="the later parts record the first part's number of local dimensions",
  demo=H + REL + '''int main(void) { osl_relation_p a = rel(OSL_TYPE_SCATTERING, 32, 1, 1, 0), e; a->next = rel(OSL_TYPE_SCATTERING, 32, 1, 1, 2); e = osl_relation_extend_output(a, 3);
  return e->next->nb_local_dims == 2 && e->next->nb_columns == 8 ? 0 : 1; }
'''),
]
