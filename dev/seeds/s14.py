import importlib.util, os
sp = importlib.util.spec_from_file_location("s1", os.path.join(os.path.dirname(os.path.abspath(__file__)), "s1.py")); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
H = m.H
REL = '''static osl_relation_p rel(int type) { osl_relation_p r = osl_relation_pmalloc(OSL_PRECISION_DP, 1, 2); osl_relation_set_type(r, type); osl_relation_set_attributes(r, 0, 0, 0, 0); return r; }
'''
SEEDS = [
dict(id="c01-concat-alias", prop="C01", subs=[("source/relation_list.c", "  if (l2 == NULL)\n    return osl_relation_list_clone(l1);\n", "  // Nothing to append.\n  if (l2 == NULL)\n    return (osl_relation_list_p)l1;\n")],
  needs="a concatenation with an empty second list, whose result or operand is then modified or freed", breaks="the concatenation of a list with nothing is the operand itself instead of a new list", flags="",
  demo=H + REL + '''int main(void) { osl_relation_list_p a = osl_relation_list_node(rel(OSL_TYPE_READ)), c = osl_relation_list_concat(a, NULL); if (c == a) return 1; osl_relation_list_free(c);
  return a->elt->type == OSL_TYPE_READ ? 0 : 1; }
'''),
dict(id="c01-union-share", prop="C01", subs=[("source/relation.c", "  copy2 = osl_relation_clone(r2);\n  osl_relation_add(&copy1, copy2);\n\n  return copy1;", "  copy2 = osl_relation_clone(r2);\n  osl_relation_add(&copy1, (r1 != NULL) ? copy2 : r2);\n  if (r1 == NULL)\n    osl_relation_free(copy2);\n\n  return copy1;")],
  needs="a union whose first operand is absent", breaks="the union is the second operand itself instead of a copy", flags="",
  demo=H + REL + '''int main(void) { osl_relation_p a = rel(OSL_TYPE_READ), c = osl_relation_union(NULL, a); if (c == a) return 1; osl_int_set_si(OSL_PRECISION_DP, &c->m[0][1], 7);
  return osl_int_get_si(OSL_PRECISION_DP, a->m[0][1]) == 0 ? 0 : 1; }
'''),
]
