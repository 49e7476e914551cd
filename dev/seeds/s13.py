import importlib.util, os
sp = importlib.util.spec_from_file_location("s1", os.path.join(os.path.dirname(os.path.abspath(__file__)), "s1.py")); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
H = m.H
ASAN = "-fsanitize=address"
REL = '''static osl_relation_p rel(int type) { osl_relation_p r = osl_relation_pmalloc(OSL_PRECISION_DP, 1, 2); osl_relation_set_type(r, type); osl_relation_set_attributes(r, 0, 0, 0, 0); return r; }
'''
SEEDS = [
dict(id="c21-print-elts-empty", prop="C21", subs=[("source/relation_list.c", "      if (head->elt != NULL && head->elt->type == OSL_TYPE_READ) {", "      if (head->elt->type == OSL_TYPE_READ) {")],
  needs="accesses printed in the SCoPLib format, one element holding no relation among others that do", breaks="the absent relation of that element is dereferenced", flags="",
  demo=H + REL + '''int main(void) { osl_relation_list_p a = osl_relation_list_node(rel(OSL_TYPE_WRITE)), b = osl_relation_list_malloc(); FILE* f = fopen("/dev/null", "w"); osl_names_p n = osl_names_generate("P", 1, "i", 1, "c", 1, "l", 1, "A", 1);
  osl_int_set_si(OSL_PRECISION_DP, &a->elt->m[0][1], 0); b->next = NULL; a->next = b; osl_relation_list_pprint_access_array_scoplib(f, a, n, 0); fclose(f); return 0; }
'''),
dict(id="c21-drop-empty-stack", prop="C21", subs=[("source/relation_list.c", "  osl_relation_list_p top = osl_relation_list_pop(head);\n  osl_relation_list_free(top);", "  osl_relation_list_p top = *head;\n  *head = top->next;\n  top->next = NULL;\n  osl_relation_list_free(top);")],
  needs="a drop on an empty stack", breaks="the absent top is dereferenced", flags="",
  demo=H + REL + '''int main(void) { osl_relation_list_p s = osl_relation_list_node(rel(OSL_TYPE_READ)); osl_relation_list_drop(&s); osl_relation_list_drop(&s); return s != NULL; }
'''),
]
