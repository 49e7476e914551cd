import importlib.util, os
sp = importlib.util.spec_from_file_location("s1", os.path.join(os.path.dirname(os.path.abspath(__file__)), "s1.py")); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
H, W, WF = m.H, m.W, m.WF
SEEDS = [
dict(id="c21-coordinates-equal-second-absent", prop="C21", subs=[("source/extensions/coordinates.c", "  if (((c1 == NULL) && (c2 != NULL)) || ((c1 != NULL) && (c2 == NULL)))\n    return 0;\n\n  if (strcmp", "  if ((c1 == NULL) || ((c2 == NULL) && (c1->name == NULL)))\n    return 0;\n\n  if (strcmp")],
  needs="comparing existing coordinates (first) with absent ones (second)", breaks="the comparison reads through the absent structure",
  demo=H + '''int main(void) { osl_coordinates_p c = osl_coordinates_malloc(); c->name = strdup("f.c"); return osl_coordinates_equal(c, NULL) ? 1 : osl_coordinates_equal(NULL, c) ? 2 : 0; }
'''),
dict(id="c21-strings-size-absent", prop="C21", subs=[("source/strings.c", "  if ((strings != NULL) && (strings->string != NULL)) {\n    while", "  if (strings->string != NULL) {\n    while")],
  needs="an absent string list reaching the size function (body without iterators)", breaks="counting, comparing and printing bodies without iterators crash",
  demo=H + '''int main(void) { osl_body_p b = osl_body_malloc(); char* s; if (osl_strings_size(NULL) != 0) return 1; s = osl_body_sprint(b); free(s); return 0; }
'''),
]
