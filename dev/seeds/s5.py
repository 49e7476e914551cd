import importlib.util, os
sp = importlib.util.spec_from_file_location("s4", os.path.join(os.path.dirname(os.path.abspath(__file__)), "s4.py")); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
H, W, WF, F, WR = m.H, m.W, m.WF, m.F, m.WR
I = "source/int.c"
INT = H + '''
#include <unistd.h>
#include <sys/wait.h>
static int P; static osl_int_t v(const char* s) { osl_int_t x; osl_int_init(P, &x); osl_int_sscanf(s, P, &x); return x; }
/* does it end by a stop of the library (exit status 1)? */
static int stops(void (*f)(void)) { pid_t p = fork(); int st; if (p == 0) { freopen("/dev/null", "w", stderr); f(); _exit(7); } waitpid(p, &st, 0); return WIFEXITED(st) && WEXITSTATUS(st) == 1; }
'''
SEEDS = [
dict(id="c05-floor-narrow-remainder", prop="C05", subs=[(I, "      if (q->dp < 0) {\n        if (a.dp % b.dp != 0)\n          --q->dp;", "      if (q->dp < 0) {\n        int r = a.dp % b.dp;\n        if (r != 0)\n          --q->dp;")],
  needs="64-bit precision, a remainder that is a multiple of 2^32", breaks="the remainder is narrowed before it is compared with zero: the quotient is truncated instead of floored",
  demo=INT + '''int main(void) { osl_int_t q; P = OSL_PRECISION_DP; osl_int_init(P, &q); osl_int_floor_div_q(P, &q, v("-30064771072"), v("8589934592")); return q.dp == -4 ? 0 : 1; }
'''),
dict(id="c05-swap-gmp-alias", prop="C05", subs=[(I, "      mpz_set(temp, *var1->mp);\n      mpz_set(*var1->mp, *var2->mp);\n      mpz_set(*var2->mp, temp);\n", "      mpz_set(temp, *var2->mp);\n      mpz_set(*var1->mp, *var2->mp);\n      mpz_set(*var2->mp, temp);\n")],
  needs="two different multi-precision numbers", breaks="both end with the value of the second",
  demo=INT + '''int main(void) { osl_int_t a, b; P = OSL_PRECISION_MP; a = v("1"); b = v("2"); osl_int_swap(P, &a, &b); return osl_int_eq(P, a, v("2")) && osl_int_eq(P, b, v("1")) ? 0 : 1; }
'''),
dict(id="c05-ge-narrow", prop="C05", subs=[(I, "      return (val1.sp >= val2.sp);", "      return (int)(val1.sp - val2.sp) >= 0;")],
  needs="64-bit operands whose difference does not fit an int", breaks="the difference is narrowed before its sign is looked at",
  demo=INT + '''int main(void) { P = OSL_PRECISION_DP; return osl_int_ge(P, v("3000000000"), v("1")) && !osl_int_ge(P, v("1"), v("2")) ? 0 : 1; }
'''),
dict(id="c06-add-si-one", prop="C06", subs=[(I, "      if (osl_int_pos(precision, value) && i > 0) {\n        if (LLONG_MAX - value.dp < i)", "      if (osl_int_pos(precision, value) && i > 1) {\n        if (LLONG_MAX - value.dp < i)")],
  needs="64-bit precision, one added to the greatest integer", breaks="an increment overflows silently",
  demo=INT + '''static void f(void) { osl_int_t x = v("9223372036854775807"); osl_int_increment(P, &x, x); }
int main(void) { P = OSL_PRECISION_DP; return stops(f) ? 0 : 1; }
'''),
dict(id="c06-add-sign-mix", prop="C06", subs=[(I, "      if (osl_int_pos(precision, val1) && osl_int_pos(precision, val2)) {\n        if (LONG_MAX - val1.sp < val2.sp)", "      if (osl_int_pos(precision, val1) && !osl_int_neg(precision, val2)) {\n        if (LONG_MAX - val1.sp <= val2.sp)")],
  needs="32-bit precision, a sum equal to the greatest integer", breaks="a representable sum stops the program",
  demo=INT + '''static void f(void) { osl_int_t x = v("9223372036854775806"); osl_int_add(P, &x, x, v("1")); }
static void g(void) { osl_int_t x = v("9223372036854775806"); osl_int_add(P, &x, x, v("2")); }
int main(void) { P = OSL_PRECISION_SP; return !stops(f) && stops(g) ? 0 : 1; }
'''),
dict(id="c06-get-si-gmp", prop="C06", subs=[(I, "      if (mpz_fits_sint_p(*value.mp) == 0)", "      if (mpz_fits_slong_p(*value.mp) == 0)")],
  needs="a multi-precision number between the limits of int and of long", breaks="it is truncated without an error",
  demo=INT + '''static void f(void) { osl_int_get_si(P, v("5000000000")); }
int main(void) { P = OSL_PRECISION_MP; return stops(f) && osl_int_get_si(P, v("-7")) == -7 ? 0 : 1; }
'''),

dict(id="c16-dependence-partial", prop="C16", subs=[("source/extensions/dependence.c", "  if (read != 8) {", "  if (read < 1) {")],
  needs="a dependence whose dimension line has fewer than eight numbers", breaks="the missing dimensions are silently left undefined",
  demo=INT + '''#include <osl/extensions/dependence.h>
static void f(void) { char t[] = "1\\nRAW\\n0\\n0\\n1\\n0\\n0\\n1 2 1 2 0 0 0\\nDOMAIN\\n0 2 0 0 0 0\\n"; char* s = t; osl_dependence_psread(&s, OSL_PRECISION_DP); }
static void g(void) { char t[] = "1\\nRAW\\n0\\n0\\n1\\n0\\n0\\n1 2 1 2 0 0 0 0\\nDOMAIN\\n0 2 0 0 0 0\\n"; char* s = t; osl_dependence_psread(&s, OSL_PRECISION_DP); }
int main(void) { P = OSL_PRECISION_DP; return stops(f) && !stops(g) ? 0 : 1; }
'''),
dict(id="c16-int-at-end", prop="C16", subs=[("source/util.c", "    if (sscanf(s, \"%d\", &res) != 1)", "    if (sscanf(s, \"%d\", &res) == 0)")],
  needs="a text that ends where an integer is expected", breaks="an integer that was never read is used",
  demo=INT + '''static void f(void) { char t[] = "  # nothing\\n"; char* s = t; osl_util_read_int(NULL, &s); }
static void g(void) { char t[] = "  # x\\n -4"; char* s = t; if (osl_util_read_int(NULL, &s) != -4) exit(1); }
int main(void) { P = OSL_PRECISION_DP; return stops(f) && !stops(g) ? 0 : 1; }
'''),
dict(id="c16-relation-attributes", prop="C16", subs=[("source/relation.c", """      *input = tmp;

      if (((read != 1) && (read != 6)) ||
          ((read == 1) && (may_read_nb_union_parts != 1)))""", """      *input = tmp;

      if ((read < 1) ||
          ((read == 1) && (may_read_nb_union_parts != 1)))""")],
  needs="a relation text whose attribute line has two to five numbers", breaks="attributes that were not read are used",
  demo=INT + '''static void f(void) { char t[] = "DOMAIN\\n1 4 2\\n1 1 0 0\\n"; char* s = t; osl_relation_psread(&s, OSL_PRECISION_DP); }
static void g(void) { char t[] = "DOMAIN\\n1 4 2 0 0 0\\n1 1 0 0\\n"; char* s = t; osl_relation_psread(&s, OSL_PRECISION_DP); }
int main(void) { P = OSL_PRECISION_DP; return stops(f) && !stops(g) ? 0 : 1; }
'''),
dict(id="c16-relation-type-warning", prop="C16", subs=[("source/relation.c", '  OSL_error("relation type not supported");', '  OSL_warning("relation type not supported");')],
  needs="a relation of an unknown type", breaks="it is read as an untyped relation",
  demo=INT + '''static void f(void) { char t[] = "DOMAINE\\n1 4 2 0 0 0\\n1 1 0 0\\n"; char* s = t; osl_relation_psread(&s, OSL_PRECISION_DP); }
static void g(void) { char t[] = "DOMAIN\\n1 4 2 0 0 0\\n1 1 0 0\\n"; char* s = t; osl_relation_psread(&s, OSL_PRECISION_DP); }
int main(void) { P = OSL_PRECISION_DP; return stops(f) && !stops(g) ? 0 : 1; }
'''),
]
