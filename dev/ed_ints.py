EDITS = []
ALL = ["C05", "C06"]
I = "source/int.c"
def ok(name, *subs, props=ALL): EDITS.append(dict(name=name, file=I, subs=list(subs), kind="ok", props=props))
def bug(name, *subs, props=ALL): EDITS.append(dict(name=name, file=I, subs=list(subs), kind="bug", props=props))
V = ["C05"]; O = ["C06"]
bug("n-add-dp", ("      variable->dp = val1.dp + val2.dp;", "      variable->dp = val1.dp - val2.dp;"), props=V)
bug("n-add-alias", ("      mpz_add(*variable->mp, *val1.mp, *val2.mp);", "      mpz_set(*variable->mp, *val1.mp);\n      mpz_add(*variable->mp, *variable->mp, *val2.mp);"), props=V)
ok("n-add-tmp", ("      mpz_add(*variable->mp, *val1.mp, *val2.mp);", "      {\n        mpz_t t;\n        mpz_init_set(t, *val1.mp);\n        mpz_add(t, t, *val2.mp);\n        mpz_set(*variable->mp, t);\n        mpz_clear(t);\n      }"))
bug("n-swap", ("      mpz_set(*var2->mp, temp);", "      mpz_set(*var2->mp, *var1->mp);"), props=V)
ok("n-swap-lib", ("      mpz_t temp;\n      mpz_init(temp);\n      mpz_set(temp, *var1->mp);\n      mpz_set(*var1->mp, *var2->mp);\n      mpz_set(*var2->mp, temp);\n      mpz_clear(temp);\n", "      mpz_swap(*var1->mp, *var2->mp);\n"))
ok("n-swap-ptr", ("      mpz_t temp;\n      mpz_init(temp);\n      mpz_set(temp, *var1->mp);\n      mpz_set(*var1->mp, *var2->mp);\n      mpz_set(*var2->mp, temp);\n      mpz_clear(temp);\n", "      mpz_t* temp = var1->mp;\n      var1->mp = var2->mp;\n      var2->mp = temp;\n"))
bug("n-assign-share", ("      mpz_set(*variable->mp, *value.mp);", "      variable->mp = value.mp;"), props=V)
bug("n-assign-narrow", ("      variable->dp = value.dp;", "      variable->dp = (int)value.dp;"), props=V)
bug("n-setlong-narrow", ("    case OSL_PRECISION_SP:\n      variable->sp = i;", "    case OSL_PRECISION_SP:\n      variable->sp = (int)i;"), props=V)
bug("n-zext", ("    case OSL_PRECISION_DP:\n      variable->dp = (long long int)i;\n      break;\n\n#ifdef OSL_GMP_IS_HERE\n    case OSL_PRECISION_MP:\n      mpz_set_si(*variable->mp, i);", "    case OSL_PRECISION_DP:\n      variable->dp = (unsigned)i;\n      break;\n\n#ifdef OSL_GMP_IS_HERE\n    case OSL_PRECISION_MP:\n      mpz_set_si(*variable->mp, i);"), props=V)
bug("n-setui", ("      mpz_set_si(*variable->mp, i);\n      break;\n#endif\n\n    default:\n      OSL_error(\"unknown precision\");\n  }\n}\n\n/**\n * \\brief variable = i\n * \\param[in] precision Precision of the osl int\n * \\param[in] variable  A osl int to assign\n * \\param[in] i         Value in a long long int", "      mpz_set_d(*variable->mp, i);\n      break;\n#endif\n\n    default:\n      OSL_error(\"unknown precision\");\n  }\n}\n\n/**\n * \\brief variable = i\n * \\param[in] precision Precision of the osl int\n * \\param[in] variable  A osl int to assign\n * \\param[in] i         Value in a long long int"), props=V) if 0 else None
bug("n-fdiv-zero", ("      } else if (q->dp == 0) {", "      } else if (q->dp == 0 && a.dp % b.dp == 1) {"), props=V)
bug("n-fdiv-neg", ("      if (q->sp < 0) {\n        if (a.sp % b.sp != 0)\n          --q->sp;", "      if (q->sp < 0) {\n        --q->sp;"), props=V)
ok("n-fdiv-alt", ("      q->sp = a.sp / b.sp;\n      if (q->sp < 0) {\n        if (a.sp % b.sp != 0)\n          --q->sp;\n      } else if (q->sp == 0) {\n        if ((osl_int_pos(precision, a) && osl_int_neg(precision, b)) ||\n            (osl_int_neg(precision, a) && osl_int_pos(precision, b))) {\n          --q->sp;\n        }\n      }\n",
   "      q->sp = a.sp / b.sp;\n      if ((a.sp % b.sp != 0) && ((a.sp < 0) != (b.sp < 0)))\n        q->sp -= 1;\n"))
ok("n-fdiv-helper", ("// gcd (greatest common divisor) for long long int", "static long long fd(long long x, long long y);\n// gcd (greatest common divisor) for long long int"), ("/**\n * \\brief q = floor(a / b)", "static long long fd(long long x, long long y) {\n  long long t = x / y, r = x % y;\n  return (r > 0 && y < 0) || (r < 0 && y > 0) ? t - 1 : t;\n}\n\n/**\n * \\brief q = floor(a / b)"),
   ("      q->dp = a.dp / b.dp;\n      if (q->dp < 0) {\n        if (a.dp % b.dp != 0)\n          --q->dp;\n      } else if (q->dp == 0) {\n        if ((osl_int_pos(precision, a) && osl_int_neg(precision, b)) ||\n            (osl_int_neg(precision, a) && osl_int_pos(precision, b))) {\n          --q->dp;\n        }\n      }\n", "      q->dp = fd(a.dp, b.dp);\n"))
ok("n-frem-alt", ("      r->sp = (b.sp == -1) ? 0 : a.sp % b.sp;\n      if (r->sp != 0 && (r->sp < 0) != (b.sp < 0))\n        r->sp += b.sp;\n", "      if (b.sp == -1) {\n        r->sp = 0;\n        return;\n      }\n      r->sp = a.sp % b.sp;\n      if ((r->sp < 0 && b.sp > 0) || (b.sp < 0 && r->sp > 0))\n        r->sp = r->sp + b.sp;\n"))
bug("n-fdivr-mp", ("      mpz_fdiv_r(*r->mp, *a.mp, *b.mp);", "      mpz_tdiv_r(*r->mp, *a.mp, *b.mp);"), props=V)
bug("n-fdivqr-mp", ("      mpz_fdiv_qr(*q->mp, *r->mp, *a.mp, *b.mp);", "      mpz_fdiv_qr(*r->mp, *q->mp, *a.mp, *b.mp);"), props=V)
bug("n-mod", ("(b.dp < 0) ? mod->dp - b.dp : mod->dp + b.dp;", "mod->dp + b.dp;"), props=V)
bug("n-mod-mp", ("      mpz_mod(*mod->mp, *a.mp, *b.mp);", "      mpz_fdiv_r(*mod->mp, *a.mp, *b.mp);"), props=V)
ok("n-mod-alt", ("        mod->dp = (b.dp < 0) ? mod->dp - b.dp : mod->dp + b.dp;", "        mod->dp += (b.dp > 0) ? b.dp : -b.dp;"))
bug("n-gcd", ("      gcd->sp = labs(gcd->sp);\n", ""), props=V)
bug("n-llgcd", ("(b ? llgcd(b, (b == -1) ? 0 : a % b) : a)", "(b ? llgcd(a % b, (b == -1) ? 0 : b % a) : a)"), props=V)
ok("n-gcd-alt", ("      gcd->sp = labs(gcd->sp);", "      if (gcd->sp < 0)\n        gcd->sp = -gcd->sp;"))
ok("n-gcd-iter", ("  return (b ? llgcd(b, (b == -1) ? 0 : a % b) : a);", "  long long int x = a, y = b;\n  while (y) {\n    long long int t = x % y;\n    x = y;\n    y = t;\n  }\n  return x;"))
bug("n-lcm", ("    osl_int_div_exact(precision, &pa, pa, gcd);\n    osl_int_mul(precision, lcm, pa, pb);", "    osl_int_div_exact(precision, &pa, pa, gcd);\n    osl_int_mul(precision, lcm, pa, b);"), props=V)
bug("n-lcm2", ("    osl_int_div_exact(precision, &pa, pa, gcd);\n    osl_int_mul(precision, lcm, pa, pb);", "    osl_int_mul(precision, lcm, pa, pb);"), props=V)
ok("n-lcm-alt", ("    osl_int_div_exact(precision, &pa, pa, gcd);\n    osl_int_mul(precision, lcm, pa, pb);", "    osl_int_div_exact(precision, &pb, pb, gcd);\n    osl_int_mul(precision, lcm, pb, pa);"))
bug("n-oppose-mp", ("      mpz_neg(*variable->mp, *value.mp);", "      mpz_abs(*variable->mp, *value.mp);\n      if (mpz_sgn(*value.mp) > 0) mpz_neg(*variable->mp, *variable->mp);"), props=V)
ok("n-abs-alt", ("      variable->sp = (value.sp > 0) ? value.sp : -value.sp;", "      if (osl_int_neg(precision, value))\n        variable->sp = -value.sp;\n      else\n        variable->sp = value.sp;"))
ok("n-abs-lib", ("      variable->sp = (value.sp > 0) ? value.sp : -value.sp;", "      variable->sp = labs(value.sp);"))
bug("n-abs-bug", ("      variable->dp = (value.dp > 0) ? value.dp : -value.dp;", "      variable->dp = (value.dp > 1) ? value.dp : -value.dp;"), props=V)
bug("n-le", ("      return (val1.sp <= val2.sp);", "      return (val1.sp - val2.sp < 1) && val1.sp != val2.sp + 0;"), props=V)
bug("n-lt-int", ("      return (val1.sp < val2.sp);", "      return ((int)val1.sp < (int)val2.sp);"), props=V)
bug("n-ge-mp", ("      return (mpz_cmp(*val1.mp, *val2.mp) >= 0);", "      return (mpz_cmp(*val1.mp, *val2.mp) == 1 || mpz_cmp(*val1.mp, *val2.mp) == 0);"), props=V)
ok("n-le-alt", ("      return (val1.sp <= val2.sp);", "      return !(val2.sp < val1.sp);"))
ok("n-ge-alt", ("      return (mpz_cmp(*val1.mp, *val2.mp) >= 0);", "      return osl_int_lt(precision, val1, val2) ? 0 : 1;"))
bug("n-gt-mp", ("      return (mpz_cmp(*val1.mp, *val2.mp) > 0);", "      return (mpz_cmpabs(*val1.mp, *val2.mp) > 0);"), props=V)
bug("n-one-mp", ("      return (mpz_cmp_si(*value.mp, 1) == 0);", "      return (mpz_cmpabs_ui(*value.mp, 1) == 0);"), props=V)
bug("n-mone", ("      return (value.dp == (long long int)-1);", "      return (value.dp == (unsigned)-1);"), props=V)
bug("n-pos-mp", ("      return (mpz_sgn(*value.mp) > 0);", "      return (mpz_sgn(*value.mp) != 0);"), props=V)
bug("n-div", ("(val2.dp == -1 || (val1.dp % val2.dp) == 0);", "(val2.dp == -1 || (val2.dp % val1.dp) == 0);"), props=V)
bug("n-default", ("      mpz_mul(*variable->mp, *val1.mp, *val2.mp);\n      break;\n#endif\n\n    default:\n      OSL_error(\"unknown precision\");", "      mpz_mul(*variable->mp, *val1.mp, *val2.mp);\n      break;\n#endif\n\n    default:\n      break;"), props=V)
bug("n-clear", ("      mpz_clear(*variable->mp);\n      free(variable->mp);", "      mpz_clear(*variable->mp);"), props=V)
bug("n-clear2", ("      mpz_clear(*variable->mp);\n      free(variable->mp);", "      free(variable->mp);\n      mpz_clear(*variable->mp);"), props=V)
bug("n-txt", ("      sprintf(string, OSL_FMT_TXT_DP, value.dp);", "      sprintf(string, \"%d\", (int)value.dp);"), props=V)
bug("n-txt-mp", ("      str = mpz_get_str(0, 10, *value.mp);  // TODO: 10 -> #define\n      sprintf(string, OSL_FMT_TXT_MP, str);", "      str = mpz_get_str(0, 16, *value.mp);  // TODO: 10 -> #define\n      sprintf(string, OSL_FMT_TXT_MP, str);"), props=V)
bug("n-scan", ("      nb_read = sscanf(string, OSL_FMT_TXT_DP, &(i->dp));", "      nb_read = sscanf(string, \"%d\", (int*)&(i->dp));"), props=V)
bug("n-size10", ("    u /= 10;", "    u /= 8;"), props=V)
bug("n-inc", ("  osl_int_add_si(precision, variable, value, -1);", "  osl_int_add_si(precision, variable, *variable, -1);"), props=V)
ok("n-ifs", ("  switch (precision) {\n    case OSL_PRECISION_SP:\n      variable->sp = value.sp;\n      break;\n\n    case OSL_PRECISION_DP:\n      variable->dp = value.dp;\n      break;\n\n#ifdef OSL_GMP_IS_HERE\n    case OSL_PRECISION_MP:\n      mpz_set(*variable->mp, *value.mp);\n      break;\n#endif\n\n    default:\n      OSL_error(\"unknown precision\");\n  }",
   "  if (precision == OSL_PRECISION_MP) {\n    mpz_set(*variable->mp, *value.mp);\n    return;\n  }\n  if (precision != OSL_PRECISION_SP && precision != OSL_PRECISION_DP)\n    OSL_error(\"unknown precision\");\n  *variable = value;"))
bug("n-ifs-bug", ("  switch (precision) {\n    case OSL_PRECISION_SP:\n      variable->sp = value.sp;\n      break;\n\n    case OSL_PRECISION_DP:\n      variable->dp = value.dp;\n      break;\n\n#ifdef OSL_GMP_IS_HERE\n    case OSL_PRECISION_MP:\n      mpz_set(*variable->mp, *value.mp);\n      break;\n#endif\n\n    default:\n      OSL_error(\"unknown precision\");\n  }",
   "  if (precision == OSL_PRECISION_MP) {\n    mpz_set(*variable->mp, *value.mp);\n    return;\n  }\n  *variable = value;"), props=V)
# ---- overflow
bug("n-o-add", ("        if (LONG_MAX - val1.sp < val2.sp)", "        if (LONG_MAX - val1.sp + 1 < val2.sp)"), props=O)
bug("n-o-add-strict", ("        if (LONG_MAX - val1.sp < val2.sp)", "        if (LONG_MAX - val1.sp <= val2.sp)"), props=O)
bug("n-o-add-int", ("        if (LLONG_MAX - val1.dp < val2.dp)", "        if (INT_MAX - val1.dp < val2.dp)"), props=O)
bug("n-o-add-after", ("        if (LLONG_MAX - val1.dp < val2.dp)\n          OSL_overflow(\"osl_int_add overflow\");", "        if (val1.dp + val2.dp < 0)\n          OSL_overflow(\"osl_int_add overflow\");"), props=O)
bug("n-o-add-pos", ("      if (osl_int_pos(precision, val1) && osl_int_pos(precision, val2)) {\n        if (LONG_MAX", "      if (val1.sp > 1 && osl_int_pos(precision, val2)) {\n        if (LONG_MAX"), props=O)
ok("n-o-add-alt", ("        if (LONG_MAX - val1.sp < val2.sp)", "        if (val1.sp > LONG_MAX - val2.sp)"))
ok("n-o-add-builtin", ("      variable->sp = val1.sp + val2.sp;", "      if (__builtin_add_overflow(val1.sp, val2.sp, &variable->sp))\n        OSL_overflow(\"osl_int_add overflow\");"),
   ("#ifndef NDEBUG\n      if (osl_int_pos(precision, val1) && osl_int_pos(precision, val2)) {\n        if (LONG_MAX - val1.sp < val2.sp)\n          OSL_overflow(\"osl_int_add overflow\");\n      } else if (osl_int_neg(precision, val1) && osl_int_neg(precision, val2)) {\n        if (val1.sp < LONG_MIN - val2.sp)\n          OSL_overflow(\"osl_int_add overflow\");\n      }\n#endif\n", ""), props=O)
ok("n-o-add-direct", ("      if (osl_int_pos(precision, val1) && osl_int_pos(precision, val2)) {\n        if (LONG_MAX - val1.sp < val2.sp)\n          OSL_overflow(\"osl_int_add overflow\");\n      } else if (osl_int_neg(precision, val1) && osl_int_neg(precision, val2)) {\n        if (val1.sp < LONG_MIN - val2.sp)\n          OSL_overflow(\"osl_int_add overflow\");\n      }\n",
   "      if ((val2.sp > 0 && val1.sp > LONG_MAX - val2.sp) ||\n          (val2.sp < 0 && val1.sp < LONG_MIN - val2.sp))\n        OSL_overflow(\"osl_int_add overflow\");\n"))
bug("n-o-mulsi", ("      if (osl_int_mul_overflows(value.dp, i, LLONG_MIN, LLONG_MAX))", "      if (i > 0 && osl_int_mul_overflows(value.dp, i, LLONG_MIN, LLONG_MAX))"), props=O)
bug("n-o-mulh", ("  return (b > 0) ? a < min / b : a < max / b;", "  return (b > 0) ? a < min / b : a < min / b;"), props=O)
bug("n-o-mulh2", ("    return (b > 0) ? a > max / b : b < min / a;", "    return (b > 0) ? a >= max / b : b < min / a;"), props=O)
bug("n-o-getsi", ("      if (value.dp > (long long int)(INT_MAX))", "      if (value.dp > (long long int)(UINT_MAX))"), props=O)
bug("n-o-getmp", ("      if (mpz_fits_sint_p(*value.mp) == 0)", "      if (mpz_fits_slong_p(*value.mp) == 0)"), props=O)
bug("n-o-setprec", ("long long int v = osl_int_get_long_long(precision, *i);", "long long int v = osl_int_get_si(precision, *i);"), props=O)
ok("n-o-helper", ("void osl_int_add(const int precision,", "static int adds(long a, long b) {\n  if (b >= 0)\n    return a <= LONG_MAX - b;\n  return a >= LONG_MIN - b;\n}\nvoid osl_int_add(const int precision,"),
   ("      if (osl_int_pos(precision, val1) && osl_int_pos(precision, val2)) {\n        if (LONG_MAX - val1.sp < val2.sp)\n          OSL_overflow(\"osl_int_add overflow\");\n      } else if (osl_int_neg(precision, val1) && osl_int_neg(precision, val2)) {\n        if (val1.sp < LONG_MIN - val2.sp)\n          OSL_overflow(\"osl_int_add overflow\");\n      }\n", "      if (!adds(val1.sp, val2.sp))\n        OSL_overflow(\"osl_int_add overflow\");\n"))

# ---- dividing by -1
def rev(name, a, b, **k): bug(name, (a, b), **k)
rev("n-d-exact", "      if (a.sp < -LONG_MAX && b.sp == -1)\n        OSL_overflow(\"osl_int_div_exact overflow\");\n", "", props=O)
rev("n-d-fq", "      if (a.dp < -LLONG_MAX && b.dp == -1)\n        OSL_overflow(\"osl_int_floor_div_q overflow\");\n", "", props=O)
rev("n-d-fq1", "      if (a.dp < -LLONG_MAX && b.dp == -1)\n        OSL_overflow(\"osl_int_floor_div_q overflow\");\n", "      if (a.dp <= -LLONG_MAX && b.dp == -1)\n        OSL_overflow(\"osl_int_floor_div_q overflow\");\n", props=O)
rev("n-d-fr", "      r->sp = (b.sp == -1) ? 0 : a.sp % b.sp;\n", "      r->sp = a.sp % b.sp;\n", props=O)
rev("n-d-mod", "      mod->sp = (b.sp == -1) ? 0 : a.sp % b.sp;\n", "      mod->sp = a.sp % b.sp;\n", props=O)
rev("n-d-divi", "      return (val2.sp == -1 || (val1.sp % val2.sp) == 0);", "      return ((val1.sp % val2.sp) == 0);", props=O)
rev("n-d-gcd", "#ifndef NDEBUG\n      if (gcd->sp < -LONG_MAX)\n        OSL_overflow(\"osl_int_gcd overflow\");\n#endif\n", "", props=O)
rev("n-d-gcd2", "llgcd(b, (b == -1) ? 0 : a % b)", "llgcd(b, a % b)", props=O)
rev("n-d-fr2", "      r->sp = (b.sp == -1) ? 0 : a.sp % b.sp;\n      if (r->sp != 0 && (r->sp < 0) != (b.sp < 0))\n        r->sp += b.sp;\n", "      r->sp = (b.sp == -1) ? 0 : a.sp % b.sp;\n      if (r->sp < 0)\n        r->sp += labs(b.sp);\n", props=V)
ok("n-d-one", ("      mod->sp = (b.sp == -1) ? 0 : a.sp % b.sp;\n", "      mod->sp = 0;\n      if (b.sp != 1 && b.sp != -1)\n        mod->sp = a.sp % b.sp;\n"))
ok("n-setprec-early", ("  if (i != NULL && precision != new_precision) {\n    long long int v = osl_int_get_long_long(precision, *i);\n    osl_int_clear(precision, i);\n    osl_int_init_set_long_long(new_precision, i, v);\n  }\n", "  long long int v;\n\n  if (i == NULL)\n    return;\n  if (precision == new_precision)\n    return;\n  v = osl_int_get_long_long(precision, *i);\n  osl_int_clear(precision, i);\n  osl_int_init(new_precision, i);\n  osl_int_set_long_long(new_precision, i, v);\n"))
ok("n-lcm-early", ("  if (osl_int_zero(precision, gcd)) {\n    osl_int_set_si(precision, lcm, 0);\n  } else {\n    osl_int_div_exact(precision, &pa, pa, gcd);\n    osl_int_mul(precision, lcm, pa, pb);\n  }\n", "  if (!osl_int_zero(precision, gcd)) {\n    osl_int_t t;\n    osl_int_init(precision, &t);\n    osl_int_div_exact(precision, &t, pa, gcd);\n    osl_int_mul(precision, lcm, t, pb);\n    osl_int_clear(precision, &t);\n  } else {\n    osl_int_set_si(precision, lcm, 0);\n  }\n"))
ok("n-fdiv-tern", ("      if (q->dp < 0) {\n        if (a.dp % b.dp != 0)\n          --q->dp;\n      } else if (q->dp == 0) {\n        if ((osl_int_pos(precision, a) && osl_int_neg(precision, b)) ||\n            (osl_int_neg(precision, a) && osl_int_pos(precision, b))) {\n          --q->dp;\n        }\n      }\n", "      q->dp = (((a.dp ^ b.dp) < 0) && q->dp * b.dp != a.dp) ? q->dp - 1 : q->dp;\n"))
ok("n-mulh-flat", ("  if (a == 0 || b == 0)\n    return 0;\n  if (a > 0)\n    return (b > 0) ? a > max / b : b < min / a;\n  return (b > 0) ? a < min / b : a < max / b;\n", "  if (a > 0 && b > 0)\n    return a > max / b;\n  if (a > 0 && b < 0)\n    return b < min / a;\n  if (a < 0 && b > 0)\n    return a < min / b;\n  if (a < 0 && b < 0)\n    return b < max / a;\n  return 0;\n"))
ok("n-sub-nest", ("      if (val2.sp < 0 ? val1.sp > LONG_MAX + val2.sp\n                      : val1.sp < LONG_MIN + val2.sp)\n        OSL_overflow(\"osl_int_sub overflow\");\n", "      if (val2.sp < 0) {\n        if (val1.sp - LONG_MAX > val2.sp)\n          OSL_overflow(\"osl_int_sub overflow\");\n      } else if (val1.sp < LONG_MIN + val2.sp) {\n        OSL_overflow(\"osl_int_sub overflow\");\n      }\n")) if 0 else None
ok("n-size-for", ("  while (u) {\n    u /= 10;\n    ++n;\n  }\n", "  for (; u != 0; n++)\n    u = u / 10;\n"))
ok("n-get-helper", ("int osl_int_get_si(const int precision, const osl_int_t value) {", "static int fits(long long v) { return v >= INT_MIN && v <= INT_MAX; }\nint osl_int_get_si(const int precision, const osl_int_t value) {"), ("      if (value.sp > (long int)(INT_MAX))\n        OSL_overflow(\"osl_int_get_si overflow\");\n      if (value.sp < (long int)(INT_MIN))\n        OSL_overflow(\"osl_int_get_si overflow\");\n", "      if (!fits(value.sp))\n        OSL_overflow(\"osl_int_get_si overflow\");\n"))
ok("n-abs-order", ("      variable->sp = (value.sp > 0) ? value.sp : -value.sp;", "      if (value.sp >= 0) {\n        variable->sp = value.sp;\n      } else {\n        osl_int_oppose(precision, variable, value);\n      }"))
ok("n-default-end", ("      mpz_gcd(*gcd->mp, *a.mp, *b.mp);\n      return;\n#endif\n\n    default:\n      OSL_error(\"unknown precision\");\n  }\n", "      mpz_gcd(*gcd->mp, *a.mp, *b.mp);\n      return;\n#endif\n  }\n  OSL_error(\"unknown precision\");\n"))
ok("n-cmp-val", ("      return (val1.sp <= val2.sp);", "      int r = (val1.sp > val2.sp) - (val1.sp < val2.sp);\n      return r <= 0;"), ("int osl_int_le(const int precision, const osl_int_t val1,\n               const osl_int_t val2) {\n  switch (precision) {\n    case OSL_PRECISION_SP:\n", "int osl_int_le(const int precision, const osl_int_t val1,\n               const osl_int_t val2) {\n  switch (precision) {\n    case OSL_PRECISION_SP:;\n"))
