/* Runs one call per child process and reports how the child ended.
 * argv[1]: parameter file, argv[2]: seed, argv[3]: "legal", "mixed" or "messages". */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include <sys/wait.h>
#include <pbc.h>
#include <pbc_fp.h>
#include <pbc_fieldquadratic.h>
#include <pbc_poly.h>
#include <pbc_curve.h>
#include <pbc_z.h>
#include <pbc_ternary_extension_field.h>

#define NS 10
static pairing_t P;
static field_t F, FQ, R, Z, F2, T3;
static field_ptr S[NS];
static const char *name[NS] = {"G1", "G2", "GT", "Zr", "Fp", "Fq", "poly", "Z", "Fp2", "F3m"};
enum { SET, ADD, SUB, MUL, DIV, CUBIC, DOUBLE, HALVE, SQUARE, NEG, INVERT, SQRT, CMP, MULMPZ, MULSI, MULZN, POWMPZ, POWZN, MDOUBLE, MADD,
  APPLY, EPAIR, PROD, NOPS };
static const char *opname[] = {"set", "add", "sub", "mul", "div", "cubic", "double", "halve", "square", "neg", "invert", "sqrt", "cmp",
  "mul_mpz", "mul_si", "mul_zn", "pow_mpz", "pow_zn", "multi_double", "multi_add", "pairing_apply", "element_pairing", "element_prod_pairing"};
/* number of element arguments that must share a structure; pairings have their own */
static int arity(int op) {
  switch (op) { case ADD: case SUB: case MUL: case DIV: case MADD: case APPLY: case EPAIR: case PROD: return 3; default: return 2; }
}
/* operations the structure offers */
static int curves = 1;   /* G1 and G2 are curves with batch operations (not type I) */
static int offers(int s, int op) {
  int group = s < 2, ring = s == 6 || s == 7;
  if (op >= APPLY) return s == 0;
  if (s == 9) return op == SET || op == ADD || op == SUB || op == MUL || op == CUBIC || op == NEG || op == INVERT || op == CMP;
  if (op == CUBIC) return 0;   /* only characteristic 3 */
  if (op == HALVE) return !group && !ring && s != 2;
  if (op == SQRT) return s == 3 || s == 4 || s == 8;
  if (op == DIV || op == INVERT) return !ring;
  if (op == MDOUBLE || op == MADD) return group && curves;
  if (op == MULZN || op == POWZN) return s != 6 && s != 7;
  return 1;
}
static element_t pool[3][NS], a[3], zn;
static mpz_t z;
static long result;
static void call(int op) {
  switch (op) {
    case SET: element_set(a[0], a[1]); break;
    case ADD: element_add(a[0], a[1], a[2]); break;
    case SUB: element_sub(a[0], a[1], a[2]); break;
    case MUL: element_mul(a[0], a[1], a[2]); break;
    case DIV: element_div(a[0], a[1], a[2]); break;
    case CUBIC: element_cubic(a[0], a[1]); break;
    case DOUBLE: element_double(a[0], a[1]); break;
    case HALVE: element_halve(a[0], a[1]); break;
    case SQUARE: element_square(a[0], a[1]); break;
    case NEG: element_neg(a[0], a[1]); break;
    case INVERT: element_invert(a[0], a[1]); break;
    case SQRT: element_sqrt(a[0], a[1]); break;
    case CMP: result = element_cmp(a[0], a[1]) != 0; break;
    case MULMPZ: element_mul_mpz(a[0], a[1], z); break;
    case MULSI: element_mul_si(a[0], a[1], -7); break;
    case MULZN: element_mul_zn(a[0], a[1], zn); break;
    case POWMPZ: element_pow_mpz(a[0], a[1], z); break;
    case POWZN: element_pow_zn(a[0], a[1], zn); break;
    case MDOUBLE: element_multi_double(&a[0], &a[1], 1); break;
    case MADD: element_multi_add(&a[0], &a[1], &a[2], 1); break;
    case APPLY: pairing_apply(a[0], a[1], a[2], P); break;
    case EPAIR: element_pairing(a[0], a[1], a[2]); break;
    case PROD: element_prod_pairing(a[0], &a[1], &a[2], 1); break;
  }
}
static void fill(int i, int s) {
  element_ptr a[3]; a[i] = pool[i][s];
  element_init(a[i], S[s]);
  if (s == 6) { poly_set_coeff1(a[i], i + 1); poly_set_coeff1(a[i], 0); }
  else if (s == 7) element_set_si(a[i], 1000 + 37 * i);
  else element_random(a[i]);
}
static void make(int i, int s, int op) {
  *a[i] = *pool[i][s];
  if (op == SQRT && (s == 3 || s == 4 || s == 8)) element_square(a[i], a[i]);
}
static void child(int op, const int *s, int quiet) {
  int i;
  if (quiet) pbc_set_msg_to_stderr(0);
  for (i = 0; i < 3; i++) make(i, s[i], op);
  element_init(zn, P->Zr); element_set_si(zn, 12345);
  mpz_init_set_si(z, op == POWMPZ && (s[1] == 6 || s[1] == 7) ? 5 : 54321);
  call(op);
  element_printf("%ld %B\n", result, a[0]);
  fflush(stdout);
  _exit(0);
}
/* runs a child; prints: tag status signal stderr-bytes | first line of stderr | stdout */
static void run(const char *tag, int op, const int *s, int quiet, void (*f)(int), int arg) {
  int eo[2], oo[2], st; char eb[4096], ob[65536]; size_t en = 0, on = 0; ssize_t k;
  if (pipe(eo) || pipe(oo)) exit(9);
  fflush(stdout);
  pid_t p = fork();
  if (!p) {
    dup2(eo[1], 2); dup2(oo[1], 1);
    close(eo[0]); close(oo[0]);
    signal(SIGABRT, SIG_DFL);
    alarm(60);
    if (f) { f(arg); fflush(stdout); _exit(0); }
    child(op, s, quiet);
  }
  close(eo[1]); close(oo[1]);
  while ((k = read(eo[0], eb + en, sizeof(eb) - 1 - en)) > 0) en += k;
  while ((k = read(oo[0], ob + on, sizeof(ob) - 1 - on)) > 0) on += k;
  eb[en] = ob[on] = 0;
  close(eo[0]); close(oo[0]);
  waitpid(p, &st, 0);
  for (char *c = eb; *c; c++) if (*c == '\n') *c = '~';
  for (char *c = ob; *c; c++) if (*c == '\n') *c = '~';
  printf("%s|%d|%d|%s|%s\n", tag, WIFEXITED(st) ? WEXITSTATUS(st) : -1, WIFSIGNALED(st) ? WTERMSIG(st) : 0, eb, ob);
}
static void msg(int which) {
  char big[3000]; memset(big, 'x', sizeof(big) - 1); big[sizeof(big) - 1] = 0;
  if (which & 8) pbc_set_msg_to_stderr(0);
  if (which & 16) { pbc_set_msg_to_stderr(0); pbc_set_msg_to_stderr(1); }
  switch (which & 7) {
    case 0: pbc_die("%s %d", "stop", 42); break;
    case 1: pbc_info("%s %d", "note", 42); break;
    case 2: pbc_warn("%s %d", "note", 42); break;
    case 3: pbc_error("%s %d", "note", 42); break;
    case 4: pbc_warn("%s", big); break;
    case 5: pbc_die("%s", big); break;
  }
}
int main(int argc, char **argv) {
  char buf[16384]; FILE *f = fopen(argv[1], "r"); size_t n = fread(buf, 1, sizeof(buf) - 1, f); fclose(f); (void)argc;
  mpz_t p; mpz_init(p);
  pbc_random_set_deterministic((unsigned)atoi(argv[2]));
  if (pairing_init_set_buf(P, buf, n)) return 8;
  curves = strncmp(buf, "type i", 6) != 0;
  mpz_set_str(p, "340282366920938463463374607431768211297", 10);   /* 2^128 - 159 */
  field_init_fp(F, p); field_init_quadratic(FQ, F); field_init_poly(R, F); field_init_z(Z);
  mpz_set_str(p, "170141183460469231731687303715884105727", 10);   /* 2^127 - 1 */
  field_init_fp(F2, p); field_init_gf3m(T3, 17, 1);
  S[0] = P->G1; S[1] = P->G2; S[2] = P->GT; S[3] = P->Zr; S[4] = F; S[5] = FQ; S[6] = R; S[7] = Z; S[8] = F2; S[9] = T3;
  if (!strcmp(argv[3], "messages")) {
    for (int w = 0; w < 32; w++) if ((w & 7) < 6 && (w & 24) != 24) { char t[40]; sprintf(t, "msg %d", w); run(t, 0, 0, 0, msg, w); }
    return 0;
  }
  for (int i = 0; i < 3; i++) for (int s = 0; s < NS; s++) fill(i, s);
  int mixed = !strcmp(argv[3], "mixed");
  for (int op = 0; op < NOPS; op++) for (int s = 0; s < NS; s++) {
    if (!offers(s, op)) continue;
    char tag[200];
    int own[3] = {s, s, s};
    if (op >= APPLY) { own[0] = 2; own[1] = 0; own[2] = 1; }
    if (!mixed) {
      sprintf(tag, "%s %s", opname[op], op >= APPLY ? "pairing" : name[s]);
      run(tag, op, own, 0, 0, 0);
      continue;
    }
    for (int pos = 0; pos < arity(op); pos++) for (int o = 0; o < NS; o++) {
      int t[3] = {own[0], own[1], own[2]};
      if (S[o] == S[own[pos]]) continue;
      t[pos] = o;
      sprintf(tag, "%s %s pos%d %s", opname[op], op >= APPLY ? "pairing" : name[s], pos, name[o]);
      run(tag, op, t, 0, 0, 0);
      if ((op + s + o) % 7 == 0) { strcat(tag, " quiet"); run(tag, op, t, 1, 0, 0); }
    }
  }
  return 0;
}
