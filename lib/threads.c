// Threads running scripts over objects of their own (or over a shared pairing,
// shared tables and shared operands they only read).  Each script's outcome is
// recorded step by step; the same scripts are run one at a time afterwards and
// the records compared.  usage:
//   threads MODE SEED NTHREADS STEPS ROUNDS [FAM FILE]...
// MODE: own, shared, fields, random
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <pthread.h>
#include <sched.h>
#include "pbc.h"
#include "pbc_fp.h"
#include "pbc_poly.h"
#include "pbc_fieldquadratic.h"
#include "pbc_ternary_extension_field.h"
#include "pbc_z.h"
#include "pbc_multiz.h"
#include "pbc_singular.h"
#include "misc/darray.h"
#include "misc/symtab.h"

#define MAXT 16
#define MAXS 4000
typedef unsigned long long u64;
struct ctx { u64 s; u64 rs; int id, conc, steps, n; u64 rec[MAXS]; const char *op[MAXS]; char fam; const char *text; };
static __thread struct ctx *me;
static int nthreads, mode, rounds;
static pthread_barrier_t bar;
static pairing_t shp;
static element_t she[4][3];
static element_pp_t shepp[4];
static pairing_pp_t shppp;
static volatile int sink;

static u64 step(u64 *x) { *x = *x * 6364136223846793005ULL + 1442695040888963407ULL; return *x >> 20; }
static unsigned rnd(unsigned n) { return (unsigned)(step(&me->s) % n); }
// the random source: a user function whose state belongs to the thread
static void source(mpz_t z, mpz_t limit, void *data) {
  size_t n = (mpz_sizeinbase(limit, 2) + 7) / 8 + 4, i;
  unsigned char b[2000];
  (void)data;
  if (n > sizeof(b)) n = sizeof(b);
  for (i = 0; i < n; i++) b[i] = (unsigned char)step(&me->rs);
  mpz_t t;
  mpz_init(t);
  mpz_import(t, n, 1, 1, 0, 0, b);
  mpz_mod(t, t, limit);
  mpz_set(z, t);
  mpz_clear(t);
}
static void note(const char *op, u64 h) {
  if (me->n < MAXS) { me->rec[me->n] = h; me->op[me->n] = op; }
  me->n++;
  if (me->conc && !(h & 3)) sched_yield();
}
static u64 fnv(const void *p, size_t n, u64 h) { const unsigned char *c = p; while (n--) h = (h ^ *c++) * 1099511628211ULL; return h; }
static u64 digest(element_ptr e) {
  char b[20000];
  int n = element_snprint(b, sizeof(b), e);
  return fnv(b, n < (int)sizeof(b) ? (size_t)n : sizeof(b) - 1, 14695981039346656037ULL ^ (u64)n);
}
#define SEE(op, e) note(op, digest(e))

static void init_group(element_ptr e, int g, pairing_ptr p) {
  if (g == 0) element_init_G1(e, p);
  else if (g == 1) element_init_G2(e, p);
  else if (g == 2) element_init_GT(e, p);
  else element_init_Zr(e, p);
}

// on a toy curve the chain of x-coordinates may never meet a point
#define HASHABLE(p) ((p)->G1->fixed_length_in_bytes >= 14)

// what a stream gets, and what is read back
static u64 printed(element_ptr e, int base, int how) {
  static const size_t room = 40000;
  char *b = calloc(1, room);
  FILE *f = fmemopen(b, room - 1, "w");
  long k = how == 0 ? (long)element_out_str(f, base, e) : how == 1 ? element_fprintf(f, "<%B %d|%s>", e, 7, "text") : 0;
  if (how == 2) field_out_info(f, e->field);
  fclose(f);
  u64 h = how == 2 ? strlen(b) > 0 : fnv(b, strlen(b), (u64)k);   // descriptions name addresses
  free(b);
  return h;
}
static u64 items(element_ptr e, int depth) {
  u64 h = (u64)element_item_count(e);
  int i, n = (int)h;
  if (depth < 4) for (i = 0; i < n; i++) h = h * 131 + items(element_item(e, i), depth + 1);
  else h = h * 7 + digest(e);
  return h;
}

static void pairing_script(void) {
  struct ctx *c = me;
  pairing_t own;
  pairing_ptr p = own;
  int shared = mode == 1, i, j;
  if (shared) p = shp;
  else if (pairing_init_set_str(own, c->text)) { note("init failed", 1); return; }
  element_t e[4][3];
  for (i = 0; i < 4; i++) for (j = 0; j < 3; j++) { init_group(e[i][j], i, p); element_random(e[i][j]); SEE("random", e[i][j]); }
  mpz_t z, w;
  mpz_init(z); mpz_init(w);
  unsigned char *buf = malloc(20000);
  for (i = 0; i < c->steps; i++) {
    int g = (int)rnd(4);
    element_ptr x = e[0][rnd(3)], y = e[1][rnd(3)], t = e[2][rnd(3)], v = e[3][rnd(3)];
    element_ptr a = e[g][rnd(3)], b = e[g][rnd(3)], d = e[g][rnd(3)];
    if (shared) {   // operands everyone reads
      if (!rnd(3)) b = she[g][rnd(3)];
      if (!rnd(3)) d = she[g][rnd(3)];
      if (!rnd(3)) x = she[0][rnd(3)];
      if (!rnd(3)) y = she[1][rnd(3)];
      if (!rnd(3)) v = she[3][rnd(3)];
    }
    int enc = c->fam != 'I' || g == 3;
    pbc_mpz_randomb(z, 1 + rnd(90));
    pbc_mpz_randomb(w, 1 + rnd(90));
    switch (rnd(36)) {
      case 30: element_mul_mpz(a, b, z); SEE("mul_mpz", a); element_mul_si(a, a, (long)rnd(99) - 50); SEE("mul_si", a); break;
      case 31: note("out_str", printed(b, 10, 0)); note("fprintf", printed(d, 10, 1)); break;
      case 32: if (c->fam != 'I' || g == 3) note("items", items(b, 0)); if (c->fam != 'I') note("out_info", printed(b, 10, 2)); break;
      case 33: if (g < 2 && enc && !element_is0(b)) { int k = element_to_bytes_x_only(buf, b); note("x only", fnv(buf, (size_t)k, (u64)k)); element_from_bytes_x_only(a, buf); SEE("from_x", a); note("coordinates", digest(element_x(b)) ^ 3 * digest(element_y(b))); } break;
      case 34: mpz_neg(z, z); if (g < 3 || !element_is0(b)) { element_pow_mpz(a, b, z); SEE("negative power", a); } break;
      case 35: if (g == 3) { element_set_mpz(a, z); element_to_mpz(w, a); note("to_mpz", mpz_get_ui(w)); note("sgn", (u64)(2 + element_sgn(a))); element_mul_zn(a, a, v); SEE("mul_zn", a); } break;
      case 0: element_random(a); SEE("random", a); break;
      case 1: element_add(a, b, d); SEE("add", a); break;
      case 2: element_sub(a, b, d); SEE("sub", a); break;
      case 3: element_mul(a, b, d); SEE("mul", a); break;
      case 4: element_neg(a, b); SEE("neg", a); break;
      case 5: element_square(a, b); SEE("square", a); break;
      case 6: if (g < 3 || !element_is0(b)) { element_invert(a, b); SEE("invert", a); } break;
      case 7: element_pow_mpz(a, b, z); SEE("pow_mpz", a); break;
      case 8: element_pow_zn(a, b, v); SEE("pow_zn", a); break;
      case 9: element_double(a, b); SEE("double", a); break;
      case 10: case 11: case 12: pairing_apply(t, x, y, p); SEE("pairing", t); break;
      case 13: case 14: { pairing_pp_t pp; pairing_pp_init(pp, x, p); pairing_pp_apply(t, y, pp); SEE("pairing_pp", t); pairing_pp_clear(pp); break; }
      case 15: { element_pp_t pp; element_pp_init(pp, b); element_pp_pow(a, z, pp); SEE("pp_pow", a); element_pp_clear(pp); break; }
      case 16: if (enc) { int k = element_to_bytes(buf, b); note("to_bytes", fnv(buf, (size_t)k, (u64)k)); element_from_bytes(a, buf); SEE("from_bytes", a); } break;
      case 17: if (g < 2 && enc) { int k = element_to_bytes_compressed(buf, b); note("compressed", fnv(buf, (size_t)k, (u64)k)); element_from_bytes_compressed(a, buf); SEE("from_compressed", a); } break;
      case 18: if (g != 2 && enc && (g == 3 || HASHABLE(p))) { for (j = 0; j < 20; j++) buf[j] = (unsigned char)rnd(256); element_from_hash(a, buf, 20); SEE("hash", a); } break;
      case 19: note("tests", (u64)(element_cmp(b, d) != 0) + 2 * (u64)element_is0(b) + 4 * (u64)element_is1(d)); break;
      case 20: element_pow2_mpz(a, b, z, d, w); SEE("pow2", a); break;
      case 21: element_pow3_mpz(a, b, z, d, w, e[g][2], z); SEE("pow3", a); break;
      case 22: if (g == 3 && !element_is0(d)) { element_div(a, b, d); SEE("div", a); } break;
      case 23: if (g == 3) { element_square(a, b); note("is_sqr", (u64)element_is_sqr(a)); element_sqrt(a, a); element_square(a, a); SEE("sqrt", a); element_halve(a, b); SEE("halve", a); } break;
      case 24: if (g < 2 && c->fam != 'I') { element_t o[3], q[3]; for (j = 0; j < 3; j++) { element_init_same_as(o[j], a); element_init_same_as(q[j], a); element_set(q[j], j == 1 ? b : d); }
          element_multi_double(o, q, 3); SEE("multi_double", o[1]); element_multi_add(o, o, q, 3); SEE("multi_add", o[2]);
          for (j = 0; j < 3; j++) { element_clear(o[j]); element_clear(q[j]); } } break;
      case 25: if (c->fam != 'I') { element_t in1[2], in2[2]; for (j = 0; j < 2; j++) { element_init_G1(in1[j], p); element_init_G2(in2[j], p); element_set(in1[j], e[0][j]); element_set(in2[j], e[1][j]); }
          element_prod_pairing(t, in1, in2, 2); SEE("prod", t);
          for (j = 0; j < 2; j++) { element_clear(in1[j]); element_clear(in2[j]); } } break;
      case 26: if (enc && g != 1) { char *s = (char *)buf; element_snprint(s, 20000, b); note("set_str", (u64)element_set_str(a, s, 10)); SEE("set_str value", a); } break;
      case 27: if (!shared && strchr("A1DEG", c->fam)) { static char *const m[] = {"miller", "miller-affine", "shipsey-stange"}; pairing_option_set(p, "method", m[rnd(3)]); pairing_apply(t, x, y, p); SEE("method", t); } break;
      case 28: note("coddh", (u64)is_almost_coddh(e[0][0], e[0][1], e[1][0], e[1][1], p)); break;
      case 29:
        if (shared) { element_pp_pow(a, z, shepp[g]); SEE("shared table", a); pairing_pp_apply(t, y, shppp); SEE("shared pairing table", t); }
        else {
          pbc_param_t par;
          if (pbc_param_init_set_str(par, c->text)) note("param", 0);
          else {
            FILE *f = fmemopen(buf, 20000, "w");
            pbc_param_out_str(f, par);
            long k = ftell(f);
            fclose(f);
            note("param", fnv(buf, (size_t)k, (u64)k));
            pairing_t q2;
            pairing_init_pbc_param(q2, par);
            pbc_param_clear(par);
            element_t u;
            element_init_Zr(u, q2);
            element_random(u);
            SEE("second pairing", u);
            element_clear(u);
            pairing_clear(q2);
          }
        }
        break;
    }
  }
  for (i = 0; i < 4; i++) for (j = 0; j < 3; j++) { SEE("final", e[i][j]); element_clear(e[i][j]); }
  mpz_clear(z); mpz_clear(w);
  free(buf);
  if (!shared) pairing_clear(own);
}

static void exercise(field_ptr f, int steps, const char *tag, int ring) {   // ring: 1 inverses by retry, 2 none
  element_t a[3];
  mpz_t z;
  int i;
  mpz_init(z);
  for (i = 0; i < 3; i++) { element_init(a[i], f); if (ring < 3) element_random(a[i]); else element_set_si(a[i], (long)rnd(1000) - 500); }
  for (i = 0; i < steps; i++) {
    element_ptr x = a[rnd(3)], y = a[rnd(3)], w = a[rnd(3)];
    int g3 = tag[0] == 'g', plain = !g3 && ring == 0 && strcmp(tag, "curve");   // plain: a field of odd characteristic
    switch (rnd(22)) {
      case 10: if (!g3 && ring < 3) { pbc_mpz_randomb(z, 1 + rnd(80)); element_mul_mpz(x, y, z); } break;
      case 11: if (!g3 && ring < 3) element_mul_si(x, y, (long)rnd(2000) - 1000); break;
      case 12: if (plain) element_halve(x, y); break;
      case 13: note("out_str", printed(y, 10, 0)); break;
      case 14: note("fprintf", printed(y, 10, 1)); break;
      case 15: if (!g3) note("out_info", printed(y, 10, 2)); break;
      case 16: if (!g3) note("items", items(y, 0)); break;
      case 17: if (!g3 && ring < 3) { unsigned char *b = malloc(20000); int k = element_to_bytes(b, y); note("field bytes", fnv(b, (size_t)k, (u64)k + (u64)element_length_in_bytes(y))); element_from_bytes(x, b); free(b); } break;
      case 18: if (!g3 && ring != 2) { char *b = malloc(20000); element_snprint(b, 20000, y); note("field text", (u64)element_set_str(x, b, 10)); free(b); } break;
      case 19: if (plain) { element_square(x, y); note("is_sqr", (u64)element_is_sqr(x)); element_sqrt(x, x); element_square(x, x); } break;
      case 20: if (plain) element_from_hash(x, "other bytes", 11); break;
      case 21: if (plain) { element_set_si(x, (long)rnd(3000) - 1500); element_to_mpz(z, x); note("to_mpz", mpz_get_ui(z)); note("sgn", (u64)(2 + element_sgn(x))); element_set_mpz(x, z); } break;
      case 0: element_add(x, y, w); break;
      case 1: element_sub(x, y, w); break;
      case 2: if (ring < 2 || rnd(3) == 0) element_mul(x, y, w); break;
      case 3: element_neg(x, y); break;
      case 4: if (ring < 2) element_square(x, y); break;
      case 5: if (ring < 2 && !element_is0(y)) element_invert(x, y); break;
      case 6: if (ring < 2) { pbc_mpz_randomb(z, 1 + rnd(120)); element_pow_mpz(x, y, z); } break;
      case 7: element_double(x, y); break;
      case 8: if (ring < 3) element_random(x); break;
      case 9: element_set(x, y); break;
    }
    note(tag, digest(x) ^ (u64)element_is0(y) << 1 ^ (u64)(element_cmp(x, w) != 0));
  }
  for (i = 0; i < 3; i++) element_clear(a[i]);
  mpz_clear(z);
}

static int divides(mpz_t p, unsigned int k, void *data) { u64 *h = data; *h = *h * 31 + mpz_get_ui(p) + k; return 0; }
static void visit(void *v, void *data) { u64 *h = data; *h = *h * 31 + (u64)(uintptr_t)v; }
static int found(pbc_cm_t cm, void *data) { u64 *h = data; *h = *h * 31 + mpz_get_ui(cm->q) + mpz_get_ui(cm->r); return 0; }
static void generated(pbc_param_ptr par, const char *tag) {
  static const int room = 20000;
  char *b = calloc(1, (size_t)room);
  FILE *f = fmemopen(b, (size_t)room - 1, "w");
  pbc_param_out_str(f, par);
  fclose(f);
  note(tag, fnv(b, strlen(b), 5));
  free(b);
  pbc_param_clear(par);
}

static void field_script(void) {
  mpz_t p, q;
  int i, k, n = me->steps;
  mpz_init(p); mpz_init(q);
  for (k = 0; k < (n < 10 ? 1 : 6); k++) {
    field_t F, E;
    pbc_mpz_randomb(p, 70 + rnd(200));
    mpz_setbit(p, 69 + rnd(20));
    mpz_nextprime(p, p);
    int rep = (int)rnd(6);
    switch (rep) {
      case 0: field_init_naive_fp(F, p); break;
      case 1: field_init_fast_fp(F, p); break;
      case 2: field_init_faster_fp(F, p); break;
      case 3: field_init_mont_fp(F, p); break;
      case 4: field_init_fp(F, p); break;
      default: mpz_set_ui(p, 10007); field_init_fp(F, p);
    }
    static const char *const tags[] = {"naive", "fast", "faster", "mont", "default", "small"};
    exercise(F, n, tags[rep], 0);
    element_t x, y;
    element_init(x, F); element_init(y, F);
    for (i = 0; i < 4; i++) { element_random(x); element_square(x, x); element_sqrt(y, x); element_square(y, y); note("sqrt", digest(y)); }
    element_from_hash(x, "some bytes", 10); SEE("hash", x);
    switch (rnd(6)) {
      case 0: field_init_quadratic(E, F); exercise(E, n, "quadratic", 0); field_clear(E); break;
      case 1: {
        field_t P;
        element_t g;
        field_init_poly(P, F);
        element_init(g, P);
        int deg = 2 + (int)rnd(5), tries = 0;
        do poly_random_monic(g, deg); while (!poly_is_irred(g) && ++tries < 60);
        SEE("irreducible", g);
        field_init_polymod(E, g);
        exercise(E, n / 2, "polymod", tries < 60 ? 0 : 2);
        field_clear(E);
        element_clear(g);
        field_clear(P);
        break;
      }
      case 2: {
        field_t P;
        element_t g, r;
        field_init_poly(P, F);
        exercise(P, n / 2 > 20 ? 20 : n / 2, "poly", 2);
        element_init(g, P); element_init(r, F);
        poly_random_monic(g, 3);
        note("findroot", (u64)poly_findroot(r, g));
        element_clear(g); element_clear(r);
        field_clear(P);
        break;
      }
      case 3: {
        element_t a, b;
        element_init(a, F); element_init(b, F);
        element_random(a); element_random(b);
        mpz_set(q, p);
        field_init_curve_ab(E, a, b, q, NULL);
        exercise(E, n / 3, "curve", 0);
        field_clear(E);
        element_clear(a); element_clear(b);
        break;
      }
      case 4: {
        field_t T2, T3;
        field_init_gf3m(E, 97, 12);
        exercise(E, n / 2, "gf3m", 0);
        field_init_gf32m(T2, E); exercise(T2, n / 3, "gf32m", 0); field_clear(T2);
        field_init_gf33m(T3, E); exercise(T3, n / 3, "gf33m", 0); field_clear(T3);
        field_clear(E);
        break;
      }
      default: {
        field_init_z(E);
        exercise(E, n > 30 ? 30 : n, "z", 3);
        field_clear(E);
        field_init_multiz(E);
        element_t m;
        element_init(m, E);
        element_ptr l = NULL;
        for (i = 0; i < 4; i++) {
          element_ptr u = malloc(sizeof(*u));
          element_init(u, E);
          element_set_si(u, (long)rnd(100) - 50);
          if (l) multiz_append(l, u); else l = multiz_new_list(u);
          free(u);
        }
        element_set(m, l);
        element_free(l);
        element_mul(m, m, m);
        SEE("multiz square", m);
        element_mul_si(m, m, -3); SEE("multiz times", m);
        element_neg(m, m); SEE("multiz neg", m);
        note("multiz text", printed(m, 10, 0));
        note("multiz sgn", (u64)(2 + element_sgn(m)));
        element_sub(m, m, m);
        note("multiz zero", (u64)element_is0(m));
        element_clear(m);
        pairing_t sp;
        mpz_set_ui(q, 1000003);
        pairing_init_singular_with_node(sp, q);
        element_t s1, s2;
        element_init_G1(s1, sp); element_init_G1(s2, sp);
        element_random(s1); element_random(s2);
        element_add(s1, s1, s2); SEE("singular", s1);
        element_double(s2, s1); element_neg(s2, s2); SEE("singular neg", s2);
        element_clear(s1); element_clear(s2);
        pairing_clear(sp);
        field_clear(E);
      }
    }
    element_clear(x); element_clear(y);
    field_clear(F);
    // discrete logarithms, factoring, containers
    field_t D, Z;
    mpz_set_ui(p, 1009); field_init_fp(D, p);
    mpz_set_ui(p, 1008); field_init_naive_fp(Z, p);
    element_t g, h, l;
    element_init(g, D); element_init(h, D); element_init(l, Z);
    element_set_si(g, 11);
    mpz_set_ui(q, 1 + rnd(1007));
    element_pow_mpz(h, g, q);
    element_dlog_brute_force(l, g, h); SEE("dlog", l);
    element_dlog_pollard_rho(l, g, h); element_pow_zn(g, g, l); SEE("rho", g);
    element_clear(g); element_clear(h); element_clear(l);
    field_clear(D); field_clear(Z);
    u64 acc = 7;
    mpz_set_ui(q, 2 + rnd(1000000));
    pbc_trial_divide(divides, &acc, q, NULL);
    note("factors", acc);
    darray_t da;
    symtab_t sy;
    char key[8][8];
    darray_init(da); symtab_init(sy);
    for (i = 0; i < 40; i++) darray_append(da, (void *)(uintptr_t)(1 + rnd(50)));
    for (i = 0; i < 8; i++) { sprintf(key[i], "k%d", i * 3); symtab_put(sy, (void *)(uintptr_t)(1 + rnd(9)), key[i]); }
    acc = 3;
    darray_forall2(da, visit, &acc);
    acc += (u64)symtab_has(sy, "k9") + (u64)(uintptr_t)symtab_at(sy, "k12");
    note("containers", acc);
    darray_clear(da); symtab_clear(sy);
    pbc_param_t par;
    switch (rnd(7)) {
      case 0: pbc_param_init_a_gen(par, 8 + (int)rnd(20), 60); generated(par, "gen a"); break;
      case 1: pbc_param_init_e_gen(par, 10, 50); generated(par, "gen e"); break;
      case 2: pbc_param_init_f_gen(par, 30); generated(par, "gen f"); break;
      case 3: mpz_set_ui(q, 10007 * 1009); pbc_param_init_a1_gen(par, q); generated(par, "gen a1"); break;
      case 4: pbc_param_init_i_gen(par, 150); generated(par, "gen i"); break;
      case 5: acc = 1; pbc_cm_search_d(found, &acc, 43 + 24 * rnd(3), 120); note("search d", acc); break;
      default: acc = 1; pbc_cm_search_g(found, &acc, 43 + 24 * rnd(3), 200); note("search g", acc); break;
    }
    { char b[400]; mpz_set_ui(q, 77); int r = element_snprintf(b, sizeof(b), "%d %s %Zd %%", 5, "x", q); note("printf", fnv(b, strlen(b), (u64)r)); }
  }
  mpz_clear(p); mpz_clear(q);
}

// Every operation on operands all threads share and only read, with every
// place the result of a thread's own may stand in.
enum { INV = 1, SQRT = 2, BYTES = 4, TEXT = 8, SCALE = 16, POINT = 32, RING = 64, RND = 128, GF3 = 256, BATCH = 512, TABLE = 1024, HASH = 2048 };
typedef void (*bin)(element_ptr, element_ptr, element_ptr);
typedef void (*una)(element_ptr, element_ptr);
static void b_add(element_ptr c, element_ptr a, element_ptr b) { element_add(c, a, b); }
static void b_sub(element_ptr c, element_ptr a, element_ptr b) { element_sub(c, a, b); }
static void b_mul(element_ptr c, element_ptr a, element_ptr b) { element_mul(c, a, b); }
static void b_div(element_ptr c, element_ptr a, element_ptr b) { if (!element_is0(b)) element_div(c, a, b); }
static void u_neg(element_ptr c, element_ptr a) { element_neg(c, a); }
static void u_square(element_ptr c, element_ptr a) { element_square(c, a); }
static void u_double(element_ptr c, element_ptr a) { element_double(c, a); }
static void u_set(element_ptr c, element_ptr a) { element_set(c, a); }
static void u_halve(element_ptr c, element_ptr a) { element_halve(c, a); }
static void u_invert(element_ptr c, element_ptr a) { if (!element_is0(a)) element_invert(c, a); }
static void readers(element_t S[3], int k, element_ptr zn, mpz_ptr ez) {
  static const bin bins[] = {b_add, b_sub, b_mul, b_div};
  static const una unas[] = {u_neg, u_square, u_double, u_set, u_halve, u_invert};
  static const char *const bn[] = {"add", "sub", "mul", "div"}, *const un[] = {"neg", "square", "double", "set", "halve", "invert"};
  enum { N = 26 };
  element_t t, w;
  int i, j, op;
  unsigned char *b = malloc(40000);
  mpz_t z;
  mpz_init(z);
  element_init_same_as(t, S[0]); element_init_same_as(w, S[0]);
  for (i = 0; i < N; i++) {
    op = (i + me->id * 5) % N;
    if (op < 4) {
      if (op == 3 && !(k & INV)) continue;
      for (j = 0; j < 4; j++) {
        if (k & RND) element_random(t); else { element_add(t, S[0], S[2]); }
        if (j == 0) bins[op](t, S[0], S[1]);
        else if (j == 1) bins[op](t, S[1], S[1]);
        else if (j == 2) bins[op](t, t, S[1]);
        else bins[op](t, S[1], t);
        SEE(bn[op], t);
      }
      continue;
    }
    if (op < 10) {
      if ((op == 8 && !(k & SQRT)) || (op == 9 && !(k & INV))) continue;
      for (j = 0; j < 2; j++) { unas[op - 4](t, S[j]); SEE(un[op - 4], t); }
      continue;
    }
    switch (op) {
      case 10: if (!(k & RING)) { element_pow_mpz(t, S[0], ez); SEE("pow_mpz", t); } break;
      case 11: if (!(k & RING)) { element_pow_zn(t, S[0], zn); SEE("pow_zn", t); } break;
      case 12: if (!(k & RING)) { element_pow2_mpz(t, S[0], ez, S[1], ez); SEE("pow2", t); element_pow2_zn(t, S[0], zn, S[0], zn); SEE("pow2_zn", t); } break;
      case 13: if (!(k & RING)) { element_pow3_mpz(t, S[0], ez, S[1], ez, S[2], ez); SEE("pow3", t); element_pow3_zn(t, S[0], zn, S[1], zn, S[2], zn); SEE("pow3_zn", t); } break;
      case 14: if (k & SCALE) { element_mul_mpz(t, S[0], ez); SEE("mul_mpz", t); element_mul_si(t, S[1], -9); SEE("mul_si", t); element_mul_zn(t, S[1], zn); SEE("mul_zn", t); } break;
      case 15: note("tests", (u64)(element_cmp(S[0], S[1]) != 0) + 2 * (u64)(element_cmp(S[0], S[0]) != 0) + 4 * (u64)element_is0(S[0]) + 8 * (u64)element_is1(S[1])); break;
      case 16: if (k & BYTES) { j = element_to_bytes(b, S[0]); note("to_bytes", fnv(b, (size_t)j, (u64)element_length_in_bytes(S[0]))); element_from_bytes(t, b); SEE("from_bytes", t); } break;
      case 17: if (k & POINT && !element_is0(S[1])) { j = element_to_bytes_compressed(b, S[1]); note("compressed", fnv(b, (size_t)j, 1)); element_from_bytes_compressed(t, b); SEE("from_compressed", t); j = element_to_bytes_x_only(b, S[1]); note("x_only", fnv(b, (size_t)j, 1)); } break;
      case 18: SEE("print", S[0]); note("out_str", printed(S[1], 10, 0)); note("fprintf", printed(S[2], 10, 1)); break;
      case 19: if (k & TEXT) { element_snprint((char *)b, 40000, S[0]); note("set_str", (u64)element_set_str(t, (char *)b, 10)); SEE("set_str value", t); } break;
      case 20: if (!(k & GF3) && k != RING) note("items", items(S[0], 0) * 3 + items(S[1], 0)); break;
      case 21: if (k & SQRT) { note("is_sqr", (u64)element_is_sqr(S[0])); note("is_sqr", (u64)element_is_sqr(S[1])); element_square(t, S[1]); element_sqrt(t, t); element_square(t, t); SEE("sqrt", t); note("sgn", (u64)(2 + element_sgn(S[0]))); } break;
      case 22: if (k & SQRT && !(k & POINT)) { element_to_mpz(z, S[0]); note("to_mpz", mpz_get_ui(z)); element_set_mpz(t, ez); SEE("set_mpz", t); element_set_si(t, -77); SEE("set_si", t); } break;
      case 23: if (k & BATCH) { element_t o[3]; for (j = 0; j < 3; j++) element_init_same_as(o[j], S[0]); element_multi_double(o, S, 3); for (j = 0; j < 3; j++) SEE("multi_double", o[j]); element_multi_add(o, S, o, 3); for (j = 0; j < 3; j++) SEE("multi_add", o[j]); element_multi_add(o, S, S, 3); for (j = 0; j < 3; j++) { SEE("multi_add", o[j]); element_clear(o[j]); } } break;
      case 24: if (k & TABLE) { element_pp_t pp; element_pp_init(pp, S[0]); element_pp_pow(t, ez, pp); SEE("pp_pow", t); element_pp_pow_zn(t, zn, pp); SEE("pp_pow_zn", t); element_pp_clear(pp); } break;
      case 25: if (k & HASH) { element_from_hash(t, "shared bytes", 12); SEE("hash", t); element_set0(t); SEE("set0", t); element_set1(t); SEE("set1", t); } if (!(k & GF3)) note("info", printed(S[0], 10, 2)); break;
    }
  }
  element_clear(t); element_clear(w);
  mpz_clear(z);
  free(b);
}
static mpz_t shz;
static void readers_script(void) {      // the groups of one pairing, and the pairing itself
  int g, I = me->fam == 'I', i;
  for (g = 0; g < 4; g++) {
    int k = INV | SCALE | TABLE | RND;
    if (!I || g == 3) k |= BYTES | TEXT;
    if (g == 3) k |= SQRT | HASH;
    else if (I) k |= GF3;
    if (I && g < 3) k &= ~SCALE;
    if (g < 2 && !I) { k |= POINT | BATCH; if (HASHABLE(shp)) k |= HASH; }
    if (g == 1) k &= ~TEXT;
    readers(she[g], k, she[3][1], shz);
  }
  element_t t;
  element_init_GT(t, shp);
  for (i = 0; i < 9; i++) {
    int j = (i + me->id) % 9;
    if (j < 3) { pairing_apply(t, she[0][j], she[1][2 - j], shp); SEE("pairing", t); }
    else if (j == 3) { pairing_pp_apply(t, she[1][0], shppp); SEE("shared pairing table", t); }
    else if (j == 4) { pairing_pp_t pp; pairing_pp_init(pp, she[0][0], shp); pairing_pp_apply(t, she[1][1], pp); SEE("pairing table", t); pairing_pp_clear(pp); }
    else if (j == 5 && !I) { element_prod_pairing(t, she[0], she[1], 3); SEE("prod", t); }
    else if (j == 6) note("coddh", (u64)is_almost_coddh(she[0][0], she[0][1], she[1][0], she[1][1], shp));
    else if (j == 7) { for (g = 0; g < 4; g++) { element_t u; init_group(u, g, shp); element_pp_pow(u, shz, shepp[g]); SEE("shared table", u); element_clear(u); } }
    else if (j == 8) note("lengths", (u64)(pairing_length_in_bytes_GT(shp) + 7 * pairing_length_in_bytes_Zr(shp)));
  }
  element_clear(t);
}
#define NF 16
static struct { element_t S[3]; int k; } sf[NF];
static field_t FF[24];
static int nsf, nff;
static u64 part;
static void share(field_ptr f, int k) {
  int i;
  for (i = 0; i < 3; i++) { element_init(sf[nsf].S[i], f); if (k & RND) element_random(sf[nsf].S[i]); }
  sf[nsf++].k = k;
}
static void share_fields(u64 seed) {
  mpz_t p;
  int i, j, F = INV | SQRT | BYTES | TEXT | SCALE | RND | TABLE | HASH;
  mpz_init(p);
  for (i = 0; i < 5; i++) {
    pbc_mpz_randomb(p, 70 + rnd(120));
    mpz_setbit(p, 69 + rnd(20));
    mpz_nextprime(p, p);
    field_ptr f = FF[nff++];
    if (i == 0) field_init_naive_fp(f, p);
    if (i == 1) field_init_fast_fp(f, p);
    if (i == 2) field_init_faster_fp(f, p);
    if (i == 3) field_init_mont_fp(f, p);
    if (i == 4) { mpz_set_ui(p, 10007); field_init_fp(f, p); }
    field_get_nqr(f);
    share(f, F);
  }
  field_ptr b = FF[seed % 4];
  field_init_quadratic(FF[nff], b); field_get_nqr(FF[nff]); share(FF[nff++], F);
  field_ptr P = FF[nff++];
  field_init_poly(P, b);
  element_t g, x, y;
  element_init(g, P);
  for (j = 3; ; j = 2 + (int)rnd(5)) { poly_random_monic(g, j); if (poly_is_irred(g)) break; }
  field_init_polymod(FF[nff], g); field_get_nqr(FF[nff]); share(FF[nff++], F);
  element_clear(g);
  for (i = 0; i < 3; i++) { element_init(sf[nsf].S[i], P); poly_random_monic(sf[nsf].S[i], 1 + i); }
  sf[nsf++].k = RING | BYTES | SCALE;
  element_init(x, b); element_init(y, b);
  element_random(x); element_random(y);
  mpz_set(p, b->order);
  field_init_curve_ab(FF[nff], x, y, p, NULL);
  element_clear(x); element_clear(y);
  share(FF[nff++], INV | POINT | BYTES | TEXT | SCALE | RND | BATCH | TABLE | HASH);
  field_ptr T = FF[nff++];
  field_init_gf3m(T, 97, 12); share(T, INV | RND | GF3);
  field_init_gf32m(FF[nff], T); share(FF[nff++], INV | RND | GF3);
  field_init_gf33m(FF[nff], T); share(FF[nff++], INV | RND | GF3);
  field_init_z(FF[nff]);
  for (i = 0; i < 3; i++) { element_init(sf[nsf].S[i], FF[nff]); pbc_mpz_randomb(p, 200); element_set_mpz(sf[nsf].S[i], p); }
  sf[nsf++].k = RING | BYTES | TEXT;
  nff++;
  field_init_multiz(FF[nff]);
  for (i = 0; i < 3; i++) {
    element_ptr l = NULL;
    for (j = 0; j < 3; j++) { element_ptr u = malloc(sizeof(*u)); element_init(u, FF[nff]); element_set_si(u, (long)rnd(100) - 50); if (l) multiz_append(l, u); else l = multiz_new_list(u); free(u); }
    element_init(sf[nsf].S[i], FF[nff]);
    element_set(sf[nsf].S[i], l);
    element_free(l);
  }
  sf[nsf++].k = RING;
  nff++;
  mpz_clear(p);
}
static void unshare_fields(void) {
  int i, j;
  for (i = 0; i < nsf; i++) for (j = 0; j < 3; j++) element_clear(sf[i].S[j]);
  while (nff) field_clear(FF[--nff]);
}
static void readfields_script(void) { int i; for (i = 0; i < nsf; i++) { int j = (i + me->id) % nsf; if (j % me->steps == (int)(part % (u64)me->steps)) readers(sf[j].S, sf[j].k, sf[0].S[2], shz); } }

static void random_script(void) {   // the file source: values cannot be compared, only their range
  pairing_t own;
  element_t e;
  int i, j;
  if (pairing_init_set_str(own, me->text)) { note("init failed", 1); return; }
  for (i = 0; i < me->steps; i++) for (j = 0; j < 4; j++) {
    init_group(e, j, own);
    element_random(e);
    if (me->fam != 'I') { unsigned char b[4000]; element_to_bytes(b, e); element_t f; init_group(f, j, own); element_from_bytes(f, b); note("random", (u64)element_cmp(e, f)); element_clear(f); }
    element_clear(e);
  }
  pairing_clear(own);
}

static void script(void) {
  me->n = 0;
  if (mode == 4) readers_script(); else if (mode == 5) readfields_script(); else if (mode == 2) field_script(); else if (mode == 3) random_script(); else pairing_script();
}
static struct ctx cs[MAXT];
static u64 seeds[MAXT];
static void begin(struct ctx *c, int conc) { c->s = seeds[c->id]; c->rs = seeds[c->id] ^ 0x9E3779B97F4A7C15ULL; c->conc = conc; c->n = 0; me = c; }
static void *body(void *p) {
  struct ctx *c = p;
  int r;
  for (r = 0; r < rounds; r++) {
    begin(c, 1);
    pthread_barrier_wait(&bar);
    script();
  }
  return NULL;
}

int main(int argc, char **argv) {
  static const char *const modes[] = {"own", "shared", "fields", "random", "readers", "readfields"};
  static struct ctx ref;
  int i, j, bad = 0;
  long steps = 0;
  u64 seed;
  pthread_t th[MAXT];
  if (argc < 6) return 2;
  for (mode = 0; mode < 5 && strcmp(modes[mode], argv[1]); mode++);
  part = seed = strtoull(argv[2], 0, 10);
  nthreads = atoi(argv[3]);
  rounds = atoi(argv[5]);
  pbc_set_msg_to_stderr(0);
  if (mode == 3) pbc_random_set_file("/dev/urandom"); else pbc_random_set_function(source, NULL);
  int nf = (argc - 6) / 2;
  for (i = 0; i < nthreads; i++) {
    struct ctx *c = cs + i;
    c->id = i;
    c->steps = atoi(argv[4]);
    seeds[i] = seed * 1000003 + (u64)i * 7919 + 1;
    if (nf) {
      int k = mode == 1 || mode == 4 ? 0 : i % nf;
      char *t = calloc(1, 100000);
      FILE *f = fopen(argv[7 + 2 * k], "r");
      if (!f) return 2;
      if (!fread(t, 1, 99999, f)) return 2;
      fclose(f);
      c->text = t;
      c->fam = argv[6 + 2 * k][0];
    }
  }
  mpz_init_set_str(shz, "123456789012345678901", 10);
  if (mode == 5) { ref = cs[0]; me = &ref; ref.s = ref.rs = seed + 99; share_fields(seed); }
  if (mode == 1 || mode == 4) {    // build what is shared, and use each kind of operation once
    ref = cs[0];
    me = &ref;
    ref.s = ref.rs = seed + 99;
    if (pairing_init_set_str(shp, ref.text)) return 3;
    for (i = 0; i < 4; i++) for (j = 0; j < 3; j++) { init_group(she[i][j], i, shp); element_random(she[i][j]); }
    for (i = 0; i < 4; i++) element_pp_init(shepp[i], she[i][0]);
    pairing_pp_init(shppp, she[0][1], shp);
    element_t t;
    for (i = 0; i < 4; i++) if (i != 2 && (i == 3 || (ref.fam != 'I' && HASHABLE(shp)))) {
      init_group(t, i, shp);
      for (j = 0; j < 8; j++) { char b[4] = {'w', (char)j, 1, 2}; element_from_hash(t, b, 4); }
      if (i == 3) { element_square(t, t); element_sqrt(t, t); }
      element_clear(t);
    }
  }
  pthread_barrier_init(&bar, NULL, (unsigned)nthreads);
  for (i = 0; i < nthreads; i++) if (pthread_create(th + i, NULL, body, cs + i)) return 2;
  for (i = 0; i < nthreads; i++) pthread_join(th[i], NULL);
  for (i = 0; i < nthreads; i++) {
    ref = cs[i];
    begin(&ref, 0);
    script();
    steps += cs[i].n;
    int n = ref.n < MAXS ? ref.n : MAXS;
    if (cs[i].n != ref.n) printf("FAIL length | thread %d: %d results, alone %d\n", i, cs[i].n, ref.n), bad = 1;
    for (j = 0; j < n; j++) if (ref.rec[j] != cs[i].rec[j] || ref.op[j] != cs[i].op[j]) {
      printf("FAIL %s | thread %d step %d: differs from the same script run alone\n", ref.op[j], i, j);
      bad = 1;
      break;
    }
    for (j = 0; j < n; j++) { int k; for (k = 0; k < j && strcmp(ref.op[k], ref.op[j]); k++); if (k == j) printf("KIND %s\n", ref.op[j]); }
  }
  mpz_clear(shz);
  if (mode == 5) unshare_fields();
  if (mode == 1 || mode == 4) {
    me = &ref;
    for (i = 0; i < 4; i++) element_pp_clear(shepp[i]);
    pairing_pp_clear(shppp);
    for (i = 0; i < 4; i++) for (j = 0; j < 3; j++) element_clear(she[i][j]);
    pairing_clear(shp);
  }
  printf("DONE %ld %d\n", steps, bad);
  return bad;
}
