// Flat C ABI over the pbc API for the Python monitors.  It is compiled together
// with the sources of /repo into one shared object, so every inline function in
// the headers is exercised exactly as a user's program would exercise it.
#include <malloc.h>
#include <fcntl.h>
#include <unistd.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <gmp.h>
#include "pbc.h"
#include "pbc_fp.h"
#include "pbc_z.h"
#include "pbc_multiz.h"
#include "pbc_poly.h"
#include "pbc_curve.h"
#include "pbc_fieldquadratic.h"
#include "pbc_ternary_extension_field.h"
#include "pbc_hilbert.h"
#include "pbc_singular.h"
#include "misc/darray.h"
#include "misc/symtab.h"

#define X __attribute__((visibility("default")))

/* ---------------------------------------------------------------- allocator
 * Counting allocator installed for both PBC and GMP: every block is recorded
 * with the family that allocated it, filled with junk on allocation and again
 * before release, so that stale or uninitialised memory shows in the results
 * and an unbalanced or cross-family release is observed. */
#ifdef WRAP_ALLOC
/* the link replaces the C library's allocation functions in the library's code: any direct use is recorded */
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
char *__real_strdup(const char *);
static long direct_calls; static char direct_what[200];
static void direct(const char *w) {
  direct_calls++;
  if (!direct_what[0]) snprintf(direct_what, sizeof direct_what, "%s", w);
}
void *__wrap_malloc(size_t n) { direct("malloc"); return __real_malloc(n); }
void *__wrap_calloc(size_t n, size_t m) { direct("calloc"); return __real_calloc(n, m); }
void *__wrap_realloc(void *p, size_t n) { direct("realloc"); return __real_realloc(p, n); }
void __wrap_free(void *p) { direct("free"); __real_free(p); }
char *__wrap_strdup(const char *s) { direct("strdup"); return __real_strdup(s); }
#define malloc __real_malloc
#define free __real_free
X long x_direct(char *out) { strcpy(out, direct_what); return direct_calls; }
#endif
typedef struct { void *p; uint8_t kind; size_t size; } slot_t;
static slot_t *tabl; static size_t tcap, tused;
static long live[2], total[2]; static long bad_free; static uint8_t junk = 0xA5;
static int failed_report;
static size_t hsh(void *p) { uint64_t x = (uint64_t)(uintptr_t)p; x ^= x >> 33; x *= 0xff51afd7ed558ccdULL; x ^= x >> 33; return (size_t)x; }
static void t_grow(void);
static void t_put(void *p, int kind, size_t size) {
  if ((tused + 1) * 2 > tcap) t_grow();
  size_t i = hsh(p) & (tcap - 1);
  while (tabl[i].p && tabl[i].p != p) i = (i + 1) & (tcap - 1);
  if (tabl[i].p == p) { live[tabl[i].kind]--; tused--; bad_free++; }  // released behind our back
  tabl[i].p = p; tabl[i].kind = (uint8_t)kind; tabl[i].size = size; tused++; live[kind]++; total[kind]++;
}
static void t_grow(void) {
  size_t oc = tcap; slot_t *o = tabl;
  tcap = oc ? oc * 2 : 4096;
  tabl = __builtin_memset(malloc(tcap * sizeof(slot_t)), 0, tcap * sizeof(slot_t));
  for (size_t i = 0; i < oc; i++) if (o[i].p) {
    size_t j = hsh(o[i].p) & (tcap - 1);
    while (tabl[j].p) j = (j + 1) & (tcap - 1);
    tabl[j] = o[i];
  }
  free(o);
}
static size_t last_size;
static int t_del(void *p, int kind) {
  if (!tcap) return 0;
  size_t i = hsh(p) & (tcap - 1);
  while (tabl[i].p && tabl[i].p != p) i = (i + 1) & (tcap - 1);
  if (!tabl[i].p || tabl[i].kind != kind) return 0;
  last_size = tabl[i].size;
  tabl[i].p = NULL; tused--; live[kind]--;
  for (size_t j = (i + 1) & (tcap - 1); tabl[j].p; j = (j + 1) & (tcap - 1)) {
    slot_t s = tabl[j]; tabl[j].p = NULL;
    size_t k = hsh(s.p) & (tcap - 1);
    while (tabl[k].p) k = (k + 1) & (tcap - 1);
    tabl[k] = s;
  }
  return 1;
}
static void *m_alloc(size_t n, int kind) {
  void *p = malloc(n ? n : 1);
  if (!p) abort();
  memset(p, junk, n);
  t_put(p, kind, n);
  return p;
}
static void m_free(void *p, int kind) {
  if (!p) { if (kind) { bad_free++; } return; }
  if (!t_del(p, kind)) {
    bad_free++;
    if (!failed_report) { failed_report = 1; fprintf(stderr, "MONITOR: release of a block not owned by this allocator (%s)\n", kind ? "gmp" : "pbc"); }
    abort();
  }
  memset(p, 0x5A, malloc_usable_size(p));
  free(p);
}
static void *m_realloc(void *p, size_t n, int kind) {
  if (!p) return m_alloc(n, kind);
  void *q = m_alloc(n, kind);
  size_t o = malloc_usable_size(p);
  memcpy(q, p, o < n ? o : n);
  m_free(p, kind);
  return q;
}
static void *a_m(size_t n) { return m_alloc(n, 0); }
static void *a_r(void *p, size_t n) { return m_realloc(p, n, 0); }
static void a_f(void *p) { m_free(p, 0); }
static void *g_m(size_t n) { return m_alloc(n, 1); }
static void sized(size_t n) { if (n != last_size) { fprintf(stderr, "MONITOR: big-integer block of %zu bytes released as %zu bytes\n", last_size, n); abort(); } }
static void *g_r(void *p, size_t o, size_t n) { void *q = m_realloc(p, n, 1); if (p) sized(o); return q; }
static void g_f(void *p, size_t n) { m_free(p, 1); sized(n); }
X void x_alloc_install(void) { pbc_set_memory_functions(a_m, a_r, a_f); mp_set_memory_functions(g_m, g_r, g_f); }
X void x_alloc_junk(int b) { junk = (uint8_t)b; }
X long x_alloc_live(int kind) { return live[kind]; }
X long x_alloc_total(int kind) { return total[kind]; }
X long x_alloc_bad(void) { return bad_free; }
X void *x_pbc_malloc(size_t n) { return pbc_malloc(n); }
X void *x_pbc_calloc(size_t a, size_t b) { return pbc_calloc(a, b); }
X void *x_pbc_realloc(void *p, size_t n) { return pbc_realloc(p, n); }
X void x_pbc_free(void *p) { pbc_free(p); }
X void *x_pbc_strdup(const char *s) { return pbc_strdup(s); }

/* ---------------------------------------------------------------- integers */
X void *x_z_new(void) { mpz_ptr z = malloc(sizeof(mpz_t)); mpz_init2(z, 64); return z; }
X void x_z_free(mpz_ptr z) { mpz_clear(z); free(z); }
X void x_z_set(mpz_ptr z, const unsigned char *b, size_t n, int neg) { mpz_import(z, n, -1, 1, 0, 0, b); if (neg) mpz_neg(z, z); }
X size_t x_z_size(mpz_ptr z) { return (mpz_sizeinbase(z, 2) + 7) / 8; }
X size_t x_z_get(mpz_ptr z, unsigned char *b) { size_t n = 0; mpz_export(b, &n, -1, 1, 0, 0, z); return n; }
X int x_z_sgn(mpz_ptr z) { return mpz_sgn(z); }

/* exact-size buffers: the sanitizer's red zones start right after the last byte */
X void *x_raw(size_t n, int fill) { void *p = malloc(n); memset(p, fill, n); return p; }
X void x_raw_free(void *p) { free(p); }
X void x_raw_put(unsigned char *p, const unsigned char *s, size_t n) { memcpy(p, s, n); }

/* ---------------------------------------------------------------- fields */
static field_ptr nf(void) { field_ptr f = malloc(sizeof(*f)); memset(f, 0x77, sizeof(*f)); return f; }
#define NF(name, decl, call) X void *x_field_##name decl { field_ptr f = nf(); call; return f; }
NF(fp, (mpz_ptr p), field_init_fp(f, p))
NF(naive, (mpz_ptr p), field_init_naive_fp(f, p))
NF(fast, (mpz_ptr p), field_init_fast_fp(f, p))
NF(faster, (mpz_ptr p), field_init_faster_fp(f, p))
NF(mont, (mpz_ptr p), field_init_mont_fp(f, p))
NF(quadratic, (field_ptr b), field_init_quadratic(f, b))
NF(fi, (field_ptr b), field_init_fi(f, b))
NF(poly, (field_ptr b), field_init_poly(f, b))
NF(polymod, (element_ptr p), field_init_polymod(f, p))
NF(z, (void), field_init_z(f))
NF(multiz, (void), field_init_multiz(f))
NF(gf3m, (unsigned m, unsigned t), field_init_gf3m(f, m, t))
NF(gf32m, (field_ptr b), field_init_gf32m(f, b))
NF(gf33m, (field_ptr b), field_init_gf33m(f, b))
NF(curve_ab, (element_ptr a, element_ptr b, mpz_ptr o, mpz_ptr c), field_init_curve_ab(f, a, b, o, c))
NF(curve_b, (element_ptr b, mpz_ptr o, mpz_ptr c), field_init_curve_b(f, b, o, c))
NF(curve_j, (element_ptr j, mpz_ptr o, mpz_ptr c), field_init_curve_j(f, j, o, c))
NF(curve_singular, (field_ptr b), field_init_curve_singular_with_node(f, b))
X void x_field_twist(field_ptr f) { field_reinit_curve_twist(f); }
X void x_field_free(field_ptr f) { field_clear(f); free(f); }
X void x_field_order(field_ptr f, mpz_ptr z) { mpz_set(z, f->order); }
X int x_field_fixed_len(field_ptr f) { return f->fixed_length_in_bytes; }
X void *x_field_nqr(field_ptr f) { return field_get_nqr(f); }
X void x_field_set_nqr(field_ptr f, element_ptr e) { field_set_nqr(f, e); }
X void *x_curve_a(field_ptr f) { return curve_field_a_coeff(f); }
X void *x_curve_b(field_ptr f) { return curve_field_b_coeff(f); }
X void x_curve_solvefory(field_ptr f) { field_curve_use_random_solvefory(f); }
X void x_curve_quotient(field_ptr f, mpz_ptr z) { field_curve_set_quotient_cmp(f, z); }
X void x_tweak(char *s) { pbc_tweak_use_fp(s); }
X void x_field_out_info(FILE *o, field_ptr f) { field_out_info(o, f); }

/* ---------------------------------------------------------------- elements */
X void *x_el_new(field_ptr f) { element_ptr e = malloc(sizeof(*e)); memset(e, 0x77, sizeof(*e)); element_init(e, f); return e; }
X void *x_el_new_same(element_ptr a) { element_ptr e = malloc(sizeof(*e)); memset(e, 0x77, sizeof(*e)); element_init_same_as(e, a); return e; }
X void x_el_free(element_ptr e) { element_clear(e); free(e); }
X void *x_el_field(element_ptr e) { return e->field; }
#define E1(n) X void x_##n(element_ptr a) { element_##n(a); }
#define E2(n) X void x_##n(element_ptr a, element_ptr b) { element_##n(a, b); }
#define E3(n) X void x_##n(element_ptr a, element_ptr b, element_ptr c) { element_##n(a, b, c); }
E1(set0) E1(set1) E1(random)
E2(set) E2(double) E2(halve) E2(square) E2(neg) E2(invert) E2(sqrt) E2(cubic)
E3(add) E3(sub) E3(mul) E3(div) E3(mul_zn) E3(pow_zn)
X void x_set_si(element_ptr a, long i) { element_set_si(a, i); }
X void x_set_mpz(element_ptr a, mpz_ptr z) { element_set_mpz(a, z); }
X void x_add_ui(element_ptr n, element_ptr a, unsigned long b) { element_add_ui(n, a, b); }
X void x_to_mpz(mpz_ptr z, element_ptr a) { element_to_mpz(z, a); }
X long x_to_si(element_ptr a) { return element_to_si(a); }
X void x_from_hash(element_ptr a, const void *d, int n) { element_from_hash(a, d, n); }
X void x_mul_mpz(element_ptr n, element_ptr a, mpz_ptr z) { element_mul_mpz(n, a, z); }
X void x_mul_si(element_ptr n, element_ptr a, long z) { element_mul_si(n, a, z); }
X void x_pow_mpz(element_ptr n, element_ptr a, mpz_ptr z) { element_pow_mpz(n, a, z); }
X void x_pow2_mpz(element_ptr x, element_ptr a, mpz_ptr n, element_ptr b, mpz_ptr m) { element_pow2_mpz(x, a, n, b, m); }
X void x_pow3_mpz(element_ptr x, element_ptr a, mpz_ptr n, element_ptr b, mpz_ptr m, element_ptr c, mpz_ptr k) { element_pow3_mpz(x, a, n, b, m, c, k); }
X void x_pow2_zn(element_ptr x, element_ptr a, element_ptr n, element_ptr b, element_ptr m) { element_pow2_zn(x, a, n, b, m); }
X void x_pow3_zn(element_ptr x, element_ptr a, element_ptr n, element_ptr b, element_ptr m, element_ptr c, element_ptr k) { element_pow3_zn(x, a, n, b, m, c, k); }
X void *x_pp_new(element_ptr a) { struct element_pp_s *p = malloc(sizeof(*p)); element_pp_init(p, a); return p; }
X void x_pp_pow(element_ptr o, mpz_ptr z, struct element_pp_s *p) { element_pp_pow(o, z, p); }
X void x_pp_pow_zn(element_ptr o, element_ptr z, struct element_pp_s *p) { element_pp_pow_zn(o, z, p); }
X void x_pp_free(struct element_pp_s *p) { element_pp_clear(p); free(p); }
static element_t *gather(void **v, int n) {
  element_t *r = malloc(sizeof(element_t) * (n ? n : 1));
  for (int i = 0; i < n; i++) r[i][0] = *(element_ptr)v[i];
  return r;
}
static void scatter(element_t *r, void **v, int n) {
  for (int i = 0; i < n; i++) *(element_ptr)v[i] = r[i][0];
  free(r);
}
X void x_multi_double(void **o, void **a, int m) {
  element_t *O = gather(o, m), *A = o == a ? O : gather(a, m);
  element_multi_double(O, A, m);
  scatter(O, o, m); if (A != O) free(A);
}
X void x_multi_add(void **o, void **a, void **b, int m) {
  element_t *O = gather(o, m), *A = o == a ? O : gather(a, m), *B = o == b ? O : a == b ? A : gather(b, m);
  element_multi_add(O, A, B, m);
  if (B != O && B != A) free(B);
  if (A != O) free(A);
  scatter(O, o, m);
}
X int x_is0(element_ptr a) { return element_is0(a); }
X int x_is1(element_ptr a) { return element_is1(a); }
X int x_is_sqr(element_ptr a) { return element_is_sqr(a); }
X int x_sign(element_ptr a) { return element_sign(a); }
X int x_sgn(element_ptr a) { return element_sgn(a); }
X int x_cmp(element_ptr a, element_ptr b) { return element_cmp(a, b); }
X int x_item_count(element_ptr a) { return element_item_count(a); }
X void *x_item(element_ptr a, int i) { return element_item(a, i); }
X int x_len(element_ptr a) { return element_length_in_bytes(a); }
X int x_to_bytes(unsigned char *d, element_ptr a) { return element_to_bytes(d, a); }
X int x_from_bytes(element_ptr a, const unsigned char *d) { return element_from_bytes(a, d); }
X int x_len_c(element_ptr a) { return element_length_in_bytes_compressed(a); }
X int x_to_bytes_c(unsigned char *d, element_ptr a) { return element_to_bytes_compressed(d, a); }
X int x_from_bytes_c(element_ptr a, const unsigned char *d) { return element_from_bytes_compressed(a, d); }
X int x_len_x(element_ptr a) { return element_length_in_bytes_x_only(a); }
X int x_to_bytes_x(unsigned char *d, element_ptr a) { return element_to_bytes_x_only(d, a); }
X int x_from_bytes_x(element_ptr a, const unsigned char *d) { return element_from_bytes_x_only(a, d); }
X int x_set_str(element_ptr a, const char *s, int base) { return element_set_str(a, s, base); }
X int x_snprint(char *s, size_t n, element_ptr a) { return element_snprint(s, n, a); }
X size_t x_out_str(FILE *f, int base, element_ptr a) { return element_out_str(f, base, a); }
X void x_dlog_brute(element_ptr x, element_ptr g, element_ptr h) { element_dlog_brute_force(x, g, h); }
X void x_dlog_rho(element_ptr x, element_ptr g, element_ptr h) { element_dlog_pollard_rho(x, g, h); }
X void x_tonelli(element_ptr x, element_ptr a) { element_tonelli(x, a); }
X void x_mpz_from_hash(mpz_ptr z, mpz_ptr lim, unsigned char *d, unsigned n) { pbc_mpz_from_hash(z, lim, d, n); }
X void x_mpz_out_raw_n(unsigned char *d, int n, mpz_ptr z) { pbc_mpz_out_raw_n(d, n, z); }
X int x_mpz_set_str(mpz_ptr z, const char *s, int base) { return pbc_mpz_set_str(z, s, base); }

/* Value of an element as a flat list of base-field integers: walks
 * element_item() down to the leaves.  Format: hex,hex,...;  returns length, or
 * -needed when cap is too small.  An element without items is a leaf. */
static mpz_t fz; static int fz_init;
static long flat_rec(element_ptr e, int depth, char *b, long pos, long cap) {
  int n = depth == 0 ? 0 : element_item_count(e);
  if (depth == 0) {
    if (!fz_init) { mpz_init2(fz, 8192); fz_init = 1; }
    element_to_mpz(fz, e);
    long need = (long)mpz_sizeinbase(fz, 16) + 3;
    if (pos + need < cap) { mpz_get_str(b + pos, 16, fz); pos += (long)strlen(b + pos); b[pos++] = ','; }
    else pos += need;
    return pos;
  }
  for (int i = 0; i < n; i++) pos = flat_rec(element_item(e, i), depth - 1, b, pos, cap);
  return pos;
}
X long x_flat(element_ptr e, int depth, char *b, long cap) {
  long r = flat_rec(e, depth, b, 0, cap);
  if (r < cap) b[r] = 0;
  return r;
}
/* poly */
X void x_poly_set_coeff(element_ptr f, element_ptr a, int n) { poly_set_coeff(f, a, n); }
X void x_poly_set_coeff1(element_ptr f, int n) { poly_set_coeff1(f, n); }
X void x_poly_set_coeff0(element_ptr f, int n) { poly_set_coeff0(f, n); }
X void x_poly_setx(element_ptr f) { poly_setx(f); }
X void x_poly_const_mul(element_ptr r, element_ptr a, element_ptr p) { poly_const_mul(r, a, p); }
X int x_poly_findroot(element_ptr r, element_ptr p) { return poly_findroot(r, p); }
X int x_poly_is_irred(element_ptr p) { return poly_is_irred(p); }
X void x_poly_random_monic(element_ptr p, int d) { poly_random_monic(p, d); }
X int x_poly_degree(element_ptr p) { return poly_degree(p); }
X void x_field_to_poly(element_ptr p, element_ptr c) { element_field_to_poly(p, c); }
X void x_field_to_polymod(element_ptr p, element_ptr c) { element_field_to_polymod(p, c); }
X void x_polymod_const_mul(element_ptr r, element_ptr a, element_ptr e) { polymod_const_mul(r, a, e); }
X void x_field_to_quadratic(element_ptr o, element_ptr i) { element_field_to_quadratic(o, i); }
X void x_field_to_fi(element_ptr o, element_ptr i) { element_field_to_fi(o, i); }
/* curve */
X void *x_curve_x(element_ptr e) { return curve_x_coord(e); }
X void *x_curve_y(element_ptr e) { return curve_y_coord(e); }
X void *x_element_x(element_ptr e) { return element_x(e); }
X void *x_element_y(element_ptr e) { return element_y(e); }
X void x_curve_from_x(element_ptr e, element_ptr x) { curve_from_x(e, x); }
X void x_curve_set_si(element_ptr e, long a, long b) { curve_set_si(e, a, b); }
X void x_trace_n(mpz_ptr r, mpz_ptr q, mpz_ptr t, int n) { pbc_mpz_trace_n(r, q, t, n); }
X void x_order_extn(mpz_ptr r, mpz_ptr q, mpz_ptr t, int n) { pbc_mpz_curve_order_extn(r, q, t, n); }
/* multiz */
X void *x_multiz_new_list(element_ptr e) { return multiz_new_list(e); }
X void x_multiz_append(element_ptr l, element_ptr m) { multiz_append(l, m); }
X void x_element_free(element_ptr e) { element_free(e); }
X void x_set_multiz(element_ptr e, element_ptr m) { element_set_multiz(e, m->data); }
X int x_multiz_is_z(element_ptr m) { return multiz_is_z(m->data); }

/* ---------------------------------------------------------------- pairings */
X void *x_pairing_new(const char *s, size_t len) {
  pairing_ptr p = malloc(sizeof(*p)); memset(p, 0x77, sizeof(*p));
  if (len == (size_t)-1 ? pairing_init_set_str(p, s) : pairing_init_set_buf(p, s, len)) { free(p); return NULL; }
  return p;
}
X void x_pairing_free(pairing_ptr p) { pairing_clear(p); free(p); }
X void *x_pairing_G1(pairing_ptr p) { return p->G1; }
X void *x_pairing_G2(pairing_ptr p) { return p->G2; }
X void *x_pairing_GT(pairing_ptr p) { return p->GT; }
X void *x_pairing_Zr(pairing_ptr p) { return p->Zr; }
X void x_pairing_r(pairing_ptr p, mpz_ptr z) { mpz_set(z, p->r); }
X void *x_init_G1(pairing_ptr p) { element_ptr e = malloc(sizeof(*e)); element_init_G1(e, p); return e; }
X void *x_init_G2(pairing_ptr p) { element_ptr e = malloc(sizeof(*e)); element_init_G2(e, p); return e; }
X void *x_init_GT(pairing_ptr p) { element_ptr e = malloc(sizeof(*e)); element_init_GT(e, p); return e; }
X void *x_init_Zr(pairing_ptr p) { element_ptr e = malloc(sizeof(*e)); element_init_Zr(e, p); return e; }
X void x_pairing_apply(element_ptr o, element_ptr a, element_ptr b, pairing_ptr p) { pairing_apply(o, a, b, p); }
X void x_element_pairing(element_ptr o, element_ptr a, element_ptr b) { element_pairing(o, a, b); }
X void x_prod_pairing(element_ptr o, void **a, void **b, int n) {
  element_t *A = gather(a, n), *B = gather(b, n);
  element_prod_pairing(o, A, B, n);
  free(A); free(B);
}
X void *x_ppp_new(element_ptr a, pairing_ptr p) { struct pairing_pp_s *q = malloc(sizeof(*q)); pairing_pp_init(q, a, p); return q; }
X void x_ppp_apply(element_ptr o, element_ptr b, struct pairing_pp_s *q) { pairing_pp_apply(o, b, q); }
X void x_ppp_free(struct pairing_pp_s *q) { pairing_pp_clear(q); free(q); }
X int x_is_symmetric(pairing_ptr p) { return pairing_is_symmetric(p); }
X int x_coddh(element_ptr a, element_ptr b, element_ptr c, element_ptr d, pairing_ptr p) { return is_almost_coddh(a, b, c, d, p); }
X void x_option(pairing_ptr p, char *k, char *v) { pairing_option_set(p, k, v); }
X void x_phi(element_ptr o, element_ptr i, pairing_ptr p) { p->phi(o, i, p); }
X int x_plen(pairing_ptr p, int which) {
  switch (which) {
    case 0: return pairing_length_in_bytes_G1(p);
    case 1: return pairing_length_in_bytes_x_only_G1(p);
    case 2: return pairing_length_in_bytes_compressed_G1(p);
    case 3: return pairing_length_in_bytes_G2(p);
    case 4: return pairing_length_in_bytes_x_only_G2(p);
    case 5: return pairing_length_in_bytes_compressed_G2(p);
    case 6: return pairing_length_in_bytes_GT(p);
    default: return pairing_length_in_bytes_Zr(p);
  }
}
X void *x_pairing_singular(mpz_ptr q) { pairing_ptr p = malloc(sizeof(*p)); memset(p, 0x77, sizeof(*p)); pairing_init_singular_with_node(p, q); return p; }

/* ---------------------------------------------------------------- params */
X void *x_param_new(const char *s, size_t len) {
  pbc_param_ptr p = malloc(sizeof(*p)); memset(p, 0x77, sizeof(*p));
  if (len == (size_t)-1 ? pbc_param_init_set_str(p, s) : pbc_param_init_set_buf(p, s, len)) { free(p); return NULL; }
  return p;
}
X void *x_param_a(int r, int q) { pbc_param_ptr p = malloc(sizeof(*p)); pbc_param_init_a_gen(p, r, q); return p; }
X void *x_param_a1(mpz_ptr n) { pbc_param_ptr p = malloc(sizeof(*p)); pbc_param_init_a1_gen(p, n); return p; }
X void *x_param_e(int r, int q) { pbc_param_ptr p = malloc(sizeof(*p)); pbc_param_init_e_gen(p, r, q); return p; }
X void *x_param_f(int b) { pbc_param_ptr p = malloc(sizeof(*p)); pbc_param_init_f_gen(p, b); return p; }
X void *x_param_i(int b) { pbc_param_ptr p = malloc(sizeof(*p)); pbc_param_init_i_gen(p, b); return p; }
typedef int (*cm_cb)(mpz_ptr q, mpz_ptr n, mpz_ptr h, mpz_ptr r, int D, int k, void *cm);
static int cm_tramp(pbc_cm_ptr cm, void *d) { return (*(cm_cb *)d)(cm->q, cm->n, cm->h, cm->r, cm->D, cm->k, cm); }
X int x_cm_search_d(cm_cb cb, unsigned D, unsigned bits) { return pbc_cm_search_d(cm_tramp, &cb, D, bits); }
X int x_cm_search_g(cm_cb cb, unsigned D, unsigned bits) { return pbc_cm_search_g(cm_tramp, &cb, D, bits); }
X void *x_param_d(pbc_cm_ptr cm) { pbc_param_ptr p = malloc(sizeof(*p)); pbc_param_init_d_gen(p, cm); return p; }
X void *x_param_g(pbc_cm_ptr cm) { pbc_param_ptr p = malloc(sizeof(*p)); pbc_param_init_g_gen(p, cm); return p; }
X void x_param_out(FILE *f, pbc_param_ptr p) { pbc_param_out_str(f, p); }
X void x_param_free(pbc_param_ptr p) { pbc_param_clear(p); free(p); }
X void *x_param_pairing(pbc_param_ptr p) { pairing_ptr q = malloc(sizeof(*q)); memset(q, 0x77, sizeof(*q)); pairing_init_pbc_param(q, p); return q; }
X long x_hilbert(int D, char *out, long cap) {
  mpz_t *a; long pos = 0;
  size_t n = pbc_hilbert(&a, D);
  for (size_t i = 0; i < n; i++) {
    long need = (long)mpz_sizeinbase(a[i], 16) + 4;
    if (pos + need < cap) { mpz_get_str(out + pos, 16, a[i]); pos += (long)strlen(out + pos); out[pos++] = ','; }
    else pos += need;
  }
  pbc_hilbert_free(a, n);
  if (pos < cap) out[pos] = 0;
  return pos;
}
typedef int (*td_cb)(mpz_ptr f, unsigned m);
static int td_tramp(mpz_t f, unsigned int m, void *s) { return (*(td_cb *)s)(f, m); }
X int x_trial_divide(td_cb cb, mpz_ptr n, mpz_ptr lim) { return pbc_trial_divide(td_tramp, &cb, n, lim); }

/* ---------------------------------------------------------------- random */
typedef void (*rnd_cb)(mpz_ptr z, mpz_ptr lim, void *d);
static long rnd_calls, rnd_bad; static int rnd_mode; static gmp_randstate_t rs; static int rs_init;
/* monitored source: uniform below the limit, or extreme values */
static void rnd_fun(mpz_t z, mpz_t lim, void *d) {
  (void)d;
  rnd_calls++;
  if (mpz_sgn(lim) <= 0) rnd_bad++;
  unsigned long c = rnd_mode ? (unsigned long)(rnd_calls % 4) : 3;
  if (c == 0) mpz_set_ui(z, 0);
  else if (c == 1) mpz_sub_ui(z, lim, 1);
  else if (c == 2) { mpz_set_ui(z, 1); mpz_mod(z, z, lim); }
  else mpz_urandomm(z, rs, lim);
}
X void x_random_monitored(unsigned long seed, int mode) {
  if (!rs_init) { gmp_randinit_mt(rs); rs_init = 1; }
  gmp_randseed_ui(rs, seed); rnd_mode = mode;
  pbc_random_set_function(rnd_fun, NULL);
}
X void x_random_function(rnd_cb cb, void *d) { pbc_random_set_function(cb, d); }
X long x_random_calls(void) { return rnd_calls; }
X long x_random_bad(void) { return rnd_bad; }
X void x_random_det(unsigned s) { pbc_random_set_deterministic(s); }
X void x_random_file(char *s) { pbc_random_set_file(s); }
X void x_mpz_random(mpz_ptr z, mpz_ptr l) { pbc_mpz_random(z, l); }
X void x_mpz_randomb(mpz_ptr z, unsigned b) { pbc_mpz_randomb(z, b); }
X void x_msg(int i) { pbc_set_msg_to_stderr(i); }

/* ---------------------------------------------------------------- printf */
X int x_esnprintf0(char *b, size_t n, const char *f) { return element_snprintf(b, n, f); }
X int x_esnprintf1(char *b, size_t n, const char *f, void *a) { return element_snprintf(b, n, f, a); }
X int x_esnprintf2(char *b, size_t n, const char *f, void *a, void *c) { return element_snprintf(b, n, f, a, c); }
X int x_esnprintf3(char *b, size_t n, const char *f, void *a, void *c, void *d) { return element_snprintf(b, n, f, a, c, d); }
X int x_efprintf1(FILE *s, const char *f, void *a) { return element_fprintf(s, f, a); }
X int x_efprintf3(FILE *s, const char *f, void *a, void *c, void *d) { return element_fprintf(s, f, a, c, d); }
#define ARGS12 a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11]
X int x_esnprintfv(char *b, size_t n, const char *f, void **a) { return element_snprintf(b, n, f, ARGS12); }
X int x_efprintfv(FILE *s, const char *f, void **a) { return element_fprintf(s, f, ARGS12); }
static int vs(char *b, size_t n, const char *f, ...) { va_list ap; va_start(ap, f); int r = element_vsnprintf(b, n, f, ap); va_end(ap); return r; }
static int vf(FILE *s, const char *f, ...) { va_list ap; va_start(ap, f); int r = element_vfprintf(s, f, ap); va_end(ap); return r; }
X int x_evsnprintfv(char *b, size_t n, const char *f, void **a) { return vs(b, n, f, ARGS12); }
X int x_evfprintfv(FILE *s, const char *f, void **a) { return vf(s, f, ARGS12); }
X int x_gmp1(char *b, size_t n, const char *f, void *a) { return gmp_snprintf(b, n, f, a); }
/* element_printf with standard output pointing at a file */
X int x_eprintfv(const char *path, const char *f, void **a) {
  fflush(stdout);
  int old = dup(1), fd = open(path, O_WRONLY | O_CREAT | O_TRUNC, 0600);
  if (old < 0 || fd < 0) abort();
  dup2(fd, 1); close(fd);
  int r = element_printf(f, ARGS12);
  fflush(stdout);
  dup2(old, 1); close(old);
  return r;
}
X void *x_memfile(char **p, size_t *n) { return open_memstream(p, n); }
X int x_fclose(void *f) { return fclose(f); }
X void x_libc_free(void *p) { free(p); }

/* ---------------------------------------------------------------- containers */
X void *x_darray_new(void) { return darray_new(); }
X void x_darray_append(void *a, void *p) { darray_append(a, p); }
X void *x_darray_at(darray_ptr a, int i) { return darray_at(a, i); }
X int x_darray_count(darray_ptr a) { return darray_count(a); }
X void x_darray_remove_index(darray_ptr a, int i) { darray_remove_index(a, i); }
X void x_darray_remove_last(darray_ptr a) { darray_remove_last(a); }
X void x_darray_remove_all(darray_ptr a) { darray_remove_all(a); }
X int x_darray_index_of(darray_ptr a, void *p) { return darray_index_of(a, p); }
X void x_darray_copy(darray_ptr d, darray_ptr s) { darray_copy(d, s); }
X void x_darray_free(darray_ptr a) { darray_clear(a); pbc_free(a); }
X void *x_symtab_new(void) { struct symtab_s *t = malloc(sizeof(*t)); symtab_init(t); return t; }
X void x_symtab_put(struct symtab_s *t, void *d, const char *k) { symtab_put(t, d, k); }
X int x_symtab_has(struct symtab_s *t, const char *k) { return symtab_has(t, k); }
X void *x_symtab_at(struct symtab_s *t, const char *k) { return symtab_at(t, k); }
X void x_symtab_free(struct symtab_s *t) { symtab_clear(t); free(t); }
typedef int (*da_cb)(void *p, void *s);
static da_cb da_fun; static int da_test(void *p) { return da_fun(p, NULL); } static void da_visit(void *p) { da_fun(p, NULL); }
static void da_visit2(void *p, void *s) { da_fun(p, s); }
static void da_visit3(void *p, void *s, void *t) { if (t == (void *)33) da_fun(p, s); }
static void da_visit4(void *p, void *s, void *t, void *u) { if (t == (void *)33 && u == (void *)44) da_fun(p, s); }
X void x_darray_remove(darray_ptr a, void *p) { darray_remove(a, p); }
X void x_darray_remove_with_test(darray_ptr a, da_cb f) { da_fun = f; darray_remove_with_test(a, da_test); }
X void *x_darray_at_test(darray_ptr a, da_cb f, void *s) { return darray_at_test(a, f, s); }
X void x_darray_forall(darray_ptr a, da_cb f, int k, void *s) {
  da_fun = f;
  if (k == 1) darray_forall(a, da_visit); else if (k == 2) darray_forall2(a, da_visit2, s);
  else if (k == 3) darray_forall3(a, da_visit3, s, (void *)33); else darray_forall4(a, da_visit4, s, (void *)33, (void *)44);
}
X int x_darray_is_empty(darray_ptr a) { return darray_is_empty(a); }
X void *x_darray_last(darray_ptr a) { return darray_last(a); }
X void *x_darray_static_new(void) { struct darray_s *a = malloc(sizeof(*a)); memset(a, 0x77, sizeof(*a)); darray_init(a); return a; }
X void x_darray_static_free(darray_ptr a) { darray_clear(a); free(a); }
X void x_symtab_forall(struct symtab_s *t, da_cb f) { da_fun = f; symtab_forall_data(t, da_visit); }
