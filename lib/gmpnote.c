// Tells the race detector what the (uninstrumented) big-integer calls made by
// the library read and write.  Linked with --wrap for each function below.
#include <stddef.h>
#include <gmp.h>
void __tsan_read_range(void *, unsigned long);
void __tsan_write_range(void *, unsigned long);

#define G(name, spec) \
  long __real_##name(long, long, long, long, long, long); \
  long __wrap_##name(long a, long b, long c, long d, long e, long f) { \
    long v[6] = {a, b, c, d, e, f}; \
    int i; \
    for (i = 0; spec[i]; i++) { \
      mpz_ptr z = (mpz_ptr)v[i]; \
      if (spec[i] == 'r') __tsan_read_range(&z->_mp_size, sizeof(z->_mp_size)); \
      if (spec[i] == 'w') __tsan_write_range(&z->_mp_size, sizeof(z->_mp_size)); \
    } \
    return __real_##name(a, b, c, d, e, f); \
  }
// limb-array calls: L<i> lengths are the last integer argument
#define N(name, dw, s1, s2, len, dlen) \
  long __real_##name(long, long, long, long, long, long); \
  long __wrap_##name(long a, long b, long c, long d, long e, long f) { \
    long v[6] = {a, b, c, d, e, f}; \
    unsigned long n = (unsigned long)v[len] * sizeof(mp_limb_t); \
    if (s1 >= 0) __tsan_read_range((void *)v[s1], n); \
    if (s2 >= 0) __tsan_read_range((void *)v[s2], n); \
    if (dw >= 0) __tsan_write_range((void *)v[dw], n * (dlen)); \
    return __real_##name(a, b, c, d, e, f); \
  }
#include "gmpnote.inc"

void *__real___gmpz_export(void *, size_t *, int, size_t, int, size_t, mpz_srcptr);
void *__wrap___gmpz_export(void *p, size_t *c, int o, size_t s, int en, size_t nl, mpz_srcptr z) {
  __tsan_read_range((void *)&z->_mp_size, sizeof(z->_mp_size));
  size_t n = 0;
  void *r = __real___gmpz_export(p, &n, o, s, en, nl, z);
  if (p) __tsan_write_range(p, n * s);
  if (c) *c = n;
  return r;
}
void __real___gmpz_import(mpz_ptr, size_t, int, size_t, int, size_t, const void *);
void __wrap___gmpz_import(mpz_ptr z, size_t c, int o, size_t s, int en, size_t nl, const void *p) {
  __tsan_write_range(&z->_mp_size, sizeof(z->_mp_size));
  __tsan_read_range((void *)p, c * s);
  __real___gmpz_import(z, c, o, s, en, nl, p);
}
void __real___gmpn_tdiv_qr(mp_ptr, mp_ptr, mp_size_t, mp_srcptr, mp_size_t, mp_srcptr, mp_size_t);
void __wrap___gmpn_tdiv_qr(mp_ptr q, mp_ptr r, mp_size_t x, mp_srcptr n, mp_size_t nn, mp_srcptr d, mp_size_t dn) {
  __tsan_read_range((void *)n, (unsigned long)nn * sizeof(*n));
  __tsan_read_range((void *)d, (unsigned long)dn * sizeof(*d));
  __tsan_write_range(q, (unsigned long)(nn - dn + 1) * sizeof(*q));
  __tsan_write_range(r, (unsigned long)dn * sizeof(*r));
  __real___gmpn_tdiv_qr(q, r, x, n, nn, d, dn);
}
