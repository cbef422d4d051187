// Observer of released memory for the wiping configuration.  The process's
// malloc/free/realloc/calloc are replaced by recorders, so whatever the library
// (or GMP on its behalf) hands back to the system is looked at in that moment.
// Usage: wipe helpers SEED STEPS | wipe library FILE FAM SEED STEPS
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <gmp.h>
#include "pbc.h"
int lifecycle_main(int argc, char **argv);

static unsigned long st;
static unsigned rnd(unsigned n) { st = st * 6364136223846793005UL + 1442695040888963407UL; return (unsigned)(st >> 33) % n; }

static unsigned char *pend;       // the user range being released right now
static size_t pendn;
static unsigned char *before;     // its contents before the release
static size_t beforecap;
static int pendseen;
static unsigned long released, bytes, moved, nontrivial, unseen, kept, bad;
static const char *kind = "";

static void judge(const unsigned char *q, size_t n, const char *how) {
  size_t i, same = 0, k;
  if (!pend || pendseen || pend < q || pend + pendn > q + n) return;
  pendseen = 1;
  for (i = 0, k = 0; i < pendn; i++) {
    if (pend[i] != pend[0]) k = 1;               // overwritten means: nothing but one constant
    if (before[i] && pend[i] == before[i]) same++;
  }
  if (k && same) { kept++; if (bad++ < 5) fprintf(stderr, "BAD %s block of %zu bytes given back by %s with %zu bytes of its contents\n", kind, pendn, how, same); }
}

#ifndef NO_INTERPOSE
extern void *__libc_malloc(size_t), *__libc_realloc(void *, size_t), *__libc_calloc(size_t, size_t);
extern void __libc_free(void *);
#include <malloc.h>
void *malloc(size_t n) { return __libc_malloc(n); }
void *calloc(size_t a, size_t b) { return __libc_calloc(a, b); }
void free(void *p) { if (p && pend) judge(p, malloc_usable_size(p), "free"); __libc_free(p); }
void *realloc(void *p, size_t n) {
  if (p && pend) judge(p, malloc_usable_size(p), "realloc");
  return __libc_realloc(p, n);
}
#define RAW(n) __libc_malloc(n)
#define UNRAW(p) __libc_free(p)
#else
#define RAW(n) malloc(n)
#define UNRAW(p) free(p)
#endif

// sizes of live user blocks
#define N (1 << 20)
static struct { void *p; size_t n; } *tab;
static size_t slot(void *p) { size_t h = ((size_t)p >> 3) * 0x9E3779B97F4A7C15UL >> 44; while (tab[h].p && tab[h].p != p) h = (h + 1) & (N - 1); return h; }
static void put(void *p, size_t n) { size_t h = slot(p); tab[h].p = p; tab[h].n = n; }
static size_t take(void *p) {
  size_t h = slot(p), n = tab[h].n, i, j;
  if (!tab[h].p) { fprintf(stderr, "BAD release of an unknown block\n"); bad++; return 0; }
  tab[h].p = 0;
  for (i = h, j = (h + 1) & (N - 1); tab[j].p; j = (j + 1) & (N - 1)) {   // reinsert the cluster
    void *q = tab[j].p; size_t m = tab[j].n; tab[j].p = 0; put(q, m);
  }
  (void)i;
  return n;
}
static void arm(void *p, size_t n) {
  size_t i;
  if (n > beforecap) { if (before) UNRAW(before); before = RAW(beforecap = 2 * n + 64); }
  memcpy(before, p, n);
  for (i = 1; i < n && ((unsigned char *)p)[i] == *(unsigned char *)p; i++);
  if (i < n) nontrivial++;
  pend = p; pendn = n; pendseen = 0;
  released++; bytes += n;
}
static void disarm(void) { if (!pendseen) unseen++; pend = 0; }

static void *(*pm)(size_t), *(*pr)(void *, size_t), *(*gm)(size_t), *(*gr)(void *, size_t, size_t);
static void (*pf)(void *), (*gf)(void *, size_t);
static void *rm(size_t n) { void *p = pm(n); put(p, n); return p; }
static void rf(void *p) { if (!p) { pf(p); return; } size_t n = take(p); kind = "library"; if (n) arm(p, n); pf(p); if (n) disarm(); }
static void *re(void *p, size_t n) {
  if (!p) { p = pr(p, n); put(p, n); return p; }
  size_t o = take(p), i, m = o < n ? o : n;
  kind = "library, resized";
  if (o) arm(p, o);
  void *q = pr(p, n);
  if (q == p) pend = 0; else { moved++; if (o) disarm(); }
  for (i = 0; i < m; i++) if (((unsigned char *)q)[i] != before[i]) { if (bad++ < 5) fprintf(stderr, "BAD library block changed contents at %zu when resized from %zu to %zu\n", i, o, n); break; }
  put(q, n);
  return q;
}
static void *hm(size_t n) { void *p = gm(n); put(p, n); return p; }
static void hf(void *p, size_t n) { if (!p) { gf(p, n); return; } size_t k = take(p); if (k != n) { bad++; fprintf(stderr, "BAD size\n"); } kind = "big-integer"; arm(p, n); gf(p, n); disarm(); }
static void *hr(void *p, size_t o, size_t n) {
  size_t k = take(p), i, m = o < n ? o : n;
  if (k != o) { bad++; fprintf(stderr, "BAD size\n"); }
  kind = "big-integer, resized";
  arm(p, o);
  void *q = gr(p, o, n);
  if (q == p) pend = 0; else { moved++; disarm(); }
  for (i = 0; i < m; i++) if (((unsigned char *)q)[i] != before[i]) { if (bad++ < 5) fprintf(stderr, "BAD big-integer block changed contents at %zu when resized from %zu to %zu\n", i, o, n); break; }
  put(q, n);
  return q;
}

static size_t size(void) {
  switch (rnd(6)) { case 0: return 1 + rnd(8); case 1: return 1 + rnd(64); case 2: return 8 * (1 + rnd(40)); case 3: return 1 + rnd(5000); case 4: return (1u << rnd(14)) + rnd(3); default: return rnd(20) ? 1 + rnd(300) : 150000 + rnd(100000); }
}
static void fill(unsigned char *p, size_t n) { size_t i; for (i = 0; i < n; i++) p[i] = (unsigned char)(1 + rnd(255)); }

static int helpers(int steps) {
  enum { K = 200 };
  static struct { unsigned char *p, *copy; size_t n; int g; } b[K];
  int i, k = 0;
  size_t j;
  for (i = 0; i < steps || k; i++) {
    int c = i >= steps ? 9 : (int)rnd(10);
    if (c < 4 && k < K) {
      size_t n = size();
      int g = (int)rnd(2), how = (int)rnd(5);
      unsigned char *p;
      if (g) p = hm(n);
      else if (how == 0) { p = pbc_calloc(n % 50 + 1, n / 50 + 1); n = (n % 50 + 1) * (n / 50 + 1); for (j = 0; j < n; j++) if (p[j]) { bad++; fprintf(stderr, "BAD calloc not zero\n"); break; } }
      else if (how == 1) { char *s = RAW(n + 1); fill((unsigned char *)s, n); s[n] = 0; p = (unsigned char *)pbc_strdup(s); if (strcmp(s, (char *)p)) { bad++; fprintf(stderr, "BAD strdup\n"); } n++; UNRAW(s); }
      else if (how == 2) p = pbc_realloc(NULL, n);
      else p = pbc_malloc(n);
      fill(p, n);
      b[k].p = p; b[k].n = n; b[k].g = g; b[k].copy = RAW(n); memcpy(b[k].copy, p, n);
      k++;
    } else if (k) {
      int x = (int)rnd((unsigned)k);
      if (memcmp(b[x].p, b[x].copy, b[x].n)) { if (bad++ < 5) fprintf(stderr, "BAD contents of a live block changed\n"); }
      if (c < 8 && i < steps) {
        size_t n = rnd(4) ? size() : b[x].n + rnd(3), m;
        if (!n) n = 1;
        b[x].p = b[x].g ? hr(b[x].p, b[x].n, n) : pbc_realloc(b[x].p, n);
        m = n < b[x].n ? n : b[x].n;
        if (memcmp(b[x].p, b[x].copy, m)) { if (bad++ < 5) fprintf(stderr, "BAD contents lost when resizing from %zu to %zu\n", b[x].n, n); }
        fill(b[x].p, n);
        UNRAW(b[x].copy); b[x].copy = RAW(n); memcpy(b[x].copy, b[x].p, n); b[x].n = n;
      } else {
        if (b[x].g) hf(b[x].p, b[x].n); else pbc_free(b[x].p);
        UNRAW(b[x].copy);
        b[x] = b[--k];
      }
    }
  }
  pbc_free(NULL);
  return 0;
}

int main(int argc, char **argv) {
  int r = 0;
  tab = calloc(N, sizeof(*tab));
  pm = pbc_malloc; pr = pbc_realloc; pf = pbc_free;
  mp_get_memory_functions(&gm, &gr, &gf);
  pbc_set_memory_functions(rm, re, rf);
  mp_set_memory_functions(hm, hr, hf);
  if (!strcmp(argv[1], "helpers")) { st = strtoul(argv[2], 0, 10); r = helpers(atoi(argv[3])); }
  else r = lifecycle_main(argc - 1, argv + 1);
  fflush(stdout);
  fprintf(stderr, "SEEN released=%lu bytes=%lu moved=%lu nontrivial=%lu unseen=%lu kept=%lu bad=%lu\n", released, bytes, moved, nontrivial, unseen, kept, bad);
  UNRAW(tab);
  return r;
}
