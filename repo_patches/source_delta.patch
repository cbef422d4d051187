From 3890664573a68234409fc4f30f3a2e82352c8e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:01 +0000
Subject: [PATCH 001/105] fix: montfp: do not lose a carry when multiplying
 modulo a prime whose top limb is full

---
 arith/montfp.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/arith/montfp.c b/arith/montfp.c
index bae03da..7682e7b 100644
--- a/arith/montfp.c
+++ b/arith/montfp.c
@@ -343,9 +343,12 @@ static inline void mont_mul(mp_limb_t *c, mp_limb_t *a, mp_limb_t *b,
   z[t + 1] = z[t] < v;  // Handle overflow.
   for (i = 1; i < t; i++) {
     u = (z[i] + a[i] * b[0]) * p->negpinv;
-    v = z[t + i] += mpn_addmul_1(z + i, b, t, a[i]);
-    z[t + i] += mpn_addmul_1(z + i, p->primelimbs, t, u);
-    z[t + i + 1] = z[t + i] < v;
+    v = mpn_addmul_1(z + i, b, t, a[i]);
+    z[t + i] += v;
+    z[t + i + 1] = z[t + i] < v;  // Either addition may overflow.
+    v = mpn_addmul_1(z + i, p->primelimbs, t, u);
+    z[t + i] += v;
+    z[t + i + 1] += z[t + i] < v;
   }
   if (z[t * 2] || mpn_cmp(z + t, p->primelimbs, t) >= 0) {
     mpn_sub_n(c, z + t, p->primelimbs, t);
-- 
2.43.0


From caaa4e875fca778ad41b2221da8ccade2bde0a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:01 +0000
Subject: [PATCH 002/105] fix: montfp, fasterfp: halving an odd representation
 into a zero element left the result zero

---
 arith/fasterfp.c | 1 +
 arith/montfp.c   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/arith/fasterfp.c b/arith/fasterfp.c
index 7dccb03..452dc65 100644
--- a/arith/fasterfp.c
+++ b/arith/fasterfp.c
@@ -237,6 +237,7 @@ static void fp_halve(element_ptr c, element_ptr a) {
     mp_limb_t *climb = cd->d;
     if (alimb[0] & 1) {
       carry = mpn_add_n(climb, alimb, p->primelimbs, t);
+      cd->flag = 2;
     } else fp_set(c, a);
 
     mpn_rshift(climb, climb, t, 1);
diff --git a/arith/montfp.c b/arith/montfp.c
index 7682e7b..309d833 100644
--- a/arith/montfp.c
+++ b/arith/montfp.c
@@ -287,6 +287,7 @@ static void fp_halve(element_ptr c, element_ptr a) {
     mp_limb_t *climb = cd->d;
     if (alimb[0] & 1) {
       carry = mpn_add_n(climb, alimb, p->primelimbs, t);
+      cd->flag = 2;
     } else fp_set(c, a);
 
     mpn_rshift(climb, climb, t, 1);
-- 
2.43.0


From d45ddc164510511c886663a2185460d78eae4d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:01 +0000
Subject: [PATCH 003/105] fix: montfp, fasterfp: comparing a nonzero element
 with zero read stale limbs

---
 arith/fasterfp.c | 2 ++
 arith/montfp.c   | 1 +
 2 files changed, 3 insertions(+)

diff --git a/arith/fasterfp.c b/arith/fasterfp.c
index 452dc65..ae5da28 100644
--- a/arith/fasterfp.c
+++ b/arith/fasterfp.c
@@ -421,6 +421,8 @@ static int fp_cmp(element_ptr a, element_ptr b) {
   dataptr ad = a->data, bd = b->data;
   if (!ad->flag) {
     return bd->flag;
+  } else if (!bd->flag) {
+    return 1;
   } else {
     fp_field_data_ptr p = a->field->data;
     return mpn_cmp(ad->d, bd->d, p->limbs);
diff --git a/arith/montfp.c b/arith/montfp.c
index 309d833..fc3a1b5 100644
--- a/arith/montfp.c
+++ b/arith/montfp.c
@@ -454,6 +454,7 @@ static void fp_from_hash(element_ptr a, const void *data, int len) {
 static int fp_cmp(element_ptr a, element_ptr b) {
   eptr ad = a->data, bd = b->data;
   if (!ad->flag) return bd->flag;
+  else if (!bd->flag) return 1;
   else {
     fptr p = a->field->data;
     return mpn_cmp(ad->d, bd->d, p->limbs);
-- 
2.43.0


From 4f8de5796c14e99bc0bb663c25214eb8bfb2dd8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:01 +0000
Subject: [PATCH 004/105] fix: montfp, fasterfp: zero to the power zero is one,
 as in the other fields

---
 arith/fasterfp.c | 3 ++-
 arith/montfp.c   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/arith/fasterfp.c b/arith/fasterfp.c
index ae5da28..bd7542f 100644
--- a/arith/fasterfp.c
+++ b/arith/fasterfp.c
@@ -370,7 +370,8 @@ static void fp_mul_si(element_ptr c, element_ptr a, signed long int op) {
 static void fp_pow_mpz(element_ptr c, element_ptr a, mpz_ptr op) {
   dataptr ad = a->data;
   dataptr cd = c->data;
-  if (!ad->flag) cd->flag = 0;
+  if (!mpz_sgn(op)) fp_set1(c);
+  else if (!ad->flag) cd->flag = 0;
   else {
     mpz_t z;
     mpz_init(z);
diff --git a/arith/montfp.c b/arith/montfp.c
index fc3a1b5..8a5c9ea 100644
--- a/arith/montfp.c
+++ b/arith/montfp.c
@@ -385,7 +385,8 @@ static void fp_pow_mpz(element_ptr c, element_ptr a, mpz_ptr op) {
   fptr p = a->field->data;
   eptr ad = a->data;
   eptr cd = c->data;
-  if (!ad->flag) cd->flag = 0;
+  if (!mpz_sgn(op)) fp_set1(c);
+  else if (!ad->flag) cd->flag = 0;
   else {
     mpz_t z;
     mpz_init(z);
-- 
2.43.0


From 1df1160bcce16b4bd848f9f9b85d2028a67b6b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:01 +0000
Subject: [PATCH 005/105] fix: montfp, fasterfp: flag a result that is zero
 modulo the modulus as zero

---
 arith/fasterfp.c | 18 +++++++++++++-----
 arith/montfp.c   | 11 +++++++++--
 2 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/arith/fasterfp.c b/arith/fasterfp.c
index bd7542f..5834d92 100644
--- a/arith/fasterfp.c
+++ b/arith/fasterfp.c
@@ -38,6 +38,12 @@ struct data_s {
 };
 typedef struct data_s *dataptr;
 
+// Returns 1 if all n limbs are zero.
+static inline int limbs_is0(const mp_limb_t *d, size_t n) {
+  while (n) if (d[--n]) return 0;
+  return 1;
+}
+
 static void fp_init(element_ptr e) {
   fp_field_data_ptr p = e->field->data;
   dataptr dp = e->data = pbc_malloc(sizeof(struct data_s));
@@ -70,8 +76,8 @@ static void fp_set_mpz(element_ptr e, mpz_ptr z) {
     mpz_init(tmp);
     mpz_mod(tmp, z, e->field->order);
     from_mpz(e, tmp);
+    dp->flag = mpz_sgn(tmp) ? 2 : 0;
     mpz_clear(tmp);
-    dp->flag = 2;
   }
 }
 
@@ -300,7 +306,8 @@ static void fp_mul(element_ptr c, element_ptr a, element_ptr b) {
     mpn_mul_n(tmp, ad->d, bd->d, t);
 
     mpn_tdiv_qr(qp, cd->d, 0, tmp, 2 * t, p->primelimbs, t);
-    cd->flag = 2;
+    // The product of nonzero elements may be zero if the modulus is composite.
+    cd->flag = limbs_is0(cd->d, t) ? 0 : 2;
 
     pbc_free(buf);
   }
@@ -327,6 +334,7 @@ static void fp_square(element_ptr c, element_ptr a) {
       mpz_powm_ui(z1, z2, 2, c->field->order);
     }
 
+    if (!z1->_mp_size) cd->flag = 0;
     diff = p->limbs - z1->_mp_size;
     if (diff) memset(&z1->_mp_d[z1->_mp_size], 0, diff * sizeof(mp_limb_t));
 
@@ -352,7 +360,6 @@ static void fp_mul_si(element_ptr c, element_ptr a, signed long int op) {
   if (!ad->flag || !op) {
     cd->flag = 0;
   } else {
-    cd->flag = 2;
     fp_field_data_ptr p = a->field->data;
     size_t t = p->limbs;
     mp_limb_t* tmp = pbc_malloc((t + 1) * sizeof(mp_limb_t));
@@ -361,7 +368,8 @@ static void fp_mul_si(element_ptr c, element_ptr a, signed long int op) {
     tmp[t] = mpn_mul_1(tmp, ad->d, t, labs(op));
     mpn_tdiv_qr(qp, cd->d, 0, tmp, t + 1, p->primelimbs, t);
     pbc_free(tmp);
-    if (op < 0) {               //TODO: don't need to check c != 0 this time
+    cd->flag = limbs_is0(cd->d, t) ? 0 : 2;
+    if (op < 0) {
       fp_neg(c, c);
     }
   }
@@ -378,8 +386,8 @@ static void fp_pow_mpz(element_ptr c, element_ptr a, mpz_ptr op) {
     fp_to_mpz(z, a);
     mpz_powm(z, z, op, a->field->order);
     from_mpz(c, z);
+    cd->flag = mpz_sgn(z) ? 2 : 0;
     mpz_clear(z);
-    cd->flag = 2;
   }
 }
 
diff --git a/arith/montfp.c b/arith/montfp.c
index 8a5c9ea..dbdb1d2 100644
--- a/arith/montfp.c
+++ b/arith/montfp.c
@@ -38,6 +38,12 @@ typedef struct {
   mp_limb_t *d;  // Otherwise d points to an array holding the element.
 } *eptr;
 
+// Returns 1 if all n limbs are zero.
+static inline int limbs_is0(const mp_limb_t *d, size_t n) {
+  while (n) if (d[--n]) return 0;
+  return 1;
+}
+
 // Copies limbs of z into dst and zeroes any leading limbs, where n is the
 // total number of limbs.
 // Requires z to have at most n limbs.
@@ -376,7 +382,8 @@ static void fp_mul(element_ptr c, element_ptr a, element_ptr b) {
   } else {
     fptr p = c->field->data;
     mont_mul(cd->d, ad->d, bd->d, p);
-    cd->flag = 2;
+    // The product of nonzero elements may be zero if the modulus is composite.
+    cd->flag = limbs_is0(cd->d, p->limbs) ? 0 : 2;
   }
 }
 
@@ -394,9 +401,9 @@ static void fp_pow_mpz(element_ptr c, element_ptr a, mpz_ptr op) {
     mpz_powm(z, z, op, a->field->order);
     mpz_mul_2exp(z, z, p->bytes * 8);
     mpz_mod(z, z, a->field->order);
+    cd->flag = mpz_sgn(z) ? 2 : 0;
     set_limbs(cd->d, z, p->limbs);
     mpz_clear(z);
-    cd->flag = 2;
   }
 }
 
-- 
2.43.0


From 2eda8904c0cb0a50e33767dbf8321b6becb06d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:01 +0000
Subject: [PATCH 006/105] fix: Fp from_bytes: reduce integers that are not
 below the modulus

---
 arith/fasterfp.c | 1 +
 arith/montfp.c   | 4 ++--
 arith/naivefp.c  | 1 +
 3 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/arith/fasterfp.c b/arith/fasterfp.c
index 5834d92..ecf3e7d 100644
--- a/arith/fasterfp.c
+++ b/arith/fasterfp.c
@@ -498,6 +498,7 @@ static int fp_from_bytes(element_t a, const unsigned char *data) {
 
   n = a->field->fixed_length_in_bytes;
   mpz_import(z, n, 1, 1, 1, 0, data);
+  mpz_mod(z, z, a->field->order);
   if (!mpz_sgn(z)) ad->flag = 0;
   else {
     ad->flag = 2;
diff --git a/arith/montfp.c b/arith/montfp.c
index dbdb1d2..067d681 100644
--- a/arith/montfp.c
+++ b/arith/montfp.c
@@ -518,11 +518,11 @@ static int fp_from_bytes(element_t a, const unsigned char *data) {
 
   n = a->field->fixed_length_in_bytes;
   mpz_import(z, n, 1, 1, 1, 0, data);
+  mpz_mul_2exp(z, z, p->bytes * 8);
+  mpz_mod(z, z, a->field->order);
   if (!mpz_sgn(z)) ad->flag = 0;
   else {
     ad->flag = 2;
-    mpz_mul_2exp(z, z, p->bytes * 8);
-    mpz_mod(z, z, a->field->order);
     set_limbs(ad->d, z, p->limbs);
   }
   mpz_clear(z);
diff --git a/arith/naivefp.c b/arith/naivefp.c
index 1248641..56fe5b0 100644
--- a/arith/naivefp.c
+++ b/arith/naivefp.c
@@ -215,6 +215,7 @@ static int zp_from_bytes(element_t e, const unsigned char *data) {
   int n;
   n = e->field->fixed_length_in_bytes;
   mpz_import(z, n, 1, 1, 1, 0, data);
+  mpz_mod(z, z, e->field->order);
   return n;
 }
 
-- 
2.43.0


From 739c4583baa95b7aa360d0443caa52880a60cd1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:01 +0000
Subject: [PATCH 007/105] fix: fastfp, fasterfp: negating LONG_MIN overflowed

---
 arith/fasterfp.c | 4 ++--
 arith/fastfp.c   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/arith/fasterfp.c b/arith/fasterfp.c
index ecf3e7d..0c0a798 100644
--- a/arith/fasterfp.c
+++ b/arith/fasterfp.c
@@ -89,7 +89,7 @@ static void fp_set_si(element_ptr e, signed long int op) {
     const fp_field_data_ptr p = e->field->data;
     const size_t t = p->limbs;
     if (op < 0) {
-      mpn_sub_1(dp->d, p->primelimbs, t, -op);
+      mpn_sub_1(dp->d, p->primelimbs, t, -(mp_limb_t) op);
     } else {
       dp->d[0] = op;
       memset(&dp->d[1], 0, sizeof(mp_limb_t) * (t - 1));
@@ -365,7 +365,7 @@ static void fp_mul_si(element_ptr c, element_ptr a, signed long int op) {
     mp_limb_t* tmp = pbc_malloc((t + 1) * sizeof(mp_limb_t));
     mp_limb_t qp[2];
 
-    tmp[t] = mpn_mul_1(tmp, ad->d, t, labs(op));
+    tmp[t] = mpn_mul_1(tmp, ad->d, t, op < 0 ? -(mp_limb_t) op : (mp_limb_t) op);
     mpn_tdiv_qr(qp, cd->d, 0, tmp, t + 1, p->primelimbs, t);
     pbc_free(tmp);
     cd->flag = limbs_is0(cd->d, t) ? 0 : 2;
diff --git a/arith/fastfp.c b/arith/fastfp.c
index 62a20ef..fbb3a14 100644
--- a/arith/fastfp.c
+++ b/arith/fastfp.c
@@ -58,7 +58,7 @@ static void fp_set_si(element_ptr e, signed long int op) {
   const size_t t = p->limbs;
   mp_limb_t *d = e->data;
   if (op < 0) {
-    mpn_sub_1(d, p->primelimbs, t, -op);
+    mpn_sub_1(d, p->primelimbs, t, -(mp_limb_t) op);
   } else {
     d[0] = op;
     memset(&d[1], 0, sizeof(mp_limb_t) * (t - 1));
@@ -232,7 +232,7 @@ static void fp_mul_si(element_ptr e, element_ptr a, signed long int op) {
   mp_limb_t* tmp = pbc_malloc((t + 1) * sizeof(mp_limb_t));
   mp_limb_t qp[2];
 
-  tmp[t] = mpn_mul_1(tmp, a->data, t, labs(op));
+  tmp[t] = mpn_mul_1(tmp, a->data, t, op < 0 ? -(mp_limb_t) op : (mp_limb_t) op);
   mpn_tdiv_qr(qp, e->data, 0, tmp, t + 1, p->primelimbs, t);
   pbc_free(tmp);
   if (op < 0) {
-- 
2.43.0


From 42d8e65426e7a58136fd451f0b4b2d4794e0e9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:27 +0000
Subject: [PATCH 008/105] fix: poly: strip leading zeroes after multiplying by
 an integer that vanishes in the base field

---
 arith/poly.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arith/poly.c b/arith/poly.c
index 62e63c0..a15ddf1 100644
--- a/arith/poly.c
+++ b/arith/poly.c
@@ -267,6 +267,7 @@ static void poly_double(element_ptr f, element_ptr g) {
   for (i=0; i<n; i++) {
     element_double(pf->coeff->item[i], pg->coeff->item[i]);
   }
+  poly_remove_leading_zeroes(f);
 }
 
 static void poly_mul_mpz(element_ptr f, element_ptr g, mpz_ptr z) {
@@ -279,6 +280,7 @@ static void poly_mul_mpz(element_ptr f, element_ptr g, mpz_ptr z) {
   for (i=0; i<n; i++) {
     element_mul_mpz(pf->coeff->item[i], pg->coeff->item[i], z);
   }
+  poly_remove_leading_zeroes(f);
 }
 
 static void poly_mul_si(element_ptr f, element_ptr g, signed long int z) {
@@ -291,6 +293,7 @@ static void poly_mul_si(element_ptr f, element_ptr g, signed long int z) {
   for (i=0; i<n; i++) {
     element_mul_si(pf->coeff->item[i], pg->coeff->item[i], z);
   }
+  poly_remove_leading_zeroes(f);
 }
 
 static void poly_mul(element_ptr r, element_ptr f, element_ptr g) {
-- 
2.43.0


From d3a12cf46f16483a976699f6778c6ae570e40924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:27 +0000
Subject: [PATCH 009/105] fix: poly_findroot: heap overflow for linear
 polynomials

---
 arith/poly.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/arith/poly.c b/arith/poly.c
index a15ddf1..14a7a7b 100644
--- a/arith/poly.c
+++ b/arith/poly.c
@@ -1646,6 +1646,12 @@ void element_field_to_polymod(element_ptr f, element_ptr g) {
 
 // Returns 0 when a root exists and sets root to one of the roots.
 int poly_findroot(element_ptr root, element_ptr poly) {
+  // x does not fit in the quotient by a linear polynomial.
+  if (poly_degree(poly) == 1) {
+    element_neg(root, poly_coeff(poly, 0));
+    return 0;
+  }
+
   // Compute gcd(x^q - x, poly).
   field_t fpxmod;
   element_t p, x, r, fac, g;
-- 
2.43.0


From c205997fabcf9513a3beb7cf277ab346fde3f372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:31 +0000
Subject: [PATCH 010/105] fix: GF(3^m): draw random elements uniformly from the
 configured source

---
 arith/ternary_extension_field.c | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/arith/ternary_extension_field.c b/arith/ternary_extension_field.c
index b4e9f3f..cce6d11 100644
--- a/arith/ternary_extension_field.c
+++ b/arith/ternary_extension_field.c
@@ -22,6 +22,7 @@
 #include "pbc_utils.h"
 #include "pbc_memory.h"
 #include "pbc_field.h"
+#include "pbc_random.h"
 
 typedef unsigned long gf3;
 
@@ -207,20 +208,15 @@ static int gf3m_is1(element_t e) {
 
 /* set $a$ to be a random element in $GF(3^m)$ */
 static void gf3m_random(element_t a) {
-    /* TODO: use uniform distribution? */
     params *c = PARAM(a);
-    unsigned rm = c->m % W;
-    const unsigned long i1 = ~0ul;
-    unsigned long i2 = (1ul << rm) - 1;
-    unsigned long *a1 = DATA1(a), *a2 = DATA2(a);
     unsigned i;
-    for (i = 0; i < c->len - 1; i++, a1++, a2++) { /* TODO: if $RAND_MAX < i1$ ? */
-        *a1 = rand() & i1;
-        *a2 = rand() & i1 & ~(*a1); /* assuring there is no bit that a1[x] & a2[x] == 1 */
-    }
-    unsigned long x = rm ? i2 : i1;
-    *a1 = rand() & x;
-    *a2 = rand() & x & ~(*a1);
+    mpz_t z;
+    mpz_init(z);
+    pbc_mpz_random(z, a->field->order);
+    gf3m_zero(a);
+    for (i = 0; i < c->m; i++)
+        gf3m_set(a, i, (unsigned) mpz_tdiv_q_ui(z, z, 3));
+    mpz_clear(z);
 }
 
 static void swap(unsigned long *a, unsigned long *b) {
-- 
2.43.0


From 6a1fda8de86f58baf3ec1e1fced91c57b47efcda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:00 +0000
Subject: [PATCH 011/105] fix: GF(3^m) from_bytes: reduce encodings that are
 not of a field element

---
 arith/ternary_extension_field.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arith/ternary_extension_field.c b/arith/ternary_extension_field.c
index cce6d11..cb7b04a 100644
--- a/arith/ternary_extension_field.c
+++ b/arith/ternary_extension_field.c
@@ -457,7 +457,11 @@ int gf3m_from_bytes(element_ptr e, const unsigned char *d) {
             *b += d[j + 1];
             j -= 2;
         }
+        unsigned long three = *a & *b; /* coefficients 3 == 0 */
+        *a ^= three;
+        *b ^= three;
     }
+    gf3m_reduct(e, LEN(e), LEN(e) * W - 1);
     return SIZE(e);
 }
 
-- 
2.43.0


From 64229ef93c9d1cd30ccb1c4b6369098559b97d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:22 +0000
Subject: [PATCH 012/105] fix: GF(3^2m) inversion and GF(3^3m) negation were
 missing, so dividing or inverting in GT of a type I pairing called an
 uninitialized pointer

---
 arith/ternary_extension_field.c | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/arith/ternary_extension_field.c b/arith/ternary_extension_field.c
index cb7b04a..c75c326 100644
--- a/arith/ternary_extension_field.c
+++ b/arith/ternary_extension_field.c
@@ -636,6 +636,25 @@ static void gf32m_mult(element_t e, element_t a, element_t b) {
     element_clear(c1);
 }
 
+/* $e <- a^{-1}$ */
+static void gf32m_invert(element_t e, element_t a) {
+    element_ptr a0 = GF32M(a)->_0, a1 = GF32M(a)->_1, e0 = GF32M(e)->_0, e1 =
+            GF32M(e)->_1;
+    field_ptr base = BASE(a);
+    element_t d, t;
+    element_init(d, base);
+    element_init(t, base);
+    element_mul(d, a0, a0);
+    element_mul(t, a1, a1);
+    element_add(d, d, t);
+    element_invert(d, d); // d == 1 / (a0^2 + a1^2)
+    element_mul(e0, a0, d);
+    element_neg(t, a1);
+    element_mul(e1, t, d);
+    element_clear(d);
+    element_clear(t);
+}
+
 /* $e <- a^3$ */
 static void gf32m_cubic(element_t e, element_t a) {
     element_ptr a0 = GF32M(a)->_0, a1 = GF32M(a)->_1, e0 = GF32M(e)->_0, e1 =
@@ -674,6 +693,7 @@ void field_init_gf32m(field_t f, field_t b) {
     f->neg = gf32m_neg;
     f->mul = gf32m_mult;
     f->cubic = gf32m_cubic;
+    f->invert = gf32m_invert;
     f->item_count = gf32m_item_count;
     f->item = gf32m_item;
     f->out_str = gf32m_out_str;
@@ -774,6 +794,13 @@ static void gf33m_sub(element_t c, element_t a, element_t b) {
     element_sub(c2, a2, b2);
 }
 
+/* $c <- -a$ */
+static void gf33m_neg(element_t c, element_t a) {
+    element_neg(GF33M(c)->_0, GF33M(a)->_0);
+    element_neg(GF33M(c)->_1, GF33M(a)->_1);
+    element_neg(GF33M(c)->_2, GF33M(a)->_2);
+}
+
 /* $c <- a*b$ */
 static void gf33m_mult(element_t e, element_t a, element_t b) {
     element_ptr a0 = GF33M(a)->_0, a1 = GF33M(a)->_1, a2 = GF33M(a)->_2, b0 =
@@ -938,6 +965,7 @@ void field_init_gf33m(field_t f, field_t b) {
     f->cmp = gf33m_cmp;
     f->add = gf33m_add;
     f->sub = gf33m_sub;
+    f->neg = gf33m_neg;
     f->mul = gf33m_mult;
     f->cubic = gf33m_cubic;
     f->invert = gf33m_invert;
-- 
2.43.0


From 3de7d99b2bd60626e3253895ca9712316f82b1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:58 +0000
Subject: [PATCH 013/105] fix: element_mul_si returned its operand unchanged in
 the curve groups and GT

---
 arith/field.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/arith/field.c b/arith/field.c
index 5fcbf28..c995cbb 100644
--- a/arith/field.c
+++ b/arith/field.c
@@ -392,11 +392,11 @@ static void generic_mul_mpz(element_ptr r, element_ptr a, mpz_ptr z) {
 }
 
 static void generic_mul_si(element_ptr r, element_ptr a, signed long int n) {
-  element_t e0;
-  element_init(e0, r->field);
-  element_set_si(e0, n);
-  element_mul(r, a, e0);
-  element_clear(e0);
+  mpz_t z;
+  mpz_init(z);
+  mpz_set_si(z, n);
+  element_mul_mpz(r, a, z);
+  mpz_clear(z);
 }
 
 static void generic_double(element_ptr r, element_ptr a) {
-- 
2.43.0


From 9faf010a09f29b0c24252d589f740e319ae05c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:58 +0000
Subject: [PATCH 014/105] fix: negative exponents in the generic power routines
 gave the power of a different number

---
 arith/field.c | 52 +++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 52 insertions(+)

diff --git a/arith/field.c b/arith/field.c
index c995cbb..3092478 100644
--- a/arith/field.c
+++ b/arith/field.c
@@ -110,6 +110,19 @@ static void element_pow_wind(element_ptr x, mpz_ptr n,
   element_clear(result);
 }
 
+// Sets b, m so that a^n = b^m and m >= 0.
+static void init_abs_power(element_ptr b, mpz_ptr m,
+                           element_ptr a, mpz_ptr n) {
+  element_init(b, a->field);
+  mpz_init(m);
+  mpz_abs(m, n);
+  if (mpz_sgn(n) < 0) {
+    element_invert(b, a);
+  } else {
+    element_set(b, a);
+  }
+}
+
 static void generic_pow_mpz(element_ptr x, element_ptr a, mpz_ptr n) {
   int k;
   element_t *a_lookup;
@@ -119,6 +132,16 @@ static void generic_pow_mpz(element_ptr x, element_ptr a, mpz_ptr n) {
     return;
   }
 
+  if (mpz_sgn(n) < 0) {
+    element_t b;
+    mpz_t m;
+    init_abs_power(b, m, a, n);
+    generic_pow_mpz(x, b, m);
+    element_clear(b);
+    mpz_clear(m);
+    return;
+  }
+
   k = optimal_pow_window_size(n);
   a_lookup = build_pow_window(a, k);
   element_pow_wind(x, n, k, a_lookup);
@@ -162,6 +185,19 @@ void element_pow2_mpz(element_ptr x, element_ptr a1, mpz_ptr n1,
     return;
   }
 
+  if (mpz_sgn(n1) < 0 || mpz_sgn(n2) < 0) {
+    element_t c1, c2;
+    mpz_t m1, m2;
+    init_abs_power(c1, m1, a1, n1);
+    init_abs_power(c2, m2, a2, n2);
+    element_pow2_mpz(x, c1, m1, c2, m2);
+    element_clear(c1);
+    element_clear(c2);
+    mpz_clear(m1);
+    mpz_clear(m2);
+    return;
+  }
+
   element_init(result, x->field);
   element_set1(result);
 
@@ -203,6 +239,22 @@ void element_pow3_mpz(element_ptr x, element_ptr a1, mpz_ptr n1,
     return;
   }
 
+  if (mpz_sgn(n1) < 0 || mpz_sgn(n2) < 0 || mpz_sgn(n3) < 0) {
+    element_t c1, c2, c3;
+    mpz_t m1, m2, m3;
+    init_abs_power(c1, m1, a1, n1);
+    init_abs_power(c2, m2, a2, n2);
+    init_abs_power(c3, m3, a3, n3);
+    element_pow3_mpz(x, c1, m1, c2, m2, c3, m3);
+    element_clear(c1);
+    element_clear(c2);
+    element_clear(c3);
+    mpz_clear(m1);
+    mpz_clear(m2);
+    mpz_clear(m3);
+    return;
+  }
+
   element_init(result, x->field);
   element_set1(result);
 
-- 
2.43.0


From 25e31776856554408ec922eba4082029b44bcd6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:58 +0000
Subject: [PATCH 015/105] fix: element_pp_pow: wrong power for negative
 exponents and for exponents above the field order

---
 arith/field.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/arith/field.c b/arith/field.c
index 3092478..dbd7f87 100644
--- a/arith/field.c
+++ b/arith/field.c
@@ -358,8 +358,12 @@ static void element_pow_base_table(element_ptr x, mpz_ptr power,
     element_set1(x);
     return;
   }
-  if (mpz_cmp(n, x->field->order) > 0) {
-    mpz_mod(n, n, x->field->order);
+  // Exponents the table does not cover. (They cannot be reduced: the order of
+  // a field is not the order of its multiplicative group.)
+  if (mpz_sgn(n) < 0 || mpz_sizeinbase(n, 2) > (size_t) base_table->bits) {
+    mpz_clear(n);
+    element_pow_mpz(x, base_table->table[0][1], power);
+    return;
   }
 
   element_init(result, x->field);
-- 
2.43.0


From cba410053bdbfbe1b84765eec83b13fcb6d91662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:58 +0000
Subject: [PATCH 016/105] fix: pbc_mpz_from_hash could return the limit itself,
 which is not a reduced value

---
 arith/field.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arith/field.c b/arith/field.c
index dbd7f87..7b79a77 100644
--- a/arith/field.c
+++ b/arith/field.c
@@ -718,7 +718,7 @@ void pbc_mpz_from_hash(mpz_t z, mpz_t limit,
   PBC_ASSERT(i == count, "did not read whole buffer");
   mpz_import(z, count, 1, 1, 1, 0, buf);
   pbc_free(buf);
-  while (mpz_cmp(z, limit) > 0) {
+  while (mpz_cmp(z, limit) >= 0) {
     mpz_tdiv_q_2exp(z, z, 1);
   }
 }
-- 
2.43.0


From 4e9c9f33fa71e8548d2ab12fbc5013d66c3fc167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:58 +0000
Subject: [PATCH 017/105] fix: the default element_snprint left a one-byte
 buffer unterminated

---
 arith/field.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arith/field.c b/arith/field.c
index 7b79a77..a2c2c37 100644
--- a/arith/field.c
+++ b/arith/field.c
@@ -599,7 +599,7 @@ static element_ptr generic_get_y(element_ptr e) {
 static int default_element_snprint(char *s, size_t n, element_t e) {
   UNUSED_VAR(e);
   if (n == 1) {
-    s[0] = '0';
+    s[0] = '\0';
   } else if (n >= 2) {
     s[0] = '?';
     s[1] = '\0';
-- 
2.43.0


From 9962b2d3bd3296f192160e5713f35fc62d8aeae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:28 +0000
Subject: [PATCH 018/105] fix: element_multi_double, element_multi_add: O,
 order-two and equal points spoiled the whole batch

---
 ecc/curve.c | 40 +++++++++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/ecc/curve.c b/ecc/curve.c
index a1ed428..af996fb 100644
--- a/ecc/curve.c
+++ b/ecc/curve.c
@@ -214,34 +214,30 @@ static void multi_double(element_ptr c[], element_ptr a[], int n) {
   point_ptr q, r;
   curve_data_ptr cdp = a[0]->field->data;
 
+  // Points whose double is O take no part in the shared inversion.
+  #define doubles_to_O(p) ((p)->inf_flag || element_is0((p)->y))
+
   q=a[0]->data;
   element_init(e0,q->y->field);
   element_init(e1,q->y->field);
   element_init(e2,q->y->field);
 
   for(i=0; i<n; i++){
-    q=a[i]->data; r=c[i]->data;
+    q=a[i]->data;
     element_init(table[i],q->y->field);
-
-    if (q->inf_flag) {
-      r->inf_flag = 1;
-      continue;
-    }
-    if (element_is0(q->y)) {
-      r->inf_flag = 1;
-      continue;
-    }
   }
   //to compute 1/2y multi. see Cohen's GTM139 Algorithm 10.3.4
   for(i=0; i<n; i++){
     q=a[i]->data;
-    element_double(table[i],q->y);
+    if (doubles_to_O(q)) element_set1(table[i]);
+    else element_double(table[i],q->y);
     if(i>0) element_mul(table[i],table[i],table[i-1]);
   }
   element_invert(e2,table[n-1]); //ONLY ONE inv is required now.
   for(i=n-1; i>0; i--){
     q=a[i]->data;
     element_mul(table[i],table[i-1],e2);
+    if (doubles_to_O(q)) continue;
     element_mul(e2,e2,q->y);
     element_double(e2,e2); //e2=e2*2y_j
   }
@@ -250,7 +246,10 @@ static void multi_double(element_ptr c[], element_ptr a[], int n) {
   for(i=0; i<n; i++){
     q=a[i]->data;
     r=c[i]->data;
-    if(r->inf_flag) continue;
+    if (doubles_to_O(q)) {
+      r->inf_flag = 1;
+      continue;
+    }
 
     //e2=lambda = (3x^2 + a) / 2y
     element_square(e2, q->x);
@@ -270,6 +269,7 @@ static void multi_double(element_ptr c[], element_ptr a[], int n) {
     element_set(r->y, e1);
     r->inf_flag = 0;
   }
+  #undef doubles_to_O
 
   element_clear(e0);
   element_clear(e1);
@@ -280,6 +280,16 @@ static void multi_double(element_ptr c[], element_ptr a[], int n) {
   pbc_free(table);
 }
 
+//compute e=x2-x1, or 1 if adding the points does not divide by x2-x1.
+static void multi_add_denominator(element_ptr e, point_ptr p, point_ptr q) {
+  if (p->inf_flag || q->inf_flag) {
+    element_set1(e);
+    return;
+  }
+  element_sub(e, q->x, p->x);
+  if (element_is0(e)) element_set1(e);
+}
+
 //compute c_i=a_i+b_i at one time.
 static void multi_add(element_ptr c[], element_ptr a[], element_ptr b[], int n){
   int i;
@@ -295,12 +305,12 @@ static void multi_add(element_ptr c[], element_ptr a[], element_ptr b[], int n){
   element_init(e2, p->x->field);
 
   element_init(table[0], p->x->field);
-  element_sub(table[0], q->x, p->x);
+  multi_add_denominator(table[0], p, q);
   for(i=1; i<n; i++){
     p = a[i]->data;
     q = b[i]->data;
     element_init(table[i], p->x->field);
-    element_sub(table[i], q->x, p->x);
+    multi_add_denominator(table[i], p, q);
     element_mul(table[i], table[i], table[i-1]);
   }
   element_invert(e2, table[n-1]);
@@ -308,7 +318,7 @@ static void multi_add(element_ptr c[], element_ptr a[], element_ptr b[], int n){
     p = a[i]->data;
     q = b[i]->data;
     element_mul(table[i], table[i-1], e2);
-    element_sub(e1, q->x, p->x);
+    multi_add_denominator(e1, p, q);
     element_mul(e2,e2,e1); //e2=e2*(x2_j-x1_j)
   }
   element_set(table[0],e2); //e2 no longer used.
-- 
2.43.0


From 7f4f52b5904cf994e3f1d84c00ba99ea014084f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:28 +0000
Subject: [PATCH 019/105] fix: element_is_sqr on curves of even order used the
 exponent of a field

---
 ecc/curve.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ecc/curve.c b/ecc/curve.c
index af996fb..16c0792 100644
--- a/ecc/curve.c
+++ b/ecc/curve.c
@@ -655,8 +655,7 @@ static int even_curve_is_sqr(element_ptr e) {
 
   mpz_init(z);
   element_init(e1, e->field);
-  mpz_sub_ui(z, e->field->order, 1);
-  mpz_fdiv_q_2exp(z, z, 1);
+  mpz_fdiv_q_2exp(z, e->field->order, 1);
   element_pow_mpz(e1, e, z);
   result = element_is1(e1);
 
-- 
2.43.0


From 3b0abc9eb50476f609e9be0758db722f237e38c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:28 +0000
Subject: [PATCH 020/105] fix: the byte encodings of O held stale coordinates
 and did not read back as O

---
 ecc/curve.c | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/ecc/curve.c b/ecc/curve.c
index 16c0792..4dc03e4 100644
--- a/ecc/curve.c
+++ b/ecc/curve.c
@@ -613,6 +613,17 @@ static int curve_length_in_bytes(element_ptr x) {
 static int curve_to_bytes(unsigned char *data, element_t e) {
   point_ptr P = e->data;
   int len;
+  if (P->inf_flag) {
+    // Write coordinates of no point on the curve, as they are read back as O.
+    element_t t;
+    curve_data_ptr cdp = e->field->data;
+    element_init(t, cdp->field);
+    len = element_to_bytes(data, t);
+    if (element_is0(cdp->b)) element_set1(t);
+    len += element_to_bytes(data + len, t);
+    element_clear(t);
+    return len;
+  }
   len = element_to_bytes(data, P->x);
   len += element_to_bytes(data + len, P->y);
   return len;
@@ -771,6 +782,14 @@ void field_init_curve_ab(field_ptr f, element_ptr a, element_ptr b, mpz_t order,
 int element_to_bytes_compressed(unsigned char *data, element_ptr e) {
   point_ptr P = e->data;
   int len;
+  if (P->inf_flag) {
+    element_t t;
+    element_init(t, P->x->field);
+    len = element_to_bytes(data, t);
+    element_clear(t);
+    data[len] = 2;
+    return len + 1;
+  }
   len = element_to_bytes(data, P->x);
   if (element_sign(P->y) > 0) {
     data[len] = 1;
@@ -810,6 +829,10 @@ int element_from_bytes_compressed(element_ptr e, const unsigned char *data) {
   point_ptr P = e->data;
   int len;
   len = element_from_bytes(P->x, data);
+  if (data[len] == 2) {
+    element_set0(e);
+    return len + 1;
+  }
   point_from_x(P, P->x, cdp->a, cdp->b);
 
   if (data[len]) {
-- 
2.43.0


From cf7d449e2d09692330e6ae8f5a51f71688d94833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:53 +0000
Subject: [PATCH 021/105] fix: decoding a compressed point or x-coordinate that
 no point has gave a point off the curve

---
 ecc/curve.c | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/ecc/curve.c b/ecc/curve.c
index 4dc03e4..c2e68d3 100644
--- a/ecc/curve.c
+++ b/ecc/curve.c
@@ -823,9 +823,27 @@ void curve_from_x(element_ptr e, element_t x) {
   point_from_x(e->data, x, cdp->a, cdp->b);
 }
 
+// Completes e given its x-coordinate. If no point has it, sets e to O.
+static void decode_y(element_ptr e) {
+  curve_data_ptr cdp = e->field->data;
+  point_ptr p = e->data;
+  element_t t;
+
+  element_init(t, cdp->field);
+  element_square(t, p->x);
+  element_add(t, t, cdp->a);
+  element_mul(t, t, p->x);
+  element_add(t, t, cdp->b);
+  if (element_is_sqr(t)) {
+    point_from_x(p, p->x, cdp->a, cdp->b);
+  } else {
+    element_set0(e);
+  }
+  element_clear(t);
+}
+
 // Requires e to be a point on an elliptic curve.
 int element_from_bytes_compressed(element_ptr e, const unsigned char *data) {
-  curve_data_ptr cdp = e->field->data;
   point_ptr P = e->data;
   int len;
   len = element_from_bytes(P->x, data);
@@ -833,7 +851,7 @@ int element_from_bytes_compressed(element_ptr e, const unsigned char *data) {
     element_set0(e);
     return len + 1;
   }
-  point_from_x(P, P->x, cdp->a, cdp->b);
+  decode_y(e);
 
   if (data[len]) {
     if (element_sign(P->y) < 0) element_neg(P->y, P->y);
@@ -859,11 +877,10 @@ int element_to_bytes_x_only(unsigned char *data, element_ptr e) {
 
 // Requires e to be a point on an elliptic curve.
 int element_from_bytes_x_only(element_ptr e, const unsigned char *data) {
-  curve_data_ptr cdp = e->field->data;
   point_ptr P = e->data;
   int len;
   len = element_from_bytes(P->x, data);
-  point_from_x(P, P->x, cdp->a, cdp->b);
+  decode_y(e);
   return len;
 }
 
-- 
2.43.0


From afae6d50704b675efb764b33b04eea38e5e34325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:53 +0000
Subject: [PATCH 022/105] fix: curve element_set_str left a point off the curve
 after rejecting malformed text

---
 ecc/curve.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/ecc/curve.c b/ecc/curve.c
index c2e68d3..e687869 100644
--- a/ecc/curve.c
+++ b/ecc/curve.c
@@ -571,20 +571,21 @@ static int curve_set_str(element_ptr e, const char *s, int base) {
     return (int)(cp - s + 1);
   }
   p->inf_flag = 0;
-  if (*cp != '[') return 0;
+  if (*cp != '[') goto bad;
   cp++;
   cp += element_set_str(p->x, cp, base);
   while (*cp && isspace(*cp)) cp++;
-  if (*cp != ',') return 0;
+  if (*cp != ',') goto bad;
   cp++;
   cp += element_set_str(p->y, cp, base);
-  if (*cp != ']') return 0;
+  if (*cp != ']') goto bad;
 
-  if (!curve_is_valid_point(e)) {
-    element_set0(e);
-    return 0;
-  }
+  if (!curve_is_valid_point(e)) goto bad;
   return (int)(cp - s + 1);
+
+bad:
+  element_set0(e);
+  return 0;
 }
 
 static void field_clear_curve(field_t f) {
-- 
2.43.0


From 17ef8defdc1a72b0272a33210255a04957eb20b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:53 +0000
Subject: [PATCH 023/105] fix: curve element_set_multiz accepted coordinates of
 no point on the curve

---
 ecc/curve.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ecc/curve.c b/ecc/curve.c
index e687869..2b65463 100644
--- a/ecc/curve.c
+++ b/ecc/curve.c
@@ -559,6 +559,10 @@ static void curve_set_multiz(element_ptr a, multiz m) {
     p->inf_flag = 0;
     element_set_multiz(p->x, multiz_at(m, 0));
     element_set_multiz(p->y, multiz_at(m, 1));
+    if (!curve_is_valid_point(a)) {
+      pbc_warn("point not on curve");
+      element_set0(a);
+    }
   }
 }
 
-- 
2.43.0


From 2587af8c85b3f8237a184766a0d3e7f1529c1197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:30 +0000
Subject: [PATCH 024/105] fix: the singular curve group left comparison,
 subtraction, powers and its nonresidue pointer uninitialized

---
 ecc/singular.c | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/ecc/singular.c b/ecc/singular.c
index f361a50..4800d6e 100644
--- a/ecc/singular.c
+++ b/ecc/singular.c
@@ -197,6 +197,14 @@ static void sn_invert(element_ptr c, element_ptr a) {
   element_neg(r->y, p->y);
 }
 
+static int sn_cmp(element_ptr a, element_ptr b) {
+  point_ptr p = a->data, q = b->data;
+  if (p->inf_flag || q->inf_flag) {
+    return !(p->inf_flag && q->inf_flag);
+  }
+  return element_cmp(p->x, q->x) || element_cmp(p->y, q->y);
+}
+
 static void sn_field_clear(field_ptr c) {
   UNUSED_VAR(c);
 }
@@ -271,15 +279,8 @@ static size_t sn_out_str(FILE *stream, int base, element_ptr a) {
   return result + status + 1;
 }
 
-static void field_clear_nothing(field_ptr f) {
-  UNUSED_VAR(f);
-}
-
 void field_init_curve_singular_with_node(field_t c, field_t field) {
-  field_t defaultField;
-  field_init(defaultField);
-
-  mpz_init(c->order);
+  field_init(c);
   mpz_set(c->order, field->order);
   c->data = (void *) field;
   c->init = sn_init;
@@ -288,17 +289,15 @@ void field_init_curve_singular_with_node(field_t c, field_t field) {
   //c->from_x = cc_from_x;
   //c->from_hash = cc_from_hash;
   c->set = sn_set;
+  c->cmp = sn_cmp;
   c->invert = c->neg = sn_invert;
   c->square = c->doub = sn_double;
   c->mul = c->add = sn_add;
   c->set1 = c->set0 = sn_set0;
   c->is1 = c->is0 = sn_is0;
-  c->mul_mpz = defaultField->pow_mpz;
+  c->mul_mpz = c->pow_mpz;
   c->out_str = sn_out_str;
   c->field_clear = sn_field_clear;
-
-  defaultField->field_clear = field_clear_nothing;
-  field_clear(defaultField);
 }
 
 //TODO: the following code is useless as the Tate pairing is degenerate on singular curves
-- 
2.43.0


From 3ae7ad5ace04eede0544a3f1fc928b5b87473314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:10 +0000
Subject: [PATCH 025/105] fix: random points of the singular curve could be its
 singular point

---
 ecc/singular.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ecc/singular.c b/ecc/singular.c
index 4800d6e..acd3e32 100644
--- a/ecc/singular.c
+++ b/ecc/singular.c
@@ -55,11 +55,10 @@ static void sn_random(element_t a) {
   p->inf_flag = 0;
   do {
     element_random(p->x);
-    if (element_is0(p->x)) continue;
     element_square(t, p->x);
     element_add(t, t, p->x);
     element_mul(t, t, p->x);
-  } while (!element_is_sqr(t));
+  } while (element_is0(p->x) || !element_is_sqr(t));
   element_sqrt(p->y, t);
 
   element_clear(t);
-- 
2.43.0


From 7ecfb95060cd15a3c14622941d234cb63ccbc066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:24 +0000
Subject: [PATCH 026/105] fix: polymod element_is_sqr answered no for zero,
 unlike the other fields

---
 arith/poly.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/arith/poly.c b/arith/poly.c
index 14a7a7b..cd6a9ba 100644
--- a/arith/poly.c
+++ b/arith/poly.c
@@ -622,6 +622,8 @@ static int polymod_is_sqr(element_ptr e) {
   mpz_t z;
   element_t e0;
 
+  if (element_is0(e)) return 1;
+
   element_init(e0, e->field);
   mpz_init(z);
   mpz_sub_ui(z, e->field->order, 1);
-- 
2.43.0


From cdabd1c07405b1b91519fa8d23cb3fef1d0d3d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:24 +0000
Subject: [PATCH 027/105] fix: square roots in quadratic extensions were wrong
 for base-field nonresidues

---
 arith/fieldquadratic.c | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/arith/fieldquadratic.c b/arith/fieldquadratic.c
index c785005..a158924 100644
--- a/arith/fieldquadratic.c
+++ b/arith/fieldquadratic.c
@@ -360,6 +360,19 @@ static void fq_sqrt(element_ptr n, element_ptr e) {
   element_ptr nqr = fq_nqr(n->field);
   element_t e0, e1, e2;
 
+  if (element_is0(p->y)) {
+    // x has a root in the base field, or x/nqr does.
+    if (element_is_sqr(p->x)) {
+      element_sqrt(r->x, p->x);
+      element_set0(r->y);
+    } else {
+      element_div(r->y, p->x, nqr);
+      element_sqrt(r->y, r->y);
+      element_set0(r->x);
+    }
+    return;
+  }
+
   //if (a+b sqrt(nqr))^2 = x+y sqrt(nqr) then
   //2a^2 = x +- sqrt(x^2 - nqr y^2)
   //(take the sign which allows a to exist)
@@ -529,6 +542,19 @@ static void fi_sqrt(element_ptr n, element_ptr e) {
   eptr r = n->data;
   element_t e0, e1, e2;
 
+  if (element_is0(p->y)) {
+    // x has a root in the base field, or -x does.
+    if (element_is_sqr(p->x)) {
+      element_sqrt(r->x, p->x);
+      element_set0(r->y);
+    } else {
+      element_neg(r->y, p->x);
+      element_sqrt(r->y, r->y);
+      element_set0(r->x);
+    }
+    return;
+  }
+
   // If (a+bi)^2 = x+yi then 2a^2 = x +- sqrt(x^2 + y^2)
   // where we choose the sign so that a exists, and 2ab = y.
   // Thus 2b^2 = - (x -+ sqrt(x^2 + y^2)).
-- 
2.43.0


From 86e142f24ce280897579f4c1f55cf458bf98df19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:30 +0000
Subject: [PATCH 028/105] fix: the projective Miller loops of types D and G
 read the x coordinate as y

---
 ecc/d_param.c | 2 +-
 ecc/g_param.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecc/d_param.c b/ecc/d_param.c
index f5070f8..24d09df 100644
--- a/ecc/d_param.c
+++ b/ecc/d_param.c
@@ -281,7 +281,7 @@ static void cc_miller_no_denom_proj(element_t res, mpz_t q, element_t P,
 
   element_set(Z, P);
   Zx = curve_x_coord(Z);
-  Zy = curve_x_coord(Z);
+  Zy = curve_y_coord(Z);
 
   element_set1(v);
   m = (mp_bitcnt_t)mpz_sizeinbase(q, 2);
diff --git a/ecc/g_param.c b/ecc/g_param.c
index 63842a2..be2c7d5 100644
--- a/ecc/g_param.c
+++ b/ecc/g_param.c
@@ -269,7 +269,7 @@ static void cc_miller_no_denom_proj(element_t res, mpz_t q, element_t P,
 
   element_set(Z, P);
   Zx = curve_x_coord(Z);
-  Zy = curve_x_coord(Z);
+  Zy = curve_y_coord(Z);
 
   element_set1(v);
   m = (mp_bitcnt_t)mpz_sizeinbase(q, 2);
-- 
2.43.0


From b7fa1c7f372a800ba11acca7056429eabe04a5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:57 +0000
Subject: [PATCH 029/105] fix: type E shipsey-stange divided by zero when
 pairing a point with itself or its double

---
 ecc/e_param.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/ecc/e_param.c b/ecc/e_param.c
index c85e692..417d529 100644
--- a/ecc/e_param.c
+++ b/ecc/e_param.c
@@ -494,6 +494,21 @@ static void e_pairing_ellnet(element_ptr out, element_ptr in1, element_ptr in2,
   element_ptr x2 = curve_x_coord(in2);
   element_ptr y2 = curve_y_coord(in2);
 
+  // The net is scaled by W(1,-1) and W(2,-1), which vanish when in2 is one of
+  // in1, -in1 or 2 in1. Miller's algorithm handles these.
+  int degenerate = !element_cmp(x, x2);
+  if (!degenerate) {
+    element_t P2;
+    element_init_same_as(P2, in1);
+    element_double(P2, in1);
+    degenerate = !element_cmp(P2, in2);
+    element_clear(P2);
+  }
+  if (degenerate) {
+    e_pairing(out, in1, in2, pairing);
+    return;
+  }
+
   //notation: cmi means c_{k-i}, ci means c_{k+i}
   element_t cm3, cm2, cm1, c0, c1, c2, c3, c4;
   element_t dm1, d0, d1;
-- 
2.43.0


From 278cb0cd97cc0d319252621667d3b4ecd6564cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:39 +0000
Subject: [PATCH 030/105] fix: type I random points kept a stale y coordinate
 when the drawn x was zero

---
 ecc/eta_T_3.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ecc/eta_T_3.c b/ecc/eta_T_3.c
index 44396b7..99888d8 100644
--- a/ecc/eta_T_3.c
+++ b/ecc/eta_T_3.c
@@ -97,9 +97,9 @@ static void point_random(element_t a) {
     element_set1(e1);
     element_init(t2, f);
     do {
-        element_random(x);
-        if (element_is0(x))
-            continue;
+        do {
+            element_random(x);
+        } while (element_is0(x));
         element_cubic(t, x); // t == x^3
         element_sub(t, t, x); // t == x^3 - x
         element_add(t, t, e1); // t == x^3 - x + 1
-- 
2.43.0


From 92212d2872606228491f06351096f09d9bfd47d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:28 +0000
Subject: [PATCH 031/105] fix: element_prod_pairing gave the identity whenever
 any input was the identity

---
 include/pbc_pairing.h | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/include/pbc_pairing.h b/include/pbc_pairing.h
index 1f127fb..8e8a458 100644
--- a/include/pbc_pairing.h
+++ b/include/pbc_pairing.h
@@ -158,16 +158,21 @@ static inline void element_prod_pairing(
   for(i = 0; i < n; i++) {
     PBC_ASSERT(pairing->G1 == in1[i]->field, "pairing 1st input mismatch");
     PBC_ASSERT(pairing->G2 == in2[i]->field, "pairing 2nd input mismatch");
-    if (element_is0(in1[i])) {
-      element_set0(out);
-      return;
-    }
-    if (element_is0(in2[i])) {
-      element_set0(out);
-      return;
+    // The product routines cannot cope with the identity.
+    if (element_is0(in1[i]) || element_is0(in2[i])) break;
+  }
+  if (n > 0 && i == n) {
+    pairing->prod_pairings((element_ptr) out->data, in1, in2, n, pairing);
+  } else {
+    element_t t;
+    element_init_same_as(t, out);
+    element_set1(out);
+    for (i = 0; i < n; i++) {
+      pairing_apply(t, in1[i], in2[i], pairing);
+      element_mul(out, out, t);
     }
+    element_clear(t);
   }
-  pairing->prod_pairings((element_ptr) out->data, in1, in2, n, pairing);
 }
 
 /*@manual pairing_op
-- 
2.43.0


From b0197c0c6116386b5a21f715e6f98dd06d4cdcd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:28 +0000
Subject: [PATCH 032/105] fix: default preprocessed pairings followed later
 changes to their input element

---
 ecc/pairing.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ecc/pairing.c b/ecc/pairing.c
index 5cb60a3..1c3238a 100644
--- a/ecc/pairing.c
+++ b/ecc/pairing.c
@@ -60,7 +60,10 @@ static void default_option_set(struct pairing_s *pairing, char *key, char *value
 
 static void default_pp_init(pairing_pp_t p, element_ptr in1, pairing_t pairing) {
   UNUSED_VAR(pairing);
-  p->data = (void *) in1;
+  // Keep a copy: the caller may change or clear in1 while p is in use.
+  p->data = pbc_malloc(sizeof(element_t));
+  element_init_same_as(p->data, in1);
+  element_set(p->data, in1);
 }
 
 static void default_pp_apply(element_ptr out, element_ptr in2, pairing_pp_t p) {
@@ -68,7 +71,8 @@ static void default_pp_apply(element_ptr out, element_ptr in2, pairing_pp_t p) {
 }
 
 static void default_pp_clear(pairing_pp_t p) {
-  UNUSED_VAR(p);
+  element_clear(p->data);
+  pbc_free(p->data);
 }
 
 void pairing_init_pbc_param(pairing_t pairing, pbc_param_ptr p) {
-- 
2.43.0


From 5c419b6740acd327757b674b7f652f51932ae0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:00 +0000
Subject: [PATCH 033/105] fix: is_almost_coddh of types D and G ran the Miller
 loop on the identity

---
 ecc/d_param.c | 7 +++++--
 ecc/g_param.c | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/ecc/d_param.c b/ecc/d_param.c
index 24d09df..f46118c 100644
--- a/ecc/d_param.c
+++ b/ecc/d_param.c
@@ -761,8 +761,11 @@ static int cc_is_almost_coddh(element_ptr a, element_ptr b,
   element_mul(cy, curve_y_coord(c), p->nqrinv2);
   element_mul(dy, curve_y_coord(d), p->nqrinv2);
 
-  cc_miller_no_denom_fn(t0, pairing->r, a, dx, dy);
-  cc_miller_no_denom_fn(t1, pairing->r, b, cx, cy);
+  // The Miller loop cannot cope with the identity.
+  if (element_is0(a) || element_is0(d)) element_set1(t0);
+  else cc_miller_no_denom_fn(t0, pairing->r, a, dx, dy);
+  if (element_is0(b) || element_is0(c)) element_set1(t1);
+  else cc_miller_no_denom_fn(t1, pairing->r, b, cx, cy);
   cc_tatepower(t0, t0, pairing);
   cc_tatepower(t1, t1, pairing);
   element_mul(t2, t0, t1);
diff --git a/ecc/g_param.c b/ecc/g_param.c
index be2c7d5..e4661b2 100644
--- a/ecc/g_param.c
+++ b/ecc/g_param.c
@@ -582,8 +582,11 @@ static int cc_is_almost_coddh(element_ptr a, element_ptr b,
   element_mul(cy, curve_y_coord(c), p->nqrinv2);
   element_mul(dy, curve_y_coord(d), p->nqrinv2);
 
-  cc_miller_no_denom_fn(t0, pairing->r, a, dx, dy);
-  cc_miller_no_denom_fn(t1, pairing->r, b, cx, cy);
+  // The Miller loop cannot cope with the identity.
+  if (element_is0(a) || element_is0(d)) element_set1(t0);
+  else cc_miller_no_denom_fn(t0, pairing->r, a, dx, dy);
+  if (element_is0(b) || element_is0(c)) element_set1(t1);
+  else cc_miller_no_denom_fn(t1, pairing->r, b, cx, cy);
   tatepower10(t0, t0, pairing);
   tatepower10(t1, t1, pairing);
   element_mul(t2, t0, t1);
-- 
2.43.0


From 12b53c161564d58ac1456f984f07083677c21a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:11 +0000
Subject: [PATCH 034/105] fix: preprocessing tables of types D and G were one
 entry short for orders of ones only

---
 ecc/d_param.c | 2 +-
 ecc/g_param.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecc/d_param.c b/ecc/d_param.c
index f46118c..59c5b1c 100644
--- a/ecc/d_param.c
+++ b/ecc/d_param.c
@@ -877,7 +877,7 @@ static void d_pairing_pp_init(pairing_pp_t p, element_ptr in1, pairing_t pairing
 
   m = (mp_bitcnt_t)mpz_sizeinbase(q, 2);
   m = (m > 2 ? m - 2 : 0);
-  p->data = pbc_malloc(sizeof(pp_coeff_t) * 2 * m);
+  p->data = pbc_malloc(sizeof(pp_coeff_t) * (2 * m + 1));
   coeff = (pp_coeff_t *) p->data;
   pp = coeff[0];
 
diff --git a/ecc/g_param.c b/ecc/g_param.c
index e4661b2..5482073 100644
--- a/ecc/g_param.c
+++ b/ecc/g_param.c
@@ -699,7 +699,7 @@ static void g_pairing_pp_init(pairing_pp_t p, element_ptr in1, pairing_t pairing
 
   m = (mp_bitcnt_t)mpz_sizeinbase(q, 2);
   m = (m > 2 ? m - 2 : 0);
-  p->data = pbc_malloc(sizeof(pp_coeff_t) * 2 * m);
+  p->data = pbc_malloc(sizeof(pp_coeff_t) * (2 * m + 1));
   coeff = (pp_coeff_t *) p->data;
   pp = coeff[0];
 
-- 
2.43.0


From 730ceafb5851667f98e830f2cdf31bc5d8c145f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:31 +0000
Subject: [PATCH 035/105] fix: type G final powering divided by zero on the
 identity

---
 ecc/g_param.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ecc/g_param.c b/ecc/g_param.c
index 5482073..b728369 100644
--- a/ecc/g_param.c
+++ b/ecc/g_param.c
@@ -411,6 +411,10 @@ static void cc_miller_no_denom_affine(element_t res, mpz_t q, element_t P,
 // Requires in != out.
 // Mangles in.
 static void lucas_even(element_ptr out, element_ptr in, mpz_t cofactor) {
+  if (element_is1(in)) {
+    element_set(out, in);
+    return;
+  }
   element_t temp;
   element_init_same_as(temp, out);
   element_ptr in0 = element_x(in);
-- 
2.43.0


From 29eb602271a8c50573bb0982e3307ec50a2c5c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:11 +0000
Subject: [PATCH 036/105] fix: halving an integer of Z always gave zero

---
 arith/z.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arith/z.c b/arith/z.c
index 6cc6c52..0799e9a 100644
--- a/arith/z.c
+++ b/arith/z.c
@@ -65,7 +65,7 @@ static void z_double(element_ptr n, element_ptr a) {
 }
 
 static void z_halve(element_ptr n, element_ptr a) {
-  mpz_tdiv_q_2exp(n->data, a->data, -1);
+  mpz_tdiv_q_2exp(n->data, a->data, 1);
 }
 
 static void z_mul(element_ptr n, element_ptr a, element_ptr b) {
-- 
2.43.0


From c7916cddf8962f42f060eb057e319d08b633660e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:11 +0000
Subject: [PATCH 037/105] fix: Z called every perfect power a square

---
 arith/z.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arith/z.c b/arith/z.c
index 0799e9a..733d27f 100644
--- a/arith/z.c
+++ b/arith/z.c
@@ -124,7 +124,7 @@ static int z_cmp(element_ptr a, element_ptr b) {
 }
 
 static int z_is_sqr(element_ptr a) {
-  return mpz_perfect_power_p(a->data);
+  return mpz_perfect_square_p(a->data);
 }
 
 static void z_sqrt(element_ptr c, element_ptr a) {
-- 
2.43.0


From 7b06f7ec31794525274247674dac9ab4b1dce8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:11 +0000
Subject: [PATCH 038/105] fix: Z ignored the sign of exponents

---
 arith/z.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/arith/z.c b/arith/z.c
index 733d27f..9eb9ae4 100644
--- a/arith/z.c
+++ b/arith/z.c
@@ -80,10 +80,6 @@ static void z_mul_si(element_ptr n, element_ptr a, signed long int z) {
   mpz_mul_si(n->data, a->data, z);
 }
 
-static void z_pow_mpz(element_ptr n, element_ptr a, mpz_ptr z) {
-  mpz_pow_ui(n->data, a->data, mpz_get_ui(z));
-}
-
 static void z_set(element_ptr n, element_ptr a) {
   mpz_set(n->data, a->data);
 }
@@ -98,6 +94,16 @@ static void z_invert(element_ptr n, element_ptr a) {
   } else mpz_set_ui(n->data, 0);
 }
 
+static void z_pow_mpz(element_ptr n, element_ptr a, mpz_ptr z) {
+  // mpz_get_ui() ignores the sign.
+  unsigned long e = mpz_get_ui(z);
+  if (mpz_sgn(z) < 0) {
+    z_invert(n, a);
+    a = n;
+  }
+  mpz_pow_ui(n->data, a->data, e);
+}
+
 static void z_div(element_ptr c, element_ptr a, element_ptr b) {
   mpz_tdiv_q(c->data, a->data, b->data);
 }
-- 
2.43.0


From e2e4a7d8c5dad70976a35fbe6aadcc218c7465bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:11 +0000
Subject: [PATCH 039/105] fix: byte encoding of Z overran its advertised
 length, left zero unset, and decoding changed its input

---
 arith/z.c | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/arith/z.c b/arith/z.c
index 9eb9ae4..4487a5b 100644
--- a/arith/z.c
+++ b/arith/z.c
@@ -152,10 +152,8 @@ static int z_to_bytes(unsigned char *data, element_t e) {
   size_t n = 4;
   size_t i;
 
-  if (!(msb % 8)) {
-    data[4] = 0;
-    n++;
-  }
+  data[4] = 0;  // mpz_export() writes nothing for zero.
+  if (!(msb % 8)) n++;
   if (mpz_sgn(z) < 0) {
     mpz_export(data + n, NULL, 1, 1, 1, 0, z);
     data[4] |= 128;
@@ -187,19 +185,16 @@ static int z_from_bytes(element_t e, unsigned char *data) {
     n += ((unsigned int) *ptr) << 8 * (3 - i);
     ptr++;
   }
-  if (data[4] & 128) {
-    neg = 1;
-    data[4] &= 127;
-  }
+  if (n && (data[4] & 128)) neg = 1;
   for (i=0; i<n; i++) {
-    mpz_set_ui(z1, *ptr);
+    mpz_set_ui(z1, neg && !i ? *ptr & 127 : *ptr);
     mpz_mul_2exp(z1, z1, 8 * (n - 1 - i));
     ptr++;
     mpz_add(z, z, z1);
   }
   mpz_clear(z1);
   if (neg) mpz_neg(z, z);
-  return (int)n;
+  return (int)n + 4;
 }
 
 static void z_to_mpz(mpz_ptr z, element_ptr a) {
@@ -207,7 +202,7 @@ static void z_to_mpz(mpz_ptr z, element_ptr a) {
 }
 
 static int z_length_in_bytes(element_ptr a) {
-  return (int)((mpz_sizeinbase(a->data, 2) + 7) / 8 + 4);
+  return (int)(mpz_sizeinbase(a->data, 2) / 8 + 1 + 4);
 }
 
 static void z_out_info(FILE *out, field_ptr f) {
-- 
2.43.0


From 88043e0bc3ec0baf414c58f441012bdcbdec0907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:11 +0000
Subject: [PATCH 040/105] fix: multiz byte encoding treated its element
 structure as a bare integer

---
 arith/multiz.c | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/arith/multiz.c b/arith/multiz.c
index a4f15ff..514245f 100644
--- a/arith/multiz.c
+++ b/arith/multiz.c
@@ -452,16 +452,20 @@ static void f_field_clear(field_t f) { UNUSED_VAR (f); }
 //   followed by number in big-endian, most-significant bit set if negative
 //   (prepending null byte if necessary)
 // Positive numbers also the same as mpz_out_raw.
+static mpz_ptr multiz_z(element_ptr e) {
+  multiz ep = e->data;
+  if (T_MPZ != ep->type) pbc_die("byte encoding of lists is not supported");
+  return ep->z;
+}
+
 static int z_to_bytes(unsigned char *data, element_t e) {
-  mpz_ptr z = e->data;
+  mpz_ptr z = multiz_z(e);
   size_t msb = mpz_sizeinbase(z, 2);
   size_t n = 4;
   size_t i;
 
-  if (!(msb % 8)) {
-    data[4] = 0;
-    n++;
-  }
+  data[4] = 0;  // mpz_export() writes nothing for zero.
+  if (!(msb % 8)) n++;
   if (mpz_sgn(z) < 0) {
     mpz_export(data + n, NULL, 1, 1, 1, 0, z);
     data[4] |= 128;
@@ -480,7 +484,8 @@ static int z_to_bytes(unsigned char *data, element_t e) {
 static int z_from_bytes(element_t e, unsigned char *data) {
   unsigned char *ptr;
   size_t i, n;
-  mpz_ptr z = e->data;
+  f_set0(e);
+  mpz_ptr z = multiz_z(e);
   mpz_t z1;
   int neg = 0;
 
@@ -493,23 +498,20 @@ static int z_from_bytes(element_t e, unsigned char *data) {
     n += ((unsigned int) *ptr) << 8 * (3 - i);
     ptr++;
   }
-  if (data[4] & 128) {
-    neg = 1;
-    data[4] &= 127;
-  }
+  if (n && (data[4] & 128)) neg = 1;
   for (i=0; i<n; i++) {
-    mpz_set_ui(z1, *ptr);
+    mpz_set_ui(z1, neg && !i ? *ptr & 127 : *ptr);
     mpz_mul_2exp(z1, z1, 8 * (n - 1 - i));
     ptr++;
     mpz_add(z, z, z1);
   }
   mpz_clear(z1);
   if (neg) mpz_neg(z, z);
-  return (int)n;
+  return (int)n + 4;
 }
 
 static int z_length_in_bytes(element_ptr a) {
-  return (int)((mpz_sizeinbase(a->data, 2) + 7) / 8 + 4);
+  return (int)(mpz_sizeinbase(multiz_z(a), 2) / 8 + 1 + 4);
 }
 
 static void f_out_info(FILE *out, field_ptr f) {
-- 
2.43.0


From fc3dd5cadbb0c278cffa3574c1f71d488f1d8fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:11 +0000
Subject: [PATCH 041/105] fix: subtracting an integer and a multinomial got
 signs wrong

---
 arith/multiz.c | 72 ++++++++++++++++++++------------------------------
 1 file changed, 28 insertions(+), 44 deletions(-)

diff --git a/arith/multiz.c b/arith/multiz.c
index 514245f..81c4097 100644
--- a/arith/multiz.c
+++ b/arith/multiz.c
@@ -197,53 +197,37 @@ static multiz multiz_clone(multiz y) {
   return multiz_new_unary(y, (void(*)(mpz_t, const mpz_t, void *))mpzset, NULL);
 }
 
+// As a multinomial, the integer z is [z].
+static int multiz_terms(multiz a) {
+  return T_MPZ == a->type ? 1 : darray_count(a->a);
+}
+
+static multiz multiz_term(multiz a, int i, multiz zero) {
+  if (i >= multiz_terms(a)) return zero;
+  return T_MPZ == a->type ? a : darray_at(a->a, i);
+}
+
 static multiz multiz_new_bin(const multiz a, const multiz b,
     void (*fun)(mpz_t, const mpz_t, const mpz_t)) {
-  if (T_MPZ == a->type) {
-    if (T_MPZ == b->type) {
-      multiz x = multiz_new();
-      fun(x->z, a->z, b->z);
-      return x;
-    } else {
-      multiz x = multiz_clone(b);
-      multiz z = x;
-      PBC_ASSERT(T_ARR == z->type, "no such type");
-      while(z->type == T_ARR) z = darray_at(z->a, 0);
-      fun(z->z, a->z, z->z);
-      return x;
-    }
-  } else {
-    PBC_ASSERT(T_ARR == a->type, "no such type");
-    if (T_MPZ == b->type) {
-      multiz x = multiz_clone(a);
-      multiz z = x;
-      PBC_ASSERT(T_ARR == z->type, "no such type");
-      while(z->type == T_ARR) z = darray_at(z->a, 0);
-      fun(z->z, b->z, z->z);
-      return x;
-    } else {
-      PBC_ASSERT(T_ARR == b->type, "no such type");
-      int m = darray_count(a->a);
-      int n = darray_count(b->a);
-      int min = m < n ? m : n;
-      int max = m > n ? m : n;
-      multiz x = multiz_new_empty_list();
-      int i;
-      for(i = 0; i < min; i++) {
-        multiz z = multiz_new_bin(darray_at(a->a, i), darray_at(b->a, i), fun);
-        darray_append(x->a, z);
-      }
-      multiz zero = multiz_new();
-      for(; i < max; i++) {
-        multiz z = multiz_new_bin(m > n ? darray_at(a->a, i) : zero,
-                                  n > m ? darray_at(b->a, i) : zero,
-                                  fun);
-        darray_append(x->a, z);
-      }
-      multiz_free(zero);
-      return x;
-    }
+  if (T_MPZ == a->type && T_MPZ == b->type) {
+    multiz x = multiz_new();
+    fun(x->z, a->z, b->z);
+    return x;
+  }
+  int m = multiz_terms(a);
+  int n = multiz_terms(b);
+  int max = m > n ? m : n;
+  multiz x = multiz_new_empty_list();
+  multiz zero = multiz_new();
+  int i;
+  for(i = 0; i < max; i++) {
+    multiz z = multiz_new_bin(multiz_term(a, i, zero),
+                              multiz_term(b, i, zero),
+                              fun);
+    darray_append(x->a, z);
   }
+  multiz_free(zero);
+  return x;
 }
 static multiz multiz_new_add(const multiz a, const multiz b) {
   return multiz_new_bin(a, b, mpz_add);
-- 
2.43.0


From a5cf577df6768cad2edc8861e33e510526326224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:11 +0000
Subject: [PATCH 042/105] fix: multinomials with a zero leading coefficient
 compared equal to anything shorter

---
 arith/multiz.c | 45 +++++++++------------------------------------
 1 file changed, 9 insertions(+), 36 deletions(-)

diff --git a/arith/multiz.c b/arith/multiz.c
index 81c4097..f26a533 100644
--- a/arith/multiz.c
+++ b/arith/multiz.c
@@ -387,43 +387,16 @@ static element_ptr f_item(element_ptr e, int i) {
 // Usual meaning when both are integers.
 // Otherwise, compare coefficients.
 static int multiz_cmp(multiz a, multiz b) {
-  if (T_MPZ == a->type) {
-    if (T_MPZ == b->type) {
-      // Simplest case: both are integers.
-      return mpz_cmp(a->z, b->z);
-    }
-    // Leading coefficient of b.
-    while(T_ARR == b->type) b = darray_last(b->a);
-    PBC_ASSERT(T_MPZ == b->type, "no such type");
-    return -mpz_sgn(b->z);
-  }
-  PBC_ASSERT(T_ARR == a->type, "no such type");
-  if (T_MPZ == b->type) {
-    // Leading coefficient of a.
-    while(T_ARR == a->type) a = darray_last(a->a);
-    PBC_ASSERT(T_MPZ == a->type, "no such type");
-    return mpz_sgn(a->z);
-  }
-  PBC_ASSERT(T_ARR == b->type, "no such type");
-  int m = darray_count(a->a);
-  int n = darray_count(b->a);
-  if (m > n) {
-    // Leading coefficient of a.
-    while(T_ARR == a->type) a = darray_last(a->a);
-    PBC_ASSERT(T_MPZ == a->type, "no such type");
-    return mpz_sgn(a->z);
-  }
-  if (n > m) {
-    // Leading coefficient of b.
-    while(T_ARR == b->type) b = darray_last(b->a);
-    PBC_ASSERT(T_MPZ == b->type, "no such type");
-    return -mpz_sgn(b->z);
-  }
-  for(n--; n >= 0; n--) {
-    int i = multiz_cmp(darray_at(a->a, n), darray_at(b->a, n));
-    if (i) return i;
+  if (T_MPZ == a->type && T_MPZ == b->type) return mpz_cmp(a->z, b->z);
+  int m = multiz_terms(a);
+  int n = multiz_terms(b);
+  int i, res = 0;
+  multiz zero = multiz_new();
+  for(i = (m > n ? m : n) - 1; i >= 0 && !res; i--) {
+    res = multiz_cmp(multiz_term(a, i, zero), multiz_term(b, i, zero));
   }
-  return 0;
+  multiz_free(zero);
+  return res;
 }
 static int f_cmp(element_ptr x, element_ptr y) {
   return multiz_cmp(x->data, y->data);
-- 
2.43.0


From 24daa5892e3e830cd1f12b1f1274f2a647dde779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:53 +0000
Subject: [PATCH 043/105] fix: every element_item() call on a list leaked

---
 arith/multiz.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/arith/multiz.c b/arith/multiz.c
index f26a533..8ae9bab 100644
--- a/arith/multiz.c
+++ b/arith/multiz.c
@@ -26,6 +26,7 @@ struct multiz_s {
     mpz_t z;
     darray_t a;
   };
+  element_t view;  // What element_item() returns for this part of a list.
 };
 
 enum {
@@ -374,14 +375,13 @@ static int f_item_count(element_ptr e) {
   return darray_count(z->a);
 }
 
-// TODO: Redesign multiz so this doesn't leak.
 static element_ptr f_item(element_ptr e, int i) {
   multiz z = e->data;
   if (T_MPZ == z->type) return NULL;
-  element_ptr r = malloc(sizeof(*r));
-  r->field = e->field;
-  r->data = darray_at(z->a, i);
-  return r;
+  multiz ep = darray_at(z->a, i);
+  ep->view->field = e->field;
+  ep->view->data = ep;
+  return ep->view;
 }
 
 // Usual meaning when both are integers.
-- 
2.43.0


From fe03352b3e19487524fda22c6402b5a26ce181e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:36 +0000
Subject: [PATCH 044/105] fix: halving and inverting polynomials called an
 uninitialized pointer

---
 arith/poly.c | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/arith/poly.c b/arith/poly.c
index cd6a9ba..d4c7ec4 100644
--- a/arith/poly.c
+++ b/arith/poly.c
@@ -270,6 +270,31 @@ static void poly_double(element_ptr f, element_ptr g) {
   poly_remove_leading_zeroes(f);
 }
 
+static void poly_halve(element_ptr f, element_ptr g) {
+  peptr pf = f->data;
+  peptr pg = g->data;
+  int i, n;
+
+  n = pg->coeff->count;
+  poly_alloc(f, n);
+  for (i=0; i<n; i++) {
+    element_halve(pf->coeff->item[i], pg->coeff->item[i]);
+  }
+}
+
+// Only constants have inverses. As in Z, the result is zero if there is none.
+static void poly_unit_invert(element_ptr f, element_ptr g) {
+  peptr pf = f->data;
+  peptr pg = g->data;
+
+  if (pg->coeff->count != 1) {
+    poly_alloc(f, 0);
+    return;
+  }
+  poly_alloc(f, 1);
+  element_invert(pf->coeff->item[0], pg->coeff->item[0]);
+}
+
 static void poly_mul_mpz(element_ptr f, element_ptr g, mpz_ptr z) {
   peptr pf = f->data;
   peptr pg = g->data;
@@ -1403,6 +1428,8 @@ void field_init_poly(field_ptr f, field_ptr base_field) {
   f->sign = poly_sgn;
   f->add = poly_add;
   f->doub = poly_double;
+  f->halve = poly_halve;
+  f->invert = poly_unit_invert;
   f->is0 = poly_is0;
   f->is1 = poly_is1;
   f->set0 = poly_set0;
-- 
2.43.0


From d7d6e84a8b6dd48565c2cac1a1c2e329a91d3f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:36 +0000
Subject: [PATCH 045/105] fix: polynomials read from bytes could have a zero
 leading coefficient

---
 arith/poly.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/arith/poly.c b/arith/poly.c
index d4c7ec4..daac787 100644
--- a/arith/poly.c
+++ b/arith/poly.c
@@ -611,6 +611,7 @@ static int poly_from_bytes(element_t p, const unsigned char *buf) {
   for (i=0; i<count; i++) {
     result += element_from_bytes(poly_coeff(p, i), &buf[result]);
   }
+  poly_remove_leading_zeroes(p);
   return result;
 }
 
-- 
2.43.0


From eb5b132387a589e9d294eaec925c911fd067bba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:27 +0000
Subject: [PATCH 046/105] fix: element_out_str on quadratic extensions returned
 four characters too few

---
 arith/fieldquadratic.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/arith/fieldquadratic.c b/arith/fieldquadratic.c
index a158924..8bd2798 100644
--- a/arith/fieldquadratic.c
+++ b/arith/fieldquadratic.c
@@ -93,8 +93,9 @@ static size_t fq_out_str(FILE *stream, int base, element_ptr e) {
   size_t result = 4, status;
   eptr p = e->data;
   if (EOF == fputc('[', stream)) return 0;
-  result = element_out_str(stream, base, p->x);
-  if (!result) return 0;
+  status = element_out_str(stream, base, p->x);
+  if (!status) return 0;
+  result += status;
   if (EOF == fputs(", ", stream)) return 0;
   status = element_out_str(stream, base, p->y);
   if (!status) return 0;
-- 
2.43.0


From 2e142306bd4b8c77382d258d91777e26a6da5dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:27 +0000
Subject: [PATCH 047/105] fix: fastfp, fasterfp: printing to a buffer gave "?"
 and reading text always failed

---
 arith/fasterfp.c | 21 +++++++++++++++++++++
 arith/fastfp.c   | 21 +++++++++++++++++++++
 2 files changed, 42 insertions(+)

diff --git a/arith/fasterfp.c b/arith/fasterfp.c
index 0c0a798..5022adf 100644
--- a/arith/fasterfp.c
+++ b/arith/fasterfp.c
@@ -148,6 +148,25 @@ static size_t fp_out_str(FILE * stream, int base, element_ptr e) {
   return result;
 }
 
+static int fp_snprint(char *s, size_t n, element_ptr e) {
+  int result;
+  mpz_t z;
+  mpz_init(z);
+  fp_to_mpz(z, e);
+  result = gmp_snprintf(s, n, "%Zd", z);
+  mpz_clear(z);
+  return result;
+}
+
+static int fp_set_str(element_ptr e, const char *s, int base) {
+  mpz_t z;
+  mpz_init(z);
+  int result = pbc_mpz_set_str(z, s, base);
+  fp_set_mpz(e, z);
+  mpz_clear(z);
+  return result;
+}
+
 static void fp_set(element_ptr c, element_ptr a) {
   dataptr ad = a->data;
   dataptr cd = c->data;
@@ -527,6 +546,8 @@ void field_init_faster_fp(field_ptr f, mpz_t prime) {
   f->set_si = fp_set_si;
   f->set_mpz = fp_set_mpz;
   f->out_str = fp_out_str;
+  f->snprint = fp_snprint;
+  f->set_str = fp_set_str;
   f->add = fp_add;
   f->sub = fp_sub;
   f->set = fp_set;
diff --git a/arith/fastfp.c b/arith/fastfp.c
index fbb3a14..dbe4b8f 100644
--- a/arith/fastfp.c
+++ b/arith/fastfp.c
@@ -109,6 +109,25 @@ static size_t fp_out_str(FILE * stream, int base, element_ptr e) {
   return result;
 }
 
+static int fp_snprint(char *s, size_t n, element_ptr e) {
+  int result;
+  mpz_t z;
+  mpz_init(z);
+  fp_to_mpz(z, e);
+  result = gmp_snprintf(s, n, "%Zd", z);
+  mpz_clear(z);
+  return result;
+}
+
+static int fp_set_str(element_ptr e, const char *s, int base) {
+  mpz_t z;
+  mpz_init(z);
+  int result = pbc_mpz_set_str(z, s, base);
+  fp_set_mpz(e, z);
+  mpz_clear(z);
+  return result;
+}
+
 static void fp_add(element_ptr r, element_ptr a, element_ptr b) {
   fp_field_data_ptr p = r->field->data;
   const size_t t = p->limbs;
@@ -352,6 +371,8 @@ void field_init_fast_fp(field_ptr f, mpz_t prime) {
   f->set_si = fp_set_si;
   f->set_mpz = fp_set_mpz;
   f->out_str = fp_out_str;
+  f->snprint = fp_snprint;
+  f->set_str = fp_set_str;
   f->add = fp_add;
   f->sub = fp_sub;
   f->set = fp_set;
-- 
2.43.0


From 7e9b4104dde257b6c7d6f248d1e41a473f84f17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:56 +0000
Subject: [PATCH 048/105] fix: reading text lost the sign of integers and took
 blanks for a number

---
 arith/field.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/arith/field.c b/arith/field.c
index a2c2c37..cf902b8 100644
--- a/arith/field.c
+++ b/arith/field.c
@@ -779,7 +779,7 @@ void element_tonelli(element_ptr x, element_ptr a) {
 // junk. This simplifies code for parsing elements like "[123, 456]".
 // TODO: Handle 0x, 0X and 0 conventions for hexadecimal and octal.
 int pbc_mpz_set_str(mpz_t z, const char *s, int base) {
-  int b, i = 0;
+  int b, i = 0, neg = 0, digits = 0;
   mpz_set_ui(z, 0);
   if (!base) b = 10;
   else if (base < 2 || base > 36) return 0;
@@ -793,6 +793,11 @@ int pbc_mpz_set_str(mpz_t z, const char *s, int base) {
       i++;
       continue;
     }
+    if (c == '-' && !neg && !digits) {
+      neg = 1;
+      i++;
+      continue;
+    }
     if (isdigit(c)) {
       j = c - '0';
     } else if (c >= 'A' && c <= 'Z') {
@@ -805,8 +810,11 @@ int pbc_mpz_set_str(mpz_t z, const char *s, int base) {
 
     mpz_mul_ui(z, z, b);
     mpz_add_ui(z, z, j);
+    digits = 1;
     i++;
   }
+  if (!digits) return 0;
+  if (neg) mpz_neg(z, z);
   return i;
 }
 
-- 
2.43.0


From 749305b66c98b780efcddac808c5850da2d0cbed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:56 +0000
Subject: [PATCH 049/105] fix: integers and integer lists printed to a buffer
 as "?"

---
 arith/multiz.c | 36 ++++++++++++++++++++++++++++++++++++
 arith/z.c      |  5 +++++
 2 files changed, 41 insertions(+)

diff --git a/arith/multiz.c b/arith/multiz.c
index 8ae9bab..95ef3fd 100644
--- a/arith/multiz.c
+++ b/arith/multiz.c
@@ -134,6 +134,41 @@ static size_t f_out_str(FILE *stream, int base, element_ptr e) {
   return multiz_out_str(stream, base, e->data);
 }
 
+static int multiz_snprint(char *s, size_t size, multiz ep) {
+  int i, n, status;
+  size_t result = 0, left;
+
+  #define clip_sub() {                         \
+    result += status;                          \
+    left = result >= size ? 0 : size - result; \
+  }
+
+  if (T_MPZ == ep->type) return gmp_snprintf(s, size, "%Zd", ep->z);
+  PBC_ASSERT(T_ARR == ep->type, "no such type");
+  status = snprintf(s, size, "[");
+  if (status < 0) return status;
+  clip_sub();
+  n = darray_count(ep->a);
+  for (i = 0; i < n; i++) {
+    if (i) {
+      status = snprintf(s + result, left, ", ");
+      if (status < 0) return status;
+      clip_sub();
+    }
+    status = multiz_snprint(s + result, left, darray_at(ep->a, i));
+    if (status < 0) return status;
+    clip_sub();
+  }
+  status = snprintf(s + result, left, "]");
+  if (status < 0) return status;
+  return (int)(result + status);
+  #undef clip_sub
+}
+
+static int f_snprint(char *s, size_t n, element_ptr e) {
+  return multiz_snprint(s, n, e->data);
+}
+
 void multiz_to_mpz(mpz_ptr z, multiz ep) {
   while(ep->type == T_ARR) ep = darray_at(ep->a, 0);
   PBC_ASSERT(T_MPZ == ep->type, "no such type");
@@ -501,6 +536,7 @@ void field_init_multiz(field_ptr f) {
   f->set_multiz = f_set_multiz;
   f->set_str = f_set_str;
   f->out_str = f_out_str;
+  f->snprint = f_snprint;
   f->sign = f_sgn;
   f->add = f_add;
   f->sub = f_sub;
diff --git a/arith/z.c b/arith/z.c
index 4487a5b..c51429a 100644
--- a/arith/z.c
+++ b/arith/z.c
@@ -43,6 +43,10 @@ static size_t z_out_str(FILE *stream, int base, element_ptr e) {
   return mpz_out_str(stream, base, e->data);
 }
 
+static int z_snprint(char *s, size_t n, element_ptr e) {
+  return gmp_snprintf(s, n, "%Zd", e->data);
+}
+
 static int z_sgn(element_ptr a) {
   mpz_ptr z = a->data;
   return mpz_sgn(z);
@@ -227,6 +231,7 @@ void field_init_z(field_ptr f) {
   f->set_mpz = z_set_mpz;
   f->set_str = z_set_str;
   f->out_str = z_out_str;
+  f->snprint = z_snprint;
   f->sign = z_sgn;
   f->add = z_add;
   f->sub = z_sub;
-- 
2.43.0


From 61652ee277f4a2dd6eef1d2a1784f8fc3c6033a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:56 +0000
Subject: [PATCH 050/105] fix: element_set_str took missing coordinates for
 zero and rejected blanks before a closing bracket

---
 arith/fieldquadratic.c | 8 ++++++--
 arith/poly.c           | 5 +++--
 ecc/curve.c            | 8 ++++++--
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/arith/fieldquadratic.c b/arith/fieldquadratic.c
index 8bd2798..d24692d 100644
--- a/arith/fieldquadratic.c
+++ b/arith/fieldquadratic.c
@@ -145,14 +145,18 @@ static void fq_set_multiz(element_ptr e, multiz m) {
 
 static int fq_set_str(element_ptr e, const char *s, int base) {
   const char *cp = s;
+  int n;
   element_set0(e);
   while (*cp && isspace(*cp)) cp++;
   if (*cp++ != '[') return 0;
   eptr p = e->data;
-  cp += element_set_str(p->x, cp, base);
+  if (!(n = element_set_str(p->x, cp, base))) return 0;
+  cp += n;
   while (*cp && isspace(*cp)) cp++;
   if (*cp++ != ',') return 0;
-  cp += element_set_str(p->y, cp, base);
+  if (!(n = element_set_str(p->y, cp, base))) return 0;
+  cp += n;
+  while (*cp && isspace(*cp)) cp++;
   if (*cp++ != ']') return 0;
   return (int)(cp - s);
 }
diff --git a/arith/poly.c b/arith/poly.c
index daac787..484a401 100644
--- a/arith/poly.c
+++ b/arith/poly.c
@@ -1300,13 +1300,14 @@ static void polymod_set_multiz(element_ptr e, multiz m) {
 static int polymod_set_str(element_ptr e, const char *s, int base) {
   mfptr p = e->field->data;
   element_t *coeff = e->data;
-  int i, n = p->n;
+  int i, len, n = p->n;
   const char *cp = s;
   element_set0(e);
   while (*cp && isspace(*cp)) cp++;
   if (*cp++ != '[') return 0;
   for (i=0; i<n; i++) {
-    cp += element_set_str(coeff[i], cp, base);
+    if (!(len = element_set_str(coeff[i], cp, base))) return 0;
+    cp += len;
     while (*cp && isspace(*cp)) cp++;
     if (i<n-1 && *cp++ != ',') return 0;
   }
diff --git a/ecc/curve.c b/ecc/curve.c
index 2b65463..76504bd 100644
--- a/ecc/curve.c
+++ b/ecc/curve.c
@@ -569,6 +569,7 @@ static void curve_set_multiz(element_ptr a, multiz m) {
 static int curve_set_str(element_ptr e, const char *s, int base) {
   point_ptr p = e->data;
   const char *cp = s;
+  int n;
   element_set0(e);
   while (*cp && isspace(*cp)) cp++;
   if (*cp == 'O') {
@@ -577,11 +578,14 @@ static int curve_set_str(element_ptr e, const char *s, int base) {
   p->inf_flag = 0;
   if (*cp != '[') goto bad;
   cp++;
-  cp += element_set_str(p->x, cp, base);
+  if (!(n = element_set_str(p->x, cp, base))) goto bad;
+  cp += n;
   while (*cp && isspace(*cp)) cp++;
   if (*cp != ',') goto bad;
   cp++;
-  cp += element_set_str(p->y, cp, base);
+  if (!(n = element_set_str(p->y, cp, base))) goto bad;
+  cp += n;
+  while (*cp && isspace(*cp)) cp++;
   if (*cp != ']') goto bad;
 
   if (!curve_is_valid_point(e)) goto bad;
-- 
2.43.0


From 88aa8652d3db9438f4ae93b55e0c5102f9a3f50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:24 +0000
Subject: [PATCH 051/105] fix: %B of a type I pairing's element ended the
 program

---
 arith/ternary_extension_field.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/arith/ternary_extension_field.c b/arith/ternary_extension_field.c
index c75c326..8866eae 100644
--- a/arith/ternary_extension_field.c
+++ b/arith/ternary_extension_field.c
@@ -57,6 +57,8 @@ typedef gf33m_s *gf33m_ptr;
 #define print(e) {printf(#e": "); element_out_str(stdout, 10, e); printf("\n");}
 
 static size_t gf3m_out_str(FILE *stream, int base, element_t e) {
+    if (!base)
+        base = 10;
     if (base != 10 && base != 16)
         pbc_die("only support base 10 and base 16");
     size_t size = 0;
-- 
2.43.0


From 25db611997f1b4006174705f3ea1ebde71c108c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:24 +0000
Subject: [PATCH 052/105] fix: type I and singular curve elements printed to a
 buffer as "?"

---
 arith/ternary_extension_field.c | 27 +++++++++++++++++++++++++++
 ecc/eta_T_3.c                   | 10 ++++++++++
 ecc/singular.c                  | 17 +++++++++++++++++
 3 files changed, 54 insertions(+)

diff --git a/arith/ternary_extension_field.c b/arith/ternary_extension_field.c
index 8866eae..646ea2a 100644
--- a/arith/ternary_extension_field.c
+++ b/arith/ternary_extension_field.c
@@ -73,6 +73,15 @@ static size_t gf3m_out_str(FILE *stream, int base, element_t e) {
     return size;
 }
 
+static int gf3m_snprint(char *s, size_t n, element_t e) {
+    size_t result = 0;
+    unsigned i;
+    unsigned long *d = DATA1(e);
+    for (i = 0; i < LEN(e) * 2; i++)
+        result += snprintf(s + result, result < n ? n - result : 0, "%lu,", d[i]);
+    return (int) result;
+}
+
 /* $a <- 0$ */
 static void gf3m_zero(element_t a) {
     memset(a->data, 0, SIZE(a));
@@ -511,6 +520,7 @@ void field_init_gf3m(field_t f, unsigned m, unsigned t) {
     f->from_bytes = gf3m_from_bytes;
     f->to_bytes = gf3m_to_bytes;
     f->out_str = gf3m_out_str;
+    f->snprint = gf3m_snprint;
     f->fixed_length_in_bytes = 2 * sizeof(unsigned long) * p->len;
     f->data = p;
     f->name = "GF(3^m)";
@@ -528,6 +538,13 @@ static size_t gf32m_out_str(FILE *stream, int base, element_t e) {
     return size;
 }
 
+static int gf32m_snprint(char *s, size_t n, element_t e) {
+    element_ptr e0 = GF32M(e)->_0, e1 = GF32M(e)->_1;
+    size_t result = element_snprint(s, n, e0);
+    result += element_snprint(s + result, result < n ? n - result : 0, e1);
+    return (int) result;
+}
+
 static void gf32m_init(element_t e) {
     e->data = pbc_malloc(sizeof(gf32m_s));
     gf32m_ptr p = (gf32m_ptr) e->data;
@@ -699,6 +716,7 @@ void field_init_gf32m(field_t f, field_t b) {
     f->item_count = gf32m_item_count;
     f->item = gf32m_item;
     f->out_str = gf32m_out_str;
+    f->snprint = gf32m_snprint;
     mpz_pow_ui(f->order, b->order, 2);
     f->name = "GF(3^{2*m})";
 }
@@ -713,6 +731,14 @@ static size_t gf33m_out_str(FILE *stream, int base, element_t e) {
     return size;
 }
 
+static int gf33m_snprint(char *s, size_t n, element_t e) {
+    element_ptr e0 = GF33M(e)->_0, e1 = GF33M(e)->_1, e2 = GF33M(e)->_2;
+    size_t result = element_snprint(s, n, e0);
+    result += element_snprint(s + result, result < n ? n - result : 0, e1);
+    result += element_snprint(s + result, result < n ? n - result : 0, e2);
+    return (int) result;
+}
+
 static void gf33m_init(element_t e) {
     e->data = pbc_malloc(sizeof(gf33m_s));
     gf33m_ptr p = (gf33m_ptr) e->data;
@@ -974,6 +1000,7 @@ void field_init_gf33m(field_t f, field_t b) {
     f->item_count = gf33m_item_count;
     f->item = gf33m_item;
     f->out_str = gf33m_out_str;
+    f->snprint = gf33m_snprint;
     mpz_pow_ui(f->order, b->order, 3);
     f->name = "GF(3^{3*m})";
 }
diff --git a/ecc/eta_T_3.c b/ecc/eta_T_3.c
index 99888d8..c9540ab 100644
--- a/ecc/eta_T_3.c
+++ b/ecc/eta_T_3.c
@@ -197,6 +197,15 @@ static size_t point_out_str(FILE *stream, int base, element_ptr a) {
     }
 }
 
+static int point_snprint(char *s, size_t n, element_ptr a) {
+    point_ptr p = DATA(a);
+    if (p->isinf)
+        return snprintf(s, n, "O");
+    size_t size = element_snprint(s, n, p->x);
+    size += element_snprint(s + size, size < n ? n - size : 0, p->y);
+    return (int) size;
+}
+
 static void point_field_clear(field_ptr f) {
     UNUSED_VAR(f);
 }
@@ -215,6 +224,7 @@ void field_init_eta_T_3(field_t f, field_t base) {
     f->is1 = f->is0 = point_is0;
     f->mul_mpz = f->pow_mpz;
     f->out_str = point_out_str;
+    f->snprint = point_snprint;
     f->field_clear = point_field_clear;
     f->name = "eta_T_3 point group";
 }
diff --git a/ecc/singular.c b/ecc/singular.c
index acd3e32..1f58182 100644
--- a/ecc/singular.c
+++ b/ecc/singular.c
@@ -278,6 +278,22 @@ static size_t sn_out_str(FILE *stream, int base, element_ptr a) {
   return result + status + 1;
 }
 
+static int sn_snprint(char *s, size_t n, element_ptr a) {
+  point_ptr p = a->data;
+  size_t result;
+  int status;
+  if (p->inf_flag) return snprintf(s, n, "O");
+  status = element_snprint(s, n, p->x);
+  if (status < 0) return status;
+  result = status;
+  status = snprintf(s + result, result < n ? n - result : 0, " ");
+  if (status < 0) return status;
+  result += status;
+  status = element_snprint(s + result, result < n ? n - result : 0, p->y);
+  if (status < 0) return status;
+  return (int)(result + status);
+}
+
 void field_init_curve_singular_with_node(field_t c, field_t field) {
   field_init(c);
   mpz_set(c->order, field->order);
@@ -296,6 +312,7 @@ void field_init_curve_singular_with_node(field_t c, field_t field) {
   c->is1 = c->is0 = sn_is0;
   c->mul_mpz = c->pow_mpz;
   c->out_str = sn_out_str;
+  c->snprint = sn_snprint;
   c->field_clear = sn_field_clear;
 }
 
-- 
2.43.0


From bb07d131442cea23a9c103af23dad89a9c81203c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:10 +0000
Subject: [PATCH 053/105] fix: element_printf family printed %% as two percent
 signs

The literal text was passed on verbatim, so unlike with printf both
characters came out.
---
 misc/extend_printf.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/misc/extend_printf.c b/misc/extend_printf.c
index fa9bf2b..c539c16 100644
--- a/misc/extend_printf.c
+++ b/misc/extend_printf.c
@@ -50,7 +50,14 @@ static int do_print(int(*strcb)(void *, char *s),
       }
       if (!*(c + 1)) goto done;
       if (*(c + 1) != '%') break;
-      next = c + 2;
+      // Print the text up to and including the first of the two characters.
+      *(c + 1) = 0;
+      status = strcb(data, start);
+      if (status < 0) {
+        count = -1;
+        goto done;
+      } else count += status;
+      next = start = c + 2;
     }
     *c = 0;
     status = strcb(data, start);
-- 
2.43.0


From 9fcb30d3616d12999fe3c9c0d3a4584792397c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:10 +0000
Subject: [PATCH 054/105] fix: element_printf read past a format ending in %Z

The conversion letter after Z was skipped without checking for the end of
the string, so the scan continued beyond the copied format.
---
 misc/extend_printf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misc/extend_printf.c b/misc/extend_printf.c
index c539c16..fa12fcd 100644
--- a/misc/extend_printf.c
+++ b/misc/extend_printf.c
@@ -84,7 +84,7 @@ static int do_print(int(*strcb)(void *, char *s),
           break;
         default:
           if (strchr("diouxXeEfFgGaAcspnmZ", *c)) {
-            if (*c == 'Z') c++;
+            if (*c == 'Z' && !*++c) goto done;
             char ch = *(c+1);
             *(c+1) = '\0';
             status = fstrcb(data, start, va_arg(ap, void *));
-- 
2.43.0


From 144b4acbc33b1f362e47cd2e173531403d7c96d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:10 +0000
Subject: [PATCH 055/105] fix: element_snprintf computed addresses outside the
 buffer

Once the output was longer than the buffer (always with a null buffer of
size zero, the usual way to ask for the length) it added the full length to
the start of the buffer, which is undefined.
---
 misc/extend_printf.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/misc/extend_printf.c b/misc/extend_printf.c
index fa12fcd..439e469 100644
--- a/misc/extend_printf.c
+++ b/misc/extend_printf.c
@@ -14,7 +14,6 @@
 
 struct sninfo_s {
   char *s;
-  size_t size;
   size_t left;
   size_t result;
 };
@@ -145,13 +144,15 @@ int element_printf(const char *format, ...) {
 }
 
 static void next(struct sninfo_s *p, int status) {
+  size_t n = (size_t) status < p->left ? (size_t) status : p->left;
   p->result += status;
-  p->left = p->result >= p->size ? 0 : p->size - p->result;
+  p->s += n;
+  p->left -= n;
 }
 
 static int string_cbv(void *data, char *s) {
   struct sninfo_s *p = data;
-  int status = snprintf(p->s + p->result, p->left, "%s", s);
+  int status = snprintf(p->s, p->left, "%s", s);
   if (status < 0) return status;
   next(data, status);
   return status;
@@ -159,7 +160,7 @@ static int string_cbv(void *data, char *s) {
 
 static int format_cbv(void *data, char *fstring, void *ptr) {
   struct sninfo_s *p = data;
-  int status = gmp_snprintf(p->s + p->result, p->left, fstring, ptr);
+  int status = gmp_snprintf(p->s, p->left, fstring, ptr);
   if (status < 0) return status;
   next(data, status);
   return status;
@@ -167,7 +168,7 @@ static int format_cbv(void *data, char *fstring, void *ptr) {
 
 static int element_cbv(void *data, element_ptr e) {
   struct sninfo_s *p = data;
-  int status = element_snprint(p->s + p->result, p->left, e);
+  int status = element_snprint(p->s, p->left, e);
   if (status < 0) return status;
   next(data, status);
   return status;
@@ -177,7 +178,7 @@ int element_vsnprintf(char *buf, size_t size, const char *fmt, va_list ap) {
   struct sninfo_s info;
 
   info.s = buf;
-  info.left = info.size = size;
+  info.left = size;
   info.result = 0;
 
   do_print(string_cbv, format_cbv, element_cbv, &info, fmt, ap);
-- 
2.43.0


From 380dc0222cd30dfbacf875efe3eae6627940d94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:33 +0000
Subject: [PATCH 056/105] fix: lists equal to zero or one failed the zero and
 one tests

element_cmp() treats the integer z and the list [z, 0, ...] as the same
multinomial, but element_is0() and element_is1() accepted integers only.
---
 arith/multiz.c | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/arith/multiz.c b/arith/multiz.c
index 95ef3fd..de03fd9 100644
--- a/arith/multiz.c
+++ b/arith/multiz.c
@@ -391,13 +391,26 @@ static void f_from_hash(element_ptr n, const void *data, int len) {
   mpz_clear(z);
 }
 
-static int f_is1(element_ptr n) {
-  multiz ep = n->data;
-  return ep->type == T_MPZ && !mpz_cmp_ui(ep->z, 1);
+int multiz_is0(multiz m) {
+  int i;
+  if (T_MPZ == m->type) return mpz_is0(m->z);
+  for (i = darray_count(m->a) - 1; i >= 0; i--) {
+    if (!multiz_is0(darray_at(m->a, i))) return 0;
+  }
+  return 1;
 }
 
-int multiz_is0(multiz m) {
-  return m->type == T_MPZ && mpz_is0(m->z);
+static int multiz_is1(multiz m) {
+  int i;
+  if (T_MPZ == m->type) return !mpz_cmp_ui(m->z, 1);
+  for (i = darray_count(m->a) - 1; i > 0; i--) {
+    if (!multiz_is0(darray_at(m->a, i))) return 0;
+  }
+  return multiz_is1(darray_at(m->a, 0));
+}
+
+static int f_is1(element_ptr n) {
+  return multiz_is1(n->data);
 }
 
 static int f_is0(element_ptr n) {
-- 
2.43.0


From 312c163dec242a2785ce6b9f852a35db4e49ab3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:33 +0000
Subject: [PATCH 057/105] fix: pairing_clear crashed on the singular curve
 pairing

The clear function was never set; a temporary of the pairing leaked too.
---
 ecc/singular.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/ecc/singular.c b/ecc/singular.c
index 1f58182..d622a93 100644
--- a/ecc/singular.c
+++ b/ecc/singular.c
@@ -450,6 +450,17 @@ static void sn_pairing(element_ptr out, element_ptr in1, element_ptr in2,
   //element_pow_mpz(out, out, p->tateexp);
   element_clear(R);
   element_clear(QR);
+  element_clear(e0);
+}
+
+static void sn_pairing_clear(pairing_t pairing) {
+  sn_pairing_data_ptr p = pairing->data;
+  field_clear(pairing->GT);
+  field_clear(p->Eq);
+  field_clear(p->Fq);
+  pbc_free(p);
+  mpz_clear(pairing->r);
+  field_clear(pairing->Zr);
 }
 
 void pairing_init_singular_with_node(pairing_t pairing, mpz_t q) {
@@ -459,6 +470,7 @@ void pairing_init_singular_with_node(pairing_t pairing, mpz_t q) {
   mpz_sub_ui(pairing->r, q, 1);
   field_init_fp(pairing->Zr, pairing->r);
   pairing->map = sn_pairing;
+  pairing->clear_func = sn_pairing_clear;
 
   p = pairing->data = pbc_malloc(sizeof(sn_pairing_data_t));
   field_init_fp(p->Fq, q);
-- 
2.43.0


From 949715d0e89ab24e8e82f1455127e9569a6841d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:41 +0000
Subject: [PATCH 058/105] fix: a random source file that ran short supplied
 uninitialized memory

A partial read was taken for a complete one, and on errors the stream, the
buffer and a temporary were leaked.  A file that cannot be opened was passed
over in silence.
---
 arith/random.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/arith/random.c b/arith/random.c
index 69f3135..fd3312e 100644
--- a/arith/random.c
+++ b/arith/random.c
@@ -31,26 +31,31 @@ static void file_mpz_random(mpz_t r, mpz_t limit, void *data) {
   size_t bytecount, leftover;
   unsigned char *bytes;
   mpz_t z;
-  mpz_init(z);
   fp = fopen(filename, "rb");
-  if (!fp) return;
+  if (!fp) {
+    pbc_warn("could not open source of random bits");
+    return;
+  }
+  mpz_init(z);
   n = (mp_bitcnt_t)mpz_sizeinbase(limit, 2);
   bytecount = (size_t)((n + 7) / 8);
   leftover = (size_t)(n % 8);
   bytes = (unsigned char *) pbc_malloc(bytecount);
   for (;;) {
-    if (!fread(bytes, 1, bytecount, fp)) {
+    if (fread(bytes, 1, bytecount, fp) != bytecount) {
       pbc_warn("error reading source of random bits");
-      return;
+      break;
     }
     if (leftover) {
       *bytes = *bytes % (1 << leftover);
     }
     mpz_import(z, bytecount, 1, 1, 0, 0, bytes);
-    if (mpz_cmp(z, limit) < 0) break;
+    if (mpz_cmp(z, limit) < 0) {
+      mpz_set(r, z);
+      break;
+    }
   }
   fclose(fp);
-  mpz_set(r, z);
   mpz_clear(z);
   pbc_free(bytes);
 }
-- 
2.43.0


From 3ea0389e83e6a257b425593495e0c0dd78fe3a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:41 +0000
Subject: [PATCH 059/105] fix: type A and E parameter generation drew from
 rand()

The group order was chosen with the C library's generator, which is neither
seeded nor the random source set by the user, so the same few orders came
out in every run.
---
 ecc/a_param.c | 17 ++++++++++++++---
 ecc/e_param.c | 17 ++++++++++++++---
 2 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/ecc/a_param.c b/ecc/a_param.c
index 22ebdb2..eae60e0 100644
--- a/ecc/a_param.c
+++ b/ecc/a_param.c
@@ -1501,6 +1501,17 @@ int pbc_param_init_a(pbc_param_ptr par, struct symtab_s *tab) {
   return err;
 }
 
+static int random_below(unsigned int limit) {
+  mpz_t z, zlimit;
+  mpz_init(z);
+  mpz_init_set_ui(zlimit, limit);
+  pbc_mpz_random(z, zlimit);
+  int res = (int)mpz_get_ui(z);
+  mpz_clear(z);
+  mpz_clear(zlimit);
+  return res;
+}
+
 void pbc_param_init_a_gen(pbc_param_ptr par, int rbits, int qbits) {
   a_param_init(par);
   a_param_ptr sp = par->data;
@@ -1514,7 +1525,7 @@ void pbc_param_init_a_gen(pbc_param_ptr par, int rbits, int qbits) {
     int i;
     mpz_set_ui(r, 0);
 
-    if (rand() % 2) {
+    if (random_below(2)) {
       sp->exp2 = rbits - 1;
       sp->sign1 = 1;
     } else {
@@ -1525,7 +1536,7 @@ void pbc_param_init_a_gen(pbc_param_ptr par, int rbits, int qbits) {
 
     //use q as a temp variable
     mpz_set_ui(q, 0);
-    sp->exp1 = (rand() % (sp->exp2 - 1)) + 1;
+    sp->exp1 = random_below(sp->exp2 - 1) + 1;
     mpz_setbit(q, sp->exp1);
     if (sp->sign1 > 0) {
       mpz_add(r, r, q);
@@ -1533,7 +1544,7 @@ void pbc_param_init_a_gen(pbc_param_ptr par, int rbits, int qbits) {
       mpz_sub(r, r, q);
     }
 
-    if (rand() % 2) {
+    if (random_below(2)) {
       sp->sign0 = 1;
       mpz_add_ui(r, r, 1);
     } else {
diff --git a/ecc/e_param.c b/ecc/e_param.c
index 417d529..c479d15 100644
--- a/ecc/e_param.c
+++ b/ecc/e_param.c
@@ -920,6 +920,17 @@ int pbc_param_init_e(pbc_param_ptr par, struct symtab_s *tab) {
   return err;
 }
 
+static int random_below(unsigned int limit) {
+  mpz_t z, zlimit;
+  mpz_init(z);
+  mpz_init_set_ui(zlimit, limit);
+  pbc_mpz_random(z, zlimit);
+  int res = (int)mpz_get_ui(z);
+  mpz_clear(z);
+  mpz_clear(zlimit);
+  return res;
+}
+
 void pbc_param_init_e_gen(pbc_param_t par, int rbits, int qbits) {
   e_init(par);
   e_param_ptr p = par->data;
@@ -943,7 +954,7 @@ void pbc_param_init_e_gen(pbc_param_t par, int rbits, int qbits) {
     int i;
     mpz_set_ui(r, 0);
 
-    if (rand() % 2) {
+    if (random_below(2)) {
       p->exp2 = rbits - 1;
       p->sign1 = 1;
     } else {
@@ -952,7 +963,7 @@ void pbc_param_init_e_gen(pbc_param_t par, int rbits, int qbits) {
     }
     mpz_setbit(r, p->exp2);
 
-    p->exp1 = (rand() % (p->exp2 - 1)) + 1;
+    p->exp1 = random_below(p->exp2 - 1) + 1;
     //use q as a temp variable
     mpz_set_ui(q, 0);
     mpz_setbit(q, p->exp1);
@@ -963,7 +974,7 @@ void pbc_param_init_e_gen(pbc_param_t par, int rbits, int qbits) {
       mpz_sub(r, r, q);
     }
 
-    if (rand() % 2) {
+    if (random_below(2)) {
       p->sign0 = 1;
       mpz_add_ui(r, r, 1);
     } else {
-- 
2.43.0


From 88e2c8186b4ee55d52f86e8b9fae0e3b612a4711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:51 +0000
Subject: [PATCH 060/105] fix: type E and F parameter generation leaked curves
 and fields

---
 ecc/e_param.c | 2 ++
 ecc/f_param.c | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/ecc/e_param.c b/ecc/e_param.c
index c479d15..33f971d 100644
--- a/ecc/e_param.c
+++ b/ecc/e_param.c
@@ -1029,5 +1029,7 @@ void pbc_param_init_e_gen(pbc_param_t par, int rbits, int qbits) {
   element_to_mpz(p->a, curve_field_a_coeff(cc));
   element_to_mpz(p->b, curve_field_b_coeff(cc));
 
+  field_clear(cc);
+  field_clear(Fq);
   mpz_clear(n);
 }
diff --git a/ecc/f_param.c b/ecc/f_param.c
index a27d585..204c699 100644
--- a/ecc/f_param.c
+++ b/ecc/f_param.c
@@ -529,6 +529,8 @@ void pbc_param_init_f_gen(pbc_param_t p, int bits) {
     element_clear(P);
     field_clear(c);
   }
+  element_clear(P);
+  field_clear(c);
   element_to_mpz(b, e1);
   element_clear(e1);
   field_init_quadratic(Fq2, Fq);
-- 
2.43.0


From 21bc8e8f7ba6f7742e2535954e7fec60c548440a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:50 +0000
Subject: [PATCH 061/105] fix: hashing zero bytes to GT divided by zero or gave
 zero

The final powering was applied to the zero of the field.  The same could
happen to random elements.
---
 ecc/pairing.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ecc/pairing.c b/ecc/pairing.c
index 1c3238a..09514fe 100644
--- a/ecc/pairing.c
+++ b/ecc/pairing.c
@@ -122,12 +122,16 @@ static void gt_out_info(FILE *out, field_ptr f) {
 static void gt_from_hash(element_ptr e, const void *data, int len) {
   pairing_ptr pairing = e->field->pairing;
   element_from_hash(e->data, data, len);
+  // Zero has no place in the group and cannot be inverted.
+  if (element_is0(e->data)) element_set1(e->data);
   pairing->finalpow(e);
 }
 
 static void gt_random(element_ptr e) {
   pairing_ptr pairing = e->field->pairing;
-  element_random(e->data);
+  do {
+    element_random(e->data);
+  } while (element_is0(e->data));
   pairing->finalpow(e);
 }
 
-- 
2.43.0


From c6599ad4a07f3d1cdeb3c691089b51b6445e72d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:13 +0000
Subject: [PATCH 062/105] fix: random curve points never used the other square
 root

---
 ecc/curve.c    | 7 ++++++-
 ecc/eta_T_3.c  | 7 +++++++
 ecc/singular.c | 7 +++++++
 3 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/ecc/curve.c b/ecc/curve.c
index 76504bd..169186e 100644
--- a/ecc/curve.c
+++ b/ecc/curve.c
@@ -413,10 +413,10 @@ static int curve_is1(element_ptr x) {
 }
 
 static void curve_random_no_cofac_solvefory(element_ptr a) {
-  //TODO: with 0.5 probability negate y-coord
   curve_data_ptr cdp = a->field->data;
   point_ptr p = a->data;
   element_t t;
+  mpz_t z;
 
   element_init(t, cdp->field);
   p->inf_flag = 0;
@@ -428,6 +428,11 @@ static void curve_random_no_cofac_solvefory(element_ptr a) {
     element_add(t, t, cdp->b);
   } while (!element_is_sqr(t));
   element_sqrt(p->y, t);
+  // Both square roots must be equally likely.
+  mpz_init(z);
+  pbc_mpz_randomb(z, 1);
+  if (mpz_sgn(z)) element_neg(p->y, p->y);
+  mpz_clear(z);
   element_clear(t);
 }
 
diff --git a/ecc/eta_T_3.c b/ecc/eta_T_3.c
index c9540ab..e7d387b 100644
--- a/ecc/eta_T_3.c
+++ b/ecc/eta_T_3.c
@@ -6,6 +6,7 @@
 #include "pbc_field.h"
 #include "pbc_fp.h"
 #include "pbc_memory.h"
+#include "pbc_random.h"
 #include "pbc_param.h"
 #include "pbc_pairing.h"
 #include "pbc_ternary_extension_field.h"
@@ -106,6 +107,12 @@ static void point_random(element_t a) {
         element_sqrt(y, t);  // y == sqrt(x^3 - x + 1)
         element_mul(t2, y, y); // t2 == x^3 - x + 1
     } while (element_cmp(t2, t)); // t2 != t
+    // both square roots must be equally likely
+    mpz_t z;
+    mpz_init(z);
+    pbc_mpz_randomb(z, 1);
+    if (mpz_sgn(z)) element_neg(y, y);
+    mpz_clear(z);
 
     // make sure order of $a$ is order of $G_1$
     pairing_ptr pairing = FIELD(a)->pairing;
diff --git a/ecc/singular.c b/ecc/singular.c
index d622a93..167c059 100644
--- a/ecc/singular.c
+++ b/ecc/singular.c
@@ -10,6 +10,7 @@
 #include "pbc_pairing.h"
 #include "pbc_fp.h"
 #include "pbc_memory.h"
+#include "pbc_random.h"
 
 //TODO: Store as integer mod ring instead and convert at last minute?
 struct point_s {
@@ -50,6 +51,7 @@ static int sn_is0(element_ptr x) {
 static void sn_random(element_t a) {
   point_ptr p = a->data;
   element_t t;
+  mpz_t z;
 
   element_init(t, p->x->field);
   p->inf_flag = 0;
@@ -60,6 +62,11 @@ static void sn_random(element_t a) {
     element_mul(t, t, p->x);
   } while (element_is0(p->x) || !element_is_sqr(t));
   element_sqrt(p->y, t);
+  // Both square roots must be equally likely.
+  mpz_init(z);
+  pbc_mpz_randomb(z, 1);
+  if (mpz_sgn(z)) element_neg(p->y, p->y);
+  mpz_clear(z);
 
   element_clear(t);
 }
-- 
2.43.0


From 80e31671e04b345fb14044a9108b55762f2f71f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:27 +0000
Subject: [PATCH 063/105] fix: parameter values that are not numbers were
 accepted

---
 ecc/param.c | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/ecc/param.c b/ecc/param.c
index 35db0c4..135a6fa 100644
--- a/ecc/param.c
+++ b/ecc/param.c
@@ -145,24 +145,27 @@ int lookup_mpz(mpz_t z, symtab_t tab, const char *key) {
     pbc_error("missing param: `%s'", key);
     return 1;
   }
-  mpz_set_str(z, data, 0);
+  if (mpz_set_str(z, data, 0)) {
+    pbc_error("bad number for param: `%s'", key);
+    return 1;
+  }
   return 0;
 }
 
 int lookup_int(int *n, symtab_t tab, const char *key) {
   mpz_t z;
-  const char *data = lookup(tab, key);
-  if (!data) {
-    pbc_error("missing param: `%s'", key);
-    return 1;
-  }
+  int err;
   mpz_init(z);
 
-  mpz_set_str(z, data, 0);
-  *n = (int)mpz_get_si(z);
+  err = lookup_mpz(z, tab, key);
+  if (!err && !mpz_fits_sint_p(z)) {
+    pbc_error("number out of range for param: `%s'", key);
+    err = 1;
+  }
+  if (!err) *n = (int)mpz_get_si(z);
   mpz_clear(z);
 
-  return 0;
+  return err;
 }
 
 static int param_set_tab(pbc_param_t par, symtab_t tab) {
-- 
2.43.0


From 04b4210a9a89229d7cbb096ed95314f137114ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:27 +0000
Subject: [PATCH 064/105] fix: rejected pairing parameters leaked

---
 ecc/param.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ecc/param.c b/ecc/param.c
index 135a6fa..e10ead2 100644
--- a/ecc/param.c
+++ b/ecc/param.c
@@ -190,7 +190,10 @@ static int param_set_tab(pbc_param_t par, symtab_t tab) {
     for(i = 0; i < sizeof(funtab)/sizeof(*funtab); i++) {
       if (!strcmp(s, funtab[i].s)) {
         res = funtab[i].fun(par, tab);
-        if (res) pbc_error("bad pairing parameters");
+        if (res) {
+          pbc_error("bad pairing parameters");
+          pbc_param_clear(par);
+        }
         return res;
       }
     }
-- 
2.43.0


From 0395e7b99b42ac8e703035b31eb9145ee7f2cdb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:27 +0000
Subject: [PATCH 065/105] fix: repeated keys in parameter text leaked

---
 ecc/param.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ecc/param.c b/ecc/param.c
index e10ead2..fb4f988 100644
--- a/ecc/param.c
+++ b/ecc/param.c
@@ -104,6 +104,8 @@ static void read_symtab(symtab_t tab, const char *input, size_t limit) {
       pbc_free(key);
       break;
     }
+    // The last value given for a key counts.
+    if (symtab_has(tab, key)) pbc_free(symtab_at(tab, key));
     symtab_put(tab, pbc_strdup(tok->s), key);
     pbc_free(key);
   }
-- 
2.43.0


From 98d282e1d3ecf34d4b9dbe8c30fdab2f3d0a4822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:28 +0000
Subject: [PATCH 066/105] fix: type D parameters with a bad embedding degree
 exhausted memory

---
 ecc/d_param.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/ecc/d_param.c b/ecc/d_param.c
index 59c5b1c..bca78e8 100644
--- a/ecc/d_param.c
+++ b/ecc/d_param.c
@@ -1217,12 +1217,22 @@ int pbc_param_init_d(pbc_param_ptr par, struct symtab_s *tab) {
   err += lookup_mpz(p->hk, tab, "hk");
   err += lookup_mpz(p->nqr, tab, "nqr");
 
+  if (p->k < 2 || p->k % 2) {
+    pbc_error("embedding degree must be even and positive");
+    p->k = 0;
+    err++;
+  }
   d = p->k / 2;
-  p->coeff = pbc_realloc(p->coeff, sizeof(mpz_t) * d);
   for (i=0; i<d; i++) {
     sprintf(s, "coeff%d", i);
+    p->coeff = pbc_realloc(p->coeff, sizeof(mpz_t) * (i + 1));
     mpz_init(p->coeff[i]);
-    err += lookup_mpz(p->coeff[i], tab, s);
+    if (lookup_mpz(p->coeff[i], tab, s)) {
+      // The text decides how much is allocated, not the degree it claims.
+      p->k = 2 * (i + 1);
+      err++;
+      break;
+    }
   }
   return err;
 }
-- 
2.43.0


From a26f5ec2c209cbe6e40e0b94b70a3e015b4615f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:22 +0000
Subject: [PATCH 067/105] fix: Freeman curve search used the wrong sign of x
 when U = 10 mod 15

---
 ecc/mnt.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ecc/mnt.c b/ecc/mnt.c
index 0d51f52..1f3092a 100644
--- a/ecc/mnt.c
+++ b/ecc/mnt.c
@@ -354,7 +354,9 @@ static int freeman_step2(int (*callback)(pbc_cm_t, void *), void *data,
   if (!mpz_cmp_ui(x, 5)) {
     mpz_sub_ui(x, U, 5);
   } else if (!mpz_cmp_ui(x, 10)) {
+    // Then -U = 5 mod 15, so solve 15x + 5 = -U.
     mpz_add_ui(x, U, 5);
+    mpz_neg(x, x);
   } else {
     pbc_die("should never reach here");
     mpz_clear(x);
-- 
2.43.0


From dda15522cd1aea03e364fb60b2c4de0436d690fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:22 +0000
Subject: [PATCH 068/105] fix: overflow of 3D in the MNT curve search for large
 discriminants

---
 ecc/mnt.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ecc/mnt.c b/ecc/mnt.c
index 1f3092a..8dae4ea 100644
--- a/ecc/mnt.c
+++ b/ecc/mnt.c
@@ -291,7 +291,8 @@ int pbc_cm_search_d(int (*callback)(pbc_cm_t, void *), void *data,
   mpz_t t0, t1, t2;
 
   mpz_init(D3);
-  mpz_set_ui(D3, D * 3);
+  mpz_set_ui(D3, D);
+  mpz_mul_ui(D3, D3, 3);
 
   if (mpz_perfect_square_p(D3)) {
     // The only squares that differ by 8 are 1 and 9,
-- 
2.43.0


From 44338162441e7bebe3fc473abc6f0b60556cad8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:37 +0000
Subject: [PATCH 069/105] fix: curve searches reported group orders beyond the
 bit limit

---
 ecc/mnt.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ecc/mnt.c b/ecc/mnt.c
index 8dae4ea..0a206b5 100644
--- a/ecc/mnt.c
+++ b/ecc/mnt.c
@@ -200,7 +200,7 @@ void pbc_cm_clear(pbc_cm_t cm) {
 }
 
 static int mnt_step2(int (*callback)(pbc_cm_t, void *), void *data,
-    unsigned int D, mpz_t U) {
+    unsigned int D, unsigned int bitlimit, mpz_t U) {
   int d;
   mpz_t n, l, q;
   mpz_t p;
@@ -273,7 +273,7 @@ static int mnt_step2(int (*callback)(pbc_cm_t, void *), void *data,
   mpz_set(cm->r, r);
   mpz_set(cm->h, cofac);
   mpz_set(cm->n, n);
-  int res = callback(cm, data);
+  int res = mpz_sizeinbase(r, 2) <= bitlimit ? callback(cm, data) : 0;
   pbc_cm_clear(cm);
 
   mpz_clear(cofac);
@@ -314,7 +314,7 @@ int pbc_cm_search_d(int (*callback)(pbc_cm_t, void *), void *data,
   if (n) for (;;) {
     for (i=0; i<n; i++) {
       //element_printf("%Zd, %Zd\n", ps->x[i], ps->y[i]);
-      res = mnt_step2(callback, data, D, ps->x[i]);
+      res = mnt_step2(callback, data, D, bitlimit, ps->x[i]);
       if (res) goto toobig;
       //compute next solution as follows
       //if p, q is current solution
@@ -344,7 +344,7 @@ toobig:
 }
 
 static int freeman_step2(int (*callback)(pbc_cm_t, void *), void *data,
-    unsigned int D, mpz_t U) {
+    unsigned int D, unsigned int bitlimit, mpz_t U) {
   mpz_t n, x, q;
   mpz_t p;
   mpz_t r, cofac;
@@ -432,7 +432,7 @@ static int freeman_step2(int (*callback)(pbc_cm_t, void *), void *data,
   mpz_set(cm->r, r);
   mpz_set(cm->h, cofac);
   mpz_set(cm->n, n);
-  int res = callback(cm, data);
+  int res = mpz_sizeinbase(r, 2) <= bitlimit ? callback(cm, data) : 0;
   pbc_cm_clear(cm);
 
   mpz_clear(cofac);
@@ -469,7 +469,7 @@ int pbc_cm_search_g(int (*callback)(pbc_cm_t, void *), void *data,
   n = ps->count;
   if (n) for (;;) {
     for (i=0; i<n; i++) {
-      res = freeman_step2(callback, data, D, ps->x[i]);
+      res = freeman_step2(callback, data, D, bitlimit, ps->x[i]);
       if (res) goto toobig;
       // Compute next solution as follows:
       // If p, q is current solution
-- 
2.43.0


From 554835e742f06745ed6e20ed7174c481bdab06ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:32 +0000
Subject: [PATCH 070/105] fix: Hilbert class polynomials of non-fundamental
 discriminants included imprimitive forms

---
 ecc/hilbert.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/ecc/hilbert.c b/ecc/hilbert.c
index 1b0f6c7..dbf0e5d 100644
--- a/ecc/hilbert.c
+++ b/ecc/hilbert.c
@@ -329,6 +329,14 @@ static void precision_clear(void) {
   mpf_clear(negepsilon);
 }
 
+// Returns nonzero if gcd(a, b, c) = 1.
+static int is_primitive(int a, int b, int c) {
+  int t;
+  while (b) { t = a % b; a = b; b = t; }
+  while (c) { t = a % c; a = c; c = t; }
+  return a == 1;
+}
+
 // See Cohen; my D is -D in his notation.
 size_t pbc_hilbert(mpz_t **arr, int D) {
   int a, b;
@@ -354,7 +362,7 @@ size_t pbc_hilbert(mpz_t **arr, int D) {
       goto step535_4;
     }
 step535_3:
-    if (!(t % a)) {
+    if (!(t % a) && is_primitive(a, b, t / a)) {
       jcount++;
       if ((a == b) || (a*a == t) || !b) {
         d += 1.0 / ((double) a);
@@ -399,7 +407,7 @@ step535_4:
       a = 1;
     }
 step3:
-    if (t % a) {
+    if (t % a || !is_primitive(a, b, t / a)) {
 step4:
       a++;
       if (a * a <= t) goto step3;
-- 
2.43.0


From 653ee3cc36ea3faa92dad2bfceb4d75ab94219fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:59 +0000
Subject: [PATCH 071/105] fix: type A generator did not respect the requested
 bit lengths

---
 ecc/a_param.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ecc/a_param.c b/ecc/a_param.c
index eae60e0..b2afba4 100644
--- a/ecc/a_param.c
+++ b/ecc/a_param.c
@@ -1551,12 +1551,15 @@ void pbc_param_init_a_gen(pbc_param_ptr par, int rbits, int qbits) {
       sp->sign0 = -1;
       mpz_sub_ui(r, r, 1);
     }
+    if (mpz_sizeinbase(r, 2) != (size_t) rbits) continue;
     if (!mpz_probab_prime_p(r, 10)) continue;
     for (i=0; i<10; i++) {
-      int bit;
+      int bit, exact;
       //use q as a temp variable
       mpz_set_ui(q, 0);
       bit = qbits - rbits - 4 + 1;
+      // If qbits is too close to rbits there may be no q of the right length.
+      exact = bit >= 16;
       if (bit < 3) bit = 3;
       mpz_setbit(q, bit);
       pbc_mpz_random(h, q);
@@ -1564,6 +1567,7 @@ void pbc_param_init_a_gen(pbc_param_ptr par, int rbits, int qbits) {
       //finally q takes the value it should
       mpz_mul(q, h, r);
       mpz_sub_ui(q, q, 1);
+      if (exact && mpz_sizeinbase(q, 2) != (size_t) qbits) continue;
       if (mpz_probab_prime_p(q, 10)) {
         found = 1;
         break;
-- 
2.43.0


From c4f2cd30ac7428528629c80a858ad1e1fc462515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:59 +0000
Subject: [PATCH 072/105] fix: type E generator did not respect the requested
 bit lengths

---
 ecc/e_param.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ecc/e_param.c b/ecc/e_param.c
index 33f971d..bc8d341 100644
--- a/ecc/e_param.c
+++ b/ecc/e_param.c
@@ -947,6 +947,8 @@ void pbc_param_init_e_gen(pbc_param_t par, int rbits, int qbits) {
 
   //won't find any curves is hbits is too low
   if (hbits < 3) hbits = 3;
+  // If hbits is low there may be no q of the right length.
+  int exact = hbits >= 16;
 
   mpz_init(n);
 
@@ -981,6 +983,7 @@ void pbc_param_init_e_gen(pbc_param_t par, int rbits, int qbits) {
       p->sign0 = -1;
       mpz_sub_ui(r, r, 1);
     }
+    if (mpz_sizeinbase(r, 2) != (size_t) rbits) continue;
     if (!mpz_probab_prime_p(r, 10)) continue;
     for (i=0; i<10; i++) {
       //use q as a temp variable
@@ -993,6 +996,7 @@ void pbc_param_init_e_gen(pbc_param_t par, int rbits, int qbits) {
       mpz_mul(n, r, r);
       mpz_mul(n, n, h);
       mpz_add_ui(q, n, 1);
+      if (exact && mpz_sizeinbase(q, 2) != (size_t) qbits) continue;
       if (mpz_probab_prime_p(q, 10)) {
         found = 1;
         break;
-- 
2.43.0


From 1d4374d0ecba1585c55b4be7992e1206fa200a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:17 +0000
Subject: [PATCH 073/105] fix: curve searches skipped classes of solutions once
 another outgrew the limit

---
 ecc/mnt.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/ecc/mnt.c b/ecc/mnt.c
index 0a206b5..5c9306a 100644
--- a/ecc/mnt.c
+++ b/ecc/mnt.c
@@ -311,8 +311,13 @@ int pbc_cm_search_d(int (*callback)(pbc_cm_t, void *), void *data,
   int i, n;
   int res = 0;
   n = ps->count;
-  if (n) for (;;) {
+  int more = n;
+  while (more) {
+    more = 0;
     for (i=0; i<n; i++) {
+      // Skip classes of solutions that have outgrown the limit.
+      if (2 * mpz_sizeinbase(ps->x[i], 2) > bitlimit + 10) continue;
+      more = 1;
       //element_printf("%Zd, %Zd\n", ps->x[i], ps->y[i]);
       res = mnt_step2(callback, data, D, bitlimit, ps->x[i]);
       if (res) goto toobig;
@@ -325,7 +330,6 @@ int pbc_cm_search_d(int (*callback)(pbc_cm_t, void *), void *data,
       mpz_mul(t1, ps->miny, ps->y[i]);
       mpz_mul(t1, t1, D3);
       mpz_add(t0, t0, t1);
-      if (2 * mpz_sizeinbase(t0, 2) > bitlimit + 10) goto toobig;
       mpz_mul(t2, ps->minx, ps->y[i]);
       mpz_mul(t1, ps->miny, ps->x[i]);
       mpz_add(t2, t2, t1);
@@ -467,8 +471,13 @@ int pbc_cm_search_g(int (*callback)(pbc_cm_t, void *), void *data,
 
   int i, n;
   n = ps->count;
-  if (n) for (;;) {
+  int more = n;
+  while (more) {
+    more = 0;
     for (i=0; i<n; i++) {
+      // Skip classes of solutions that have outgrown the limit.
+      if (2 * mpz_sizeinbase(ps->x[i], 2) > bitlimit + 10) continue;
+      more = 1;
       res = freeman_step2(callback, data, D, bitlimit, ps->x[i]);
       if (res) goto toobig;
       // Compute next solution as follows:
@@ -480,7 +489,6 @@ int pbc_cm_search_g(int (*callback)(pbc_cm_t, void *), void *data,
       mpz_mul(t1, ps->miny, ps->y[i]);
       mpz_mul(t1, t1, D15);
       mpz_add(t0, t0, t1);
-      if (2 * mpz_sizeinbase(t0, 2) > bitlimit + 10) goto toobig;
       mpz_mul(t2, ps->minx, ps->y[i]);
       mpz_mul(t1, ps->miny, ps->x[i]);
       mpz_add(t2, t2, t1);
-- 
2.43.0


From 63664e54386f839f43c20bdef0cf0bd4e52926f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:17 +0000
Subject: [PATCH 074/105] fix: type A1 pairing tables leaked their coefficients

---
 ecc/a_param.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/ecc/a_param.c b/ecc/a_param.c
index b2afba4..23a9483 100644
--- a/ecc/a_param.c
+++ b/ecc/a_param.c
@@ -1637,9 +1637,26 @@ static void pp2_coeff_set(pp2_coeff_ptr p,
 
 static void a1_pairing_pp_clear(pairing_pp_t p) {
   void **pp = p->data;
+  mp_bitcnt_t m = (mp_bitcnt_t)mpz_sizeinbase(p->pairing->r, 2);
+  m = (m > 2 ? m - 2 : 0);
   while (*pp) {
+    if (m && mpz_tstbit(p->pairing->r, m)) {
+      pp2_coeff_ptr c = *pp;
+      element_clear(c->cx2);
+      element_clear(c->cy2);
+      element_clear(c->cxy);
+      element_clear(c->cx);
+      element_clear(c->cy);
+      element_clear(c->c);
+    } else {
+      pp_coeff_ptr c = *pp;
+      element_clear(c->a);
+      element_clear(c->b);
+      element_clear(c->c);
+    }
     pbc_free(*pp);
     pp++;
+    m--;
   }
   pbc_free(p->data);
 }
-- 
2.43.0


From 1b03ff511f7a081ba3ac46d007dcdba6917486fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:17 +0000
Subject: [PATCH 075/105] fix: hashing an empty message passed a null pointer
 to memcpy

---
 arith/field.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arith/field.c b/arith/field.c
index cf902b8..20b9d47 100644
--- a/arith/field.c
+++ b/arith/field.c
@@ -707,7 +707,7 @@ void pbc_mpz_from_hash(mpz_t z, mpz_t limit,
       n = count - i;
       done = 1;
     } else n = len;
-    memcpy(buf + i, data, n);
+    if (n) memcpy(buf + i, data, n);
     i += n;
     if (done) break;
     buf[i] = counter;
-- 
2.43.0


From eeefdf05a95ac866ac56b80f480d162665c8b461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:04 +0000
Subject: [PATCH 076/105] fix: the wiping configuration called a GMP function
 without a declaration

---
 misc/memory.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/misc/memory.c b/misc/memory.c
index 21d50dd..a943b4f 100644
--- a/misc/memory.c
+++ b/misc/memory.c
@@ -2,6 +2,7 @@
 #include <stdint.h> // for intptr_t
 #include <stdio.h>
 #include <string.h>
+#include <gmp.h>
 #include "pbc_utils.h"
 #include "pbc_memory.h"
 
-- 
2.43.0


From 620385b697dee66d8f4563f06a4a4ba567bcea1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:04 +0000
Subject: [PATCH 077/105] fix: the wiping configuration exported a function
 called init

---
 misc/memory.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misc/memory.c b/misc/memory.c
index a943b4f..389c43b 100644
--- a/misc/memory.c
+++ b/misc/memory.c
@@ -33,7 +33,7 @@ static void gmp_guarantee_zero_memory(void) {
   __gmp_set_memory_functions(gmp_malloc, gmp_realloc, gmp_free);
 }
 
-__attribute__((constructor)) void init(void) {
+__attribute__((constructor)) static void init(void) {
   gmp_guarantee_zero_memory();
 }
 
-- 
2.43.0


From e405e6cf077c425ef6bd83b6eedf9b8c814dac9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:04 +0000
Subject: [PATCH 078/105] fix: shrinking a block in the wiping configuration
 wrote past its end

---
 misc/memory.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/misc/memory.c b/misc/memory.c
index 389c43b..80a2b54 100644
--- a/misc/memory.c
+++ b/misc/memory.c
@@ -24,7 +24,7 @@ static void* gmp_malloc(size_t size) {
 static void* gmp_realloc(void *old_ptr, size_t old_size, size_t new_size) {
   void *new_ptr = malloc(new_size);
   if(new_ptr && old_ptr)
-    memcpy(new_ptr, old_ptr, old_size);
+    memcpy(new_ptr, old_ptr, old_size < new_size ? old_size : new_size);
   gmp_free(old_ptr, old_size);
   return new_ptr;
 }
@@ -77,7 +77,8 @@ static void *default_pbc_realloc(void *old, size_t new_size) {
   if(!new) pbc_die("realloc() error");
   if(old) {
     old = pbc_ptr_to_mem(old);
-    memcpy(pbc_mem_to_ptr(new), pbc_mem_to_ptr(old), pbc_mem_get_size(old));
+    size_t size = pbc_mem_get_size(old);
+    memcpy(pbc_mem_to_ptr(new), pbc_mem_to_ptr(old), size < new_size ? size : new_size);
     pbc_mem_free(old);
   }
   return pbc_mem_to_ptr(new);
-- 
2.43.0


From 6dd38abc692cf2e43e86731d5a47cabb7035b980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:04 +0000
Subject: [PATCH 079/105] fix: optimizing compilers removed the wiping of
 released blocks

---
 misc/memory.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/misc/memory.c b/misc/memory.c
index 80a2b54..7f3ffbf 100644
--- a/misc/memory.c
+++ b/misc/memory.c
@@ -7,10 +7,13 @@
 #include "pbc_memory.h"
 
 #ifdef SAFE_CLEAN
+/* a call the compiler cannot drop, unlike a memset() followed by free() */
+static void *(*volatile wipe)(void *, int, size_t) = memset;
+
 /* guarantee zeroing the memory */
 static void gmp_free(void *ptr, size_t size) {
   if(ptr)
-    memset(ptr, 0, size);
+    wipe(ptr, 0, size);
   free(ptr);
 }
 
@@ -62,7 +65,7 @@ static void *pbc_mem_malloc(size_t size) {
 }
 
 static void pbc_mem_free(void *ptr) {
-  memset(ptr, 0, pbc_mem_get_size(ptr) + sizeof(size_t));
+  wipe(ptr, 0, pbc_mem_get_size(ptr) + sizeof(size_t));
   free(ptr);
 }
 
-- 
2.43.0


From 6ef3e340d0d91601bb87d5f791e93b774ffa75a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:17 +0000
Subject: [PATCH 080/105] fix: zero to the power of a multiple of 2^64 was one
 in Z

---
 arith/z.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/arith/z.c b/arith/z.c
index c51429a..00267f8 100644
--- a/arith/z.c
+++ b/arith/z.c
@@ -101,6 +101,8 @@ static void z_invert(element_ptr n, element_ptr a) {
 static void z_pow_mpz(element_ptr n, element_ptr a, mpz_ptr z) {
   // mpz_get_ui() ignores the sign.
   unsigned long e = mpz_get_ui(z);
+  // Huge exponents only make sense for 0, 1 and -1: their parity matters.
+  if (mpz_size(z) > 1) e = 2 + (e & 1);
   if (mpz_sgn(z) < 0) {
     z_invert(n, a);
     a = n;
-- 
2.43.0


From e3d2f7d0617a23409ea98bc30b81f5bba8f394bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:17 +0000
Subject: [PATCH 081/105] fix: the calculator dropped an unterminated last
 line, split long lines and ended every line twice

---
 pbc/pbc_getline.c | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/pbc/pbc_getline.c b/pbc/pbc_getline.c
index dc44cc4..9741e34 100644
--- a/pbc/pbc_getline.c
+++ b/pbc/pbc_getline.c
@@ -1,17 +1,33 @@
 #include <stdio.h>
-#include <string.h>
-
-#include "pbc_memory.h"
+#include <stdlib.h>
 
+/* Like readline(): returns the whole line, however long, without its newline.
+ * The last line need not end with one. NULL at the end of the input. */
 char *pbc_getline(const char *prompt) {
-  char s[1024];
-  if (prompt) fputs(prompt, stdout);
-  if (!fgets(s, 1024, stdin)) return NULL;
-  if (feof(stdin)) return NULL;
-  /* use strdup rather than pbc_strdup. because
+  size_t n = 0, size = 1024;
+  int c;
+  /* use malloc rather than pbc_malloc. because
    * 1. readline version of this function uses malloc.
-   * 2. pbc_malloc called by pbc_strdup may differ from malloc.
+   * 2. pbc_malloc may differ from malloc.
    * here we keep consistency.
    */
-  return strdup(s);
+  char *s = malloc(size);
+  if (prompt) {
+    fputs(prompt, stdout);
+    fflush(stdout);
+  }
+  while (s && EOF != (c = getc(stdin)) && c != '\n') {
+    s[n++] = (char)c;
+    if (n == size) {
+      char *t = realloc(s, size *= 2);
+      if (!t) free(s);
+      s = t;
+    }
+  }
+  if (s && !n && feof(stdin)) {
+    free(s);
+    return NULL;
+  }
+  if (s) s[n] = '\0';
+  return s;
 }
-- 
2.43.0


From f38a86095119c4acdeabdc26fef1910f46b88731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:17 +0000
Subject: [PATCH 082/105] fix: an empty line was a syntax error in the
 calculator's easy mode

---
 pbc/parser.y | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pbc/parser.y b/pbc/parser.y
index d51cebc..5c7a799 100644
--- a/pbc/parser.y
+++ b/pbc/parser.y
@@ -34,6 +34,7 @@ extern int option_easy;
 %%
 input
   : // Empty.
+  | input TERMINATOR  // Empty line or statement.
   | input stmt { tree_eval_stmt($2); }
   ;
 
@@ -46,6 +47,7 @@ stmt
 
 stmtlist
   : { $$ = tree_new_empty_stmt_list(); }  // Empty.
+  | stmtlist TERMINATOR  // Empty line or statement.
   | stmtlist stmt { tree_append($1, $2); }
   ;
 
-- 
2.43.0


From 48039298cf1a1fdbb5176c958459621f4762994a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:17 +0000
Subject: [PATCH 083/105] fix: the calculator's extend() took one argument and
 read a second

---
 pbc/pbc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbc/pbc.c b/pbc/pbc.c
index a9c1385..0c07231 100644
--- a/pbc/pbc.c
+++ b/pbc/pbc.c
@@ -707,7 +707,7 @@ static val_ptr run_extend(val_ptr v[]) {
   element_free(poly);
   return val_new_field(f);
 }
-static fun_t fun_extend = {{ "extend", run_extend, 1, sig_field_elem }};
+static fun_t fun_extend = {{ "extend", run_extend, 2, sig_field_elem }};
 
 static void init_pairing(const char *s) {
   pairing_init_set_str(pairing, s);
-- 
2.43.0


From 5d31090a8df51c9fab7d61c97d97f65cb3b01520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:17 +0000
Subject: [PATCH 084/105] fix: the value of an assignment aliased the variable
 in the calculator

---
 pbc/pbc.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pbc/pbc.c b/pbc/pbc.c
index 0c07231..b856138 100644
--- a/pbc/pbc.c
+++ b/pbc/pbc.c
@@ -422,7 +422,8 @@ static val_ptr eval_assign(tree_ptr t) {
     return val_new_error("%s is reserved", tid->id);
   }
   symtab_put(tab, v, tid->id);
-  return v;
+  // The result must not alias the variable: operators work in place.
+  return v->type->eval(v);
 }
 
 static void assign_field(field_ptr f, const char* s) {
-- 
2.43.0


From 1eda3ae844187736ec5898deaaf7023fa4e8ddf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:05 +0000
Subject: [PATCH 085/105] fix: Z silently truncated exponents of 2^64 and above

---
 arith/z.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/arith/z.c b/arith/z.c
index 00267f8..053aba3 100644
--- a/arith/z.c
+++ b/arith/z.c
@@ -101,8 +101,11 @@ static void z_invert(element_ptr n, element_ptr a) {
 static void z_pow_mpz(element_ptr n, element_ptr a, mpz_ptr z) {
   // mpz_get_ui() ignores the sign.
   unsigned long e = mpz_get_ui(z);
-  // Huge exponents only make sense for 0, 1 and -1: their parity matters.
-  if (mpz_size(z) > 1) e = 2 + (e & 1);
+  if (mpz_size(z) > 1) {
+    // Only 0, 1 and -1 have such powers, and there only the parity matters.
+    if (mpz_cmpabs_ui(a->data, 1) > 0) pbc_die("exponent too large");
+    e = 2 + (e & 1);
+  }
   if (mpz_sgn(z) < 0) {
     z_invert(n, a);
     a = n;
-- 
2.43.0


From 935ccf361113fd75681cd0e6f3221cd51e7c8bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:05 +0000
Subject: [PATCH 086/105] fix: using a missing value, or the wrong kind of
 value, crashed the calculator

---
 pbc/pbc.c | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/pbc/pbc.c b/pbc/pbc.c
index b856138..254790b 100644
--- a/pbc/pbc.c
+++ b/pbc/pbc.c
@@ -140,7 +140,8 @@ static val_ptr v_builtin(val_ptr v, tree_ptr t) {
   int i;
   for(i = 0; i < n; i++) {
     arg[i] = tree_eval(darray_at(t->child, i));
-    if (fun->sig[i] && arg[i]->type != fun->sig[i]) {
+    if (!arg[i] || (fun->sig[i] && arg[i]->type != fun->sig[i])) {
+      pbc_free(arg);
       return val_new_error("%s: argument %d type mismatch", fun->name, i + 1);
     }
   }
@@ -173,9 +174,16 @@ static val_ptr v_def_call(val_ptr v, tree_ptr t) {
   return NULL;
 }
 
+static struct val_type_s v_elem[1];
+
 static val_ptr v_field_cast(val_ptr v, tree_ptr t) {
-  // TODO: Check args, x is an element.
+  if (2 != darray_count(t->child)) {
+    return val_new_error("cast: wrong number of arguments");
+  }
   val_ptr x = tree_eval(darray_at(t->child, 0));
+  if (!x || x->type != v_elem) {
+    return val_new_error("cast: argument is not an element");
+  }
   element_ptr e = x->elem;
   if (e->field == M) {
     if (v->field == M) return x;
@@ -364,12 +372,11 @@ static val_ptr eval_list(tree_ptr t) {
   int i;
   for(i = 0; i < n; i++) {
     val_ptr x = tree_eval(darray_at(t->child, i));
-    // TODO: Also check x is a multiz.
-    if (v_error == x->type) {
+    if (x && v_error == x->type) {
       return x;
     }
-    if (v_elem != x->type) {
-      return val_new_error("element expected in list");
+    if (!x || v_elem != x->type || x->elem->field != M) {
+      return val_new_error("integer or list expected in list");
     }
     if (!i) e = multiz_new_list(x->elem);
     else multiz_append(e, x->elem);
@@ -379,10 +386,10 @@ static val_ptr eval_list(tree_ptr t) {
 
 static val_ptr eval_ternary(tree_ptr t) {
   val_ptr x = tree_eval(darray_at(t->child, 0));
-  if (v_error == x->type) {
+  if (x && v_error == x->type) {
     return x;
   }
-  if (x->type != v_elem) {
+  if (!x || x->type != v_elem) {
     return val_new_error("element expected in ternary operator");
   }
   if (!element_is0(x->elem)) {
@@ -402,6 +409,9 @@ static val_ptr eval_id(tree_ptr t) {
 
 static val_ptr eval_funcall(tree_ptr t) {
   val_ptr x = tree_eval(darray_last(t->child));
+  if (!x || !x->type->funcall) {
+    return val_new_error("not a function");
+  }
   return x->type->funcall(x, t);
 }
 
@@ -421,6 +431,9 @@ static val_ptr eval_assign(tree_ptr t) {
   if (symtab_at(reserved, tid->id)) {
     return val_new_error("%s is reserved", tid->id);
   }
+  if (!v) {
+    return val_new_error("%s: no value to assign", tid->id);
+  }
   symtab_put(tab, v, tid->id);
   // The result must not alias the variable: operators work in place.
   return v->type->eval(v);
-- 
2.43.0


From 830e4a2f50ec172fbdde3f3dd68629a603d4a0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:05 +0000
Subject: [PATCH 087/105] fix: items out of range crashed the calculator

---
 pbc/pbc.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pbc/pbc.c b/pbc/pbc.c
index 254790b..6687c23 100644
--- a/pbc/pbc.c
+++ b/pbc/pbc.c
@@ -591,8 +591,11 @@ static val_ptr run_item(val_ptr v[]) {
   mpz_t z;
   mpz_init(z);
   element_to_mpz(z, v[1]->elem);
-  int i = (int)mpz_get_si(z);
+  int i = mpz_fits_sint_p(z) ? (int)mpz_get_si(z) : -1;
   mpz_clear(z);
+  if (i < 0 || i >= element_item_count(v[0]->elem)) {
+    return val_new_error("item: index out of range");
+  }
   element_ptr a = element_item(v[0]->elem, i);
   element_ptr e = pbc_malloc(sizeof(*e));
   element_init_same_as(e, a);
-- 
2.43.0


From 342808a604eac0a2f8194dc075937d7e129db3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:05 +0000
Subject: [PATCH 088/105] fix: combining elements of different structures
 corrupted memory in the calculator

---
 pbc/pbc.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pbc/pbc.c b/pbc/pbc.c
index 6687c23..88ffebe 100644
--- a/pbc/pbc.c
+++ b/pbc/pbc.c
@@ -280,6 +280,9 @@ static val_ptr val_new_fun(fun_ptr fun) {
 static val_ptr fun_bin(
     void (*binop)(element_ptr, element_ptr, element_ptr),
     val_ptr v[]) {
+  if (v[0]->elem->field != v[1]->elem->field) {
+    return val_new_error("operands belong to different structures");
+  }
   binop(v[0]->elem, v[0]->elem, v[1]->elem);
   return v[0];
 }
@@ -288,7 +291,10 @@ static val_ptr run_add(val_ptr v[]) { return fun_bin(element_add, v); }
 static val_ptr run_sub(val_ptr v[]) { return fun_bin(element_sub, v); }
 static val_ptr run_mul(val_ptr v[]) { return fun_bin(element_mul, v); }
 static val_ptr run_div(val_ptr v[]) { return fun_bin(element_div, v); }
-static val_ptr run_pow(val_ptr v[]) { return fun_bin(element_pow_zn, v); }
+static val_ptr run_pow(val_ptr v[]) {
+  element_pow_zn(v[0]->elem, v[0]->elem, v[1]->elem);
+  return v[0];
+}
 
 static fun_t fun_add = {{ "add", run_add, 2, sig_elem_elem }};
 static fun_t fun_sub = {{ "sub", run_sub, 2, sig_elem_elem }};
@@ -297,6 +303,9 @@ static fun_t fun_div = {{ "div", run_div, 2, sig_elem_elem }};
 static fun_t fun_pow = {{ "pow", run_pow, 2, sig_elem_elem }};
 
 static val_ptr fun_cmp(val_ptr v[], int (*fun)(int)) {
+  if (v[0]->elem->field != v[1]->elem->field) {
+    return val_new_error("operands belong to different structures");
+  }
   int i = element_cmp(v[0]->elem, v[1]->elem);
   element_ptr e = pbc_malloc(sizeof(*e));
   element_init(e, M);
-- 
2.43.0


From 9cc0c1e03d2831f87d4cd10c21e37324ef92a5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:05 +0000
Subject: [PATCH 089/105] fix: dividing by zero and missing inverses or roots
 crashed the calculator

---
 arith/field.c |  3 +++
 pbc/pbc.c     | 29 ++++++++++++++++++++++++++---
 2 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/arith/field.c b/arith/field.c
index 20b9d47..b057bfc 100644
--- a/arith/field.c
+++ b/arith/field.c
@@ -643,6 +643,9 @@ void field_init(field_ptr f) {
   f->cmp = generic_cmp;
   f->sub = generic_sub;
   f->div = generic_div;
+  f->invert = NULL;
+  f->is_sqr = NULL;
+  f->sqrt = NULL;
   f->add_ui = generic_add_ui;
 
   // default: converts all elements to integer 0
diff --git a/pbc/pbc.c b/pbc/pbc.c
index 88ffebe..f0f1ce3 100644
--- a/pbc/pbc.c
+++ b/pbc/pbc.c
@@ -290,8 +290,27 @@ static val_ptr fun_bin(
 static val_ptr run_add(val_ptr v[]) { return fun_bin(element_add, v); }
 static val_ptr run_sub(val_ptr v[]) { return fun_bin(element_sub, v); }
 static val_ptr run_mul(val_ptr v[]) { return fun_bin(element_mul, v); }
-static val_ptr run_div(val_ptr v[]) { return fun_bin(element_div, v); }
+
+// The identity of a group is both its 0 and its 1, and has an inverse.
+static int is_invertible(element_ptr e) {
+  return e->field->invert && (!element_is0(e) || element_is1(e));
+}
+
+static val_ptr run_div(val_ptr v[]) {
+  if (element_is0(v[1]->elem) && !element_is1(v[1]->elem)) {
+    return val_new_error("division by zero");
+  }
+  return fun_bin(element_div, v);
+}
 static val_ptr run_pow(val_ptr v[]) {
+  mpz_t z;
+  mpz_init(z);
+  element_to_mpz(z, v[1]->elem);
+  int neg = mpz_sgn(z) < 0;
+  mpz_clear(z);
+  if (neg && !is_invertible(v[0]->elem)) {
+    return val_new_error("negative power of an element without inverse");
+  }
   element_pow_zn(v[0]->elem, v[0]->elem, v[1]->elem);
   return v[0];
 }
@@ -668,14 +687,18 @@ static fun_t fun_rnd = {{ "rnd", run_random, 1, sig_field }};
 static fun_t fun_random = {{ "random", run_random, 1, sig_field }};
 
 static val_ptr run_sqrt(val_ptr v[]) {
-  // TODO: Check v[0] is square.
+  if (!v[0]->elem->field->sqrt || !element_is_sqr(v[0]->elem)) {
+    return val_new_error("sqrt: element has no square root");
+  }
   element_sqrt(v[0]->elem, v[0]->elem);
   return v[0];
 }
 static fun_t fun_sqrt = {{ "sqrt", run_sqrt, 1, sig_elem }};
 
 static val_ptr run_invert(val_ptr v[]) {
-  // TODO: Check v[0] is invertible.
+  if (!is_invertible(v[0]->elem)) {
+    return val_new_error("inv: element has no inverse");
+  }
   element_invert(v[0]->elem, v[0]->elem);
   return v[0];
 }
-- 
2.43.0


From 5179e7adf134b49978570feb06f4163bf8522e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:05 +0000
Subject: [PATCH 090/105] fix: changing the pairing, or pairing other elements,
 crashed the calculator

---
 pbc/pbc.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pbc/pbc.c b/pbc/pbc.c
index f0f1ce3..4405d01 100644
--- a/pbc/pbc.c
+++ b/pbc/pbc.c
@@ -36,7 +36,6 @@ static symtab_t tab;
 
 static field_t M;
 static field_t Z;
-static pairing_t pairing;
 
 struct val_s;
 typedef struct val_s *val_ptr;
@@ -712,7 +711,11 @@ static fun_t fun_type = {{ "type", run_type, 1, sig_any }};
 
 static val_ptr run_pairing(val_ptr v[]) {
   element_ptr x = v[0]->elem;
-  element_ptr e = element_new(x->field->pairing->GT);
+  pairing_ptr p = x->field->pairing;
+  if (!p || x->field != p->G1 || v[1]->elem->field != p->G2) {
+    return val_new_error("pairing: arguments must belong to G1 and G2");
+  }
+  element_ptr e = element_new(p->GT);
   element_pairing(e, x, v[1]->elem);
   return val_new_element(e);
 }
@@ -759,6 +762,8 @@ static val_ptr run_extend(val_ptr v[]) {
 static fun_t fun_extend = {{ "extend", run_extend, 2, sig_field_elem }};
 
 static void init_pairing(const char *s) {
+  // Elements of the previous groups may still be in use.
+  pairing_ptr pairing = pbc_malloc(sizeof(*pairing));
   pairing_init_set_str(pairing, s);
   assign_field(pairing->G1, "G1");
   assign_field(pairing->G2, "G2");
-- 
2.43.0


From c3502f3fb32968f6fc054bf91d34b288b0787d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:05 +0000
Subject: [PATCH 091/105] fix: the calculator hid errors in function bodies and
 accepted any modulus

---
 pbc/pbc.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pbc/pbc.c b/pbc/pbc.c
index 4405d01..0ecd7c0 100644
--- a/pbc/pbc.c
+++ b/pbc/pbc.c
@@ -102,6 +102,8 @@ static val_ptr val_new_element(element_ptr e);
 static val_ptr val_new_field(field_ptr e);
 static val_ptr val_new_error(const char *msg, ...);
 
+static struct val_type_s v_elem[1], v_error[1];
+
 // Evaluates syntax tree node.
 static val_ptr tree_eval(tree_ptr t) {
   return t->eval(t);
@@ -150,7 +152,11 @@ static val_ptr v_builtin(val_ptr v, tree_ptr t) {
 }
 
 static void eval_stmt(void *ptr) {
-  tree_eval(ptr);
+  val_ptr v = tree_eval(ptr);
+  if (v && v->type == v_error) {
+    v->type->out_str(stdout, v);
+    putchar('\n');
+  }
 }
 
 static val_ptr v_def_call(val_ptr v, tree_ptr t) {
@@ -173,8 +179,6 @@ static val_ptr v_def_call(val_ptr v, tree_ptr t) {
   return NULL;
 }
 
-static struct val_type_s v_elem[1];
-
 static val_ptr v_field_cast(val_ptr v, tree_ptr t) {
   if (2 != darray_count(t->child)) {
     return val_new_error("cast: wrong number of arguments");
@@ -726,6 +730,10 @@ static val_ptr run_zmod(val_ptr v[]) {
   mpz_t z;
   mpz_init(z);
   element_to_mpz(z, e);
+  if (mpz_cmp_ui(z, 1) <= 0) {
+    mpz_clear(z);
+    return val_new_error("zmod: modulus must exceed 1");
+  }
   field_ptr f = pbc_malloc(sizeof(*f));
   field_init_fp(f, z);
   mpz_clear(z);
-- 
2.43.0


From 135b89fa1f1ceb4e5b073208471a483310daa709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:48 +0000
Subject: [PATCH 092/105] fix: the calculator's extend() accepted anything as
 its polynomial

---
 pbc/pbc.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pbc/pbc.c b/pbc/pbc.c
index 0ecd7c0..408b3aa 100644
--- a/pbc/pbc.c
+++ b/pbc/pbc.c
@@ -757,11 +757,17 @@ static val_ptr run_polymod(val_ptr v[]) {
 static fun_t fun_polymod = {{ "polymod", run_polymod, 1, sig_elem }};
 
 static val_ptr run_extend(val_ptr v[]) {
-  // TODO: Check v[1] is multiz poly.
+  if (v[1]->elem->field != M) {
+    return val_new_error("extend: list of coefficients expected");
+  }
   field_ptr fx = pbc_malloc(sizeof(*fx));
   field_init_poly(fx, v[0]->field);
   element_ptr poly = element_new(fx);
   element_set_multiz(poly, v[1]->elem->data);
+  if (poly_degree(poly) < 1 || !element_is1(element_item(poly, poly_degree(poly)))) {
+    element_free(poly);
+    return val_new_error("extend: monic polynomial expected");
+  }
   field_ptr f = pbc_malloc(sizeof(*f));
   field_init_polymod(f, poly);
   element_free(poly);
-- 
2.43.0


From 699c0cb63431bbdeded39ba381b01370be80a5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:48 +0000
Subject: [PATCH 093/105] fix: casting between structures silently did nothing
 in the calculator

---
 pbc/pbc.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pbc/pbc.c b/pbc/pbc.c
index 408b3aa..2830d52 100644
--- a/pbc/pbc.c
+++ b/pbc/pbc.c
@@ -209,6 +209,10 @@ static val_ptr v_field_cast(val_ptr v, tree_ptr t) {
     element_init(e, v->field);
     element_set_mpz(e, z);
     mpz_clear(z);
+    return x;
+  }
+  if (e->field != v->field) {
+    return val_new_error("cast: element belongs to another structure");
   }
   return x;
 }
-- 
2.43.0


From 659a6854e89db526a103d5b41749bf9faa296a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:34 +0000
Subject: [PATCH 094/105] fix: a comment at the end of a file without a final
 newline was a syntax error in the calculator

---
 pbc/parser.lex | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbc/parser.lex b/pbc/parser.lex
index 1d0b9f2..9c9d764 100644
--- a/pbc/parser.lex
+++ b/pbc/parser.lex
@@ -22,7 +22,7 @@ extern int option_easy;
 <COMMENT>\*\/           BEGIN(0);        // Close C-style comment.
 <COMMENT>.              // Within a C-style comment.
 <COMMENT>\n             // Within a C-style comment.
-#.*$                    // Comment.
+#.*                     // Comment.
 [ \t\r]*                // Whitespace.
 
 define                  return DEFINE;
-- 
2.43.0


From 716205141f8e87ed1c8c1603ba40483770f25e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:45 +0000
Subject: [PATCH 095/105] fix: removing items by a test stopped at the first
 one and read past the end of the array

---
 misc/darray.c | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/misc/darray.c b/misc/darray.c
index 50b127f..55fae04 100644
--- a/misc/darray.c
+++ b/misc/darray.c
@@ -99,15 +99,11 @@ void darray_remove(darray_ptr a, void *p)
 
 void darray_remove_with_test(darray_ptr a, int (*test)(void *))
 {
-    int i;
+    int i, n = 0;
     for (i=0; i<a->count; i++) {
-        if (test(a->item[i])) {
-            for (;i<a->count; i++) {
-                a->item[i] = a->item[i+1];
-            }
-            a->count--;
-        }
+        if (!test(a->item[i])) a->item[n++] = a->item[i];
     }
+    a->count = n;
 }
 
 void darray_copy(darray_ptr dst, darray_ptr src)
-- 
2.43.0


From fe05e0fe08dab83a385d58040cc3511c9902e08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:45 +0000
Subject: [PATCH 096/105] fix: copying an empty dynamic array ended the process

---
 misc/darray.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/misc/darray.c b/misc/darray.c
index 55fae04..44de22f 100644
--- a/misc/darray.c
+++ b/misc/darray.c
@@ -108,7 +108,8 @@ void darray_remove_with_test(darray_ptr a, int (*test)(void *))
 
 void darray_copy(darray_ptr dst, darray_ptr src)
 {
-    darray_realloc(dst, src->count);
+    if (dst == src) return;
+    darray_realloc(dst, src->count > max_init ? src->count : max_init);
     memcpy(dst->item, src->item, src->count * sizeof(void *));
     dst->count = src->count;
 }
-- 
2.43.0


From 797252ceab0b70c5549835a580df723e7da56ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:45 +0000
Subject: [PATCH 097/105] fix: Pollard rho gave a wrong answer when a collision
 had equal exponents of h

---
 arith/dlog.c | 41 ++++++++++++++++++++++++++---------------
 1 file changed, 26 insertions(+), 15 deletions(-)

diff --git a/arith/dlog.c b/arith/dlog.c
index bfa0d78..8e0fcec 100644
--- a/arith/dlog.c
+++ b/arith/dlog.c
@@ -133,27 +133,38 @@ void element_dlog_pollard_rho(element_t x, element_t g, element_t h) {
           mpz_divexact(zm, Zr->order, zd);
           mpz_divexact(zb, zb, zd);
           //if zd does not divide za there is no solution
-          mpz_divexact(za, za, zd);
-          mpz_invert(zb, zb, zm);
-          mpz_mul(zb, za, zb);
-          mpz_mod(zb, zb, zm);
-          do {
-            element_pow_mpz(g0, g, zb);
-            if (!element_cmp(g0, h)) {
-              element_set_mpz(x, zb);
-              break;
-            }
-            mpz_add(zb, zb, zm);
-            mpz_sub_ui(zd, zd, 1);
-          } while (mpz_sgn(zd));
+          if (mpz_divisible_p(za, zd)) {
+            mpz_divexact(za, za, zd);
+            mpz_invert(zb, zb, zm);
+            mpz_mul(zb, za, zb);
+            mpz_mod(zb, zb, zm);
+            do {
+              element_pow_mpz(g0, g, zb);
+              if (!element_cmp(g0, h)) {
+                element_set_mpz(x, zb);
+                found = 1;
+                break;
+              }
+              mpz_add(zb, zb, zm);
+              mpz_sub_ui(zd, zd, 1);
+            } while (mpz_sgn(zd));
+          }
           mpz_clear(zm);
           mpz_clear(za);
           mpz_clear(zb);
           mpz_clear(zd);
-        } else {
+        } else if (!element_is0(bsum)) {
           element_div(x, asum, bsum);
+          found = 1;
+        }
+        if (!found) {
+          //this collision says nothing about x: walk on from elsewhere
+          element_random(asum);
+          element_random(bsum);
+          element_pow_zn(g0, g, asum);
+          element_pow_zn(snark, h, bsum);
+          element_mul(snark, snark, g0);
         }
-        found = 1;
         break;
       }
     }
-- 
2.43.0


From 926cdc287505dcd10911e3f2a953dbd0885de2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:20 +0000
Subject: [PATCH 098/105] fix: a C++ Pairing made from bad parameters crashed
 when destroyed

---
 include/pbcxx.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/pbcxx.h b/include/pbcxx.h
index 75ac4ea..77a6c50 100644
--- a/include/pbcxx.h
+++ b/include/pbcxx.h
@@ -2,6 +2,7 @@
 #define PBC_PBCXX_H
 
 #include <iostream>
+#include <stdexcept>
 #include <string>
 #include <pbc/pbc.h>
 
@@ -391,8 +392,11 @@ class Pairing {
  public:
 
   // Initialize pairing based on given params.
+  // Throws invalid_argument if they do not describe a pairing.
   Pairing(const string& params) {
-    pairing_init_set_buf(pairing_, params.c_str(), params.size());
+    if (pairing_init_set_buf(pairing_, params.c_str(), params.size())) {
+      throw std::invalid_argument("bad pairing parameters");
+    }
   }
 
   ~Pairing() {
-- 
2.43.0


From 0d32c294afd42423ab048e754c25c8cde08bcd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:20 +0000
Subject: [PATCH 099/105] fix: copying a C++ Pairing released its contents
 twice

---
 include/pbcxx.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/pbcxx.h b/include/pbcxx.h
index 77a6c50..99c5b49 100644
--- a/include/pbcxx.h
+++ b/include/pbcxx.h
@@ -399,6 +399,10 @@ class Pairing {
     }
   }
 
+  // Elements refer to their pairing, so a pairing cannot be copied.
+  Pairing(const Pairing&) = delete;
+  Pairing& operator=(const Pairing&) = delete;
+
   ~Pairing() {
     pairing_clear(pairing_);
   }
-- 
2.43.0


From e35a03a77aea5f8bc73649290ef9486ff93702da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:43 +0000
Subject: [PATCH 100/105] fix: the C++ wrapper did not compile with g++

---
 include/pbcxx.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/pbcxx.h b/include/pbcxx.h
index 99c5b49..c9822b8 100644
--- a/include/pbcxx.h
+++ b/include/pbcxx.h
@@ -382,8 +382,10 @@ __DEFINE_ELEMENT_CLASS(GTElement, element_init_GT);
  * pairings and elements. Pairing is cleared automatically on destruction.
  */
 class Pairing {
-  template <__element_initializer_t init, class Derived>
-  friend class ElementWrapper;
+  friend class ElementWrapper<element_init_Zr, ZrElement>;
+  friend class ElementWrapper<element_init_G1, G1Element>;
+  friend class ElementWrapper<element_init_G2, G2Element>;
+  friend class ElementWrapper<element_init_GT, GTElement>;
 
  private:
   // Just like elements, this needs to be mutable as PBC doesn't use const.
-- 
2.43.0


From c2de588b08169018c97fc2bf0a43484a8e5ead6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:29 +0000
Subject: [PATCH 101/105] fix: the library did not compile with PBC_DEBUG

---
 arith/multiz.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arith/multiz.c b/arith/multiz.c
index de03fd9..a286790 100644
--- a/arith/multiz.c
+++ b/arith/multiz.c
@@ -204,7 +204,7 @@ static multiz multiz_new_unary(const multiz y,
       fun(x->z, y->z, scope_ptr);
       break;
     default:
-      PBC_ASSERT(T_ARR == ep->type, "no such type");
+      PBC_ASSERT(T_ARR == y->type, "no such type");
       x->type = T_ARR;
       darray_init(x->a);
       darray_forall4(y->a,
-- 
2.43.0


From f7561eab58f24befbd7864a27e482f0a1dc614a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:33 +0000
Subject: [PATCH 102/105] fix: element_prod_pairing read through a null pointer
 checking its output

In the PBC_DEBUG configuration an output that belongs to no pairing was
meant to stop with a message, as element_pairing does.
---
 include/pbc_pairing.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/pbc_pairing.h b/include/pbc_pairing.h
index 8e8a458..3e170b1 100644
--- a/include/pbc_pairing.h
+++ b/include/pbc_pairing.h
@@ -154,7 +154,8 @@ static inline void element_prod_pairing(
     element_t out, element_t in1[], element_t in2[], int n) {
   pairing_ptr pairing = out->field->pairing;
   int i;
-  PBC_ASSERT(pairing->GT == out->field, "pairing output mismatch");
+  PBC_ASSERT(pairing != NULL && pairing->GT == out->field,
+      "pairing output mismatch");
   for(i = 0; i < n; i++) {
     PBC_ASSERT(pairing->G1 == in1[i]->field, "pairing 1st input mismatch");
     PBC_ASSERT(pairing->G2 == in2[i]->field, "pairing 2nd input mismatch");
-- 
2.43.0


From 21eb7ff9d57ab933734a54d9d6e080709036caf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:58:22 +0000
Subject: [PATCH 103/105] fix: arithmetic in GF(3^m) changed the field while
 computing, so threads could not share it

---
 arith/ternary_extension_field.c | 50 +++++++++++++++------------------
 1 file changed, 23 insertions(+), 27 deletions(-)

diff --git a/arith/ternary_extension_field.c b/arith/ternary_extension_field.c
index 646ea2a..27696d9 100644
--- a/arith/ternary_extension_field.c
+++ b/arith/ternary_extension_field.c
@@ -250,15 +250,20 @@ static void gf3m_neg(element_t y, element_t x) {
     }
 }
 
+/* $f$ is $g$ with elements of $2*len$ machine integers, $p$ its private data.
+ * The field itself must stay as it is: other threads may be using it. */
+static void gf3m_widen(field_ptr f, params *p, field_ptr g, unsigned len) {
+    *f = *g;
+    *p = *(params *)g->data;
+    p->len = len;
+    f->data = p;
+}
+
 /* doing reduction
  * The function returns the value of $a$ modulo $the irreducible trinomial$.
- * $degree$ equals the degree of $a$.
- * $2*len$ is the number of elements in $a$ */
-static void gf3m_reduct(element_t e, unsigned len, unsigned degree) {
-    // the $len$ argument exists because sometimes $len != p->len$
+ * $degree$ equals the degree of $a$. */
+static void gf3m_reduct(element_t e, unsigned degree) {
     params *p = PARAM(e);
-    unsigned old = p->len;
-    p->len = len;
     element_t px;
     element_init(px, e->field);
     gf3m_set(px, degree, 1);
@@ -274,7 +279,6 @@ static void gf3m_reduct(element_t e, unsigned len, unsigned degree) {
         gf3m_shift_down(px);
     }
     element_clear(px);
-    p->len = old;
 }
 
 /* doing multiplication of $n \in \{0,1,2\}$ and $a$ in $GF(3^m)$
@@ -328,21 +332,18 @@ static void gf3m_mult(element_t e, element_ptr a, element_t b) {
 /* $e <- x^3$ */
 static void gf3m_cubic(element_t e, element_t x) {
     /* TODO: faster algorithm */
-    params *p = PARAM(x);
-    unsigned old = p->len;
+    params *p = PARAM(x), wide_p;
     unsigned len = (3 * p->m - 2 + W - 1) / W; /* length of $b1 */
-    p->len = len;
+    field_t wide;
+    gf3m_widen(wide, &wide_p, x->field, len);
     element_t a;
-    element_init(a, x->field);
+    element_init(a, wide);
     unsigned i;
     for (i = 0; i < p->m; i++) {
-        p->len = old;
         unsigned v = gf3m_get(x, i);
-        p->len = len;
         gf3m_set(a, 3 * i, v);
     }
-    gf3m_reduct(a, len, 3 * p->m - 3);
-    p->len = old;
+    gf3m_reduct(a, 3 * p->m - 3);
     memcpy(DATA1(e), DATA1(a), SIZE(e) / 2);
     memcpy(DATA2(e), DATA1(a) + len, SIZE(e) / 2);
     element_clear(a);
@@ -368,30 +369,28 @@ static void gf3m_swap(element_t a, element_t b) {
  Note that $U$ must have an extra bit, i.e, (_m + W - 1) // W == (_m + W) // W */
 static void gf3m_invert(element_t e, element_t a) {
     struct field_s *f = a->field;
-    params *p = PARAM(a);
+    params *p = PARAM(a), wide_p;
     unsigned lenA = p->len;
     unsigned lenS = (3 * p->m + W - 1) / W;
-    p->len = lenS;
+    field_t wide;
+    gf3m_widen(wide, &wide_p, f, lenS);
     element_t S, R, t, U, V, t2;
-    element_init(S, f);
-    element_init(R, f);
-    element_init(t, f);
+    element_init(S, wide);
+    element_init(R, wide);
+    element_init(t, wide);
     memcpy(DATA1(S), DATA1(p->p), lenA * sizeof(unsigned long)); /* S = p(x) */
     memcpy(DATA1(S) + lenS, DATA1(p->p) + lenA, lenA * sizeof(unsigned long));
     memcpy(DATA1(R), DATA1(a), lenA * sizeof(unsigned long)); /* R = _clone(a) */
     memcpy(DATA1(R) + lenS, DATA1(a) + lenA, lenA * sizeof(unsigned long));
-    p->len = lenA;
     element_init(U, f);
     gf3m_one(U);
     element_init(V, f);
     element_init(t2, f);
     unsigned d = 0, i, r_m, s_m, q, x;
     for (i = 0; i < p->m * 2; i++) {
-        p->len = lenS;
         r_m = gf3m_get(R, p->m), s_m = gf3m_get(S, p->m);
         if (r_m == 0) {
             gf3m_shift_up(R); /* R = xR */
-            p->len = lenA;
             gf3m_f2(U); /* U = xU mod p */
             d++;
         } else {
@@ -399,7 +398,6 @@ static void gf3m_invert(element_t e, element_t a) {
             gf3m_f1(t, q, R);
             gf3m_sub(S, S, t); /* S = S-qR */
             gf3m_shift_up(S); /* S = xS */
-            p->len = lenA;
             gf3m_f1(t2, q, U);
             gf3m_sub(V, V, t2); /* V = V-qU */
             if (d == 0) {
@@ -418,9 +416,7 @@ static void gf3m_invert(element_t e, element_t a) {
             }
         }
     }
-    p->len = lenS;
     r_m = gf3m_get(R, p->m); /* assume r_m is not zero */
-    p->len = lenA;
     if (r_m == 2)
         gf3m_neg(U, U);
     memcpy(e->data, U->data, lenA * 2 * sizeof(unsigned long));
@@ -472,7 +468,7 @@ int gf3m_from_bytes(element_ptr e, const unsigned char *d) {
         *a ^= three;
         *b ^= three;
     }
-    gf3m_reduct(e, LEN(e), LEN(e) * W - 1);
+    gf3m_reduct(e, LEN(e) * W - 1);
     return SIZE(e);
 }
 
-- 
2.43.0


From adb456ad5db2a65e42c844601c024e4133d5fb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:09 +0000
Subject: [PATCH 104/105] fix: choosing the method of one type D, E or G
 pairing changed every pairing of the type, and initializing them raced

---
 ecc/d_param.c | 20 ++++++++++----------
 ecc/e_param.c | 18 ++++++++----------
 ecc/g_param.c | 20 ++++++++++----------
 3 files changed, 28 insertions(+), 30 deletions(-)

diff --git a/ecc/d_param.c b/ecc/d_param.c
index bca78e8..aa6c513 100644
--- a/ecc/d_param.c
+++ b/ecc/d_param.c
@@ -48,6 +48,9 @@ typedef struct {
   int k;                      // The embedding degree, usually 6.
   // Let x be the element used to build Fqd from Fq, i.e. Fqd = Fq[x].
   element_t xpowq, xpowq2;    // x^q and x^{2q} in F_q^d.
+  // The Miller loop in use.
+  void (*miller_no_denom)(element_t res, mpz_t q, element_t P,
+      element_ptr Qx, element_ptr Qy);
 } *pptr;
 
 static void d_clear(void *data) {
@@ -421,16 +424,13 @@ static void cc_miller_no_denom_affine(element_t res, mpz_t q, element_t P,
   #undef do_line
 }
 
-static void (*cc_miller_no_denom_fn)(element_t res, mpz_t q, element_t P,
-    element_ptr Qx, element_ptr Qy);
-
 static void d_pairing_option_set(pairing_t pairing, char *key, char *value) {
-  UNUSED_VAR(pairing);
+  pptr p = pairing->data;
   if (!strcmp(key, "method")) {
     if (!strcmp(value, "miller")) {
-      cc_miller_no_denom_fn = cc_miller_no_denom_proj;
+      p->miller_no_denom = cc_miller_no_denom_proj;
     } else if (!strcmp(value, "miller-affine")) {
-      cc_miller_no_denom_fn = cc_miller_no_denom_affine;
+      p->miller_no_denom = cc_miller_no_denom_affine;
     }
   }
 }
@@ -580,7 +580,7 @@ static void cc_pairing(element_ptr out, element_ptr in1, element_ptr in2,
   element_mul(Qx, curve_x_coord(Qbase), p->nqrinv);
   // v^-3/2 = v^-2 * v^1/2
   element_mul(Qy, curve_y_coord(Qbase), p->nqrinv2);
-  cc_miller_no_denom_fn(out, pairing->r, in1, Qx, Qy);
+  p->miller_no_denom(out, pairing->r, in1, Qx, Qy);
   cc_tatepower(out, out, pairing);
   element_clear(Qx);
   element_clear(Qy);
@@ -763,9 +763,9 @@ static int cc_is_almost_coddh(element_ptr a, element_ptr b,
 
   // The Miller loop cannot cope with the identity.
   if (element_is0(a) || element_is0(d)) element_set1(t0);
-  else cc_miller_no_denom_fn(t0, pairing->r, a, dx, dy);
+  else p->miller_no_denom(t0, pairing->r, a, dx, dy);
   if (element_is0(b) || element_is0(c)) element_set1(t1);
-  else cc_miller_no_denom_fn(t1, pairing->r, b, cx, cy);
+  else p->miller_no_denom(t1, pairing->r, b, cx, cy);
   cc_tatepower(t0, t0, pairing);
   cc_tatepower(t1, t1, pairing);
   element_mul(t2, t0, t1);
@@ -1085,7 +1085,7 @@ static void d_init_pairing(pairing_ptr pairing, void *data) {
   pairing->finalpow = cc_finalpow;
 
   // By default use affine coordinates.
-  cc_miller_no_denom_fn = cc_miller_no_denom_affine;
+  p->miller_no_denom = cc_miller_no_denom_affine;
   pairing->option_set = d_pairing_option_set;
   pairing->pp_init = d_pairing_pp_init;
   pairing->pp_clear = d_pairing_pp_clear;
diff --git a/ecc/e_param.c b/ecc/e_param.c
index bc8d341..4679b66 100644
--- a/ecc/e_param.c
+++ b/ecc/e_param.c
@@ -33,6 +33,9 @@ struct e_pairing_data_s {
   int exp2, exp1;
   int sign1, sign0;
   element_t R;
+  // The Miller loop in use.
+  void (*miller)(element_t res, element_t P, element_ptr QR, element_ptr R,
+      struct e_pairing_data_s *p);
 };
 typedef struct e_pairing_data_s e_pairing_data_t[1];
 typedef struct e_pairing_data_s *e_pairing_data_ptr;
@@ -465,10 +468,6 @@ static void e_miller_affine(element_t res, element_t P,
   #undef do_line
 }
 
-static void (*e_miller_fn)(element_t res, element_t P,
-    element_ptr QR, element_ptr R,
-    e_pairing_data_ptr p);
-
 static void e_pairing(element_ptr out, element_ptr in1, element_ptr in2,
     pairing_t pairing) {
   e_pairing_data_ptr p = pairing->data;
@@ -476,7 +475,7 @@ static void e_pairing(element_ptr out, element_ptr in1, element_ptr in2,
   element_t QR;
   element_init(QR, p->Eq);
   element_add(QR, Q, p->R);
-  e_miller_fn(out, in1, QR, p->R, p);
+  p->miller(out, in1, QR, p->R, p);
   element_pow_mpz(out, out, pairing->phikonr);
   element_clear(QR);
 }
@@ -812,15 +811,14 @@ static void phi_identity(element_ptr out, element_ptr in, pairing_ptr pairing) {
 }
 
 static void e_pairing_option_set(pairing_t pairing, char *key, char *value) {
-  //TODO: this affects every type E pairing!
-  UNUSED_VAR(pairing);
+  e_pairing_data_ptr p = pairing->data;
   if (!strcmp(key, "method")) {
     if (!strcmp(value, "miller")) {
       pairing->map = e_pairing;
-      e_miller_fn = e_miller_proj;
+      p->miller = e_miller_proj;
     } else if (!strcmp(value, "miller-affine")) {
       pairing->map = e_pairing;
-      e_miller_fn = e_miller_affine;
+      p->miller = e_miller_affine;
     } else if (!strcmp(value, "shipsey-stange")) {
       pairing->map = e_pairing_ellnet;
     }
@@ -853,9 +851,9 @@ static void e_init_pairing(pairing_t pairing, void *data) {
   mpz_set(pairing->r, param->r);
   field_init_fp(pairing->Zr, pairing->r);
   pairing->map = e_pairing;
-  e_miller_fn = e_miller_proj;
 
   p = pairing->data = pbc_malloc(sizeof(e_pairing_data_t));
+  p->miller = e_miller_proj;
   p->exp2 = param->exp2;
   p->exp1 = param->exp1;
   p->sign1 = param->sign1;
diff --git a/ecc/g_param.c b/ecc/g_param.c
index b728369..e72e6b4 100644
--- a/ecc/g_param.c
+++ b/ecc/g_param.c
@@ -40,6 +40,9 @@ struct mnt_pairing_data_s {
   field_t Eq, Etwist;
   element_t nqrinv, nqrinv2;
   element_t xpowq, xpowq2, xpowq3, xpowq4;
+  // The Miller loop in use.
+  void (*miller_no_denom)(element_t res, mpz_t q, element_t P,
+      element_ptr Qx, element_ptr Qy);
 };
 typedef struct mnt_pairing_data_s mnt_pairing_data_t[1];
 typedef struct mnt_pairing_data_s *mnt_pairing_data_ptr;
@@ -539,9 +542,6 @@ static void tatepower10(element_ptr out, element_ptr in, pairing_t pairing) {
   #undef qpower
 }
 
-static void (*cc_miller_no_denom_fn)(element_t res, mpz_t q, element_t P,
-    element_ptr Qx, element_ptr Qy);
-
 static void cc_pairing(element_ptr out, element_ptr in1, element_ptr in2,
     pairing_t pairing) {
   element_ptr Qbase = in2;
@@ -555,7 +555,7 @@ static void cc_pairing(element_ptr out, element_ptr in1, element_ptr in2,
   element_mul(Qx, curve_x_coord(Qbase), p->nqrinv);
   //v^-3/2 = v^-2 * v^1/2
   element_mul(Qy, curve_y_coord(Qbase), p->nqrinv2);
-  cc_miller_no_denom_fn(out, pairing->r, in1, Qx, Qy);
+  p->miller_no_denom(out, pairing->r, in1, Qx, Qy);
   tatepower10(out, out, pairing);
   element_clear(Qx);
   element_clear(Qy);
@@ -588,9 +588,9 @@ static int cc_is_almost_coddh(element_ptr a, element_ptr b,
 
   // The Miller loop cannot cope with the identity.
   if (element_is0(a) || element_is0(d)) element_set1(t0);
-  else cc_miller_no_denom_fn(t0, pairing->r, a, dx, dy);
+  else p->miller_no_denom(t0, pairing->r, a, dx, dy);
   if (element_is0(b) || element_is0(c)) element_set1(t1);
-  else cc_miller_no_denom_fn(t1, pairing->r, b, cx, cy);
+  else p->miller_no_denom(t1, pairing->r, b, cx, cy);
   tatepower10(t0, t0, pairing);
   tatepower10(t1, t1, pairing);
   element_mul(t2, t0, t1);
@@ -1154,12 +1154,12 @@ static void g_pairing_clear(pairing_t pairing) {
 }
 
 static void g_pairing_option_set(pairing_t pairing, char *key, char *value) {
-  UNUSED_VAR(pairing);
+  mnt_pairing_data_ptr p = pairing->data;
   if (!strcmp(key, "method")) {
     if (!strcmp(value, "miller")) {
-      cc_miller_no_denom_fn = cc_miller_no_denom_proj;
+      p->miller_no_denom = cc_miller_no_denom_proj;
     } else if (!strcmp(value, "miller-affine")) {
-      cc_miller_no_denom_fn = cc_miller_no_denom_affine;
+      p->miller_no_denom = cc_miller_no_denom_affine;
     } else if (!strcmp(value, "shipsey-stange")) {
       pairing->map = g_pairing_ellnet;
     }
@@ -1348,7 +1348,7 @@ static void g_init_pairing(pairing_t pairing, void *data) {
   pairing_GT_init(pairing, p->Fqk);
   pairing->finalpow = g_finalpow;
 
-  cc_miller_no_denom_fn = cc_miller_no_denom_affine;
+  p->miller_no_denom = cc_miller_no_denom_affine;
   pairing->option_set = g_pairing_option_set;
   pairing->pp_init = g_pairing_pp_init;
   pairing->pp_clear = g_pairing_pp_clear;
-- 
2.43.0


From 2c1c01f14cbdd1d73a956b01cc3eaae56ac4593f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:54 +0000
Subject: [PATCH 105/105] fix: element_printf family did not report a failed
 write of an element

---
 misc/extend_printf.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/misc/extend_printf.c b/misc/extend_printf.c
index 439e469..5e52f92 100644
--- a/misc/extend_printf.c
+++ b/misc/extend_printf.c
@@ -116,7 +116,8 @@ static int format_cb(void *file, char *fstring, void *ptr) {
 }
 
 static int element_cb(void *file, element_ptr e) {
-  return (int)element_out_str(file, 0, e);
+  int status = (int)element_out_str(file, 0, e);
+  return ferror((FILE *) file) ? -1 : status;
 }
 
 int element_vfprintf(FILE *stream, const char *format, va_list ap) {
-- 
2.43.0

