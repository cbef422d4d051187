// A random but legal history over one pairing with the default allocators.
// Run under ASan/UBSan/LSan and under valgrind, which also sees reads of
// uninitialised memory.  Results are printed so that an undefined value
// reaches a conditional or a system call.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "pbc.h"

static unsigned long st;
static unsigned rnd(unsigned n) { st = st * 6364136223846793005UL + 1442695040888963407UL; return (unsigned)(st >> 33) % n; }

int main(int argc, char **argv) {
  static char text[100000];
  FILE *fp = fopen(argv[1], "r");
  size_t n = fread(text, 1, sizeof(text) - 1, fp);
  text[n] = 0;
  fclose(fp);
  char fam = argv[2][0];
  st = strtoul(argv[3], 0, 10);
  int steps = atoi(argv[4]);
  pbc_random_set_deterministic((unsigned)st);
  pbc_set_msg_to_stderr(0);
  pairing_t pr;
  if (pairing_init_set_str(pr, text)) return 3;
  element_t e[12];
  int i;
  for (i = 0; i < 12; i++) switch (i / 3) {
    case 0: element_init_G1(e[i], pr); break;
    case 1: element_init_G2(e[i], pr); break;
    case 2: element_init_GT(e[i], pr); break;
    default: element_init_Zr(e[i], pr);
  }
  mpz_t z;
  mpz_init(z);
  unsigned char *buf = malloc(100000);
  for (i = 0; i < steps; i++) {
    int g = (int)rnd(4);
    element_ptr x = e[rnd(3)], y = e[3 + rnd(3)], w = e[6 + rnd(3)], v = e[9 + rnd(3)];
    element_ptr a = e[3 * g + rnd(3)], b = e[3 * g + rnd(3)], c = e[3 * g + rnd(3)];
    int enc = fam != 'I' || g == 3;
    pbc_mpz_randomb(z, 1 + rnd(80));
    switch (rnd(19)) {
      case 0: element_random(a); break;
      case 1: element_add(a, b, c); break;
      case 2: element_sub(a, b, c); break;
      case 3: element_mul(a, b, c); break;
      case 4: element_neg(a, b); break;
      case 5: element_square(a, b); break;
      case 6: if (g < 3 || !element_is0(b)) element_invert(a, b); break;
      case 7: element_pow_mpz(a, b, z); break;
      case 8: element_pow_zn(a, b, v); break;
      case 9: element_double(a, b); break;
      case 10: pairing_apply(w, x, y, pr); break;
      case 11: { pairing_pp_t pp; pairing_pp_init(pp, x, pr); pairing_pp_apply(w, y, pp); pairing_pp_clear(pp); break; }
      case 12: { element_pp_t pp; element_pp_init(pp, b); element_pp_pow(a, z, pp); element_pp_clear(pp); break; }
      case 13: if (enc) { int k = element_to_bytes(buf, b); fwrite(buf, 1, (size_t)k, stdout); element_from_bytes(a, buf); } break;
      case 14: if (enc && g != 2) { // a decoded zero is outside GT
        int k = element_length_in_bytes(a), j; for (j = 0; j < k; j++) buf[j] = (unsigned char)rnd(256); element_from_bytes(a, buf); } break;
      case 15: printf("%d %d %d\n", element_cmp(a, b), element_is0(c), element_is1(c)); break;
      case 16: element_out_str(stdout, 10, a); break;
      case 17: if (g < 2 && enc && !element_is0(b)) { int k = element_to_bytes_compressed(buf, b); fwrite(buf, 1, (size_t)k, stdout); element_from_bytes_compressed(a, buf); } break;
      case 18: { element_t t; element_init_same_as(t, a); element_set(t, a); element_clear(a); element_init_same_as(a, t); element_set(a, t); element_clear(t); break; }
    }
  }
  for (i = 0; i < 12; i++) { element_out_str(stdout, 10, e[i]); printf("\n"); }
  for (i = 0; i < 12; i++) element_clear(e[(i * 5) % 12]);
  pairing_clear(pr);
  mpz_clear(z);
  free(buf);
  printf("done\n");
  return 0;
}
