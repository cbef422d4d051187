// Random histories over the C++ wrapper, every object shadowed by plain C calls.
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <memory>
#include <random>
#include <set>
#include <sstream>
#include <stdexcept>
#include <type_traits>
#include <unistd.h>
#include <fcntl.h>
#include <utility>
#include <vector>
#include <pbc/pbcxx.h>
#include <pbc/pbc_test.h>
using namespace pbc;
using std::string;

static std::mt19937_64 R;
static unsigned rnd(unsigned n) { return R() % n; }
static long evals, ops;
static std::set<string> kinds;
static string cur;
static int fails;
static void fail(const string &k) {
  if (fails++ < 20) printf("FAIL %s | %s\n", k.c_str(), cur.c_str());
  fflush(stdout);
}
static void expect(bool c, const string &k) { evals++; if (!c) fail(k); }
static void op(const string &k) { cur = k; ops++; kinds.insert(k); }

static pairing_t CP;          // the same parameters through the C interface
static Pairing *PP;
static bool bytes_ok = true, hash_ok = true;
static string text;

template <class T> struct Kind;
template <> struct Kind<ZrElement> { static const char *n() { return "Zr"; } static void init(element_t e) { element_init_Zr(e, CP); } };
template <> struct Kind<G1Element> { static const char *n() { return "G1"; } static void init(element_t e) { element_init_G1(e, CP); } };
template <> struct Kind<G2Element> { static const char *n() { return "G2"; } static void init(element_t e) { element_init_G2(e, CP); } };
template <> struct Kind<GTElement> { static const char *n() { return "GT"; } static void init(element_t e) { element_init_GT(e, CP); } };

static string str(element_ptr e) {
  int n = element_snprint(NULL, 0, e);
  std::vector<char> b(n + 1);
  element_snprint(b.data(), n + 1, e);
  return string(b.data());
}

// what debug_print writes
template <class T> static string printed(const T &x, const char *label) {
  static int fd = -1;
  if (fd < 0) {
    char nm[] = "/tmp/cxxXXXXXX";
    fd = mkstemp(nm);
    unlink(nm);
  }
  fflush(stdout);
  int save = dup(1);
  lseek(fd, 0, SEEK_SET);
  if (ftruncate(fd, 0)) abort();
  dup2(fd, 1);
  x.debug_print(label);
  fflush(stdout);
  dup2(save, 1);
  close(save);
  string s(lseek(fd, 0, SEEK_END), 0);
  if (pread(fd, &s[0], s.size(), 0) != (ssize_t)s.size()) abort();
  return s;
}

struct Sh {                   // shadow value
  element_t e;
  template <class T> static std::shared_ptr<Sh> make() { auto s = std::make_shared<Sh>(); Kind<T>::init(s->e); return s; }
  ~Sh() { element_clear(e); }
};
typedef std::shared_ptr<Sh> SP;

template <class T> struct Pool {
  std::vector<std::unique_ptr<T>> w;
  std::vector<SP> s;
  void add(T *x, SP y) { w.emplace_back(x); s.push_back(y); }
  int pick() { return rnd(w.size()); }
  void drop(int i) { w.erase(w.begin() + i); s.erase(s.begin() + i); }
  bool same(const T &x, element_ptr y) {
    if (x.is0() != !!element_is0(y)) return false;
    if (!bytes_ok) return printed(x, "v") == "v " + str(y) + "\n";
    std::vector<unsigned char> v(element_length_in_bytes(y));
    element_to_bytes(v.data(), y);
    return x.to_bytes() == string((char *)v.data(), v.size());
  }
  void check(const string &k) {
    for (size_t i = 0; i < w.size(); i++) {
      evals++;
      if (!same(*w[i], s[i]->e)) fail(k + ": value of a " + Kind<T>::n() + " object differs from the C calls");
    }
  }
};
static Pool<ZrElement> Z;
static Pool<G1Element> A;
static Pool<G2Element> B;
static Pool<GTElement> T;
static void check_all() { Z.check(cur); A.check(cur); B.check(cur); T.check(cur); }

template <class T> static SP dup(const SP &a) { SP r = Sh::make<T>(); element_set(r->e, a->e); return r; }
template <class T> static T ret(T x) { return x; }
template <class T> static T ret2(const T &x, const T &y, bool f) { T a(x), b(y); if (f) return a; return b; }
template <class T> static void byvalue(T x) { x.set0(); x += x; }
template <class T> static void thrower(T x, const T &y) { T t(x); t += y; throw std::runtime_error("x"); }

template <class T> static void seed_random(Pool<T> &p, int i) {
  unsigned s = R();
  pbc_random_set_deterministic(s);
  T &r = p.w[i]->set_random();
  expect(&r == p.w[i].get(), "set_random returns the object");
  pbc_random_set_deterministic(s);
  element_random(p.s[i]->e);
}

static bool zero(element_ptr e) { return element_is0(e) && !element_is1(e); }

template <class T> static void step(Pool<T> &p) {
  string k = Kind<T>::n();
  if (p.w.size() > 7) { op(k + " destroy"); p.drop(p.pick()); return; }
  if (p.w.empty()) {
    op(k + " construct");
    SP s = Sh::make<T>();
    p.add(new T(*PP), s);
    p.w.back()->set0(); element_set0(s->e);
    return;
  }
  int i = p.pick(), j = p.pick(), l = p.pick();
  T &x = *p.w[i], &y = *p.w[j], &z = *p.w[l];
  const T &cx = x, &cy = y;
  element_ptr a = p.s[i]->e, b = p.s[j]->e;
  string al = i == j ? " (same object)" : "";
  switch (rnd(40)) {
    case 0: { op(k + " construct"); SP s = Sh::make<T>(); p.add(new T(*PP), s); p.w.back()->set1(); element_set1(s->e); break; }
    case 1: case 2: { op(k + " copy construct"); p.add(new T(x), dup<T>(p.s[i])); break; }
    case 3: case 4: { op(k + " assign" + al); T &r = (x = y); expect((void *)&r == (void *)&x, "assignment returns the object"); if (i != j) element_set(a, b); break; }
    case 5: { op(k + " chained assign"); x = y = z; element_set(b, p.s[l]->e); element_set(a, b); break; }
    case 6: { op(k + " self assign"); T &r = x; x = r; break; }
    case 7: case 8: { op(k + " +" + al); SP s = Sh::make<T>(); element_add(s->e, a, b); p.add(new T(cx + cy), s); break; }
    case 9: { op(k + " -" + al); SP s = Sh::make<T>(); element_sub(s->e, a, b); p.add(new T(cx - cy), s); break; }
    case 10: case 11: { op(k + " *" + al); SP s = Sh::make<T>(); element_mul(s->e, a, b); p.add(new T(cx * cy), s); break; }
    case 12: { if (zero(b)) break; op(k + " /" + al); SP s = Sh::make<T>(); element_div(s->e, a, b); p.add(new T(cx / cy), s); break; }
    case 13: { op(k + " +=" + al); SP c = dup<T>(p.s[j]); T &r = (x += y); expect(&r == &x, "+= returns the object"); element_add(a, a, c->e); break; }
    case 14: { op(k + " -=" + al); SP c = dup<T>(p.s[j]); T &r = (x -= y); expect(&r == &x, "-= returns the object"); element_sub(a, a, c->e); break; }
    case 15: { op(k + " *=" + al); SP c = dup<T>(p.s[j]); T &r = (x *= y); expect(&r == &x, "*= returns the object"); element_mul(a, a, c->e); break; }
    case 16: { if (zero(b)) break; op(k + " /=" + al); SP c = dup<T>(p.s[j]); T &r = (x /= y); expect(&r == &x, "/= returns the object"); element_div(a, a, c->e); break; }
    case 17: { op(k + " twice"); SP s = Sh::make<T>(); element_double(s->e, a); p.add(new T(x.twice()), s); break; }
    case 18: { op(k + " twice_inplace"); T &r = x.twice_inplace(); expect(&r == &x, "twice_inplace returns the object"); element_double(a, a); break; }
    case 19: { op(k + " square"); SP s = Sh::make<T>(); element_square(s->e, a); p.add(new T(x.square()), s); break; }
    case 20: { op(k + " square_inplace"); T &r = x.square_inplace(); expect(&r == &x, "square_inplace returns the object"); element_square(a, a); break; }
    case 21: { op(k + " neg"); SP s = Sh::make<T>(); element_neg(s->e, a); p.add(new T(x.neg()), s); break; }
    case 22: { op(k + " neg_inplace"); T &r = x.neg_inplace(); expect(&r == &x, "neg_inplace returns the object"); element_neg(a, a); break; }
    case 23: { if (zero(a)) break; op(k + " invert"); SP s = Sh::make<T>(); element_invert(s->e, a); p.add(new T(x.invert()), s); break; }
    case 24: { if (zero(a)) break; op(k + " invert_inplace"); T &r = x.invert_inplace(); expect(&r == &x, "invert_inplace returns the object"); element_invert(a, a); break; }
    case 25: { op(k + " set0/set1"); if (rnd(2)) { T &r = x.set0(); expect(&r == &x, "set0 returns the object"); element_set0(a); } else { T &r = x.set1(); expect(&r == &x, "set1 returns the object"); element_set1(a); } break; }
    case 26: case 27: op(k + " set_random"); seed_random(p, i); break;
    case 28: {
      if (!hash_ok) break;
      op(k + " from_hash");
      string d;
      for (unsigned n = rnd(60); n; n--) d += (char)rnd(256);
      T &r = x.from_hash(d);
      expect(&r == &x, "from_hash returns the object");
      element_from_hash(a, (void *)d.data(), d.size());
      break;
    }
    case 29: {
      op(k + " compare" + al);
      bool e = !element_cmp(a, b);
      expect((cx == cy) == e, "== agrees");
      expect((cx != cy) == !e, "!= agrees");
      expect((cx.compare(cy) == 0) == e, "compare agrees");
      expect(cx.is0() == !!element_is0(a), "is0 agrees");
      expect(cx.is1() == !!element_is1(a), "is1 agrees");
      T c(x);
      expect(c == x && !(c != x), "a copy equals its original");
      break;
    }
    case 30: {
      if (!bytes_ok) break;
      op(k + " bytes");
      string s = cx.to_bytes();
      std::vector<unsigned char> v(element_length_in_bytes(a));
      element_to_bytes(v.data(), a);
      expect(s == string((char *)v.data(), v.size()), "to_bytes gives the C bytes");
      T &r = y.from_bytes(s);
      expect(&r == &y, "from_bytes returns the object");
      element_from_bytes(b, v.data());
      break;
    }
    case 31: {
      if (!bytes_ok) break;
      op(k + " short bytes");
      string s = x.to_bytes();
      std::unique_ptr<string> q(new string(s.substr(0, rnd(s.size()))));
      bool thrown = false;
      try { y.from_bytes(*q); } catch (const std::invalid_argument &) { thrown = true; }
      expect(thrown, "too few bytes are refused with invalid_argument");
      break;      // and y is unchanged: checked below
    }
    case 32: { op(k + " pass by value"); byvalue(x); byvalue(T(y)); break; }
    case 33: { op(k + " return by value"); bool f = rnd(2); p.add(new T(ret(ret2(x, y, f))), dup<T>(f ? p.s[i] : p.s[j])); break; }
    case 34: { op(k + " exception"); try { thrower(x, y); } catch (const std::runtime_error &) {} break; }
    case 35: {
      op(k + " vector");
      std::vector<T> v(1 + rnd(4), x);
      for (unsigned n = rnd(5); n; n--) v.push_back(y);
      v.insert(v.begin() + rnd(v.size()), y);
      v.erase(v.begin() + rnd(v.size()));
      if (v.size() > 2) std::reverse(v.begin(), v.end());
      std::vector<T> u(v);
      v[0].set0(); v[0] += y;
      u = v;
      u.resize(1, y);
      SP s = Sh::make<T>(); element_set0(s->e); element_add(s->e, s->e, b);
      p.add(new T(u[0]), s);
      break;
    }
    case 36: { op(k + " swap" + al); std::swap(x, y); if (i != j) std::swap(p.s[i], p.s[j]); break; }
    case 37: { op(k + " move"); T m(std::move(x)); x = m; T n(*PP); n = std::move(m); p.add(new T(n), dup<T>(p.s[i])); break; }
    case 38: { op(k + " chain"); SP c = dup<T>(p.s[j]); (x += y).neg_inplace().twice_inplace(); element_add(a, a, c->e); element_neg(a, a); element_double(a, a); break; }
    case 39: { op(k + " expression"); SP s = Sh::make<T>(), t = Sh::make<T>(); T e = (x + y) * (x - y) + z; element_add(s->e, a, b); element_sub(t->e, a, b); element_mul(s->e, s->e, t->e); element_add(s->e, s->e, p.s[l]->e); p.add(new T(e), s); break; }
  }
}

template <class G> static void gstep(Pool<G> &p) {
  if (p.w.empty() || Z.w.empty() || p.w.size() > 7) return;
  string k = Kind<G>::n();
  int i = p.pick(), j = Z.pick(), l = p.pick();
  G &g = *p.w[i], &h = *p.w[l];
  const G &cg = g;
  const ZrElement &z = *Z.w[j];
  element_ptr a = p.s[i]->e, e = Z.s[j]->e;
  SP s = Sh::make<G>();
  switch (rnd(8)) {
    case 0: op(k + " pow_zn"); element_pow_zn(s->e, a, e); p.add(new G(cg.pow_zn(z)), s); break;
    case 1: { op(k + " pow_zn_inplace"); G &r = g.pow_zn_inplace(z); expect(&r == &g, "pow_zn_inplace returns the object"); element_pow_zn(a, a, e); break; }
    case 2: { op(k + " *= Zr"); G &r = (g *= z); expect(&r == &g, "*= returns the object"); element_mul_zn(a, a, e); break; }
    case 3: op(k + " * Zr"); element_mul_zn(s->e, a, e); p.add(new G(cg * z), s); break;
    case 4: op(k + " Zr *"); element_mul_zn(s->e, a, e); p.add(new G(z * cg), s); break;
    case 5: { op(k + " expression with Zr"); G r = g * z + h * z - g.pow_zn(z); SP t = Sh::make<G>(); element_mul_zn(s->e, a, e); element_mul_zn(t->e, p.s[l]->e, e); element_add(s->e, s->e, t->e); element_pow_zn(t->e, a, e); element_sub(s->e, s->e, t->e); p.add(new G(r), s); break; }
    case 6: { op(k + " chain with Zr"); SP c = dup<G>(p.s[l]); (g *= z) *= h; element_mul_zn(a, a, e); if (i == l) element_mul(a, a, a); else element_mul(a, a, c->e); break; }
    case 7: { op(k + " * then Zr"); G r(g * h * z); element_mul(s->e, a, p.s[l]->e); element_mul_zn(s->e, s->e, e); p.add(new G(r), s); break; }
  }
}

static void zstep() {
  if (Z.w.empty()) return;
  int i = Z.pick();
  if (rnd(2)) {
    long v = rnd(3) ? (long)rnd(2000) - 1000 : (long)R();
    op("Zr set_si");
    ZrElement &r = Z.w[i]->set_si(v);
    expect(&r == Z.w[i].get(), "set_si returns the object");
    element_set_si(Z.s[i]->e, v);
  } else {
    op("Zr set_mpz");
    mpz_t z;
    mpz_init(z);
    for (int n = rnd(6); n >= 0; n--) { mpz_mul_2exp(z, z, 64); mpz_add_ui(z, z, R()); }
    if (rnd(2)) mpz_neg(z, z);
    ZrElement &r = Z.w[i]->set_mpz(z);
    expect(&r == Z.w[i].get(), "set_mpz returns the object");
    element_set_mpz(Z.s[i]->e, z);
    mpz_clear(z);
  }
}

static void pstep() {
  if (A.w.empty() || B.w.empty() || T.w.size() > 7) return;
  int i = A.pick(), j = B.pick(), i2 = A.pick(), j2 = B.pick();
  SP s = Sh::make<GTElement>();
  const Pairing &P = *PP;
  bool sym = pairing_is_symmetric(CP);
  expect(P.is_symmetric() == sym, "is_symmetric agrees");
  switch (rnd(6)) {
    case 0: op("pairing ()"); element_pairing(s->e, A.s[i]->e, B.s[j]->e); T.add(new GTElement(P(*A.w[i], *B.w[j])), s); break;
    case 1: { op("pairing apply"); GTElement *g = new GTElement(P); P.apply(*g, *A.w[i], *B.w[j]); element_pairing(s->e, A.s[i]->e, B.s[j]->e); T.add(g, s); break; }
    case 2: case 3: {
      bool ap = rnd(2), thrown = false;
      op(string("pairing of two G1 elements") + (sym ? "" : " (asymmetric)"));
      std::unique_ptr<GTElement> g(new GTElement(P));
      g->set1();
      element_set1(s->e);
      try { if (ap) P.apply(*g, *A.w[i], *A.w[i2]); else *g = P(*A.w[i], *A.w[i2]); } catch (const std::invalid_argument &) { thrown = true; }
      expect(thrown == !sym, "pairing two elements of one group needs a symmetric pairing");
      if (sym) pairing_apply(s->e, A.s[i]->e, A.s[i2]->e, CP);
      if (thrown == !sym) T.add(g.release(), s);
      break;
    }
    default: {
      bool ap = rnd(2), thrown = false;
      op(string("pairing of two G2 elements") + (sym ? "" : " (asymmetric)"));
      std::unique_ptr<GTElement> g(new GTElement(P));
      g->set1();
      element_set1(s->e);
      try { if (ap) P.apply(*g, *B.w[j], *B.w[j2]); else *g = P(*B.w[j], *B.w[j2]); } catch (const std::invalid_argument &) { thrown = true; }
      expect(thrown == !sym, "pairing two elements of one group needs a symmetric pairing");
      if (sym) pairing_apply(s->e, B.s[j]->e, B.s[j2]->e, CP);
      if (thrown == !sym) T.add(g.release(), s);
    }
  }
}

template <class P> static typename std::enable_if<std::is_copy_constructible<P>::value>::type copy_pairing() {
  op("copy a pairing");
  P *q = new P(*PP);
  delete q;
}
template <class P> static typename std::enable_if<!std::is_copy_constructible<P>::value>::type copy_pairing() { op("pairings are not copyable"); }
template <class P> static typename std::enable_if<std::is_copy_assignable<P>::value>::type assign_pairing() {
  op("assign a pairing");
  P *q = new P(text);
  *q = *PP;
  delete q;
}
template <class P> static typename std::enable_if<!std::is_copy_assignable<P>::value>::type assign_pairing() { op("pairings are not assignable"); }

static void bad_parameters() {
  for (string t : {string(""), string("type a\n"), string("nonsense"), string("type q\nq 5\n"), text.substr(0, text.size() / 3), string("\0\0type a", 8)}) {
    op("bad parameters");
    bool thrown = false;
    try { Pairing p(t); } catch (const std::exception &) { thrown = true; }
    expect(thrown, "bad parameters are refused with an exception");
  }
}

static void printing() {
  op("debug_print");
  for (size_t i = 0; i < A.w.size(); i++) expect(printed(*A.w[i], "a label") == "a label " + str(A.s[i]->e) + "\n", "debug_print prints prefix and value");
  for (size_t i = 0; i < Z.w.size(); i++) expect(printed(*Z.w[i], "") == " " + str(Z.s[i]->e) + "\n", "debug_print prints prefix and value");
  for (size_t i = 0; i < T.w.size(); i++) expect(printed(*T.w[i], "%s %B") == "%s %B " + str(T.s[i]->e) + "\n", "debug_print prints prefix and value");
}

int main(int argc, char **argv) {
  std::ifstream f(argv[1]);
  std::stringstream ss;
  ss << f.rdbuf();
  text = ss.str();
  R.seed(strtoull(argv[2], NULL, 10));
  int n = atoi(argv[3]);
  bytes_ok = hash_ok = text.find("type i") == string::npos;
  pbc_random_set_deterministic(12345);
  if (pairing_init_set_buf(CP, text.c_str(), text.size())) { puts("HARNESS bad parameters"); return 3; }
  for (int round = 0; round < 2; round++) {
    // the C structures use generators chosen at random on first use: make both choices alike
    pbc_random_set_deterministic(12345);
    PP = new Pairing(text);
    for (int k = 0; k < n; k++) {
      switch (rnd(12)) {
        case 0: case 1: case 2: step(Z); break;
        case 3: case 4: step(A); break;
        case 5: case 6: step(B); break;
        case 7: step(T); break;
        case 8: rnd(3) ? gstep(A) : gstep(T); break;
        case 9: gstep(B); break;
        case 10: pstep(); break;
        case 11: zstep(); break;
      }
      check_all();
      if (fails > 10) break;
    }
    printing();
    if (!round) { copy_pairing<Pairing>(); assign_pairing<Pairing>(); bad_parameters(); check_all(); }
    // destruction in any order
    while (Z.w.size() + A.w.size() + B.w.size() + T.w.size()) {
      switch (rnd(4)) {
        case 0: if (Z.w.size()) Z.drop(Z.pick()); break;
        case 1: if (A.w.size()) A.drop(A.pick()); break;
        case 2: if (B.w.size()) B.drop(B.pick()); break;
        case 3: if (T.w.size()) T.drop(T.pick()); break;
      }
    }
    delete PP;
  }
  pairing_clear(CP);
  for (auto &k : kinds) printf("KIND %s\n", k.c_str());
  printf("DONE %ld %ld\n", evals, ops);
  return 0;
}
