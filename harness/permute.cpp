// C14: permutations are applied exactly and inversion undoes them, for every number of workers and every schedule.
#include "typedefs.h"
#include "generic/coo.h"
#include "matrix/coo.2.h"
#include "matrix/coo.3.h"
#include "permute.h"
#include "gen.h"
namespace vp {

const char *mc_name = HNAME;
double mc_exec_limit = 10;
void mc_setup() {}
typedef std::vector<int64_t> Vec;
static const int PAD = 3;
static const int64_t CAN = 77;
static std::vector<I_> padded(Vec const &v) { std::vector<I_> o(PAD, (I_)CAN); for (auto x : v) o.push_back((I_)x); o.insert(o.end(), PAD, (I_)CAN); return o; }
static bool eq(std::vector<I_> const &got, Vec const &want, const char *sig, const char *what) {
  for (int i = 0; i < PAD; i++) if (got[i] != (I_)CAN || got[got.size() - 1 - i] != (I_)CAN) { mc::report(sig, "%s: written outside the array", what); return false; }
  for (size_t i = 0; i < want.size(); i++) if ((int64_t)got[PAD + i] != want[i]) { mc::report(sig, "%s: element %zu of %zu is %ld, expected %ld", what, i, want.size(), (long)got[PAD + i], (long)want[i]); return false; }
  return true;
}
template <class F> static void watched(F &&f) {
#ifdef MONITOR
  mcomp::monitor = true;
#endif
  f();
#ifdef MONITOR
  mcomp::monitor = false;
#endif
  mc::step();
}
static Vec inverse(Vec const &p) { Vec q(p.size()); for (size_t i = 0; i < p.size(); i++) q[p[i]] = (int64_t)i; return q; }
static Vec through(Vec const &p, Vec v) { for (auto &x : v) x = p[x]; return v; }

template <class E> static E entry(int64_t r, int64_t c, int64_t k);
template <> Triplet<T_, I_> entry(int64_t r, int64_t c, int64_t k) { Triplet<T_, I_> e; memset((void *)&e, 0, sizeof e); e.row = (I_)r; e.col = (I_)c; e.val = mval(k + 1); return e; }
template <> Element<T_, I_> entry(int64_t r, int64_t c, int64_t k) { Element<T_, I_> e; memset((void *)&e, 0, sizeof e); e.row = (I_)r; e.col = (I_)c; e.val = mval(k + 1); e.block = (I_)(k * 3); return e; }
static int64_t block(Triplet<T_, I_> const &) { return 0; }
static int64_t block(Element<T_, I_> const &e) { return (int64_t)e.block; }

template <class E> static void matrix(Vec const &rows, Vec const &cols, Vec const &p, const char *what) {
  std::vector<E> a(rows.size() + 2 * PAD, entry<E>(0, 0, 99)), orig;
  for (size_t i = 0; i < rows.size(); i++) a[PAD + i] = entry<E>(rows[i], cols[i], (int64_t)i);
  orig = a;
  std::vector<I_> pp = padded(p), qq = padded(inverse(p));
  auto cmp = [&](bool image, const char *when) {
    for (size_t i = 0; i < a.size(); i++) {
      bool in = i >= PAD && i < PAD + rows.size();
      int64_t r = in ? (image ? p[rows[i - PAD]] : rows[i - PAD]) : 0, c = in ? (image ? p[cols[i - PAD]] : cols[i - PAD]) : 0;
      if ((int64_t)a[i].row != r || (int64_t)a[i].col != c || a[i].val != orig[i].val || block(a[i]) != block(orig[i])) {
        mc::report("matrix", "%s %s: entry %ld is (%ld,%ld) = %g, expected (%ld,%ld) = %g", what, when, (long)i - PAD, (long)a[i].row, (long)a[i].col, (double)a[i].val, (long)r, (long)c, (double)orig[i].val);
        return false;
      }
    }
    return true;
  };
  watched([&] { permute_indeces(a.data() + PAD, (I_)rows.size(), pp.data() + PAD); });
  if (!cmp(true, "permuted")) return;
  watched([&] { permute_indeces(a.data() + PAD, (I_)rows.size(), qq.data() + PAD); });
  if (!cmp(false, "permuted and permuted back")) return;
  eq(pp, p, "permutation", "the permutation");
}
static void check(Vec const &p, Vec const &idx, Vec const &idx2) {
  std::vector<I_> pp = padded(p);
  I_ *inv = nullptr;
  watched([&] { inv = invert_permutation((I_ const *)pp.data() + PAD, (I_)p.size()); });
  Vec want = inverse(p);
  for (size_t i = 0; i < p.size(); i++) if ((int64_t)inv[i] != want[i]) { mc::report("inverse", "element %zu of the inverse of %zu is %ld, expected %ld", i, p.size(), (long)inv[i], (long)want[i]); delete[] inv; return; }
  if (!eq(pp, p, "permutation", "the permutation")) return;
  // composition in both orders, by the library
  std::vector<I_> comp = padded(p);
  watched([&] { permute_indeces(comp.data() + PAD, inv, (I_)p.size()); });
  Vec id(p.size()); for (size_t i = 0; i < id.size(); i++) id[i] = (int64_t)i;
  if (!eq(comp, id, "identity", "inverse after permutation")) return;
  comp = padded(want);
  watched([&] { permute_indeces(comp.data() + PAD, pp.data() + PAD, (I_)p.size()); });
  if (!eq(comp, id, "identity", "permutation after inverse")) return;
  // an array of indices
  std::vector<I_> a = padded(idx);
  watched([&] { permute_indeces(a.data() + PAD, pp.data() + PAD, (I_)idx.size()); });
  if (!eq(a, through(p, idx), "array", "the permuted index array")) return;
  watched([&] { permute_indeces(a.data() + PAD, inv, (I_)idx.size()); });
  if (!eq(a, idx, "array", "the index array permuted and permuted back")) return;
  delete[] inv;
  matrix<Triplet<T_, I_>>(idx, idx2, p, "triplets");
  if (!mc::failed()) matrix<Element<T_, I_>>(idx, idx2, p, "elements");
  // which indices a permutation can be applied to
  if (!mc::failed() && !idx.empty()) {
    int64_t mx = *std::max_element(idx.begin(), idx.end());
    for (int64_t lim : {mx, mx + 1, mx + 2, (int64_t)0}) if (indeces_within(padded(idx).data() + PAD, idx.size(), (size_t)lim) != (mx < lim)) mc::report("within", "largest index %ld reported %s limit %ld", (long)mx, mx < lim ? "beyond" : "within", (long)lim);
  }
  if (!mc::failed()) mc::validated();
}
static Vec permutation(size_t n, int how) {
  Vec p(n);
  for (size_t i = 0; i < n; i++) p[i] = (int64_t)i;
  Lcg g{n * 31 + 7};
  switch (how) {
    case 0: break;
    case 1: std::reverse(p.begin(), p.end()); break;
    case 2: if (n) std::rotate(p.begin(), p.begin() + 1, p.end()); break;
    case 3: for (size_t i = n; i > 1; i--) std::swap(p[i - 1], p[g.next() % i]); break;
    case 4: for (size_t i = 0; i + 1 < n; i += 2) std::swap(p[i], p[i + 1]); break;
    case 5: if (n > 1) std::swap(p[0], p[n - 1]); break;
  }
  return p;
}

void mc_body() {
  mcomp::reset();
  Vec p, a, b;
#ifdef MONITOR
  mcomp::set_policy(mcomp::EXPLORE);
  mc::dev_bound = mc::thorough ? 6 : 3;
  static const int ns[] = {1, 63, 64, 65, 128, 129, 193, 257};
  int n = mc::pick(ns), how = mc::choose(6), team = mc::range(2, mc::thorough ? 4 : 3);
  int len = mc::pick(ns);
  mcomp::set_threads(team);
  mc::shard();
  p = permutation((size_t)n, how);
  for (int i = 0; i < len; i++) { a.push_back(i * 5 % n); b.push_back((i * 3 + 1) % n); }
  MC_LOG("permutation of %d, kind %d, %d indices, team %d", n, how, len, team);
  mc::state(mc::mix(mc::mix(n, how), mc::mix(team, len)));
#else
  int fam = mc::choose(3);
  if (fam == 2) {                             // every vector that is no permutation
    int n = mc::range(1, mc::thorough ? 6 : 4); bool large = !lite() && mc::flip();
    std::vector<int64_t> count((size_t)n + 1);
    for (int i = 0; i < n; i++) { p.push_back(mc::choose(n + 1)); count[(size_t)p.back()]++; }
    if (*std::max_element(count.begin(), count.end()) == 1 && !count[(size_t)n]) mc::prune();
    mc::shard();
    if (large) {                              // the same inside a long permutation
      Vec q = permutation(4097, 3), at{0, 63, 64, 2000, 4095, 4096}; Vec was; for (int i = 0; i < n; i++) was.push_back(q[(size_t)at[i]]);
      for (int i = 0; i < n; i++) q[(size_t)at[i]] = p[(size_t)i] == n ? 4097 : was[(size_t)p[(size_t)i]];
      p = q;
    } else for (auto &x : p) if (x == n && mc::flip()) x = (int64_t)std::numeric_limits<I_>::max();
    use(Sched{1 + (int)(p.size() % 3), mcomp::ROUND_ROBIN});
    uint64_t h = 77; for (auto x : p) h = mc::mix(h, x); mc::state(h);
    std::string l; for (size_t i = 0; i < p.size() && i < 10; i++) l += " " + std::to_string(p[i]);
    MC_LOG("no permutation:%s", l.c_str());
    std::vector<I_> pp = padded(p); I_ *inv = nullptr;
    watched([&] { inv = invert_permutation((I_ const *)pp.data() + PAD, (I_)p.size()); });
    if (inv) { mc::report("refuse", "the inverse of%s, which is no permutation, is not refused", l.c_str()); delete[] inv; }
    else if (eq(pp, p, "refuse", "the vector")) mc::validated();
    return;
  }
  if (fam == 0) {                             // every permutation of up to 5 (6) with every short index array
    int n = mc::range(1, lite() ? 4 : mc::thorough ? 6 : 5);
    Vec left; for (int i = 0; i < n; i++) left.push_back(i);
    while (!left.empty()) { int k = mc::choose((int)left.size()); p.push_back(left[k]); left.erase(left.begin() + k); }
    mc::shard();
    int len = mc::range(0, mc::thorough ? 4 : 3);
    for (int i = 0; i < len; i++) { a.push_back(mc::choose(n)); b.push_back((a.back() * 2 + i) % n); }
    Sched s{1, mcomp::FIRST}; if (mc::flip()) s = Sched{2, mcomp::LAST};
    use(s);
  } else {                                    // sizes around every multiple of the loop's chunks
    static const int ns[] = {1, 2, 3, 31, 32, 33, 63, 64, 65, 66, 127, 128, 129, 191, 192, 193, 255, 256, 257, 300, 511, 512, 513, 1000, 4097, 70000, 1100003};
    int n = ns[mc::choose(lite() ? 21 : 27)], how = mc::choose(6);
    mc::shard();
    int len = mc::choose(4); len = len == 0 ? n : len == 1 ? 0 : len == 2 ? n + 1 : 2 * n + 63;
    p = permutation((size_t)n, how);
    for (int i = 0; i < len; i++) { a.push_back((int64_t)i * 7 % n); b.push_back(((int64_t)i * 3 + 1) % n); }
    static const Sched w[] = {{1, mcomp::FIRST}, {2, mcomp::FIRST}, {3, mcomp::ROUND_ROBIN}, {4, mcomp::LAST}, {7, mcomp::ROUND_ROBIN}, {8, mcomp::EAGER}};
    Sched s = mc::pick(w);
    if (n > 100000 && (s.threads != 8 || len == n + 1)) mc::prune();
    use(s);
  }
  MC_LOG("permutation of %zu, %zu indices", p.size(), a.size());
  for (size_t i = 0; i < p.size() && i < 10; i++) MC_LOG("  %zu -> %ld", i, (long)p[i]);
  uint64_t h = mc::mix(p.size(), a.size());
  for (auto x : p) h = mc::mix(h, x);
  for (auto x : a) h = mc::mix(h, x);
  mc::state(h);
#endif
  check(p, a, b);
  mc::outcome(mc::mix(mcomp::chunks, mcomp::regions));
}
}
