// C15: block expansion is an order-preserving embedding with power-of-two blocks.
#include "typedefs.h"
#include "generic/coo.h"
#include "matrix/coo.3.h"
#include "expand.h"
#include "gen.h"
#include "guard.h"
namespace vp {

const char *mc_name = HNAME;
double mc_exec_limit = 10;
void mc_setup() {}
typedef std::vector<int64_t> Vec;
static const int PAD = 3;
template <class F> static bool watched(const char *what, F &&f) {
#ifdef MONITOR
  mcomp::monitor = true;
#endif
  guard::Outcome o = guard::run(f);
#ifdef MONITOR
  mcomp::monitor = false;
#endif
  mc::step();
  if (o != guard::RETURNED) mc::report("stopped", "%s stopped the program (%s)", what, guard::what);
  return o == guard::RETURNED;
}
static std::string list(Vec const &v) { std::string s; for (size_t i = 0; i < v.size() && i < 12; i++) s += (i ? "," : "") + std::to_string(v[i]); if (v.size() > 12) s += ",..."; return s; }

// every index of idx lies inside the sizes
static void check(Vec const &sizes, Vec const &idx) {
  Vec off{0}; for (auto s : sizes) off.push_back(off.back() + s);
  int64_t mx = *std::max_element(sizes.begin(), sizes.end()), want = 1;
  while (want < mx) want *= 2;
  auto blk = [&](int64_t i) { return (int64_t)(std::upper_bound(off.begin(), off.end(), i) - off.begin()) - 1; };
  std::vector<I_> s; for (auto x : sizes) s.push_back((I_)x);
  std::vector<I_> o; for (auto x : off) o.push_back((I_)x);
  const std::vector<I_> s0 = s, o0 = o;
  I_ nb = (I_)sizes.size(), got = 0;
  std::string d = list(sizes);
  if (!watched("the block size", [&] { got = expand_block_size(s.data(), nb); })) return;
  if ((int64_t)got != want) { mc::report("size", "blocks %s: expanded size %ld, expected %ld", d.c_str(), (long)got, (long)want); return; }
  Vec img;
  for (auto i : idx) { int64_t b = blk(i); img.push_back(b * want + (i - off[b])); }
  // one index at a time
  for (size_t k = 0; k < idx.size() && k < 40; k++) {
    I_ r = 0;
    if (!watched("one index", [&] { r = expand_index(o.data(), nb, got, (I_)idx[k]); })) return;
    if ((int64_t)r != img[k]) { mc::report("index", "blocks %s: index %ld becomes %ld, expected %ld", d.c_str(), (long)idx[k], (long)r, (long)img[k]); return; }
  }
  // the array form
  std::vector<I_> a(PAD, (I_)5); for (auto i : idx) a.push_back((I_)i); a.insert(a.end(), PAD, (I_)5);
  I_ ret = 0;
  if (!watched("the array form", [&] { ret = expand_indeces(a.data() + PAD, (I_)idx.size(), s.data(), nb); })) return;
  if ((int64_t)ret != want) mc::report("size", "blocks %s: the array form reports size %ld, expected %ld", d.c_str(), (long)ret, (long)want);
  for (size_t k = 0; k < a.size(); k++) {
    int64_t w = k < PAD || k >= PAD + idx.size() ? 5 : img[k - PAD];
    if ((int64_t)a[k] != w) { mc::report("array", "blocks %s: element %ld (index %ld) becomes %ld, expected %ld", d.c_str(), (long)k - PAD, k < PAD || k >= PAD + idx.size() ? -1L : (long)idx[k - PAD], (long)a[k], (long)w); return; }
  }
  // the matrix form, with the columns in the opposite order (as long as the index type can number the blocks)
  if ((__int128)nb * nb - 1 > (__int128)std::numeric_limits<I_>::max()) { mc::outcome(want); if (!mc::failed()) mc::validated(); return; }
  size_t n = idx.size();
  std::vector<Element<T_, I_>> e(n + 2 * PAD);
  memset((void *)e.data(), 0, e.size() * sizeof e[0]);
  for (size_t k = 0; k < n; k++) { e[PAD + k].row = (I_)idx[k]; e[PAD + k].col = (I_)idx[n - 1 - k]; e[PAD + k].val = mval(k % 1000 + 1); e[PAD + k].block = (I_)(blk(idx[k]) * (int64_t)sizes.size() + blk(idx[n - 1 - k])); }
  auto e0 = e;
  ret = 0;
  if (!watched("the matrix form", [&] { ret = expand_indeces(e.data() + PAD, (I_)n, s.data(), o.data(), nb); })) return;
  if ((int64_t)ret != want) mc::report("size", "blocks %s: the matrix form reports size %ld, expected %ld", d.c_str(), (long)ret, (long)want);
  for (size_t k = 0; k < e.size(); k++) {
    bool in = k >= PAD && k < PAD + n;
    int64_t r = in ? img[k - PAD] : 0, c = in ? img[n - 1 - (k - PAD)] : 0;
    if ((int64_t)e[k].row != r || (int64_t)e[k].col != c || e[k].val != e0[k].val || e[k].block != e0[k].block) {
      mc::report("matrix", "blocks %s: entry (%ld,%ld) becomes (%ld,%ld), expected (%ld,%ld)", d.c_str(), (long)e0[k].row, (long)e0[k].col, (long)e[k].row, (long)e[k].col, (long)r, (long)c);
      return;
    }
  }
  if (s != s0 || o != o0) mc::report("input", "the block sizes or offsets were changed");
  // no collisions, order kept (of the reference, which the library agreed with)
  mc::outcome(mc::mix(want, img.empty() ? 0 : img.back()));
  if (!mc::failed()) mc::validated();
}

// the expanded dimension does not fit in the index type: no result is right
static void refused(Vec const &sizes) {
  std::vector<I_> s(sizes.begin(), sizes.end()), o(1, 0), a{0, 1};
  for (auto x : s) o.push_back((I_)((uint64_t)o.back() + (uint64_t)x));
  I_ nb = (I_)s.size(), got = 0;
  std::vector<Element<T_, I_>> e(1);
  e[0].row = e[0].col = 0; e[0].val = mval(1); e[0].block = 0;
  std::string d = list(sizes);
  for (int form = 0; form < 3; form++) {
    guard::Outcome g = guard::run([&] { got = form == 0 ? expand_block_size(s.data(), nb) : form == 1 ? expand_indeces(a.data(), (I_)a.size(), s.data(), nb) : expand_indeces(e.data(), (I_)1, s.data(), o.data(), nb); });
    mc::step();
    if (g == guard::RETURNED) { mc::report("wrapped", "blocks %s, whose expanded dimension does not fit in the index type, become blocks of %ld (form %d)", d.c_str(), (long)got, form); return; }
  }
  mc::validated();
}

void mc_body() {
  mcomp::reset();
  Vec sizes, idx;
  bool fits = true;
#ifdef MONITOR
  mcomp::set_policy(mcomp::EXPLORE);
  mc::dev_bound = mc::thorough ? 6 : 3;
  static const int ns[] = {63, 64, 65, 129, 193};
  int n = mc::pick(ns), kind = mc::choose(3);
  mcomp::set_threads(mc::range(2, mc::thorough ? 4 : 3));
  mc::shard();
  sizes = kind == 0 ? Vec{n} : kind == 1 ? Vec{1, 3, 0, n - 4} : Vec{n / 2, 0, n - n / 2};
  for (int i = 0; i < n; i++) idx.push_back((i * 5) % n);
#else
  int fam = mc::choose(4);
  if (fam == 0) {                                  // every short list of small blocks, every index
    int nb = mc::range(1, mc::thorough ? 6 : 5);
    int64_t t = 0;
    for (int i = 0; i < nb; i++) { sizes.push_back(mc::range(0, mc::thorough && nb < 5 ? 9 : nb < 5 ? 5 : 3)); t += sizes.back(); if (i == 1) mc::shard(); }
    if (nb == 1) mc::shard();
    if (!t) mc::prune();
    for (int64_t i = 0; i < t; i++) idx.push_back(i);
  } else if (fam == 1) {                           // around every power of two
    int k = mc::range(0, mc::thorough ? 16 : 13), d = mc::range(-1, 1), where = mc::choose(4);
    int64_t b = (1ll << k) + d;
    if (b < 1) mc::prune();
    mc::shard();
    sizes = where == 0 ? Vec{b} : where == 1 ? Vec{b, 1, 0, 2} : where == 2 ? Vec{0, 3, b, b - 1} : Vec{1, b / 2, b};
    int64_t t = 0; for (auto x : sizes) t += x;
    for (int64_t i = 0; i < t; i++) idx.push_back(t - 1 - i);
  } else if (fam == 2) {                           // many blocks, empty ones in every place
    int nb = mc::pick(std::vector<int>{7, 63, 64, 65, 129, 1000, 65537, 70001}), pat = mc::choose(6);
    mc::shard();
    for (int i = 0; i < nb; i++) sizes.push_back(pat == 0 ? 1 : pat == 1 ? i % 2 : pat == 2 ? (i == nb - 1) * 3 : pat == 3 ? (i == 0) * 3 : pat == 4 ? i % 5 : (i % 7 == 3) * (nb > 1000 ? i % 100 + 1 : i + 1));
    int64_t t = 0; for (auto x : sizes) t += x;
    for (int64_t i = 0; i < t; i += i > 2000 && i < t - 2000 ? 17 : 1) idx.push_back(i);
  } else {                                         // up to the limits of the index type
    static const int64_t bs[] = {32767, 32768, 32769, 65535, 65536, 65537, 1 << 20, (1 << 30) - 1, 1 << 30, (1 << 30) + 1, (1ll << 31) - 1, 1ll << 31, (1ll << 31) + 1, 1ll << 32, (1ll << 40) + 3, 1ll << 62};
    int64_t b = mc::pick(bs);
    int nb = mc::range(1, 4), at = mc::choose(4);
    if (at >= nb) mc::prune();
    mc::shard();
    for (int i = 0; i < nb; i++) sizes.push_back(i == at ? b : mc::choose(3) == 0 ? 0 : 3);
    __int128 big = std::numeric_limits<I_>::max(), t = 0, want = 1;
    while (want < b) want *= 2;
    for (auto x : sizes) t += x;
    if (b > big || t > INT64_MAX) mc::prune();
    fits = want * nb <= big;
    int64_t at0 = 0;
    for (auto x : sizes) { for (int64_t q : {(int64_t)0, (int64_t)1, x / 2, x - 1}) if (q >= 0 && q < x) idx.push_back(at0 + q); at0 += x; }
  }
  static const Sched w[] = {{1, mcomp::FIRST}, {2, mcomp::FIRST}, {3, mcomp::ROUND_ROBIN}, {8, mcomp::EAGER}};
  use(fam == 0 ? w[mc::choose(2)] : mc::pick(w));
#endif
  MC_LOG("blocks %s, %zu indices", list(sizes).c_str(), idx.size());
  uint64_t h = idx.size();
  for (auto x : sizes) h = mc::mix(h, x);
  mc::state(h);
  if (fits) check(sizes, idx); else refused(sizes);
}
}
