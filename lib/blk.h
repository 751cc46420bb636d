// Block boundaries shared by the harnesses of the blocked formats.
#ifndef BLK_H
#define BLK_H
#include "gen.h"
namespace vp {

typedef std::vector<int64_t> Offs;          // 0 = o[0] <= ... <= o[nb] = n

inline std::string show(Offs const &o) { std::string s; for (auto v : o) s += (s.empty() ? "" : ",") + std::to_string(v); return s; }

// every non-decreasing list with at most n blocks (blocks may be empty)
inline Offs offs_any(int64_t n) {
  int nb = mc::range(1, (int)n);
  Offs o{0};
  for (int i = 1; i < nb; i++) o.push_back(mc::range((int)o.back(), (int)n));
  o.push_back(n);
  return o;
}
// every strictly increasing list
inline Offs offs_strict(int64_t n) {
  Offs o{0};
  for (int64_t i = 1; i < n; i++) if (mc::flip()) o.push_back(i);
  o.push_back(n);
  return o;
}
// what the constant-size constructors promise: blocks of the given size, the last one larger
inline Offs offs_const(int64_t n, int64_t size) {
  int64_t nb = std::max<int64_t>(1, n / size);
  Offs o;
  for (int64_t i = 0; i < nb; i++) o.push_back(i * size);
  o.push_back(n);
  return o;
}
enum { OF_ONE, OF_HEAD, OF_TAIL, OF_UNIT, OF_HALF, OF_EMPTIES, OF_UNEVEN, OF_C16, OF_C5, OF_NUM };
inline Offs offs_family(int64_t n, int k) {
  Offs o{0};
  switch (k) {
    case OF_ONE: break;
    case OF_HEAD: if (n > 1) o.push_back(1); break;
    case OF_TAIL: if (n > 1) o.push_back(n - 1); break;
    case OF_UNIT: if (n > 300) mc::prune(); for (int64_t i = 1; i < n; i++) o.push_back(i); break;
    case OF_HALF: if (n > 1) o.push_back(n / 2); break;
    case OF_EMPTIES: if (n < 6) mc::prune(); o = Offs{0, 0, n / 2, n / 2, n}; break;
    case OF_UNEVEN: for (int64_t i = 1, s = 2; i < n; i += s++) o.push_back(i); break;
    case OF_C16: return offs_const(n, 16);
    case OF_C5: return offs_const(n, 5);
  }
  o.push_back(n);
  return o;
}
inline I_ *give(Offs const &o) {            // the library takes ownership
  I_ *p = new I_[o.size()];
  for (size_t i = 0; i < o.size(); i++) p[i] = (I_)o[i];
  return p;
}
inline int block_of(Offs const &o, int64_t i) {   // the last block that starts at or before i (a later one of the same start would be empty or hold i itself)
  if (i < o.front() || i >= o.back()) return -1;
  return (int)(std::upper_bound(o.begin(), o.end(), i) - o.begin()) - 1;
}
inline int64_t max_block(Offs const &o) { int64_t m = 0; for (size_t i = 0; i + 1 < o.size(); i++) m = std::max(m, o[i + 1] - o[i]); return m; }
// largest index inside a block used by an entry
inline int64_t max_local(Mat const &m, Offs const &r, Offs const &c, bool rows, bool cols) {
  int64_t mx = 0;
  for (auto &e : m.e) {
    if (rows) mx = std::max(mx, e.r - r[block_of(r, e.r)]);
    if (cols) mx = std::max(mx, e.c - c[block_of(c, e.c)]);
  }
  return mx;
}
// number of blocks with at least one entry
inline int64_t true_blocks(Mat const &m, Offs const &r, Offs const &c) {
  std::set<std::pair<int, int>> s;
  for (auto &e : m.e) s.insert({block_of(r, e.r), block_of(c, e.c)});
  return (int64_t)s.size();
}
// counters of blocks, rows and entries beyond 16 bits: a matrix with its boundary lists
enum { BIG_ROWS, BIG_COLS, BIG_HALVES, BIG_SPARSE, BIG_NUM };
inline Mat big_blocks(int k, Offs &ro, Offs &co) {
  const int64_t n = 65539;
  Mat m; ro = co = Offs{0};
  auto add = [&](int64_t r, int64_t c) { m.e.push_back(Ent{r, c, gen_val(m.e.size())}); };
  switch (k) {
    case BIG_ROWS: m.rows = n; m.cols = 3; for (int64_t i = 1; i <= n; i++) ro.push_back(i); co.push_back(3); for (int64_t i = 0; i < n; i++) add(i, i % 3); add(n - 1, (n + 1) % 3); break;
    case BIG_COLS: m.rows = 3; m.cols = n; ro.push_back(3); for (int64_t i = 1; i <= n; i++) co.push_back(i); for (int64_t i = n; i-- > 0;) add(i % 3, i); add((n + 1) % 3, n - 1); break;
    case BIG_HALVES: m.rows = m.cols = 2 * n; ro = co = Offs{0, n, 2 * n}; for (int64_t i = 0; i < 2 * n; i++) add(i, i < n ? n - 1 - i : i); break;
    case BIG_NUM: {                // more than 2^20 entries
      m.rows = 3301; m.cols = 3300; ro = Offs{0, 1100, 1101, 3301}; co = Offs{0, 2000, 3300};
      Lcg g(11); for (int64_t i = 0; i < 1100003; i++) { int64_t r = g.below(m.rows); add(r, g.below(m.cols)); } break;
    }
    default: m.rows = m.cols = n; for (int64_t i = 1; i < n - 1; i += 2) ro.push_back(i); ro.push_back(n); co.push_back(n - 2); co.push_back(n); add(0, 0); add(n - 1, 0); add(0, n - 1); add(n - 1, n - 1); add(n - 3, n - 1); break;
  }
  snprintf(m.desc, sizeof m.desc, "big");
  return m;
}
}
#endif
