// C19: comparison of results and statistics on timing samples.
#include "typedefs.h"
#include "common.h"
#include "test/utils.h"
#include "test/bench.h"
#include "gen.h"
#include "capture.h"
#include "guard.h"
#include "clock.h"
namespace vp {

const char *mc_name = HNAME;
double mc_exec_limit = 10;
void mc_setup() {}

static bool close_to(double got, double want, double rel, double abs_) {
  if (std::isinf(want) || std::isinf(got)) return got == want;
  return std::fabs(got - want) <= abs_ + rel * std::fabs(want);
}
static bool number_after(std::string const &t, const char *label, double &v) {
  size_t at = t.find(label);
  if (at == std::string::npos) return false;
  const char *p = t.c_str() + at + strlen(label); while (*p == ' ' || *p == ':' || *p == '\t') p++;
  char *e; v = strtod(p, &e);
  return e != p;
}
template <class T, class IT> static void compare_one(std::vector<T> const &a, std::vector<T> const &b) {
  size_t n = a.size(), wrong = 0; T mx = 0; bool nan = false, both = false; double sq = 0;
  for (size_t i = 0; i < n; i++) {
    bool na = a[i] != a[i], nb = b[i] != b[i];
    if (na || nb) { nan = true; if (na && nb) both = true; if (na != nb) wrong++; continue; }
    if (a[i] != b[i]) { wrong++; T d = a[i] - b[i]; if (d < 0) d = -d; if (d > mx) mx = d; sq += (double)d * (double)d; }
  }
  std::vector<T> x(a), y(b); int r; std::string out;
  { Capture c; r = check_results(x.data(), y.data(), (IT)n); out = c.stop(); }
  mc::step();
  mc::outcome(mc::mix(wrong, r));
  auto bad = [&](const char *why) { std::string s; for (size_t i = 0; i < n && i < 8; i++) { char q[64]; snprintf(q, sizeof q, " %g/%g", (double)a[i], (double)b[i]); s += q; } mc::report("compare", "%zu elements%s: %s (%zu differ): %.200s", n, s.c_str(), why, wrong, out.c_str()); };
  if (both && wrong == 0) return;                       // not a number on both sides: left open
  if ((r == 0) != (wrong == 0)) { bad(wrong ? "different vectors are reported as equal" : "equal vectors are reported as different"); return; }
  for (size_t i = 0; i < n; i++) if (memcmp(&x[i], &a[i], sizeof(T)) || memcmp(&y[i], &b[i], sizeof(T))) { bad("the vectors were changed"); return; }
  if (wrong == 0) { if (out.find("differ in") != std::string::npos) bad("equal vectors are reported as different"); return; }
  double v;
  if (!number_after(out, "differ in", v) || (!both && v != (double)wrong)) { bad("the number of differing elements is wrong"); return; }
  if (nan) return;
  if (!number_after(out, "Maximum error", v) || !close_to(v, (double)mx, 1e-5, 0)) { bad("the largest difference is wrong"); return; }
  double mse = sq / (double)n;
  if (mse < 1e30 && mse > 1e-30 && (!number_after(out, "\tMSE", v) || !close_to(v, mse, 2e-3, 0))) bad("the mean squared error is wrong");
}
template <class T, class IT> static void compare() {
  static const double al[] = {0.0, 1.0, -1.0, -0.0, 1e30, -2.5, 1e-38, INFINITY, -INFINITY, NAN, 3e38, 1.0 + 1e-7};
  int fam = mc::choose(2);
  std::vector<T> a, b;
  if (fam == 0) {
    int n = mc::range(1, mc::thorough ? 3 : 2), k = n == 1 ? 12 : n == 2 ? (lite() ? 6 : 12) : 7;
    for (int i = 0; i < n; i++) a.push_back((T)al[mc::choose(k)]);
    mc::shard();
    for (int i = 0; i < n; i++) b.push_back((T)al[mc::choose(k)]);
  } else {
    static const int q[] = {1, 3, 7, 8, 16, 100, 1000, 70000};
    int n = mc::pick(q);
    int kind = mc::choose(8);       // where they differ
    mc::shard();
    for (int i = 0; i < n; i++) { a.push_back((T)((i * 37) % 101 - 50)); b.push_back(a.back()); }
    auto d = [&](int i, double x) { if (i >= 0 && i < n) b[i] += (T)x; };
    switch (kind) { case 0: break; case 1: d(0, 1); break; case 2: d(n - 1, -3); break; case 3: d(n / 2, 0.5); break; case 4: for (int i = 0; i < n; i++) d(i, i % 2 ? 2 : -2); break;
      case 5: d(0, -7); d(n - 1, 5); break; case 6: for (int i = 0; i < n; i += 3) d(i, i + 1); break; case 7: d(0, 1); if (n > 1) d(1, -1); break; }
  }
  MC_LOG("comparing %zu elements", a.size());
  uint64_t h = mc::mix(sizeof(T), sizeof(IT)); h = mc::mix(h, mc::hash_bytes(a.data(), a.size() * sizeof(T))); h = mc::mix(h, mc::hash_bytes(b.data(), b.size() * sizeof(T)));
  mc::state(h);
  compare_one<T, IT>(a, b);
  if (!mc::failed()) mc::validated();
}
static std::vector<double> samples(int maxlen) {
  static const double al[] = {1.0, 0.25, 3.5, 0.001, 1e-5, 20000.0};
  std::vector<double> t;
  if (mc::choose(2) == 0) {
    int n = mc::range(1, maxlen), k = n <= 3 ? 6 : n == 4 ? 4 : 3;
    for (int i = 0; i < n; i++) { t.push_back(al[mc::choose(k)]); if (i == 2) mc::shard(); }
    if (n < 3) mc::shard();
  } else {
    static const int q[] = {2, 5, 8, 9, 10, 15, 16, 17, 31, 32, 100, 101, 999, 1000};
    int n = mc::pick(q), order = mc::choose(5);
    mc::shard();
    for (int i = 0; i < n; i++) t.push_back(0.01 + (double)i * 0.125 + (i % 7 == 0 ? 0.3 : 0));
    if (order == 1) std::reverse(t.begin(), t.end());
    if (order == 2) std::rotate(t.begin(), t.begin() + n / 3, t.end());
    if (order == 3) { Lcg g(n); for (int i = n - 1; i > 0; i--) std::swap(t[i], t[g.next() % (i + 1)]); }
    if (order == 4) for (int i = 0; i < n; i++) t[i] = t[i % 3];
  }
  return t;
}
struct Truth { double best, worst, mean, lo, hi, median, sd; };
static Truth truth(std::vector<double> t) {
  std::sort(t.begin(), t.end());
  size_t n = t.size(); long double s = 0, q = 0; for (double d : t) s += d; s /= n; for (double d : t) q += ((long double)d - s) * ((long double)d - s);
  Truth r{t[0], t[n - 1], (double)s, t[(n - 1) / 2], t[n / 2], 0, std::sqrt((double)(q / n))};
  r.median = n % 2 ? r.hi : (r.lo + r.hi) / 2;
  return r;
}
static void statistics() {
  auto t = samples(mc::thorough ? 6 : 5); Truth w = truth(t);
  MC_LOG("statistics on %zu samples", t.size());
  mc::state(mc::mix(3, mc::hash_bytes(t.data(), t.size() * 8)));
  auto all = [&](auto zero, auto nz, const char *ty, double rel) {
    typedef decltype(zero) V; typedef decltype(nz) N;
    std::vector<V> v(t.begin(), t.end()), before(v);
    double m = (double)mean(v.data(), (N)v.size());
    if (!close_to(m, w.mean, rel, 0)) mc::report("mean", "%s: mean of %zu samples is %g, expected %g", ty, t.size(), m, w.mean);
    if (v != before) mc::report("mean", "%s: mean changed its samples", ty);
    double sd = (double)standard_deviation(v.data(), (N)v.size());
    if (!close_to(sd, w.sd, rel * 100, rel * w.worst)) mc::report("deviation", "%s: standard deviation of %zu samples is %g, expected %g", ty, t.size(), sd, w.sd);
    if (v != before) mc::report("deviation", "%s: standard_deviation changed its samples", ty);
    double md = (double)median(v.data(), (N)v.size());
    if (!close_to(md, w.median, rel, 0)) mc::report("median", "%s: median of %zu samples is %g, expected %g", ty, t.size(), md, w.median);
    std::sort(v.begin(), v.end()); std::sort(before.begin(), before.end());
    if (v != before) mc::report("median", "%s: median changed the values of its samples", ty);
    mc::step(3);
  };
  all(double(), int(), "double", 1e-9); all(double(), (unsigned long)0, "double", 1e-9); all(float(), (uint32_t)0, "float", 1e-5 + 1.2e-7 * (double)t.size());
  if (!mc::failed()) mc::validated();
}
static const char *methods[] = {"CSR", "CSBR (uint16_t)", "100%", "a_very_long_method_name_that_goes_on_and_on_and_on_and_on_and_on_and_on_and_on_and_on_and_on_and_on_and_on_and_on_and_on", "x"};
static const unsigned long nnzq[] = {1, 12345, 10000000019ul, 0};
static bool line(std::string const &out, size_t &at, const char *what, const char *method, const char *mode, double lo, double hi, double abs_) {
  size_t nl = out.find('\n', at); if (nl == std::string::npos) { mc::report("line", "a line is missing"); return false; }
  std::string l = out.substr(at, nl - at); at = nl + 1;
  if (l.compare(0, strlen(what), what) != 0 || (method && l.find(method) == std::string::npos) || l.find(mode) == std::string::npos) { mc::report("line", "unexpected line '%s'", l.c_str()); return false; }
  size_t c = l.rfind(':'); char *e; double v = c == std::string::npos ? 0 : strtod(l.c_str() + c + 1, &e);
  if (c == std::string::npos || !(v >= lo - abs_ - 1e-9 * std::fabs(lo) && v <= hi + abs_ + 1e-9 * std::fabs(hi))) { mc::report("line", "%s: '%s', expected %g%s%g", mode, l.c_str(), lo, lo == hi ? " = " : " to ", hi); return false; }
  return true;
}
static double rate(unsigned long nnz, double t) { return 2.0 * (double)nnz / t / 1e6; }
static void printed() {
  auto t = samples(mc::thorough ? 6 : 5); Truth w = truth(t);
  int mi = mc::choose(5), ni = mc::choose(4);
  if (t.size() > 3 && (mi != (int)t.size() % 5 || ni != (int)(t.size() / 2) % 4)) mc::prune();
  const char *m = methods[mi]; unsigned long nnz = nnzq[ni];
  MC_LOG("report on %zu samples, %s, %lu entries", t.size(), m, nnz);
  mc::state(mc::mix(mc::mix(4, mi * 8 + ni), mc::hash_bytes(t.data(), t.size() * 8)));
  std::string out;
  { std::vector<double> v(t); Capture c; print_timing_verbose(m, nnz, v.size(), v.data()); out = c.stop(); std::sort(v.begin(), v.end()); auto u = t; std::sort(u.begin(), u.end()); if (u != v) mc::report("samples", "the values of the samples were changed"); }
  mc::step();
  size_t at = 0;
  struct { const char *n; double lo, hi; } L[] = {{"best", w.best, w.best}, {"median", w.lo, w.hi}, {"mean", w.mean, w.mean}, {"worst", w.worst, w.worst}};
  for (auto &l : L) {
    if (!line(out, at, "Execution time", m, l.n, l.lo, l.hi, 6e-7)) return;
    if (!line(out, at, "MFLOP/s", m, l.n, rate(nnz, l.hi), rate(nnz, l.lo), 0.51)) return;
  }
  { std::vector<double> v(t); Capture c; print_timing_csv(m, nnz, v.size(), v.data()); out = c.stop(); }
  mc::step();
  size_t k = strlen(m); bool good = out.compare(0, k, m) == 0 && out.size() > k && out[k] == ','; const char *p = out.c_str() + k;
  for (auto &l : L) { if (!good) break; if (*p != ',') { good = false; break; } char *e; double v = strtod(p + 1, &e); if (e == p + 1) good = false; double lo = rate(nnz, l.hi), hi = rate(nnz, l.lo); if (!(v >= lo - 0.51 - 1e-9 * lo && v <= hi + 0.51 + 1e-9 * hi)) good = false; p = e; }
  if (!good || strcmp(p, "\n") != 0) { mc::report("csv", "wrong line '%.200s' for best %g, median %g, mean %g, worst %g of %zu samples, %lu entries", out.c_str(), w.best, w.median, w.mean, w.worst, t.size(), nnz); return; }
  // single lines
  { Capture c; print_timing(m, nnz, t[0]); out = c.stop(); } at = 0;
  if (!line(out, at, "Execution time", nullptr, m, t[0], t[0], 6e-7) || !line(out, at, "MFLOP/s", nullptr, m, rate(nnz, t[0]), rate(nnz, t[0]), 0.51)) return;
  { Capture c; print_timing(m, "mode", nnz, t[0]); out = c.stop(); } at = 0;
  if (!line(out, at, "Execution time", m, "mode", t[0], t[0], 6e-7) || !line(out, at, "MFLOP/s", m, "mode", rate(nnz, t[0]), rate(nnz, t[0]), 0.51)) return;
  if (!mc::failed()) mc::validated();
}
// a matrix that watches how it is measured
static int calls; static bool touched;
template <class T, class IT> struct Watch { IT rows, columns, nnz; IT nonzeros() const { return nnz; }
  void spmv(T const *x, T *y) const { calls++; for (IT i = 0; i < columns; i++) if (x[i] != x[i]) touched = true; for (IT i = 0; i < rows; i++) { if (calls == 1 && y[i] != 0) touched = true; y[i] += 1; } } };
template <class T, class IT, class SIT> struct Watch3 { IT rows, columns, nnz; IT nonzeros() const { return nnz; }
  void spmv(T const *x, T *y) const { calls++; for (IT i = 0; i < columns; i++) if (x[i] != x[i]) touched = true; for (IT i = 0; i < rows; i++) { if (calls == 1 && y[i] != 0) touched = true; y[i] += 1; } } };
static void bench() {
  static const int dim[] = {1, 2, 7, 100, 3000}; static const unsigned its[] = {1, 2, 3, 10, 33};
  int r = mc::pick(dim), c = mc::pick(dim); unsigned it = mc::pick(its); int kind = mc::choose(4); int nnz = mc::choose(2) ? 1000 : 1;
  mc::shard();
  MC_LOG("measuring %d x %d, %u iterations, kind %d", r, c, it, kind);
  mc::state(mc::mix(mc::mix(5, r * 10000 + c), it * 8 + kind + 1000 * nnz));
  calls = 0; touched = false; std::string out;
  Watch<T_, I_> a{(I_)r, (I_)c, (I_)nnz}; Watch3<T_, I_, uint16_t> b{(I_)r, (I_)c, (I_)nnz};
  { Capture cp; switch (kind) { case 0: benchmark_spmv(a, it, "M"); break; case 1: benchmark_spmv(b, it, "M"); break; case 2: benchmark_spmv_csv(a, it, "M"); break; case 3: benchmark_spmv_csv(b, it, "M"); break; } out = cp.stop(); }
  mc::step((int)it);
  if (calls < (int)it) mc::report("bench", "%u iterations were asked, %d multiplications made", it, calls);
  if (touched) mc::report("bench", "the vectors given to the multiplication are not initialized");
  double v[4], f[4]; int n = 0;
  if (kind >= 2) { n = sscanf(out.c_str(), "M,%lf,%lf,%lf,%lf", &f[0], &f[1], &f[2], &f[3]); if (n != 4) mc::report("bench", "unexpected report '%.100s'", out.c_str()); else if (!(f[0] >= f[1] && f[1] >= f[3] && f[0] >= f[2] && f[2] >= f[3])) mc::report("bench", "the rates are not in order: '%.100s'", out.c_str()); }
  else {
    static const char *L[] = {"Execution time M (best):", "Execution time M (median):", "Execution time M (mean):", "Execution time M (worst):"};
    for (int i = 0; i < 4; i++) if (!number_after(out, L[i], v[i])) { mc::report("bench", "the report has no line '%s'", L[i]); return; }
    if (!(v[0] <= v[1] && v[1] <= v[3] && v[0] <= v[2] && v[2] <= v[3] && v[0] >= 0)) mc::report("bench", "the times are not in order: %g %g %g %g", v[0], v[1], v[2], v[3]);
  }
  if (!mc::failed()) mc::validated();
}
// ---- time is what the clock says: every sequence of passing time, starting and reading the stopwatch
static const int64_t steps[] = {0, 1, 999, 1000000, 999999999, 1000000000, 3600000000000ll, 34560000000000000ll};
struct ClockOn { ClockOn() { vclock::now = 0; vclock::on = true; } ~ClockOn() { vclock::on = false; } };
static void stopwatch() {
  int len = mc::range(1, mc::thorough ? 7 : lite() ? 4 : 6);
  int nsteps = len > 5 ? 4 : 8;
  ClockOn c; uint64_t h = 6; int64_t started = 0; std::string ops = "start";
  tick();
  for (int i = 0; i < len; i++) {
    int op = mc::choose(2 + nsteps); if (i == 1) mc::shard();
    h = mc::mix(h, op);
    if (op == 0) { tick(); started = vclock::now; ops += ", start"; }
    else if (op == 1) {
      double got = tock(), want = (double)(vclock::now - started) * 1e-9; ops += ", read";
      if (!(std::fabs(got - want) <= 1.1e-6 + 1e-9 * want)) { mc::report("stopwatch", "%s: reads %.10g seconds, %.10g have passed since it was started", ops.c_str(), got, want); return; }
      mc::outcome((uint64_t)(vclock::now - started));
    } else { int64_t d = steps[nsteps == 4 ? 2 * (op - 2) + 1 : op - 2]; vclock::now += d; ops += ", " + std::to_string(d) + " ns"; }
    mc::step();
  }
  if (len == 1) mc::shard();
  double got = tock(), want = (double)(vclock::now - started) * 1e-9;
  if (!(std::fabs(got - want) <= 1.1e-6 + 1e-9 * want)) mc::report("stopwatch", "%s, read: %.10g seconds, %.10g have passed since it was started", ops.c_str(), got, want);
  mc::state(h);
  if (!mc::failed()) mc::validated();
}
// every list of durations: the samples are the durations of the multiplications that were measured
static std::vector<double> lasted;
static void busy() {
  static const int64_t d[] = {1000000, 250000000, 2000000000, 7000}; int64_t t = d[mc::choose(mc::thorough || !lite() ? 4 : 2)];
  if (lasted.size() == 1) mc::shard();
  lasted.push_back((double)t * 1e-9); vclock::now += t;
}
template <class T, class IT> struct Busy { IT rows, columns, nnz; IT nonzeros() const { return nnz; } void spmv(T const *, T *) const { busy(); } };
template <class T, class IT, class SIT> struct Busy3 { IT rows, columns, nnz; IT nonzeros() const { return nnz; } void spmv(T const *, T *) const { busy(); } };
static void measured() {
  unsigned it = (unsigned)mc::range(1, mc::thorough ? 6 : 4); int kind = mc::choose(4); unsigned long nnz = mc::flip() ? 123457 : 1;
  Busy<T_, I_> a{3, 2, (I_)nnz}; Busy3<T_, I_, uint16_t> b{3, 2, (I_)nnz}; std::string out;
  lasted.clear();
  { ClockOn on; Capture c; switch (kind) { case 0: benchmark_spmv(a, it, "M"); break; case 1: benchmark_spmv(b, it, "M"); break; case 2: benchmark_spmv_csv(a, it, "M"); break; case 3: benchmark_spmv_csv(b, it, "M"); break; } out = c.stop(); }
  mc::step((int)it);
  if (lasted.size() < it) { mc::report("bench", "%u iterations were asked, %zu multiplications made", it, lasted.size()); return; }
  mc::state(mc::mix(mc::mix(7, kind * 2 + (nnz == 1)), mc::hash_bytes(lasted.data(), lasted.size() * 8)));
  Truth w = truth(std::vector<double>(lasted.end() - it, lasted.end()));
  struct { const char *n; double lo, hi; } L[] = {{"best", w.best, w.best}, {"median", w.lo, w.hi}, {"mean", w.mean, w.mean}, {"worst", w.worst, w.worst}};
  if (kind < 2) {
    size_t at = 0;
    for (auto &l : L) if (!line(out, at, "Execution time", "M", l.n, l.lo, l.hi, 6e-7) || !line(out, at, "MFLOP/s", "M", l.n, rate(nnz, l.hi), rate(nnz, l.lo), 0.51)) return;
  } else {
    double f[4]; int i = 0;
    if (sscanf(out.c_str(), "M,%lf,%lf,%lf,%lf", &f[0], &f[1], &f[2], &f[3]) != 4) { mc::report("bench", "unexpected report '%.100s'", out.c_str()); return; }
    for (auto &l : L) { double lo = rate(nnz, l.hi), hi = rate(nnz, l.lo), g = f[i++]; if (!(g >= lo - 0.51 - 1e-9 * lo && g <= hi + 0.51 + 1e-9 * hi)) { mc::report("bench", "%s rate %g of %u measured multiplications, expected %g to %g", l.n, g, it, lo, hi); return; } }
  }
  mc::validated();
}
void mc_body() {
  mcomp::reset();
  use(Sched{1, mcomp::FIRST});
  switch (mc::choose(9)) {
    case 7: stopwatch(); break;
    case 8: measured(); break;
    case 0: compare<float, uint32_t>(); break;
    case 1: compare<double, int>(); break;
    case 2: compare<double, uint64_t>(); break;
    case 3: compare<float, int>(); break;
    case 4: statistics(); break;
    case 5: printed(); break;
    case 6: bench(); break;
  }
}
}
