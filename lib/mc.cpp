#include "mc.h"
#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdlib>
#include <ctime>
#include <dirent.h>
#include <fcntl.h>
#include <malloc.h>
#include <set>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
using vp::mc_body; using vp::mc_name; using vp::mc_exec_limit; using vp::mc_setup;

// MemorySanitizer: this file is not instrumented, so its strings look uninitialised to the interceptors
extern "C" void __msan_scoped_disable_interceptor_checks() __attribute__((weak));
extern "C" void __msan_scoped_enable_interceptor_checks() __attribute__((weak));
static void msan_off() { if (__msan_scoped_disable_interceptor_checks) __msan_scoped_disable_interceptor_checks(); }
static void msan_on() { if (__msan_scoped_enable_interceptor_checks) __msan_scoped_enable_interceptor_checks(); }

namespace mc {

bool thorough = false, verbose = false;
int dev_bound = -1;
const char *phase = "";

static const int MAXDEPTH = 6000;
static const int MAXW = 32;
static const int MAXVIOL = 64;
static const int NSAMPLE = 4;

struct Path { int len; uint16_t c[MAXDEPTH], n[MAXDEPTH]; uint8_t dev[MAXDEPTH]; };

struct Worker {
  Path path;
  int changed;                 // index of the last changed choice (-1: first execution)
  long shard_seen;             // number of shard prefixes passed so far
  long shard_mine;             // the one this worker owns (or will own)
  bool started, in_exec, done;
  double exec_start, longest;
  long execs;
  char phase[96];
};

struct Viol { char sig[200]; char msg[1500]; Path path; long shard; int kind; };   // kind 0 reported, 1 crash, 2 hang

struct Shm {
  std::atomic<long> next_shard, execs, steps, validated, pruned, states, outcomes, full, maxdepth, capped;
  std::atomic<int> stop, nviol, lock;
  Viol viol[MAXVIOL];
  Worker w[MAXW];
  Path sample[NSAMPLE];
  std::atomic<int> nsample;
  std::atomic<long> known_hits;
};

static Shm *S;
static std::atomic<uint64_t> *statetab, *outtab;
static size_t TAB = 1u << 23;

static Worker *W;              // of this process
static int wid = 0;
static int pos, devs;
static bool replaying = false;
static Path *target = nullptr; // history replay stops here
static bool reported;
static std::string rep_sig, rep_msg;
static bool counted_valid;
static std::set<std::string> known;
static int nworkers = 8;
static double budget = 600;
static double T0;
static unsigned long my_steps;

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static void insert(std::atomic<uint64_t> *tab, std::atomic<long> &count, uint64_t h) {
  if (!h) h = 1;
  size_t i = (h * 0x9e3779b97f4a7c15ULL) & (TAB - 1);
  for (int probe = 0; probe < 64; probe++, i = (i + 1) & (TAB - 1)) {
    uint64_t v = tab[i].load(std::memory_order_relaxed);
    if (v == h) return;
    if (v == 0) {
      if (tab[i].compare_exchange_strong(v, h)) { count++; return; }
      if (v == h) return;
    }
  }
  S->full++;
}

static int choose_impl(int n, bool dev) {
  if (n < 1) { fprintf(stderr, "mc: choose(%d)\n", n); abort(); }
  if (dev && dev_bound >= 0 && devs >= dev_bound && n > 1) n = 1;
  if (pos >= MAXDEPTH) { fprintf(stderr, "mc: choice depth exceeded\n"); S->capped++; _exit(77); }
  if (n > 65535) { fprintf(stderr, "mc: arity\n"); abort(); }
  Path &p = W->path;
  if (pos < p.len) {
    if (p.n[pos] != n || p.c[pos] >= n) {
      report("divergence", "the same choices led to a different continuation at choice %d (%d alternatives, then %d)", pos, p.n[pos], n);
      die_reported();
    }
  } else {
    p.c[pos] = 0; p.n[pos] = n; p.dev[pos] = dev; p.len = pos + 1;
  }
  int c = p.c[pos++];
  if (dev && c) devs++;
  return c;
}
int choose(int n) { return choose_impl(n, false); }
int choose_dev(int n) { return choose_impl(n, true); }

void shard() {
  if (replaying) return;
  if (W->changed < pos) {                      // a new prefix
    if (W->changed >= 0 || !W->started) { W->shard_seen++; }
    W->started = true;
    // remember that this prefix is now the current one
    if (W->shard_seen > W->shard_mine) W->shard_mine = S->next_shard.fetch_add(1);
  }
  if (W->shard_seen != W->shard_mine) {
    // not ours: skip the whole subtree
    W->path.len = pos;
    throw Abandon();
  }
}
void prune() { S->pruned++; counted_valid = false; rep_sig = "\1prune"; throw Abandon(); }

void step(unsigned long n) { my_steps += n; }
void state(uint64_t h) { insert(statetab, S->states, h); }
void outcome(uint64_t h) { insert(outtab, S->outcomes, h); }
void validated() { counted_valid = true; }
bool failed() { return reported; }

void log(const char *fmt, ...) {
  va_list ap; va_start(ap, fmt);
  fputs("  | ", stdout); vprintf(fmt, ap); putchar('\n'); fflush(stdout);
  va_end(ap);
}
static void vreport(const char *sig, const char *fmt, va_list ap) {
  if (reported) return;
  reported = true;
  msan_off();
  char b[1500]; vsnprintf(b, sizeof b, fmt, ap);
  rep_sig = sig; rep_msg = b;
  if (verbose) { printf("  | FAIL [%s] %s\n", sig, b); fflush(stdout); }
  msan_on();
}
void report(const char *sig, const char *fmt, ...) { va_list ap; va_start(ap, fmt); vreport(sig, fmt, ap); va_end(ap); }
void fail(const char *sig, const char *fmt, ...) { va_list ap; va_start(ap, fmt); vreport(sig, fmt, ap); va_end(ap); throw Abandon(); }
void ok_unless(bool good, const char *sig, const char *fmt, ...) {
  if (good) return;
  va_list ap; va_start(ap, fmt); vreport(sig, fmt, ap); va_end(ap); throw Abandon();
}

static void lock() { int e = 0; while (!S->lock.compare_exchange_weak(e, 1)) { e = 0; usleep(50); } }
static void unlock() { S->lock = 0; }

static void push_violation(const std::string &sig, const std::string &msg, const Path &path, long shardno, int kind) {
  lock();
  bool dup = false;
  int n = S->nviol;
  for (int i = 0; i < n; i++) if (sig == S->viol[i].sig) dup = true;
  if (!dup && n < MAXVIOL) {
    Viol &v = S->viol[n];
    snprintf(v.sig, sizeof v.sig, "%s", sig.c_str());
    snprintf(v.msg, sizeof v.msg, "%s", msg.c_str());
    v.path = path; v.shard = shardno; v.kind = kind;
    S->nviol = n + 1;
  }
  unlock();
}

void die_reported() {
  msan_off();
  fflush(stdout);
  if (replaying || target) _exit(43);
  Path p = W->path; p.len = pos < p.len ? pos : p.len;
  push_violation(rep_sig, rep_msg, p, W->shard_mine, 0);
  _exit(44);
}

const char *scratch() {
  static char dir[512];
  if (!dir[0]) {
    const char *base = getenv("MC_SCRATCH");
    snprintf(dir, sizeof dir, "%s/w%d.%d", base ? base : "/tmp", wid, (int)getpid());
    mkdir(dir, 0777);
  }
  return dir;
}

static bool advance(Path &p, int &changed) {
  int i = p.len - 1;
  while (i >= 0 && p.c[i] + 1 >= p.n[i]) i--;
  if (i < 0) return false;
  p.c[i]++; p.len = i + 1; changed = i;
  return true;
}

static void one_execution() {
  pos = 0; devs = 0; reported = false; rep_sig.clear(); rep_msg.clear(); counted_valid = false; phase = "";
  W->exec_start = now(); W->in_exec = true;
  bool skipped = false;
  msan_on();
  try { mc_body(); } catch (Abandon &) { if (!reported && rep_sig != "\1prune") skipped = true; }
  msan_off();
  if (reported && rep_sig == "\1prune") reported = false;
  W->in_exec = false;
  if (double d = now() - W->exec_start; d > W->longest) W->longest = d;
  if (pos < W->path.len && !skipped && !reported && rep_sig != "\1prune") {
    // the execution ended before the prefix it was given: divergence
    report("divergence", "the same choices led to a shorter execution (%d of %d choices)", pos, W->path.len);
  }
  W->path.len = pos < W->path.len ? pos : W->path.len;
  if (!skipped && rep_sig != "\1prune") { S->execs++; W->execs++; if (counted_valid) S->validated++; }
  if (pos > S->maxdepth) S->maxdepth = pos;
  S->steps += my_steps; my_steps = 0;
}

static void save_sample() {
  int n = S->nsample;
  if (n >= NSAMPLE) return;
  if (S->nsample.compare_exchange_strong(n, n + 1)) S->sample[n] = W->path;
}

static void worker_main(bool resume) {
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  mallopt(M_PERTURB, 0x5A);
  msan_on(); mc_setup(); msan_off();
  if (resume) { if (!advance(W->path, W->changed)) { W->done = true; _exit(0); } }
  for (long it = 0;; it++) {
    if (S->stop) { S->capped++; break; }
    if (now() - T0 > budget) { S->capped++; break; }
    one_execution();
    if (!reported && counted_valid && (W->execs == 3 + wid * 37 || W->execs == 1000 + 77 * wid)) save_sample();
    if (reported) {
      if (known.count(rep_sig)) S->known_hits++;
      push_violation(rep_sig, rep_msg, W->path, W->shard_mine, 0);
      if (S->nviol > 40) S->stop = 1;
      if (!known.count(rep_sig)) { int unk = 0; for (int i = 0; i < S->nviol; i++) unk += !known.count(S->viol[i].sig); if (unk >= 3) S->stop = 1; }
    }
    if (!advance(W->path, W->changed)) break;
  }
  W->done = true;
  fflush(stdout);
  _exit(0);
}

// Runs one path (or, with history, everything of its shard before it) in a child.
// Returns 0 if it ends normally, 43 if it reports, 1000+sig on a signal, 2000 on a hang, other exit codes as they are.
static int run_replay(const Path &p, const std::string &outfile, double limit, bool verb, std::string *sig) {
  int pfd[2]; if (pipe(pfd)) return -1;
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    close(pfd[0]);
    int fd = open(outfile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0666);
    dup2(fd, 1); dup2(fd, 2);
    wid = MAXW - 1; W = &S->w[wid]; memset((void *)W, 0, sizeof *W);
    W->path = p; replaying = true; verbose = verb;
    mallopt(M_PERTURB, 0x5A);
    setvbuf(stdout, nullptr, _IOLBF, 0);
    msan_on(); mc_setup(); msan_off();
    one_execution();
    fflush(stdout);
    if (reported) { if (write(pfd[1], rep_sig.data(), rep_sig.size())) {} _exit(43); }
    _exit(0);
  }
  close(pfd[1]);
  double t = now(); int st = 0; int rc = -1;
  while (true) {
    pid_t r = waitpid(pid, &st, WNOHANG);
    if (r == pid) { rc = WIFSIGNALED(st) ? 1000 + WTERMSIG(st) : WEXITSTATUS(st); break; }
    if (now() - t > limit) { kill(pid, SIGKILL); waitpid(pid, &st, 0); rc = 2000; break; }
    usleep(2000);
  }
  char b[300]; ssize_t k = read(pfd[0], b, sizeof b - 1);
  if (sig && k > 0) sig->assign(b, k);
  close(pfd[0]);
  return rc;
}

static std::string slurp(const std::string &f, size_t maxn = 100000) {
  FILE *h = fopen(f.c_str(), "r"); if (!h) return "";
  std::string s(maxn, 0); s.resize(fread(&s[0], 1, maxn, h)); fclose(h); return s;
}
static std::string jstr(const std::string &s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o + "\"";
}
static std::string path_text(const Path &p) {
  std::string s;
  for (int i = 0; i < p.len; i++) { if (i) s += ' '; s += std::to_string(p.c[i]) + "/" + std::to_string(p.n[i]); }
  return s;
}

static void rm_rf(const std::string &d) {       // only ever called on the scratch directory made below
  DIR *h = opendir(d.c_str()); if (!h) return;
  while (dirent *e = readdir(h)) {
    std::string n = e->d_name; if (n == "." || n == "..") continue;
    std::string f = d + "/" + n; struct stat st;
    if (lstat(f.c_str(), &st)) continue;
    if (S_ISDIR(st.st_mode)) { chmod(f.c_str(), 0777); rm_rf(f); } else unlink(f.c_str());
  }
  closedir(h); rmdir(d.c_str());
}

// signature of a crash: assertion text, sanitizer summary, or the signal, together with the phase
static std::string crash_sig(int rc, const std::string &out) {
  std::string s;
  size_t a = out.find("SUMMARY: ");
  if (a != std::string::npos) {
    s = out.substr(a + 9, out.find('\n', a) - a - 9);
    // drop addresses and build paths
    size_t q; while ((q = s.find(" (/")) != std::string::npos) s.erase(q);
  } else if ((a = out.find("Assertion `")) != std::string::npos) {
    s = "assertion " + out.substr(a + 11, out.find('\'', a + 11) - a - 11);
  } else if ((a = out.find("runtime error: ")) != std::string::npos) {
    s = out.substr(a, out.find('\n', a) - a);
  } else if (rc >= 1000 && rc < 2000) s = std::string("signal ") + strsignal(rc - 1000);
  else if (rc == 2000) s = "hang";
  else s = "exit " + std::to_string(rc);
  return s;
}

}  // namespace mc

using namespace mc;

int main(int argc, char **argv) {
  msan_off();
  std::string out = ".", replay, knownfile;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--out") out = val();
    else if (a == "--tier") { thorough = val() == "thorough"; if (thorough) mc_exec_limit *= 4; }
    else if (a == "--workers") nworkers = atoi(val().c_str());
    else if (a == "--budget") budget = atof(val().c_str());
    else if (a == "--replay") replay = val();
    else if (a == "--known") knownfile = val();
    else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
  }
  if (nworkers > MAXW - 2) nworkers = MAXW - 2;
  size_t tabbytes = TAB * sizeof(uint64_t);
  S = (Shm *)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  statetab = (std::atomic<uint64_t> *)mmap(nullptr, tabbytes, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  outtab = (std::atomic<uint64_t> *)mmap(nullptr, tabbytes, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (S == MAP_FAILED || statetab == MAP_FAILED || outtab == MAP_FAILED) { perror("mmap"); return 2; }
  signal(SIGPIPE, SIG_IGN);
  rlimit nocore = {0, 0}; setrlimit(RLIMIT_CORE, &nocore);
  T0 = now();
  char sd[64] = "/dev/shm/mc-scratch-XXXXXX";       // in memory if possible
  if (!mkdtemp(sd)) { strcpy(sd, "/tmp/mc-scratch-XXXXXX"); if (!mkdtemp(sd)) { perror("mkdtemp"); return 2; } }
  setenv("MC_SCRATCH", sd, 1);
  std::string scratch_root = sd;

  if (!replay.empty()) {
    std::string t = slurp(replay); Path *p = new Path(); memset((void *)p, 0, sizeof *p);
    size_t a = t.find("choices: ");
    if (a == std::string::npos) { fprintf(stderr, "no choices in %s\n", replay.c_str()); rm_rf(scratch_root); return 2; }
    if (t.find("tier: thorough") != std::string::npos) thorough = true;
    const char *q = t.c_str() + a + 9; 
    while (*q && *q != '\n') { int c, n, k; if (sscanf(q, "%d/%d%n", &c, &n, &k) != 2) break; p->c[p->len] = c; p->n[p->len++] = n; q += k; while (*q == ' ') q++; }
    std::string sig; std::string f = scratch_root + "/replay.txt";
    int rc = run_replay(*p, f, mc_exec_limit * 6, true, &sig);
    fputs(slurp(f).c_str(), stdout);
    if (rc == 0) printf("replay: no violation\n"); else printf("replay: VIOLATION %s (code %d)\n", rc == 43 ? sig.c_str() : crash_sig(rc, slurp(f)).c_str(), rc);
    rm_rf(scratch_root);
    return rc ? 1 : 0;
  }
  if (!knownfile.empty()) {
    std::string t = slurp(knownfile, 1 << 20); size_t i = 0;
    while (i < t.size()) { size_t e = t.find('\n', i); if (e == std::string::npos) e = t.size(); if (e > i) known.insert(t.substr(i, e - i)); i = e + 1; }
  }

  S->next_shard = nworkers + 1;      // shards are numbered from 1; worker i first owns shard i+1
  struct Kid { pid_t pid; int w; }; static Kid pids[64]; int npids = 0;
  auto start = [&](int i, bool resume) {
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
      wid = i; W = &S->w[i];
      std::string f = scratch_root + "/out." + std::to_string(i);
      int fd = open(f.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0666);
      dup2(fd, 1); dup2(fd, 2); close(fd);
      worker_main(resume);
    }
    pids[npids++] = {p, i};
  };
  for (int i = 0; i < nworkers; i++) {
    Worker &w = S->w[i]; memset((void *)&w, 0, sizeof w);
    w.changed = -1; w.shard_mine = i + 1;
    start(i, false);
  }
  int crashes = 0, unconfirmed = 0;
  const double grace = thorough ? 30 : 3;
  long retried = 0;
  while (npids) {
    int st; pid_t p = waitpid(-1, &st, WNOHANG);
    if (p > 0) {
      int at = -1; for (int k = 0; k < npids; k++) if (pids[k].pid == p) at = k;
      if (at < 0) continue;
      int i = pids[at].w; pids[at] = pids[--npids];
      Worker &w = S->w[i];
      if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && w.done) continue;
      if (WIFEXITED(st) && WEXITSTATUS(st) == 77) continue;   // capped
      int rc = WIFSIGNALED(st) ? 1000 + WTERMSIG(st) : WEXITSTATUS(st);
      if (rc == 1000 + SIGKILL) {          // several workers run into the same hang: one is enough
        int unk = 0; for (int k = 0; k < S->nviol; k++) unk += !known.count(S->viol[k].sig);
        if (unk) { S->capped++; S->stop = 1; continue; }
      }
      if (rc != 44) {
        // a crash of the implementation (or a hang we killed): confirm by replay
        Path *cp = new Path(w.path);
        std::string f = scratch_root + "/confirm." + std::to_string(crashes);
        std::string sig;
        // the recorded path may be a prefix of the execution that crashed; a replay continues with default answers
        int r2 = run_replay(*cp, f, mc_exec_limit * 2, true, &sig);
        if (r2 == 0) r2 = run_replay(*cp, f, mc_exec_limit * 2, true, &sig);
        std::string text = slurp(f);
        if (r2 != 0) {
          crashes++;
          std::string s = r2 == 43 ? sig : crash_sig(r2, text);
          push_violation(s, "execution ended abnormally: " + s, *cp, w.shard_mine, r2 == 2000 ? 2 : 1);
        } else if (rc == 1000 + SIGKILL && retried < 20) {     // killed from outside or slow: once more, alone
          retried++;
        } else {
          unconfirmed++;
          std::string f2 = scratch_root + "/out." + std::to_string(i);
          std::string raw = slurp(f2);
          fprintf(stderr, "mc: worker %d ended with %d, not reproduced: %s\n%s\n", i, rc, path_text(*cp).substr(0, 400).c_str(), raw.substr(unconfirmed > 2 ? raw.size() : raw.size() > 700 ? raw.size() - 700 : 0).c_str());
          // state carried from earlier executions of the shard may matter; the crash itself is real
          std::string s = crash_sig(rc, raw);
          push_violation(s, "abnormal end that needs the executions before it: " + s, *cp, w.shard_mine, 3);
          crashes++;
        }
        delete cp;
      } else crashes++;
      int unk = 0; for (int k = 0; k < S->nviol; k++) unk += !known.count(S->viol[k].sig);
      if (crashes > 400) { S->capped++; S->stop = 1; }
      if (unk >= 3) S->stop = 1;
      if (!S->stop && now() - T0 < budget) { w.in_exec = false; start(i, true); } else S->capped++;
      continue;
    }
    double t = now();
    // after the first violation the rest of the space is of little interest: look a little further for others, then stop
    static double first = 0; static int seen = 0;
    if (S->nviol != seen) { seen = S->nviol; int unk = 0; for (int k = 0; k < seen; k++) unk += !known.count(S->viol[k].sig); if (unk && first == 0) first = t; }
    if (first != 0 && t - first > grace && !S->stop) { S->capped++; S->stop = 1; }
    for (int k = 0; k < npids; k++) {
      Worker &w = S->w[pids[k].w];
      if (w.in_exec && t - w.exec_start > mc_exec_limit) { double es = w.exec_start; usleep(1000); if (w.in_exec && w.exec_start == es) { w.exec_start = t + 1e9; kill(pids[k].pid, SIGKILL); } }
    }
    usleep(p == 0 ? 3000 : 100);
  }

  // ---- results ----
  int nunknown = 0;
  std::string j = "{\n";
  j += " \"name\": " + jstr(mc_name) + ",\n";
  auto num = [&](const char *k, long v) { j += std::string(" \"") + k + "\": " + std::to_string(v) + ",\n"; };
  num("executions", S->execs); num("transitions", S->steps); num("states", S->states); num("outcomes", S->outcomes);
  num("validated", S->validated); num("pruned", S->pruned); num("max_choices", S->maxdepth); num("shards", (long)S->next_shard - 1 > 0 ? (long)S->next_shard - 1 : 0);
  num("state_table_overflow", S->full); num("known_hits", S->known_hits); num("unconfirmed", unconfirmed);
  j += std::string(" \"exhaustive\": ") + (S->capped ? "false" : "true") + ",\n";
  j += " \"violations\": [";
  mkdir(out.c_str(), 0777);
  for (int i = 0; i < S->nviol; i++) {
    Viol &v = S->viol[i];
    std::string f = scratch_root + "/v.txt", sig;
    run_replay(v.path, f, v.kind == 2 ? mc_exec_limit / 2 : mc_exec_limit * 4, true, &sig);
    std::string rp = out + "/" + mc_name + "-" + std::to_string(i) + ".replay";
    FILE *h = fopen(rp.c_str(), "w");
    if (h) {
      fprintf(h, "harness: %s\ntier: %s\nsignature: %s\nmessage: %s\nchoices: %s\n\n--- replay output ---\n%s\n", mc_name, thorough ? "thorough" : "quick", v.sig, v.msg, path_text(v.path).c_str(), slurp(f, 20000).c_str());
      fclose(h);
    }
    bool k = known.count(v.sig); nunknown += !k;
    j += std::string(i ? "," : "") + "\n  {\"sig\": " + jstr(v.sig) + ", \"msg\": " + jstr(v.msg) + ", \"replay\": " + jstr(rp) + ", \"known\": " + (k ? "true" : "false") + "}";
  }
  j += "],\n \"samples\": [";
  for (int i = 0, n = 0; i < S->nsample && n < 3; i++) {
    std::string f = scratch_root + "/s.txt";
    if (run_replay(S->sample[i], f, mc_exec_limit * 4, true, nullptr) != 0) continue;
    std::string t = slurp(f, 1500);
    j += std::string(n++ ? "," : "") + "\n  " + jstr("choices " + path_text(S->sample[i]).substr(0, 300) + "\n" + t);
  }
  j += "],\n";
  double lg = 0; for (int i = 0; i < MAXW - 1; i++) lg = std::max(lg, S->w[i].longest);
  char wb[96]; snprintf(wb, sizeof wb, " \"longest_execution_s\": %.3f,\n", lg); j += wb;
  snprintf(wb, sizeof wb, " \"wall_s\": %.2f\n}\n", now() - T0); j += wb;
  std::string jf = out + "/" + mc_name + ".json";
  FILE *h = fopen(jf.c_str(), "w"); if (!h) { perror(jf.c_str()); rm_rf(scratch_root); return 2; }
  fputs(j.c_str(), h); fclose(h);
  rm_rf(scratch_root);
  return nunknown ? 1 : 0;
}
