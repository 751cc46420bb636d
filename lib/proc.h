// Runs a program of the repository (its renamed main) in a process of its own, contained in the worker's scratch directory.
#ifndef MC_PROC_H
#define MC_PROC_H
#include <cerrno>
#include <malloc.h>
#include <new>
#include <cstring>
#include <csignal>
#include <fcntl.h>
#include <ftw.h>
#include <string>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>
#include "mc.h"
#include "mcomp.h"
#include "file.h"
namespace vp {

// ---- containment: fixed temporary paths of the tools are moved into the worker's own directory, commands are emulated
static std::string jail;
static bool in_tool = false;
static std::string remap(const char *p) {
  std::string s = p;
  if (in_tool && s.compare(0, 5, "/tmp/") == 0 && s.compare(0, jail.size(), jail) != 0) return jail + "/tmp/" + s.substr(5);
  return s;
}
static void mkdirs(std::string const &p) { for (size_t i = 1; i <= p.size(); i++) if (i == p.size() || p[i] == '/') mkdir(p.substr(0, i).c_str(), 0777); }
extern "C" {
FILE *__real_fopen(const char *, const char *);
FILE *__wrap_fopen(const char *p, const char *m) { return __real_fopen(remap(p).c_str(), m); }
FILE *__real_fopen64(const char *, const char *);
FILE *__wrap_fopen64(const char *p, const char *m) { return __real_fopen64(remap(p).c_str(), m); }
int __real_mkdir(const char *, mode_t);
int __wrap_mkdir(const char *p, mode_t m) { return __real_mkdir(remap(p).c_str(), m); }
int __real_rmdir(const char *);
int __wrap_rmdir(const char *p) { return __real_rmdir(remap(p).c_str()); }
int __real_unlink(const char *);
int __wrap_unlink(const char *p) { std::string q = remap(p); if (q.compare(0, jail.size(), jail) != 0) { errno = EPERM; return -1; } return __real_unlink(q.c_str()); }
int __real_remove(const char *);
int __wrap_remove(const char *p) { std::string q = remap(p); if (q.compare(0, jail.size(), jail) != 0) { errno = EPERM; return -1; } return __real_remove(q.c_str()); }
// no shell is ever run: the two commands the tools need are done here, inside the worker's directory only
int __wrap_system(const char *cmd) {
  if (!cmd) return 1;
  std::vector<std::string> w; { std::string c; for (const char *p = cmd;; p++) { if (*p == ' ' || !*p) { if (!c.empty()) w.push_back(c); c.clear(); if (!*p) break; } else c += *p; } }
  if (w.size() >= 2 && w[0] == "mkdir") { for (size_t i = 1; i < w.size(); i++) if (w[i][0] != '-' && w[i].compare(0, 5, "/tmp/") == 0) mkdirs(remap(w[i].c_str())); return 0; }
  if (w.size() >= 2 && w[0] == "rm") {
    for (size_t i = 1; i < w.size(); i++) if (w[i][0] != '-' && w[i].compare(0, 5, "/tmp/") == 0) {
      std::string q = remap(w[i].c_str());
      if (q.compare(0, jail.size() + 1, jail + "/") == 0) nftw(q.c_str(), [](const char *p, const struct stat *, int, struct FTW *) { return std::string(p).compare(0, jail.size() + 1, jail + "/") == 0 ? __real_remove(p) : -1; }, 16, FTW_DEPTH | FTW_PHYS);
    }
    return 0;
  }
  return 0x7f00;
}
}

static void jail_setup() { jail = mc::scratch(); if (chdir(jail.c_str())) _exit(98); }

typedef int (*Tool)(int, char **);
struct Run { int status = -1; bool signalled = false; std::string out, err; };
static bool assertion_allowed = false;
static Run run(const char *what, Tool tool, std::vector<std::string> const &args, int threads = 1, int policy = mcomp::ROUND_ROBIN) {
  Run r;
  std::string so = jail + "/stdout", se = jail + "/stderr";
  fflush(stdout); fflush(stderr);
  std::string line = what; for (auto &a : args) line += " " + (a.size() > 80 ? a.substr(0, 77) + "..." : a);
  MC_LOG("run: %s", line.c_str());
  pid_t pid = fork();
  if (pid < 0) _exit(97);
  if (pid == 0) {
    signal(SIGSEGV, SIG_DFL); signal(SIGABRT, SIG_DFL); signal(SIGFPE, SIG_DFL); signal(SIGBUS, SIG_DFL); signal(SIGALRM, SIG_DFL); signal(SIGILL, SIG_DFL);
    alarm(20);
    freopen(so.c_str(), "w", stdout); freopen(se.c_str(), "w", stderr);
    mcomp::reset(); mcomp::set_threads(threads); mcomp::set_policy((mcomp::Policy)policy);
    std::vector<std::string> own(args); own.insert(own.begin(), what);
    std::vector<char *> argv; for (auto &a : own) argv.push_back(&a[0]); argv.push_back(nullptr);
    in_tool = true;
#if !__has_feature(address_sanitizer)
    struct rlimit as = {4ul << 30, 4ul << 30}; setrlimit(RLIMIT_AS, &as);      // a program must not take the memory of the sandbox
#endif
    int s;
    try { s = tool((int)own.size(), argv.data()); }
    catch (std::bad_alloc const &) { fflush(stdout); fprintf(stderr, "terminate called after throwing an instance of 'std::bad_alloc'\n"); fflush(stderr); abort(); }
    fflush(stdout); fflush(stderr);
    _exit(s & 255);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0) {}
  r.signalled = WIFSIGNALED(st);
  r.status = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
  r.out = slurp_file(so); r.err = slurp_file(se);
  mc::step();
  mc::outcome(mc::mix(mc::hash_bytes(what, strlen(what)), r.status));
  if (assertion_allowed && r.status == 128 + SIGABRT && (r.err.find("Assertion") != std::string::npos || r.err.find("bad_alloc") != std::string::npos) && r.err.find("Sanitizer") == std::string::npos) return r;
  if (r.signalled || r.status == 66 || r.err.find("Sanitizer") != std::string::npos) {
    mc::report("crash", "%s: stopped with status %d%s: %.600s", line.c_str(), r.status, r.signalled ? " (signal)" : "", r.err.c_str());
  }
  return r;
}
}
#endif
