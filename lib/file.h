// Small helpers to look at files from outside the library.
#ifndef MC_FILE_H
#define MC_FILE_H
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <string>
#include <sys/stat.h>
#include <unistd.h>
namespace vp {

inline std::string slurp_file(std::string const &p, bool *missing = nullptr) {
  std::string s;
  int fd = open(p.c_str(), O_RDONLY);
  if (missing) *missing = fd < 0;
  if (fd < 0) return s;
  struct stat st;
  if (fstat(fd, &st) == 0 && S_ISREG(st.st_mode)) {
    s.resize((size_t)st.st_size);
    size_t got = 0;
    while (got < s.size()) { ssize_t n = read(fd, &s[got], s.size() - got); if (n <= 0) break; got += (size_t)n; }
    s.resize(got);
  }
  close(fd);
  return s;
}
inline void put_file(std::string const &p, std::string const &s) {
  int fd = open(p.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0666);
  if (fd < 0) { perror(p.c_str()); _exit(99); }
  size_t done = 0;
  while (done < s.size()) { ssize_t n = write(fd, s.data() + done, s.size() - done); if (n <= 0) { perror(p.c_str()); _exit(99); } done += (size_t)n; }
  close(fd);
}
template <class V> inline void put_bytes(std::string &s, V v) { s.append((const char *)&v, sizeof v); }
template <class V> inline V get_bytes(std::string const &s, size_t at) { V v; __builtin_memcpy(&v, s.data() + at, sizeof v); return v; }
}
#endif
