// Captures what the library prints on its standard output (stdio and iostream, in order).
#ifndef CAPTURE_H
#define CAPTURE_H
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <streambuf>
#include <string>
namespace vp {

struct Capture {
  struct Buf : std::streambuf {
    int overflow(int c) override { return c == EOF ? 0 : fputc(c, stdout); }
    std::streamsize xsputn(const char *s, std::streamsize n) override { return (std::streamsize)fwrite(s, 1, (size_t)n, stdout); }
    int sync() override { return 0; }
  };
  char *p = nullptr; size_t n = 0;
  FILE *old, *mem; std::streambuf *oldc; Buf b;
  bool open = true;
  Capture() { fflush(stdout); old = stdout; mem = open_memstream(&p, &n); stdout = mem; oldc = std::cout.rdbuf(&b); }
  std::string stop() { close(); return std::string(p, n); }
  void close() { if (!open) return; open = false; std::cout.rdbuf(oldc); stdout = old; fclose(mem); }
  ~Capture() { close(); free(p); }
};
}
#endif
