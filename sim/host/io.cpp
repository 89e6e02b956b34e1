// File seam: the one file the library reads.  Its contents, and whether it can
// be read at all, belong to the simulated machine.
#include "sim.hpp"
#include <dlfcn.h>
#include <errno.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <unistd.h>
#include <locale>
#include <iostream>
using namespace sim;

namespace sim
{
void io_init()
{
  // caches in the C++ library's global facets are not the program's
  std::cin.widen('\n');
  std::use_facet<std::ctype<char> >(std::locale()).narrow('a', 0);
}
static FILE *cpuinfo()
{
  Host host_;
  unsigned v = mix64(S.env, 0x637075) % 8;
  if (!(info->faults & SIM_F_IO)) v = 7;
  if (v < 4) R.stats[ST_IOFAIL]++;
  if (v == 0) { errno = ENOENT; return 0; }
  std::string s;
  char b[100];
  for (int c = 0; c < 4; ++c)
  {
    snprintf(b, sizeof b, "processor\t: %d\n", c); s += b;
    if (v == 1 || v == 2) { s += "flags\t\t:"; for (int i = 0; i < 400; ++i) s += " feature"; s += "\n"; }     // no clock rate; a very long line
    if (v != 1) { snprintf(b, sizeof b, "cpu MHz\t\t: %d.%03d\n", int(800 + mix64(S.env, c) % 3000), int(mix64(S.env, c + 9) % 1000)); s += b; }
    s += "bogomips\t: 4800.00\n\n";
  }
  if (v == 3) s.clear();
  int fd = memfd_create("cpuinfo", 0);
  if (fd < 0) { errno = EMFILE; return 0; }
  if (write(fd, s.data(), s.size()) < 0) {}
  lseek(fd, 0, SEEK_SET);
  return fdopen(fd, "r");
}
}
extern "C" {
FILE *fopen(char const *p, char const *m)
{
  static FILE *(*real)(char const *, char const *);
  if (!real) real = (FILE *(*)(char const *, char const *))dlsym(RTLD_NEXT, "fopen");
  if (running && self && !self->inhost && p && !strcmp(p, "/proc/cpuinfo")) return cpuinfo();
  return real(p, m);
}
FILE *fopen64(char const *p, char const *m)
{
  static FILE *(*real)(char const *, char const *);
  if (!real) real = (FILE *(*)(char const *, char const *))dlsym(RTLD_NEXT, "fopen64");
  if (running && self && !self->inhost && p && !strcmp(p, "/proc/cpuinfo")) return cpuinfo();
  return real(p, m);
}
}
