// Native replay of a harness on concrete inputs found by the solver.
#include "vh.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <string>
#include <vector>
#include <dlfcn.h>
#include <unistd.h>
struct In { std::string name; char kind; uint64_t bits; };
static bool g_tight = false; static std::vector<In> ins; static size_t pos;
static uint64_t next(const char * n, char kind) {
  if (pos >= ins.size()) { printf("DIVERGED: no more inputs at %s\n", n); fflush(stdout); _exit(3); }
  In & i = ins[pos++];
  if (i.name != n || i.kind != kind) { printf("DIVERGED: expected %s got %s\n", i.name.c_str(), n); fflush(stdout); _exit(3); }
  return i.bits;
}
static double asd(uint64_t u) { double d; memcpy(&d, &u, 8); return d; }
extern "C" {
double sym_double(const char * n) { return asd(next(n, 'd')); }
float sym_float(const char * n) { uint32_t u = (uint32_t)next(n, 'f'); float f; memcpy(&f, &u, 4); return f; }
int64_t sym_int(const char * n, int64_t lo, int64_t hi) { int64_t v = (int64_t)next(n, 'i'); if (v < lo || v > hi) _exit(2); return v; }
bool sym_bool(const char * n) { return next(n, 'b') & 1; }
int vchoose(const char * n, int k) { int v = (int)next(n, 'c'); if (v < 0 || v >= k) _exit(2); return v; }
void vassume(bool c) { if (!c) { printf("ASSUME-FAILED\n"); fflush(stdout); _exit(2); } }
void vfail(const char * l) { printf("ASSERT-FAILED %s\n", l); fflush(stdout); _exit(77); }
void vassert(bool c, const char * l) { if (!c) vfail(l); }
void vassert_eq(double a, double b, const char * l) {
  if (a == b || (std::isnan(a) && std::isnan(b))) return;
  double m = std::fmax(1.0, std::fmax(std::fabs(a), std::fabs(b)));
  if (!v_is_real() || !(std::fabs(a - b) <= (g_tight ? 1e-10 : 1e-6) * m)) { printf("ASSERT-FAILED %s: %.17g is not %.17g\n", l, a, b); fflush(stdout); _exit(77); }
}
void vreach(const char *) {}
void vobserve(const char * n, double v) { printf("OBS %s %.17g\n", n, v); }
bool vdecide(bool c) { return c; }
bool vand(bool a, bool b) { return a && b; }
bool vor(bool a, bool b) { return a || b; }
double vite(bool c, double a, double b) { return c ? a : b; }
static bool g_real = true;
bool v_is_real() { return g_real; }
}
int main(int argc, char ** argv) {
  if (argc < 3) { printf("usage: %s ENTRY INPUTS\n", argv[0]); return 2; }
  if (argc > 3 && !strcmp(argv[3], "fp")) g_real = false;
  FILE * f = fopen(argv[2], "r"); if (!f) { perror("inputs"); return 2; }
  char line[4096];
  while (fgets(line, sizeof line, f)) {
    char n[1024], k; unsigned long long b;
    if (!strncmp(line, "mode fp", 7)) g_real = false;
    if (!strncmp(line, "tight", 5)) g_tight = true;
    if (line[0] == 'v' && sscanf(line, "v %1000s %c %llx", n, &k, &b) == 3) if (strncmp(n, "uninit", 6)) ins.push_back({n, k, b});
  }
  fclose(f);
  auto * e = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
  if (!e) { printf("no entry %s\n", argv[1]); return 2; }
  std::set_terminate([] { 
    printf("TERMINATE: uncaught exception\n");
    if (auto p = std::current_exception()) { try { std::rethrow_exception(p); } catch (std::exception & x) { printf("what: %s\n", x.what()); } catch (...) {} }
    fflush(stdout); _exit(78); });
  e();
  fflush(stdout);
  _exit(0);
}
