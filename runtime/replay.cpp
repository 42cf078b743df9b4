// Native replay library: the same harness is compiled with the ordinary compiler against the real code and
// driven with concrete inputs (a solver counterexample or a path witness).
#include "sx.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <dlfcn.h>
#include <exception>
#include <typeinfo>
#include <new>
static std::vector<std::string> lines; static size_t pos_ = 0; static int fails = 0; static volatile long live = 0;
static std::string next(const char* name, char kind, unsigned long long& bits) {
  while (pos_ < lines.size()) {
    char k; char nm[300]; unsigned long long v; if (sscanf(lines[pos_].c_str(), "%c %299s 0x%llx", &k, nm, &v) != 3) { pos_++; continue; }
    if (strcmp(nm, name)) { printf("SX-DIVERGE expected input %s got %s\n", name, nm); fflush(stdout); _Exit(78); }
    pos_++; bits = v; return nm; }
  printf("SX-EXHAUSTED %s\n", name); fflush(stdout); bits = 0; _Exit(79);
}
extern "C" {
int64_t sx_range(const char* n, int64_t lo, int64_t hi) { unsigned long long b; next(n, 'i', b); int64_t v = (int64_t)b; if (v < lo || v > hi) { printf("SX-RANGE %s\n", n); fflush(stdout); _Exit(77); } return v; }
uint64_t sx_bits(const char* n, int w) { unsigned long long b; next(n, 'i', b); return w >= 64 ? b : b & ((1ull << w) - 1); }
double sx_double(const char* n) { unsigned long long b; next(n, 'd', b); double d; memcpy(&d, &b, 8); return d; }
float sx_float(const char* n) { unsigned long long b; next(n, 'f', b); uint32_t x = (uint32_t)b; float f; memcpy(&f, &x, 4); return f; }
double sx_dyadic(const char* n, int64_t, int64_t, int) { return sx_double(n); }
int64_t sx_concretize(int64_t v) { return v; }
double sx_concretize_d(double v) { return v; }
void sx_assume(int c) { if (!c) { printf("SX-ASSUME-FALSE\n"); fflush(stdout); _Exit(77); } }
void sx_assert(int c, const char* l) { if (!c) { fails++; printf("SX-ASSERT-FAIL %s\n", l); fflush(stdout); } }
int sx_near(double x, double y, double tol) { if (x == y) return 1; if (x != x && y != y) return 1; return std::fabs(x - y) <= tol * (1 + std::fabs(y)); }
void sx_observe_i(const char* l, int64_t v) { printf("SX-OBS i %s 0x%llx\n", l, (unsigned long long)v); }
void sx_observe_d(const char* l, double v) { unsigned long long b; memcpy(&b, &v, 8); if (v != v) b = 0x7ff8000000000000ull; printf("SX-OBS d %s 0x%llx %.17g\n", l, b, v); }
void sx_reach(const char*) {}
int sx_symbolic(void) { return 0; }
int64_t sx_live_heap(void) { return live; }
void sx_kill(void) { printf("SX-KILL\n"); fflush(stdout); _Exit(77); }
int sx_is_freed(const void*) { return 0; }
void sx_print(const char*, ...) {}
}
#ifdef SX_ASAN
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
static void mh(const volatile void* p, size_t) { if (p) live++; } static void fh(const volatile void* p) { if (p) live--; }
#endif
int main(int argc, char** argv) {
  if (argc < 3) return 2;
  FILE* f = fopen(argv[2], "r"); if (!f) return 2; char buf[1000]; while (fgets(buf, sizeof buf, f)) if (buf[0] == 'i' || buf[0] == 'd' || buf[0] == 'f') lines.push_back(buf); fclose(f);
  void (*h)() = (void (*)())dlsym(RTLD_DEFAULT, argv[1]); if (!h) { printf("SX-NO-HARNESS\n"); return 2; }
  setvbuf(stdout, 0, _IOLBF, 0);
#ifdef SX_ASAN
  __sanitizer_install_malloc_and_free_hooks(mh, fh);
#endif
  h();
  printf("SX-DONE %d\n", fails); fflush(stdout); _Exit(fails ? 70 : 0);
}
