#pragma once
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
int64_t sx_range(const char* name, int64_t lo, int64_t hi);
uint64_t sx_bits(const char* name, int width);
double sx_double(const char* name);
float sx_float(const char* name);
double sx_dyadic(const char* name, int64_t lo, int64_t hi, int exp);
int64_t sx_concretize(int64_t v);
double sx_concretize_d(double v);
void sx_assume(int c);
void sx_assert(int c, const char* label);
int sx_near(double x, double y, double tol);
void sx_observe_i(const char* label, int64_t v);
void sx_observe_d(const char* label, double v);
void sx_reach(const char* label);
int sx_symbolic(void);
int64_t sx_live_heap(void);
void sx_kill(void) __attribute__((noreturn));
int sx_is_freed(const void* p);
void sx_print(const char* label, ...);
#ifdef __cplusplus
}
#endif
