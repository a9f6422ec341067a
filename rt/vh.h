// The harness interface: executed symbolically by symx and natively by rt/native.cpp.
#pragma once
#include <cstdint>
#include <cmath>
#include <string>
#include <vector>
extern "C" {
double sym_double(const char * name);
float sym_float(const char * name);
int64_t sym_int(const char * name, int64_t lo, int64_t hi);
bool sym_bool(const char * name);
int vchoose(const char * name, int n);            // one path per value in [0, n)
void vassume(bool c);
void vassert(bool c, const char * label);
void vassert_eq(double a, double b, const char * label);
[[noreturn]] void vfail(const char * label);
void vreach(const char * label);
void vobserve(const char * name, double v);
bool vdecide(bool c);                                // decides c here
bool vand(bool a, bool b);                         // without branching
bool vor(bool a, bool b);
double vite(bool c, double a, double b);
bool v_is_real();
}
static inline std::string vname(const char * n, int i) { return std::string(n) + std::to_string(i); }
static inline double sym_d(const char * n, int i) { return sym_double(vname(n, i).c_str()); }
static inline double sym_range(const char * n, double lo, double hi) { double x = sym_double(n); vassume(vand(x >= lo, x <= hi)); return x; }
static inline double sym_range_i(const char * n, int i, double lo, double hi) { return sym_range(vname(n, i).c_str(), lo, hi); }
static inline bool vimplies(bool a, bool b) { return vor(!a, b); }
