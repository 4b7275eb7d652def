// Harness interface.  In the symbolic run these functions are interpreted by the engine;
// in the native run they are provided by se_native.cpp and read one concrete input assignment.
#pragma once
extern "C" {
int se_symbolic();
double se_real(const char* name);                       // any real
double se_pos(const char* name);                        // any positive real
double se_range(const char* name, double lo, double hi);
void se_unit2(const char* name, double* x, double* y);  // any unit vector
long se_int(const char* name, long lo, long hi);        // symbolic integer
long se_choose(const char* name, long lo, long hi);     // integer, one path per value
long se_concretize(long);
long se_param(const char* name, long dflt);             // parameter of the run (not symbolic)
void se_assume(bool);
void se_assume_lt(double, double);
void se_assume_le(double, double);
void se_assert(bool, const char* label);
void se_assert_eq(double, double, const char* label);
void se_assert_le(double, double, const char* label);
void se_assert_lt(double, double, const char* label);
void se_assert_ieq(long, long, const char* label);
void se_observe(double, const char* label);
void se_check_div(int);
double se_uf(const char* name, long n, const double* args);   // uninterpreted function
double se_diff(double e, double x);                     // symbolic derivative (engine only)
void se_print(double, const char*);
double se_simplify(double);
double se_abstract(double, const char*);
}
#include <cstdio>
struct Lab { char s[160]; operator const char*() const { return s; } };
template<class... A> inline Lab lab(const char* f, A... a) { // tiny formatter: %  is replaced by integers in order
  Lab l; int n = 0; long v[sizeof...(A) + 1] = {(long)a..., 0}; int k = 0;
  for (const char* p = f; *p && n < 150; p++) {
    if (*p == '%') { long x = v[k++]; if (x < 0) { l.s[n++] = '-'; x = -x; } char d[24]; int m = 0; do { d[m++] = '0' + x % 10; x /= 10; } while (x); while (m) l.s[n++] = d[--m]; }
    else l.s[n++] = *p;
  }
  l.s[n] = 0; return l;
}
// Jacobian J[o*NI+i] of out = f(x): symbolic derivative in the engine, central differences natively.
template<int NI, int NO, class F> inline void se_jacobian(F f, const double* x, double* out, double* J) {
  f(x, out);
  if (se_symbolic()) { for (int o = 0; o < NO; o++) for (int i = 0; i < NI; i++) J[o*NI+i] = se_diff(out[o], x[i]); }
  else {
    double xp[NI], op[NO], om[NO], J2[NO], hs = 1e-3; for (long k = se_param("fdh", 0); k > 0; k--) hs *= 0.1;
    for (int i = 0; i < NI; i++) {
      double ax = x[i] < 0 ? -x[i] : x[i], h = hs*(ax > 0.05 ? ax : 0.05);
      for (int s = 0; s < 2; s++) {
        for (int k = 0; k < NI; k++) xp[k] = x[k];
        xp[i] = x[i]+h; f(xp, op); xp[i] = x[i]-h; f(xp, om);
        for (int o = 0; o < NO; o++) { double d = (op[o]-om[o])/(2*h); if (s == 0) J2[o] = d; else J[o*NI+i] = (4*d-J2[o])/3; }
        h *= 0.5;
      }
    }
    f(x, out);
  }
}
