// Native run of a harness at one concrete input assignment:  prog <harness> <inputs-file> [name=value params...]
// Prints every assertion with both sides; exit status is 0 unless the harness itself crashed.
#include "se.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <map>
#include <string>
#include <dlfcn.h>
#include <exception>
#include "../engine/omptrack.hpp"
static std::map<std::string,double> in; static std::map<std::string,long> par;
static double tol = 1e-7; static double extol = 0;
static OmpTrack omp;
extern "C" {
void __se_fork(const char* n) { omp.fork(n); }
long __se_join() { return omp.join(); }
void __se_iter_begin() { omp.begin(); }
void __se_iter_end() { omp.end(); }
void __se_barrier() { omp.barrier(); }
void __se_lock(void* l) { omp.lock((uint64_t)l); }
void __se_unlock(void* l) { omp.unlock((uint64_t)l); }
void __se_reduced(void* p, long n) { omp.reduced((uint64_t)p, n); }
void __se_mem(void* p, long n, long f) { omp.access((uint64_t)p, n, f & 1, f & 2); }
void __se_stackvar(void* p, long n) { omp.stackvar((uint64_t)p, n); }
void __se_heapvar(void* p, long n) { omp.heap((uint64_t)p, n); }
void __se_scope(void* p, long n) { omp.scope((uint64_t)p, n); }
int se_symbolic() { return 0; }
static double get(const char* n) { auto it = in.find(n); return it == in.end() ? 1.0 : it->second; }
double se_real(const char* n) { return get(n); }
double se_pos(const char* n) { return get(n); }
double se_range(const char* n, double lo, double hi) { if (!in.count(n)) return 0.5*(lo+hi); return get(n); }
void se_unit2(const char* n, double* x, double* y) { std::string s = n; if (!in.count(s+"x")) { *x = 0.6; *y = 0.8; return; } *x = get((s+"x").c_str()); *y = get((s+"y").c_str()); double l = std::sqrt(*x**x+*y**y); if (l > 0) { *x /= l; *y /= l; } }
static long geti(const char* n, long lo) { if (par.count(n)) return par[n]; return in.count(n) ? (long)in[n] : lo; }
long se_int(const char* n, long lo, long) { return geti(n, lo); }
long se_choose(const char* n, long lo, long) { return geti(n, lo); }
long se_concretize(long x) { return x; }
long se_param(const char* n, long d) { return par.count(n) ? par[n] : d; }
void se_assume(bool c) { if (!c) { printf("ASSUME violated\n"); fflush(stdout); _Exit(0); } }
void se_assume_lt(double a, double b) { if (!(a < b)) { printf("ASSUME violated %.17g < %.17g\n", a, b); } }
void se_assume_le(double a, double b) { if (!(a <= b+1e-12*std::fabs(b))) { printf("ASSUME violated %.17g <= %.17g\n", a, b); } }
void se_assert(bool c, const char* l) { printf("%s\t%s\n", c ? "ok" : "FAIL", l); }
static double scale(double a, double b) { double s = std::fabs(a) > std::fabs(b) ? std::fabs(a) : std::fabs(b); return s > 1e-2 ? s : 1e-2; }
void se_assert_eq(double a, double b, const char* l) { bool ok = std::fabs(a-b) <= tol*scale(a, b); printf("%s\t%s\t%.17g\t%.17g\n", ok ? "ok" : "FAIL", l, a, b); }
void se_assert_le(double a, double b, const char* l) { bool ok = a <= b+tol*scale(a, b); printf("%s\t%s\t%.17g\t<=\t%.17g\n", ok ? "ok" : "FAIL", l, a, b); }
void se_assert_lt(double a, double b, const char* l) { bool ok = a < b+tol*scale(a, b); printf("%s\t%s\t%.17g\t<\t%.17g\n", ok ? "ok" : "FAIL", l, a, b); }
void se_assert_ieq(long a, long b, const char* l) { printf("%s\t%s\t%ld\t%ld\n", a == b ? "ok" : "FAIL", l, a, b); }
void se_observe(double v, const char* l) { printf("obs\t%s\t%.17g\n", l, v); }
void se_check_div(int) {}
double se_uf(const char* name, long n, const double* a) {
  unsigned h = 2166136261u; for (const char* c = name; *c; c++) h = (h^(unsigned char)*c)*16777619u;
  double s = (h%97)/97.0+0.3;
  for (long k = 0; k < n; k++) { unsigned g = (h^(unsigned)(k*2654435761u))*16777619u; double c = ((g>>5)%89)/89.0+0.2, d = ((g>>13)%83)/166.0-0.2; s += c*a[k]+d*a[k]*a[k]; }
  return s;
}
double se_diff(double, double) { abort(); }
void se_print(double v, const char* l) { printf("print\t%s\t%.17g\n", l, v); }
double se_simplify(double x) { return x; }
double se_abstract(double x, const char*) { return x; }
}
int main(int argc, char** argv) {
  if (argc < 3) return 3;
  for (int i = 3; i < argc; i++) { char* e = strchr(argv[i], '='); if (e) { std::string n(argv[i], e-argv[i]); if (n == "tol") tol = atof(e+1); else par[n] = atol(e+1); } }
  if (FILE* f = fopen(argv[2], "r")) { char n[256]; double v; while (fscanf(f, "%255s %lf", n, &v) == 2) in[n] = v; fclose(f); }
  void (*fn)() = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
  if (!fn) { fprintf(stderr, "no harness %s\n", argv[1]); return 3; }
  setvbuf(stdout, nullptr, _IOLBF, 0);
  try { fn(); } catch (std::exception& e) { printf("FAIL\tuncaught exception\t%s\n", e.what()); } catch (...) { printf("FAIL\tuncaught exception\n"); }
  printf("DONE\n"); fflush(stdout); _Exit(0);
}
