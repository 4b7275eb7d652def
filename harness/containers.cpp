// P28: amat::Array2d, its views and the prefix sum, against a plain model, over every short history of operations with any contents.
#include <vector>
#include <iostream>
#include "se.hpp"
#include "utilities/aarray2d.hpp"
#include "utilities/helper_algorithms.hpp"
using namespace fvens;
template<class T> struct Sym; 
template<> struct Sym<freal> { static freal any(int k) { return se_real(lab("v%", k)); } static void eq(freal a, freal b, const char* l) { se_assert_eq(a, b, l); } static double obs(freal a) { return a; } };
template<> struct Sym<fint> { static fint any(int k) { return (fint)se_int(lab("v%", k), -1000000000, 1000000000); } static void eq(fint a, fint b, const char* l) { se_assert_ieq(a, b, l); } static double obs(fint) { return 0; } };
template<class T> struct Model { int r, c; bool def; T e[12]; Model() : r(0), c(0), def(true) {} };
static int fresh = 0;
template<class T> static void fill(amat::Array2d<T>& a, Model<T>& m) { for (int i = 0; i < m.r; i++) for (int j = 0; j < m.c; j++) a(i,j) = m.e[i*m.c+j] = Sym<T>::any(fresh++); m.def = true; }
template<class T> static void same(const amat::Array2d<T>& a, const Model<T>& m, bool entries = true) {
  se_assert_ieq(a.rows(), m.r, "number of rows"); se_assert_ieq(a.cols(), m.c, "number of columns"); se_assert_ieq(a.msize(), m.r*m.c, "number of entries"); if (!entries || !m.def) return; amat::Array2d<T>& b = const_cast<amat::Array2d<T>&>(a);
  for (int i = 0; i < m.r; i++) for (int j = 0; j < m.c; j++) { const T x = m.e[i*m.c+j]; Sym<T>::eq(a(i,j), x, "entry"); Sym<T>::eq(b(i,j), x, "entry"); Sym<T>::eq(a.get(i,j), x, "entry by get"); Sym<T>::eq(a.const_row_pointer(i)[j], x, "entry by row"); Sym<T>::eq(b.row_pointer(i)[j], x, "entry by row"); if (j == 0) { Sym<T>::eq(a(i), x, "first column"); Sym<T>::eq(a.get(i), x, "first column"); } }
  if (m.r > 0 && m.c > 0) { amat::Array2dView<T> v(&a(0,0), m.r, m.c); amat::Array2dMutableView<T> w(&b(0,0), m.r, m.c); se_assert_ieq(v.rows(), m.r, "rows of the view"); se_assert_ieq(v.cols(), m.c, "columns of the view"); se_assert_ieq(w.rows(), m.r, "rows of the view"); se_assert_ieq(w.cols(), m.c, "columns of the view"); for (int i = 0; i < m.r; i++) for (int j = 0; j < m.c; j++) { se_assert(&v(i,j) == &a(i,j), "view addresses the entry"); se_assert(&w(i,j) == &a(i,j), "mutable view addresses the entry"); } }
}
template<class T> static void write(amat::Array2d<T>& a, Model<T>& m, const char* nm) { if (m.r*m.c == 0 || !m.def) return; int i = (int)se_choose(lab("% row", fresh), 0, m.r-1), j = (int)se_choose(lab("% col", fresh), 0, m.c-1), how = (int)se_choose(lab("% how", fresh), 0, 2); (void)nm; T x = Sym<T>::any(fresh++); if (how == 0) a(i,j) = x; else if (how == 1) a.row_pointer(i)[j] = x; else { amat::Array2dMutableView<T> w(&a(0,0), m.r, m.c); w(i,j) = x; } m.e[i*m.c+j] = x; }
template<class T> static void history() {
  fresh = 0; amat::Array2d<T> a, b((fint)se_param("br", 1), (fint)se_param("bc", 2)); Model<T> ma, mb; same(a, ma); mb.r = (int)se_param("br", 1); mb.c = (int)se_param("bc", 2); mb.def = false; same(b, mb); fill(b, mb);
  const int n = (int)se_param("steps", 3); 
  for (int s = 0; s < n; s++) {
    long op = s == 0 && se_param("first", -1) >= 0 ? se_param("first", 0) : se_choose(lab("op%", s), 0, 8);
    if (op == 0) { int r = (int)se_choose(lab("nr%", s), 0, 2), c = (int)se_choose(lab("nc%", s), 1, 2); a.resize(r, c); ma.r = r; ma.c = c; ma.def = false; same(a, ma); fill(a, ma); }
    else if (op == 1) { a = b; ma = mb; }
    else if (op == 2) { b = a; mb = ma; }
    else if (op == 3) { amat::Array2d<T>& r = a; a = r; }
    else if (op == 4) { amat::Array2d<T> c(a); Model<T> mc = ma; same(c, mc); write(c, mc, "c"); same(c, mc); b = c; mb = mc; }
    else if (op == 5) { amat::Array2d<T> c(static_cast<amat::Array2d<T>&&>(a)); Model<T> mc = ma; ma = Model<T>(); same(c, mc); same(a, ma); b = c; mb = mc; }
    else if (op == 6) { a.zeros(); for (int i = 0; i < 12; i++) ma.e[i] = T(0); if (ma.r*ma.c) ma.def = true; }
    else if (op == 7) { b.ones(); for (int i = 0; i < 12; i++) mb.e[i] = T(1); if (mb.r*mb.c) mb.def = true; }
    else { T buf[12]; for (int i = 0; i < mb.r*mb.c; i++) buf[i] = mb.e[i] = Sym<T>::any(fresh++); b.setdata(buf, mb.r*mb.c); mb.def = true; }
    write(a, ma, "a"); same(a, ma); same(b, mb); write(b, mb, "b"); same(a, ma); same(b, mb);
  }
  if (ma.r*ma.c && ma.def) se_observe(Sym<T>::obs(a(0,0)), "a00"); else se_observe(ma.r, "rows");
}
extern "C" void harness_history_real() { history<freal>(); }
extern "C" void harness_history_int() { history<fint>(); }
// shapes: each entry has its own place (row-major), up to 3 x 4
extern "C" void harness_layout() {
  int r = (int)se_choose("r", 0, 3), c = (int)se_choose("c", 1, 4); amat::Array2d<freal> a(r, c); Model<freal> m; m.r = r; m.c = c; fresh = 0; fill(a, m); same(a, m); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) se_assert(&a(i,j) == &a(0,0)+i*c+j, "row-major layout");
  amat::Array2d<fint> b(r, c); Model<fint> k; k.r = r; k.c = c; fill(b, k); same(b, k); a.zeros(); b.ones(); for (int i = 0; i < 12; i++) { m.e[i] = 0; k.e[i] = 1; } same(a, m); same(b, k); se_observe(r, "r");
}
extern "C" void harness_prefix_sum() {
  int n = (int)se_choose("n", 0, 6); std::vector<fint> v(n); for (int i = 0; i < n; i++) v[i] = (fint)se_int(lab("x%", i), -1000000, 1000000); const std::vector<fint> w(v); std::vector<fint> s = inclusive_scan(w); std::vector<fint> z(v); inclusive_scan(z); long t = 0; se_assert_ieq((long)s.size(), n, "length"); se_assert_ieq((long)z.size(), n, "length");
  for (int i = 0; i < n; i++) { t += v[i]; se_assert_ieq(s[i], t, "prefix sum"); se_assert_ieq(z[i], t, "prefix sum in place"); se_assert_ieq(w[i], v[i], "argument unchanged"); } se_observe(n, "n");
}
