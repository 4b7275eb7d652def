#pragma once
#include <string>
#include <vector>
#include <iostream>
#include <iomanip>
#include "se.hpp"
// one element of a file: a character, an integer or a real number (with the precision it was written with; 0: exact)
struct SeItem { enum K { CH, INT, REAL } k; long i; double r; int prec; };
struct SeFile { std::string name; std::vector<SeItem> it;
  void ch(char c) { SeItem x; x.k = SeItem::CH; x.i = c; x.r = 0; x.prec = 0; it.push_back(x); }
  void text(const char* s) { for (; *s; s++) ch(*s); }
  void text(const std::string& s) { for (size_t i = 0; i < s.size(); i++) ch(s[i]); }
  void num(long v) { SeItem x; x.k = SeItem::INT; x.i = v; x.r = 0; x.prec = 0; it.push_back(x); }
  void real(double v, int p = 0) { SeItem x; x.k = SeItem::REAL; x.i = 0; x.r = v; x.prec = p; it.push_back(x); } 
  void digits(long v) { if (v < 0) { ch('-'); v = -v; } char b[24]; int n = 0; do { b[n++] = (char)('0'+v%10); v /= 10; } while (v); while (n) ch(b[--n]); } };
extern SeFile se_files[16]; extern int se_nfiles; extern int se_glued; // se_glued: numbers written or read without anything between them
SeFile* se_file(const std::string& name, bool create); void se_files_clear();
inline bool se_ws(const SeItem& x) { return x.k == SeItem::CH && (x.i == ' ' || x.i == '\n' || x.i == '\t' || x.i == '\r'); }
namespace std {
class se_ofstream {
public:
  SeFile* f; int prec; enum openmode_t { app = 1, out = 2, trunc = 4 };
  se_ofstream() : f(nullptr), prec(6) { } explicit se_ofstream(const std::string& n) : f(nullptr), prec(6) { open(n); } explicit se_ofstream(const char* n) : f(nullptr), prec(6) { open(std::string(n)); }
  void open(const std::string& n, int mode = 2) { f = se_file(n, true); if (!(mode & app)) f->it.clear(); } void open(const char* n, int mode = 2) { open(std::string(n), mode); }
  void close() { f = nullptr; } bool is_open() const { return f != nullptr; } bool good() const { return f != nullptr; } bool operator!() const { return !f; } explicit operator bool() const { return f != nullptr; } operator std::ostream&() { return std::cout; } void flush() { } std::streamsize precision(std::streamsize p) { int q = prec; prec = (int)p; return q; }
};
inline se_ofstream& operator<<(se_ofstream& o, const char* s) { if (o.f) o.f->text(s); return o; }
inline se_ofstream& operator<<(se_ofstream& o, const std::string& s) { if (o.f) o.f->text(s); return o; }
inline se_ofstream& operator<<(se_ofstream& o, char c) { if (o.f) o.f->ch(c); return o; }
inline se_ofstream& operator<<(se_ofstream& o, int v) { if (o.f) o.f->num(v); return o; }
inline se_ofstream& operator<<(se_ofstream& o, unsigned v) { if (o.f) o.f->num(v); return o; }
inline se_ofstream& operator<<(se_ofstream& o, long v) { if (o.f) o.f->num(v); return o; }
inline se_ofstream& operator<<(se_ofstream& o, unsigned long v) { if (o.f) o.f->num((long)v); return o; }
inline se_ofstream& operator<<(se_ofstream& o, double v) { if (o.f) o.f->real(v, o.prec); return o; }
inline se_ofstream& operator<<(se_ofstream& o, std::_Setprecision p) { o.prec = p._M_n; return o; }
inline se_ofstream& operator<<(se_ofstream& o, std::_Setw) { if (o.f) o.f->ch(' '); return o; }
inline se_ofstream& operator<<(se_ofstream& o, std::ostream& (*m)(std::ostream&)) { if (o.f && m == static_cast<std::ostream& (*)(std::ostream&)>(std::endl)) o.f->ch('\n'); return o; }
inline se_ofstream& operator<<(se_ofstream& o, std::ios_base& (*)(std::ios_base&)) { return o; }
template<class T> se_ofstream& operator<<(se_ofstream&& o, const T& v) { return static_cast<se_ofstream&>(o) << v; }
class se_ifstream {
public:
  SeFile* f; size_t p; bool bad, end;
  se_ifstream() : f(nullptr), p(0), bad(false), end(false) { } explicit se_ifstream(const std::string& n) : f(nullptr), p(0), bad(false), end(false) { open(n); } explicit se_ifstream(const char* n) : f(nullptr), p(0), bad(false), end(false) { open(std::string(n)); }
  void open(const std::string& n) { f = se_file(n, false); p = 0; bad = !f; end = false; } void open(const char* n) { open(std::string(n)); }
  void close() { f = nullptr; } bool is_open() const { return f != nullptr; } bool good() const { return !bad && !end; } bool fail() const { return bad; } bool eof() const { return end; } bool operator!() const { return bad; } explicit operator bool() const { return !bad; } void clear() { bad = end = false; }
  int get() { if (!f || p >= f->it.size()) { end = bad = true; return -1; } const SeItem& x = f->it[p++]; return x.k == SeItem::CH ? (int)x.i : '1'; }
  se_ifstream& get(char& c) { int x = get(); if (!bad) c = (char)x; return *this; } int peek() { if (!f || p >= f->it.size()) { end = true; return -1; } const SeItem& x = f->it[p]; return x.k == SeItem::CH ? (int)x.i : '1'; }
  se_ifstream& ignore(std::streamsize n = 1, int d = -1) { for (std::streamsize i = 0; i < n && f && p < f->it.size(); i++) { const SeItem& x = f->it[p++]; if (d >= 0 && x.k == SeItem::CH && x.i == d) break; } return *this; }
  bool skip() { if (!f || bad) { bad = true; return false; } while (p < f->it.size() && se_ws(f->it[p])) p++; if (p >= f->it.size()) { end = bad = true; return false; } return true; }
  // next number: an item, or characters spelling an integer
  bool number(long& v, double& d, bool& isreal) { if (!skip()) return false; const SeItem& x = f->it[p]; if (x.k != SeItem::CH) { p++; if (p < f->it.size() && (f->it[p].k != SeItem::CH || (f->it[p].i >= '0' && f->it[p].i <= '9'))) se_glued++; isreal = x.k == SeItem::REAL; v = x.i; d = isreal ? (x.prec && x.prec < 17 ? se_rounded(x.prec, x.r) : x.r) : (double)0; return true; }
    bool neg = false; if (x.i == '-' || x.i == '+') { neg = x.i == '-'; p++; } bool any = false; v = 0; isreal = false; while (p < f->it.size() && f->it[p].k == SeItem::CH && f->it[p].i >= '0' && f->it[p].i <= '9') { v = 10*v + (f->it[p].i-'0'); p++; any = true; }
    if (p < f->it.size() && f->it[p].k == SeItem::CH && f->it[p].i == '.') { isreal = true; p++; d = (double)v; double s = 0.1; while (p < f->it.size() && f->it[p].k == SeItem::CH && f->it[p].i >= '0' && f->it[p].i <= '9') { d += s*(double)(f->it[p].i-'0'); s *= 0.1; p++; any = true; } if (neg) d = -d; }
    if (!any) { bad = true; return false; } if (p >= f->it.size()) end = true; if (neg) v = -v; return true; }
  static double se_rounded(int p, double x) { double a[2] = {(double)p, x}; return se_uf("rounded", 2, a); }
};
inline se_ifstream& operator>>(se_ifstream& s, long& v) { double d; bool r; long x; if (s.number(x, d, r)) { if (r) s.bad = true; else v = x; } return s; }
inline se_ifstream& operator>>(se_ifstream& s, int& v) { double d; bool r; long x; if (s.number(x, d, r)) { if (r) s.bad = true; else v = (int)x; } return s; }
inline se_ifstream& operator>>(se_ifstream& s, unsigned& v) { double d; bool r; long x; if (s.number(x, d, r)) { if (r) s.bad = true; else v = (unsigned)x; } return s; }
inline se_ifstream& operator>>(se_ifstream& s, double& v) { double d = 0; bool r; long x; if (s.number(x, d, r)) v = r ? d : (double)x; return s; }
inline se_ifstream& operator>>(se_ifstream& s, char& c) { if (s.skip()) { int x = s.get(); c = (char)x; } return s; }
inline se_ifstream& operator>>(se_ifstream& s, std::string& w) { if (!s.skip()) return s; w.clear(); while (s.p < s.f->it.size() && !se_ws(s.f->it[s.p])) { const SeItem& x = s.f->it[s.p++]; w.push_back(x.k == SeItem::CH ? (char)x.i : '#'); } if (s.p >= s.f->it.size()) s.end = true; return s; }
inline se_ifstream& getline(se_ifstream& s, std::string& w, char d = '\n') { w.clear(); if (!s.f || s.p >= s.f->it.size()) { s.end = s.bad = true; return s; } while (s.p < s.f->it.size()) { const SeItem& x = s.f->it[s.p++]; if (x.k == SeItem::CH && x.i == d) return s; w.push_back(x.k == SeItem::CH ? (char)x.i : '#'); } s.end = true; return s; }
}
