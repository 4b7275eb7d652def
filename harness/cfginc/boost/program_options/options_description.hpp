// Stand-in for Boost.Program_options: long options with typed values, other arguments ignored.
#pragma once
#include <string>
#include <vector>
#include <ostream>
#include <stdexcept>
#include "../../../se_cfg.hpp"
namespace boost { namespace program_options {
struct error : public std::logic_error { error(const std::string& w) : std::logic_error(w) { } };
enum { SE_FLAG, SE_STRING, SE_BOOL, SE_INT, SE_REAL };
struct value_semantic { int kind; value_semantic() : kind(SE_FLAG) { } explicit value_semantic(int k) : kind(k) { } value_semantic* required() { return this; } };
template<class T> struct se_kind; template<> struct se_kind<std::string> { enum { k = SE_STRING }; }; template<> struct se_kind<bool> { enum { k = SE_BOOL }; }; template<> struct se_kind<int> { enum { k = SE_INT }; }; template<> struct se_kind<double> { enum { k = SE_REAL }; };
template<class T> inline value_semantic* value() { return new value_semantic((int)se_kind<T>::k); }
struct option_description { std::string name; int kind; };
class options_description {
public:
  std::vector<option_description> o;
  options_description() { } explicit options_description(const std::string&) { }
  struct easy_init { options_description* d;
    easy_init& operator()(const char* n, const char*) { option_description x; x.name = n; x.kind = SE_FLAG; d->o.push_back(x); return *this; }
    easy_init& operator()(const char* n, const value_semantic* v, const char* = "") { option_description x; x.name = n; x.kind = v->kind; delete v; d->o.push_back(x); return *this; } };
  easy_init add_options() { easy_init e; e.d = this; return e; }
};
inline std::ostream& operator<<(std::ostream& s, const options_description&) { return s; }
} }
