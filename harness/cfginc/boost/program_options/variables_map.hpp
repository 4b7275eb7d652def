#pragma once
#include "options_description.hpp"
namespace boost { namespace program_options {
class variable_value { public: std::string text; int kind; bool set; variable_value() : kind(SE_FLAG), set(false) { } bool empty() const { return !set; }
  template<class T> T as() const { if (!set || kind != (int)se_kind<T>::k) throw error("bad any_cast"); T v = T(); if (!se_cfg_value(text, v)) throw error("invalid option value"); return v; } };
class variables_map { public: std::vector<std::string> names; std::vector<variable_value> vals; variable_value none;
  size_t count(const std::string& n) const { for (size_t i = 0; i < names.size(); i++) if (names[i] == n) return 1; return 0; }
  const variable_value& operator[](const std::string& n) const { for (size_t i = 0; i < names.size(); i++) if (names[i] == n) return vals[i]; return none; } };
inline void notify(variables_map&) { }
} }
