#pragma once
#include "variables_map.hpp"
namespace boost { namespace program_options {
struct parsed_options { std::vector<std::string> n, v; std::vector<int> k; };
class command_line_parser { public: std::vector<std::string> a; const options_description* d; bool loose;
  command_line_parser(int argc, const char* const argv[]) : d(nullptr), loose(false) { for (int i = 1; i < argc; i++) a.push_back(argv[i]); }
  command_line_parser& options(const options_description& x) { d = &x; return *this; }
  command_line_parser& allow_unregistered() { loose = true; return *this; }
  parsed_options run() { parsed_options r;
    for (size_t i = 0; i < a.size(); i++) { if (a[i].size() < 3 || a[i][0] != '-' || a[i][1] != '-') continue; std::string n = a[i].substr(2), v; bool has = false; for (size_t j = 0; j < n.size(); j++) if (n[j] == '=') { v = n.substr(j+1); n = n.substr(0, j); has = true; break; }
      const option_description* o = nullptr; for (size_t j = 0; d && j < d->o.size(); j++) if (d->o[j].name == n) o = &d->o[j];
      if (!o) { if (!loose) throw error("unrecognised option"); continue; }
      if (o->kind != SE_FLAG && !has) { if (i+1 >= a.size()) throw error("the required argument is missing"); v = a[++i]; }
      r.n.push_back(n); r.v.push_back(v); r.k.push_back(o->kind); }
    return r; } };
inline void store(const parsed_options& p, variables_map& m) { for (size_t i = 0; i < p.n.size(); i++) { if (m.count(p.n[i])) continue; variable_value x; x.text = p.v[i]; x.kind = p.k[i]; x.set = true; m.names.push_back(p.n[i]); m.vals.push_back(x); } }
} }
