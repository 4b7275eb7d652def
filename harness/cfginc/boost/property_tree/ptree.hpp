// Stand-in for Boost.PropertyTree: paths mapped to the text of their values; numbers in the text may be symbolic (see se_cfg.hpp).
#pragma once
#include <string>
#include <stdexcept>
#include <boost/optional.hpp>
#include "../../../se_cfg.hpp"
namespace boost { namespace property_tree {
struct ptree_error : public std::runtime_error { ptree_error(const std::string& w) : std::runtime_error(w) { } };
struct ptree_bad_path : public ptree_error { ptree_bad_path(const std::string& w) : ptree_error(w) { } };
struct ptree_bad_data : public ptree_error { ptree_bad_data(const std::string& w) : ptree_error(w) { } };
class ptree {
public:
  std::string prefix; ptree() { } explicit ptree(const std::string& p) : prefix(p) { }
  template<class T> boost::optional<T> get_optional(const std::string& path) const { const std::string* s = se_cfg_find(prefix+path); T v = T(); if (!s || !se_cfg_value(*s, v)) return boost::optional<T>(); return boost::optional<T>(v); }
  template<class T> T get(const std::string& path) const { const std::string* s = se_cfg_find(prefix+path); if (!s) throw ptree_bad_path("No such node"); T v = T(); if (!se_cfg_value(*s, v)) throw ptree_bad_data("conversion of data failed"); return v; }
  template<class T> T get(const std::string& path, const T& d) const { boost::optional<T> o = get_optional<T>(path); return o ? *o : d; }
  std::string get(const std::string& path, const char* d) const { return get<std::string>(path, std::string(d)); }
  template<class T> T get_value() const { return get<T>(""); }
  ptree get_child(const std::string& path) const { if (!se_cfg_find(prefix+path)) throw ptree_bad_path("No such node"); return ptree(prefix+path+"."); }
  boost::optional<ptree> get_child_optional(const std::string& path) const { if (!se_cfg_find(prefix+path)) return boost::optional<ptree>(); return boost::optional<ptree>(ptree(prefix+path+".")); }
  size_t count(const std::string& key) const { return se_cfg_find(prefix+key) ? 1 : 0; }
};
} }
