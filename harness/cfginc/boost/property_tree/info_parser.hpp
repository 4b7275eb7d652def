#pragma once
#include "ptree.hpp"
namespace boost { namespace property_tree {
inline void read_info(const std::string& file, ptree& t) { if (!se_cfg_open(file)) throw ptree_error("cannot open file"); t.prefix = ""; }
inline void read_info(const char* file, ptree& t) { read_info(std::string(file), t); }
} }
