// Settings of the run, as pairs of a path and a text.  In the text "@k" stands for the k-th (symbolic) real number and "#k" for the k-th integer.
#pragma once
#include <string>
#include <vector>
extern double se_cfg_real[64]; extern long se_cfg_int[64];
const std::string* se_cfg_find(const std::string& path); bool se_cfg_open(const std::string& file); void se_cfg_clear(); void se_cfg_drop(const std::string& path); void se_cfg_put(const std::string& path, const std::string& text);
bool se_cfg_number(const std::string& t, double& d, long& i, bool& isreal);
inline bool se_cfg_value(const std::string& t, std::string& v) { v = t; return true; }
inline bool se_cfg_value(const std::string& t, double& v) { double d; long i; bool r; if (!se_cfg_number(t, d, i, r)) return false; v = r ? d : (double)i; return true; }
inline bool se_cfg_value(const std::string& t, int& v) { double d; long i; bool r; if (!se_cfg_number(t, d, i, r) || r) return false; v = (int)i; return true; }
inline bool se_cfg_value(const std::string& t, bool& v) { if (t == "true" || t == "1") v = true; else if (t == "false" || t == "0") v = false; else return false; return true; }
