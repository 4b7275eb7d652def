#include "se_cfg.hpp"
double se_cfg_real[64]; long se_cfg_int[64];
static std::string paths[96], texts[96]; static int n = 0;
void se_cfg_clear() { n = 0; }
static void put1(const std::string& p, const std::string& t) { for (int i = 0; i < n; i++) if (paths[i] == p) { if (!t.empty()) texts[i] = t; return; } paths[n] = p; texts[n] = t; n++; }
void se_cfg_put(const std::string& p, const std::string& t) { for (size_t i = 0; i < p.size(); i++) if (p[i] == '.') put1(p.substr(0, i), ""); put1(p, t); } // the sections of a path exist
const std::string* se_cfg_find(const std::string& p) { for (int i = 0; i < n; i++) if (paths[i] == p) return &texts[i]; return nullptr; }
bool se_cfg_open(const std::string& f) { return f == "control"; }
void se_cfg_drop(const std::string& p) { for (int i = 0; i < n; i++) if (paths[i] == p) { for (int k = i+1; k < n; k++) { paths[k-1] = paths[k]; texts[k-1] = texts[k]; } n--; return; } }
static long idx(const std::string& t) { long v = 0; for (size_t i = 1; i < t.size(); i++) v = 10*v+(t[i]-'0'); return v; }
bool se_cfg_number(const std::string& t, double& d, long& i, bool& r) {
  if (t.empty()) return false;
  if (t[0] == '@') { d = se_cfg_real[idx(t)]; i = 0; r = true; return true; }
  if (t[0] == '#') { i = se_cfg_int[idx(t)]; d = 0; r = false; return true; }
  size_t k = 0; bool neg = false, any = false; if (t[0] == '-' || t[0] == '+') { neg = t[0] == '-'; k = 1; }
  i = 0; r = false; for (; k < t.size() && t[k] >= '0' && t[k] <= '9'; k++) { i = 10*i+(t[k]-'0'); any = true; }
  if (k < t.size() && t[k] == '.') { r = true; d = (double)i; double s = 0.1; for (k++; k < t.size() && t[k] >= '0' && t[k] <= '9'; k++) { d += s*(t[k]-'0'); s *= 0.1; any = true; } if (neg) d = -d; }
  if (neg) i = -i; return any && k == t.size(); }
