// Stand-in for the parts of Boost.StringAlgo that FVENS uses (the classic locale).
#pragma once
#include <string>
namespace boost {
template<class S> inline S to_upper_copy(const S& s) { S r(s); for (size_t i = 0; i < r.size(); i++) if (r[i] >= 'a' && r[i] <= 'z') r[i] = (char)(r[i]-'a'+'A'); return r; }
template<class S> inline S to_lower_copy(const S& s) { S r(s); for (size_t i = 0; i < r.size(); i++) if (r[i] >= 'A' && r[i] <= 'Z') r[i] = (char)(r[i]-'A'+'a'); return r; }
template<class S> inline void to_upper(S& s) { s = to_upper_copy(s); }
template<class S> inline void to_lower(S& s) { s = to_lower_copy(s); }
template<class S> inline S trim_copy(const S& s) { size_t a = 0, b = s.size(); while (a < b && (s[a] == ' ' || s[a] == '\t' || s[a] == '\n')) a++; while (b > a && (s[b-1] == ' ' || s[b-1] == '\t' || s[b-1] == '\n')) b--; return s.substr(a, b-a); }
}
