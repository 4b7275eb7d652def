// Footprints of the iterations of parallel loops. Every iteration of every worksharing loop may run on its own thread, concurrently with all other
// iterations up to the next barrier; code of a parallel region outside loops is run by every thread. Shared by the executor and the native replay.
#ifndef OMPTRACK_HPP
#define OMPTRACK_HPP
#include <cstdint>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>
struct OmpTrack {
  struct Acc { long it; uint64_t lock; bool write, atomic; };
  struct Flow { long writer = 0; bool dep = false; };
  static constexpr long OUT = -1;
  bool on = false; long it = OUT, next = 1; int depth = 0, nest = 0; std::vector<uint64_t> locks; std::string name; long conflicts = 0; std::string first;
  std::unordered_map<uint64_t, std::vector<Acc>> sh; std::unordered_map<uint64_t, Flow> pr; std::map<uint64_t, uint64_t> priv; std::set<uint64_t> merged; std::vector<uint64_t> deps;
  void fork(const char* n) { if (depth++) return; on = true; it = OUT; nest = 0; next = 1; locks.clear(); name = n; conflicts = 0; first.clear(); sh.clear(); pr.clear(); priv.clear(); merged.clear(); deps.clear(); }
  long join() { if (--depth) return 0; on = false; for (uint64_t b : deps) if (!merged.count(b)) { conflicts++; if (first.empty()) first = "a value left in a thread's private variable by one iteration is used by another"; break; } return conflicts; }
  void begin() { if (on && nest++ == 0) it = next++; }
  void end() { if (on && --nest == 0) it = OUT; }
  void barrier() { if (on) sh.clear(); }
  void lock(uint64_t l) { if (on) locks.push_back(l); }
  void unlock(uint64_t) { if (on && !locks.empty()) locks.pop_back(); }
  void forget(uint64_t a, uint64_t n) { for (uint64_t b = a; b < a+n; b++) { sh.erase(b); pr.erase(b); } }
  void stackvar(uint64_t a, uint64_t n) { if (!on || !n) return; forget(a, n); auto i = priv.lower_bound(a); while (i != priv.end() && i->first < a+n) i = priv.erase(i); if (i != priv.begin()) { --i; if (i->first+i->second > a) { i->second = a-i->first; } } priv[a] = n; }
  void heap(uint64_t a, uint64_t n) { if (on) forget(a, n); }
  void scope(uint64_t a, uint64_t n) { if (on) for (uint64_t b = a; b < a+n && n < 100000; b++) pr.erase(b); }
  void reduced(uint64_t a, uint64_t n) { if (on) for (uint64_t b = a; b < a+n; b++) merged.insert(b); }
  bool isPrivate(uint64_t a) { auto i = priv.upper_bound(a); if (i == priv.begin()) return false; --i; return a < i->first+i->second; }
  void access(uint64_t a, uint64_t n, bool write, bool atomic) {
    if (!on) return;
    if (isPrivate(a)) { for (uint64_t b = a; b < a+n; b++) { Flow& f = pr[b]; if (write) f.writer = it; else if (it == OUT) { merged.insert(b); } else if (f.writer > 0 && f.writer != it && !f.dep) { f.dep = true; deps.push_back(b); } } return; }
    const uint64_t L = locks.empty() ? 0 : locks.back();
    for (uint64_t b = a; b < a+n; b++) { std::vector<Acc>& v = sh[b]; int same = 0; bool known = false;
      for (const Acc& x : v) { const bool other = x.it != it || it == OUT; if (other && (x.write || write) && !(x.atomic && atomic) && !(L && x.lock == L)) { conflicts++; if (first.empty()) first = write && x.write ? "two iterations write the same location" : "an iteration reads a location another one writes"; return; }
        if (x.write == write && x.atomic == atomic && x.lock == L) { same++; if (x.it == it) known = true; } }
      if (it == OUT && write && !atomic && !L) { conflicts++; if (first.empty()) first = "every thread writes the same shared location"; return; }
      if (!known && same < 2) v.push_back({it, L, write, atomic}); }
  }
};
#endif
