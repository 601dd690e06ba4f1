// Shared plumbing of the monitors: deterministic randomness, case contexts,
// event counters, violation records and the evidence line of a shard.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace mon {

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed) {
    for (int i = 0; i < 4; ++i) next();
  }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  double uni() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  double uni(double a, double b) { return a + (b - a) * uni(); }
  int below(int n) { return n <= 0 ? 0 : (int)(next() % (uint64_t)n); }
  int range(int a, int b) { return a + below(b - a + 1); }
  bool chance(double p) { return uni() < p; }
  double gauss() {
    double u = uni(), v = uni();
    if (u < 1e-300) u = 1e-300;
    return std::sqrt(-2 * std::log(u)) * std::cos(6.283185307179586 * v);
  }
  template <class T>
  const T& pick(const std::vector<T>& v) {
    return v[below((int)v.size())];
  }
};

inline uint64_t hashMix(uint64_t h, uint64_t v) {
  h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
  return h;
}
inline uint64_t hashStr(const std::string& s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
  return h;
}
inline uint64_t hashD(uint64_t h, double d) {
  uint64_t u;
  std::memcpy(&u, &d, 8);
  return hashMix(h, u);
}

inline std::string jsonEsc(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += (char)c;
    } else if (c == '\n')
      o += "\\n";
    else if (c < 32)
      o += ' ';
    else
      o += (char)c;
  }
  return o;
}

struct Violation {
  long caseId;
  std::string key, msg;
};

// One per process (shard).  `key` names the kind of violation, stable across
// runs, so that it can be matched against the known-findings file.
struct Ctx {
  std::string property;
  uint64_t seed = 1;
  bool thorough = false;
  long caseId = -1;
  Rng rng{1};
  std::map<std::string, long> events;
  std::map<std::string, double> maxima;
  std::vector<Violation> violations;
  std::vector<std::string> samples;
  std::set<uint64_t> distinct;
  long evaluations = 0;
  bool verbose = false;
  bool caseFailed = false;
  std::string caseDesc;

  void ev(const std::string& k, long n = 1) { events[k] += n; }
  void mx(const std::string& k, double v) {
    double& d = maxima[k];
    if (v > d) d = v;
  }
  void fail(const std::string& key, const std::string& msg) {
    caseFailed = true;
    ev("violation:" + key);
    long same = 0;
    for (auto& v : violations) same += v.key == key;
    if (same < 3) violations.push_back({caseId, key, msg + " [" + caseDesc + "]"});
    if (verbose) fprintf(stderr, "VIOL case %ld %s: %s [%s]\n", caseId, key.c_str(), msg.c_str(), caseDesc.c_str());
  }
  // value must not exceed tol; the largest value/tol ratio seen is recorded
  bool le(const std::string& key, double value, double tol, const std::string& what) {
    mx("ratio:" + key, value / tol);
    if (!(value <= tol)) {
      std::ostringstream o;
      o.precision(12);
      o << what << ": " << value << " > " << tol;
      fail(key, o.str());
      return false;
    }
    return true;
  }
  void nontrivial(uint64_t h) { distinct.insert(h); }
  void sample(const std::string& s) {
    if (samples.size() < 3) samples.push_back(s);
  }
};

#define MON_STR(expr) ([&] { std::ostringstream o__; o__.precision(9); o__ << expr; return o__.str(); }())

typedef void (*CaseFn)(Ctx&);
struct CheckDef {
  CaseFn fn;
  long quick, thorough;
};
std::map<std::string, CheckDef>& registry();
struct Reg {
  Reg(const char* name, CaseFn fn, long quick, long thorough) { registry()[name] = CheckDef{fn, quick, thorough}; }
};

}  // namespace mon
