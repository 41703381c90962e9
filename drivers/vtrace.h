// Recording of the implementation's behaviour, one JSON event per line.
#ifndef VTRACE_H_
#define VTRACE_H_
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <type_traits>
#include <vector>

namespace vt {

inline FILE* g_out = nullptr;
inline std::map<std::string, std::string> g_args;

inline void Init(int argc, char** argv) {
  for (int i = 1; i + 1 < argc; i += 2) g_args[argv[i]] = argv[i + 1];
  const std::string out = g_args.count("--out") ? g_args["--out"] : "/dev/stdout";
  g_out = std::fopen(out.c_str(), "w");
  if (!g_out) { std::perror("out"); std::exit(98); }
}
inline std::string Arg(const std::string& k, const std::string& d = "") {
  auto it = g_args.find("--" + k);
  return it == g_args.end() ? d : it->second;
}
inline long ArgI(const std::string& k, long d) {
  auto s = Arg(k);
  return s.empty() ? d : std::atol(s.c_str());
}

// Deterministic generator (splitmix64).
struct Rng {
  uint64_t s;
  // the seed is hashed: streams of neighbouring seeds must not be shifts of each other
  explicit Rng(uint64_t seed) : s((seed + 77) * 0xD6E8FEB86659FD93ull) { s ^= s >> 32; s *= 0xD6E8FEB86659FD93ull; s ^= s >> 29; s *= 0xA24BAED4963EE407ull; s ^= s >> 32; Next(); Next(); }
  uint64_t Next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  int64_t In(int64_t lo, int64_t hi) { return lo + static_cast<int64_t>(Next() % static_cast<uint64_t>(hi - lo + 1)); }
  bool P(int pct) { return In(0, 99) < pct; }
  template <class T> const T& Pick(const std::vector<T>& v) { return v[Next() % v.size()]; }
};

inline std::string Esc(const std::string& s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 32 || c > 126) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}
template <class T> std::string Js(const T& v);
inline std::string Js(const std::string& v) { return Esc(v); }
inline std::string Js(const char* v) { return Esc(v); }
inline std::string Js(bool v) { return v ? "true" : "false"; }
struct Raw { std::string s; };
inline std::string Js(const Raw& v) { return v.s; }
template <class T> std::string Js(const std::vector<T>& v) {
  std::string r = "[";
  for (size_t i = 0; i < v.size(); ++i) { if (i) r += ','; r += Js(static_cast<T>(v[i])); }
  return r + "]";
}
template <class T> std::string Js(const T& v) {
  static_assert(std::is_integral_v<T> || std::is_enum_v<T>);
  return std::to_string(static_cast<int64_t>(v));
}
// Wide unsigned values: base-2^16 limbs, least significant first.
inline std::string Limbs(uint64_t v, int n = 4) {
  std::vector<int> l;
  for (int i = 0; i < n; ++i) l.push_back(static_cast<int>((v >> (16 * i)) & 0xffff));
  return Js(l);
}

struct Obj {
  std::string s = "{";
  template <class T> Obj& f(const char* k, const T& v) {
    if (s.size() > 1) s += ',';
    s += '"'; s += k; s += "\":"; s += Js(v);
    return *this;
  }
  Obj& raw(const char* k, const std::string& v) { return f(k, Raw{v}); }
  Raw end() const { return Raw{s + "}"}; }
};
inline bool g_mute = false;
struct Ev : Obj {
  explicit Ev(const char* name) { f("e", name); }
  ~Ev() { if (g_mute) return; s += "}\n"; std::fwrite(s.data(), 1, s.size(), g_out); std::fflush(g_out); }
  template <class T> Ev& f(const char* k, const T& v) { Obj::f(k, v); return *this; }
  Ev& raw(const char* k, const std::string& v) { Obj::raw(k, v); return *this; }
};

}  // namespace vt
#endif
