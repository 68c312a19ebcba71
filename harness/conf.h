// Settings of a program: printing, comparing and drawing them
#pragma once
#include <map>
#include "prog.h"

using Fields = std::map<std::string, std::string>;
inline std::string show(double x) { return show_double(x); }
inline std::string show(bool b) { return b ? "true" : "false"; }
inline std::string show(const std::string &s) { return s; }
template <typename T> inline std::string show(const T &x) requires std::is_enum_v<T> { return std::to_string((long)x); }
template <typename T> inline std::string show(const T &x) requires std::is_integral_v<T> { return std::to_string(x); }
template <typename T> inline std::string show(const std::vector<T> &v) { std::string s = "["; for (auto &x : v) s += show(x) + ","; return s + "]"; }

inline bool same(const std::string &a, const std::string &b, double tol) {
  if (a == b) return true;
  if (tol == 0 || a.empty() || b.empty()) return false;
  char *ea, *eb;
  const double x = std::strtod(a.c_str(), &ea), y = std::strtod(b.c_str(), &eb);
  return *ea == 0 && *eb == 0 && std::abs(x - y) <= tol * std::max(std::abs(x), std::abs(y));
}
inline std::string diff(const Fields &got, const Fields &want, double tol = 0) {
  std::string s;
  for (auto &[k, v] : want) {
    auto it = got.find(k);
    const std::string g = it == got.end() ? "?" : it->second;
    if (!same(g, v, tol)) s += " " + k + ": got " + g + " expected " + v + ";";
  }
  return s;
}
template <typename E> using Names = std::vector<std::pair<std::string, E>>;
inline double gen_double(Gen &g, int digits) {
  double x;
  switch (g.draw(5)) {
  case 0: x = g.draw(20) / 4.0; break;
  case 1: x = g.draw(1000) / 1000.0; break;
  case 2: x = g.draw(1u << 30) / 7.0; break;
  case 3: x = std::pow(10.0, (double)g.range(-12, 15)) * (1 + g.draw(1000) / 3001.0); break;
  default: x = 0; break;
  }
  char b[40];
  std::snprintf(b, sizeof b, "%.*g", digits, x);
  return std::strtod(b, nullptr);
}
template <typename T> inline T gen_int(Gen &g) {
  switch (g.draw(4)) {
  case 0: return g.draw(20);
  case 1: return g.draw(100000);
  case 2: return std::numeric_limits<T>::max() - g.draw(3);
  default: return g.draw(2);
  }
}
inline bool plain_names = false; // CLI11 does not escape special characters when it writes files
inline std::string gen_name(Gen &g) {
  if (plain_names) return g.pick<std::string>({"a", "out.txt", "dir/x.part", "n%n_m%m_k%k_seed%seed", "with space", "ünicode", "x-y_z", "50%"});
  return g.pick<std::string>({"a", "out.txt", "dir/x.part", "n%n_m%m_k%k_seed%seed", "with space", "ünicode", "x=y", "a,b", "1", "-", "true", "50%", "c[0]", "#5", "a;b"});
}

template <typename E, typename Map> inline void check_names(const char *what, const Names<E> &names, const Map &table) {
  for (auto &[s, e] : names) {
    auto it = table.find(s);
    CHECK_MSG(it != table.end(), "table", what << ": value '" << s << "' is not accepted");
    CHECK_EQ((int)it->second, (int)e, "table", what << ": meaning of '" << s << "'");
    if constexpr (requires(std::ostream &o, E x) { operator<<(o, x); }) {
      std::ostringstream o;
      operator<<(o, e);
      auto back = table.find(o.str());
      CHECK_MSG(back != table.end(), "print", what << ": '" << s << "' is printed as '" << o.str() << "', which is not accepted");
      CHECK_EQ((int)back->second, (int)e, "print", what << ": '" << s << "' is printed as '" << o.str() << "'");
    }
  }
}
