// What drivers write: JSON, one line per case.
#ifndef VERIF_IO_HPP
#define VERIF_IO_HPP
#include <cmath>
#include <cstdint>
#include <iostream>
#include <sstream>
#include <string>
#include <type_traits>
#include <vector>
namespace io {
struct Json
{
  std::string s;
};
inline Json raw(std::string s) { return { std::move(s) }; }
inline std::string text(const Json &j) { return j.s; }
inline std::string text(bool b) { return b ? "true" : "false"; }
inline std::string text(const std::string &t) { return "\"" + t + "\""; }
inline std::string text(const char *t) { return text(std::string(t)); }
template<typename T>
  requires std::is_integral_v<T>
std::string text(T v)
{
  return std::to_string(v);
}
template<typename C>
  requires requires(const C &c) { c.begin(); c.end(); }
std::string text(const C &c)
  requires(!std::is_same_v<C, std::string>)
{
  std::string r = "[";
  bool first = true;
  for (const auto &v : c) {
    if (!first) r += ",";
    first = false;
    r += text(v);
  }
  return r + "]";
}
/// a vector of fixed size of the library
template<typename V> Json vec(const V &v, int n)
{
  std::string r = "[";
  for (int i = 0; i < n; ++i) r += (i ? "," : "") + text(v(i));
  return raw(r + "]");
}
struct Obj
{
  std::string s;
  template<typename T> Obj &add(const char *k, const T &v)
  {
    s += (s.empty() ? "" : ",") + text(k) + ":" + text(v);
    return *this;
  }
  [[nodiscard]] Json json() const { return raw("{" + s + "}"); }
};
inline void say(const Obj &o) { std::cout << o.json().s << std::endl; }
/// a real as a multiple of 1/q; nothing a specification accepts when it is none
inline std::int64_t units(double x, double q)
{
  const double y = x * q, r = std::round(y);
  return std::abs(y - r) <= 1.0e-7 * std::max(1.0, std::abs(r)) && std::abs(r) < 1.0e9 ? static_cast<std::int64_t>(r) : -999999937;
}
}// namespace io
#endif
