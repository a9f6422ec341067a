// Stand-in: text arguments are substituted, anything else becomes "?" (numbers in messages are not part of any property).
#pragma once
#include <string>
#include <string_view>
#include <type_traits>
#include <vector>
namespace fmt {
namespace vh_detail {
template<typename T> inline std::string text(const T & a) { if constexpr (std::is_convertible_v<T, std::string_view>) return std::string(std::string_view(a)); else return "?"; }
inline std::string render(const std::string & f, const std::vector<std::string> & a) {
  std::string out; std::size_t k = 0;
  for (std::size_t i = 0; i < f.size(); i++) {
    if (f[i] == '{' && i + 1 < f.size() && f[i + 1] != '{') { while (i < f.size() && f[i] != '}') i++; out += k < a.size() ? a[k] : std::string(); k++; }
    else { if ((f[i] == '{' || f[i] == '}') && i + 1 < f.size() && f[i + 1] == f[i]) i++; out += f[i]; }
  }
  return out;
}
}
template<typename... A> inline std::string format(const std::string & f, const A &... a) { return vh_detail::render(f, std::vector<std::string>{vh_detail::text(a)...}); }
template<typename... A> inline void print(const std::string &, const A &...) {}
template<typename T> inline std::string to_string(const T &) { return std::string("?"); }
}
