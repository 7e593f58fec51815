#pragma once
#include <sstream>
#include <string>
#include <vector>
#include <stdexcept>
namespace folly {
namespace detail {
template <class T> T conv(const std::string& s) {
  if constexpr (std::is_same_v<T, std::string>) return s;
  else if constexpr (std::is_unsigned_v<T>) {
    if (s.empty() || s[0]=='-') throw std::range_error("conv");
    size_t p; unsigned long long v = std::stoull(s, &p);
    if (p != s.size() || v > (unsigned long long)std::numeric_limits<T>::max()) throw std::range_error("conv");
    return (T)v;
  } else {
    size_t p; long long v = std::stoll(s, &p);
    if (p != s.size()) throw std::range_error("conv");
    return (T)v;
  }
}
}
template <class C> std::string join(const std::string& d, const C& c) {
  std::ostringstream os; bool first = true;
  for (const auto& x : c) { if (!first) os << d; first = false; os << x; }
  return os.str();
}
template <class T> void split(char d, const std::string& s, std::vector<T>& out) {
  size_t p = 0;
  while (true) {
    auto q = s.find(d, p);
    out.push_back(detail::conv<T>(s.substr(p, q == std::string::npos ? std::string::npos : q - p)));
    if (q == std::string::npos) break;
    p = q + 1;
  }
}
}
