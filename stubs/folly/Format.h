#pragma once
#include <fmt/format.h>
#include <string>
#include <exception>
namespace folly {
template <class... A> std::string sformat(const std::string& f, A&&... a) {
  return fmt::format(fmt::runtime(f), std::forward<A>(a)...);
}
}
