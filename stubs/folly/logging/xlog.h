#pragma once
#include <sstream>
#include <string>
#include <fmt/format.h>
#include <cerrno>
#include <cstring>
#include <memory>
#include <exception>
#include <iostream>
namespace folly_stub {
struct NullLog {
  std::ostringstream os;
  template <class T> NullLog& operator<<(const T& v) { os << v; return *this; }
  NullLog& operator<<(std::ostream& (*)(std::ostream&)) { return *this; }
};
template <class... A> inline void sink(const A&...) {}
}
#define XLOG1_(l) ::folly_stub::NullLog()
#define XLOG(l, ...) (::folly_stub::sink(#l __VA_OPT__(,) __VA_ARGS__), ::folly_stub::NullLog())
#define XLOGF(l, f, ...) ::folly_stub::sink(f __VA_OPT__(,) __VA_ARGS__)
#define XLOG_EVERY_MS(l, ms) ::folly_stub::NullLog()
#define XLOG_IF(l, c) ::folly_stub::NullLog()
