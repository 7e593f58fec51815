#pragma once
#include <chrono>
namespace folly {
template <class D = std::chrono::milliseconds> struct stop_watch {
  std::chrono::steady_clock::time_point t{std::chrono::steady_clock::now()};
  D elapsed() const { return std::chrono::duration_cast<D>(std::chrono::steady_clock::now() - t); }
};
}
