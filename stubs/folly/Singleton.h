#pragma once
#include <memory>
namespace folly {
template <class T, class Tag = void> struct Singleton {
  std::shared_ptr<T> try_get() { static std::shared_ptr<T> p(new T()); return p; }
};
}
