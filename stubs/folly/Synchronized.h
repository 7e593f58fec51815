#pragma once
#include <mutex>
#include <shared_mutex>
namespace folly {
template <class T> class Synchronized {
  template <class L, class U> struct P {
    L l; U* p;
    U* operator->() { return p; }
    U& operator*() { return *p; }
  };
 public:
  auto wlock() { return P<std::unique_lock<std::shared_mutex>, T>{std::unique_lock(m_), &t_}; }
  auto rlock() const { return P<std::shared_lock<std::shared_mutex>, const T>{std::shared_lock(m_), &t_}; }
  template <class F> auto withWLock(F&& f) { std::unique_lock l(m_); return f(t_); }
  template <class F> auto withRLock(F&& f) const { std::shared_lock l(m_); return f(t_); }
 private:
  mutable std::shared_mutex m_; T t_;
};
}
