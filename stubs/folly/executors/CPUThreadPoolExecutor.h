#pragma once
#include <condition_variable>
#include <deque>
#include <functional>
#include <memory>
#include <mutex>
#include <thread>
#include <vector>
namespace folly {
template <class T> struct UnboundedBlockingQueue {};
struct CPUThreadPoolExecutor {
  struct CPUTask {};
  struct ThreadHandle {};
  struct Observer { virtual ~Observer() = default; virtual void threadStarted(ThreadHandle*) = 0; virtual void threadStopped(ThreadHandle*) = 0; };
  template <class Q> CPUThreadPoolExecutor(size_t n, std::unique_ptr<Q>) {
    for (size_t i = 0; i < n; i++) t_.emplace_back([this] { loop(); });
  }
  void addObserver(std::shared_ptr<Observer> o) { obs_.push_back(o); for (size_t i = 0; i < t_.size(); i++) o->threadStarted(nullptr); }
  void add(std::function<void()> f) { { std::lock_guard l(m_); q_.push_back(std::move(f)); } cv_.notify_one(); }
  void join() { { std::lock_guard l(m_); stop_ = true; } cv_.notify_all(); for (auto& t : t_) if (t.joinable()) t.join(); for (auto& o : obs_) for (size_t i = 0; i < t_.size(); i++) o->threadStopped(nullptr); obs_.clear(); }
  ~CPUThreadPoolExecutor() { join(); }
 private:
  void loop() { while (true) { std::function<void()> f; { std::unique_lock l(m_); cv_.wait(l, [&] { return stop_ || !q_.empty(); }); if (q_.empty()) return; f = std::move(q_.front()); q_.pop_front(); } f(); } }
  std::mutex m_; std::condition_variable cv_; std::deque<std::function<void()>> q_; bool stop_ = false;
  std::vector<std::thread> t_; std::vector<std::shared_ptr<Observer>> obs_;
};
}
