// Shared by the recording drivers: trace writer, random source, an in-memory network of our own.
#pragma once
#include <unistd.h>
#include <atomic>
#include <condition_variable>
#include <cstdio>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <vector>
#include "fbpcf/engine/communication/IPartyCommunicationAgent.h"
#include "fbpcf/engine/communication/IPartyCommunicationAgentFactory.h"

namespace vh {

struct Rng {
  uint64_t s;
  // neighbouring seeds (the shards of a check) must not give shifted copies of one stream
  explicit Rng(uint64_t seed) : s(seed) { s = next() ^ 0x5851F42D4C957F2Dull; s = next(); }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo + 1)); }
  bool coin() { return next() & 1; }
  bool chance(int pct) { return (int)below(100) < pct; }
  std::vector<bool> bits(size_t n) {
    std::vector<bool> r(n);
    for (size_t i = 0; i < n; i++) r[i] = coin();
    return r;
  }
  // sizes around which implementations like to change their mind
  size_t bigSize() {
    static const int c[] = {64, 128, 256, 512, 130, 300};
    return c[below(6)] + range(-1, 2);
  }
  // 64-bit values with a taste for corners
  uint64_t word() {
    switch (below(6)) {
      case 0: return below(4);
      case 1: return ~0ull - below(4);
      case 2: return (1ull << 63) + below(3) - 1;
      case 3: return 1ull << below(64);
      default: return next();
    }
  }
};

// ---- JSON building -------------------------------------------------------------------------
inline std::string js(bool b) { return b ? "1" : "0"; }
inline std::string js(int v) { return std::to_string(v); }
inline std::string js(long v) { return std::to_string(v); }
inline std::string js(unsigned v) { return std::to_string(v); }
inline std::string js(unsigned long v) { return std::to_string(v); }
inline std::string js(unsigned char v) { return std::to_string((int)v); }
inline std::string js(const char* s) { return "\"" + std::string(s) + "\""; }
inline std::string js(const std::string& s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}
template <class T>
std::string js(const std::vector<T>& v) {
  std::string r = "[";
  for (size_t i = 0; i < v.size(); i++) { if (i) r += ","; r += js((T)v[i]); }
  return r + "]";
}
// 64-bit word as eight little-endian bytes (TLC integers have 32 bits)
inline std::string jw(uint64_t v) {
  std::string r = "[";
  for (int i = 0; i < 8; i++) { if (i) r += ","; r += std::to_string((v >> (8 * i)) & 255); }
  return r + "]";
}
inline std::string jws(const std::vector<uint64_t>& v) {
  std::string r = "[";
  for (size_t i = 0; i < v.size(); i++) { if (i) r += ","; r += jw(v[i]); }
  return r + "]";
}
template <class T, class F>
std::string jmap(const std::vector<T>& v, F f) {
  std::string r = "[";
  for (size_t i = 0; i < v.size(); i++) { if (i) r += ","; r += f(v[i]); }
  return r + "]";
}
inline std::string jbytes(const std::string& s) {
  std::string r = "[";
  for (size_t i = 0; i < s.size(); i++) { if (i) r += ","; r += std::to_string((int)(unsigned char)s[i]); }
  return r + "]";
}

struct Ev {
  std::string s;
  explicit Ev(const char* name) { s = std::string("{\"ev\":\"") + name + "\""; }
  template <class T>
  Ev& f(const char* k, const T& v) { s += std::string(",\"") + k + "\":" + js(v); return *this; }
  Ev& raw(const char* k, const std::string& v) { s += std::string(",\"") + k + "\":" + v; return *this; }
  std::string str() const { return s + "}"; }
};

class Trace {
 public:
  explicit Trace(const char* path) : f_(fopen(path, "w")) {
    if (!f_) { perror(path); _exit(2); }
  }
  void operator()(const Ev& e) { line(e.str()); }
  void line(const std::string& s) {
    std::lock_guard<std::mutex> g(m_);
    fputs(s.c_str(), f_);
    fputc('\n', f_);
    n_++;
    if (n_ % 64 == 0) fflush(f_);
  }
  void flush() { std::lock_guard<std::mutex> g(m_); fflush(f_); }
  size_t count() const { return n_; }
  ~Trace() { fclose(f_); }

 private:
  FILE* f_;
  std::mutex m_;
  size_t n_ = 0;
};

// ---- watchdog: the driver calls tick(); no tick for `sec` seconds means the code hangs ---------
class Watchdog {
 public:
  Watchdog(Trace& t, int sec) : t_(t), sec_(sec) {
    last_ = now();
    th_ = std::thread([this] {
      while (!stop_) {
        std::this_thread::sleep_for(std::chrono::milliseconds(100));
        if (now() - last_ > sec_ * 1000) { t_.flush(); _exit(86); }
      }
    });
  }
  void tick() { last_ = now(); }
  ~Watchdog() { stop_ = true; th_.join(); }

 private:
  static int64_t now() {
    return std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now().time_since_epoch()).count();
  }
  Trace& t_;
  int sec_;
  std::atomic<int64_t> last_;
  std::atomic<bool> stop_{false};
  std::thread th_;
};

// ---- a reliable in-memory network ----------------------------------------------------------
struct Pipe {
  std::mutex m;
  std::condition_variable cv;
  std::deque<unsigned char> q;
  bool closed = false;
};

struct NetEvent { int from, to, chan; bool send; size_t n; };

class Net {
 public:
  // a send returns only when the peer has taken everything
  bool rendezvous = false;
  // every byte as it is sent / received by a party, if wanted: (party, peer, sent?, byte)
  std::function<void(int, int, bool, const unsigned char*, size_t)> onData;
  // called for every agent operation, under no lock, before it takes effect
  std::function<void(const NetEvent&)> onOp;
  std::shared_ptr<Pipe> pipe(int from, int to, int chan) {
    std::lock_guard<std::mutex> g(m_);
    auto& p = pipes_[{from, to, chan}];
    if (!p) p = std::make_shared<Pipe>();
    return p;
  }
  // wake every blocked receiver: it throws
  void closeAll() {
    std::lock_guard<std::mutex> g(m_);
    closed_ = true;
    for (auto& kv : pipes_) {
      std::lock_guard<std::mutex> h(kv.second->m);
      kv.second->closed = true;
      kv.second->cv.notify_all();
    }
  }

 private:
  std::mutex m_;
  bool closed_ = false;
  std::map<std::tuple<int, int, int>, std::shared_ptr<Pipe>> pipes_;
};

class Agent final : public fbpcf::engine::communication::IPartyCommunicationAgent {
 public:
  Agent(std::shared_ptr<Net> net, int me, int peer, int chan)
      : net_(net), me_(me), peer_(peer), chan_(chan), out_(net->pipe(me, peer, chan)), in_(net->pipe(peer, me, chan)) {}
  void recvImpl(void* data, int nBytes) override {
    if (net_->onOp) net_->onOp({me_, peer_, chan_, false, (size_t)nBytes});
    std::unique_lock<std::mutex> l(in_->m);
    auto p = (unsigned char*)data;
    for (int i = 0; i < nBytes; i++) {
      in_->cv.wait(l, [&] { return !in_->q.empty() || in_->closed; });
      if (in_->q.empty()) throw std::runtime_error("network closed");
      p[i] = in_->q.front();
      in_->q.pop_front();
    }
    if (in_->q.empty()) in_->cv.notify_all();
    if (net_->onData) net_->onData(me_, peer_, false, p, nBytes);
    received_ += nBytes;
  }
  void sendImpl(const void* data, int nBytes) override {
    if (net_->onOp) net_->onOp({me_, peer_, chan_, true, (size_t)nBytes});
    auto p = (const unsigned char*)data;
    if (net_->onData) net_->onData(me_, peer_, true, p, nBytes);
    std::unique_lock<std::mutex> l(out_->m);
    out_->q.insert(out_->q.end(), p, p + nBytes);
    out_->cv.notify_all();
    if (net_->rendezvous) {
      out_->cv.wait(l, [&] { return out_->q.empty() || out_->closed; });
      if (!out_->q.empty()) throw std::runtime_error("network closed");
    }
    sent_ += nBytes;
  }
  std::pair<uint64_t, uint64_t> getTrafficStatistics() const override { return {sent_, received_}; }

 private:
  std::shared_ptr<Net> net_;
  int me_, peer_, chan_;
  std::shared_ptr<Pipe> out_, in_;
  std::atomic<uint64_t> sent_{0}, received_{0};
};

class AgentFactory final : public fbpcf::engine::communication::IPartyCommunicationAgentFactory {
 public:
  AgentFactory(std::shared_ptr<Net> net, int me)
      : IPartyCommunicationAgentFactory("vnet"), net_(net), me_(me) {}
  std::unique_ptr<fbpcf::engine::communication::IPartyCommunicationAgent> create(int id, std::string) override {
    std::lock_guard<std::mutex> g(m_);
    return std::make_unique<Agent>(net_, me_, id, n_[id]++);
  }

 private:
  std::shared_ptr<Net> net_;
  int me_;
  std::mutex m_;
  std::map<int, int> n_;
};

// run f(party) in one thread per party; an exception ends the network so that nobody waits for ever.
// returns per-party error text ("" = none)
template <class F>
std::vector<std::string> runParties(int n, std::shared_ptr<Net> net, F f) {
  std::vector<std::string> err(n);
  std::vector<std::thread> th;
  for (int p = 0; p < n; p++) {
    th.emplace_back([&, p] {
      try {
        f(p);
      } catch (const std::exception& e) {
        err[p] = std::string("exception: ") + e.what();
        if (net) net->closeAll();
      }
    });
  }
  for (auto& t : th) t.join();
  return err;
}

struct Args {
  const char* out;
  uint64_t seed;
  int shard, shards;
  std::string mode;
  bool thorough;
  Args(int c, char** v)
      : out(v[1]), seed(strtoull(v[2], 0, 10)), shard(atoi(v[3])), shards(atoi(v[4])), mode(c > 5 ? v[5] : "") {
    const char* t = getenv("VERIF_TIER");
    thorough = t && std::string(t) == "thorough";
  }
};

} // namespace vh
