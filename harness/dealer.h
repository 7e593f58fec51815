// Multiplication tuples dealt from a common seed: really random, fresh, correct, and noted down.
// Every party derives all parties' shares for its k-th request; they agree as long as the requests do.
#pragma once
#include <functional>
#include "common.h"
#include "fbpcf/engine/tuple_generator/IArithmeticTupleGeneratorFactory.h"
#include "fbpcf/engine/tuple_generator/ITupleGeneratorFactory.h"

namespace vh {
namespace tg = fbpcf::engine::tuple_generator;

struct TupleNote {
  std::vector<std::string> bits, comps, ints;  // JSON: [a,b,c], [size,[a,[b..],[c..]]], [A,B,C]
};

class Dealer final : public tg::ITupleGenerator {
 public:
  Dealer(int me, int n, uint64_t seed, bool comp, TupleNote* note) : me_(me), n_(n), r_(seed), comp_(comp), note_(note) {}
  std::vector<BooleanTuple> getBooleanTuple(uint32_t size) override {
    std::vector<BooleanTuple> out;
    for (uint32_t i = 0; i < size; i++) {
      auto t = deal(1);
      out.emplace_back(t.a, t.b[0], t.c[0]);
      if (note_) note_->bits.push_back("[" + js((int)t.a) + "," + js((int)t.b[0]) + "," + js((int)t.c[0]) + "]");
    }
    return out;
  }
  std::map<size_t, std::vector<CompositeBooleanTuple>> getCompositeTuple(const std::map<size_t, uint32_t>& sizes) override {
    if (!comp_) throw std::runtime_error("composite tuples are not supported");
    std::map<size_t, std::vector<CompositeBooleanTuple>> out;
    for (auto& kv : sizes) {
      auto& v = out[kv.first];
      for (uint32_t i = 0; i < kv.second; i++) {
        auto t = deal(kv.first);
        v.emplace_back(t.a, t.b, t.c);
        if (note_) note_->comps.push_back("[" + js(kv.first) + "," + js((int)t.a) + "," + js(t.b) + "," + js(t.c) + "]");
      }
    }
    return out;
  }
  std::pair<std::vector<BooleanTuple>, std::map<size_t, std::vector<CompositeBooleanTuple>>>
  getNormalAndCompositeBooleanTuples(uint32_t n, const std::map<size_t, uint32_t>& s) override {
    auto a = getBooleanTuple(n);
    auto b = getCompositeTuple(s);
    return {std::move(a), std::move(b)};
  }
  bool supportsCompositeTupleGeneration() override { return comp_; }
  std::pair<uint64_t, uint64_t> getTrafficStatistics() const override { return {0, 0}; }

 private:
  struct Tup { bool a; std::vector<bool> b, c; };
  Tup deal(size_t k) {
    Tup mine;
    bool a = 0;
    std::vector<bool> b(k), c(k);
    for (int p = 0; p < n_; p++) {
      bool sa = r_.coin();
      auto sb = r_.bits(k), sc = r_.bits(k);
      a = a ^ sa;
      for (size_t i = 0; i < k; i++) b[i] = b[i] ^ sb[i];
      if (p == n_ - 1) for (size_t i = 0; i < k; i++) sc[i] = c[i] ^ (a && b[i]);
      for (size_t i = 0; i < k; i++) c[i] = c[i] ^ sc[i];
      if (p == me_) mine = {sa, sb, sc};
    }
    return mine;
  }
  int me_, n_;
  Rng r_;
  bool comp_;
  TupleNote* note_;
};

class IntDealer final : public tg::IArithmeticTupleGenerator {
 public:
  IntDealer(int me, int n, uint64_t seed, TupleNote* note) : me_(me), n_(n), r_(seed), note_(note) {}
  std::vector<IntegerTuple> getIntegerTuple(uint32_t size) override {
    std::vector<IntegerTuple> out;
    for (uint32_t i = 0; i < size; i++) {
      uint64_t a = 0, b = 0, c = 0;
      for (int p = 0; p < n_; p++) {
        uint64_t sa = r_.next(), sb = r_.next(), sc = r_.next();
        a += sa; b += sb;
        if (p == n_ - 1) sc = a * b - c;
        c += sc;
        if (p == me_) {
          out.emplace_back(sa, sb, sc);
          if (note_) note_->ints.push_back("[" + jw(sa) + "," + jw(sb) + "," + jw(sc) + "]");
        }
      }
    }
    return out;
  }
  std::pair<uint64_t, uint64_t> getTrafficStatistics() const override { return {0, 0}; }

 private:
  int me_, n_;
  Rng r_;
  TupleNote* note_;
};

struct DealerFactory final : public tg::ITupleGeneratorFactory {
  int me, n; uint64_t seed; bool comp;
  DealerFactory(int me, int n, uint64_t seed, bool comp)
      : ITupleGeneratorFactory(std::make_shared<fbpcf::util::MetricCollector>("d")), me(me), n(n), seed(seed), comp(comp) {}
  std::unique_ptr<tg::ITupleGenerator> create() override { return std::make_unique<Dealer>(me, n, seed, comp, nullptr); }
};
struct IntDealerFactory final : public tg::IArithmeticTupleGeneratorFactory {
  int me, n; uint64_t seed;
  IntDealerFactory(int me, int n, uint64_t seed) : me(me), n(n), seed(seed) {}
  std::unique_ptr<tg::IArithmeticTupleGenerator> create() override { return std::make_unique<IntDealer>(me, n, seed, nullptr); }
};

} // namespace vh
