// What the drivers of the MPC library need to know about each element type: random values, JSON, MPC adapters.
#pragma once
#include "parties.h"
#include "fbpcf/mpc_std_lib/util/util.h"

namespace vh {
namespace mu = fbpcf::mpc_std_lib::util;
using Agg = mu::AggregationValue;

template <class T> struct Ty;
template <> struct Ty<bool> {
  static const char* name() { return "bit"; }
  static bool rand(Rng& r) { return r.coin(); }
  static std::string j(bool b) { return js(b); }
  static constexpr bool batchable = true, recover = false;
};
template <> struct Ty<uint32_t> {
  static const char* name() { return "u32"; }
  static uint32_t rand(Rng& r) { return r.chance(20) ? r.below(3) : r.chance(20) ? ~0u - r.below(3) : (uint32_t)r.next(); }
  static std::string j(uint32_t b) { return jw(b); }
  static constexpr bool batchable = true, recover = true;
  static constexpr int bits = 32;
};
template <bool SG, int8_t W> struct Ty<mu::Intp<SG, W>> {
  using I = mu::Intp<SG, W>;
  using N = typename I::NativeType;
  static std::string nm() { return std::string(SG ? "s" : "u") + std::to_string(W); }
  static const char* name() { static std::string s = nm(); return s.c_str(); }
  static uint64_t canon(uint64_t x) {
    if (W == 64) return x;
    x &= (1ull << W) - 1;
    if (SG && (x >> (W - 1))) x |= ~0ull << W;
    return x;
  }
  static uint64_t raw(Rng& r) {
    switch (r.below(8)) {
      case 0: return 0;
      case 1: return canon(~0ull);
      case 2: return canon(1ull << (W - 1));
      case 3: return canon((1ull << (W - 1)) - 1);
      case 4: return canon(1ull << r.below(W));
      case 5: return canon(r.below(4));
      default: return canon(r.next());
    }
  }
  static I rand(Rng& r) { return I((N)raw(r)); }
  static std::string j(const I& v) { N x = v; return jw(SG ? (uint64_t)(int64_t)x : (uint64_t)x); }
  static constexpr bool batchable = true, recover = true;
  static constexpr int bits = W;
};
template <> struct Ty<Agg> {
  static const char* name() { return "agg"; }
  static Agg rand(Rng& r) { uint32_t a = Ty<uint32_t>::rand(r); return Agg(a, Ty<uint32_t>::rand(r)); }
  static std::string j(const Agg& v) { return "[" + jw(v.conversionCount) + "," + jw(v.conversionValue) + "]"; }
  static constexpr bool batchable = false, recover = true;
  static constexpr int bits = 64;
};
template <class A, class B> struct Ty<std::pair<A, B>> {
  using P = std::pair<A, B>;
  static const char* name() { static std::string s = std::string("(") + Ty<A>::name() + "," + Ty<B>::name() + ")"; return s.c_str(); }
  static P rand(Rng& r) { A a = Ty<A>::rand(r); return {a, Ty<B>::rand(r)}; }
  static std::string j(const P& v) { return "[" + Ty<A>::j(v.first) + "," + Ty<B>::j(v.second) + "]"; }
  static constexpr bool batchable = Ty<A>::batchable && Ty<B>::batchable, recover = false;
};
inline int kStr = 5;  // length of the bit strings used as items
template <> struct Ty<std::vector<bool>> {
  using V = std::vector<bool>;
  static const char* name() { return "string"; }
  static V rand(Rng& r) { return r.bits(kStr); }
  static std::string j(const V& v) { std::string s = "["; for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + js((bool)v[i]); return s + "]"; }
  static constexpr bool batchable = true, recover = false;
};

template <class T> std::string jcol(const std::vector<T>& v) {
  std::string s = "[";
  for (size_t i = 0; i < v.size(); i++) { if (i) s += ","; s += Ty<T>::j(v[i]); }
  return s + "]";
}
template <class T> std::vector<T> randCol(Rng& r, size_t n) {
  std::vector<T> v(n);
  for (size_t i = 0; i < n; i++) v[i] = Ty<T>::rand(r);
  return v;
}
template <class T> using Mpc = mu::MpcAdapters<T, 0>;
template <class T> using Sec = typename mu::SecBatchType<T, 0>::type;

// bit strings are handed over bit by bit, everything else item by item
template <class T> Sec<T> secretCol(const std::vector<T>& v, int owner) {
  if constexpr (std::is_same_v<T, std::vector<bool>>) {
    std::vector<std::vector<bool>> t(kStr, std::vector<bool>(v.size()));
    for (size_t i = 0; i < v.size(); i++) for (int k = 0; k < kStr; k++) t[k][i] = v[i][k];
    return Mpc<T>::processSecretInputs(t, owner);
  } else return Mpc<T>::processSecretInputs(v, owner);
}
template <class T> std::string openCol(const Sec<T>& s, int party) {
  auto v = Mpc<T>::openToParty(s, party);
  if constexpr (std::is_same_v<T, std::vector<bool>>) {
    size_t n = v.empty() ? 0 : v[0].size();
    std::vector<T> t(n, T(v.size()));
    for (size_t k = 0; k < v.size(); k++) for (size_t i = 0; i < n; i++) t[i][k] = v[k][i];
    return jcol(t);
  } else return jcol(v);
}

} // namespace vh
