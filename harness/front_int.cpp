// Records random programs over the frontend integers of one width (compile-time WIDTH list), every signedness and
// secrecy, single and batched.
#include "parties.h"
#include "fbpcf/frontend/Bit.h"
#include "fbpcf/frontend/Int.h"

using namespace vh;
namespace fe = fbpcf::frontend;
using U64 = std::vector<uint64_t>;

constexpr int NI = 8, NBit = 3;
struct Op {
  std::string ev, op, form;
  int d = -1, a = -1, b = -1, c = -1, idx = 0, party = 0;
  std::vector<int> bs, ds;
  std::vector<uint32_t> cut;
  U64 vals;
  std::vector<U64> shares;
};
// slot = kind * 10 + i; kinds: 0 secret int, 1 public int, 2 secret bit, 3 public bit
struct Gen {
  Rng& r;
  int n, w;
  bool sg, batch;
  std::map<int, int> m;  // elements, 0 = empty
  std::map<int, U64> seen;  // what the last `in` of a slot put there (possibly overwritten since)
  std::vector<Op> ops;
  int base;
  Gen(Rng& r, int n, int w, bool sg, bool batch) : r(r), n(n), w(w), sg(sg), batch(batch) {
    for (int i = 0; i < NI; i++) m[i] = m[10 + i] = 0;
    for (int i = 0; i < NBit; i++) m[20 + i] = m[30 + i] = 0;
    base = batch ? (r.chance(85) ? r.range(1, 5) : r.range(6, 12)) : 1;
  }
  static bool sec(int s) { return (s / 10) % 2 == 0; }
  static bool isInt(int s) { return s < 20; }
  uint64_t canon(uint64_t x) {
    if (w == 64) return x;
    x &= (1ull << w) - 1;
    if (sg && (x >> (w - 1))) x |= ~0ull << w;
    return x;
  }
  uint64_t value() {
    switch (r.below(8)) {
      case 0: return 0;
      case 1: return canon(~0ull);
      case 2: return canon(1ull << (w - 1));
      case 3: return canon((1ull << (w - 1)) - 1);
      case 4: return canon(1ull << r.below(w));
      case 5: return canon(r.below(4));
      default: return canon(r.next());
    }
  }
  // not representable in w bits (w < 64)
  uint64_t outside() {
    if (sg) {
      int64_t lim = (int64_t)1 << (w - 1);
      switch (r.below(4)) {
        case 0: return lim;
        case 1: return -lim - 1;
        case 2: return lim + (int64_t)r.below(1000) < 0 ? lim : lim + (w < 60 ? (int64_t)r.below(1000) : 0);
        default: return r.coin() ? (uint64_t)INT64_MIN : (uint64_t)INT64_MAX;
      }
    }
    switch (r.below(3)) {
      case 0: return 1ull << w;
      case 1: return (1ull << w) | (r.next() & ((1ull << w) - 1));
      default: return 1ull << r.range(w, 63);
    }
  }
  template <class P> int pick(P p) {
    std::vector<int> c;
    for (auto& kv : m) if (p(kv.first)) c.push_back(kv.first);
    return c.empty() ? -1 : c[r.below(c.size())];
  }
  int slot(bool i, bool secret) { return (i ? 0 : 20) + (secret ? 0 : 10) + r.below(i ? NI : NBit); }
  bool ok(int s) { return m[s] > 0; }
  // near: the values of another slot, each equal or one bit away
  void in(bool i, bool secret, int near = -1) {
    Op o; o.ev = "in"; o.d = slot(i, secret);
    if (near == o.d) near = -1;
    int sz = batch ? (r.chance(85) ? base : r.range(1, 5)) : 1;
    o.form = !secret ? "pub" : r.chance(70) ? "priv" : "share";
    if (i && r.chance(30) && o.form != "share") o.op = "method";
    o.party = r.below(n);
    if (near >= 0 && o.form == "share") o.form = "priv";
    if (near >= 0) for (auto x : seen[near]) o.vals.push_back(r.chance(20) ? x : canon(x ^ (1ull << r.below(w))));
    else for (int k = 0; k < sz; k++) o.vals.push_back(i ? value() : r.below(2));
    if (near >= 0) sz = o.vals.size();
    if (o.form != "share") seen[o.d] = o.vals; else seen.erase(o.d);
    for (int p = 0; p < n; p++) { U64 x; for (int k = 0; k < sz; k++) x.push_back(i ? canon(r.next()) : r.below(2)); o.shares.push_back(x); }
    m[o.d] = sz;
    ops.push_back(o);
  }
  void exhaustive() {
    // every pair of a small width in one batch
    if (!batch || w > 4) return;
    U64 x, y;
    for (uint64_t i = 0; i < (1ull << w); i++) for (uint64_t j = 0; j < (1ull << w); j++) { x.push_back(canon(i)); y.push_back(canon(j)); }
    for (int k = 0; k < 2; k++) {
      Op o; o.ev = "in"; o.d = k; o.form = "priv"; o.vals = k ? y : x; m[k] = x.size(); ops.push_back(o);
      o.d = 10 + k; o.form = "pub"; m[10 + k] = x.size(); ops.push_back(o);
    }
    const char* bin[] = {"add", "sub", "lt", "le", "gt", "ge", "eq", "min", "max"};
    for (auto op : bin) for (int c = 0; c < 3; c++) {
      int a = c == 2 ? 10 : 0, b = c == 0 ? 1 : 11;
      Op o; o.ev = "bin"; o.op = op; o.a = a; o.b = b;
      bool bit = o.op[0] == 'l' || o.op[0] == 'g' || o.op == "eq";
      o.d = (bit ? 20 : 0) + (c == 2 ? 10 : 0) + 2;
      m[o.d] = x.size();
      ops.push_back(o);
      Op q; q.ev = c == 2 ? "get" : "open"; q.a = o.d; ops.push_back(q);
    }
  }
  void drop(int s) { Op o; o.ev = "drop"; o.d = s; m[s] = 0; ops.push_back(o); }
  void read(int s) {
    if (!ok(s)) return;
    Op o; o.a = s;
    if (!sec(s)) o.ev = "get";
    else { o.ev = r.chance(70) ? "open" : "share"; o.party = r.below(n); }
    ops.push_back(o);
  }
  void step() {
    int pc = r.below(100);
    auto anyInt = [&](int x) { return isInt(x) && ok(x); };
    if (pc < 10) in(r.chance(75), r.chance(60));
    else if (pc < 14) {
      int a = pick([&](int x) { return isInt(x) && ok(x) && seen.count(x) && (int)seen[x].size() == m[x]; });
      if (a < 0) return;
      in(true, r.chance(60), a);
      int b = ops.back().d;
      if (m[a] != m[b]) return;
      const char* bin[] = {"lt", "le", "gt", "ge", "eq", "eq", "min", "max", "sub"};
      Op o; o.ev = "bin"; o.op = bin[r.below(9)]; o.a = r.coin() ? a : b; o.b = o.a == a ? b : a;
      bool bit = o.op[0] == 'l' || o.op[0] == 'g' || o.op == "eq", rs = sec(a) || sec(b);
      o.d = slot(!bit, rs);
      int k = m[a];
      m[o.d] = k;
      ops.push_back(o);
      if (r.chance(60)) read(o.d);
    }
    else if (pc < 18) {
      if (w == 64) return;
      Op o; o.ev = "badin"; o.form = r.coin() ? "pub" : "priv"; o.party = r.below(n);
      int k = batch ? r.range(1, 4) : 1;
      for (int i = 0; i < k; i++) o.vals.push_back(value());
      o.vals[r.below(k)] = outside();
      ops.push_back(o);
    } else if (pc < 50) {
      const char* bin[] = {"add", "sub", "add", "sub", "lt", "le", "gt", "ge", "eq", "min", "max"};
      int a = pick(anyInt);
      if (a < 0) return;
      int b = pick([&](int x) { return isInt(x) && m[x] == m[a]; });
      Op o; o.ev = "bin"; o.op = bin[r.below(11)]; o.a = a; o.b = b;
      bool bit = o.op[0] == 'l' || o.op[0] == 'g' || o.op == "eq", rs = sec(a) || sec(b);
      o.d = !bit && r.chance(40) && sec(a) == rs ? a : slot(!bit, rs);
      int k = m[a];
      m[o.d] = k;
      ops.push_back(o);
    } else if (pc < 58) {
      int a = pick(anyInt);
      if (a < 0 || !sg) return;
      Op o; o.ev = r.coin() ? "neg" : "abs"; o.a = a; o.d = r.chance(40) ? a : slot(true, sec(a));
      m[o.d] = m[a];
      ops.push_back(o);
    } else if (pc < 66) {
      int a = pick(anyInt);
      if (a < 0) return;
      int b = pick([&](int x) { return isInt(x) && m[x] == m[a]; });
      int c = pick([&](int x) { return !isInt(x) && m[x] == m[a]; });
      if (c < 0) return;
      bool rs = sec(a) || sec(b) || sec(c);
      Op o; o.ev = "mux"; o.a = a; o.b = b; o.c = c; o.d = r.chance(30) && sec(a) == rs ? a : slot(true, rs);
      int k = m[a];
      m[o.d] = k;
      ops.push_back(o);
    } else if (pc < 72) {
      int a = pick(anyInt);
      if (a < 0) return;
      Op o; o.ev = "cast"; o.a = a; o.idx = r.below(3); o.d = r.chance(30) ? a : slot(true, sec(a)); o.party = r.below(n);
      m[o.d] = m[a];
      ops.push_back(o);
    } else if (pc < 77) {
      int a = pick(anyInt);
      if (a < 0) return;
      Op o; o.ev = "bitget"; o.a = a; o.idx = r.below(w); o.d = slot(false, sec(a)); o.form = r.coin() ? "c" : "m";
      m[o.d] = m[a];
      ops.push_back(o);
    } else if (pc < 80) {
      int d = pick(anyInt);
      if (d < 0) return;
      int a = pick([&](int x) { return !isInt(x) && m[x] == m[d] && sec(x) == sec(d); });
      if (a < 0) return;
      Op o; o.ev = "bitset"; o.d = d; o.a = a; o.idx = r.below(w);
      ops.push_back(o);
    } else if (pc < 81) {
      int a = pick(anyInt);
      if (a < 0) return;
      Op o; o.ev = "badidx"; o.a = a; o.idx = w + r.below(3);
      ops.push_back(o);
    } else if (pc < 86) {
      bool i = r.chance(70);
      int a = slot(i, r.coin());
      Op o; o.ev = r.chance(60) ? "copy" : r.coin() ? "swap" : "move"; o.a = a; o.d = slot(i, sec(a));
      if (o.ev == "move" && o.d == a) return;
      if (o.ev == "swap") std::swap(m[a], m[o.d]);
      else { m[o.d] = m[a]; if (o.ev == "move") m[a] = 0; }
      ops.push_back(o);
    } else if (pc < 89) {
      int a = pick([&](int x) { return isInt(x) && ok(x) && sec(x); });
      if (a < 0) return;
      Op o; o.ev = "reshare"; o.a = a; o.d = slot(true, true);
      m[o.d] = m[a];
      ops.push_back(o);
    } else if (pc < 92 && batch) {
      int a = pick(anyInt);
      if (a < 0) return;
      Op o; o.ev = "batchup"; o.a = a;
      int k = r.chance(75) ? r.range(0, 3) : r.range(4, 7), sz = m[a];
      for (int i = 0; i < k; i++) { int b = pick([&](int x) { return x / 10 == a / 10 && ok(x) && sz + m[x] < 40; }); if (b < 0) break; o.bs.push_back(b); sz += m[b]; }
      o.d = slot(true, sec(a));
      m[o.d] = sz;
      ops.push_back(o);
    } else if (pc < 95 && batch) {
      int a = pick(anyInt);
      if (a < 0) return;
      Op o; o.ev = "unbatch"; o.a = a;
      int left = m[a], k = r.chance(70) ? r.range(1, 2) : r.range(3, NI);
      std::vector<int> t;
      for (int i = 0; i < NI; i++) t.push_back(a / 10 * 10 + i);
      for (int i = 0; i < k; i++) {
        int c = i == k - 1 ? left : left < 1 ? 0 : k > 2 && r.chance(70) ? 1 : r.range(1, left);
        if (c < 1) break;
        o.cut.push_back(c); left -= c;
        int j = r.below(t.size()); o.ds.push_back(t[j]); t.erase(t.begin() + j);
      }
      for (size_t i = 0; i < o.ds.size(); i++) m[o.ds[i]] = o.cut[i];
      ops.push_back(o);
    } else if (pc < 96 && batch) {
      int a = pick(anyInt);
      if (a < 0) return;
      Op o; o.ev = "bsize"; o.a = a; ops.push_back(o);
    } else { int a = pick([&](int x) { return ok(x); }); if (a >= 0) read(a); }
  }
  // more batches put together than a byte counts
  void crowd() {
    int a = pick([&](int x) { return isInt(x) && ok(x) && m[x] <= 2; });
    if (a < 0) return;
    Op o; o.ev = "batchup"; o.a = a;
    int sz = m[a];
    for (int k = r.range(257, 290); k > 0; k--) { int b = pick([&](int x) { return x / 10 == a / 10 && ok(x) && m[x] <= 2; }); o.bs.push_back(b); sz += m[b]; }
    o.d = slot(true, sec(a));
    m[o.d] = sz;
    ops.push_back(o);
    Op q; q.ev = "bsize"; q.a = o.d; ops.push_back(q);
    read(o.d);
    drop(o.d);
  }
  void finish() {
    if (batch && r.chance(4)) crowd();
    std::vector<int> all;
    for (auto& kv : m) all.push_back(kv.first);
    for (int s : all) read(s);
    for (int s : all) drop(s);
    Op o; o.ev = "live"; ops.push_back(o);
  }
};

template <bool SG, int W, bool B>
struct Machine {
  template <bool S> using Int = fe::Int<SG, W, S, 0, B>;
  template <bool S> using Bit = fe::Bit<S, 0, B>;
  using Unit = typename std::conditional<SG, int64_t, uint64_t>::type;
  using IT = typename std::conditional<B, std::vector<Unit>, Unit>::type;
  using BT = typename std::conditional<B, std::vector<bool>, bool>::type;
  Int<true> s[NI];
  Int<false> p[NI];
  Bit<true> sb[NBit];
  Bit<false> pb[NBit];
  int me;
  Rng junk;
  fbpcf::scheduler::IScheduler& sch;
  bool countable;
  Machine(int me, uint64_t seed, fbpcf::scheduler::IScheduler& sch, bool countable) : me(me), junk(seed * 31 + me), sch(sch), countable(countable) {}
  static IT it(const U64& v) { if constexpr (B) return IT(v.begin(), v.end()); else return (Unit)v[0]; }
  static BT bt(const U64& v) { if constexpr (B) return BT(v.begin(), v.end()); else return v[0]; }
  static std::string outI(const IT& v) { if constexpr (B) return jws(U64(v.begin(), v.end())); else return jws({(uint64_t)v}); }
  static std::string outB(const BT& v) { if constexpr (B) return js(v); else return js(std::vector<bool>{v}); }
  template <class F> void I(int k, F f) { if (k < 10) f(s[k]); else f(p[k % 10]); }
  template <class F> void Bv(int k, F f) { if (k < 30) f(sb[k % 10]); else f(pb[k % 10]); }
  void put(int d, Int<true>&& x) { s[d % 10] = std::move(x); }
  void put(int d, Int<false>&& x) { p[d % 10] = std::move(x); }
  void put(int d, Bit<true>&& x) { sb[d % 10] = std::move(x); }
  void put(int d, Bit<false>&& x) { pb[d % 10] = std::move(x); }
  template <bool S> static constexpr bool secI(const Int<S>&) { return S; }

  static constexpr int cw(int k) { return k == 0 ? (W > 2 ? W / 2 : 1) : k == 1 ? (W + 5 > 64 ? 64 : W + 5) : (W == 64 ? 17 : 64); }
  template <int W2> std::string cast(const Op& o) {
    std::string res;
    I(o.a, [&](auto& x) {
      auto y = x.template cast<W2>();
      if constexpr (std::is_same_v<std::decay_t<decltype(x)>, Int<true>>) res = outI(y.openToParty(o.party).getValue());
      else res = outI(y.getValue());
      put(o.d, y.template cast<W>());
    });
    return res;
  }
  std::string run(const Op& o) {
    std::string res;
    if (o.ev == "in") {
      auto v = o.vals;
      if (o.form == "priv" && o.party != me) for (auto& x : v) x = o.d < 20 ? (SG ? (uint64_t)((int64_t)(junk.next() << (64 - W)) >> (64 - W)) : (junk.next() << (64 - W)) >> (64 - W)) : junk.below(2);
      if (o.d < 20) {
        if (o.form == "share") put(o.d, Int<true>(typename Int<true>::ExtractedInt(it(o.shares[me]))));
        else if (o.form == "priv") { if (o.op == "method") s[o.d].privateInput(it(v), o.party); else put(o.d, Int<true>(it(v), o.party)); }
        else { if (o.op == "method") p[o.d % 10].publicInput(it(v)); else put(o.d, Int<false>(it(v))); }
      } else {
        if (o.form == "share") put(o.d, Bit<true>(typename Bit<true>::ExtractedBit(bt(o.shares[me]))));
        else if (o.form == "priv") put(o.d, Bit<true>(bt(v), o.party));
        else put(o.d, Bit<false>(bt(v)));
      }
    } else if (o.ev == "badin") {
      res = "0";
      try { if (o.form == "pub") Int<false> x(it(o.vals)); else Int<true> x(it(o.vals), o.party); } catch (const std::exception&) { res = "1"; }
    } else if (o.ev == "bin") {
      I(o.a, [&](auto& x) { I(o.b, [&](auto& y) {
        if (o.op == "add") put(o.d, x + y);
        else if (o.op == "sub") put(o.d, x - y);
        else if (o.op == "lt") put(o.d, x < y);
        else if (o.op == "le") put(o.d, x <= y);
        else if (o.op == "gt") put(o.d, x > y);
        else if (o.op == "ge") put(o.d, x >= y);
        else if (o.op == "eq") put(o.d, x == y);
        else if (o.op == "min") put(o.d, fe::min(x, y));
        else put(o.d, fe::max(x, y)); }); });
    } else if (o.ev == "neg" || o.ev == "abs") {
      if constexpr (SG) I(o.a, [&](auto& x) { if (o.ev == "neg") put(o.d, -x); else put(o.d, fe::abs(x)); });
    } else if (o.ev == "mux") {
      I(o.a, [&](auto& x) { I(o.b, [&](auto& y) { Bv(o.c, [&](auto& c) { put(o.d, x.mux(c, y)); }); }); });
    } else if (o.ev == "cast") {
      res = o.idx == 0 ? cast<cw(0)>(o) : o.idx == 1 ? cast<cw(1)>(o) : cast<cw(2)>(o);
    } else if (o.ev == "bitget") {
      I(o.a, [&](auto& x) { const auto& cx = x; auto b = o.form == "c" ? cx[o.idx] : x[o.idx]; put(o.d, std::move(b)); });
    } else if (o.ev == "bitset") {
      if (o.d < 10) s[o.d][o.idx] = sb[o.a % 10]; else p[o.d % 10][o.idx] = pb[o.a % 10];
    } else if (o.ev == "badidx") {
      res = "0";
      try { I(o.a, [&](auto& x) { const auto& cx = x; if (o.idx % 2) cx[o.idx]; else x[o.idx]; }); } catch (const std::exception&) { res = "1"; }
    } else if (o.ev == "copy") {
      if (o.a < 10) s[o.d] = s[o.a]; else if (o.a < 20) p[o.d % 10] = p[o.a % 10];
      else if (o.a < 30) sb[o.d % 10] = sb[o.a % 10]; else pb[o.d % 10] = pb[o.a % 10];
    } else if (o.ev == "move") {
      if (o.a < 10) s[o.d] = std::move(s[o.a]); else if (o.a < 20) p[o.d % 10] = std::move(p[o.a % 10]);
      else if (o.a < 30) sb[o.d % 10] = std::move(sb[o.a % 10]); else pb[o.d % 10] = std::move(pb[o.a % 10]);
    } else if (o.ev == "swap") {
      if (o.a < 10) std::swap(s[o.d], s[o.a]); else if (o.a < 20) std::swap(p[o.d % 10], p[o.a % 10]);
      else if (o.a < 30) std::swap(sb[o.d % 10], sb[o.a % 10]); else std::swap(pb[o.d % 10], pb[o.a % 10]);
    } else if (o.ev == "drop") {
      if (o.d < 10) s[o.d] = Int<true>(); else if (o.d < 20) p[o.d % 10] = Int<false>();
      else if (o.d < 30) sb[o.d % 10] = Bit<true>(); else pb[o.d % 10] = Bit<false>();
    } else if (o.ev == "reshare") {
      put(o.d, Int<true>(s[o.a].extractIntShare()));
    } else if (o.ev == "batchup") {
      if constexpr (B) {
        if (o.a < 10) { std::vector<Int<true>> t; for (int b : o.bs) t.push_back(s[b]); put(o.d, s[o.a].batchingWith(t)); }
        else { std::vector<Int<false>> t; for (int b : o.bs) t.push_back(p[b % 10]); put(o.d, p[o.a % 10].batchingWith(t)); }
      }
    } else if (o.ev == "unbatch") {
      if constexpr (B) I(o.a, [&](auto& x) {
        auto z = x.unbatching(std::make_shared<std::vector<uint32_t>>(o.cut));
        if (z.size() != o.cut.size()) throw std::runtime_error("unbatching: size");
        for (size_t i = 0; i < z.size(); i++) put(o.ds[i], std::move(z[i])); });
    } else if (o.ev == "bsize") {
      if constexpr (B) I(o.a, [&](auto& x) { res = js(x.getBatchSize()); });
    } else if (o.ev == "get") {
      if (o.a < 20) res = outI(p[o.a % 10].getValue()); else res = outB(pb[o.a % 10].getValue());
    } else if (o.ev == "open") {
      if (o.a < 20) res = outI(s[o.a].openToParty(o.party).getValue()); else res = outB(sb[o.a % 10].openToParty(o.party).getValue());
    } else if (o.ev == "share") {
      if (o.a < 20) {
        auto e = s[o.a].extractIntShare();
        auto words = e.getValue();
        // the same share, bit by bit (of W bits each)
        auto bits = e.getBooleanShares();
        U64 again;
        if constexpr (B) again.assign(words.size(), 0); else again = {0};
        if (bits.size() != W) throw std::runtime_error("getBooleanShares: bits");
        for (size_t j = 0; j < W; j++) {
          const BT v = bits[j];
          if constexpr (B) { if (v.size() != words.size()) throw std::runtime_error("getBooleanShares: size"); for (size_t k = 0; k < v.size(); k++) again[k] |= (uint64_t)v[k] << j; }
          else again[0] |= (uint64_t)v << j;
        }
        res = "[" + outI(words) + "," + jws(again) + "]";
      } else res = outB(sb[o.a % 10].extractBit().getValue());
    } else if (o.ev == "live") {
      auto w = sch.getWireStatistics();
      res = countable ? js((long)w.first - (long)w.second) : std::string("0");
    }
    return res;
  }
};

template <bool SG, int W, bool B>
void episode(Trace& T, Rng& r, const std::string& kind, bool exh) {
  int n = kind == "plain" ? 1 : r.chance(80) ? 2 : 3;
  Gen g(r, n, W, SG, B);
  if (exh) g.exhaustive();
  else {
    for (int i = 0; i < 8; i++) g.in(i < 6, i % 2 == 0);
    int len = r.range(15, 60);
    for (int i = 0; i < len; i++) g.step();
  }
  g.finish();
  std::vector<std::vector<std::string>> res(n);
  uint64_t seed = r.next();
  auto err = runMpc(kind, n, r.range(1, 2), seed, [&](int me, fbpcf::scheduler::IScheduler& s, AgentFactory&) {
    Machine<SG, W, B> m(me, seed, s, kind != "lazy");
    for (auto& o : g.ops) res[me].push_back(m.run(o));
  });
  size_t done = g.ops.size();
  for (auto& x : res) done = std::min(done, x.size());
  T(Ev("begin").f("n", n).f("sched", kind).f("w", W).f("sg", SG).f("batch", B));
  for (size_t k = 0; k < done; k++) {
    auto& o = g.ops[k];
    std::vector<int> ps(n);
    for (int i = 0; i < n; i++) ps[i] = i;
    auto per = [&] { return jmap(ps, [&](int p) { return res[p][k]; }); };
    Ev ev(o.ev.c_str());
    if (o.d >= 0) ev.f("d", o.d);
    if (o.a >= 0) ev.f("a", o.a);
    if (o.b >= 0) ev.f("b", o.b);
    if (o.c >= 0) ev.f("c", o.c);
    if (!o.op.empty()) ev.f("op", o.op);
    if (!o.form.empty()) ev.f("form", o.form);
    auto vals = [&](const U64& v) { return o.ev == "badin" || o.d < 20 ? jws(v) : js(v); };
    if (o.ev == "badin") ev.raw("vals", vals(o.vals));
    if (o.ev == "in") { if (o.form == "share") ev.raw("shares", jmap(o.shares, vals)); else ev.raw("vals", vals(o.vals)); }
    if (o.ev == "batchup") ev.f("bs", o.bs);
    if (o.ev == "unbatch") ev.f("ds", o.ds).f("cut", o.cut);
    if (o.ev == "bitget" || o.ev == "bitset" || o.ev == "badidx") ev.f("idx", o.idx);
    if (o.ev == "cast") ev.f("w2", o.idx == 0 ? Machine<SG, W, B>::cw(0) : o.idx == 1 ? Machine<SG, W, B>::cw(1) : Machine<SG, W, B>::cw(2));
    if (o.ev == "open" || o.ev == "cast") ev.f("party", o.party);
    for (auto x : {"get", "open", "share", "bsize", "badin", "badidx", "cast", "live"}) if (o.ev == x) ev.raw("out", per());
    T(ev);
  }
  bool failed = false;
  for (auto& x : err) if (!x.empty()) failed = true;
  if (failed) T(Ev("failed").f("next", done < g.ops.size() ? g.ops[done].ev : std::string("-")).f("err", err));
  else T(Ev("end"));
}

template <int W>
void width(Trace& T, Watchdog& wd, Rng& r, bool deep) {
  const char* kinds[] = {"plain", "eager", "lazy", "plain", "netplain"};
  int reps = deep ? 80 : 16;
  if (W <= 4) for (int k = 0; k < 2; k++) {
    wd.tick();
    episode<true, W, true>(T, r, k ? "eager" : "plain", true);
    episode<false, W, true>(T, r, k ? "lazy" : "plain", true);
  }
  for (int i = 0; i < reps; i++) {
    wd.tick();
    episode<true, W, true>(T, r, kinds[r.below(5)], false);
    episode<true, W, false>(T, r, kinds[r.below(5)], false);
    episode<false, W, true>(T, r, kinds[r.below(5)], false);
    episode<false, W, false>(T, r, kinds[r.below(5)], false);
  }
}
template <int... Ws>
void all(Trace& T, Watchdog& wd, Rng& r, bool deep) { (width<Ws>(T, wd, r, deep), ...); }

#ifndef WIDTHS
#define WIDTHS 1, 2, 32
#endif

int main(int c, char** v) {
  Args ar(c, v);
  Trace T(ar.out);
  Watchdog wd(T, 60);
  Rng r(ar.seed);
  all<WIDTHS>(T, wd, r, ar.thorough);
  return 0;
}
