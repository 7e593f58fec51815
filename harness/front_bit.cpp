// Records random programs over the frontend bits and bit strings: operators, copies, moves, assignments (with
// aliasing), elements, batching, openings, shares; and the number of wires alive.
#include "parties.h"
#include "fbpcf/frontend/Bit.h"
#include "fbpcf/frontend/BitString.h"

using namespace vh;
namespace fe = fbpcf::frontend;

constexpr int NB = 4, NS = 3;
struct Op {
  std::string ev, op, form;
  int d = -1, a = -1, b = -1, c = -1, idx = 0, party = 0;
  std::vector<int> bs, ds;
  std::vector<uint32_t> cut;
  std::vector<std::vector<bool>> vals;                 // per cell
  std::vector<std::vector<std::vector<bool>>> shares;  // per party, per cell
};
// slot = kind * 10 + i; kinds: 0 secret bit, 1 public bit, 2 secret string, 3 public string
struct Cell { bool full = false; size_t n = 0; };
struct Gen {
  Rng& r;
  int n;
  bool batch;
  std::map<int, std::vector<Cell>> m;
  std::vector<Op> ops;
  size_t base, slen;
  Gen(Rng& r, int n, bool batch) : r(r), n(n), batch(batch) {
    for (int i = 0; i < NB; i++) { m[i] = {Cell()}; m[10 + i] = {Cell()}; }
    for (int i = 0; i < NS; i++) { m[20 + i] = {}; m[30 + i] = {}; }
    base = batch ? r.range(1, 5) : 1;
    slen = r.chance(60) ? r.range(1, 4) : r.chance(60) ? r.range(5, 16) : r.range(17, 40);  // usual length of the strings
  }
  static bool sec(int s) { return (s / 10) % 2 == 0; }
  static bool str(int s) { return s >= 20; }
  bool ready(int s) { for (auto& c : m[s]) if (!c.full) return false; return str(s) ? !m[s].empty() : true; }
  bool same(int a, int b) {
    if (m[a].size() != m[b].size()) return false;
    for (size_t i = 0; i < m[a].size(); i++) if (m[a][i].n != m[b][i].n) return false;
    return true;
  }
  bool uniform(int a) { for (auto& y : m[a]) if (y.n != m[a][0].n) return false; return true; }
  template <class P> int pick(P p) {
    std::vector<int> c;
    for (auto& kv : m) if (p(kv.first)) c.push_back(kv.first);
    return c.empty() ? -1 : c[r.below(c.size())];
  }
  int slot(bool s, bool secret) { return (s ? 20 : 0) + (secret ? 0 : 10) + r.below(s ? NS : NB); }
  void in(bool s, bool secret) {
    Op o; o.ev = "in"; o.d = slot(s, secret);
    size_t k = !s ? 1 : r.chance(60) ? slen : r.range(1, 4), sz = batch ? (r.chance(80) ? base : r.range(1, 5)) : 1;
    o.form = !secret ? "pub" : r.chance(70) ? "priv" : "share";
    if (r.chance(30) && !s && o.form != "share") o.op = "method";  // privateInput()/publicInput() on an existing bit
    o.party = r.below(n);
    for (size_t i = 0; i < k; i++) o.vals.push_back(r.bits(sz));
    for (int p = 0; p < n; p++) { std::vector<std::vector<bool>> x; for (size_t i = 0; i < k; i++) x.push_back(r.bits(sz)); o.shares.push_back(x); }
    m[o.d] = std::vector<Cell>(k, Cell{true, sz});
    ops.push_back(o);
  }
  void live() { Op o; o.ev = "live"; ops.push_back(o); }
  void read(int s) {
    if (!ready(s)) return;
    Op o; o.a = s;
    if (!sec(s)) o.ev = "get";
    else { o.ev = r.chance(65) || !uniform(s) ? "open" : "share"; o.party = r.below(n); }
    ops.push_back(o);
  }
  void drop(int s) {
    Op o; o.ev = "drop"; o.d = s;
    m[s] = str(s) ? std::vector<Cell>{} : std::vector<Cell>{Cell()};
    ops.push_back(o);
  }
  void step() {
    int pc = r.below(100);
    bool s = r.chance(35);
    if (pc < 14) in(s, r.chance(60));
    else if (pc < 20) {
      int a = pick([&](int x) { return str(x) == s && ready(x); });
      if (a < 0) return;
      Op o; o.ev = "not"; o.a = a; o.d = r.chance(30) ? a : slot(s, sec(a));
      m[o.d] = m[a];
      ops.push_back(o);
    } else if (pc < 40) {
      int a = pick([&](int x) { return str(x) == s && ready(x); });
      if (a < 0) return;
      int b = pick([&](int x) { return str(x) == s && ready(x) && same(a, x); });
      bool rs = sec(a) || sec(b);
      Op o; o.ev = "bin"; o.a = a; o.b = b;
      int k = r.below(s ? 2 : 3);
      o.op = k == 0 ? "and" : k == 1 ? "xor" : "or";
      o.d = r.chance(30) && sec(a) == rs ? a : r.chance(20) && sec(b) == rs ? b : slot(s, rs);
      auto v = m[a];
      m[o.d] = v;
      ops.push_back(o);
    } else if (pc < 46) {
      int a = pick([&](int x) { return !str(x) && ready(x); });
      if (a < 0) return;
      bool bs = r.coin();
      Op o; o.ev = "vec"; o.a = a; o.form = r.coin() ? "array" : "vector";
      int k = o.form == "array" ? 2 : r.range(1, 3);
      for (int i = 0; i < k; i++) {
        int b = pick([&](int x) { return !str(x) && ready(x) && sec(x) == bs && same(a, x); });
        if (b < 0) return;
        o.bs.push_back(b);
      }
      std::vector<int> t;
      for (int i = 0; i < NB; i++) t.push_back((sec(a) || bs ? 0 : 10) + i);
      for (int i = 0; i < k; i++) { int j = r.below(t.size()); o.ds.push_back(t[j]); t.erase(t.begin() + j); }
      auto v = m[a];
      for (int d : o.ds) m[d] = v;
      ops.push_back(o);
    } else if (pc < 51) {
      int a = pick([&](int x) { return str(x) && ready(x); });
      if (a < 0) return;
      int b = pick([&](int x) { return str(x) && ready(x) && same(a, x); });
      int c = pick([&](int x) { return !str(x) && ready(x) && m[x][0].n == m[a][0].n; });
      if (c < 0) return;
      for (auto& y : m[a]) if (y.n != m[c][0].n) return;
      Op o; o.ev = "mux"; o.a = a; o.b = b; o.c = c;
      bool rs = sec(a) || sec(b) || sec(c);
      o.d = r.chance(30) && sec(a) == rs ? a : slot(true, rs);
      auto v = m[a];
      m[o.d] = v;
      ops.push_back(o);
    } else if (pc < 60) {
      int a = pick([&](int x) { return str(x) == s; });
      Op o; o.ev = "copy"; o.a = a; o.d = r.chance(30) ? a : slot(s, sec(a));
      o.form = r.coin() ? "assign" : "construct";
      m[o.d] = m[a];
      ops.push_back(o);
    } else if (pc < 65) {
      int a = pick([&](int x) { return str(x) == s; });
      Op o; o.ev = "move"; o.a = a; o.d = slot(s, sec(a));
      o.form = r.coin() ? "assign" : "construct";
      if (o.d == a) { if (s) return; o.form = "assign"; ops.push_back(o); return; }
      m[o.d] = m[a];
      m[a] = s ? std::vector<Cell>{} : std::vector<Cell>{Cell()};
      ops.push_back(o);
    } else if (pc < 68) {
      int a = pick([&](int x) { return str(x) == s; });
      Op o; o.ev = "swap"; o.a = a; o.b = slot(s, sec(a));
      std::swap(m[a], m[o.b]);
      ops.push_back(o);
    } else if (pc < 71) drop(slot(s, r.coin()));
    else if (pc < 75) {
      int a = pick([&](int x) { return str(x) && !m[x].empty(); });
      if (a < 0) return;
      Op o; o.ev = "elget"; o.a = a; o.idx = r.below(m[a].size()); o.d = slot(false, sec(a));
      o.form = r.coin() ? "at" : "index";
      m[o.d] = {m[a][o.idx]};
      ops.push_back(o);
    } else if (pc < 79) {
      int d = pick([&](int x) { return str(x) && !m[x].empty(); });
      if (d < 0) return;
      int a = slot(false, sec(d));
      Op o; o.ev = "elset"; o.a = a; o.idx = r.below(m[d].size()); o.d = d;
      m[d][o.idx] = m[a][0];
      ops.push_back(o);
    } else if (pc < 81) {
      int d = slot(true, r.coin());
      Op o; o.ev = "resize"; o.d = d; o.idx = r.chance(70) ? r.below(5) : r.below(slen + 3);
      m[d].resize(o.idx);
      ops.push_back(o);
    } else if (pc < 84) {
      int a = pick([&](int x) { return sec(x) && str(x) == s && ready(x) && uniform(x); });
      if (a < 0) return;
      Op o; o.ev = "reshare"; o.a = a; o.d = r.chance(30) ? a : slot(s, true);
      auto v = m[a];
      m[o.d] = v;
      ops.push_back(o);
    } else if (pc < 88 && batch) {
      int a = pick([&](int x) { return ready(x) && str(x) == s; });
      if (a < 0) return;
      Op o; o.ev = "batchup"; o.a = a;
      auto v = m[a];
      int k = r.range(0, 3);
      for (int i = 0; i < k; i++) {
        int b = pick([&](int x) { return ready(x) && x / 10 == a / 10 && m[x].size() == m[a].size(); });
        bool big = false;
        for (size_t j = 0; j < v.size(); j++) if (v[j].n + m[b][j].n > 24) big = true;
        if (big) break;
        o.bs.push_back(b);
        for (size_t j = 0; j < v.size(); j++) v[j].n += m[b][j].n;
      }
      o.d = r.chance(30) ? a : slot(s, sec(a));
      m[o.d] = v;
      ops.push_back(o);
    } else if (pc < 92 && batch) {
      int a = pick([&](int x) { return ready(x) && str(x) == s; });
      if (a < 0) return;
      for (auto& y : m[a]) if (y.n != m[a][0].n) return;
      Op o; o.ev = "unbatch"; o.a = a;
      int left = m[a][0].n, k = r.chance(70) ? r.range(1, 2) : s ? NS : NB;
      std::vector<int> t;
      for (int i = 0; i < (s ? NS : NB); i++) t.push_back(a / 10 * 10 + i);
      for (int i = 0; i < k; i++) {
        int c = i == k - 1 ? left : left < 1 ? 0 : k > 2 && r.chance(60) ? 1 : r.range(1, left);
        if (c < 1) break;
        o.cut.push_back(c); left -= c;
        int j = r.below(t.size()); o.ds.push_back(t[j]); t.erase(t.begin() + j);
      }
      auto v = m[a];
      for (size_t i = 0; i < o.ds.size(); i++) { auto y = v; for (auto& z : y) z.n = o.cut[i]; m[o.ds[i]] = y; }
      ops.push_back(o);
    } else if (pc < 93 && batch) {
      int a = pick([&](int x) { return ready(x); });
      if (a < 0) return;
      Op o; o.ev = "bsize"; o.a = a;
      ops.push_back(o);
    } else if (pc < 94 && batch && r.coin()) {
      // a share of a string whose bits do not all have one batch size
      Op o; o.ev = "ragged";
      size_t k = r.range(2, 6), sz = r.range(1, 4);
      std::vector<std::vector<bool>> x(k);
      for (auto& y : x) y = r.bits(sz);
      x[r.range(1, k - 1)] = r.bits(r.coin() ? sz + 1 : sz - 1);
      o.vals = x;
      ops.push_back(o);
    } else if (pc < 94) {
      int a = pick([&](int x) { return str(x) && ready(x); });
      if (a < 0) return;
      int b = pick([&](int x) { return str(x) && ready(x) && m[x].size() != m[a].size(); });
      if (b < 0) return;
      Op o; o.ev = "mismatch"; o.a = a; o.b = b;
      int k = r.below(batch && sec(a) == sec(b) ? 4 : 3);
      o.op = k == 0 ? "and" : k == 1 ? "xor" : k == 2 ? "mux" : "batchup";
      if (k == 2) { o.c = pick([&](int x) { return !str(x) && ready(x); }); if (o.c < 0) return; }
      ops.push_back(o);
    } else {
      int a = pick([&](int x) { return ready(x); });
      if (a >= 0) read(a);
    }
    if (r.chance(15)) live();
  }
  // more batches put together than a byte counts
  void crowd() {
    auto fit = [&](int x) { return ready(x) && uniform(x) && m[x].size() <= 4 && m[x][0].n <= 3; };
    int a = pick(fit);
    if (a < 0) return;
    Op o; o.ev = "batchup"; o.a = a;
    auto v = m[a];
    for (int k = r.range(257, 290); k > 0; k--) {
      int b = pick([&](int x) { return fit(x) && x / 10 == a / 10 && m[x].size() == m[a].size(); });
      o.bs.push_back(b);
      for (size_t j = 0; j < v.size(); j++) v[j].n += m[b][j].n;
    }
    o.d = slot(str(a), sec(a));
    m[o.d] = v;
    ops.push_back(o);
    Op q; q.ev = "bsize"; q.a = o.d; ops.push_back(q);
    read(o.d);
    drop(o.d);
  }
  void finish() {
    if (batch && r.chance(8)) crowd();
    std::vector<int> all;
    for (auto& kv : m) all.push_back(kv.first);
    for (int s : all) read(s);
    live();
    for (int s : all) drop(s);
    live();
  }
};

template <bool B>
struct Machine {
  template <bool S> using Bit = fe::Bit<S, 0, B>;
  template <bool S> using Str = fe::BitString<S, 0, B>;
  using BT = typename std::conditional<B, std::vector<bool>, bool>::type;
  Bit<true> s[NB];
  Bit<false> p[NB];
  Str<true> S[NS];
  Str<false> P[NS];
  int me;
  Rng junk;
  fbpcf::scheduler::IScheduler& sch;
  bool countable;
  Machine(int me, uint64_t seed, fbpcf::scheduler::IScheduler& sch, bool countable) : me(me), junk(seed * 31 + me), sch(sch), countable(countable) {}

  static BT bt(const std::vector<bool>& v) { if constexpr (B) return v; else return v[0]; }
  static std::vector<bool> vb(const BT& v) { if constexpr (B) return v; else return {v}; }
  static std::vector<BT> bts(const std::vector<std::vector<bool>>& v) { std::vector<BT> r; for (auto& x : v) r.push_back(bt(x)); return r; }
  static std::string out(const std::vector<std::vector<bool>>& v) { return jmap(v, [](std::vector<bool> x) { return js(x); }); }

  template <class F> void bit(int k, F f) { if (k / 10 == 0) f(s[k % 10]); else f(p[k % 10]); }
  template <class F> void str(int k, F f) { if (k / 10 == 2) f(S[k % 10]); else f(P[k % 10]); }
  template <class F> void any(int k, F f) { if (k < 20) bit(k, f); else str(k, f); }
  void put(int d, Bit<true>&& x) { s[d % 10] = std::move(x); }
  void put(int d, Bit<false>&& x) { p[d % 10] = std::move(x); }
  void put(int d, Str<true>&& x) { S[d % 10] = std::move(x); }
  void put(int d, Str<false>&& x) { P[d % 10] = std::move(x); }
  template <class T> T& at(int d, T*) {
    if constexpr (std::is_same_v<T, Bit<true>>) return s[d % 10];
    else if constexpr (std::is_same_v<T, Bit<false>>) return p[d % 10];
    else if constexpr (std::is_same_v<T, Str<true>>) return S[d % 10];
    else return P[d % 10];
  }
  template <class T> static constexpr bool isStr = std::is_same_v<T, Str<true>> || std::is_same_v<T, Str<false>>;
  template <class T> static constexpr bool isSec = std::is_same_v<T, Bit<true>> || std::is_same_v<T, Str<true>>;

  std::string run(const Op& o) {
    std::string res;
    if (o.ev == "in") {
      auto v = o.vals;
      if (o.form == "priv" && o.party != me) for (auto& x : v) for (size_t i = 0; i < x.size(); i++) x[i] = junk.coin();
      if (o.form == "share") {
        auto sh = o.shares[me];
        if (o.d < 20) put(o.d, Bit<true>(typename Bit<true>::ExtractedBit(bt(sh[0]))));
        else put(o.d, Str<true>(typename Str<true>::ExtractedString(bts(sh))));
      } else if (o.d < 10) {
        if (o.op == "method") s[o.d].privateInput(bt(v[0]), o.party);
        else put(o.d, Bit<true>(bt(v[0]), o.party));
      } else if (o.d < 20) {
        if (o.op == "method") p[o.d % 10].publicInput(bt(v[0]));
        else put(o.d, Bit<false>(bt(v[0])));
      } else if (o.d < 30) put(o.d, Str<true>(bts(v), o.party));
      else put(o.d, Str<false>(bts(v)));
    } else if (o.ev == "not") {
      any(o.a, [&](auto& x) { put(o.d, !x); });
    } else if (o.ev == "bin") {
      if (o.a < 20)
        bit(o.a, [&](auto& x) { bit(o.b, [&](auto& y) {
          if (o.op == "and") put(o.d, x & y); else if (o.op == "xor") put(o.d, x ^ y); else put(o.d, x | y); }); });
      else
        str(o.a, [&](auto& x) { str(o.b, [&](auto& y) { if (o.op == "and") put(o.d, x & y); else put(o.d, x ^ y); }); });
    } else if (o.ev == "vec") {
      bit(o.a, [&](auto& x) { bit(o.bs[0], [&](auto& y) {
        using Y = std::decay_t<decltype(y)>;
        if (o.form == "array") {
          std::array<Y, 2> ys{at(o.bs[0], (Y*)0), at(o.bs[1], (Y*)0)};
          auto z = x & ys;
          for (size_t i = 0; i < z.size(); i++) put(o.ds[i], std::move(z[i]));
        } else {
          std::vector<Y> ys;
          for (int b : o.bs) ys.push_back(at(b, (Y*)0));
          auto z = x & ys;
          if (z.size() != ys.size()) throw std::runtime_error("vector and: size");
          for (size_t i = 0; i < z.size(); i++) put(o.ds[i], std::move(z[i]));
        } }); });
    } else if (o.ev == "mux") {
      str(o.a, [&](auto& x) { str(o.b, [&](auto& y) { bit(o.c, [&](auto& c) { put(o.d, x.mux(c, y)); }); }); });
    } else if (o.ev == "copy") {
      any(o.a, [&](auto& x) {
        using X = std::decay_t<decltype(x)>;
        if (o.form == "assign") at(o.d, (X*)0) = x;
        else { X t(x); put(o.d, std::move(t)); } });
    } else if (o.ev == "move") {
      any(o.a, [&](auto& x) {
        using X = std::decay_t<decltype(x)>;
        if (o.form == "assign") at(o.d, (X*)0) = std::move(x);
        else { X t(std::move(x)); at(o.d, (X*)0) = t; } });
    } else if (o.ev == "swap") {
      any(o.a, [&](auto& x) { using X = std::decay_t<decltype(x)>; std::swap(x, at(o.b, (X*)0)); });
    } else if (o.ev == "drop") {
      any(o.d, [&](auto& x) { using X = std::decay_t<decltype(x)>; x = X(); });
    } else if (o.ev == "elget") {
      str(o.a, [&](auto& x) {
        const auto& cx = x;
        auto t = o.form == "at" ? cx.at(o.idx) : cx[o.idx];
        put(o.d, std::move(t)); });
    } else if (o.ev == "elset") {
      str(o.d, [&](auto& x) {
        if constexpr (isSec<std::decay_t<decltype(x)>>) x[o.idx] = s[o.a % 10]; else x[o.idx] = p[o.a % 10]; });
    } else if (o.ev == "resize") {
      str(o.d, [&](auto& x) { x.resize(o.idx); });
    } else if (o.ev == "reshare") {
      if (o.a < 20) put(o.d, Bit<true>(s[o.a].extractBit()));
      else put(o.d, Str<true>(S[o.a % 10].extractStringShare()));
    } else if (o.ev == "batchup") {
      if constexpr (B) {
        if (o.a < 20) bit(o.a, [&](auto& x) {
          using X = std::decay_t<decltype(x)>;
          std::vector<X> o2;
          for (int b : o.bs) o2.push_back(at(b, (X*)0));
          put(o.d, x.batchingWith(o2)); });
        else {
          str(o.a, [&](auto& x) {
            using X = std::decay_t<decltype(x)>;
            std::vector<X> o2;
            for (int b : o.bs) o2.push_back(at(b, (X*)0));
            put(o.d, x.batchingWith(o2)); });
        }
      }
    } else if (o.ev == "unbatch") {
      if constexpr (B) any(o.a, [&](auto& x) {
        auto z = x.unbatching(std::make_shared<std::vector<uint32_t>>(o.cut));
        if (z.size() != o.cut.size()) throw std::runtime_error("unbatching: size");
        for (size_t i = 0; i < z.size(); i++) put(o.ds[i], std::move(z[i])); });
    } else if (o.ev == "bsize") {
      if constexpr (B) any(o.a, [&](auto& x) { res = js(x.getBatchSize()); });
    } else if (o.ev == "ragged") {
      res = "0";
      if constexpr (B) try { typename Str<true>::ExtractedString e(o.vals); } catch (const std::exception&) { res = "1"; }
    } else if (o.ev == "mismatch") {
      res = "0";
      try {
        str(o.a, [&](auto& x) { str(o.b, [&](auto& y) {
          if (o.op == "and") x & y;
          else if (o.op == "xor") x ^ y;
          else if (o.op == "mux") bit(o.c, [&](auto& c) { x.mux(c, y); });
          else if constexpr (B && std::is_same_v<decltype(x), decltype(y)>) x.batchingWith({y}); }); });
      } catch (const std::exception&) { res = "1"; }
    } else if (o.ev == "get" || o.ev == "open" || o.ev == "share") {
      std::vector<std::vector<bool>> r;
      any(o.a, [&](auto& x) {
        using X = std::decay_t<decltype(x)>;
        if constexpr (!isSec<X>) {
          if constexpr (isStr<X>) { for (const auto& y : x.getValue()) r.push_back(vb(y)); } else r.push_back(vb(x.getValue()));
        } else if (o.ev == "open") {
          if constexpr (isStr<X>) { for (const auto& y : x.openToParty(o.party).getValue()) r.push_back(vb(y)); } else r.push_back(vb(x.openToParty(o.party).getValue()));
        } else {
          if constexpr (isStr<X>) {
            auto e = x.extractStringShare();
            if (o.party % 2) for (const auto& y : e.getValue()) r.push_back(vb(y));
            else for (size_t i = 0; i < e.size(); i++) r.push_back(vb(e[i].getValue()));
          } else r.push_back(vb(x.extractBit().getValue()));
        } });
      res = out(r);
    } else if (o.ev == "live") {
      auto w = sch.getWireStatistics();
      res = countable ? js((long)w.first - (long)w.second) : std::string("-1");
    }
    return res;
  }
};

int main(int c, char** v) {
  Args ar(c, v);
  Trace T(ar.out);
  Watchdog wd(T, 40);
  Rng r(ar.seed);
  int episodes = ar.thorough ? 2400 : 420;
  const char* kinds[] = {"plain", "eager", "lazy", "plain", "lazy", "netplain", "eager"};
  for (int e = 0; e < episodes; e++) {
    wd.tick();
    std::string kind = kinds[e % 7];
    int n = kind == "plain" ? 1 : r.chance(70) ? 2 : 3, wk = r.range(1, 2);
    bool batch = r.coin();
    Gen g(r, n, batch);
    int len = r.range(20, ar.thorough ? 160 : 110);
    for (int i = 0; i < 6; i++) g.in(i >= 4, i % 2 == 0);
    for (int i = 0; i < len; i++) g.step();
    g.finish();
    std::vector<std::vector<std::string>> res(n);
    uint64_t seed = r.next();
    auto err = runMpc(kind, n, wk, seed, [&](int me, fbpcf::scheduler::IScheduler& s, AgentFactory&) {
      auto go = [&](auto& m) { for (auto& o : g.ops) res[me].push_back(m.run(o)); };
      if (batch) { Machine<true> m(me, seed, s, kind != "lazy"); go(m); } else { Machine<false> m(me, seed, s, kind != "lazy"); go(m); }
    });
    size_t done = g.ops.size();
    for (auto& x : res) done = std::min(done, x.size());
    T(Ev("begin").f("n", n).f("sched", kind).f("batch", batch));
    for (size_t k = 0; k < done; k++) {
      auto& o = g.ops[k];
      std::vector<int> ps(n);
      for (int i = 0; i < n; i++) ps[i] = i;
      auto per = [&] { return jmap(ps, [&](int p) { return res[p][k]; }); };
      auto cells = [](const std::vector<std::vector<bool>>& v) { return jmap(v, [](std::vector<bool> x) { return js(x); }); };
      Ev ev(o.ev.c_str());
      if (o.d >= 0) ev.f("d", o.d);
      if (o.a >= 0) ev.f("a", o.a);
      if (o.b >= 0) ev.f("b", o.b);
      if (o.c >= 0) ev.f("c", o.c);
      if (!o.op.empty()) ev.f("op", o.op);
      if (!o.form.empty()) ev.f("form", o.form);
      if (o.ev == "in") { if (o.form == "share") ev.raw("shares", jmap(o.shares, cells)); else ev.raw("vals", cells(o.vals)); }
      if (o.ev == "ragged") ev.raw("vals", cells(o.vals));
      if (o.ev == "vec" || o.ev == "batchup") ev.f("bs", o.bs);
      if (o.ev == "vec" || o.ev == "unbatch") ev.f("ds", o.ds);
      if (o.ev == "unbatch") ev.f("cut", o.cut);
      if (o.ev == "elget" || o.ev == "elset" || o.ev == "resize") ev.f("idx", o.idx + (o.ev == "resize" ? 0 : 1));
      if (o.ev == "open") ev.f("party", o.party);
      if (o.ev == "get" || o.ev == "open" || o.ev == "share" || o.ev == "live" || o.ev == "bsize" || o.ev == "mismatch" || o.ev == "ragged") ev.raw("out", per());
      T(ev);
    }
    bool failed = false;
    for (auto& x : err) if (!x.empty()) failed = true;
    if (failed) T(Ev("failed").f("next", done < g.ops.size() ? g.ops[done].ev : std::string("-")).f("err", err));
    else T(Ev("end"));
  }
  return 0;
}
