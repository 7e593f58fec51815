// Records uses of the typed containers of the MPC library: plaintext conversions and arithmetic (mode plain),
// secret columns of every element type (mode mpc), random permutations and public seeds (mode perm).
#include <openssl/sha.h>
#ifndef PART
#define PART 0
#endif
#include "mpc_types.h"
#include "fbpcf/engine/util/AesPrg.h"
#include "fbpcf/mpc_std_lib/util/secureRandomPermutation.h"
#include "fbpcf/mpc_std_lib/util/secureSamplePublicSeed.h"

using namespace vh;

static std::string jm(const __m128i& v) {
  unsigned char b[16];
  memcpy(b, &v, 16);
  std::string r = "[";
  for (int i = 0; i < 16; i++) r += (i ? "," : "") + std::to_string((int)b[i]);
  return r + "]";
}
static __m128i rnd(Rng& r) {
  unsigned char b[16];
  for (auto& x : b) x = r.chance(20) ? (r.coin() ? 255 : 0) : (unsigned char)r.next();
  __m128i v;
  memcpy(&v, b, 16);
  return v;
}

// ---- plaintext -------------------------------------------------------------------------------------
template <class F> static void attempt(Trace& T, Ev ev, F f) {
  try {
    std::string got = f();
    T(ev.f("ok", 1).raw("out", got));
  } catch (const std::exception& e) {
    T(ev.f("ok", 0).f("err", e.what()));
  }
}
template <class T> static Ev typed(const char* ev, int w, bool sg) { return Ev(ev).f("kind", Ty<T>::name()).f("w", w).f("sg", sg); }

template <class T> void conversions(Trace& Tr, Rng& r, int w, bool sg, int reps, bool exact) {
  for (int i = 0; i < reps; i++) {
    T v = Ty<T>::rand(r);
    attempt(Tr, typed<T>("tobits", w, sg).raw("val", Ty<T>::j(v)), [&] { return js(mu::Adapters<T>::convertToBits(v)); });
    int len = r.chance(60) ? w : exact && r.coin() ? w + 1 - 2 * (int)r.below(2) : (int)r.below(w + 3);
    auto b = r.bits(len);
    if (r.chance(20)) b = std::vector<bool>(len, true);
    if (r.chance(30)) {  // a stretch of zeros, such as one component
      size_t from = r.coin() ? 0 : len / 2, to = from ? len : r.coin() ? len / 2 : r.below(len + 1);
      for (size_t k = from; k < to; k++) b[k] = false;
    }
    attempt(Tr, typed<T>("frombits", w, sg).f("bits", b), [&] { return Ty<T>::j(mu::Adapters<T>::convertFromBits(b)); });
    auto key = rnd(r);
    attempt(Tr, typed<T>("gen", w, sg).raw("key", jm(key)), [&] { return Ty<T>::j(mu::Adapters<T>::generateFromKey(key)); });
  }
}
template <bool SG, int W> void intp(Trace& T, Rng& r, int reps) {
  using I = mu::Intp<SG, (int8_t)W>;
  using Y = Ty<I>;
  using N = typename I::NativeType;
  conversions<I>(T, r, W, SG, reps, false);
  std::vector<std::pair<uint64_t, uint64_t>> ps;
  if (W <= 3) for (uint64_t i = 0; i < (1u << W); i++) for (uint64_t k = 0; k < (1u << W); k++) ps.emplace_back(Y::canon(i), Y::canon(k));
  for (int i = 0; i < reps; i++) ps.emplace_back(Y::raw(r), Y::raw(r));
  for (auto& p : ps) {
    auto ev = [&](const char* op) { return Ev("arith").f("op", op).f("w", W).f("sg", SG).raw("a", jw(p.first)).raw("b", jw(p.second)); };
    attempt(T, ev("add"), [&] { return Y::j(I((N)p.first) + I((N)p.second)); });
    attempt(T, ev("sub"), [&] { return Y::j(I((N)p.first) - I((N)p.second)); });
    attempt(T, ev("neg"), [&] { return Y::j(-I((N)p.first)); });
    // any native value: refused or kept
    N x = (N)(r.coin() ? p.first : r.coin() ? (p.second ^ (W < 64 ? 1ull << W : 0)) : r.next());
    attempt(T, Ev("make").f("w", W).f("sg", SG).raw("val", jw(SG ? (uint64_t)(int64_t)x : (uint64_t)x)), [&] { return Y::j(I(x)); });
  }
}
template <int... Ws> void intps(std::integer_sequence<int, Ws...>, Trace& T, Rng& r, int reps, int shard, int shards) {
  ((Ws % shards == shard ? (intp<true, Ws + 1>(T, r, reps), intp<false, Ws + 1>(T, r, reps)) : void()), ...);
}
#if PART == 0
static void plain(Args& ar, Trace& T, Watchdog& wd) {
  Rng r(ar.seed * 7919 + ar.shard);
  int reps = ar.thorough ? 40 : 6;
  T(Ev("begin").f("n", 1).f("sched", "-").f("kind", "-"));
  intps(std::make_integer_sequence<int, 64>(), T, r, reps, ar.shard, ar.shards);
  wd.tick();
  conversions<uint32_t>(T, r, 32, false, reps * 4, false);
  conversions<Agg>(T, r, 64, false, reps * 4, true);
  for (int i = 0; i < reps; i++) {
    int n = i == 0 ? r.range(257, 300) : r.range(1, 12);
    std::vector<__m128i> v(n);
    for (auto& x : v) x = rnd(r);
    auto jb = [](const std::vector<std::vector<bool>>& m) { return jmap(m, [](const std::vector<bool>& b) { return js(b); }); };
    attempt(T, Ev("planes").raw("vals", jmap(v, jm)), [&] { return jb(mu::convertToBits(v)); });
    std::vector<std::vector<bool>> m(r.chance(80) ? 128 : r.range(1, 200));
    for (auto& x : m) x = r.bits(n);
    attempt(T, Ev("blocks").f("n", n).raw("planes", jb(m)), [&] { return jmap(mu::convertFromBits(m), jm); });
  }
  // aggregation values form a group, component by component
  for (int i = 0; i < reps * 4; i++) {
    Agg a = Ty<Agg>::rand(r), b = Ty<Agg>::rand(r), c = a;
    c += b;
    uint32_t v = r.chance(30) ? 0 : Ty<uint32_t>::rand(r);
    T(Ev("agg").raw("a", Ty<Agg>::j(a)).raw("b", Ty<Agg>::j(b)).raw("add", Ty<Agg>::j(a + b)).raw("sub", Ty<Agg>::j(a - b))
          .raw("neg", Ty<Agg>::j(-a)).raw("inc", Ty<Agg>::j(c)).f("same", a == b).f("self", a == Agg(a))
          .raw("v", jw(v)).raw("one", Ty<Agg>::j(Agg(v))));
  }
  T(Ev("end"));
}
#else
// ---- secret columns --------------------------------------------------------------------------------
struct Op {
  std::string ev;
  int d = -1, d2 = -1, a = -1, b = -1, i = -1, party = 0;
  std::vector<int> bs, ds;
  std::vector<uint32_t> cut;
  size_t n = 0;
  uint64_t seed = 0;
};
constexpr int NC = 4, NB = 2;
template <class T> struct Prog {
  Rng& r;
  int n;
  std::vector<size_t> col = std::vector<size_t>(NC, 0), bit = std::vector<size_t>(NB, 0);
  std::vector<bool> has = std::vector<bool>(NC, false), hasB = std::vector<bool>(NB, false);
  std::vector<Op> ops;
  size_t base;
  bool canRecover;
  Prog(Rng& r, int n, bool rec) : r(r), n(n), canRecover(rec) {
    base = r.chance(12) ? r.bigSize() : r.chance(10) ? 1 : r.range(1, 7);
    for (int k = 0; k < NC; k++) in(k);
    for (int k = 0; k < NB; k++) bits(k);
    int len = r.range(10, 30);
    if (base > 40) len = 8;
    for (int k = 0; k < len; k++) step();
    for (int k = 0; k < NC; k++) if (has[k]) open(k);
  }
  size_t size() { return r.chance(85) ? base : r.range(1, 7); }
  void in(int d) {
    Op o; o.d = d; o.n = size(); o.seed = r.next(); o.party = r.below(n);
    o.ev = Ty<T>::recover && canRecover && r.chance(40) ? "recover" : "in";
    col[d] = o.n; has[d] = true;
    ops.push_back(o);
  }
  void bits(int d) { Op o; o.ev = "bits"; o.d = d; o.n = size(); o.seed = r.next(); o.party = r.below(n); bit[d] = o.n; hasB[d] = true; ops.push_back(o); }
  void open(int a) { Op o; o.ev = "open"; o.a = a; o.party = r.below(n); ops.push_back(o); }
  int any() { std::vector<int> c; for (int k = 0; k < NC; k++) if (has[k]) c.push_back(k); return c.empty() ? -1 : c[r.below(c.size())]; }
  void step() {
    int pc = r.below(100), a = any();
    if (a < 0 || pc < 12) { in(r.below(NC)); return; }
    if (pc < 20) { bits(r.below(NB)); return; }
    if (pc < 50) {
      Op o; o.ev = "swap"; o.a = a; o.b = any(); o.i = r.below(NB);
      if (col[o.a] != col[o.b] || !hasB[o.i] || bit[o.i] != col[a]) { bits(o.i = r.below(NB)); ops.back().n = bit[o.i] = col[a]; if (col[o.a] != col[o.b]) o.b = a; }
      o.d = r.below(NC); o.d2 = (o.d + 1 + r.below(NC - 1)) % NC;
      has[o.d] = has[o.d2] = true; col[o.d] = col[o.d2] = col[a];
      ops.push_back(o);
    } else if (pc < 62 && Ty<T>::batchable) {
      Op o; o.ev = "batch"; o.a = a; size_t t = col[a];
      int k = r.chance(70) ? r.below(3) : r.range(3, 8);
      for (int x = 0; x < k; x++) { int b = any(); o.bs.push_back(b); t += col[b]; }
      if (t > 700) return;
      o.d = r.below(NC); col[o.d] = t; has[o.d] = true;
      ops.push_back(o);
    } else if (pc < 74 && Ty<T>::batchable) {
      Op o; o.ev = "unbatch"; o.a = a;
      size_t left = col[a]; int k = r.range(1, 3);
      std::vector<int> ds = {0, 1, 2, 3};
      for (int x = 0; x < k && left > 0; x++) {
        size_t c = x == k - 1 ? left : r.range(1, left);
        o.cut.push_back(c); left -= c;
        int y = r.below(ds.size()); o.ds.push_back(ds[y]); ds.erase(ds.begin() + y);
      }
      if (left) o.cut.back() += left;
      for (size_t x = 0; x < o.ds.size(); x++) { col[o.ds[x]] = o.cut[x]; has[o.ds[x]] = true; }
      ops.push_back(o);
    } else if (pc < 84 && std::is_same_v<T, Agg>) {
      // what only aggregation values offer: difference and choice
      Op o; o.ev = r.coin() ? "minus" : "choose"; o.a = a; o.b = any(); o.i = r.below(NB);
      if (col[o.a] != col[o.b]) o.b = a;
      if (o.ev == "choose" && (!hasB[o.i] || bit[o.i] != col[a])) { bits(o.i); ops.back().n = bit[o.i] = col[a]; }
      o.d = r.below(NC); has[o.d] = true; col[o.d] = col[a];
      ops.push_back(o);
    } else open(a);
  }
};

// bit planes of the shares of every party
static std::vector<std::vector<std::vector<bool>>> planes(uint64_t seed, int n, int w, size_t items) {
  Rng r(seed);
  std::vector<std::vector<std::vector<bool>>> s(n, std::vector<std::vector<bool>>(w));
  for (auto& p : s) for (auto& x : p) x = r.bits(items);
  return s;
}

template <class T> void episode(Trace& Tr, Rng& r, const std::string& kind, Watchdog& wd) {
  wd.tick();
  int n = kind == "plain" ? 1 : r.chance(80) ? 2 : 3;
  if (std::is_same_v<T, std::vector<bool>>) kStr = r.chance(50) ? r.range(1, 6) : r.range(7, 33);
  Prog<T> g(r, n, kind != "netplain");
  std::vector<std::vector<std::string>> res(n);
  auto err = runMpc(kind, n, r.range(1, 2), r.next(), [&](int me, fbpcf::scheduler::IArithmeticScheduler&, AgentFactory&) {
    std::vector<std::optional<Sec<T>>> c(NC);
    std::vector<std::optional<fbpcf::frontend::Bit<true, 0, true>>> b(NB);
    for (auto& o : g.ops) {
      std::string out = "0";
      Rng mine(o.party == me ? o.seed : o.seed ^ 0x5555 ^ me);  // only the owner's values count
      if (o.ev == "in") c[o.d] = secretCol<T>(randCol<T>(mine, o.n), o.party);
      else if (o.ev == "bits") b[o.d] = fbpcf::frontend::Bit<true, 0, true>(mine.bits(o.n), o.party);
      else if (o.ev == "recover") {
        if constexpr (Ty<T>::recover) c[o.d] = Mpc<T>::recoverBatchSharedSecrets(planes(o.seed, n, Ty<T>::bits, o.n)[me]);
      } else if (o.ev == "swap") {
        auto [x, y] = Mpc<T>::obliviousSwap(*c[o.a], *c[o.b], *b[o.i]);
        c[o.d] = x; c[o.d2] = y;
      } else if (o.ev == "batch") {
        if constexpr (Ty<T>::batchable) {
          std::vector<Sec<T>> v;
          for (int k : o.bs) v.push_back(*c[k]);
          auto z = Mpc<T>::batchingWith(*c[o.a], v);
          c[o.d] = z;
        }
      } else if (o.ev == "unbatch") {
        if constexpr (Ty<T>::batchable) {
          auto v = Mpc<T>::unbatching(*c[o.a], std::make_shared<std::vector<uint32_t>>(o.cut));
          if (v.size() != o.ds.size()) throw std::runtime_error("unbatching: number of parts");
          for (size_t k = 0; k < v.size(); k++) c[o.ds[k]] = v[k];
        }
      } else if (o.ev == "minus" || o.ev == "choose") {
        if constexpr (std::is_same_v<T, Agg>) {
          auto x = *c[o.a];
          Sec<T> z = o.ev == "minus" ? x - *c[o.b] : x.mux(*b[o.i], *c[o.b]);
          c[o.d] = z;
        }
      } else if (o.ev == "open") out = openCol<T>(*c[o.a], o.party);
      res[me].push_back(out);
    }
  });
  size_t done = g.ops.size();
  for (auto& x : res) done = std::min(done, x.size());
  Tr(Ev("begin").f("n", n).f("sched", kind).f("kind", Ty<T>::name()));
  for (size_t k = 0; k < done; k++) {
    auto& o = g.ops[k];
    Ev ev(o.ev.c_str());
    if (o.d >= 0) ev.f("d", o.d);
    if (o.d2 >= 0) ev.f("d2", o.d2);
    if (o.a >= 0) ev.f("a", o.a);
    if (o.b >= 0) ev.f("b", o.b);
    if (o.i >= 0) ev.f("i", o.i);
    Rng own(o.seed);
    if (o.ev == "in") ev.raw("vals", jcol(randCol<T>(own, o.n)));
    if (o.ev == "bits") ev.f("vals", own.bits(o.n));
    if (o.ev == "recover") {
      if constexpr (Ty<T>::recover) {
        auto sh = planes(o.seed, n, Ty<T>::bits, o.n);
        int w = Ty<T>::bits; bool sg = Ty<T>::name()[0] == 's';
        ev.f("kind", Ty<T>::name()).f("w", w).f("sg", sg).f("n", (int)o.n).raw("shares", jmap(sh, [](auto& p) { return jmap(p, [](const std::vector<bool>& x) { return js(x); }); }));
      }
    }
    if (o.ev == "batch") ev.f("bs", o.bs);
    if (o.ev == "unbatch") ev.f("ds", o.ds).f("cut", o.cut);
    if (o.ev == "open") ev.f("party", o.party).raw("out", res[o.party][k]);
    Tr(ev);
  }
  bool failed = false;
  for (auto& x : err) if (!x.empty()) failed = true;
  if (failed) Tr(Ev("failed").f("next", done < g.ops.size() ? g.ops[done].ev : std::string("-")).f("err", err));
  else Tr(Ev("end"));
}
static void mpc(Args& ar, Trace& T, Watchdog& wd) {
  Rng r(ar.seed * 104729 + ar.shard);
  const char* kinds[] = {"plain", "eager", "lazy", "netplain"};
  int reps = ar.thorough ? 40 : 12;
  for (int i = 0; i < reps; i++) {
    auto k = [&] { return std::string(kinds[r.below(4)]); };
#if PART == 1
    episode<bool>(T, r, k(), wd);
    episode<uint32_t>(T, r, k(), wd);
    episode<Agg>(T, r, k(), wd);
    episode<std::vector<bool>>(T, r, k(), wd);
    episode<mu::Intp<true, 7>>(T, r, k(), wd);
    episode<mu::Intp<false, 33>>(T, r, k(), wd);
#elif PART == 2
    episode<mu::Intp<false, 16>>(T, r, k(), wd);
    episode<mu::Intp<true, 32>>(T, r, k(), wd);
    episode<mu::Intp<true, 64>>(T, r, k(), wd);
#elif PART == 3
    episode<std::pair<uint32_t, bool>>(T, r, k(), wd);
    episode<std::pair<mu::Intp<true, 9>, uint32_t>>(T, r, k(), wd);
    episode<std::pair<std::pair<bool, uint32_t>, bool>>(T, r, k(), wd);
    episode<std::pair<Agg, bool>>(T, r, k(), wd);
#endif
  }
}

#endif
#if PART == 0
// ---- permutations and seeds ------------------------------------------------------------------------
struct Scripted final : fbpcf::engine::util::IPrg {
  std::vector<int> script;
  size_t pos = 0;
  explicit Scripted(std::vector<int> s) : script(std::move(s)) {}
  std::vector<unsigned char> getRandomBytes(uint32_t n) override {
    std::vector<unsigned char> v(n, 0);
    if (n) v[0] = pos < script.size() ? script[pos] : 0;
    pos++;
    return v;
  }
  std::vector<bool> getRandomBits(uint32_t) override { throw std::runtime_error("unexpected"); }
  std::vector<uint64_t> getRandomUInt64(uint32_t) override { throw std::runtime_error("unexpected"); }
};
static void perm(Args& ar, Trace& T, Watchdog& wd) {
  Rng r(ar.seed * 31 + ar.shard);
  T(Ev("begin").f("n", 2).f("sched", "-").f("kind", "-"));
  // every outcome of the draws that matters, once: the orders have to come out equally often
  for (int n = 0; n <= (ar.thorough ? 4 : 4); n++) {
    int L = n < 2 ? 1 : n == 2 ? 2 : n == 3 ? 6 : 12;
    std::map<std::vector<uint32_t>, int> h;
    int draws = std::max(0, n - 1), total = 1;
    for (int i = 0; i < draws; i++) total *= L;
    bool wellFormed = true;
    for (int x = 0; x < total; x++) {
      std::vector<int> s;
      for (int i = 0, y = x; i < draws; i++, y /= L) s.push_back(y % L);
      Scripted p(s);
      h[mu::secureRandomPermutation(n, p)]++;
      if ((int)p.pos != draws) wellFormed = false;
    }
    std::vector<int> cnt;
    std::string os = "[";
    for (auto& kv : h) { if (!cnt.empty()) os += ","; cnt.push_back(kv.second); os += js(kv.first); }
    T(Ev("orders").f("n", n).f("draws", wellFormed).raw("seen", os + "]").f("count", cnt));
  }
  int reps = ar.thorough ? 60 : 15;
  for (int i = 0; i < reps; i++) {
    wd.tick();
    auto key = rnd(r);
    int n = r.chance(20) ? r.range(200, 1000) : r.range(0, 40);
    fbpcf::engine::util::AesPrg p(key, 64), q(key, 128);
    auto a = mu::secureRandomPermutation(n, p);
    auto b = mu::secureRandomPermutation(n, q);
    auto c = mu::secureRandomPermutation(n, p);
    T(Ev("perm").f("n", n).f("a", a).f("b", b).f("c", c));
  }
  // the seed both parties agree on; a dishonest peer is played through the wire
  for (int i = 0; i < reps * 2; i++) {
    wd.tick();
    auto net = std::make_shared<Net>();
    int tamper = i % 3 == 0 ? -1 : r.below(64);   // byte of the commitment (0-31) or of the opening (32-63)
    std::mutex m;
    std::vector<std::string> sent(2);
    size_t off = 0;
    std::vector<int> order;  // messages as they are handed over: party * 2 + received
    net->onData = [&](int me, int, bool isSend, const unsigned char* d, size_t n) {
      std::lock_guard<std::mutex> g(m);
      order.push_back(me * 2 + !isSend);
      if (isSend) sent[me] += std::string((const char*)d, n);
      else if (me == 1) {
        for (size_t k = 0; k < n; k++) if ((int)(off + k) == tamper) const_cast<unsigned char*>(d)[k] ^= 1 << (tamper % 8);
        off += n;
      }
    };
    std::vector<std::string> out(2, "[]");
    auto err = runParties(2, net, [&](int me) {
      AgentFactory af(net, me);
      auto agent = af.create(1 - me, "seed");
      out[me] = jm(mu::secureSamplePublicSeed(me == 0, *agent));
    });
    T(Ev("seed").f("tamper", tamper).raw("out", "[" + out[0] + "," + out[1] + "]").f("ok0", err[0].empty()).f("ok1", err[1].empty())
          .raw("sent0", jbytes(sent[0])).raw("sent1", jbytes(sent[1])).f("order", order));
  }
  T(Ev("end"));
}

#endif
int main(int c, char** v) {
  Args ar(c, v);
  Trace T(ar.out);
  Watchdog wd(T, 60);
#if PART == 0
  if (ar.mode == "plain") plain(ar, T, wd); else perm(ar, T, wd);
#else
  mpc(ar, T, wd);
#endif
  return 0;
}
