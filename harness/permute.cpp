// Records secret permutations, shuffles and compactions of columns of every element type.
#include "mpc_types.h"
#include "fbpcf/engine/util/AesPrg.h"
#include "fbpcf/engine/util/AesPrgFactory.h"
#include "fbpcf/mpc_std_lib/compactor/DummyCompactorFactory.h"
#include "fbpcf/mpc_std_lib/compactor/ShuffleBasedCompactorFactory.h"
#include "fbpcf/mpc_std_lib/permuter/AsWaksmanPermuterFactory.h"
#include "fbpcf/mpc_std_lib/permuter/AsWaksmanPermuterForBitString_impl.h"
#include "fbpcf/mpc_std_lib/permuter/AsWaksmanPermuter_impl.h"
#include "fbpcf/mpc_std_lib/permuter/DummyPermuterFactory.h"
#include "fbpcf/mpc_std_lib/shuffler/NonShufflerFactory.h"
#include "fbpcf/mpc_std_lib/shuffler/PermuteBasedShufflerFactory.h"
#include "fbpcf/mpc_std_lib/util/secureRandomPermutation.h"
#include <map>
#ifndef PART
#define PART 0
#endif

using namespace vh;
namespace ml = fbpcf::mpc_std_lib;
using fbpcf::engine::util::AesPrg;

static __m128i key(uint64_t a, uint64_t b) { return _mm_set_epi64x(a, b); }

struct Op {
  std::string ev, how;
  int party = 0;
  size_t n = 0;
  uint64_t seed = 0;
  std::vector<uint32_t> order;
  std::vector<bool> label;
  bool reveal = true;
};
static std::vector<uint32_t> randOrder(Rng& r, size_t n) {
  std::vector<uint32_t> o(n);
  for (size_t i = 0; i < n; i++) o[i] = i;
  switch (r.below(6)) {
    case 0: break;
    case 1: std::reverse(o.begin(), o.end()); break;
    case 2: if (n) std::rotate(o.begin(), o.begin() + r.below(n), o.end()); break;
    default: for (size_t i = n; i > 1; i--) std::swap(o[i - 1], o[r.below(i)]);
  }
  return o;
}

template <class T> struct Machine {
  int me, n;
  std::optional<Sec<T>> c;
  size_t size = 0;
  Machine(int me, int n) : me(me), n(n) {}
  int other() { return n == 1 ? me : 1 - me; }
  std::string run(const Op& o) {
    if (o.ev == "in") {
      Rng mine(o.party == me ? o.seed : o.seed ^ 0x5555 ^ me);
      c = secretCol<T>(randCol<T>(mine, o.n), o.party);
      size = o.n;
    } else if (o.ev == "permute") {
      std::unique_ptr<ml::permuter::IPermuter<Sec<T>>> p;
      if constexpr (!std::is_same_v<T, std::vector<bool>>) {
        if (o.how == "dummy") p = ml::permuter::insecure::DummyPermuterFactory<T, 0>(me, other()).create();
      }
      if (!p) p = ml::permuter::AsWaksmanPermuterFactory<T, 0>(me, other()).create();
      auto x = n == 1 || o.party == me ? p->permute(*c, size, o.order) : p->permute(*c, size);
      c = std::move(x);
    } else if (o.ev == "badorder") {
      auto p = ml::permuter::AsWaksmanPermuterFactory<T, 0>(me, other()).create();
      try { p->permute(*c, size, o.order); return "1"; } catch (const std::runtime_error&) { return "0"; }
    } else if (o.ev == "shuffle" || o.ev == "mix") {
      auto pf = std::make_unique<ml::permuter::AsWaksmanPermuterFactory<T, 0>>(me, other());
      std::unique_ptr<ml::shuffler::IShuffler<Sec<T>>> s;
      if (o.how == "none") s = ml::shuffler::insecure::NonShufflerFactory<Sec<T>>().create();
      else if (o.how == "factory")
        s = ml::shuffler::PermuteBasedShufflerFactory<Sec<T>>(me, other(), std::move(pf), std::make_unique<fbpcf::engine::util::AesPrgFactory>(64)).create();
      else s = std::make_unique<ml::shuffler::PermuteBasedShuffler<Sec<T>>>(me, other(), pf->create(), std::make_unique<AesPrg>(key(o.seed, me), 64));
      for (int k = 0; k < (o.ev == "mix" ? 1 : (int)o.n); k++) { auto x = s->shuffle(*c, size); c = std::move(x); }
      if (o.ev == "mix") return openCol<T>(*c, o.party);
    } else if (o.ev == "open") return openCol<T>(*c, o.party);
    return "0";
  }
};
// the orders party p draws in k shuffles
static std::string orders(uint64_t seed, int p, size_t n, int k) {
  AesPrg g(key(seed, p), 64);
  std::string s = "[";
  for (int i = 0; i < k; i++) s += (i ? "," : "") + js(ml::util::secureRandomPermutation(n, g));
  return s + "]";
}

template <class T> void emit(Trace& Tr, const std::string& kind, int n, const std::vector<Op>& ops,
                             const std::vector<std::vector<std::string>>& res, const std::vector<std::string>& err) {
  size_t done = ops.size();
  for (auto& x : res) done = std::min(done, x.size());
  Tr(Ev("begin").f("n", n).f("sched", kind).f("kind", Ty<T>::name()));
  size_t size = 0;
  for (size_t k = 0; k < done; k++) {
    auto& o = ops[k];
    Ev ev(o.ev.c_str());
    Rng own(o.seed);
    if (o.ev == "in") { size = o.n; ev.raw("vals", jcol(randCol<T>(own, o.n))); }
    if (o.ev == "permute") ev.f("order", o.order).f("party", o.party).f("how", o.how);
    if (o.ev == "badorder") ev.f("order", o.order).raw("ok", res[0][k]);
    if (o.ev == "shuffle") ev.f("times", (int)o.n).raw("p0", orders(o.seed, 0, size, o.n)).raw("p1", orders(o.seed, 1, size, o.n));
    if (o.ev == "mix") ev.f("how", o.how).raw("out", res[o.party][k]);
    if (o.ev == "open") ev.f("party", o.party).raw("out", res[o.party][k]);
    Tr(ev);
  }
  bool failed = false;
  for (auto& x : err) if (!x.empty()) failed = true;
  if (failed) Tr(Ev("failed").f("next", done < ops.size() ? ops[done].ev : std::string("-")).f("err", err));
  else Tr(Ev("end"));
}
template <class T> void runOps(Trace& Tr, Rng& r, const std::string& kind, const std::vector<Op>& ops) {
  int n = kind == "plain" ? 1 : 2;
  std::vector<std::vector<std::string>> res(n);
  auto err = runMpc(kind, n, r.range(1, 2), r.next(), [&](int me, fbpcf::scheduler::IArithmeticScheduler&, AgentFactory&) {
    Machine<T> m(me, n);
    for (auto& o : ops) res[me].push_back(m.run(o));
  });
  emit<T>(Tr, kind, n, ops, res, err);
}
template <class T> Op input(Rng& r, int n, size_t sz) { Op o; o.ev = "in"; o.n = sz; o.seed = r.next(); o.party = r.below(n); return o; }

template <class T> void episode(Trace& Tr, Rng& r, std::string kind, Watchdog& wd, size_t want = 0) {
  wd.tick();
  constexpr bool str = std::is_same_v<T, std::vector<bool>>;
  if (str && kind == "netplain") kind = "lazy";
  int n = kind == "plain" ? 1 : 2;
  static size_t turn = r.next();
  size_t sz = r.chance(5) ? r.range(60, 140) : r.chance(50) ? 1 + turn++ % 70 : r.chance(30) ? r.range(14, 40) : r.range(1, 13);
  if (want) sz = want;
  if (str) kStr = r.chance(60) ? r.range(1, 6) : r.range(7, 40);
  if (str && want) kStr = r.range(1, 3);
  else if (str && kStr * sz > 900) sz = 1 + sz % 22;
  std::vector<Op> ops = {input<T>(r, n, sz)};
  int len = sz > 50 ? 3 : r.range(2, 7);
  for (int i = 0; i < len; i++) {
    Op o; o.party = r.below(n); o.seed = r.next();
    int pc = r.below(100);
    if (pc < 55) { o.ev = "permute"; o.order = randOrder(r, sz); o.how = !str && r.chance(12) ? "dummy" : "-"; }
    else if (pc < 65) {
      o.ev = "badorder"; o.order = randOrder(r, sz);
      if (r.coin()) o.order.push_back(sz);
      else if (sz > 1 && r.coin()) o.order[r.below(sz)] = o.order[r.below(sz - 1) + 0], o.order[0] = o.order[sz - 1];
      else o.order[r.below(sz)] = sz + r.below(3);
      std::vector<uint32_t> t = o.order; std::sort(t.begin(), t.end());
      bool good = t.size() == sz; for (size_t k = 0; k < t.size(); k++) if (t[k] != k) good = false;
      if (good) continue;
    } else if (pc < 80 && n == 2) { o.ev = "shuffle"; o.n = r.range(1, 2); }
    else if (pc < 90 && n == 2) { o.ev = "mix"; o.how = r.chance(30) ? "none" : "factory"; }
    else { ops.push_back(input<T>(r, n, sz = r.range(1, 20))); continue; }
    ops.push_back(o);
    if (r.chance(50) || i == len - 1) { Op q; q.ev = "open"; q.party = r.below(n); ops.push_back(q); }
  }
  Op q; q.ev = "open"; q.party = r.below(n); ops.push_back(q);
  runOps<T>(Tr, r, kind, ops);
}
// every order of small columns
template <class T> void all(Trace& Tr, Rng& r, int upTo, Watchdog& wd) {
  for (int n = 1; n <= upTo; n++) {
    std::vector<uint32_t> o(n);
    for (int i = 0; i < n; i++) o[i] = i;
    std::vector<Op> ops;
    do {
      wd.tick();
      ops.push_back(input<T>(r, 1, n));
      Op p; p.ev = "permute"; p.how = "-"; p.order = o; ops.push_back(p);
      Op q; q.ev = "open"; ops.push_back(q);
    } while (std::next_permutation(o.begin(), o.end()));
    runOps<T>(Tr, r, "plain", ops);
  }
}

// how often each order of n things came, in lexicographic order
struct Tally {
  std::map<std::vector<int>, long> m;
  std::vector<std::vector<long>> at;
  size_t n;
  Tally(size_t n) : at(n, std::vector<long>(n, 0)), n(n) {
    std::vector<int> o(n);
    for (size_t i = 0; i < n; i++) o[i] = i;
    if (n < 6) do m[o] = 0; while (std::next_permutation(o.begin(), o.end()));
  }
  void add(const std::vector<int>& o) {
    if (n < 6) m[o]++;
    for (size_t i = 0; i < o.size() && i < n; i++) if (o[i] >= 0 && o[i] < (int)n) at[i][o[i]]++;
  }
  void put(Trace& T, const char* how, long total) {
    std::vector<long> c;
    for (auto& [k, v] : m) c.push_back(v);
    T(Ev("drawn").f("how", std::string(how)).f("n", (int)n).f("total", total).f("cells", (int)m.size()).f("counts", c));
    for (auto& row : at) T(Ev("drawn").f("how", std::string(how)).f("n", (int)n).f("total", total).f("cells", (int)n).f("counts", row));
  }
};
// a column of 1..n that both parties open; what comes back is an order of it
static std::vector<int> asOrder(const std::vector<uint32_t>& v) { std::vector<int> o; for (auto x : v) o.push_back((int)x - 1); return o; }

#if PART < 2
#if PART == 0
// every order is drawn equally often, by each party alone and by a shuffler of both
static void spread(Trace& T, Rng& r, Watchdog& wd) {
  T(Ev("begin").f("n", 2).f("sched", std::string("-")).f("kind", std::string("orders")));
  for (size_t n : {2, 3, 4, 9}) {
    wd.tick();
    AesPrg g(key(r.next(), n), 4096);
    Tally t(n);
    long total = n == 9 ? 45000 : 60000;
    for (long i = 0; i < total; i++) { auto o = ml::util::secureRandomPermutation(n, g); t.add({o.begin(), o.end()}); }
    t.put(T, "drawn", total);
  }
  for (size_t n : {2, 3}) {
    Tally t(n);
    long total = n == 2 ? 200 : 600;
    wd.tick();
    auto err = runMpc("netplain", 2, 1, r.next(), [&](int me, fbpcf::scheduler::IArithmeticScheduler&, AgentFactory&) {
      auto s = ml::shuffler::PermuteBasedShufflerFactory<Sec<uint32_t>>(me, 1 - me, std::make_unique<ml::permuter::AsWaksmanPermuterFactory<uint32_t, 0>>(me, 1 - me), std::make_unique<fbpcf::engine::util::AesPrgFactory>(64)).create();
      std::vector<uint32_t> v(n);
      for (size_t i = 0; i < n; i++) v[i] = i + 1;
      auto c = secretCol<uint32_t>(v, 0);
      for (long i = 0; i < total; i++) {
        auto o = mu::MpcAdapters<uint32_t, 0>::openToParty(s->shuffle(c, n), 0);
        if (me == 0) t.add(asOrder(o));
        if (me == 0) wd.tick();
      }
    });
    for (auto& e : err) if (!e.empty()) T(Ev("failed").f("err", err));
    t.put(T, "shuffled", total);
  }
  T(Ev("end"));
}
#endif
static void perm(Args& ar, Trace& T, Watchdog& wd) {
  Rng r(ar.seed * 104729 + ar.shard);
  const char* kinds[] = {"plain", "eager", "lazy", "netplain"};
  int reps = ar.thorough ? 250 : 30;
  int upTo = ar.thorough ? 6 : 5;
#if PART == 0
  if (ar.shard == 0) all<uint32_t>(T, r, upTo, wd);
  if (ar.shard == (ar.shards > 1)) spread(T, r, wd);
  if (ar.shard == ar.shards - 1) all<std::vector<bool>>(T, r, upTo, wd);
#endif
  for (int i = 0; i < reps; i++) {
    auto k = [&] { return std::string(kinds[r.below(4)]); };
#if PART == 0
    episode<bool>(T, r, k(), wd);
    episode<uint32_t>(T, r, k(), wd);
    episode<std::vector<bool>>(T, r, k(), wd);
    // columns with more places than a byte counts
    if (i == 0) episode<uint32_t>(T, r, k(), wd, r.range(257, 700));
    if (i == 1 && ar.shard % 3 == 1) episode<bool>(T, r, k(), wd, r.range(257, 700));
    if (i == 2 && ar.shard % 3 == 2) episode<std::vector<bool>>(T, r, k(), wd, r.range(257, 400));
#else
    if (i == 0 && ar.shard % 3 == 0) episode<mu::Intp<true, 9>>(T, r, k(), wd, r.range(257, 600));
    if (i == 1 && ar.shard % 3 == 1) episode<std::pair<uint32_t, bool>>(T, r, k(), wd, r.range(257, 600));
    episode<mu::Intp<true, 9>>(T, r, k(), wd);
    episode<std::pair<uint32_t, bool>>(T, r, k(), wd);
    episode<std::pair<std::pair<bool, mu::Intp<false, 5>>, bool>>(T, r, k(), wd);
#endif
  }
}

#else
// ---- compaction ------------------------------------------------------------------------------------
template <class T> void compaction(Trace& Tr, Rng& r, const std::string& kind, int run, Watchdog& wd, size_t want = 0) {
  wd.tick();
  struct C { size_t n; uint64_t seed; std::vector<bool> label; std::string how; bool reveal; int p0, p1, p2; };
  std::vector<C> cs;
  int k = 1 + r.below(3);
  for (int i = 0; i < k; i++) {
    C c;
    if (run >= 0) { c.n = 1 + (run % 4); for (size_t b = 0; b < c.n; b++) c.label.push_back((run / 4) >> b & 1); }
    else {
      static size_t turn = r.next();
      c.n = r.chance(10) ? r.range(40, 90) : r.chance(50) ? 1 + turn++ % 40 : r.range(1, 16);
      if (want) c.n = want;
      int pc = r.below(5) * 25;
      for (size_t b = 0; b < c.n; b++) c.label.push_back(r.chance(pc));
    }
    c.seed = r.next();
    bool some = std::find(c.label.begin(), c.label.end(), true) != c.label.end();
    c.how = some && r.chance(25) ? "dummy" : r.chance(20) ? "open" : "shuffle";
    c.reveal = c.how == "dummy" ? r.coin() : r.chance(90);
    c.p0 = r.below(2); c.p1 = r.below(2); c.p2 = r.below(2);
    cs.push_back(c);
    if (run >= 0) run += 7;
  }
  std::vector<std::vector<std::string>> res(2);
  auto err = runMpc(kind, 2, r.range(1, 2), r.next(), [&](int me, fbpcf::scheduler::IArithmeticScheduler&, AgentFactory&) {
    using P = std::pair<T, bool>;
    for (auto& c : cs) {
      Rng mine(c.p0 == me ? c.seed : c.seed ^ 0x77);
      auto src = secretCol<T>(randCol<T>(mine, c.n), c.p0);
      auto lab = secretCol<bool>(c.p1 == me ? c.label : std::vector<bool>(c.n, r.s & 1), c.p1);
      std::unique_ptr<ml::compactor::ICompactor<Sec<T>, Sec<bool>>> x;
      if (c.how == "dummy") x = ml::compactor::insecure::DummyCompactorFactory<T, bool, 0>(me, 1 - me).create();
      else {
        std::unique_ptr<ml::shuffler::IShufflerFactory<Sec<P>>> sf;
        if (c.how == "open") sf = std::make_unique<ml::shuffler::insecure::NonShufflerFactory<Sec<P>>>();
        else sf = std::make_unique<ml::shuffler::PermuteBasedShufflerFactory<Sec<P>>>(me, 1 - me, std::make_unique<ml::permuter::AsWaksmanPermuterFactory<P, 0>>(me, 1 - me), std::make_unique<fbpcf::engine::util::AesPrgFactory>(64));
        x = ml::compactor::ShuffleBasedCompactorFactory<T, bool, 0>(me, 1 - me, std::move(sf)).create();
      }
      if (!c.reveal && c.how != "dummy") {
        try { x->compaction(src, lab, c.n, false); res[me].push_back("\"kept\""); } catch (const std::runtime_error&) { res[me].push_back("\"refused\""); }
        continue;
      }
      bool some = std::find(c.label.begin(), c.label.end(), true) != c.label.end();
      if (!some) {
        // there are no empty columns: nothing chosen is an error, at both parties
        try { x->compaction(src, lab, c.n, c.reveal); res[me].push_back("\"kept\""); } catch (const std::exception&) { res[me].push_back("\"none\""); }
        continue;
      }
      auto z = x->compaction(src, lab, c.n, c.reveal);
      auto a = openCol<T>(z.first, c.p2);
      res[me].push_back("[" + a + "," + openCol<bool>(z.second, c.p2) + "]");
    }
  });
  Tr(Ev("begin").f("n", 2).f("sched", kind).f("kind", Ty<T>::name()));
  size_t done = std::min(res[0].size(), res[1].size());
  for (size_t i = 0; i < done; i++) {
    auto& c = cs[i];
    Rng own(c.seed);
    Tr(Ev("compact").raw("vals", jcol(randCol<T>(own, c.n))).f("label", c.label).f("how", c.how).f("reveal", c.reveal).raw("out", res[c.p2][i]).f("alike", (res[0][i][0] == '"') == (res[1][i][0] == '"')));
  }
  bool failed = false;
  for (auto& x : err) if (!x.empty()) failed = true;
  if (failed) Tr(Ev("failed").f("next", done < cs.size() ? cs[done].how : std::string("-")).f("label", done < cs.size() ? cs[done].label : std::vector<bool>()).f("err", err));
  else Tr(Ev("end"));
}
#if PART == 2
// where a chosen item stood does not show in where it comes out
static void spread(Trace& T, Rng& r, Watchdog& wd) {
  T(Ev("begin").f("n", 2).f("sched", std::string("-")).f("kind", std::string("orders")));
  for (size_t n : {2, 3}) {
    Tally t(n);
    long total = n == 2 ? 200 : 600;
    auto err = runMpc("netplain", 2, 1, r.next(), [&](int me, fbpcf::scheduler::IArithmeticScheduler&, AgentFactory&) {
      using P = std::pair<uint32_t, bool>;
      auto sf = std::make_unique<ml::shuffler::PermuteBasedShufflerFactory<Sec<P>>>(me, 1 - me, std::make_unique<ml::permuter::AsWaksmanPermuterFactory<P, 0>>(me, 1 - me), std::make_unique<fbpcf::engine::util::AesPrgFactory>(64));
      auto x = ml::compactor::ShuffleBasedCompactorFactory<uint32_t, bool, 0>(me, 1 - me, std::move(sf)).create();
      std::vector<uint32_t> v(n);
      for (size_t i = 0; i < n; i++) v[i] = i + 1;
      auto c = secretCol<uint32_t>(v, 0);
      auto lab = secretCol<bool>(std::vector<bool>(n, true), 1);
      for (long i = 0; i < total; i++) {
        auto o = mu::MpcAdapters<uint32_t, 0>::openToParty(x->compaction(c, lab, n, true).first, 0);
        if (me == 0) { t.add(asOrder(o)); wd.tick(); }
      }
    });
    for (auto& e : err) if (!e.empty()) T(Ev("failed").f("err", err));
    t.put(T, "compacted", total);
  }
  T(Ev("end"));
}
#endif
static void compact(Args& ar, Trace& T, Watchdog& wd) {
  Rng r(ar.seed * 7 + ar.shard);
  const char* kinds[] = {"eager", "lazy", "netplain"};
  int reps = ar.thorough ? 300 : 60;
#if PART == 2
  if (ar.shard == ar.shards - 1) spread(T, r, wd);
#endif
  // every pattern of up to four labels
  for (int i = ar.shard; i < 64; i += ar.shards) {
    auto k = std::string(kinds[r.below(3)]);
#if PART == 2
    compaction<uint32_t>(T, r, k, i, wd);
#else
    compaction<std::pair<bool, uint32_t>>(T, r, k, i, wd);
#endif
  }
  for (int i = 0; i < reps; i++) {
    auto k = [&] { return std::string(kinds[r.below(3)]); };
#if PART == 2
    if (i == 0) compaction<uint32_t>(T, r, k(), -1, wd, r.range(257, 600));
    compaction<uint32_t>(T, r, k(), -1, wd);
    compaction<bool>(T, r, k(), -1, wd);
#else
    if (i == 0 && ar.shard % 3 == 0) compaction<mu::Intp<true, 17>>(T, r, k(), -1, wd, r.range(257, 400));
    if (i == 0 && ar.shard % 3 == 1) compaction<std::pair<bool, uint32_t>>(T, r, k(), -1, wd, r.range(257, 400));
    compaction<mu::Intp<true, 17>>(T, r, k(), -1, wd);
    compaction<std::pair<bool, uint32_t>>(T, r, k(), -1, wd);
#endif
  }
}

#endif
int main(int c, char** v) {
  Args ar(c, v);
  Trace T(ar.out);
  Watchdog wd(T, 60);
#if PART < 2
  perm(ar, T, wd);
#else
  compact(ar, T, wd);
#endif
  return 0;
}
