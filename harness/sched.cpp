// Records what a scheduler (plaintext, network plaintext, eager, lazy) does for random circuits.
// All parties run the same program, as in the system; results are recorded per party.
#include "common.h"
#include "dealer.h"
#include "probe_engine.h"
#include "fbpcf/engine/SecretShareEngineFactory.h"
#include "fbpcf/engine/communication/AgentMapHelper.h"
#include "fbpcf/scheduler/EagerSchedulerFactory.h"
#include "fbpcf/scheduler/LazySchedulerFactory.h"
#include "fbpcf/scheduler/NetworkPlaintextSchedulerFactory.h"
#include "fbpcf/scheduler/PlaintextSchedulerFactory.h"
#include "fbpcf/scheduler/SchedulerHelper.h"
#include "fbpcf/scheduler/WireKeeper.h"
#include "fbpcf/scheduler/gate_keeper/GateKeeper.h"

using namespace vh;
using namespace fbpcf;
using S = scheduler::IScheduler;
using A = scheduler::IArithmeticScheduler;
using BW = S::WireId<S::Boolean>;
using AW = S::WireId<S::Arithmetic>;
using U64 = std::vector<uint64_t>;

struct Wire { bool arith = false, batch = false, priv = true; int openTo = -1; size_t n = 1; int refs = 1; int depth = 0; };

struct Op {
  std::string ev, op, src, pub;
  std::vector<int> ins, outs;
  int party = -1;
  bool arith = false, batch = false;
  U64 vals;
  std::vector<U64> shares;
  std::vector<uint32_t> cut;
  int count = 0, at = 0;
  bool keepAll = false;
};

struct Gen {
  Rng& r;
  int n;
  std::string kind, mode;
  std::vector<Wire> w;
  std::vector<Op> ops;
  std::vector<int> live;
  int maxDepth = 0;
  Gen(Rng& r, int n, std::string kind, std::string mode) : r(r), n(n), kind(kind), mode(mode) {}

  int add(Wire x) { w.push_back(x); live.push_back(w.size() - 1); maxDepth = std::max(maxDepth, x.depth); return w.size() - 1; }
  size_t big = 0;
  size_t batchSize() { return big && r.chance(40) ? big : r.chance(8) ? 0 : r.chance(15) ? r.range(9, 20) : r.range(1, 5); }
  uint64_t val(bool arith) { return arith ? r.word() : r.below(2); }
  int input(bool arith, bool batch, size_t sz, int src) {
    Op o; o.ev = "input"; o.arith = arith; o.batch = batch;
    o.src = src == 0 ? "priv" : src == 1 ? "pub" : "rec";
    if (src == 0 && sz == 0) sz = 1; // an empty private input is refused
    for (size_t i = 0; i < (batch ? sz : 1); i++) o.vals.push_back(val(arith));
    o.party = r.below(n);
    if (src == 2) {
      for (int p = 0; p < n; p++) { U64 s; for (size_t i = 0; i < o.vals.size(); i++) s.push_back(val(arith)); o.shares.push_back(s); }
    }
    Wire x; x.arith = arith; x.batch = batch; x.n = o.vals.size(); x.priv = src != 1;
    o.outs = {add(x)};
    ops.push_back(o);
    return o.outs[0];
  }
  template <class P> int pick(P p) {
    std::vector<int> c;
    for (int i : live) if (w[i].openTo < 0 && p(w[i])) c.push_back(i);
    return c.empty() ? -1 : c[r.below(c.size())];
  }
  std::string pubOf(int a, int b) { return std::string(w[a].priv ? "p" : "u") + (w[b].priv ? "p" : "u"); }
  void gate2(const char* op, int a, int b) {
    // the API takes the private operand first
    if (!w[a].priv && w[b].priv) std::swap(a, b);
    Op o; o.ev = "gate"; o.op = op; o.ins = {a, b}; o.pub = pubOf(a, b); o.arith = w[a].arith; o.batch = w[a].batch;
    Wire x = w[a]; x.refs = 1; x.priv = w[a].priv || w[b].priv;
    bool nonfree = (!strcmp(op, "and") || !strcmp(op, "mult")) && o.pub == "pp";
    x.depth = std::max(w[a].depth, w[b].depth) + nonfree;
    o.outs = {add(x)};
    ops.push_back(o);
  }
  void gate1(const char* op, int a) {
    Op o; o.ev = "gate"; o.op = op; o.ins = {a}; o.pub = w[a].priv ? "p" : "u"; o.arith = w[a].arith; o.batch = w[a].batch;
    Wire x = w[a]; x.refs = 1;
    o.outs = {add(x)};
    ops.push_back(o);
  }
  int open(int a, int party) {
    Op o; o.ev = "open"; o.ins = {a}; o.party = party; o.arith = w[a].arith; o.batch = w[a].batch;
    Wire x = w[a]; x.refs = 1; x.openTo = party; x.depth = w[a].depth + 1;
    o.outs = {add(x)};
    ops.push_back(o);
    return o.outs[0];
  }
  void simple(const char* ev, int a) { Op o; o.ev = ev; o.ins = {a}; o.arith = w[a].arith; o.batch = w[a].batch; ops.push_back(o); }
  void dec(int a) {
    simple("dec", a);
    if (--w[a].refs == 0) {
      live.erase(std::find(live.begin(), live.end(), a));
      if (mode == "life" && (kind != "lazy") && r.chance(40)) simple("stale", a);
    }
  }
  void flush() {
    // deeper than anything pending: reading it makes a lazy scheduler execute everything
    int c = input(false, false, 1, 0), d = input(false, false, 1, 0);
    int depth = maxDepth + 2;
    w[c].depth = 0;
    for (int i = 0; i < depth; i++) {
      Op o; o.ev = "gate"; o.op = "and"; o.ins = {c, d}; o.pub = "pp";
      Wire x = w[c]; x.refs = 1;
      o.outs = {add(x)};
      ops.push_back(o);
      dec(c);
      c = o.outs[0];
    }
    simple("share", c);
    dec(c); dec(d);
    Op o; o.ev = "flushed"; ops.push_back(o);
    for (auto& x : w) x.depth = 0;
    maxDepth = 0;
  }
  // the operands may be let go of before the work that uses them is done
  void step() {
    size_t k = ops.size();
    step1();
    if (k >= ops.size() || !r.chance(mode == "life" ? 40 : 15)) return;
    auto& ev = ops[k].ev;
    if (ev != "gate" && ev != "cand" && ev != "batchup" && ev != "unbatch" && ev != "open") return;
    std::vector<int> in = ops[k].ins;
    size_t keep = r.chance(60) ? in.size() : r.below(in.size());  // all of them, or all but one
    std::set<int> seen;
    for (size_t i = 0; i < in.size(); i++)
      if (i != keep && seen.insert(in[i]).second && (keep >= in.size() || in[i] != in[keep]))
        while (w[in[i]].refs > 0) dec(in[i]);
    // something else moves in
    int like = in[0];
    if (r.chance(60)) for (int i = 0; i < 3; i++) input(w[like].arith, w[like].batch, w[like].n ? w[like].n : 1, 0);
  }
  static constexpr int groups[] = {7, 8, 9, 15, 16, 17, 31, 33, 63, 64, 65, 127, 128, 129, 200};
  void step1() {
    int pc = r.below(100);
    bool wantA = mode == "ints" || (mode == "arith" ? r.chance(70) : mode == "bool" ? false : r.chance(35));
    bool batch = r.chance(45);
    if (pc < 16 || live.empty()) {
      int like = batch ? pick([&](Wire& x) { return x.arith == wantA && x.batch; }) : -1;
      size_t sz = like >= 0 && r.chance(75) ? w[like].n : batchSize();
      input(wantA, batch, sz, r.chance(55) ? 0 : r.chance(60) ? 1 : 2);
    } else if (pc < 48) {
      int a = pick([&](Wire& x) { return x.arith == wantA && x.batch == batch; });
      if (a < 0) return;
      int b = pick([&](Wire& x) { return x.arith == wantA && x.batch == batch && x.n == w[a].n; });
      gate2(wantA ? (r.chance(55) ? "mult" : "plus") : (r.chance(55) ? "and" : "xor"), a, b);
    } else if (pc < 55) {
      int a = pick([&](Wire& x) { return x.arith == wantA && x.batch == batch; });
      if (a >= 0) gate1(wantA ? "neg" : "not", a);
    } else if (pc < 62) {
      int a = pick([&](Wire& x) { return !x.arith && x.batch == batch; });
      if (a < 0) return;
      bool rp = r.coin();
      std::vector<int> rights;
      // groups wider than a byte, a word or a block now and then
      int k = r.chance(12) && w[a].n < 50 ? groups[r.below(sizeof(groups) / sizeof(*groups))] : r.range(1, 4);
      for (int i = 0; i < k; i++) {
        int b = pick([&](Wire& x) { return !x.arith && x.batch == batch && x.n == w[a].n && x.priv == rp; });
        if (b >= 0) rights.push_back(b);
      }
      if (rights.empty() || (!w[a].priv && rp)) return;
      Op o; o.ev = "cand"; o.ins = {a}; o.batch = batch; o.pub = pubOf(a, rights[0]);
      int d = w[a].depth;
      for (int b : rights) { o.ins.push_back(b); d = std::max(d, w[b].depth); }
      for (size_t i = 0; i < rights.size(); i++) {
        Wire x = w[a]; x.refs = 1; x.priv = w[a].priv || rp; x.depth = d + (o.pub == "pp");
        o.outs.push_back(add(x));
      }
      ops.push_back(o);
    } else if (pc < 67) {
      std::vector<int> in;
      int k = r.chance(12) ? r.range(5, 40) : r.range(1, 4);
      bool pr = r.chance(75);
      for (int i = 0; i < k; i++) {
        int b = pick([&](Wire& x) { return !x.arith && x.batch && x.priv == pr && x.n < (k > 4 ? 60 : 700); });
        if (b >= 0) in.push_back(b);
      }
      if (in.empty()) return;
      Op o; o.ev = "batchup"; o.ins = in; o.batch = true;
      Wire x; x.batch = true; x.n = 0; x.priv = pr;
      for (int b : in) { x.n += w[b].n; x.depth = std::max(x.depth, w[b].depth); }
      o.outs = {add(x)};
      ops.push_back(o);
    } else if (pc < 72) {
      int a = pick([&](Wire& x) { return !x.arith && x.batch; });
      if (a < 0) return;
      Op o; o.ev = "unbatch"; o.ins = {a}; o.batch = true;
      size_t left = w[a].n;
      int k = r.chance(12) ? r.range(5, 40) : r.range(1, 4);
      for (int i = 0; i < k; i++) {
        size_t c = (i == k - 1 && r.chance(80)) ? left : r.range(0, left);
        o.cut.push_back(c);
        left -= c;
        Wire x = w[a]; x.n = c; x.refs = 1;
        o.outs.push_back(add(x));
      }
      ops.push_back(o);
    } else if (pc < 79) {
      int a = pick([&](Wire& x) { return x.arith == wantA && x.batch == batch && x.priv; });
      if (a < 0) return;
      int p = r.below(n);
      int o = open(a, p);
      if (r.chance(50)) { simple("get", o); if (r.chance(70)) dec(o); }
    } else if (pc < 84) {
      std::vector<int> c;
      for (int i : live) if (w[i].openTo >= 0 || !w[i].priv) c.push_back(i);
      if (!c.empty()) simple("get", c[r.below(c.size())]);
    } else if (pc < 87) {
      int a = pick([&](Wire& x) { return x.priv; });
      if (a >= 0) simple("share", a);
    } else if (pc < 90) {
      int a = live[r.below(live.size())];
      if (w[a].batch) simple("size", a);
    } else if (pc < 93) {
      int a = live[r.below(live.size())];
      w[a].refs++;
      simple("inc", a);
    } else {
      int k = r.range(1, 3);
      for (int i = 0; i < k && !live.empty(); i++) dec(live[r.below(live.size())]);
    }
    if (mode == "life" && r.chance(25)) { Op o; o.ev = "wstat"; ops.push_back(o); }
    if (mode == "gates" && r.chance(25)) { Op o; o.ev = "gstat"; ops.push_back(o); }
    if (mode != "bool" && mode != "arith" && mode != "ints" && r.chance(3)) flush();
  }
  // many gates of the same depth
  // many gates ready at the same time, or (a ladder) each a level above the one before
  void burst(int count) {
    bool arith = mode == "arith" || mode == "ints" || (mode != "bool" && r.coin()), batch = r.chance(30);
    std::vector<int> x{input(arith, batch, r.range(1, 3), 0)};
    while (x.size() < 5) x.push_back(input(arith, batch, w[x[0]].n, 0));
    bool groups_ = !arith && r.chance(35), ladder = !groups_ && r.chance(25);
    std::vector<int> made;
    for (int i = 0; i < count; i++) {
      if (!groups_) { gate2(arith ? "mult" : "and", ladder && i ? w.size() - 1 : x[r.below(5)], x[ladder ? 1 + i % 2 : r.below(5)]); made.push_back(w.size() - 1); continue; }
      Op o; o.ev = "cand"; o.ins = {x[r.below(5)], x[r.below(5)], x[r.below(5)]}; o.batch = batch; o.pub = "pp";
      int d = 0;
      for (int b : o.ins) d = std::max(d, w[b].depth);
      for (int b = 0; b < 2; b++) {
        Wire q = w[o.ins[0]]; q.refs = 1; q.depth = d + 1;
        o.outs.push_back(add(q)); made.push_back(o.outs.back());
      }
      ops.push_back(o);
    }
    size_t keep = r.below(7);
    for (size_t i = 0; i < made.size(); i++) if (i % 7 != keep && i + 1 != made.size()) dec(made[i]);
  }
  void chain(int count, bool keepAll) {
    bool arith = mode == "arith" || mode == "ints" || (mode != "bool" && r.chance(30)), batch = r.chance(30);
    int x = input(arith, batch, 2, r.chance(70) ? 0 : 1);
    Op o; o.ev = "notchain"; o.op = arith ? "neg" : "not"; o.ins = {x}; o.count = count; o.at = r.range(1, count); o.keepAll = keepAll;
    o.arith = arith; o.batch = batch; o.pub = w[x].priv ? "p" : "u";
    Wire y = w[x]; y.refs = 1; o.outs = {add(y)};
    ops.push_back(o);
  }
  // one value against many others, of which the last is ready later than the rest
  void group() {
    bool batch = r.coin();
    size_t sz = batch ? r.range(1, 3) : 1;
    std::vector<int> pool;
    for (int i = 0; i < 6; i++) {
      pool.push_back(input(false, batch, sz, 0));
      if (i < 2) for (auto& v : ops.back().vals) v = i;
    }
    int left = input(false, batch, sz, 0);
    for (auto& v : ops.back().vals) v = 1;
    int k = r.coin() ? groups[r.below(sizeof(groups) / sizeof(*groups))] : (int)r.range(2, 5);
    Op o; o.ev = "cand"; o.ins = {left}; o.batch = batch; o.pub = "pp";
    for (int i = 0; i < k; i++) o.ins.push_back(pool[r.below(6)]);
    if (r.coin()) {
      gate2("and", pool[0], pool[1]);
      for (int d = r.below(3); d > 0; d--) gate2("and", w.size() - 1, pool[1]);
      gate2("xor", w.size() - 1, pool[1]);  // one, and late
      o.ins[r.coin() ? k : 1 + r.below(k)] = w.size() - 1;
    }
    int d = 0;
    for (int b : o.ins) d = std::max(d, w[b].depth);
    for (int i = 0; i < k; i++) {
      Wire x = w[left]; x.refs = 1; x.depth = d + 1;
      o.outs.push_back(add(x));
    }
    ops.push_back(o);
    for (int x : o.outs) if (r.coin()) simple("share", x);
  }
  // batches whose length needs more than sixteen bits
  void wide() {
    size_t sz = r.coin() ? 65536 : r.range(65537, 70000);
    int x = input(false, true, sz, 0), y = input(false, true, sz, 0), z = input(false, true, sz, 1);
    gate2("and", x, y);
    int a = w.size() - 1;
    gate2("xor", a, z);
    gate1("not", x);
    for (int i = x; i < (int)w.size(); i++) simple("size", i);  // known before anything is worked out
    Op m; m.ev = "cand"; m.ins = {x, y, x}; m.batch = true; m.pub = "pp";
    for (int i = 0; i < 2; i++) { Wire q = w[x]; q.refs = 1; q.depth = std::max(w[x].depth, w[y].depth) + 1; m.outs.push_back(add(q)); }
    ops.push_back(m);
    simple("size", m.outs[1]);
    Op u; u.ev = "unbatch"; u.ins = {a}; u.batch = true;
    uint32_t c = r.range(1, 300);
    u.cut = r.coin() ? std::vector<uint32_t>{c, (uint32_t)sz - c} : std::vector<uint32_t>{(uint32_t)sz - c, c};
    for (auto k : u.cut) { Wire q = w[a]; q.n = k; q.refs = 1; u.outs.push_back(add(q)); }
    ops.push_back(u);
    Op b; b.ev = "batchup"; b.ins = {u.outs[1], u.outs[0]}; b.batch = true;
    Wire q = w[a]; q.refs = 1;
    b.outs = {add(q)};
    ops.push_back(b);
    simple("size", u.outs[0]); simple("size", u.outs[1]); simple("size", b.outs[0]);
    simple("share", m.outs[0]);
    int o = open(a, r.below(n));
    simple("get", o);
    simple("size", a);
    simple("share", b.outs[0]);
    for (int i : std::vector<int>(live)) if (w[i].n > 60000) while (w[i].refs > 0) dec(i);
  }
  void wideInts() {
    size_t sz = 65536 + r.below(300);
    int x = input(true, true, sz, 0), y = input(true, true, sz, 0);
    gate2("mult", x, y);
    int o = open(w.size() - 1, r.below(n));
    simple("get", o);
    for (int i : std::vector<int>(live)) if (w[i].n > 60000) while (w[i].refs > 0) dec(i);
  }
  // a great many references to one wire
  void crowd() {
    if (live.empty()) return;
    int a = live[r.below(live.size())];
    Op o; o.ev = "incs"; o.ins = {a}; o.arith = w[a].arith; o.batch = w[a].batch;
    o.count = r.coin() ? r.range(250, 600) : r.range(65530, 66000);
    ops.push_back(o);
    if (w[a].priv && w[a].openTo < 0 && r.coin()) simple("share", a);
    o.ev = "decs";
    if (r.coin()) { o.count += w[a].refs - 1; w[a].refs = 1; }
    ops.push_back(o);
    if (w[a].priv && w[a].openTo < 0) simple("share", a);
  }
  void note(const char* ev) { Op o; o.ev = ev; ops.push_back(o); }
  void finish(int bad, bool counted) {
    // read everything that is left, then let go of it
    std::vector<int> l = live;
    for (int a : l) {
      if (w[a].openTo >= 0 || !w[a].priv) simple("get", a);
      else if (r.chance(70)) simple("share", a);
      else { int o = open(a, r.below(n)); simple("get", o); dec(o); }
    }
    if (bad) {
      int a = input(false, true, r.range(1, 4), 0);
      if (r.coin()) { gate1("not", a); a = w.size() - 1; }
      Op o; o.ev = "overcut"; o.ins = {a}; o.batch = true;
      uint32_t c = r.range(0, w[a].n);
      o.cut = {c, (uint32_t)(w[a].n - c + r.range(1, 70))};
      ops.push_back(o);
      return;
    }
    if (counted) note("traffic");
    if (mode != "life" && mode != "gates" && mode != "lazy" && r.chance(50)) {
      // the engine may go before the values do
      note("engineoff");
      for (int a : std::vector<int>(live)) if (w[a].openTo >= 0 || !w[a].priv || r.coin()) simple(w[a].openTo >= 0 || !w[a].priv ? "get" : "share", a);
      if (counted) note("traffic");
    }
    if (mode == "life" || mode == "gates") {
      l = live;
      for (int a : l) while (w[a].refs > 0) dec(a);
      flush();
      Op o; o.ev = mode == "life" ? "wstat" : "gstat"; ops.push_back(o);
    }
  }
};

struct Result { std::vector<std::string> out; };

std::unique_ptr<scheduler::IWireKeeper> keeper(int k) {
  if (k == 0) return scheduler::WireKeeper::createWithVectorArena<true>();
  if (k == 1) return scheduler::WireKeeper::createWithVectorArena<false>();
  return scheduler::WireKeeper::createWithUnorderedMap();
}

std::unique_ptr<A> arith(std::unique_ptr<S> s) {
  auto a = dynamic_cast<A*>(s.get());
  if (!a) throw std::runtime_error("a factory made a scheduler without integers");
  s.release();
  return std::unique_ptr<A>(a);
}
// the second one a factory makes: the first has come and gone
thread_local std::array<std::atomic<uint64_t>, 2>* counters = nullptr;
template <class F>
std::unique_ptr<A> second(F&& f) {
  f.create();
  if (counters) (*counters)[0] = (*counters)[1] = 0;
  return arith(f.create());
}
// how: 0 put together here, 1 by the scheduler's factory, 2 by the helper functions, 3 by the ready-made factories;
// 10 and up: with the engines that the library offers for use, 10 classic, 11 ferret, 12/13 the same by helpers,
// 14 and 15 those for integers, 16 both kinds at two to four parties, made in small amounts
template <bool unsafe>
std::unique_ptr<A> madeSched(int how, const std::string& kind, int me, int n, engine::communication::IPartyCommunicationAgentFactory& f, uint64_t seed) {
  using namespace scheduler;
  auto mc = std::make_shared<util::MetricCollector>("m");
  bool eager = kind == "eager";
  if (kind == "plain") {
    if (how == 1) return second(PlaintextSchedulerFactory<unsafe>(mc));
    if (how == 3) return second(PlaintextSchedulerFactory<unsafe>());
    return createArithmeticPlaintextScheduler<unsafe>(me, f);
  }
  if (kind == "netplain") {
    if (how == 1) return second(NetworkPlaintextSchedulerFactory<unsafe>(me, f, mc));
    if (how == 3) return arith(createNetworkPlaintextScheduler<unsafe>(me, f));
    return createArithmeticNetworkPlaintextScheduler<unsafe>(me, f);
  }
  if (how == 1) {
    auto ef = engine::getEngineFactoryWithTupleGeneratorFactories(
        me, n, f, std::make_unique<DealerFactory>(me, n, seed, seed % 2 == 0), std::make_unique<IntDealerFactory>(me, n, seed + 1));
    return eager ? second(EagerSchedulerFactory<unsafe>(std::move(ef))) : second(LazySchedulerFactory<unsafe>(std::move(ef), mc));
  }
  if (how == 2) {
    if (seed & 1) return eager ? arith(createEagerSchedulerWithInsecureEngine<unsafe>(me, f)) : arith(createLazySchedulerWithInsecureEngine<unsafe>(me, f));
    return eager ? createArithmeticEagerSchedulerWithInsecureEngine<unsafe>(me, f) : createArithmeticLazySchedulerWithInsecureEngine<unsafe>(me, f);
  }
  if (how == 3)
    return eager ? second(*getEagerSchedulerFactoryWithInsecureEngine<unsafe>(me, f)) : second(*getLazySchedulerFactoryWithInsecureEngine<unsafe>(me, f, mc));
  if (how == 16) {
    // both kinds of tuples between any number of parties, in amounts small enough to be used up
    namespace tg = engine::tuple_generator;
    namespace ot = tg::oblivious_transfer;
    size_t buf = 1 + seed % 90;
    std::shared_ptr<ot::IRandomCorrelatedObliviousTransferFactory> rc = seed & 1024 ? ot::createClassicRcotFactory() : ot::createFerretRcotFactory(4096, 1024, 32);
    auto ps = std::make_shared<tg::ProductShareGeneratorFactory>(std::make_unique<engine::util::AesPrgFactory>(buf), std::make_unique<ot::RcotBasedBidirectionObliviousTransferFactory>(me, f, rc));
    auto ints = std::make_unique<tg::ArithmeticTupleGeneratorFactory>(ps, std::make_unique<engine::util::AesPrgFactory>(), buf, me, n);
    std::unique_ptr<tg::ITupleGeneratorFactory> bools;
    if (n == 2 && (seed & 2048)) bools = std::make_unique<tg::TwoPartyTupleGeneratorFactory>(rc, f, me, buf, mc);
    else bools = std::make_unique<tg::TupleGeneratorFactory>(ps, std::make_unique<engine::util::AesPrgFactory>(), buf, me, n, mc);
    auto ef = engine::getEngineFactoryWithTupleGeneratorFactories(me, n, f, std::move(bools), std::move(ints));
    return eager ? arith(EagerSchedulerFactory<unsafe>(std::move(ef)).create()) : arith(LazySchedulerFactory<unsafe>(std::move(ef)).create());
  }
  if (how == 10) return eager ? arith(getEagerSchedulerFactoryWithClassicOT(me, f)->create()) : arith(getLazySchedulerFactoryWithClassicOT(me, f, mc)->create());
  if (how == 11) return eager ? arith(getEagerSchedulerFactoryWithRealEngine(me, f, mc)->create()) : arith(getLazySchedulerFactoryWithRealEngine(me, f)->create());
  if (how == 12) return eager ? arith(createEagerSchedulerWithClassicOT(me, f)) : arith(createLazySchedulerWithClassicOT(me, f));
  if (how == 13) return eager ? arith(createEagerSchedulerWithRealEngine(me, f)) : arith(createLazySchedulerWithRealEngine(me, f));
  auto ef = how == 14 ? engine::getSecureEngineFactoryWithBooleanAndIntegerTupleGenerator(me, n, f, mc)
                      : engine::getSecureEngineFactoryWithIntegerOnlyTupleGenerator(me, n, f, mc);
  return eager ? arith(EagerSchedulerFactory<unsafe>(std::move(ef)).create()) : arith(LazySchedulerFactory<unsafe>(std::move(ef)).create());
}
std::unique_ptr<A> makeSched(const std::string& kind, int me, int n, engine::communication::IPartyCommunicationAgentFactory& f, int wk, std::vector<std::string>* log, uint64_t seed, int how = 0) {
  if (how) return wk == 0 ? madeSched<true>(how, kind, me, n, f, seed) : madeSched<false>(how, kind, me, n, f, seed);
  if (kind == "plain") return std::make_unique<scheduler::PlaintextScheduler>(keeper(wk));
  if (kind == "netplain")
    return std::make_unique<scheduler::NetworkPlaintextScheduler>(me, engine::communication::getAgentMap(n, me, f), keeper(wk));
  auto ef = engine::getEngineFactoryWithTupleGeneratorFactories(
      me, n, f, std::make_unique<DealerFactory>(me, n, seed, seed % 2 == 0), std::make_unique<IntDealerFactory>(me, n, seed + 1));
  if (kind == "eager") return std::make_unique<scheduler::EagerScheduler>(ef->create(), keeper(wk));
  std::shared_ptr<scheduler::IWireKeeper> k = keeper(wk);
  std::unique_ptr<engine::ISecretShareEngine> eng = ef->create();
  if (log) eng = std::make_unique<ProbeEngine>(std::move(eng), *log);
  return std::make_unique<scheduler::LazyScheduler>(std::move(eng), k, std::make_unique<scheduler::GateKeeper>(k));
}

void runParty(int me, A& s, const std::vector<Op>& ops, size_t nWires, uint64_t seed, std::vector<std::string>& out, std::vector<std::string>* log, std::vector<std::string>* logs, std::array<std::atomic<uint64_t>, 2>& wire, bool ahead) {
  bool off = false;
  std::vector<BW> b(nWires);
  std::vector<AW> a(nWires);
  Rng junk(seed * 77 + me);
  auto bv = [](const U64& v) { std::vector<bool> r; for (auto x : v) r.push_back(x); return r; };
  auto jb = [](const std::vector<bool>& v) { return js(v); };
  for (size_t k = 0; k < ops.size(); k++) {
    const Op& o = ops[k];
    std::string res;
    if (o.ev == "input") {
      U64 v = o.vals;
      if (o.src == "priv" && o.party != me) for (auto& x : v) x = o.arith ? junk.next() : junk.below(2);
      if (o.src == "rec") v = o.shares[me];
      int w = o.outs[0];
      if (!o.arith) {
        if (!o.batch) b[w] = o.src == "priv" ? s.privateBooleanInput(v[0], o.party) : o.src == "pub" ? s.publicBooleanInput(v[0]) : s.recoverBooleanWire(v[0]);
        else b[w] = o.src == "priv" ? s.privateBooleanInputBatch(bv(v), o.party) : o.src == "pub" ? s.publicBooleanInputBatch(bv(v)) : s.recoverBooleanWireBatch(bv(v));
      } else {
        if (!o.batch) a[w] = o.src == "priv" ? s.privateIntegerInput(v[0], o.party) : o.src == "pub" ? s.publicIntegerInput(v[0]) : s.recoverIntegerWire(v[0]);
        else a[w] = o.src == "priv" ? s.privateIntegerInputBatch(v, o.party) : o.src == "pub" ? s.publicIntegerInputBatch(v) : s.recoverIntegerWireBatch(v);
      }
    } else if (o.ev == "gate") {
      int w = o.outs[0];
      auto& p = o.pub;
      if (!o.arith) {
        BW x = b[o.ins[0]], y = o.ins.size() > 1 ? b[o.ins[1]] : BW();
        if (o.op == "and") {
          if (!o.batch) b[w] = p == "pp" ? s.privateAndPrivate(x, y) : p == "pu" ? s.privateAndPublic(x, y) : s.publicAndPublic(x, y);
          else b[w] = p == "pp" ? s.privateAndPrivateBatch(x, y) : p == "pu" ? s.privateAndPublicBatch(x, y) : s.publicAndPublicBatch(x, y);
        } else if (o.op == "xor") {
          if (!o.batch) b[w] = p == "pp" ? s.privateXorPrivate(x, y) : p == "pu" ? s.privateXorPublic(x, y) : s.publicXorPublic(x, y);
          else b[w] = p == "pp" ? s.privateXorPrivateBatch(x, y) : p == "pu" ? s.privateXorPublicBatch(x, y) : s.publicXorPublicBatch(x, y);
        } else {
          if (!o.batch) b[w] = p == "p" ? s.notPrivate(x) : s.notPublic(x);
          else b[w] = p == "p" ? s.notPrivateBatch(x) : s.notPublicBatch(x);
        }
      } else {
        AW x = a[o.ins[0]], y = o.ins.size() > 1 ? a[o.ins[1]] : AW();
        if (o.op == "plus") {
          if (!o.batch) a[w] = p == "pp" ? s.privatePlusPrivate(x, y) : p == "pu" ? s.privatePlusPublic(x, y) : s.publicPlusPublic(x, y);
          else a[w] = p == "pp" ? s.privatePlusPrivateBatch(x, y) : p == "pu" ? s.privatePlusPublicBatch(x, y) : s.publicPlusPublicBatch(x, y);
        } else if (o.op == "mult") {
          if (!o.batch) a[w] = p == "pp" ? s.privateMultPrivate(x, y) : p == "pu" ? s.privateMultPublic(x, y) : s.publicMultPublic(x, y);
          else a[w] = p == "pp" ? s.privateMultPrivateBatch(x, y) : p == "pu" ? s.privateMultPublicBatch(x, y) : s.publicMultPublicBatch(x, y);
        } else {
          if (!o.batch) a[w] = p == "p" ? s.negPrivate(x) : s.negPublic(x);
          else a[w] = p == "p" ? s.negPrivateBatch(x) : s.negPublicBatch(x);
        }
      }
    } else if (o.ev == "notchain") {
      // count gates in a row, of which the at-th is kept; released on the way, or all at the end in any order
      Rng q(o.count);
      auto chain = [&](auto cur, auto step, auto& keep) {
        std::vector<std::decay_t<decltype(cur)>> all;
        for (int i = 1; i <= o.count; i++) {
          auto nx = step(cur);
          if (i > 1 && i - 1 != o.at) {
            if (o.keepAll) all.push_back(cur);
            else if (o.batch) s.decreaseReferenceCountBatch(cur);
            else s.decreaseReferenceCount(cur);
          }
          if (i == o.at) keep = nx;
          cur = nx;
        }
        if (o.at != o.count) all.push_back(cur);
        for (size_t i = all.size(); i > 1; i--) std::swap(all[i - 1], all[q.below(i)]);
        for (auto& x : all) { if (o.batch) s.decreaseReferenceCountBatch(x); else s.decreaseReferenceCount(x); }
      };
      bool pr = o.pub == "p";
      if (o.arith) chain(a[o.ins[0]], [&](AW x) { return o.batch ? (pr ? s.negPrivateBatch(x) : s.negPublicBatch(x)) : pr ? s.negPrivate(x) : s.negPublic(x); }, a[o.outs[0]]);
      else chain(b[o.ins[0]], [&](BW x) { return o.batch ? (pr ? s.notPrivateBatch(x) : s.notPublicBatch(x)) : pr ? s.notPrivate(x) : s.notPublic(x); }, b[o.outs[0]]);
    } else if (o.ev == "cand") {
      std::vector<BW> r;
      for (size_t i = 1; i < o.ins.size(); i++) r.push_back(b[o.ins[i]]);
      BW l = b[o.ins[0]];
      std::vector<BW> z;
      if (!o.batch) z = o.pub == "pp" ? s.privateAndPrivateComposite(l, r) : o.pub == "pu" ? s.privateAndPublicComposite(l, r) : s.publicAndPublicComposite(l, r);
      else z = o.pub == "pp" ? s.privateAndPrivateCompositeBatch(l, r) : o.pub == "pu" ? s.privateAndPublicCompositeBatch(l, r) : s.publicAndPublicCompositeBatch(l, r);
      if (z.size() != o.outs.size()) throw std::runtime_error("composite: wrong number of results");
      for (size_t i = 0; i < z.size(); i++) b[o.outs[i]] = z[i];
    } else if (o.ev == "batchup") {
      std::vector<BW> r;
      for (int i : o.ins) r.push_back(b[i]);
      b[o.outs[0]] = s.batchingUp(r);
    } else if (o.ev == "unbatch") {
      auto z = s.unbatching(b[o.ins[0]], std::make_shared<std::vector<uint32_t>>(o.cut));
      for (size_t i = 0; i < z.size(); i++) b[o.outs[i]] = z[i];
    } else if (o.ev == "overcut") {
      res = "0";
      try {
        auto z = s.unbatching(b[o.ins[0]], std::make_shared<std::vector<uint32_t>>(o.cut));
        for (auto& x : z) s.extractBooleanSecretShareBatch(x);
      } catch (const std::exception&) { res = "1"; }
    } else if (o.ev == "open") {
      int w = o.outs[0], x = o.ins[0];
      if (!o.arith) b[w] = o.batch ? s.openBooleanValueToPartyBatch(b[x], o.party) : s.openBooleanValueToParty(b[x], o.party);
      else a[w] = o.batch ? s.openIntegerValueToPartyBatch(a[x], o.party) : s.openIntegerValueToParty(a[x], o.party);
    } else if (o.ev == "get") {
      int x = o.ins[0];
      if (!o.arith) res = o.batch ? jb(s.getBooleanValueBatch(b[x])) : jb({s.getBooleanValue(b[x])});
      else res = o.batch ? jws(s.getIntegerValueBatch(a[x])) : jws({s.getIntegerValue(a[x])});
    } else if (o.ev == "share") {
      int x = o.ins[0];
      if (!o.arith) res = o.batch ? jb(s.extractBooleanSecretShareBatch(b[x])) : jb({s.extractBooleanSecretShare(b[x])});
      else res = o.batch ? jws(s.extractIntegerSecretShareBatch(a[x])) : jws({s.extractIntegerSecretShare(a[x])});
    } else if (o.ev == "stale") {
      int x = o.ins[0];
      res = "0";
      try {
        if (!o.arith) { if (o.batch) s.getBooleanValueBatch(b[x]); else s.getBooleanValue(b[x]); }
        else { if (o.batch) s.getIntegerValueBatch(a[x]); else s.getIntegerValue(a[x]); }
      } catch (const std::exception&) { res = "1"; }
    } else if (o.ev == "size") {
      res = std::to_string(o.arith ? s.getBatchSize(a[o.ins[0]]) : s.getBatchSize(b[o.ins[0]]));
    } else if (o.ev == "inc") {
      int x = o.ins[0];
      if (!o.arith) { if (o.batch) s.increaseReferenceCountBatch(b[x]); else s.increaseReferenceCount(b[x]); }
      else { if (o.batch) s.increaseReferenceCountBatch(a[x]); else s.increaseReferenceCount(a[x]); }
    } else if (o.ev == "dec") {
      int x = o.ins[0];
      if (!o.arith) { if (o.batch) s.decreaseReferenceCountBatch(b[x]); else s.decreaseReferenceCount(b[x]); }
      else { if (o.batch) s.decreaseReferenceCountBatch(a[x]); else s.decreaseReferenceCount(a[x]); }
    } else if (o.ev == "incs" || o.ev == "decs") {
      int x = o.ins[0];
      for (int i = 0; i < o.count; i++)
        if (o.ev == "incs") {
          if (!o.arith) { if (o.batch) s.increaseReferenceCountBatch(b[x]); else s.increaseReferenceCount(b[x]); }
          else { if (o.batch) s.increaseReferenceCountBatch(a[x]); else s.increaseReferenceCount(a[x]); }
        } else {
          if (!o.arith) { if (o.batch) s.decreaseReferenceCountBatch(b[x]); else s.decreaseReferenceCount(b[x]); }
          else { if (o.batch) s.decreaseReferenceCountBatch(a[x]); else s.decreaseReferenceCount(a[x]); }
        }
    } else if (o.ev == "engineoff") {
      s.deleteEngine();
      off = true;
    } else if (o.ev == "traffic") {
      // real engines make tuples ahead, at their own pace
      std::array<uint64_t, 4> q{};
      for (int i = 0; i < (ahead && !off ? 3000 : 1); i++) {
        if (i) std::this_thread::sleep_for(std::chrono::milliseconds(10));
        if (off) std::tie(q[0], q[1]) = s.getTrafficStatistics();
        q[2] = wire[0], q[3] = wire[1];
        if (!off) std::tie(q[0], q[1]) = s.getTrafficStatistics();
        if (q[0] == q[2] && q[1] == q[3]) break;
      }
      res = js(std::vector<uint64_t>(q.begin(), q.end()));
    } else if (o.ev == "wstat") {
      auto p = s.getWireStatistics();
      res = "[" + std::to_string(p.first) + "," + std::to_string(p.second) + "]";
    } else if (o.ev == "gstat") {
      auto p = s.getGateStatistics();
      res = "[" + std::to_string(p.first) + "," + std::to_string(p.second) + "]";
    }
    if (log) {
      logs->push_back(jmap(*log, [](const std::string& x) { return x; }));
      log->clear();
    }
    out.push_back(res);
  }
}

std::string inc1(const std::vector<int>& v) { std::vector<int> r; for (int x : v) r.push_back(x + 1); return js(r); }

// building only: how many gates wait for execution
void bound(Trace& T, Rng& r) {
  int n = 2;
  auto net = std::make_shared<Net>();
  std::vector<std::vector<std::string>> log(n);
  std::vector<std::string> out(n);
  bool nonfree = r.coin();
  int count = 450000;
  runParties(n, net, [&](int me) {
    AgentFactory f(net, me);
    auto s = makeSched("lazy", me, n, f, 0, &log[me], 7);
    auto x = s->privateBooleanInput(me == 0, 0), y = s->privateBooleanInput(me == 1, 1);
    for (int i = 0; i < count; i++) {
      // wide: independent of each other, or deep: a chain
      auto z = nonfree ? s->privateAndPrivate(x, y) : s->privateXorPrivate(x, y);
      if (i % 50000 == 49999) {
        auto g = s->getGateStatistics();
        out[me] += (out[me].empty() ? "" : ",") + ("[" + std::to_string(i + 1) + "," + std::to_string(g.first + g.second) + "]");
      }
      if (nonfree && i % 1000 == 0) { s->decreaseReferenceCount(x); x = z; } else s->decreaseReferenceCount(z);
    }
  });
  T(Ev("begin").f("n", n).f("sched", "lazy").f("keeper", 0).f("ahead", 0));
  T(Ev("bound").raw("seen", jmap(out, [](const std::string& x) { return "[" + x + "]"; })));
}

int main(int c, char** v) {
  Args ar(c, v);
  Trace T(ar.out);
  Watchdog wd(T, ar.mode.rfind("prod", 0) == 0 ? 300 : 60);
  Rng r(ar.seed);
  // sessions over the engines the library offers for use, one way of making them to a shard
  bool prodB = ar.mode == "prodbool", prodT = ar.mode == "prodtraf", prod = prodB || prodT || ar.mode == "prodint";
  bool traf = prodT || ar.mode == "traf";
  int made = !prod ? 0 : prodT ? 10 + std::min(ar.shard % 9, 6) : prodB ? 10 + ar.shard % 4 : 14 + ar.shard % 2;
  if (prod) ar.mode = made == 14 || made == 16 ? "mix" : made == 15 ? "ints" : "bool";
  int episodes = made == 16 ? (ar.thorough ? 16 : 5) : prod ? (ar.thorough ? 2 : 1) : ar.thorough ? 160 : 44;
  if (ar.mode == "lazy" && ar.shard == 0) bound(T, r);
  const char* kinds[] = {"plain", "netplain", "eager", "lazy", "lazy", "eager", "lazy"};
  for (int e = 0; e < episodes; e++) {
    wd.tick();
    std::string kind = ar.mode == "lazy" ? "lazy" : kinds[e % 7];
    if (prod) kind = r.coin() ? "lazy" : "eager";
    int n = kind == "plain" ? 1 : (prod && made != 16) || r.chance(50) ? 2 : r.range(2, 4);
    int wk = r.below(3);
    if (ar.mode == "life" && kind != "lazy") wk = r.range(1, 2); // stale reads are probed: need a checking allocator
    Gen g(r, n, kind, ar.mode);
    int len = r.range(15, ar.thorough ? 140 : 90);
    if (r.chance(15)) g.big = r.bigSize();
    // now and then a long chain of gates: more wires than an arena holds; once, more than stay unexecuted
    int chainAt = ar.mode != "lazy" && r.chance(30) ? r.below(len) : -1;
    bool bits = ar.mode != "ints" && ar.mode != "arith";
    int groupAt = bits && r.chance(40) ? r.below(len) : -1;
    int wideAt = ar.mode == "bool" && !prod && (e == 5 || e == 6) ? r.below(len) : -1;
    int wideIntsAt = ar.mode == "arith" && e == 6 && (ar.thorough || ar.shard == 0) ? r.below(len) : -1;
    int crowdAt = ar.mode == "life" && r.chance(30) ? r.below(len) : -1;
    int burstAt = r.chance(20) ? r.below(len) : -1;
    for (int i = 0; i < len; i++) {
      g.step();
      if (traf && r.chance(10)) g.note("traffic");
      if (i == groupAt) g.group();
      if (i == wideAt) g.wide();
      if (i == wideIntsAt) g.wideInts();
      if (i == crowdAt) g.crowd();
      if (i == burstAt) g.burst(r.chance(30) ? r.range(257, 420) : r.range(20, 120));
      if (i == chainAt) g.chain(r.range(1000, 3300), r.chance(75));
    }
    if (e == 3 && (ar.mode == "bool" || ar.mode == "gates" || ar.mode == "life")) g.chain(100003 + (int)r.below(5), false);
    bool bad = (ar.mode == "bool") && r.chance(30);
    g.finish(bad, traf || (!prod && ar.mode != "lazy"));
    auto net = std::make_shared<Net>();
    std::vector<std::vector<std::string>> res(n), log(n), logs(n);
    bool probe = ar.mode == "lazy";
    uint64_t js_ = r.next();
    int how = 0;
    if (prod) how = made;
    else if (!probe && wk < 2 && r.chance(60)) how = n == 2 ? r.range(1, 3) : kind == "plain" ? r.range(1, 3) : kind == "netplain" ? 0 : 1;
    std::vector<std::array<std::atomic<uint64_t>, 2>> bytes(n);
    net->onData = [&](int me, int, bool sent, const unsigned char*, size_t k) { bytes[me][!sent] += k; };
    auto err = runParties(n, net, [&](int me) {
      AgentFactory f(net, me);
      counters = &bytes[me];
      auto s = makeSched(kind, me, n, f, wk, probe ? &log[me] : nullptr, js_, how);
      runParty(me, *s, g.ops, g.w.size(), js_, res[me], probe ? &log[me] : nullptr, &logs[me], bytes[me], prod);
    });
    size_t done = g.ops.size();
    for (auto& x : res) done = std::min(done, x.size());
    T(Ev("begin").f("n", n).f("sched", kind).f("keeper", wk).f("ahead", (int)prod));
    for (size_t k = 0; k < done; k++) {
      auto& o = g.ops[k];
      auto per = [&] { std::vector<int> ps(n); for (int i = 0; i < n; i++) ps[i] = i; return jmap(ps, [&](int p) { return res[p][k]; }); };
      Ev ev(o.ev.c_str());
      if (o.ev == "input") {
        ev.f("src", o.src).f("k", o.arith ? "a" : "b").f("batch", o.batch).f("party", o.party);
        ev.raw("vals", o.arith ? jws(o.vals) : js(o.vals));
        ev.raw("shares", jmap(o.shares, [&](U64 s) { return o.arith ? jws(s) : js(s); }));
      } else if (o.ev == "gate") ev.f("op", o.op).f("pub", o.pub).raw("ins", inc1(o.ins));
      else if (o.ev == "cand") ev.f("pub", o.pub).raw("ins", inc1(o.ins));
      else if (o.ev == "notchain") ev.raw("ins", inc1(o.ins)).f("count", o.count).f("at", o.at).f("op", o.op);
      else if (o.ev == "batchup") ev.raw("ins", inc1(o.ins));
      else if (o.ev == "unbatch") ev.f("in", o.ins[0] + 1).raw("cut", js(o.cut));
      else if (o.ev == "overcut") ev.f("in", o.ins[0] + 1).raw("cut", js(o.cut)).raw("threw", per());
      else if (o.ev == "open") ev.f("in", o.ins[0] + 1).f("party", o.party);
      else if (o.ev == "get" || o.ev == "share" || o.ev == "size" || o.ev == "stale") ev.f("w", o.ins[0] + 1).raw("vals", per());
      else if (o.ev == "incs" || o.ev == "decs") ev.f("w", o.ins[0] + 1).f("count", o.count);
      else if (o.ev == "traffic") ev.raw("vals", per());
      else if (o.ev == "inc" || o.ev == "dec") ev.f("w", o.ins[0] + 1);
      else if (o.ev == "wstat" || o.ev == "gstat") ev.raw("vals", per());
      if (probe) {
        std::vector<int> ps(n);
        for (int i = 0; i < n; i++) ps[i] = i;
        ev.raw("log", jmap(ps, [&](int p) { return logs[p][k]; }));
      }
      T(ev);
    }
    bool failed = false;
    for (auto& x : err) if (!x.empty()) failed = true;
    if (failed) {
      Ev ev("failed");
      ev.f("next", done < g.ops.size() ? g.ops[done].ev : std::string("-")).f("err", err);
      T(ev);
    } else T(Ev("end"));
  }
  return 0;
}
