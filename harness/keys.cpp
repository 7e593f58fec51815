// Follows every correlated key from where it is made to where it is used up: labelled keys are fed into the
// real session, extender, multi-point, bidirectional-OT and tuple code, the neighbours being stand-ins.
#include "common.h"
#include "fbpcf/engine/tuple_generator/TwoPartyTupleGenerator.h"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/ExtenderBasedRandomCorrelatedObliviousTransferFactory.h"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/IFlexibleRandomCorrelatedObliviousTransferFactory.h"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/RcotBasedBidirectionObliviousTransferFactory.h"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/ferret/RcotExtender.h"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/ferret/RegularErrorMultiPointCot.h"
#include "fbpcf/util/MetricCollector.h"

using namespace vh;
namespace eu = fbpcf::engine::util;
namespace tg = fbpcf::engine::tuple_generator;
namespace ot = tg::oblivious_transfer;
namespace cm = fbpcf::engine::communication;
using Blk = __m128i;
using Blks = std::vector<__m128i>;

static Blk key(int id) { return _mm_set_epi64x(0, id); }
static int id(const Blk& b) { return (int)_mm_extract_epi64(b, 0); }
static std::string ids(const Blks& v) { return jmap(v, [](const Blk& b) { return js(id(b)); }); }
static std::vector<int> idv(const Blks& v) {
  std::vector<int> r;
  for (auto& b : v) r.push_back(id(b));
  return r;
}
static std::string jm(const Blk& v) {
  unsigned char b[16];
  memcpy(b, &v, 16);
  std::string r = "[";
  for (int i = 0; i < 16; i++) r += (i ? "," : "") + std::to_string((int)b[i]);
  return r + "]";
}
template <class F>
static std::string both(F f) { return "[" + f(0) + "," + f(1) + "]"; }
static bool failed(Trace& T, const std::vector<std::string>& err, const char* what) {
  for (auto& e : err)
    if (!e.empty()) {
      T(Ev("failed").f("what", what).f("err", err));
      return true;
    }
  return false;
}
static Blks fresh(int& next, size_t n) {
  Blks r;
  for (size_t i = 0; i < n; i++) r.push_back(key(next++));
  return r;
}

// ---- a session over an extender that only labels ------------------------------------------------
struct LabelExtender final : ot::ferret::IRcotExtender {
  int base = 0;
  int64_t ext = 0;
  int* next = nullptr;
  std::function<void(const Blks&, const Blks&)> seen;
  int senderInit(__m128i, int64_t, int64_t, int64_t) override { return base; }
  int receiverInit(int64_t, int64_t, int64_t) override { return base; }
  void setCommunicationAgent(std::unique_ptr<cm::IPartyCommunicationAgent>) override {}
  int getBaseCotSize() const override { return base; }
  Blks go(Blks&& in) {
    Blks got = std::move(in), out = fresh(*next, ext);
    seen(got, out);
    return out;
  }
  Blks senderExtendRcot(Blks&& b) override { return go(std::move(b)); }
  Blks receiverExtendRcot(Blks&& b) override { return go(std::move(b)); }
  std::pair<uint64_t, uint64_t> getTrafficStatistics() const override { return {0, 0}; }
};
struct LabelExtenderFactory final : ot::ferret::IRcotExtenderFactory {
  std::function<std::unique_ptr<LabelExtender>()> make;
  std::unique_ptr<ot::ferret::IRcotExtender> create() override { return make(); }
};
struct LabelBoot final : ot::IFlexibleRandomCorrelatedObliviousTransfer {
  int* next = nullptr;
  std::function<void(const Blks&)> seen;
  std::unique_ptr<cm::IPartyCommunicationAgent> agent;
  Blks rcot(int64_t n) override {
    auto r = fresh(*next, n);
    seen(r);
    return r;
  }
  std::unique_ptr<cm::IPartyCommunicationAgent> extractCommunicationAgent() override { return std::move(agent); }
  std::pair<uint64_t, uint64_t> getTrafficStatistics() const override { return {0, 0}; }
};
struct LabelBootFactory final : ot::IFlexibleRandomCorrelatedObliviousTransferFactory {
  int* next = nullptr;
  std::function<void(const Blks&)> seen;
  std::unique_ptr<ot::IFlexibleRandomCorrelatedObliviousTransfer> make(std::unique_ptr<cm::IPartyCommunicationAgent> a) {
    auto b = std::make_unique<LabelBoot>();
    b->next = next;
    b->seen = seen;
    b->agent = std::move(a);
    return b;
  }
  std::unique_ptr<ot::IFlexibleRandomCorrelatedObliviousTransfer> createFlexible(__m128i, std::unique_ptr<cm::IPartyCommunicationAgent> a) override {
    return make(std::move(a));
  }
  std::unique_ptr<ot::IFlexibleRandomCorrelatedObliviousTransfer> createFlexible(std::unique_ptr<cm::IPartyCommunicationAgent> a) override {
    return make(std::move(a));
  }
};

static void session(Trace& T, Rng& r) {
  int base = r.chance(20) ? 1 : r.range(1, 12);
  int64_t ext = base + (r.chance(25) ? 1 : r.range(1, 30));
  bool viaFactory = r.coin();
  std::vector<int> sz;
  for (int i = r.range(2, 9); i > 0; i--)
    sz.push_back(r.chance(10) ? 0 : r.chance(30) ? (int)(ext - base) : r.chance(20) ? (int)(ext - base) * r.range(2, 4) + r.range(-1, 1) : r.range(1, 2 * ext));
  std::vector<std::vector<int>> got[2];
  for (int side = 0; side < 2; side++) {
    T(Ev("begin").f("kind", "session").f("base", base).f("ext", (int)ext).f("side", side));
    int next = 1;
    bool boot = false;
    auto make = [&] {
      auto x = std::make_unique<LabelExtender>();
      x->base = base;
      x->ext = ext;
      x->next = &next;
      x->seen = [&](const Blks& in, const Blks& out) { T(Ev("extend").raw("in", ids(in)).raw("out", ids(out))); };
      return x;
    };
    std::unique_ptr<ot::IRandomCorrelatedObliviousTransfer> o;
    if (viaFactory) {
      auto bf = std::make_unique<LabelBootFactory>();
      bf->next = &next;
      bf->seen = [&](const Blks& b) { T(Ev("boot").raw("ids", ids(b))); };
      auto xf = std::make_unique<LabelExtenderFactory>();
      xf->make = make;
      ot::ExtenderBasedRandomCorrelatedObliviousTransferFactory f(std::move(bf), std::move(xf), ext, base, 1);
      auto net = std::make_shared<Net>();
      AgentFactory af(net, side);
      o = side == 0 ? f.create(key(1), af.create(1, "")) : f.create(af.create(0, ""));
    } else {
      auto e = std::make_unique<ot::ExtenderBasedRandomCorrelatedObliviousTransfer>(side == 0 ? eu::Role::sender : eu::Role::receiver, make());
      if (e->getNumberOfBaseRcotResultsNeeded() != base) T(Ev("failed").f("what", "wrong number of base keys asked for"));
      auto b = fresh(next, base);
      T(Ev("boot").raw("ids", ids(b)));
      e->setBaseRcotResults(std::move(b));
      o = std::move(e);
    }
    for (size_t i = 0; i < sz.size(); i++) {
      auto k = idv(o->rcot(sz[i]));
      got[side].push_back(k);
      T(Ev("take").f("n", sz[i]).f("ids", k));
    }
  }
  T(Ev("agree").f("a", got[0]).f("b", got[1]));
}

// ---- one extension: the base keys are divided -----------------------------------------------------
struct Parts { std::vector<Blks> m[2], p[2], in, out[2]; std::vector<Blk> seeds[2]; };
struct LabelMatrix final : ot::ferret::IMatrixMultiplier {
  Parts* parts; int me;
  Blks multiplyWithRandomMatrix(__m128i seed, int64_t n, const Blks& src) const override {
    parts->seeds[me].push_back(seed);
    parts->m[me].push_back(src);
    Blks r;
    for (int64_t i = 0; i < n; i++) r.push_back(key(1000 + i));
    return r;
  }
};
struct LabelMp final : ot::ferret::IMultiPointCot {
  Parts* parts; int me, need; int64_t len = 0;
  void senderInit(__m128i, int64_t l, int64_t) override { len = l; }
  void receiverInit(int64_t l, int64_t) override { len = l; }
  int getBaseCotNeeds() const override { return need; }
  Blks go(Blks&& b) {
    parts->p[me].push_back(std::move(b));
    Blks r;
    for (int64_t i = 0; i < len; i++) r.push_back(key(5 + i * 7));
    return r;
  }
  Blks senderExtend(Blks&& b) override { return go(std::move(b)); }
  Blks receiverExtend(Blks&& b) override { return go(std::move(b)); }
  std::pair<uint64_t, uint64_t> getTrafficStatistics() const override { return {0, 0}; }
};
struct LabelMpFactory final : ot::ferret::IMultiPointCotFactory {
  Parts* parts; int me, need;
  std::unique_ptr<ot::ferret::IMultiPointCot> create(std::unique_ptr<cm::IPartyCommunicationAgent>&) override {
    auto m = std::make_unique<LabelMp>();
    m->parts = parts; m->me = me; m->need = need;
    return m;
  }
};
static void extension(Trace& T, Rng& r) {
  int base = r.range(1, 12), need = r.range(0, 12), times = r.range(2, 4);
  int64_t ext = base + need + r.range(1, 20);
  T(Ev("begin").f("kind", "extension").f("base", base).f("ext", (int)ext).f("side", 0));
  Parts parts;
  int next = 1;
  for (int i = 0; i < times; i++) parts.in.push_back(fresh(next, base + need));
  int asked[2] = {0, 0};
  auto net = std::make_shared<Net>();
  auto err = runParties(2, net, [&](int me) {
    LabelMpFactory mf;
    mf.parts = &parts; mf.me = me; mf.need = need;
    auto mm = std::make_unique<LabelMatrix>();
    mm->parts = &parts; mm->me = me;
    ot::ferret::RcotExtender x(std::move(mm), mf);
    asked[me] = me == 0 ? x.senderInit(key(1), ext, base, 1) : x.receiverInit(ext, base, 1);
    if (x.getBaseCotSize() != asked[me]) asked[me] = -1;
    AgentFactory f(net, me);
    x.setCommunicationAgent(f.create(1 - me, ""));
    for (int i = 0; i < times; i++)
      parts.out[me].push_back(me == 0 ? x.senderExtendRcot(Blks(parts.in[i])) : x.receiverExtendRcot(Blks(parts.in[i])));
  });
  if (failed(T, err, "extension")) return;
  auto one = [](std::vector<Blks>& v, int i) { return (size_t)i < v.size() ? ids(v[i]) : std::string("[]"); };
  for (int i = 0; i < times; i++)
    T(Ev("divide").raw("asked", js(std::vector<int>{asked[0], asked[1]})).f("need", need).raw("in", ids(parts.in[i]))
          .raw("m", both([&](int p) { return one(parts.m[p], i); })).raw("p", both([&](int p) { return one(parts.p[p], i); }))
          .raw("calls", js(std::vector<int>{(int)parts.m[0].size(), (int)parts.m[1].size(), (int)parts.p[0].size(), (int)parts.p[1].size()})).f("times", times)
          .raw("seed", both([&](int p) { return (size_t)i < parts.seeds[p].size() ? jm(parts.seeds[p][i]) : std::string("[]"); }))
          .raw("out", both([&](int p) { return one(parts.out[p], i); })));
}

// ---- the multi-point transfer: every single-point transfer has keys of its own ---------------------
struct LabelSp final : ot::ferret::ISinglePointCot {
  std::vector<Blks>* pieces; int out = 1;
  std::vector<int>* outs;
  void senderInit(__m128i) override {}
  void receiverInit() override {}
  Blks go(Blks&& b) {
    pieces->push_back(std::move(b));
    Blks r;
    for (size_t i = 0; i < (1u << pieces->back().size()); i++) r.push_back(key(out)), outs->push_back(out++);
    return r;
  }
  Blks senderExtend(Blks&& b) override { return go(std::move(b)); }
  Blks receiverExtend(Blks&& b) override { return go(std::move(b)); }
  std::pair<uint64_t, uint64_t> getTrafficStatistics() const override { return {0, 0}; }
};
static void multipoint(Trace& T, Rng& r) {
  int depth = r.range(1, 6), w = r.range(1, 9), times = r.range(1, 3);
  for (int side = 0; side < 2; side++) {
    T(Ev("begin").f("kind", "multipoint").f("base", depth).f("ext", w).f("side", side));
    int next = 1;
    std::vector<Blks> pieces;
    std::vector<int> outs;
    auto sp = std::make_unique<LabelSp>();
    sp->pieces = &pieces;
    sp->outs = &outs;
    ot::ferret::RegularErrorMultiPointCot m(std::move(sp));
    if (side == 0) m.senderInit(key(1), (int64_t)w << depth, w);
    else m.receiverInit((int64_t)w << depth, w);
    for (int i = 0; i < times; i++) {
      auto in = fresh(next, m.getBaseCotNeeds());
      pieces.clear();
      outs.clear();
      auto o = side == 0 ? m.senderExtend(Blks(in)) : m.receiverExtend(Blks(in));
      std::string p = jmap(pieces, [](const Blks& b) { return ids(b); });
      T(Ev("pieces").f("need", m.getBaseCotNeeds()).raw("in", ids(in)).raw("p", p).f("made", outs).raw("out", ids(o)));
    }
  }
}

// ---- dealer of correlated keys for the consumers -------------------------------------------------------
struct Dealer {  // one direction: sender has k, receiver k or k ^ delta
  std::mutex m;
  Rng r{1};
  Blk delta;
  Blks k;
  std::vector<bool> c;
  void need(size_t n) {
    while (k.size() < n) {
      Blk a = _mm_set_epi64x(r.next(), r.next());
      eu::setLsbTo0(a);
      k.push_back(a);
      c.push_back(r.coin());
    }
  }
};
struct DealtRcot final : ot::IRandomCorrelatedObliviousTransfer {
  Dealer* d;
  bool sender;
  size_t pos = 0;
  std::function<void(int64_t)> asked;
  Blks rcot(int64_t n) override {
    asked(n);
    std::lock_guard<std::mutex> g(d->m);
    d->need(pos + n);
    Blks out;
    for (int64_t i = 0; i < n; i++, pos++) out.push_back(sender || !d->c[pos] ? d->k[pos] : _mm_xor_si128(d->k[pos], d->delta));
    return out;
  }
  std::pair<uint64_t, uint64_t> getTrafficStatistics() const override { return {0, 0}; }
};
struct Dealt {  // both directions and what each party has asked for
  Dealer d[2];  // d[p]: party p sends
  std::mutex m;
  std::vector<int> asked[2][2];  // [party][0 sender, 1 receiver]
  explicit Dealt(Rng& r) {
    for (auto& x : d) {
      x.r = Rng(r.next());
      x.delta = _mm_set_epi64x(r.next(), r.next());
      eu::setLsbTo1(x.delta);
    }
  }
  std::unique_ptr<ot::IRandomCorrelatedObliviousTransfer> make(int me, bool sender) {
    auto x = std::make_unique<DealtRcot>();
    x->d = &d[sender ? me : 1 - me];
    x->sender = sender;
    x->asked = [this, me, sender](int64_t n) {
      std::lock_guard<std::mutex> g(m);
      asked[me][sender ? 0 : 1].push_back((int)n);
    };
    return x;
  }
};
static int total(const std::vector<int>& v) {
  int s = 0;
  for (int x : v) s += x;
  return s;
}

static void transfers(Trace& T, Rng& r) {
  T(Ev("begin").f("kind", "transfers").f("base", 0).f("ext", 0).f("side", 0));
  struct Call { bool integer; int n; };
  std::vector<Call> calls(r.range(2, 5));
  for (auto& c : calls) c = {r.chance(70), r.chance(20) ? 130 : r.chance(30) ? 64 : (int)r.range(1, 40)};
  bool one = r.coin();  // all the messages equal: then equal cipher texts show equal keys
  uint64_t msg = r.word();
  Dealt dl(r);
  std::vector<std::vector<unsigned char>> wire[2];
  std::vector<std::array<int, 2>> asked[2];
  for (int p = 0; p < 2; p++) wire[p].resize(calls.size()), asked[p].resize(calls.size());
  std::atomic<int> now[2] = {0, 0};
  auto net = std::make_shared<Net>();
  net->onData = [&](int me, int, bool sent, const unsigned char* b, size_t n) {
    if (sent) wire[me][now[me]].insert(wire[me][now[me]].end(), b, b + n);
  };
  auto seeds = r.next();
  auto err = runParties(2, net, [&](int me) {
    AgentFactory f(net, me);
    Rng mine(seeds + me);
    ot::RcotBasedBidirectionObliviousTransfer o(f.create(1 - me, ""), dl.d[me].delta, dl.make(me, true), dl.make(me, false));
    for (size_t i = 0; i < calls.size(); i++) {
      now[me] = i;
      int n = calls[i].n;
      if (calls[i].integer) {
        std::vector<uint64_t> a(n, msg), b(n, msg);
        if (!one) for (auto& x : a) x = mine.word();
        o.biDirectionOT(a, b, mine.bits(n));
      } else {
        std::vector<bool> a(n, msg & 1), b(n, msg & 1);
        if (!one) a = mine.bits(n);
        o.biDirectionOT(a, b, mine.bits(n));
      }
      asked[me][i] = {total(dl.asked[me][0]), total(dl.asked[me][1])};
    }
  });
  if (failed(T, err, "transfers")) return;
  int sum = 0;
  for (size_t i = 0; i < calls.size(); i++) {
    sum += calls[i].n;
    Ev e("transfer");
    e.f("sum", sum).f("n", calls[i].n).f("same", one).f("int", calls[i].integer);
    e.raw("asked", both([&](int p) { return js(std::vector<int>{asked[p][i][0], asked[p][i][1]}); }));
    // after the choices come the cipher texts
    e.raw("wire", both([&](int p) {
      auto& w = wire[p][i];
      size_t skip = (calls[i].n + 7) / 8;
      std::string s = "[";
      if (calls[i].integer)
        for (size_t j = skip; j + 8 <= w.size(); j += 8) {
          uint64_t x;
          memcpy(&x, &w[j], 8);
          s += (s.size() > 1 ? "," : "") + jw(x);
        }
      else
        for (size_t j = skip; j < w.size(); j++)
          for (int b = 0; b < 8; b++)
            if ((int)((j - skip) % skip * 8) + b < calls[i].n) s += (s.size() > 1 ? "," : "") + std::to_string(w[j] >> (7 - b) & 1);
      return s + "]";
    }));
    T(e);
  }
}

static void tupleFlow(Trace& T, Rng& r, int turn) {
  int buf = r.range(3, 40), steps = r.range(2, 10);
  T(Ev("begin").f("kind", "tuples").f("base", buf).f("ext", 0).f("side", 0));
  struct Req { int op; uint32_t n; std::map<size_t, uint32_t> comp; };
  std::vector<Req> reqs(steps);
  static const int cs[] = {1, 2, 63, 64, 65, 127, 128, 129, 200, 256};
  for (auto& q : reqs) {
    q.op = r.below(3);
    q.n = r.chance(20) ? 2 * buf + 1 : r.chance(20) ? buf : r.range(0, 30);
    if (q.op == 0) continue;
    for (int j = r.range(1, 2); j > 0; j--) q.comp[r.coin() ? cs[r.below(10)] : r.range(1, 70)] = r.chance(25) ? 66 : r.range(1, 9);
  }
  // every size in turn gets enough tuples to judge its places
  reqs.back().op = 1;
  reqs.back().comp[cs[turn % 10]] = 66;
  Dealt dl(r);
  // bits of the tuples in the order of delivery, per party; composite vectors by size
  struct Got { std::vector<bool> b, c; std::map<size_t, std::vector<std::pair<std::vector<bool>, std::vector<bool>>>> v; };
  Got got[2];
  auto net = std::make_shared<Net>();
  auto seeds = r.next();
  auto err = runParties(2, net, [&](int me) {
    Rng mine(seeds + me);
    auto mc = std::make_shared<fbpcf::util::MetricCollector>("mc");
    auto rec = std::make_shared<tg::TuplesMetricRecorder>();
    tg::TwoPartyTupleGenerator g(dl.make(me, true), dl.make(me, false), dl.d[me].delta, rec, buf);
    auto takeB = [&](const std::vector<tg::ITupleGenerator::BooleanTuple>& v) { for (auto& t : v) got[me].b.push_back(t.getB()); };
    auto takeC = [&](std::map<size_t, std::vector<tg::ITupleGenerator::CompositeBooleanTuple>> m) {
      for (auto& [k, v] : m)
        for (auto& t : v) {
          got[me].c.push_back(t.getA());
          got[me].v[k].push_back({t.getB(), t.getC()});
        }
    };
    for (auto& q : reqs) {
      if (q.op == 0) takeB(g.getBooleanTuple(q.n));
      else if (q.op == 1) takeC(g.getCompositeTuple(q.comp));
      else {
        auto [b, c] = g.getNormalAndCompositeBooleanTuples(q.n, q.comp);
        takeB(b);
        takeC(c);
      }
      if (mine.chance(30)) std::this_thread::sleep_for(std::chrono::microseconds(mine.below(500)));
    }
  });
  if (failed(T, err, "tuples")) return;
  for (int me = 0; me < 2; me++) {
    // the choices of the keys, cut as the generator asked for them
    std::vector<std::vector<bool>> chunks;
    size_t at = 0;
    auto& d = dl.d[1 - me];
    for (int n : dl.asked[me][1]) {
      d.need(at + n);
      chunks.push_back(std::vector<bool>(d.c.begin() + at, d.c.begin() + at + n));
      at += n;
    }
    Ev e("flow");
    e.f("asked0", dl.asked[me][0]).f("asked1", dl.asked[me][1]).raw("chunks", jmap(chunks, [](const std::vector<bool>& v) { return js(v); }))
        .f("b", got[me].b).f("c", got[me].c);
    T(e);
    for (auto& [k, v] : got[me].v)
      if (v.size() >= 60)
        T(Ev("spread").f("size", (int)k).raw("b", jmap(v, [](const std::pair<std::vector<bool>, std::vector<bool>>& x) { return js(x.first); }))
              .raw("c", jmap(v, [](const std::pair<std::vector<bool>, std::vector<bool>>& x) { return js(x.second); })));
  }
}

int main(int c, char** v) {
  Args ar(c, v);
  Trace T(ar.out);
  Watchdog wd(T, 40);
  int eps = ar.thorough ? 500 : 60;
  for (int e = 0; e < eps; e++) {
    Rng r(ar.seed * 1000003 + ar.shard * 7919 + e);
    wd.tick();
    switch (e % 6) {
      case 0: case 1: session(T, r); break;
      case 2: extension(T, r); break;
      case 3: multipoint(T, r); break;
      case 4: transfers(T, r); break;
      default: tupleFlow(T, r, e / 6 + ar.shard); break;
    }
  }
  T.flush();
  return 0;
}
