// Records oblivious transfers (mode ot) and multiplication tuples (mode tup) of real protocol runs.
#include "common.h"
#include "fbpcf/engine/tuple_generator/ArithmeticTupleGeneratorFactory.h"
#include "fbpcf/engine/tuple_generator/DummyArithmeticTupleGeneratorFactory.h"
#include "fbpcf/engine/tuple_generator/DummyProductShareGeneratorFactory.h"
#include "fbpcf/engine/tuple_generator/DummyTupleGeneratorFactory.h"
#include "fbpcf/engine/tuple_generator/ProductShareGeneratorFactory.h"
#include "fbpcf/engine/tuple_generator/TupleGeneratorFactory.h"
#include "fbpcf/engine/tuple_generator/TwoPartyTupleGeneratorFactory.h"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/DummyBaseObliviousTransferFactory.h"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/DummyBidirectionObliviousTransferFactory.h"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/NpBaseObliviousTransferFactory.h"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/RcotBasedBidirectionObliviousTransferFactory.h"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/RcotHelper.h"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/ferret/RegularErrorMultiPointCot.h"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/ferret/SinglePointCot.h"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/ferret/TenLocalLinearMatrixMultiplier.h"
#include "fbpcf/engine/util/AesPrgFactory.h"
#include "fbpcf/util/MetricCollector.h"

using namespace vh;
namespace eu = fbpcf::engine::util;
namespace tg = fbpcf::engine::tuple_generator;
namespace ot = tg::oblivious_transfer;
using Blk = __m128i;
using Blks = std::vector<__m128i>;

static std::string jm(const Blk& v) {
  unsigned char b[16];
  memcpy(b, &v, 16);
  std::string r = "[";
  for (int i = 0; i < 16; i++) r += (i ? "," : "") + std::to_string((int)b[i]);
  return r + "]";
}
static std::string jms(const Blks& v) { return jmap(v, jm); }
static Blk rnd(Rng& r) { return _mm_set_epi64x(r.next(), r.next()); }
static std::vector<bool> choices(Rng& r, size_t n) {
  int k = r.below(6);
  auto c = r.bits(n);
  if (k < 2)
    for (size_t i = 0; i < n; i++) c[i] = k;
  return c;
}
static bool failed(Trace& T, const std::vector<std::string>& err, const char* what) {
  for (auto& e : err)
    if (!e.empty()) {
      T(Ev("failed").f("what", what).f("err", err));
      return true;
    }
  return false;
}
using Stats = std::pair<uint64_t, uint64_t>;
static std::string jst(const Stats& s) { return "[" + std::to_string(s.first) + "," + std::to_string(s.second) + "]"; }

// party 0 sends, party 1 receives
static void baseOt(Trace& T, Rng& r) {
  bool np = r.chance(70);
  T(Ev("begin").f("kind", np ? "np" : "dummybase"));
  struct Call { int n; std::vector<bool> c; Blks m0, m1, m; };
  std::vector<Call> calls(r.range(1, 3));
  bool swap = r.coin();  // the roles may change between the calls of a session
  std::vector<int> sender;
  for (auto& x : calls) {
    x.n = r.chance(10) ? 0 : r.chance(25) ? (int)r.range(120, 140) : (int)r.range(1, 20);
    x.c = choices(r, x.n);
    sender.push_back(swap ? r.below(2) : 0);
  }
  Stats st[2];
  auto net = std::make_shared<Net>();
  auto err = runParties(2, net, [&](int me) {
    AgentFactory f(net, me);
    std::unique_ptr<ot::IBaseObliviousTransfer> o;
    if (np) o = ot::NpBaseObliviousTransferFactory().create(f.create(1 - me, ""));
    else o = ot::insecure::DummyBaseObliviousTransferFactory().create(f.create(1 - me, ""));
    for (size_t i = 0; i < calls.size(); i++) {
      auto& x = calls[i];
      if (me == sender[i]) std::tie(x.m0, x.m1) = o->send(x.n);
      else x.m = o->receive(x.c);
    }
    st[me] = o->getTrafficStatistics();
    if (me == 0) {
      // the channel is still in order for whoever takes it over
      auto a = o->extractCommunicationAgent();
      a->sendSingleT<uint64_t>(77);
    } else if (o->extractCommunicationAgent()->receiveSingleT<uint64_t>() != 77)
      throw std::runtime_error("channel out of step");
  });
  if (failed(T, err, "base")) return;
  for (auto& x : calls)
    T(Ev("base").f("n", x.n).f("choice", x.c).raw("m0", jms(x.m0)).raw("m1", jms(x.m1)).raw("m", jms(x.m)).f("fresh", np));
  T(Ev("traffic").raw("a", jst(st[0])).raw("b", jst(st[1])));
}

static void rcot(Trace& T, Rng& r, bool thorough) {
  int kind = r.below(3);  // iknp over np, iknp over dummy, ferret
  T(Ev("begin").f("kind", kind == 2 ? "ferret" : "iknp"));
  Blk delta = rnd(r);
  eu::setLsbTo1(delta);
  int64_t weight = 1 << r.range(2, 4), ext = weight << r.range(5, 6), base = r.range(60, 200);
  base = std::min<int64_t>(base, ext - weight * 6 - 8);  // an extension must yield more than it uses up
  std::vector<int> sz;
  int tot = kind == 2 ? r.range(ext / 2, 3 * ext) : r.range(1, 700);
  while (tot > 0) {
    int n = r.chance(10) ? 0 : r.chance(30) ? (int)r.range(127, 129) : r.chance(30) ? (int)r.range(200, 600) : (int)r.range(1, 60);
    n = std::min(n, tot);
    sz.push_back(n);
    tot -= std::max(n, 1);
  }
  std::vector<Blks> k[2];
  Stats st[2];
  auto net = std::make_shared<Net>();
  auto err = runParties(2, net, [&](int me) {
    AgentFactory f(net, me);
    std::shared_ptr<ot::IRandomCorrelatedObliviousTransferFactory> fac;
    if (kind == 0) fac = ot::createClassicRcotFactory();
    else if (kind == 1)
      fac = std::make_shared<ot::IknpShRandomCorrelatedObliviousTransferFactory>(
          std::make_unique<ot::insecure::DummyBaseObliviousTransferFactory>());
    else fac = ot::createFerretRcotFactory(ext, base, weight);
    auto o = me == 0 ? fac->create(delta, f.create(1, "")) : fac->create(f.create(0, ""));
    for (int n : sz) k[me].push_back(o->rcot(n));
    st[me] = o->getTrafficStatistics();
  });
  if (failed(T, err, "rcot")) return;
  for (size_t i = 0; i < sz.size(); i++)
    T(Ev("rcot").f("n", sz[i]).raw("delta", jm(delta)).raw("k0", jms(k[0][i])).raw("k1", jms(k[1][i])));
  T(Ev("traffic").raw("a", jst(st[0])).raw("b", jst(st[1])));
  // a delta without the choice bit is refused
  eu::setLsbTo0(delta);
  bool ok = true;
  try {
    auto n2 = std::make_shared<Net>();
    AgentFactory f(n2, 0);
    n2->closeAll();
    if (kind == 2) {
      ot::ferret::RcotExtenderFactory xf(
          std::make_unique<ot::ferret::TenLocalLinearMatrixMultiplierFactory>(),
          std::make_unique<ot::ferret::RegularErrorMultiPointCotFactory>(std::make_unique<ot::ferret::SinglePointCotFactory>()));
      xf.create()->senderInit(delta, ext, base, weight);
    } else {
      eu::AesPrgFactory pf;
      ot::IknpShRandomCorrelatedObliviousTransfer o(delta, ot::insecure::DummyBaseObliviousTransferFactory().create(f.create(1, "")),
                                                    std::make_unique<eu::AesPrgFactory>());
    }
  } catch (const std::exception&) { ok = false; }
  T(Ev("baddelta").f("ok", ok));
}

// so many that counts of sixteen bits do not hold them; some of them are written down
static void manyRcot(Trace& T, Rng& r, int kind) {
  T(Ev("begin").f("kind", kind == 2 ? "ferret" : "iknp"));
  Blk delta = rnd(r);
  eu::setLsbTo1(delta);
  int64_t weight = r.range(33, 40), ext = weight << 12, base = 66000;
  std::vector<int> sz;
  if (kind == 2) sz = {(int)r.range(1, 300), 65536, (int)r.range(2000, 40000)};
  else sz = {(int)r.range(66000, 70000), (int)r.range(1, 300), (int)r.range(32768, 34000)};
  if (r.coin()) std::swap(sz[0], sz[1]);
  std::vector<Blks> k[2];
  auto net = std::make_shared<Net>();
  auto err = runParties(2, net, [&](int me) {
    AgentFactory f(net, me);
    std::shared_ptr<ot::IRandomCorrelatedObliviousTransferFactory> fac;
    if (kind == 2) fac = ot::createFerretRcotFactory(ext, base, weight);
    else fac = ot::createClassicRcotFactory();
    auto o = me == 0 ? fac->create(delta, f.create(1, "")) : fac->create(f.create(0, ""));
    for (int n : sz) k[me].push_back(o->rcot(n));
  });
  if (failed(T, err, "rcot")) return;
  for (size_t i = 0; i < sz.size(); i++) {
    // whatever is repeated after a power of two shows next to its first use
    Blks s[2];
    size_t lens[2] = {k[0][i].size(), k[1][i].size()};
    std::set<size_t> at;
    for (int j = 0; j < 60; j++) {
      size_t x = j < 20 ? j : r.below(sz[i]);
      for (size_t y : {x, x + 128, x + 256, x + 4096, x + 32768, x + 65536})
        if (y < lens[0] && y < lens[1]) at.insert(y);
    }
    for (size_t y : at) s[0].push_back(k[0][i][y]), s[1].push_back(k[1][i][y]);
    T(Ev("size").f("n", sz[i]).f("k0", (int)lens[0]).f("k1", (int)lens[1]));
    T(Ev("rcot").f("n", (int)at.size()).raw("delta", jm(delta)).raw("k0", jms(s[0])).raw("k1", jms(s[1])));
  }
}

// correlated base keys as a dealer would give them
static void deal(Rng& r, Blk delta, size_t n, Blks& k0, Blks& k1) {
  for (size_t i = 0; i < n; i++) {
    Blk a = rnd(r);
    eu::setLsbTo0(a);
    k0.push_back(a);
    k1.push_back(r.coin() ? _mm_xor_si128(a, delta) : a);
  }
}
static void points(Trace& T, Rng& r) {
  bool multi = r.coin();
  T(Ev("begin").f("kind", multi ? "mpcot" : "spcot"));
  Blk delta = rnd(r);
  eu::setLsbTo1(delta);
  int depth = r.range(multi ? 1 : 0, 6), w = multi ? r.range(1, 5) : 1, calls = r.range(1, 3);
  if (r.chance(10)) depth = r.range(8, 9);
  else if (multi && r.chance(15)) w = r.range(100, 140), depth = r.range(2, 3);
  std::vector<Blks> b0(calls), b1(calls), o[2];
  for (int i = 0; i < calls; i++) deal(r, delta, depth * w, b0[i], b1[i]);
  int need[2] = {depth * w, depth * w};
  bool refused[2] = {true, true};
  auto net = std::make_shared<Net>();
  std::vector<std::vector<unsigned char>> wire(calls);  // what the sender says in a call
  std::atomic<int> now = 0;
  net->onData = [&](int me, int, bool sent, const unsigned char* b, size_t n) {
    if (sent && me == 0) wire[now].insert(wire[now].end(), b, b + n);
  };
  auto err = runParties(2, net, [&](int me) {
    AgentFactory f(net, me);
    auto agent = f.create(1 - me, "");
    auto sp = std::make_unique<ot::ferret::SinglePointCot>(agent);
    if (multi) {
      ot::ferret::RegularErrorMultiPointCot m(std::move(sp));
      int64_t len = (int64_t)w << depth;
      if (me == 0) m.senderInit(delta, len, w);
      else m.receiverInit(len, w);
      need[me] = m.getBaseCotNeeds();
      for (int i = 0; i < calls; i++)
        o[me].push_back(me == 0 ? m.senderExtend(Blks(b0[i])) : m.receiverExtend(Blks(b1[i])));
      try {
        Blks bad(depth * w + 1, delta);
        me == 0 ? m.senderExtend(std::move(bad)) : m.receiverExtend(std::move(bad));
        refused[me] = false;
      } catch (const std::invalid_argument&) {}
    } else {
      if (me == 0) sp->senderInit(delta);
      else sp->receiverInit();
      for (int i = 0; i < calls; i++) {
        if (me == 0) now = i;
        o[me].push_back(me == 0 ? sp->senderExtend(Blks(b0[i])) : sp->receiverExtend(Blks(b1[i])));
      }
    }
  });
  if (failed(T, err, "points")) return;
  for (int i = 0; i < calls && !multi && depth > 0; i++) {
    Blks w;
    for (size_t j = 0; j + 16 <= wire[i].size(); j += 16) {
      Blk b;
      memcpy(&b, &wire[i][j], 16);
      w.push_back(b);
    }
    T(Ev("hidden").f("depth", depth).raw("delta", jm(delta)).raw("base", jms(b0[i])).raw("s", jms(o[0][i])).raw("wire", jms(w)));
  }
  for (int i = 0; i < calls; i++)
    T(Ev("points").f("depth", depth).f("w", w).raw("delta", jm(delta)).raw("need", js(std::vector<int>{need[0], need[1]}))
          .raw("base", jmap(b1[i], [](const Blk& b) { return js(eu::getLsb(b)); }))
          .raw("s", jms(o[0][i])).raw("r", jms(o[1][i])).f("refused", refused[0] && refused[1]));
}
static void matrix(Trace& T, Rng& r) {
  T(Ev("begin").f("kind", "matrix"));
  ot::ferret::TenLocalLinearMatrixMultiplier m;
  int n = r.range(1, 128), k = r.range(0, 40);
  Blk seed = rnd(r), seed2 = rnd(r);
  Blks x, y, z, unit;
  for (int i = 0; i < n; i++) {
    x.push_back(rnd(r));
    y.push_back(rnd(r));
    z.push_back(_mm_xor_si128(x[i], y[i]));
    Blk u = _mm_set_epi64x(0, 1);
    eu::lShiftByBitsInPlace(u, i);
    unit.push_back(u);
  }
  T(Ev("matrix").f("n", n).f("k", k).raw("x", jms(x)).raw("rows", jms(m.multiplyWithRandomMatrix(seed, k, unit)))
        .raw("mx", jms(m.multiplyWithRandomMatrix(seed, k, x))).raw("my", jms(m.multiplyWithRandomMatrix(seed, k, y)))
        .raw("mz", jms(m.multiplyWithRandomMatrix(seed, k, z))).raw("rows2", jms(m.multiplyWithRandomMatrix(seed2, k, unit))));
}
// the matrix seen as a whole: how its places are spread, and which bits of the seed count
static void spreadMatrix(Trace& T, Rng& r) {
  T(Ev("begin").f("kind", "wide"));
  ot::ferret::TenLocalLinearMatrixMultiplier m;
  int n = r.coin() ? 128 : (int)r.range(65, 128), k = 300;
  Blks unit;
  for (int i = 0; i < n; i++) {
    Blk u = _mm_set_epi64x(0, 1);
    eu::lShiftByBitsInPlace(u, i);
    unit.push_back(u);
  }
  Blk seed = rnd(r);
  std::vector<Blks> first;
  for (int i = 0; i <= 128; i++) {
    Blk u = _mm_setzero_si128();
    if (i < 128) {
      u = _mm_set_epi64x(0, 1);
      eu::lShiftByBitsInPlace(u, i);
    }
    first.push_back(m.multiplyWithRandomMatrix(_mm_xor_si128(seed, u), 8, unit));
  }
  T(Ev("wide").f("n", n).f("k", k).raw("rows", jms(m.multiplyWithRandomMatrix(seed, k, unit)))
        .raw("first", jmap(first, [](const Blks& b) { return jms(b); })));
}
static void bidi(Trace& T, Rng& r, bool many = false) {
  int kind = r.below(3);  // iknp, ferret, dummy
  T(Ev("begin").f("kind", "bidi"));
  struct Call { bool integer; int n; std::vector<bool> c[2], b0[2], b1[2], ob[2]; std::vector<uint64_t> w0[2], w1[2], ow[2]; };
  std::vector<Call> calls(r.range(1, 5));
  for (auto& x : calls) {
    x.integer = r.coin();
    x.n = r.chance(20) ? (int)r.range(120, 260) : r.chance(7) ? (int)r.range(500, 1100) : (int)r.range(1, 30);
    if (many && &x == &calls[0]) x.integer = false, x.n = r.range(65537, 70000);
    for (int p = 0; p < 2; p++) {
      x.c[p] = choices(r, x.n);
      x.b0[p] = choices(r, x.n);
      x.b1[p] = choices(r, x.n);
      for (int i = 0; i < x.n; i++) x.w0[p].push_back(r.word()), x.w1[p].push_back(r.word());
    }
  }
  Stats st[2];
  int ids[2] = {(int)r.below(3), 0};
  ids[1] = ids[0] + 1 + r.below(2);  // party numbers of the two
  auto net = std::make_shared<Net>();
  auto err = runParties(2, net, [&](int me) {
    AgentFactory f(net, ids[me]);
    std::unique_ptr<ot::IBidirectionObliviousTransfer> o;
    if (kind == 2) o = ot::insecure::DummyBidirectionObliviousTransferFactory(f).create(ids[1 - me]);
    else {
      std::shared_ptr<ot::IRandomCorrelatedObliviousTransferFactory> rf;
      if (kind == 0) rf = ot::createClassicRcotFactory();
      else rf = ot::createFerretRcotFactory(512, 100, 8);
      o = ot::RcotBasedBidirectionObliviousTransferFactory(ids[me], f, rf).create(ids[1 - me]);
    }
    for (auto& x : calls)
      if (x.integer) x.ow[me] = o->biDirectionOT(x.w0[me], x.w1[me], x.c[me]);
      else x.ob[me] = o->biDirectionOT(x.b0[me], x.b1[me], x.c[me]);
    st[me] = o->getTrafficStatistics();
  });
  if (failed(T, err, "bidi")) return;
  for (auto& x : calls)
    for (int p = 0; p < 2; p++) {
      Ev e("bidi");
      e.f("n", x.n).f("choice", x.c[p]);
      if (x.integer) e.raw("in0", jws(x.w0[1 - p])).raw("in1", jws(x.w1[1 - p])).raw("out", jws(x.ow[p]));
      else e.f("in0", x.b0[1 - p]).f("in1", x.b1[1 - p]).f("out", x.ob[p]);
      T(e);
    }
  T(Ev("traffic").raw("a", jst(st[0])).raw("b", jst(st[1])));
}

// ---- tuples --------------------------------------------------------------------------------
using BT = tg::ITupleGenerator::BooleanTuple;
using CT = tg::ITupleGenerator::CompositeBooleanTuple;
using IT = tg::IArithmeticTupleGenerator::IntegerTuple;
static std::string jbt(const std::vector<BT>& v) {
  return jmap(v, [](const BT& t) { return js((int)(t.getA() * 4 + t.getB() * 2 + t.getC())); });
}
static std::string jct(std::map<size_t, std::vector<CT>>& m) {
  std::string s = "[";
  for (auto& [k, v] : m) {
    if (s.size() > 1) s += ",";
    s += "{\"size\":" + std::to_string(k) + ",\"t\":" +
        jmap(v, [](const CT& t0) { CT t = t0; return "[" + std::string(t.getA() ? "[1]," : "[0],") + js(t.getB()) + "," + js(t.getC()) + "]"; }) + "}";
  }
  return s + "]";
}
static std::string jit(const std::vector<IT>& v) {
  return jmap(v, [](const IT& t) { return "[" + jw(t.getA()) + "," + jw(t.getB()) + "," + jw(t.getC()) + "]"; });
}

static void tuples(Trace& T, Rng& r, bool thorough, bool many = false) {
  // 0 two-party, 1 general over ot, 2 general over dummy products, 3 dummy, 4 products themselves
  int kind = r.below(100) < 45 ? 0 : 1 + r.below(4);
  int n = kind == 0 ? 2 : (int)r.range(2, kind == 1 ? 3 : 5);
  if (kind == 4) n = 2;
  bool arith = kind != 0 && r.coin();
  int rk = r.below(3);
  static const int bufs[] = {1, 2, 3, 7, 16, 33, 64, 100, 128, 130, 256};
  int buf = bufs[r.below(11)];
  if (kind == 1 || arith) buf = std::min(buf, 33);
  if (rk != 2 && buf < 3 && kind == 0) buf = 3;
  struct Req { int op; uint32_t n; std::map<size_t, uint32_t> comp; };
  std::vector<Req> reqs;
  int steps = r.range(2, 9), budget = (arith || kind == 1) ? 60 : 400;
  for (int i = 0; i < steps; i++) {
    Req q;
    q.op = kind == 0 || kind == 3 ? (int)r.below(3) : 0;
    q.n = r.chance(8) ? 0 : r.chance(20) ? (uint32_t)std::max<int64_t>(0, buf + r.range(-1, 1)) : r.chance(15) ? 2 * buf + 1 : (uint32_t)r.range(1, 25);
    q.n = std::min<uint32_t>(q.n, budget);
    for (int j = r.range(1, 3); j > 0; j--) {
      static const int cs[] = {1, 2, 63, 64, 65, 127, 128, 129, 130, 255, 256, 257, 400};
      q.comp[r.coin() ? cs[r.below(13)] : r.range(1, 40)] = r.chance(10) ? 0 : r.chance(15) ? buf + 1 > 40 ? 5 : buf + 1 : r.range(1, 6);
    }
    reqs.push_back(q);
  }
  if (many) {  // more than counts of sixteen bits hold
    kind = 0, n = 2, arith = false, rk = 0;
    buf = r.coin() ? 66000 : (int)r.range(3000, 9000);
    Req q;
    q.op = 2, q.n = 65536 + r.range(1, 2000);
    q.comp[2] = 300, q.comp[r.coin() ? 127 : 129] = r.range(257, 300);
    reqs.assign(1, q);
  }
  if (kind == 4) {  // shares of a1*b2 + a2*b1
    int pk = r.below(2);
    T(Ev("begin").f("kind", "products").f("n", 2).f("fresh", 0));
    struct Call { bool integer; std::vector<bool> l[2], r[2], o[2]; std::vector<uint64_t> lw[2], rw[2], ow[2]; };
    std::vector<Call> cs(r.range(1, 4));
    for (auto& x : cs) {
      x.integer = r.coin();
      int m = x.integer ? r.range(1, 6) : r.chance(15) ? r.range(120, 260) : r.range(1, 30);
      for (int p = 0; p < 2; p++)
        for (int i = 0; i < m; i++) {
          x.l[p].push_back(r.coin()), x.r[p].push_back(r.coin());
          x.lw[p].push_back(r.word()), x.rw[p].push_back(r.word());
        }
    }
    auto net = std::make_shared<Net>();
    bool ref[2] = {true, true};
    Stats st[2];
    auto err = runParties(2, net, [&](int me) {
      AgentFactory f(net, me);
      std::unique_ptr<tg::IProductShareGenerator> g;
      if (pk)
        g = tg::ProductShareGeneratorFactory(std::make_unique<eu::AesPrgFactory>(64),
                std::make_unique<ot::RcotBasedBidirectionObliviousTransferFactory>(me, f, ot::createClassicRcotFactory())).create(1 - me);
      else g = tg::insecure::DummyProductShareGeneratorFactory(f).create(1 - me);
      for (auto& x : cs)
        if (x.integer) x.ow[me] = g->generateIntegerProductShares(x.lw[me], x.rw[me]);
        else x.o[me] = g->generateBooleanProductShares(x.l[me], x.r[me]);
      st[me] = g->getTrafficStatistics();
      if (pk) {
        try { g->generateBooleanProductShares({1, 0}, {1}); ref[me] = false; } catch (const std::exception&) {}
        try { g->generateIntegerProductShares({1, 0}, {1}); ref[me] = false; } catch (const std::exception&) {}
      }
    });
    if (failed(T, err, "products")) return;
    for (auto& x : cs) {
      Ev e("products");
      e.f("int", x.integer).f("refused", ref[0] && ref[1]);
      auto two = [&](auto& a, auto f) { return "[" + f(a[0]) + "," + f(a[1]) + "]"; };
      auto fb = [](const std::vector<bool>& v) { return js(v); };
      if (x.integer) e.raw("l", two(x.lw, jws)).raw("r", two(x.rw, jws)).raw("o", two(x.ow, jws));
      else e.raw("l", two(x.l, fb)).raw("r", two(x.r, fb)).raw("o", two(x.o, fb));
      T(e);
    }
    T(Ev("traffic").raw("a", jst(st[0])).raw("b", jst(st[1])));
    return;
  }
  T(Ev("begin").f("kind", arith ? "arith" : kind == 0 ? "twoparty" : "general").f("n", n).f("fresh", kind != 3).f("buf", buf));
  auto net = std::make_shared<Net>();
  struct Out { std::vector<std::vector<BT>> b; std::vector<std::map<size_t, std::vector<CT>>> c; std::vector<std::vector<IT>> i; };
  std::vector<Out> out(n);
  std::vector<std::string> metrics(n);
  std::vector<char> refused(n, 1), supports(n, 0);
  auto mets = [](const fbpcf::util::MetricCollector& mc) {
    auto m = mc.collectMetrics();
    auto& t = m["mc.tuple_generator"];
    std::string s = "{";
    for (auto k : {"boolean_tuples_generated", "boolean_tuples_consumed", "boolean_tuples_unused", "composite_tuples_requested",
                   "composite_tuples_without_expansion_requested", "composite_tuples_requiring_expansion_requested",
                   "mini_tuples_without_expansion_requested", "mini_tuples_requiring_expansion_requested"})
      s += (s.size() > 1 ? "," : "") + js(k) + ":" + std::to_string(t[k].asInt());
    return s + "}";
  };
  auto seeds = r.next();
  auto err = runParties(n, net, [&](int me) {
    AgentFactory f(net, me);
    Rng mine(seeds + me);
    auto mc = std::make_shared<fbpcf::util::MetricCollector>("mc");
    std::shared_ptr<ot::IRandomCorrelatedObliviousTransferFactory> rf;
    if (rk == 2) rf = ot::createFerretRcotFactory(512, 100, 8);
    else rf = ot::createClassicRcotFactory();
    std::shared_ptr<tg::IProductShareGeneratorFactory> ps;
    if (kind == 1)
      ps = std::make_shared<tg::ProductShareGeneratorFactory>(std::make_unique<eu::AesPrgFactory>(64),
          std::make_unique<ot::RcotBasedBidirectionObliviousTransferFactory>(me, f, rf));
    else ps = std::make_shared<tg::insecure::DummyProductShareGeneratorFactory>(f);
    auto pause = [&] { if (mine.chance(30)) std::this_thread::sleep_for(std::chrono::microseconds(mine.below(800))); };
    if (arith) {
      std::unique_ptr<tg::IArithmeticTupleGenerator> g;
      if (kind == 3) g = tg::insecure::DummyArithmeticTupleGeneratorFactory().create();
      else g = tg::ArithmeticTupleGeneratorFactory(ps, std::make_unique<eu::AesPrgFactory>(64), buf, me, n).create();
      for (auto& q : reqs) { out[me].i.push_back(g->getIntegerTuple(q.n)); pause(); }
    } else {
      std::unique_ptr<tg::ITupleGenerator> g;
      if (kind == 0) g = tg::TwoPartyTupleGeneratorFactory(rf, f, me, buf, mc).create();
      else if (kind == 3) g = tg::insecure::DummyTupleGeneratorFactory(mc).create();
      else g = tg::TupleGeneratorFactory(ps, std::make_unique<eu::AesPrgFactory>(64), buf, me, n, mc).create();
      supports[me] = g->supportsCompositeTupleGeneration();
      for (auto& q : reqs) {
        out[me].b.push_back({});
        out[me].c.push_back({});
        if (q.op == 0) out[me].b.back() = g->getBooleanTuple(q.n);
        else if (q.op == 1) out[me].c.back() = g->getCompositeTuple(q.comp);
        else std::tie(out[me].b.back(), out[me].c.back()) = g->getNormalAndCompositeBooleanTuples(q.n, q.comp);
        pause();
      }
      if (!supports[me]) {
        try { g->getCompositeTuple({{2, 1}}); refused[me] = 0; } catch (const std::exception&) {}
        try { g->getNormalAndCompositeBooleanTuples(1, {{2, 1}}); refused[me] = 0; } catch (const std::exception&) {}
      }
      g.reset();
      metrics[me] = mets(*mc);
    }
  });
  if (failed(T, err, "tuples")) return;
  for (size_t i = 0; i < reqs.size(); i++) {
    auto& q = reqs[i];
    auto per = [&](auto f) {
      std::string s = "[";
      for (int p = 0; p < n; p++) s += (p ? "," : "") + f(p);
      return s + "]";
    };
    if (arith) { T(Ev("ints").f("n", q.n).raw("t", per([&](int p) { return jit(out[p].i[i]); }))); continue; }
    if (q.op != 1) T(Ev("bools").f("n", q.n).raw("t", per([&](int p) { return jbt(out[p].b[i]); })));
    if (q.op != 0) {
      std::string want = "[";
      for (auto& [k, v] : q.comp) want += (want.size() > 1 ? ",[" : "[") + std::to_string(k) + "," + std::to_string(v) + "]";
      T(Ev("comps").raw("want", want + "]").raw("t", per([&](int p) { return jct(out[p].c[i]); })));
    }
  }
  if (!arith)
    for (int p = 0; p < n; p++) T(Ev("metrics").f("p", p).f("refused", (bool)refused[p]).f("supports", (bool)supports[p]).raw("m", metrics[p]));
}

// a session of many small lots, seen by each party alone: which bits of its own shares never change?
static void spreads(Trace& T, Rng& r) {
  int kind = r.below(3);  // two-party, general, arithmetic
  int n = kind == 0 ? 2 : (int)r.range(2, kind == 1 ? 3 : 2);
  int buf = kind == 0 ? r.range(3, 8) : kind == 1 ? r.range(1, 6) : r.range(1, 2), total = 56 * buf;
  int rk = r.below(2);
  T(Ev("begin").f("kind", "spread").f("n", n).f("fresh", 1).f("buf", buf));
  std::vector<int> asks;
  for (int left = total; left > 0;) {
    int k = std::min<int>(left, r.chance(30) ? buf : r.range(1, 2 * buf));
    asks.push_back(k);
    left -= k;
  }
  auto net = std::make_shared<Net>();
  std::vector<std::vector<BT>> b(n);
  std::vector<std::vector<IT>> w(n);
  auto err = runParties(n, net, [&](int me) {
    AgentFactory f(net, me);
    auto mc = std::make_shared<fbpcf::util::MetricCollector>("mc");
    std::shared_ptr<ot::IRandomCorrelatedObliviousTransferFactory> rf = ot::createClassicRcotFactory();
    if (rk && kind == 0) rf = ot::createFerretRcotFactory(512, 100, 8);
    auto ps = std::make_shared<tg::ProductShareGeneratorFactory>(std::make_unique<eu::AesPrgFactory>(64),
        std::make_unique<ot::RcotBasedBidirectionObliviousTransferFactory>(me, f, rf));
    if (kind == 2) {
      auto g = tg::ArithmeticTupleGeneratorFactory(ps, std::make_unique<eu::AesPrgFactory>(64), buf, me, n).create();
      for (int k : asks) for (auto& x : g->getIntegerTuple(k)) w[me].push_back(x);
    } else {
      std::unique_ptr<tg::ITupleGenerator> g;
      if (kind == 0) g = tg::TwoPartyTupleGeneratorFactory(rf, f, me, buf, mc).create();
      else g = tg::TupleGeneratorFactory(ps, std::make_unique<eu::AesPrgFactory>(64), buf, me, n, mc).create();
      for (int k : asks) for (auto& x : g->getBooleanTuple(k)) b[me].push_back(x);
    }
  });
  if (failed(T, err, "spread")) return;
  for (int p = 0; p < n; p++) T(Ev("spread").f("p", p).f("int", kind == 2).f("buf", buf).f("n", total).raw("t", kind == 2 ? jit(w[p]) : jbt(b[p])));
}

int main(int c, char** v) {
  Args ar(c, v);
  Trace T(ar.out);
  Watchdog wd(T, 40);
  Rng r(ar.seed * 1000 + ar.shard);
  bool o = ar.mode == "ot";
  int eps = o ? (ar.thorough ? 250 : 40) : (ar.thorough ? 250 : 40);
  for (int e = 0; e < eps; e++) {
    wd.tick();
    if (!o && e % 8 == 3) spreads(T, r);
    else if (!o) tuples(T, r, ar.thorough, e == 10 && ar.shard < 3);
    else if (e == 5) spreadMatrix(T, r);
    else if (e == 10 && ar.shard < 3) bidi(T, r, true);
    else if (e == 9 && ar.shard < 4) manyRcot(T, r, ar.shard % 2 ? 2 : 0);
    else switch (r.below(6)) {
      case 0: baseOt(T, r); break;
      case 1: rcot(T, r, ar.thorough); break;
      case 2: points(T, r); break;
      case 3: matrix(T, r); break;
      default: bidi(T, r, false); break;
    }
  }
  T.flush();
  return 0;
}
