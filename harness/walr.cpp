// Records secure matrix-vector multiplications and the correlated transfers under them.
#include "parties.h"
#include "mpc_types.h"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/DummyRandomCorrelatedObliviousTransferFactory.h"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/RcotHelper.h"
#include "fbpcf/engine/util/AesPrgFactory.h"
#include "fbpcf/mpc_std_lib/walr_multiplication/DummyMatrixMultiplicationFactory.h"
#include "fbpcf/mpc_std_lib/walr_multiplication/OTBasedMatrixMultiplicationFactory.h"
#include "fbpcf/util/MetricCollector.h"

using namespace vh;
namespace walr = fbpcf::mpc_std_lib::walr;
namespace ot = fbpcf::engine::tuple_generator::oblivious_transfer;
namespace eu = fbpcf::engine::util;
using Mul = walr::IWalrMatrixMultiplication<0>;
using Fac = walr::IWalrMatrixMultiplicationFactory<0>;
using Labels = fbpcf::frontend::Bit<true, 0, true>;
using Matrix = std::vector<std::vector<double>>;
static const char* kOt[] = {"dummyRcot", "iknp", "ferret"};

// a factory of its own for every multiplier factory
struct Rcot final : ot::IRandomCorrelatedObliviousTransferFactory {
  std::shared_ptr<ot::IRandomCorrelatedObliviousTransferFactory> f;
  explicit Rcot(int kind) {
    if (kind == 0) f = std::make_shared<ot::insecure::DummyRandomCorrelatedObliviousTransferFactory>();
    else if (kind == 1) f = ot::createClassicRcotFactory();
    else f = ot::createFerretRcotFactory(512, 100, 8);
  }
  std::unique_ptr<ot::IRandomCorrelatedObliviousTransfer> create(
      __m128i d, std::unique_ptr<fbpcf::engine::communication::IPartyCommunicationAgent> a) override { return f->create(d, std::move(a)); }
  std::unique_ptr<ot::IRandomCorrelatedObliviousTransfer> create(
      std::unique_ptr<fbpcf::engine::communication::IPartyCommunicationAgent> a) override { return f->create(std::move(a)); }
};

template <class T>
std::unique_ptr<Fac> otFactory(int me, bool owner, uint64_t div, AgentFactory& af, int rk, std::shared_ptr<fbpcf::util::MetricCollector> mc) {
  auto cot = std::make_unique<walr::util::COTWithRandomMessageFactory>(std::make_unique<Rcot>(rk));
  return std::make_unique<walr::OTBasedMatrixMultiplicationFactory<0, T>>(
      me, 1 - me, owner, div, af, std::make_unique<eu::AesPrgFactory>(), std::move(cot), mc);
}
static std::unique_ptr<Fac> factory(int w, int me, bool owner, uint64_t div, AgentFactory& af, int rk, std::shared_ptr<fbpcf::util::MetricCollector> mc) {
  switch (w) {
    case 0: return std::make_unique<walr::insecure::DummyMatrixMultiplicationFactory<0>>(me, 1 - me, af, mc);
    case 8: return otFactory<uint8_t>(me, owner, div, af, rk, mc);
    case 16: return otFactory<uint16_t>(me, owner, div, af, rk, mc);
    case 32: return otFactory<uint32_t>(me, owner, div, af, rk, mc);
    default: return otFactory<uint64_t>(me, owner, div, af, rk, mc);
  }
}
// 0 fine, 1 refused because of its inputs, 2 refused because of the role, 3 anything else
template <class F> int refusal(F f) {
  try { f(); return 0; }
  catch (const std::invalid_argument&) { return 1; }
  catch (const std::runtime_error&) { return 2; }
  catch (...) { return 3; }
}
static int setDiv(Mul* m, int w, uint64_t d) {
  return refusal([&] {
    if (w == 8) dynamic_cast<walr::OTBasedMatrixMultiplication<0, uint8_t>*>(m)->setDivisor(d);
    if (w == 16) dynamic_cast<walr::OTBasedMatrixMultiplication<0, uint16_t>*>(m)->setDivisor(d);
    if (w == 32) dynamic_cast<walr::OTBasedMatrixMultiplication<0, uint32_t>*>(m)->setDivisor(d);
    if (w == 64) dynamic_cast<walr::OTBasedMatrixMultiplication<0, uint64_t>*>(m)->setDivisor(d);
  });
}

// values are k * 2^s / (4 * divisor)
struct Op {
  std::string op;  // mult, newDivisor, ragged, count, role
  int id, n, m, s, how;
  uint64_t div;
  std::vector<bool> lab[2];
  std::vector<std::vector<int>> feat;
  std::vector<int> noise;
  int res[2] = {0, 0};
  std::vector<int64_t> out;
  bool sharp = true;  // every result was a multiple of the unit
  double unit(uint64_t d) const { return std::ldexp(1.0, s) / (4.0 * (double)d); }
};
static std::string jbools(const std::vector<bool>& v) { std::string s = "["; for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + js((bool)v[i]); return s + "]"; }
static std::string jints(const std::vector<int>& v) { return jmap(v, [](const int& x) { return js((int64_t)x); }); }

static Op multiplication(Rng& r, int w, int id, uint64_t div, bool thorough, int large = 0) {
  Op o{"mult", id};
  o.div = div;
  o.n = r.chance(15) ? 1 : (int)r.range(1, thorough ? 40 : 14);
  o.m = r.chance(15) ? 1 : (int)r.range(1, thorough ? 40 : 14);
  if (r.chance(12)) { o.n = (int)r.range(20, 140); o.m = (int)r.range(1, 3); }
  else if (r.chance(8)) { o.m = (int)r.range(20, 140); o.n = (int)r.range(1, 3); }
  if (large == 1) o.n = r.range(257, 300), o.m = r.range(1, 2);
  if (large == 2) o.m = r.range(257, 300), o.n = r.range(1, 2);
  o.how = r.below(3);
  for (int p = 0; p < 2; p++) {
    int ones = r.below(4);
    for (int i = 0; i < o.n; i++) o.lab[p].push_back(o.how != 2 && p != o.how ? false : ones == 0 ? false : ones == 1 ? true : r.coin());
  }
  int width = w == 0 ? 40 : w;  // the dummy adds doubles
  for (int tries = 0;; tries++) {
    // how large terms may become: 2^big of the group's own units
    int big = tries < 6 ? width - 1 : std::max(1, width - 2 - tries);
    bool quarter = r.coin();
    int bits = std::min(o.n > 50 ? 22 : 24, big + 2);
    if (!quarter) bits = std::min(bits, std::max(1, big));
    o.s = quarter ? 0 : 2 + (big > bits ? r.below(big - bits + 1) : 0);
    if (!quarter) bits = std::min(bits, big + 2 - o.s);
    int lim = (1 << std::max(1, bits)) - 1;
    auto v = [&] { int c = r.below(8); return c == 0 ? 0 : c == 1 ? lim : c == 2 ? -lim : c == 3 ? (int)r.range(-8, 8) : (int)r.below(2 * (uint64_t)lim + 1) - lim; };
    o.feat.assign(o.n, {});
    o.noise.clear();
    for (auto& f : o.feat) for (int j = 0; j < o.m; j++) f.push_back(v());
    for (int j = 0; j < o.m; j++) o.noise.push_back(r.chance(30) ? 0 : v());
    double bound = std::ldexp(1.0, width - 1) - 1;
    bool ok = true;
    auto units = [&](double k) { return std::ldexp(k, o.s) / 4; };
    for (int j = 0; j < o.m; j++) {
      double sum = o.noise[j], slack = o.s ? 0 : o.n + 1;
      ok = ok && std::abs(units(o.noise[j])) <= bound;
      for (int i = 0; i < o.n; i++) {
        ok = ok && std::abs(units(o.feat[i][j])) <= bound;
        if (o.lab[0][i] != o.lab[1][i]) sum += o.feat[i][j];
      }
      ok = ok && std::abs(units(sum)) + slack <= bound;
    }
    if (ok) return o;
  }
}

static void matrix(Trace& T, Rng& r, int i, bool thorough) {
  static const int ws[] = {8, 16, 32, 64, 64, 0};
  int w = ws[r.below(6)], rk = r.chance(20) ? 0 : r.chance(75) ? 1 : 2, owner = r.below(2);
  static const char* kinds[] = {"lazy", "eager"};
  std::string kind = kinds[r.below(2)];
  auto divisor = [&]() -> uint64_t { return r.chance(40) ? 1ull << r.below(7) : (uint64_t)r.range(1, w == 8 ? 120 : 1000); };
  auto pow2 = [](uint64_t d) { return (d & (d - 1)) == 0; };
  uint64_t div = divisor();
  int muls = r.chance(40) ? (int)r.range(2, 3) : 1;
  T(Ev("begin").f("w", w).f("rcot", w ? kOt[rk] : "none").f("kind", kind.c_str()).f("muls", muls).f("pow2", pow2(div)));
  std::vector<uint64_t> divs(muls, div);
  std::vector<Op> ops;
  int nops = r.range(1, 5);
  for (int k = 0; k < nops; k++) {
    int id = r.below(muls);
    int c = r.below(100);
    if (w && c < 12) {
      Op o{"newDivisor", id};
      o.div = r.chance(35) && w < 64 ? (1ull << w) + r.below(3) : w < 64 && r.chance(20) ? (1ull << w) - 1 : divisor();
      if (w == 64 || o.div < 1ull << w) divs[id] = o.div;
      ops.push_back(o);
    } else if (w && c < 20) {
      ops.push_back(multiplication(r, w, id, divs[id], thorough));
      ops.back().op = "role";
    } else {
      // more rows or more columns than a byte counts
      Op o = multiplication(r, w, id, divs[id], thorough, i < 4 && k == 0 ? 1 + i % 2 : 0);
      if (c < 28 && w) {
        o.op = "count";  // one column too many or too few
        if (o.n == 1 || r.coin()) o.feat.push_back(o.feat[0]); else o.feat.pop_back();
      } else if (c < 40 && o.n > 1 && (w || k + 1 == nops)) {
        o.op = "ragged";
        auto& f = o.feat[w ? r.below(o.n) : r.range(1, o.n - 1)];
        if (o.m == 1 || r.coin()) f.push_back(1); else f.pop_back();
      }
      ops.push_back(o);
    }
  }
  std::string metrics[2];
  std::pair<uint64_t, uint64_t> traffic[2];
  auto err = runMpc(kind, 2, r.below(3), r.next(), [&](int me, fbpcf::scheduler::IArithmeticScheduler&, AgentFactory& af) {
    auto mc = std::make_shared<fbpcf::util::MetricCollector>("c");
    auto fac = factory(w, me, me == owner, div, af, rk, mc);
    std::vector<std::unique_ptr<Mul>> mul;
    for (int k = 0; k < muls; k++) mul.push_back(fac->create());
    for (auto& o : ops) {
      if (o.op == "newDivisor") { o.res[me] = setDiv(mul[o.id].get(), w, o.div); continue; }
      Labels lab(o.lab[o.how == 1 ? 1 : 0], o.how == 1 ? 1 : 0);
      if (o.how == 2) lab = lab ^ Labels(o.lab[1], 1);
      Matrix f;
      double unit = o.unit(o.div);
      for (auto& c : o.feat) { f.emplace_back(); for (int k : c) f.back().push_back(k * unit); }
      std::vector<double> noise;
      for (int k : o.noise) noise.push_back(k * unit);
      bool features = (me == owner) != (o.op == "role");
      if (o.op == "count" && me != owner) continue;            // the other party does not even start
      if (o.op == "ragged" && me != owner && w) continue;
      o.res[me] = refusal([&] {
        if (!features) { mul[o.id]->matrixVectorMultiplication(lab, noise); return; }
        auto out = mul[o.id]->matrixVectorMultiplication(f, lab);
        if (me != owner) return;
        for (double x : out) {
          double q = x / unit;
          o.out.push_back(std::abs(q) < 2e9 ? std::llround(q) : 2000000000);
          if (std::abs(q - std::llround(q)) > 1e-3) o.sharp = false;
        }
      });
    }
    traffic[me] = {0, 0};
    for (auto& m : mul) { auto t = m->getTrafficStatistics(); traffic[me].first += t.first; traffic[me].second += t.second; }
    if (muls > 1 || (!w && ops.back().op == "ragged")) return;  // the dummy refuses half-way
    auto all = mc->collectMetrics();
    std::string s = "[";
    int recorders = 0;
    for (auto& kv : all.items()) {
      recorders++;
      for (auto& mv : kv.second.items())
        s += (s.size() > 1 ? "," : "") + ("{\"k\":\"" + mv.first.asString() + "\",\"v\":" + std::to_string(mv.second.asInt()) + "}");
    }
    metrics[me] = Ev("metrics").f("owner", me == owner).f("recorders", recorders).raw("m", s + "]").str();
  });
  for (auto& e : err) if (!e.empty()) T(Ev("failed").f("what", e.c_str()));
  for (auto& o : ops) {
    if (o.op == "newDivisor")
      T(Ev("divisor").f("fits", w == 64 || o.div < 1ull << w).raw("res", jints({o.res[0], o.res[1]})));
    else if (o.op != "mult")
      T(Ev(o.op.c_str()).f("owner", o.res[owner]).f("other", o.res[1 - owner]));
    else {
      std::string f = "[";
      for (auto& c : o.feat) f += (f.size() > 1 ? "," : "") + jints(c);
      T(Ev("mult").f("id", o.id).f("n", o.n).f("m", o.m).f("quarter", o.s == 0).f("pow2", pow2(o.div)).f("how", o.how)
            .f("owner", o.res[owner]).f("other", o.res[1 - owner]).f("sharp", o.sharp)
            .raw("l0", jbools(o.lab[0])).raw("l1", jbools(o.lab[1])).raw("f", f + "]").raw("noise", jints(o.noise))
            .raw("out", jmap(o.out, [](const int64_t& x) { return js(x); })));
    }
  }
  for (auto& m : metrics) if (!m.empty()) T.line(m);
  T(Ev("traffic").f("aSent", (int64_t)traffic[0].first).f("aGot", (int64_t)traffic[0].second)
        .f("bSent", (int64_t)traffic[1].first).f("bGot", (int64_t)traffic[1].second)
        .f("whole", w != 0 || ops.empty() || ops.back().op != "ragged"));
}

static std::string jm(__m128i v) { return jbytes(std::string((const char*)&v, 16)); }
static void cot(Trace& T, Rng& r, int i) {
  int rk = r.chance(20) ? 0 : r.chance(60) ? 1 : 2;
  T(Ev("begin").f("w", 0).f("rcot", kOt[rk]).f("kind", "cot").f("muls", 1).f("pow2", 1));
  int rounds = r.range(1, 4);
  std::vector<std::vector<bool>> ch(rounds);
  for (auto& c : ch) for (int n = r.chance(10) ? 1 : r.chance(20) ? (int)r.range(61, 300) : (int)r.range(1, 60); n > 0; n--) c.push_back(r.coin());
  std::vector<std::vector<__m128i>> m0(rounds), m1(rounds), m(rounds);
  __m128i delta = _mm_set_epi64x(r.next(), r.next());
  eu::setLsbTo1(delta);
  int wrong = 0;
  std::pair<uint64_t, uint64_t> tr[2];
  auto net = std::make_shared<Net>();
  auto err = runParties(2, net, [&](int me) {
    AgentFactory f(net, me);
    walr::util::COTWithRandomMessageFactory cf(std::make_unique<Rcot>(rk));
    auto a = f.create(1 - me, "a"), b = f.create(1 - me, "b");
    auto c = me == 0 ? cf.create(delta, std::move(a), std::move(b)) : cf.create(std::move(a), std::move(b));
    if (me == 1) wrong = refusal([&] { c->send(3); });
    for (int k = 0; k < rounds; k++) {
      if (me == 0) std::tie(m0[k], m1[k]) = c->send(ch[k].size());
      else m[k] = c->receive(ch[k]);
    }
    tr[me] = c->getTrafficStatistics();
  });
  for (auto& e : err) if (!e.empty()) T(Ev("failed").f("what", e.c_str()));
  T(Ev("cotRole").f("res", wrong));
  for (int k = 0; k < rounds; k++)
    T(Ev("cot").f("n", (int)ch[k].size()).raw("c", jbools(ch[k])).raw("m0", jmap(m0[k], [](const __m128i& x) { return jm(x); }))
          .raw("m1", jmap(m1[k], [](const __m128i& x) { return jm(x); })).raw("m", jmap(m[k], [](const __m128i& x) { return jm(x); })));
  T(Ev("traffic").f("aSent", (int64_t)tr[0].first).f("aGot", (int64_t)tr[0].second)
        .f("bSent", (int64_t)tr[1].first).f("bGot", (int64_t)tr[1].second).f("whole", 1));
}

int main(int argc, char** argv) {
  Args a(argc, argv);
  Trace T(a.out);
  Watchdog dog(T, 60);
  int n = a.thorough ? 1500 : 120;
  for (int i = 0; i < n; i++) {
    dog.tick();
    Rng r(a.seed * 1000003 + a.shard * 7919 + i);
    if (i % 5 == 4) cot(T, r, i);
    else matrix(T, r, i, a.thorough);
  }
  return 0;
}
