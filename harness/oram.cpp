// Records the life of oblivious RAMs over every element type, and of the parts of the write-only one.
#include "mpc_types.h"
#include "fbpcf/engine/util/AesPrgFactory.h"
#include "fbpcf/mpc_std_lib/oram/DifferenceCalculatorFactory.h"
#include "fbpcf/mpc_std_lib/oram/DummyDifferenceCalculatorFactory.h"
#include "fbpcf/mpc_std_lib/oram/DummyObliviousDeltaCalculatorFactory.h"
#include "fbpcf/mpc_std_lib/oram/DummySinglePointArrayGeneratorFactory.h"
#include "fbpcf/mpc_std_lib/oram/LinearOramFactory.h"
#include "fbpcf/mpc_std_lib/oram/ObliviousDeltaCalculatorFactory.h"
#include "fbpcf/mpc_std_lib/oram/SinglePointArrayGeneratorFactory.h"
#include "fbpcf/mpc_std_lib/oram/WriteOnlyOramFactory.h"
#ifndef PART
#define PART 0
#endif

using namespace vh;
namespace om = fbpcf::mpc_std_lib::oram;

static std::string jm(const __m128i& v) {
  unsigned char b[16];
  memcpy(b, &v, 16);
  std::string r = "[";
  for (int i = 0; i < 16; i++) r += (i ? "," : "") + std::to_string((int)b[i]);
  return r + "]";
}
static std::string jms(const std::vector<__m128i>& v) { return jmap(v, jm); }
static __m128i rnd(Rng& r) { uint64_t a = r.next(); return _mm_set_epi64x(a, r.next()); }
using Bits = std::vector<bool>;
static std::string jbb(const std::vector<Bits>& m) { return jmap(m, [](const Bits& b) { return js(b); }); }

// xor shares, bit by bit, of a batch
static std::vector<std::vector<Bits>> split(Rng& r, const std::vector<Bits>& items, int width) {
  std::vector<std::vector<Bits>> s(2, std::vector<Bits>(width, Bits(items.size())));
  for (int k = 0; k < width; k++) for (size_t i = 0; i < items.size(); i++) {
    s[0][k][i] = r.coin();
    s[1][k][i] = s[0][k][i] ^ (items[i][k]);
  }
  return s;
}
static Bits number(uint64_t v, int w) { Bits b(w); for (int i = 0; i < w && i < 64; i++) b[i] = v >> i & 1; return b; }

struct Op {
  std::string ev;
  std::vector<uint32_t> idx;
  std::vector<Bits> valBits;
  std::vector<std::vector<Bits>> idxShare, valShare;  // per party
  size_t at = 0;
  int party = 0;
  std::string vals;
};

constexpr int8_t kSum = 10;
template <class T> std::unique_ptr<om::IWriteOnlyOramFactory<T>> makeFactory(const std::string& how, int me, int alice, AgentFactory& af) {
  bool first = me == alice;
  int bob = 1 - alice, peer = 1 - me;
  using R = typename om::IWriteOnlyOram<T>::Role;
  if (how == "linear") return om::getSecureLinearOramFactory<T, 0>(first, alice, bob, af);
  if (how == "secure") return om::getSecureWriteOnlyOramFactory<T, kSum, 0>(first, alice, bob, af);
  std::unique_ptr<om::ISinglePointArrayGeneratorFactory> g;
  std::unique_ptr<om::IDifferenceCalculatorFactory<T>> d;
  if (how == "dummy" || how == "realdiff") g = std::make_unique<om::insecure::DummySinglePointArrayGeneratorFactory>(first, peer, af);
  else g = std::make_unique<om::SinglePointArrayGeneratorFactory>(first, std::make_unique<om::insecure::DummyObliviousDeltaCalculatorFactory>(peer, af));
  if (how == "realdiff" || how == "realpoint") d = std::make_unique<om::DifferenceCalculatorFactory<T, kSum, 0>>(first, alice, bob);
  else d = std::make_unique<om::insecure::DummyDifferenceCalculatorFactory<T, kSum>>(first, peer, af);
  return std::make_unique<om::WriteOnlyOramFactory<T>>(first ? R::Alice : R::Bob, peer, af, std::move(g), std::move(d));
}

template <class T> void ram(Trace& Tr, Rng& r, const std::string& kind, const std::string& how, Watchdog& wd, int large = 0) {
  wd.tick();
  static size_t turn = r.next();
  static const size_t big[] = {63, 64, 65, 66, 100, 127, 128, 129, 140};
  size_t size = r.chance(8) ? big[turn++ % 9] : r.chance(60) ? 1 + turn++ % 40 : r.range(1, 14);
  // more places, or more additions at once, than a byte counts
  if (large) size = large == 1 ? r.range(257, 330) : r.range(2, 6);
  int need = 1;
  while ((1u << need) < size) need++;
  int alice = r.below(2);
  std::vector<Op> ops;
  int len = size > 50 ? 4 : r.range(4, 12);
  for (int k = 0; k < len; k++) {
    Op o;
    int pc = r.below(100);
    if (pc < 45 || k == 0) {
      o.ev = "add";
      int w = r.chance(75) ? need : need + r.range(1, 3), batch = r.chance(10) ? r.range(7, size > 20 ? 8 : 30) : r.range(1, 6);
      if (size > 50) batch = std::min(batch, 4);
      if (large == 2 && k == 0) batch = r.range(257, 300);
      std::vector<Bits> ib;
      std::vector<T> vs;
      for (int i = 0; i < batch; i++) {
        uint32_t x = i && r.chance(30) ? o.idx[r.below(i)] : r.chance(30) ? size - 1 : r.below(size);
        o.idx.push_back(x);
        ib.push_back(number(x, w));
        T v = Ty<T>::rand(r);
        vs.push_back(v);
        o.valBits.push_back(mu::Adapters<T>::convertToBits(v));
      }
      o.vals = jcol(vs);
      o.idxShare = split(r, ib, w);
      o.valShare = split(r, o.valBits, Ty<T>::bits);
    } else if (pc < 52) {
      // malformed batches: refused before anything is sent
      o.ev = "badadd";
      std::vector<Bits> ib(2, number(0, need)), vb(2, Bits(Ty<T>::bits));
      o.idxShare = split(r, ib, need); o.valShare = split(r, vb, Ty<T>::bits);
      int c = r.below(how == "linear" ? 4 : 7), row = r.below(Ty<T>::bits);
      for (int p = 0; p < 2; p++) {
        if (c == 0 && need > 1 && size > (1u << (need - 1))) o.idxShare[p].pop_back();
        else if (c == 1) o.valShare[p].clear();
        else if (c == 2) o.idxShare[p].clear();
        else if (c == 4) o.valShare[p][row].push_back(1);
        else if (c == 5) o.valShare[p][row].pop_back();
        else if (c == 6) for (auto& q : o.valShare[p]) q.push_back(0);
        else o.idxShare[p].back().push_back(1), o.idxShare[p].size() == 1 ? o.valShare[p].clear() : void();
      }
    } else if (pc < 62) { o.ev = "badread"; o.at = size + r.below(3); o.party = r.below(3); }
    else if (pc < 82) { o.ev = "read"; o.at = r.below(size); o.party = r.below(2); }
    else { o.ev = "share"; o.at = r.below(size); }
    if ((o.ev == "read" || o.ev == "share") && r.chance(60)) {
      // where something was written
      std::vector<uint32_t> w;
      for (auto& q : ops) for (auto x : q.idx) w.push_back(x);
      if (!w.empty()) o.at = w[r.below(w.size())];
    }
    ops.push_back(o);
    if (k == 0 && r.chance(60)) { Op q; q.ev = "share"; q.at = r.below(size); ops.push_back(q); }
  }
  for (size_t i = 0; i < size; i++) if (size < 20 || i + 2 >= size || r.chance(40)) { Op o; o.ev = r.coin() ? "read" : "share"; o.at = i; o.party = r.below(2); ops.push_back(o); }
  std::vector<std::vector<std::string>> res(2);
  std::vector<std::pair<uint64_t, uint64_t>> traffic(2);
  std::vector<uint32_t> batch(2);
  auto err = runMpc(kind, 2, r.range(1, 2), r.next(), [&](int me, fbpcf::scheduler::IArithmeticScheduler&, AgentFactory& af) {
    auto f = makeFactory<T>(how, me, alice, af);
    auto m = f->create(size);
    batch[me] = f->getMaxBatchSize(size, 1 + size % 4);
    using R = typename om::IWriteOnlyOram<T>::Role;
    for (auto& o : ops) {
      std::string out = "0";
      if (o.ev == "add") m->obliviousAddBatch(o.idxShare[me], o.valShare[me]);
      else if (o.ev == "badadd") { try { m->obliviousAddBatch(o.idxShare[me], o.valShare[me]); out = "1"; } catch (const std::exception&) {} }
      else if (o.ev == "badread") {
        try { if (o.party == 2) m->secretRead(o.at); else m->publicRead(o.at, o.party == alice ? R::Alice : R::Bob); out = "1"; } catch (const std::exception&) {}
      } else if (o.ev == "read") out = Ty<T>::j(m->publicRead(o.at, o.party == alice ? R::Alice : R::Bob));
      else out = Ty<T>::j(m->secretRead(o.at));
      res[me].push_back(out);
    }
    traffic[me] = m->getTrafficStatistics();
  });
  Tr(Ev("begin").f("sched", kind).f("how", how).f("hidden", how == "linear" || how == "secure" ? (std::string(Ty<T>::name()) == "agg" ? 64 : Ty<T>::bits) : 0).f("kind", Ty<T>::name()).f("w", Ty<T>::bits).f("sg", Ty<T>::name()[0] == 's').f("size", (int)size));
  size_t done = std::min(res[0].size(), res[1].size());
  for (size_t k = 0; k < done; k++) {
    auto& o = ops[k];
    Ev ev(o.ev.c_str());
    if (o.ev == "add") ev.f("idx", o.idx).raw("vals", o.vals);
    else if (o.ev == "read") ev.f("at", (int)o.at).raw("out", res[o.party][k]).raw("other", res[1 - o.party][k]);
    else if (o.ev == "share") ev.f("at", (int)o.at).raw("out", "[" + res[0][k] + "," + res[1][k] + "]");
    else ev.raw("ok", "[" + res[0][k] + "," + res[1][k] + "]");
    Tr(ev);
  }
  if (!err[0].empty() || !err[1].empty()) Tr(Ev("failed").f("next", done < ops.size() ? ops[done].ev : std::string("-")).f("err", err));
  else {
    auto jt = [](std::pair<uint64_t, uint64_t> p) { return "[" + std::to_string(p.first) + "," + std::to_string(p.second) + "]"; };
    Tr(Ev("traffic").raw("a", jt(traffic[0])).raw("b", jt(traffic[1])).raw("batch", js(batch)));
  }
}

// ---- the parts of the write-only ORAM
template <class T> void diff(Trace& Tr, Rng& r, const std::string& kind, bool dummy, Watchdog& wd, bool large = false) {
  wd.tick();
  int n = large ? r.range(257, 300) : r.chance(30) ? r.range(9, 40) : r.range(1, 8), alice = r.below(2);
  std::vector<std::vector<uint32_t>> ind(2, std::vector<uint32_t>(n));
  std::vector<std::vector<T>> sub = {randCol<T>(r, n), randCol<T>(r, n)};
  std::vector<T> minu = randCol<T>(r, n);
  std::vector<Bits> mb;
  std::vector<int> sign(n);
  for (int i = 0; i < n; i++) {
    sign[i] = r.coin();
    ind[0][i] = r.chance(20) ? 0 : r.below((1 << (kSum - 1)) - 1);
    ind[1][i] = ind[0][i] + 1;
    if (sign[i]) std::swap(ind[0][i], ind[1][i]);  // alice minus bob is 1
    mb.push_back(mu::Adapters<T>::convertToBits(minu[i]));
  }
  auto ms = split(r, mb, Ty<T>::bits);
  std::vector<std::string> out(2, "[]");
  auto err = runMpc(kind, 2, 1, r.next(), [&](int me, fbpcf::scheduler::IArithmeticScheduler&, AgentFactory& af) {
    std::unique_ptr<om::IDifferenceCalculator<T>> d;
    if (dummy) d = om::insecure::DummyDifferenceCalculatorFactory<T, kSum>(me == alice, 1 - me, af).create();
    else d = om::DifferenceCalculatorFactory<T, kSum, 0>(me == alice, alice, 1 - alice).create();
    int i = me != alice;
    out[me] = jcol(d->calculateDifferenceBatch(ind[i], ms[i], sub[i]));
  });
  Ev ev(err[0].empty() && err[1].empty() ? "diff" : "failed");
  Tr(Ev("begin").f("sched", kind).f("how", dummy).f("kind", Ty<T>::name()).f("w", Ty<T>::bits).f("sg", Ty<T>::name()[0] == 's').f("size", 1));
  Tr(ev.f("sign", sign).raw("minuend", jcol(minu)).raw("sub0", jcol(sub[0])).raw("sub1", jcol(sub[1])).raw("out", "[" + out[0] + "," + out[1] + "]").f("err", err));
}
static void points(Trace& Tr, Rng& r, const std::string& kind, int how, Watchdog& wd, int large = 0) {
  wd.tick();
  int alice = r.below(2), n = r.chance(20) ? r.range(5, 12) : r.range(1, 4), w = r.chance(15) ? r.range(6, 8) : r.range(1, 5);
  if (w > 5) n = 1 + n % 2;
  if (large == 1) w = 9, n = 1;
  if (large == 2) w = 2, n = r.range(257, 300);
  size_t length = r.range(r.coin() ? 1 : (1 << w) / 2 + 1, 1 << w);
  std::vector<uint32_t> idx;
  std::vector<Bits> ib;
  for (int i = 0; i < n; i++) { idx.push_back(r.below(length)); ib.push_back(number(idx[i], w)); }
  auto is = split(r, ib, w);
  std::vector<std::string> ind(2, "[]"), keys(2, "[]");
  auto err = runMpc(kind, 2, 1, r.next(), [&](int me, fbpcf::scheduler::IArithmeticScheduler&, AgentFactory& af) {
    std::unique_ptr<om::ISinglePointArrayGeneratorFactory> g;
    if (how == 0) g = std::make_unique<om::insecure::DummySinglePointArrayGeneratorFactory>(me == alice, 1 - me, af);
    else if (how == 1) g = std::make_unique<om::SinglePointArrayGeneratorFactory>(me == alice, std::make_unique<om::insecure::DummyObliviousDeltaCalculatorFactory>(1 - me, af));
    else g = std::make_unique<om::SinglePointArrayGeneratorFactory>(me == alice, std::make_unique<om::ObliviousDeltaCalculatorFactory<0>>(me == alice, alice, 1 - alice));
    auto v = g->create()->generateSinglePointArrays(is[me], length);
    ind[me] = jmap(v, [](auto& p) { return js(p.first); });
    keys[me] = jmap(v, [](auto& p) { return jms(p.second); });
  });
  Ev ev(err[0].empty() && err[1].empty() ? "points" : "failed");
  Tr(Ev("begin").f("sched", kind).f("how", how).f("kind", "-").f("w", w).f("sg", 0).f("size", 1));
  Tr(ev.f("idx", idx).f("length", (int)length).f("real", how > 0).raw("ind", "[" + ind[0] + "," + ind[1] + "]").raw("keys", "[" + keys[0] + "," + keys[1] + "]").f("err", err));
}
static void delta(Trace& Tr, Rng& r, const std::string& kind, bool dummy, Watchdog& wd, bool large = false) {
  wd.tick();
  int alice = r.below(2), n = large ? r.range(257, 300) : r.chance(40) ? r.range(7, 40) : r.range(1, 6);
  std::vector<std::vector<__m128i>> d0(2, std::vector<__m128i>(n)), d1 = d0;
  std::vector<Bits> a = {r.bits(n), r.bits(n)};
  for (int p = 0; p < 2; p++) for (int i = 0; i < n; i++) { d0[p][i] = rnd(r); d1[p][i] = rnd(r); }
  std::vector<std::string> out(2, "[]");
  auto err = runMpc(kind, 2, 1, r.next(), [&](int me, fbpcf::scheduler::IArithmeticScheduler&, AgentFactory& af) {
    std::unique_ptr<om::IObliviousDeltaCalculator> c;
    if (dummy) c = om::insecure::DummyObliviousDeltaCalculatorFactory(1 - me, af).create();
    else c = om::ObliviousDeltaCalculatorFactory<0>(me == alice, alice, 1 - alice).create();
    auto [d, t0, t1] = c->calculateDelta(d0[me], d1[me], a[me]);
    out[me] = "[" + jms(d) + "," + js(t0) + "," + js(t1) + "]";
  });
  Ev ev(err[0].empty() && err[1].empty() ? "delta" : "failed");
  Tr(Ev("begin").f("sched", kind).f("how", dummy).f("kind", "-").f("w", 1).f("sg", 0).f("size", 1));
  Tr(ev.raw("d0", jmap(d0, jms)).raw("d1", jmap(d1, jms)).raw("alpha", jbb(a)).raw("out", "[" + out[0] + "," + out[1] + "]").f("err", err));
}

int main(int c, char** v) {
  Args ar(c, v);
  Trace T(ar.out);
  Watchdog wd(T, 60);
  Rng r(ar.seed * 104729 + ar.shard);
  const char* kinds[] = {"eager", "lazy"};
  const char* hows[] = {"linear", "secure", "linear", "secure", "dummy", "realdiff", "realpoint", "dummydiff"};
  int reps = ar.thorough ? 40 : 8;
  for (int i = 0; i < reps; i++) {
    auto k = [&] { return std::string(kinds[r.below(2)]); };
    auto h = [&] { return std::string(hows[(i + r.below(2)) % 8]); };
#if PART == 0
    if (i == 0) {
      ram<uint32_t>(T, r, k(), ar.shard % 2 ? "linear" : "secure", wd, 1);
      ram<uint32_t>(T, r, k(), ar.shard % 2 ? "secure" : "linear", wd, 2);
      diff<uint32_t>(T, r, k(), false, wd, true);
      points(T, r, k(), 2, wd, 1 + ar.shard % 2);
      delta(T, r, k(), false, wd, true);
    }
    ram<uint32_t>(T, r, k(), h(), wd);
    ram<Agg>(T, r, k(), h(), wd);
    diff<uint32_t>(T, r, k(), r.chance(20), wd);
    diff<Agg>(T, r, k(), r.chance(20), wd);
    points(T, r, k(), i % 3, wd);
    delta(T, r, k(), i % 4 == 0, wd);
#elif PART == 1
    ram<mu::Intp<true, 20>>(T, r, k(), h(), wd);
    diff<mu::Intp<true, 20>>(T, r, k(), r.chance(20), wd);
#else
    ram<mu::Intp<false, 7>>(T, r, k(), h(), wd);
    ram<mu::Intp<true, 64>>(T, r, k(), h(), wd);
#endif
  }
  return 0;
}
