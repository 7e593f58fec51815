// Records unified data processing: histories of the encryption objects, files and shards of their results,
// whole runs with decryption inside MPC, and the adapter from union to intersection.
#include "parties.h"
#include "fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpEncryption.h"
#include "fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpUtil.h"
#ifndef PART
#define PART 0
#endif
#if PART == 1
#include "fbpcf/mpc_std_lib/unified_data_process/data_processor/DataProcessorFactory.h"
#include "fbpcf/mpc_std_lib/unified_data_process/data_processor/DummyDataProcessorFactory.h"
#include "fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpDecryption.h"
#elif PART == 2
#include "fbpcf/mpc_std_lib/unified_data_process/adapter/AdapterFactory.h"
#endif

using namespace vh;
namespace dp = fbpcf::mpc_std_lib::unified_data_process::data_processor;
using Row = std::vector<unsigned char>;
using Rows = std::vector<Row>;
using Idx = std::vector<uint64_t>;
using Results = dp::IUdpEncryption::EncryptionResults;

static std::string jrow(const Row& r) {
  std::string s = "[";
  for (size_t i = 0; i < r.size(); i++) s += (i ? "," : "") + std::to_string((int)r[i]);
  return s + "]";
}
static std::string jrows(const Rows& r) { return jmap(r, jrow); }
static std::string jm(const __m128i& v) {
  Row b(16);
  memcpy(b.data(), &v, 16);
  return jrow(b);
}
static std::string jms(const std::vector<__m128i>& v) { return jmap(v, jm); }
static std::string jix(const uint64_t& v) {
  Row b(8);
  memcpy(b.data(), &v, 8);
  return jrow(b);
}
static std::string jidx(const Idx& v) { return jmap(v, jix); }

static Row randRow(Rng& r, size_t w) {
  Row x(w);
  int how = r.below(6);
  for (auto& b : x) b = how == 0 ? 0 : how == 1 ? 255 : r.next();
  return x;
}
// n different indexes, small, large or such as agree in their low words
static Idx randIdx(Rng& r, size_t n) {
  Idx v;
  uint64_t base = 0, step = 1;
  switch (r.below(6)) {
    case 0: base = r.below(1000); break;
    case 1: step = 1ull << 32; base = r.below(5); break;
    case 2: base = (1ull << 31) - 3; break;
    case 3: base = (1ull << 32) - 3; break;
    case 4: base = r.next() >> 8; step = r.range(1, 1 << 20); break;
    default: break;
  }
  for (size_t i = 0; i < n; i++) v.push_back(base + i * step);
  if (r.coin()) for (size_t i = n; i > 1; i--) std::swap(v[i - 1], v[r.below(i)]);
  return v;
}
static Results someResults(Rng& r, size_t n, size_t w) {
  Results x;
  for (size_t i = 0; i < n; i++) {
    x.ciphertexts.push_back(randRow(r, r.chance(10) ? 0 : w));
    uint64_t a = r.next();
    x.nonces.push_back(_mm_set_epi64x(a, r.next()));
    x.indexes.push_back(r.chance(50) ? r.below(100) : r.next());
  }
  return x;
}
static std::string jres(const Results& x) {
  return "{\"cts\":" + jrows(x.ciphertexts) + ",\"nonces\":" + jms(x.nonces) + ",\"idx\":" + jidx(x.indexes) + "}";
}

#if PART == 0
static const char* attempt(const std::function<void()>& f) {
  try { f(); } catch (const std::exception&) { return "no"; }
  return "yes";
}

static void history(Trace& T, Rng& r, bool large = false) {
  T(Ev("begin"));
  auto net = std::make_shared<Net>();
  AgentFactory f0(net, 0), f1(net, 1);
  std::vector<std::unique_ptr<dp::UdpEncryption>> u;
  u.push_back(std::make_unique<dp::UdpEncryption>(f0.create(1, "x")));
  u.push_back(std::make_unique<dp::UdpEncryption>(f1.create(0, "x")));
  // direction d: party d owns the rows
  struct Dir {
    bool my = false, peer = false, haveKey = false, haveRes = false;
    size_t width = 1;
    Idx fresh;      // indexes still to be used
    std::deque<size_t> flight;
    std::vector<__m128i> key;
    Results res;
  } D[2];
  int steps = large ? 60 : r.range(10, 120);
  for (int s = 0; s < steps; s++) {
    int d = r.below(2);
    Dir& x = D[d];
    bool wild = r.chance(6);  // whatever comes, whether it is its turn or not
    bool idle = !x.my && !x.peer && x.flight.empty() && !x.haveKey && !x.haveRes;
    if (idle) {  // a new session
      x.width = r.chance(12) ? r.range(41, 100) : r.range(1, 40);
      x.fresh = randIdx(r, r.range(1, 30));
      if (large) { x.width = r.range(1, 3); x.fresh = randIdx(r, r.range(430, 480)); }  // more rows than a byte counts
    }
    int op = r.below(15);
    if (op < 2 && ((wild && x.my) || (!x.my && !x.haveKey))) {
      bool was = x.my;
      size_t w = was ? r.range(1, 40) : x.width;
      auto ok = attempt([&] { u[d]->prepareToProcessMyData(w); });
      T(Ev("prepMy").f("d", d).f("width", (int)w).raw("ok", js(ok)));
      x.my = true;
    } else if (op < 4 && ((wild && x.peer) || (!x.peer && !x.haveRes))) {
      bool was = x.peer;
      Idx want;
      for (auto i : x.fresh) if (r.chance(large ? 90 : 60)) want.push_back(i);
      if (r.chance(30)) { auto more = randIdx(r, 2); for (auto i : more) if (std::find(x.fresh.begin(), x.fresh.end(), i) == x.fresh.end()) want.push_back(i); }
      for (size_t i = want.size(); i > 1; i--) std::swap(want[i - 1], want[r.below(i)]);
      auto ok = attempt([&] { u[1 - d]->prepareToProcessPeerData(x.width, want); });
      T(Ev("prepPeer").f("d", d).f("width", (int)x.width).raw("want", jidx(want)).raw("ok", js(ok)));
      x.peer = true;
      (void)was;
    } else if (op < 7 && (wild || (x.my && !x.fresh.empty()))) {
      size_t n = x.fresh.empty() ? r.below(2) : r.range(1, std::min<int>(x.fresh.size(), large ? 300 : 8));
      Idx idx(x.fresh.begin(), x.fresh.begin() + std::min(n, x.fresh.size()));
      Rows rows;
      for (size_t i = 0; i < n; i++) rows.push_back(randRow(r, x.width));
      bool bad = r.chance(12) || idx.size() != n || n == 0;
      if (bad) switch (r.below(4)) {  // shapes that do not fit
        case 0: rows.clear(); idx.clear(); break;
        case 1: if (!rows.empty()) rows[r.below(rows.size())].resize(x.width + r.range(1, 20)); break;
        case 2: if (!rows.empty()) rows[r.below(rows.size())].resize(r.below(x.width)); break;
        default: if (r.coin()) idx.push_back(12345); else if (!idx.empty()) idx.pop_back();
      }
      auto ok = attempt([&] { u[d]->processMyData(rows, idx); });
      T(Ev("send").f("d", d).raw("rows", jrows(rows)).raw("idx", jidx(idx)).raw("ok", js(ok)));
      if (std::string(ok) == "yes") {
        x.fresh.erase(x.fresh.begin(), x.fresh.begin() + std::min(rows.size(), x.fresh.size()));
        x.flight.push_back(rows.size());
      }
    } else if (op < 11 && ((wild && !x.peer) || (x.peer && !x.flight.empty()))) {
      size_t n = x.flight.empty() ? 1 : x.flight.front();
      auto ok = attempt([&] { u[1 - d]->processPeerData(n); });
      T(Ev("recv").f("d", d).raw("ok", js(ok)));
      if (std::string(ok) == "yes") x.flight.pop_front();
    } else if (op >= 11) {
      if (r.coin()) {
        if ((x.my && (x.fresh.size() < 3 || r.chance(10))) || (wild && !x.my)) {
          std::vector<__m128i> k;
          auto ok = attempt([&] { k = u[d]->getExpandedKey(); });
          T(Ev("key").f("d", d).raw("key", jms(k)).raw("ok", js(ok)));
          if (std::string(ok) == "yes") { x.key = k; x.haveKey = true; x.my = false; }
        }
      } else if ((x.peer && x.haveKey && x.flight.empty()) || (wild && !x.peer)) {
        Results res;
        auto ok = attempt([&] { res = u[1 - d]->getProcessedData(); });
        T(Ev("results").f("d", d).raw("res", jres(res)).raw("ok", js(ok)));
        if (std::string(ok) == "yes") { x.res = res; x.haveRes = true; x.peer = false; }
      }
    }
    if (x.haveKey && x.haveRes) x.haveKey = x.haveRes = false;
  }
}

static void files(Trace& T, Rng& r, const std::string& dir) {
  T(Ev("begin"));
  auto x = someResults(r, r.chance(10) ? 0 : r.range(1, 20), r.range(1, 20));
  dp::writeEncryptionResultsToFile(x, dir + "/res");
  auto y = dp::readEncryptionResultsFromFile(dir + "/res");
  T(Ev("file").raw("in", jres(x)).raw("out", jres(y)));
  std::vector<__m128i> k, k2;
  for (int i = 0; i < 11; i++) { uint64_t a = r.next(); k.push_back(_mm_set_epi64x(a, r.next())); }
  dp::writeExpandedKeyToFile(k, dir + "/key");
  k2 = dp::readExpandedKeyFromFile(dir + "/key");
  T(Ev("keyfile").raw("in", jms(k)).raw("out", jms(k2)));
  int count = r.range(1, 12);
  auto parts = dp::splitEncryptionResults(y, count);
  std::vector<int> sizes;
  for (int i = 0; i < count; i++) sizes.push_back(dp::getShardSize(y.nonces.size(), i, count));
  T(Ev("split").raw("in", jres(x)).f("count", count).raw("parts", jmap(parts, jres)).f("sizes", sizes));
  // rows encrypted from a first index on
  Rows rows;
  size_t w = r.chance(30) ? r.range(41, 140) : r.range(1, 40);
  bool large = r.chance(3);
  if (large) w = 1;
  for (int i = large ? r.range(257, 300) : r.range(1, 5); i > 0; i--) rows.push_back(randRow(r, w));
  uint64_t a = r.next();
  __m128i key = _mm_set_epi64x(a, r.next());
  uint64_t off = r.chance(30) ? 0 : r.chance(50) ? r.below(1000) : r.next() >> 8;
  auto [ct, nonce] = dp::UdpUtil::localEncryption(rows, key, off);
  T(Ev("local").raw("key", jm(key)).raw("off", jix(off)).raw("rows", jrows(rows)).raw("cts", jrows(ct)).raw("nonce", jrow(nonce)));
}

int main(int argc, char** argv) {
  Args a(argc, argv);
  Trace T(a.out);
  Watchdog dog(T, 60);
  std::string dir = getenv("VERIF_SCRATCH");
  int n = a.thorough ? 1500 : 150;
  for (int i = 0; i < n; i++) {
    dog.tick();
    Rng r(a.seed * 1000003 + a.shard * 7919 + i);
    if (i % 4 == 3) files(T, r, dir); else history(T, r, i == 0);
  }
  return 0;
}

#elif PART == 1

using SecString = fbpcf::frontend::BitString<true, 0, true>;
// the rows a shared string stands for, least significant bit of each byte first
static Rows opened(const SecString& s, int to) {
  auto v = s.openToParty(to).getValue();
  Rows r(v.empty() ? 0 : v[0].size(), Row(v.size() / 8));
  for (size_t k = 0; k < v.size(); k++) for (size_t i = 0; i < r.size(); i++) if (v[k][i]) r[i][k / 8] |= 1 << k % 8;
  return r;
}

struct Session {
  int owner;
  size_t width;
  Rows rows;
  Idx pick;
  std::vector<Rows> batches;
  std::vector<Idx> batchIdx;
  Idx want;
  int shards;
};

static void run(Trace& T, Rng& r, int i, bool thorough) {
  static const char* kinds[] = {"netplain", "eager", "lazy"};
  std::string kind = kinds[i % 3];
  std::string how = r.chance(15) ? "dummy" : r.chance(50) ? "processor" : "stages";
  std::vector<Session> ss(r.range(1, 3));
  for (auto& s : ss) {
    s.owner = r.below(2);
    s.width = r.chance(70) ? r.range(1, 17) : r.range(17, thorough ? 70 : 34);
    int n = r.range(1, 8);
    if (i == 2) { n = r.range(280, 320); s.width = r.range(1, 2); }  // more rows than a byte counts
    for (int j = 0; j < n; j++) s.rows.push_back(randRow(r, s.width));
    Idx all(n);
    for (int j = 0; j < n; j++) all[j] = j;
    for (size_t j = n; j > 1; j--) std::swap(all[j - 1], all[r.below(j)]);
    s.pick.assign(all.begin(), all.begin() + (n > 256 ? r.range(257, n) : r.range(1, n)));
    // stages: the same rows in several batches under indexes of their own
    auto ids = randIdx(r, n);
    for (int j = 0; j < n;) {
      int k = r.range(1, n - j);
      s.batches.emplace_back(s.rows.begin() + j, s.rows.begin() + j + k);
      s.batchIdx.emplace_back(ids.begin() + j, ids.begin() + j + k);
      j += k;
    }
    for (auto p : s.pick) s.want.push_back(ids[p]);
    s.shards = r.range(1, std::min<int>(3, s.pick.size()));
  }
  T(Ev("begin"));
  std::vector<std::string> out[2];
  uint64_t seed = r.next();
  int wk = r.below(3);
  auto err = runMpc(kind, 2, wk, seed, [&](int me, fbpcf::scheduler::IArithmeticScheduler&, AgentFactory& af) {
    int peer = 1 - me;
    auto emit = [&](const Session& s, const SecString& x) {
      for (int to = 0; to < 2; to++) {
        auto v = opened(x, to);
        if (to == me) out[me].push_back(Ev("picked").f("how", how.c_str()).f("me", me).f("owner", s.owner).raw("rows", jrows(s.rows)).f("pick", std::vector<int>(s.pick.begin(), s.pick.end())).raw("out", jrows(v)).str());
      }
    };
    if (how == "stages") {
      dp::UdpEncryption enc(af.create(peer, "udp"));
      dp::UdpDecryption<0> dec(me, peer);
      for (auto& s : ss) {
        std::vector<SecString> parts;
        if (me == s.owner) {
          enc.prepareToProcessMyData(s.width);
          for (size_t b = 0; b < s.batches.size(); b++) enc.processMyData(s.batches[b], s.batchIdx[b]);
          auto key = enc.getExpandedKey();
          for (int k = 0; k < s.shards; k++) parts.push_back(dec.decryptMyData(key, s.width, dp::getShardSize(s.pick.size(), k, s.shards)));
        } else {
          enc.prepareToProcessPeerData(s.width, s.want);
          for (auto& b : s.batches) enc.processPeerData(b.size());
          auto res = enc.getProcessedData();
          for (auto& p : dp::splitEncryptionResults(res, s.shards)) parts.push_back(dec.decryptPeerData(p.ciphertexts, p.nonces, p.indexes));
        }
        std::string all = "[";
        Rows got[2];
        for (auto& p : parts) for (int to = 0; to < 2; to++) { auto v = opened(p, to); got[to].insert(got[to].end(), v.begin(), v.end()); }
        out[me].push_back(Ev("picked").f("how", how.c_str()).f("me", me).f("owner", s.owner).raw("rows", jrows(s.rows)).f("pick", std::vector<int>(s.pick.begin(), s.pick.end())).raw("out", jrows(got[me])).str());
      }
    } else {
      std::unique_ptr<dp::IDataProcessor<0>> p;
      if (how == "dummy") p = dp::insecure::DummyDataProcessorFactory<0>(me, peer, af).create();
      else p = dp::getDataProcessorFactoryWithAesCtr<0>(me, peer, af)->create();
      for (auto& s : ss)
        emit(s, me == s.owner ? p->processMyData(s.rows, s.pick.size()) : p->processPeersData(s.rows.size(), s.pick, s.width));
    }
  });
  for (auto& e : err) if (!e.empty()) T(Ev("failed").f("what", e.c_str()));
  for (int p = 0; p < 2; p++) for (auto& l : out[p]) T.line(l);
  if (out[0].size() != ss.size() || out[1].size() != ss.size()) T(Ev("failed").f("what", "missing results"));
}

int main(int argc, char** argv) {
  Args a(argc, argv);
  Trace T(a.out);
  Watchdog dog(T, 120);
  int n = a.thorough ? 150 : 12;
  for (int i = 0; i < n; i++) {
    dog.tick();
    Rng r(a.seed * 1000003 + a.shard * 7919 + i);
    run(T, r, i, a.thorough);
  }
  return 0;
}

#else

namespace ad = fbpcf::mpc_std_lib::unified_data_process::adapter;

static void run(Trace& T, Rng& r, const std::string& kind, const std::string& how, int first, const std::vector<int32_t> m[2]) {
  T(Ev("begin"));
  std::vector<int32_t> out[2];
  uint64_t seed = r.next();
  int wk = r.below(3);
  auto err = runMpc(kind, 2, wk, seed, [&](int me, fbpcf::scheduler::IArithmeticScheduler&, AgentFactory&) {
    std::unique_ptr<ad::AdapterFactory<0>> f;
    if (how == "waksman") f = ad::getAdapterFactoryWithAsWaksmanBasedShuffler<0>(me == first, me, 1 - me);
    else if (how == "insecure") f = ad::getAdapterFactoryWithInsecureShuffler<0>(me == first, me, 1 - me);
    else f = ad::getAdapterFactoryWithNonShuffler<0>(me == first, me, 1 - me);
    out[me] = f->create()->adapt(m[me]);
  });
  bool threw = !err[0].empty() && !err[1].empty(), any = !err[0].empty() || !err[1].empty();
  if (any && !threw) T(Ev("failed").f("what", (err[0] + err[1]).c_str()));
  T(Ev("adapt").f("how", how.c_str()).f("kind", kind.c_str()).f("map0", m[first]).f("map1", m[1 - first]).f("ok", !any).f("out0", out[first]).f("out1", out[1 - first]).f("what", err[0].c_str()));
}

// in which order the members of an intersection come out, over and over
static void spread(Trace& T, Rng& r, Watchdog& wd) {
  T(Ev("begin"));
  for (int n : {2, 3}) {
    std::map<std::vector<int32_t>, long> tally;
    std::vector<int32_t> id(n);
    for (int i = 0; i < n; i++) id[i] = i;
    do tally[id] = 0; while (std::next_permutation(id.begin(), id.end()));
    long total = n == 2 ? 200 : 600, strange = 0;
    auto err = runMpc("netplain", 2, 1, r.next(), [&](int me, fbpcf::scheduler::IArithmeticScheduler&, AgentFactory&) {
      auto x = ad::getAdapterFactoryWithAsWaksmanBasedShuffler<0>(me == 0, me, 1 - me)->create();
      for (long i = 0; i < total; i++) {
        auto o = x->adapt(id);
        if (me == 0) { wd.tick(); if (tally.count(o)) tally[o]++; else strange++; }
      }
    });
    for (auto& e : err) if (!e.empty()) T(Ev("failed").f("what", e.c_str()));
    std::vector<long> c;
    for (auto& kv : tally) c.push_back(kv.second);
    T(Ev("spread").f("n", n).f("total", total).f("cells", (int)c.size()).f("counts", c).f("strange", strange));
  }
}

int main(int argc, char** argv) {
  Args a(argc, argv);
  Trace T(a.out);
  Watchdog dog(T, 120);
  static const char* kinds[] = {"eager", "lazy", "netplain"};
  static const char* hows[] = {"waksman", "insecure", "non"};
  if (a.shard == 0) { Rng r(a.seed * 31 + 5); spread(T, r, dog); }
  int c = 0;
  auto go = [&](const std::vector<int32_t>* m) {
    dog.tick();
    Rng r(a.seed * 1000003 + 17 + c);
    run(T, r, kinds[c % 3], hows[(c / 3) % 3], c % 2, m);
    c++;
  };
  // every pair of maps over a small union in which each member is known to someone
  int top = a.thorough ? 4 : 3, serial = 0;
  for (int n = 1; n <= top; n++) {
    std::vector<std::vector<int32_t>> maps;
    std::vector<int32_t> cur(n);
    std::function<void(int)> rec = [&](int i) {
      if (i == n) { maps.push_back(cur); return; }
      for (int v = -1; v < n; v++) {
        bool used = false;
        for (int j = 0; j < i; j++) used |= v >= 0 && cur[j] == v;
        if (!used) { cur[i] = v; rec(i + 1); }
      }
    };
    rec(0);
    for (auto& x : maps) for (auto& y : maps) {
      bool whole = true;
      for (int i = 0; i < n; i++) whole &= x[i] >= 0 || y[i] >= 0;
      if (!whole || serial++ % a.shards != a.shard) continue;
      // the larger unions are sampled
      if (n == 3 && !a.thorough && (serial / a.shards) % 8) continue;
      if (n == 4 && (serial / a.shards) % 40) continue;
      std::vector<int32_t> m[2] = {x, y};
      go(m);
    }
  }
  int n = a.thorough ? 200 : 20;
  for (int i = 0; i < n; i++) {
    Rng r(a.seed * 1000003 + a.shard * 7919 + i);
    static int turn = 7 * a.shard;
    int k = i == 0 ? r.range(257, 600) : i == 1 ? 256 : r.chance(30) ? 1 + turn++ % 70 : r.range(1, a.thorough ? 80 : 40);
    std::vector<int32_t> m[2];
    int p = r.below(101), q = r.below(101);
    for (int s = 0; s < 2; s++) {
      std::vector<int32_t> ids(k);
      for (int j = 0; j < k; j++) ids[j] = j;
      for (int j = k; j > 1; j--) std::swap(ids[j - 1], ids[r.below(j)]);
      m[s] = ids;
    }
    for (int j = 0; j < k; j++) {
      if (r.chance(p)) continue;
      m[r.chance(q)][j] = -1;
    }
    int bad = r.below(12);  // the same at both parties, so that neither waits for the other
    int at = r.below(k), to = r.below(k);
    for (int s = 0; s < 2; s++) {
      if (bad == 0) m[s].clear();
      if (bad == 1) m[s][at] = k + r.below(3);
      if (bad == 2) m[s][at] = -2 - (int)r.below(3);
      if (bad == 3 && k > 1) { if (to == at) to = (at + 1) % k; m[s][at] = m[s][to] = to; }
    }
    go(m);
  }
  return 0;
}
#endif
