// Records the sends and receives every party makes when values are opened, in the order it makes them,
// and the values it ends with; then runs the same again over channels whose sends block until received.
#include "common.h"
#include "dealer.h"
#include "fbpcf/engine/SecretShareEngineFactory.h"
#include "fbpcf/engine/communication/AgentMapHelper.h"
#include "fbpcf/engine/communication/SecretShareEngineCommunicationAgent.h"
#include "fbpcf/scheduler/LazyScheduler.h"
#include "fbpcf/scheduler/NetworkPlaintextScheduler.h"
#include "fbpcf/scheduler/WireKeeper.h"
#include "fbpcf/scheduler/gate_keeper/GateKeeper.h"

using namespace vh;
using namespace fbpcf;
using U64 = std::vector<uint64_t>;

struct O { std::string op; int id; std::vector<U64> v; };  // v: per party

static std::vector<bool> bv(const U64& v) { std::vector<bool> o; for (auto x : v) o.push_back(x & 1); return o; }
static U64 uv(const std::vector<bool>& v) { U64 o; for (bool x : v) o.push_back(x); return o; }

// every party's results, one vector per operation
std::vector<std::vector<U64>> run(const std::string& kind, int n, const std::vector<O>& ops, std::shared_ptr<Net> net,
                                  uint64_t seed, std::function<void(int)> ready, std::vector<std::string>& err) {
  std::vector<std::vector<U64>> out(n);
  err = runParties(n, net, [&](int p) {
    AgentFactory f(net, p);
    if (kind == "agent") {
      engine::communication::SecretShareEngineCommunicationAgent a(p, engine::communication::getAgentMap(n, p, f));
      ready(p);
      for (auto& o : ops) {
        if (o.op == "allb") out[p].push_back(uv(a.openSecretsToAll(bv(o.v[p]))));
        if (o.op == "alla") out[p].push_back(a.openSecretsToAll(o.v[p]));
        if (o.op == "oneb") out[p].push_back(uv(a.openSecretsToParty(o.id, bv(o.v[p]))));
        if (o.op == "onea") out[p].push_back(a.openSecretsToParty(o.id, o.v[p]));
      }
    } else if (kind == "netplain") {
      scheduler::NetworkPlaintextScheduler s(p, engine::communication::getAgentMap(n, p, f), scheduler::WireKeeper::createWithVectorArena<true>());
      ready(p);
      for (auto& o : ops) {
        if (o.op == "recb") out[p].push_back({(uint64_t)s.getBooleanValue(s.recoverBooleanWire(o.v[p][0] & 1))});
        if (o.op == "recbb") out[p].push_back(uv(s.getBooleanValueBatch(s.recoverBooleanWireBatch(bv(o.v[p])))));
        if (o.op == "reca") out[p].push_back({s.getIntegerValue(s.recoverIntegerWire(o.v[p][0]))});
        if (o.op == "recaa") out[p].push_back(s.getIntegerValueBatch(s.recoverIntegerWireBatch(o.v[p])));
        if (o.op == "inb") out[p].push_back({(uint64_t)s.getBooleanValue(s.privateBooleanInput(o.v[p][0] & 1, o.id))});
        if (o.op == "inbb") out[p].push_back(uv(s.getBooleanValueBatch(s.privateBooleanInputBatch(bv(o.v[p]), o.id))));
        if (o.op == "ina") out[p].push_back({s.getIntegerValue(s.privateIntegerInput(o.v[p][0], o.id))});
        if (o.op == "inaa") out[p].push_back(s.getIntegerValueBatch(s.privateIntegerInputBatch(o.v[p], o.id)));
      }
    } else {
      auto ef = engine::getEngineFactoryWithTupleGeneratorFactories(
          p, n, f, std::make_unique<DealerFactory>(p, n, seed, seed % 2), std::make_unique<IntDealerFactory>(p, n, seed));
      std::shared_ptr<scheduler::IWireKeeper> k = scheduler::WireKeeper::createWithVectorArena<true>();
      auto eng = ef->create();
      ready(p);
      scheduler::LazyScheduler s(std::move(eng), k, std::make_unique<scheduler::GateKeeper>(k));
      // all the openings of one level, to different parties, bits and integers mixed; then read
      std::vector<std::function<U64()>> rd;
      for (auto& o : ops) {
        if (o.op == "openb") {
          auto w = s.openBooleanValueToPartyBatch(s.recoverBooleanWireBatch(bv(o.v[p])), o.id);
          rd.push_back([&s, w] { return uv(s.getBooleanValueBatch(w)); });
        } else {
          auto w = s.openIntegerValueToPartyBatch(s.recoverIntegerWireBatch(o.v[p]), o.id);
          rd.push_back([&s, w] { return s.getIntegerValueBatch(w); });
        }
      }
      for (auto& g : rd) out[p].push_back(g());
    }
  });
  return out;
}

int main(int c, char** v) {
  Args ar(c, v);
  Trace T(ar.out);
  Watchdog wd(T, 20);
  Rng r(ar.seed);
  int episodes = ar.thorough ? 200 : 45;
  const char* kinds[] = {"agent", "netplain", "lazy"};
  std::map<std::string, std::vector<std::string>> names{
      {"agent", {"allb", "alla", "oneb", "onea"}},
      {"netplain", {"recb", "recbb", "reca", "recaa", "inb", "inbb", "ina", "inaa"}},
      {"lazy", {"openb", "opena"}}};
  for (int e = 0; e < episodes; e++) {
    wd.tick();
    std::string kind = kinds[e % 3];
    int n = r.range(2, ar.thorough ? 6 : 5);
    std::vector<O> ops;
    int k = r.range(1, 4);
    int long_ = e < 6 ? (int)r.below(k) : -1;
    if (long_ >= 0) n = r.range(2, 3);
    for (int i = 0; i < k; i++) {
      auto& ns = names[kind];
      O o{ns[r.below(ns.size())], (int)r.below(n), {}};
      bool single = o.op.size() == 4 && o.op.substr(0, 3) == "rec" || o.op == "inb" || o.op == "ina";
      size_t len = single ? 1 : r.chance(6) ? r.bigSize() : r.range(1, 9);
      bool ar = o.op.back() == 'a';
      if (i == long_ && !single) len = ar ? r.range(2048, 5000) : r.range(30000, 110000);  // more than any buffer on the way
      for (int p = 0; p < n; p++) {
        U64 x;
        for (size_t j = 0; j < len; j++) x.push_back(ar ? r.word() : r.below(2));
        o.v.push_back(x);
      }
      ops.push_back(o);
    }
    uint64_t seed = r.next();
    // what each party sends and receives, after setting up
    struct Step { int peer; bool send; std::string data; };
    std::vector<std::vector<Step>> st(n);
    std::vector<char> on(n, 0);
    auto net = std::make_shared<Net>();
    net->onData = [&](int p, int q, bool send, const unsigned char* d, size_t len) {
      if (!on[p] || !len) return;
      if (st[p].empty() || st[p].back().peer != q || st[p].back().send != send) st[p].push_back({q, send, ""});
      st[p].back().data.append((const char*)d, len);
    };
    std::vector<std::string> err, err2;
    auto out = run(kind, n, ops, net, seed, [&](int p) { on[p] = 1; }, err);
    // and again over channels without any buffer; setting up is done before
    auto net2 = std::make_shared<Net>();
    std::atomic<int> up{0};
    T.flush();
    auto out2 = run(kind, n, ops, net2, seed, [&](int) {
      up++;
      while (up < n) std::this_thread::yield();
      net2->rendezvous = true;
    }, err2);
    Ev ev("run");
    ev.f("kind", kind).f("n", n);
    ev.raw("prog", jmap(st, [](const std::vector<Step>& s) {
      return jmap(s, [](const Step& x) { return "[" + std::to_string(x.peer + 1) + "," + (x.send ? "1" : "0") + "," + jbytes(x.data) + "]"; });
    }));
    ev.raw("ops", jmap(ops, [&](const O& o) {
      bool a = o.op.back() == 'a';
      return std::string("{\"op\":") + js(o.op) + ",\"a\":" + js(a) + ",\"id\":" + js(o.id) + ",\"v\":" + jmap(o.v, [&](const U64& x) { return a ? jws(x) : js(x); }) + "}";
    }));
    auto jo = [&](std::vector<std::vector<U64>>& res) {
      std::vector<int> ps(n);
      for (int i = 0; i < n; i++) ps[i] = i;
      return jmap(ps, [&](int p) {
        std::string s = "[";
        for (size_t i = 0; i < res[p].size(); i++) s += (i ? "," : "") + (ops[i].op.back() == 'a' ? jws(res[p][i]) : js(res[p][i]));
        return s + "]";
      });
    };
    ev.raw("out", jo(out)).raw("out2", jo(out2)).f("err", err).f("err2", err2);
    T(ev);
  }
  return 0;
}
