// Parties as threads, each with a scheduler of its own, sharing one template instantiation.
#pragma once
#include "common.h"
#include "dealer.h"
#include "probe_engine.h"
#include "tls_scheduler.h"
#include "fbpcf/engine/SecretShareEngineFactory.h"
#include "fbpcf/engine/communication/AgentMapHelper.h"
#include "fbpcf/scheduler/EagerScheduler.h"
#include "fbpcf/scheduler/LazyScheduler.h"
#include "fbpcf/scheduler/NetworkPlaintextScheduler.h"
#include "fbpcf/scheduler/PlaintextScheduler.h"
#include "fbpcf/scheduler/WireKeeper.h"
#include "fbpcf/scheduler/gate_keeper/GateKeeper.h"

namespace vh {

inline std::unique_ptr<fbpcf::scheduler::IWireKeeper> makeKeeper(int k) {
  using fbpcf::scheduler::WireKeeper;
  if (k == 0) return WireKeeper::createWithVectorArena<true>();
  if (k == 1) return WireKeeper::createWithVectorArena<false>();
  return WireKeeper::createWithUnorderedMap();
}

// kind: plain, netplain, eager, lazy
inline std::unique_ptr<fbpcf::scheduler::IArithmeticScheduler> makeScheduler(
    const std::string& kind, int me, int n, fbpcf::engine::communication::IPartyCommunicationAgentFactory& f, int wk,
    uint64_t seed, std::vector<std::string>* log = nullptr) {
  namespace sc = fbpcf::scheduler;
  namespace en = fbpcf::engine;
  if (kind == "plain") return std::make_unique<sc::PlaintextScheduler>(makeKeeper(wk));
  if (kind == "netplain")
    return std::make_unique<sc::NetworkPlaintextScheduler>(me, en::communication::getAgentMap(n, me, f), makeKeeper(wk));
  auto ef = en::getEngineFactoryWithTupleGeneratorFactories(
      me, n, f, std::make_unique<DealerFactory>(me, n, seed, seed % 2 == 0), std::make_unique<IntDealerFactory>(me, n, seed + 1));
  if (kind == "eager") return std::make_unique<sc::EagerScheduler>(ef->create(), makeKeeper(wk));
  std::shared_ptr<sc::IWireKeeper> k = makeKeeper(wk);
  std::unique_ptr<en::ISecretShareEngine> eng = ef->create();
  if (log) eng = std::make_unique<ProbeEngine>(std::move(eng), *log);
  return std::make_unique<sc::LazyScheduler>(std::move(eng), k, std::make_unique<sc::GateKeeper>(k));
}

inline void installTls() { fbpcf::scheduler::SchedulerKeeper<0>::setScheduler(std::make_unique<TlsScheduler>()); }

// f(me, scheduler, agentFactory) in one thread per party; everything it builds dies before its scheduler
template <class F>
std::vector<std::string> runMpc(const std::string& kind, int n, int wk, uint64_t seed, F f, std::shared_ptr<Net> net = nullptr) {
  if (!net) net = std::make_shared<Net>();
  installTls();
  return runParties(n, net, [&](int me) {
    AgentFactory af(net, me);
    auto s = makeScheduler(kind, me, n, af, wk, seed);
    TlsScheduler::mine() = s.get();
    try {
      f(me, *s, af);
    } catch (...) {
      TlsScheduler::mine() = nullptr;
      throw;
    }
    TlsScheduler::mine() = nullptr;
  });
}

} // namespace vh
