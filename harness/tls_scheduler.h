// Generated by tools/mktls.py: forwards every scheduler call to the calling thread's own scheduler,
// so that all parties can run the same template instantiation (SchedulerKeeper<0>) in one process.
#pragma once
#include "fbpcf/scheduler/IScheduler.h"

namespace vh {
using fbpcf::scheduler::IScheduler;

class TlsScheduler final : public IScheduler {
 public:
  static IScheduler*& mine() {
    thread_local IScheduler* s = nullptr;
    return s;
  }

  WireId<Boolean> privateBooleanInput(bool v, int partyId) override { return mine()->privateBooleanInput(v, partyId); }
  WireId<Boolean> privateBooleanInputBatch(const std::vector<bool>& v, int partyId) override { return mine()->privateBooleanInputBatch(v, partyId); }
  WireId<Boolean> publicBooleanInput(bool v) override { return mine()->publicBooleanInput(v); }
  WireId<Boolean> publicBooleanInputBatch(const std::vector<bool>& v) override { return mine()->publicBooleanInputBatch(v); }
  WireId<Boolean> recoverBooleanWire(bool v) override { return mine()->recoverBooleanWire(v); }
  WireId<Boolean> recoverBooleanWireBatch(const std::vector<bool>& v) override { return mine()->recoverBooleanWireBatch(v); }
  WireId<Boolean> openBooleanValueToParty(WireId<Boolean> src, int partyId) override { return mine()->openBooleanValueToParty(src, partyId); }
  WireId<Boolean> openBooleanValueToPartyBatch(WireId<Boolean> src, int partyId) override { return mine()->openBooleanValueToPartyBatch(src, partyId); }
  bool extractBooleanSecretShare(WireId<Boolean> id) override { return mine()->extractBooleanSecretShare(id); }
  std::vector<bool> extractBooleanSecretShareBatch(WireId<Boolean> id) override { return mine()->extractBooleanSecretShareBatch(id); }
  bool getBooleanValue(WireId<Boolean> id) override { return mine()->getBooleanValue(id); }
  std::vector<bool> getBooleanValueBatch(WireId<Boolean> id) override { return mine()->getBooleanValueBatch(id); }
  WireId<Boolean> privateAndPrivate(WireId<Boolean> left, WireId<Boolean> right) override { return mine()->privateAndPrivate(left, right); }
  WireId<Boolean> privateAndPrivateBatch(WireId<Boolean> left, WireId<Boolean> right) override { return mine()->privateAndPrivateBatch(left, right); }
  WireId<Boolean> privateAndPublic(WireId<Boolean> left, WireId<Boolean> right) override { return mine()->privateAndPublic(left, right); }
  WireId<Boolean> privateAndPublicBatch(WireId<Boolean> left, WireId<Boolean> right) override { return mine()->privateAndPublicBatch(left, right); }
  WireId<Boolean> publicAndPublic(WireId<Boolean> left, WireId<Boolean> right) override { return mine()->publicAndPublic(left, right); }
  WireId<Boolean> publicAndPublicBatch(WireId<Boolean> left, WireId<Boolean> right) override { return mine()->publicAndPublicBatch(left, right); }
  std::vector<WireId<Boolean>> privateAndPrivateComposite(WireId<Boolean> left, std::vector<WireId<Boolean>> rights) override { return mine()->privateAndPrivateComposite(left, rights); }
  std::vector<WireId<Boolean>> privateAndPrivateCompositeBatch(WireId<Boolean> left, std::vector<WireId<Boolean>> rights) override { return mine()->privateAndPrivateCompositeBatch(left, rights); }
  std::vector<WireId<Boolean>> privateAndPublicComposite(WireId<Boolean> left, std::vector<WireId<Boolean>> rights) override { return mine()->privateAndPublicComposite(left, rights); }
  std::vector<WireId<Boolean>> privateAndPublicCompositeBatch(WireId<Boolean> left, std::vector<WireId<Boolean>> rights) override { return mine()->privateAndPublicCompositeBatch(left, rights); }
  std::vector<WireId<Boolean>> publicAndPublicComposite(WireId<Boolean> left, std::vector<WireId<Boolean>> rights) override { return mine()->publicAndPublicComposite(left, rights); }
  std::vector<WireId<Boolean>> publicAndPublicCompositeBatch(WireId<Boolean> left, std::vector<WireId<Boolean>> rights) override { return mine()->publicAndPublicCompositeBatch(left, rights); }
  WireId<Boolean> privateXorPrivate(WireId<Boolean> left, WireId<Boolean> right) override { return mine()->privateXorPrivate(left, right); }
  WireId<Boolean> privateXorPrivateBatch(WireId<Boolean> left, WireId<Boolean> right) override { return mine()->privateXorPrivateBatch(left, right); }
  WireId<Boolean> privateXorPublic(WireId<Boolean> left, WireId<Boolean> right) override { return mine()->privateXorPublic(left, right); }
  WireId<Boolean> privateXorPublicBatch(WireId<Boolean> left, WireId<Boolean> right) override { return mine()->privateXorPublicBatch(left, right); }
  WireId<Boolean> publicXorPublic(WireId<Boolean> left, WireId<Boolean> right) override { return mine()->publicXorPublic(left, right); }
  WireId<Boolean> publicXorPublicBatch(WireId<Boolean> left, WireId<Boolean> right) override { return mine()->publicXorPublicBatch(left, right); }
  WireId<Boolean> notPrivate(WireId<Boolean> src) override { return mine()->notPrivate(src); }
  WireId<Boolean> notPrivateBatch(WireId<Boolean> src) override { return mine()->notPrivateBatch(src); }
  WireId<Boolean> notPublic(WireId<Boolean> src) override { return mine()->notPublic(src); }
  WireId<Boolean> notPublicBatch(WireId<Boolean> src) override { return mine()->notPublicBatch(src); }
  void increaseReferenceCount(WireId<Boolean> src) override { return mine()->increaseReferenceCount(src); }
  void increaseReferenceCountBatch(WireId<Boolean> src) override { return mine()->increaseReferenceCountBatch(src); }
  void decreaseReferenceCount(WireId<Boolean> id) override { return mine()->decreaseReferenceCount(id); }
  void decreaseReferenceCountBatch(WireId<Boolean> id) override { return mine()->decreaseReferenceCountBatch(id); }
  WireId<Boolean> batchingUp(std::vector<WireId<Boolean>> src) override { return mine()->batchingUp(src); }
  std::vector<WireId<Boolean>> unbatching(WireId<Boolean> src, std::shared_ptr<std::vector<uint32_t>> unbatchingStrategy) override { return mine()->unbatching(src, unbatchingStrategy); }
  std::pair<uint64_t, uint64_t> getTrafficStatistics() const override { return mine()->getTrafficStatistics(); }
  std::pair<uint64_t, uint64_t> getWireStatistics() const override { return mine()->getWireStatistics(); }
  size_t getBatchSize(IScheduler::WireId<IScheduler::Boolean> id) const override { return mine()->getBatchSize(id); }
  size_t getBatchSize(IScheduler::WireId<IScheduler::Arithmetic> id) const override { return mine()->getBatchSize(id); }
  void deleteEngine() override { return mine()->deleteEngine(); }
};
} // namespace vh
