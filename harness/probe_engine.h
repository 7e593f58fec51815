// An engine that notes every exchange it is asked for and otherwise leaves the work to a real one.
#pragma once
#include <memory>
#include <string>
#include <vector>
#include "fbpcf/engine/ISecretShareEngine.h"

namespace vh {

class ProbeEngine final : public fbpcf::engine::ISecretShareEngine {
 public:
  ProbeEngine(std::unique_ptr<fbpcf::engine::ISecretShareEngine> e, std::vector<std::string>& log) : e_(std::move(e)), log_(log) {}
  bool setInput(int id, std::optional<bool> v) override { return e_->setInput(id, v); }
  uint64_t setIntegerInput(int id, std::optional<uint64_t> v) override { return e_->setIntegerInput(id, v); }
  std::vector<bool> setBatchInput(int id, const std::vector<bool>& v) override { return e_->setBatchInput(id, v); }
  std::vector<uint64_t> setBatchIntegerInput(int id, const std::vector<uint64_t>& v) override { return e_->setBatchIntegerInput(id, v); }
  bool computeSymmetricXOR(bool left, bool right) const override { return e_->computeSymmetricXOR(left, right); }
  std::vector<bool> computeBatchSymmetricXOR(const std::vector<bool>& left, const std::vector<bool>& right) const override { return e_->computeBatchSymmetricXOR(left, right); }
  uint64_t computeSymmetricPlus(uint64_t left, uint64_t right) const override { return e_->computeSymmetricPlus(left, right); }
  std::vector<uint64_t> computeBatchSymmetricPlus(const std::vector<uint64_t>& left, const std::vector<uint64_t>& right) const override { return e_->computeBatchSymmetricPlus(left, right); }
  bool computeAsymmetricXOR(bool left, bool right) const override { return e_->computeAsymmetricXOR(left, right); }
  std::vector<bool> computeBatchAsymmetricXOR(const std::vector<bool>& left, const std::vector<bool>& right) const override { return e_->computeBatchAsymmetricXOR(left, right); }
  uint64_t computeAsymmetricPlus(uint64_t privateValue, uint64_t publicValue) const override { return e_->computeAsymmetricPlus(privateValue, publicValue); }
  std::vector<uint64_t> computeBatchAsymmetricPlus(const std::vector<uint64_t>& privateValue, const std::vector<uint64_t>& publicValue) const override { return e_->computeBatchAsymmetricPlus(privateValue, publicValue); }
  bool computeSymmetricNOT(bool input) const override { return e_->computeSymmetricNOT(input); }
  std::vector<bool> computeBatchSymmetricNOT(const std::vector<bool>& input) const override { return e_->computeBatchSymmetricNOT(input); }
  uint64_t computeSymmetricNeg(uint64_t input) const override { return e_->computeSymmetricNeg(input); }
  std::vector<uint64_t> computeBatchSymmetricNeg(const std::vector<uint64_t>& input) const override { return e_->computeBatchSymmetricNeg(input); }
  bool computeAsymmetricNOT(bool input) const override { return e_->computeAsymmetricNOT(input); }
  std::vector<bool> computeBatchAsymmetricNOT(const std::vector<bool>& input) const override { return e_->computeBatchAsymmetricNOT(input); }
  bool computeFreeAND(bool left, bool right) const override { return e_->computeFreeAND(left, right); }
  std::vector<bool> computeBatchFreeAND(const std::vector<bool>& left, const std::vector<bool>& right) const override { return e_->computeBatchFreeAND(left, right); }
  uint64_t computeFreeMult(uint64_t left, uint64_t right) const override { return e_->computeFreeMult(left, right); }
  std::vector<uint64_t> computeBatchFreeMult(const std::vector<uint64_t>& left, const std::vector<uint64_t>& right) const override { return e_->computeBatchFreeMult(left, right); }
  uint32_t scheduleAND(bool left, bool right) override { sched_ += 1; return e_->scheduleAND(left, right); }
  uint32_t scheduleBatchAND(const std::vector<bool>& left, const std::vector<bool>& right) override { sched_ += left.size(); return e_->scheduleBatchAND(left, right); }
  uint32_t scheduleCompositeAND(bool left, std::vector<bool> rights) override { sched_ += rights.size(); return e_->scheduleCompositeAND(left, rights); }
  uint32_t scheduleBatchCompositeAND(const std::vector<bool>& left, const std::vector<std::vector<bool>>& rights) override { sched_ += left.size() * rights.size(); return e_->scheduleBatchCompositeAND(left, rights); }
  uint32_t scheduleMult(uint64_t left, uint64_t right) override { sched_ += 1; return e_->scheduleMult(left, right); }
  uint32_t scheduleBatchMult(const std::vector<uint64_t>& left, const std::vector<uint64_t>& right) override { sched_ += left.size(); return e_->scheduleBatchMult(left, right); }
  std::vector<bool> computeBatchANDImmediately(const std::vector<bool>& left, const std::vector<bool>& right) override { note("x", -1, left.size()); return e_->computeBatchANDImmediately(left, right); }
  std::vector<uint64_t> computeBatchMultImmediately(const std::vector<uint64_t>& left, const std::vector<uint64_t>& right) override { note("x", -1, left.size()); return e_->computeBatchMultImmediately(left, right); }
  void executeScheduledOperations() override { if (sched_) note("x", -1, sched_); sched_ = 0; return e_->executeScheduledOperations(); }
  bool getANDExecutionResult(uint32_t index) const override { return e_->getANDExecutionResult(index); }
  const std::vector<bool>& getBatchANDExecutionResult(uint32_t index) const override { return e_->getBatchANDExecutionResult(index); }
  const std::vector<bool>& getCompositeANDExecutionResult(uint32_t index) const override { return e_->getCompositeANDExecutionResult(index); }
  const std::vector<std::vector<bool>>& getBatchCompositeANDExecutionResult(uint32_t index) const override { return e_->getBatchCompositeANDExecutionResult(index); }
  uint64_t getMultExecutionResult(uint32_t index) const override { return e_->getMultExecutionResult(index); }
  const std::vector<uint64_t>& getBatchMultExecutionResult(uint32_t index) const override { return e_->getBatchMultExecutionResult(index); }
  std::vector<bool> revealToParty(int id, const std::vector<bool>& output) const override { if (output.size()) note("b", id, output.size()); return e_->revealToParty(id, output); }
  std::vector<uint64_t> revealToParty(int id, const std::vector<uint64_t>& output) const override { if (output.size()) note("a", id, output.size()); return e_->revealToParty(id, output); }
  std::pair<uint64_t, uint64_t> getTrafficStatistics() const override { return e_->getTrafficStatistics(); }

  // one exchange: "x" multiplications, "b"/"a" revealing bits/integers to a party; number of elements
  void note(const char* what, int party, size_t n) const {
    log_.push_back("[\"" + std::string(what) + "\"," + std::to_string(party) + "," + std::to_string(n) + "]");
  }

 private:
  std::unique_ptr<fbpcf::engine::ISecretShareEngine> e_;
  std::vector<std::string>& log_;
  size_t sched_ = 0;
};

} // namespace vh
