#pragma once
#include "aws/core/Aws.h"
namespace Aws::Auth {
class AWSCredentials {
 public:
  AWSCredentials(const Aws::String& id, const Aws::String& key) : id_(id), key_(key) {}
  const Aws::String& GetAWSAccessKeyId() const { return id_; }
  const Aws::String& GetAWSSecretKey() const { return key_; }
 private:
  Aws::String id_, key_;
};
}
