#pragma once
#include "aws/core/Aws.h"
#include "aws/core/http/Scheme.h"
namespace Aws::Client {
struct ClientConfiguration {
  Aws::String region = "us-east-1";
  Aws::String proxyHost;
  unsigned proxyPort = 0;
  Aws::Http::Scheme proxyScheme = Aws::Http::Scheme::HTTP;
  Aws::String proxySSLCertPath;
};
}
