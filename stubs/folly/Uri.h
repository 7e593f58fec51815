#pragma once
#include <string>
#include <stdexcept>
#include <algorithm>
namespace folly {
// scheme://authority/path?query#fragment, as folly::Uri exposes it (scheme lower-cased)
class Uri {
 public:
  explicit Uri(const std::string& s) {
    auto c = s.find(':');
    if (c == std::string::npos) throw std::invalid_argument("invalid URI " + s);
    scheme_ = s.substr(0, c);
    for (char x : scheme_) if (!isalnum((unsigned char)x) && x!='+' && x!='-' && x!='.') throw std::invalid_argument("invalid URI " + s);
    std::transform(scheme_.begin(), scheme_.end(), scheme_.begin(), ::tolower);
    std::string rest = s.substr(c + 1);
    if (auto f = rest.find('#'); f != std::string::npos) rest = rest.substr(0, f);
    if (auto q = rest.find('?'); q != std::string::npos) rest = rest.substr(0, q);
    if (rest.rfind("//", 0) == 0) {
      rest = rest.substr(2);
      auto sl = rest.find('/');
      host_ = rest.substr(0, sl);
      path_ = sl == std::string::npos ? "" : rest.substr(sl);
      if (auto at = host_.find('@'); at != std::string::npos) host_ = host_.substr(at + 1);
      if (auto p = host_.find(':'); p != std::string::npos) host_ = host_.substr(0, p);
    } else path_ = rest;
  }
  const std::string& scheme() const { return scheme_; }
  const std::string& host() const { return host_; }
  const std::string& path() const { return path_; }
 private:
  std::string scheme_, host_, path_;
};
}
