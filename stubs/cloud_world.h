// The two storage services as an in-memory world: named objects, multipart/resumable uploads and a
// script that decides which request fails. Shared by the aws and google stand-ins.
#pragma once
#include <functional>
#include <map>
#include <string>
#include <vector>
namespace cloud_world {
struct Upload { std::string object; std::map<int, std::pair<std::string, std::string>> parts; };  // number -> (tag, bytes)
struct World {
  std::map<std::string, std::string> objects;      // "<bucket>/<key>" (S3: "<region>:<bucket>/<key>")
  std::map<std::string, Upload> uploads;           // multipart uploads that are neither completed nor aborted
  // 0: the request succeeds; 1: it fails without effect; 2: it takes effect but its reply is lost (S3 only)
  std::function<int(const std::string& op)> fate = [](const std::string&) { return 0; };
  bool fails(const std::string& op) { return fate(op) != 0; }
  std::function<void(const std::string& op, const std::string& object, const std::string& detail, bool ok)> note =
      [](const std::string&, const std::string&, const std::string&, bool) {};
  std::size_t readLimit = 0;                       // > 0: the service returns at most this many bytes per ranged read
  unsigned long long lead = 0;                     // so many zero bytes come before the stored bytes of every object
  int next = 1;
  std::vector<std::string> regions;                // regions of the S3 clients made
};
inline World& world() { static World w; return w; }
}
