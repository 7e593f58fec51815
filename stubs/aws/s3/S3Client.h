// Stand-in for Aws::S3::S3Client: the requests act on cloud_world::world().
#pragma once
#include <optional>
#include "aws/core/Aws.h"
#include "aws/core/auth/AWSCredentials.h"
#include "aws/core/client/ClientConfiguration.h"
#include "cloud_world.h"
namespace Aws::S3 {
class S3Error {
 public:
  S3Error() {}
  explicit S3Error(std::string m) : m_(std::move(m)) {}
  const Aws::String& GetMessage() const { return m_; }
 private:
  Aws::String m_;
};
inline std::ostream& operator<<(std::ostream& o, const S3Error& e) { return o << e.GetMessage(); }
template <class R> class Outcome {
 public:
  Outcome() : ok_(false) {}
  Outcome(const R& r) : r_(r), ok_(true) {}
  Outcome(R&& r) : r_(std::move(r)), ok_(true) {}
  Outcome(const S3Error& e) : e_(e), ok_(false) {}
  bool IsSuccess() const { return ok_; }
  const R& GetResult() const { return r_; }
  R& GetResult() { return r_; }
  R&& GetResultWithOwnership() { return std::move(r_); }
  const S3Error& GetError() const { return e_; }
 private:
  R r_;
  S3Error e_;
  bool ok_;
};
namespace Model {
struct Keyed {
  void SetBucket(const Aws::String& b) { bucket = b; }
  void SetKey(const Aws::String& k) { key = k; }
  const Aws::String& GetBucket() const { return bucket; }
  const Aws::String& GetKey() const { return key; }
  Aws::String bucket, key;
};
struct WithUpload : Keyed {
  void SetUploadId(const Aws::String& u) { uploadId = u; }
  const Aws::String& GetUploadId() const { return uploadId; }
  Aws::String uploadId;
};
struct GetObjectRequest : Keyed {
  void SetRange(const Aws::String& r) { range = r; hasRange = true; }
  const Aws::String& GetRange() const { return range; }
  bool RangeHasBeenSet() const { return hasRange; }
  Aws::String range;
  bool hasRange = false;
};
struct HeadObjectRequest : Keyed {};
struct PutObjectRequest : Keyed {
  void SetBody(const std::shared_ptr<Aws::IOStream>& b) { body = b; }
  const std::shared_ptr<Aws::IOStream>& GetBody() const { return body; }
  std::shared_ptr<Aws::IOStream> body;
};
struct CreateMultipartUploadRequest : Keyed { void SetContentType(const Aws::String&) {} };
struct UploadPartRequest : WithUpload {
  void SetPartNumber(int n) { part = n; }
  int GetPartNumber() const { return part; }
  void SetContentLength(long long n) { length = n; }
  void SetBody(const std::shared_ptr<Aws::IOStream>& b) { body = b; }
  const std::shared_ptr<Aws::IOStream>& GetBody() const { return body; }
  int part = 0;
  long long length = -1;
  std::shared_ptr<Aws::IOStream> body;
};
struct AbortMultipartUploadRequest : WithUpload {};
class CompletedPart {
 public:
  void SetPartNumber(int n) { n_ = n; }
  int GetPartNumber() const { return n_; }
  void SetETag(const Aws::String& t) { t_ = t; }
  const Aws::String& GetETag() const { return t_; }
 private:
  int n_ = 0;
  Aws::String t_;
};
class CompletedMultipartUpload {
 public:
  CompletedMultipartUpload& WithParts(const Aws::Vector<CompletedPart>& p) { p_ = p; return *this; }
  void SetParts(const Aws::Vector<CompletedPart>& p) { p_ = p; }
  CompletedMultipartUpload& AddParts(const CompletedPart& p) { p_.push_back(p); return *this; }
  const Aws::Vector<CompletedPart>& GetParts() const { return p_; }
 private:
  Aws::Vector<CompletedPart> p_;
};
struct CompleteMultipartUploadRequest : WithUpload {
  void SetMultipartUpload(const CompletedMultipartUpload& m) { parts = m; }
  CompletedMultipartUpload parts;
};
class GetObjectResult {
 public:
  GetObjectResult() : body_(std::make_unique<Aws::StringStream>()) {}
  GetObjectResult(const GetObjectResult& o) : GetObjectResult() { *body_ << o.body_->rdbuf(); }
  GetObjectResult(GetObjectResult&&) = default;
  GetObjectResult& operator=(GetObjectResult&&) = default;
  void Fill(const std::string& s) { body_ = std::make_unique<Aws::StringStream>(s); }
  Aws::IOStream& GetBody() const { return *body_; }
  long long GetContentLength() const { return (long long)body_->str().size(); }
 private:
  std::unique_ptr<Aws::StringStream> body_;
};
class HeadObjectResult {
 public:
  long long GetContentLength() const { return n; }
  long long n = 0;
};
struct PutObjectResult {};
class CreateMultipartUploadResult {
 public:
  const Aws::String& GetUploadId() const { return id; }
  Aws::String id;
};
class UploadPartResult {
 public:
  const Aws::String& GetETag() const { return tag; }
  Aws::String tag;
};
struct CompleteMultipartUploadResult {};
struct AbortMultipartUploadResult {};
using GetObjectOutcome = Outcome<GetObjectResult>;
using HeadObjectOutcome = Outcome<HeadObjectResult>;
using PutObjectOutcome = Outcome<PutObjectResult>;
using CreateMultipartUploadOutcome = Outcome<CreateMultipartUploadResult>;
using UploadPartOutcome = Outcome<UploadPartResult>;
using CompleteMultipartUploadOutcome = Outcome<CompleteMultipartUploadResult>;
using AbortMultipartUploadOutcome = Outcome<AbortMultipartUploadResult>;
}  // namespace Model

class S3Client {
 public:
  S3Client() : S3Client(Aws::Client::ClientConfiguration{}) {}
  explicit S3Client(const Aws::Client::ClientConfiguration& c) : config_(c) { cloud_world::world().regions.push_back(c.region); }
  S3Client(const Aws::Auth::AWSCredentials& cr, const Aws::Client::ClientConfiguration& c) : S3Client(c) { credentials_ = cr; }
  virtual ~S3Client() {}
  const Aws::Client::ClientConfiguration& config() const { return config_; }
  const std::optional<Aws::Auth::AWSCredentials>& credentials() const { return credentials_; }

  virtual Model::GetObjectOutcome GetObject(const Model::GetObjectRequest& r) const {
    auto& w = cloud_world::world();
    std::string o = name(r), range = r.GetRange();
    if (bad("get", o, range)) return err("InternalError");
    auto it = w.objects.find(o);
    if (it == w.objects.end()) return err("NoSuchKey");
    std::string body = it->second;
    unsigned long long a, b;
    // "bytes=a-b" is the closed interval [a, b]; a syntactically invalid range is ignored
    if (sscanf(range.c_str(), "bytes=%llu-%llu", &a, &b) == 2 && a <= b) {
      if (a >= w.lead + body.size()) return err("InvalidRange");
      if (w.lead) {
        if (a < w.lead) {  // only small pieces of the lead are ever served
          if (b - a > 4096) return err("SlowDown");
          Model::GetObjectResult zeros;
          zeros.Fill(std::string(b - a + 1, '\0'));
          return Model::GetObjectOutcome(std::move(zeros));
        }
        a -= w.lead;
        b -= w.lead;
      }
      unsigned long long n = std::min<unsigned long long>(b, body.size() - 1) - a + 1;
      if (w.readLimit) n = std::min<unsigned long long>(n, w.readLimit);
      body = body.substr(a, n);
    }
    Model::GetObjectResult res;
    res.Fill(body);
    return Model::GetObjectOutcome(std::move(res));
  }
  virtual Model::HeadObjectOutcome HeadObject(const Model::HeadObjectRequest& r) const {
    auto& w = cloud_world::world();
    std::string o = name(r);
    if (bad("head", o, "")) return err("InternalError");
    auto it = w.objects.find(o);
    if (it == w.objects.end()) return err("NotFound");
    Model::HeadObjectResult res;
    res.n = (long long)(w.lead + it->second.size());
    return Model::HeadObjectOutcome(res);
  }
  virtual Model::PutObjectOutcome PutObject(const Model::PutObjectRequest& r) const {
    std::string o = name(r);
    if (bad("put", o, "")) return err("InternalError");
    cloud_world::world().objects[o] = drain(r.GetBody());
    return Model::PutObjectOutcome(Model::PutObjectResult{});
  }
  virtual Model::CreateMultipartUploadOutcome CreateMultipartUpload(const Model::CreateMultipartUploadRequest& r) const {
    auto& w = cloud_world::world();
    std::string o = name(r);
    if (bad("create", o, "")) return err("InternalError");
    Model::CreateMultipartUploadResult res;
    res.id = "upload-" + std::to_string(w.next++);
    w.uploads[res.id].object = o;
    return Model::CreateMultipartUploadOutcome(res);
  }
  virtual Model::UploadPartOutcome UploadPart(const Model::UploadPartRequest& r) const {
    auto& w = cloud_world::world();
    std::string o = name(r);
    std::string body = drain(r.GetBody());  // the SDK sends the body from its start on every call
    int f = fate("part", o, r.GetUploadId());
    if (f == 1) return err("InternalError");
    auto it = w.uploads.find(r.GetUploadId());
    if (it == w.uploads.end() || it->second.object != o) return err("NoSuchUpload");
    if (r.length >= 0 && (size_t)r.length != body.size()) return err("IncompleteBody");
    if (r.GetPartNumber() < 1 || r.GetPartNumber() > 10000) return err("InvalidPartNumber");
    Model::UploadPartResult res;
    res.tag = "tag-" + std::to_string(w.next++);
    it->second.parts[r.GetPartNumber()] = {res.tag, body};
    if (f == 2) return err("RequestTimeout");
    return Model::UploadPartOutcome(res);
  }
  virtual Model::CompleteMultipartUploadOutcome CompleteMultipartUpload(const Model::CompleteMultipartUploadRequest& r) const {
    auto& w = cloud_world::world();
    std::string o = name(r), all;
    int f = fate("complete", o, r.GetUploadId());
    if (f == 1) return err("InternalError");
    auto it = w.uploads.find(r.GetUploadId());
    if (it == w.uploads.end() || it->second.object != o) return err("NoSuchUpload");
    int last = 0;
    const auto& ps = r.parts.GetParts();
    if (ps.empty()) return err("MalformedXML");
    for (size_t i = 0; i < ps.size(); i++) {
      auto p = it->second.parts.find(ps[i].GetPartNumber());
      if (p == it->second.parts.end() || p->second.first != ps[i].GetETag()) return err("InvalidPart");
      if (ps[i].GetPartNumber() <= last) return err("InvalidPartOrder");
      last = ps[i].GetPartNumber();
      all += p->second.second;
    }
    w.objects[o] = all;
    w.uploads.erase(it);
    if (f == 2) return err("RequestTimeout");
    return Model::CompleteMultipartUploadOutcome(Model::CompleteMultipartUploadResult{});
  }
  virtual Model::AbortMultipartUploadOutcome AbortMultipartUpload(const Model::AbortMultipartUploadRequest& r) const {
    auto& w = cloud_world::world();
    std::string o = name(r);
    int f = fate("abort", o, r.GetUploadId());
    if (f == 1) return err("InternalError");
    auto it = w.uploads.find(r.GetUploadId());
    if (it == w.uploads.end()) return err("NoSuchUpload");
    w.uploads.erase(it);
    if (f == 2) return err("RequestTimeout");
    return Model::AbortMultipartUploadOutcome(Model::AbortMultipartUploadResult{});
  }

 private:
  Aws::Client::ClientConfiguration config_;
  std::optional<Aws::Auth::AWSCredentials> credentials_;
  static S3Error err(const char* m) { return S3Error(m); }
  std::string name(const Model::Keyed& k) const { return config_.region + ":" + k.bucket + "/" + k.key; }
  static int fate(const std::string& op, const std::string& o, const std::string& d) {
    auto& w = cloud_world::world();
    int f = w.fate(op);
    w.note(op, o, d, f == 0);
    return f;
  }
  static bool bad(const std::string& op, const std::string& o, const std::string& d) { return fate(op, o, d) != 0; }
  static std::string drain(const std::shared_ptr<Aws::IOStream>& b) {
    if (!b) return "";
    b->clear();
    b->seekg(0);
    std::stringstream s;
    s << b->rdbuf();
    return s.str();
  }
};
}  // namespace Aws::S3
