// Stand-in for google::cloud::storage::Client acting on cloud_world::world().
#pragma once
#include <iostream>
#include <memory>
#include <optional>
#include <sstream>
#include <fstream>
#include <string>
#include "cloud_world.h"
namespace google::cloud {
class Status {
 public:
  Status() {}
  explicit Status(std::string m) : ok_(false), m_(std::move(m)) {}
  bool ok() const { return ok_; }
  const std::string& message() const { return m_; }
 private:
  bool ok_ = true;
  std::string m_;
};
template <class T> class StatusOr {
 public:
  StatusOr() : s_("unknown") {}
  StatusOr(const Status& s) : s_(s) {}
  StatusOr(T v) : v_(std::move(v)) {}
  bool ok() const { return v_.has_value(); }
  explicit operator bool() const { return ok(); }
  const Status& status() const { return s_; }
  T& operator*() { return *v_; }
  const T& operator*() const { return *v_; }
  T* operator->() { return &*v_; }
  const T* operator->() const { return &*v_; }
  T& value() { return *v_; }
 private:
  std::optional<T> v_;
  Status s_;
};
}
namespace google::cloud::storage {
class ObjectMetadata {
 public:
  ObjectMetadata() {}
  explicit ObjectMetadata(std::uint64_t n) : n_(n) {}
  std::uint64_t size() const { return n_; }
 private:
  std::uint64_t n_ = 0;
};
struct ReadRange {  // the half-open interval [begin, end)
  ReadRange() {}
  ReadRange(std::int64_t b, std::int64_t e) : begin(b), end(e), set(true) {}
  std::int64_t begin = 0, end = 0;
  bool set = false;
};
struct ContentType { explicit ContentType(std::string) {} };

class ObjectReadStream : public std::istream {
 public:
  ObjectReadStream() : std::istream(nullptr) {}
  ObjectReadStream(Status s, std::string body) : std::istream(nullptr), b_(std::make_unique<std::stringbuf>(body, std::ios::in)), s_(s) {
    rdbuf(b_.get());
    if (!s.ok()) setstate(std::ios::badbit);
  }
  ObjectReadStream(ObjectReadStream&& o) : std::istream(nullptr), b_(std::move(o.b_)), s_(o.s_) {
    auto st = o.rdstate();
    o.set_rdbuf(nullptr);
    rdbuf(b_.get());
    setstate(st & ~std::ios::goodbit);
  }
  const Status& status() const { return s_; }
 private:
  std::unique_ptr<std::stringbuf> b_;
  Status s_;
};

// a resumable upload: bytes are flushed to the service as they are written; the first failing flush
// is sticky, and the object appears only when Close() succeeds
class ObjectWriteStream : public std::ostream {
  struct Buf : std::streambuf {
    std::string object, id;
    Status last;
    bool open = true, done = false;
    std::string staged;
    std::streamsize xsputn(const char* p, std::streamsize n) override {
      if (!open || !last.ok()) return 0;
      auto& w = cloud_world::world();
      bool f = w.fails("write");
      w.note("write", object, id, !f);
      if (!f && !w.uploads.count(id)) f = true;
      if (f) { last = Status("upload failed"); return 0; }
      staged.append(p, n);
      return n;
    }
    int overflow(int c) override { if (c == EOF) return 0; char ch = (char)c; return xsputn(&ch, 1) == 1 ? c : EOF; }
  };
 public:
  ObjectWriteStream() : std::ostream(nullptr), b_(std::make_unique<Buf>()) { b_->open = false; b_->last = Status("default"); rdbuf(b_.get()); }
  explicit ObjectWriteStream(const std::string& object) : std::ostream(nullptr), b_(std::make_unique<Buf>()) {
    auto& w = cloud_world::world();
    bool f = w.fails("start");
    w.note("start", object, "", !f);
    b_->object = object;
    if (f) { b_->last = Status("cannot start"); }
    else { b_->id = "session-" + std::to_string(w.next++); w.uploads[b_->id].object = object; }
    rdbuf(b_.get());
    if (f) setstate(std::ios::badbit);
  }
  ObjectWriteStream(ObjectWriteStream&& o) : std::ostream(nullptr), b_(std::move(o.b_)), meta_(std::move(o.meta_)) { auto st = o.rdstate(); rdbuf(b_.get()); setstate(st & ~std::ios::goodbit); }
  ObjectWriteStream& operator=(ObjectWriteStream&& o) {
    if (b_ && b_->open) Close();
    auto st = o.rdstate();
    b_ = std::move(o.b_);
    meta_ = std::move(o.meta_);
    rdbuf(b_.get());
    clear();
    setstate(st & ~std::ios::goodbit);
    return *this;
  }
  ~ObjectWriteStream() override { if (b_ && b_->open) Close(); }
  const Status& last_status() const { return b_->last; }
  const std::string& resumable_session_id() const { return b_->id; }
  void Close() {
    if (!b_ || !b_->open) return;
    b_->open = false;
    auto& w = cloud_world::world();
    if (!b_->last.ok()) { meta_ = StatusOr<ObjectMetadata>(b_->last); setstate(std::ios::badbit); return; }
    bool f = w.fails("finish");
    w.note("finish", b_->object, b_->id, !f);
    if (!f && !w.uploads.count(b_->id)) f = true;
    if (f) { b_->last = Status("cannot finish"); meta_ = StatusOr<ObjectMetadata>(b_->last); setstate(std::ios::badbit); return; }
    w.objects[b_->object] = b_->staged;
    w.uploads.erase(b_->id);
    meta_ = StatusOr<ObjectMetadata>(ObjectMetadata(b_->staged.size()));
  }
  StatusOr<ObjectMetadata> const& metadata() const& { return meta_; }
  StatusOr<ObjectMetadata>&& metadata() && { return std::move(meta_); }
 private:
  std::unique_ptr<Buf> b_;
  StatusOr<ObjectMetadata> meta_;
};

class Client {
 public:
  virtual ~Client() {}
  virtual ObjectReadStream ReadObject(const std::string& bucket, const std::string& key, const ReadRange& r = ReadRange()) {
    auto& w = cloud_world::world();
    std::string o = bucket + "/" + key;
    bool f = w.fails("get");
    w.note("get", o, r.set ? std::to_string(r.begin) + "-" + std::to_string(r.end) : "", !f);
    if (f) return ObjectReadStream(Status("unavailable"), "");
    auto it = w.objects.find(o);
    if (it == w.objects.end()) return ObjectReadStream(Status("not found"), "");
    std::string body = it->second;
    if (r.set) {
      if (r.begin >= 0 && r.end > r.begin && r.end <= (std::int64_t)w.lead && r.end - r.begin <= 4096)  // a small piece of the lead
        return ObjectReadStream(Status(), std::string(r.end - r.begin, '\0'));
      if (r.begin < (std::int64_t)w.lead || r.end <= r.begin || r.begin - w.lead >= body.size()) return ObjectReadStream(Status("out of range"), "");
      size_t from = r.begin - w.lead, n = std::min<size_t>(r.end - w.lead, body.size()) - from;
      if (w.readLimit) n = std::min(n, w.readLimit);
      body = body.substr(from, n);
    }
    return ObjectReadStream(Status(), body);
  }
  virtual ObjectWriteStream WriteObject(const std::string& bucket, const std::string& key) { return ObjectWriteStream(bucket + "/" + key); }
  ObjectWriteStream WriteObject(const std::string& bucket, const std::string& key, const ContentType&) { return ObjectWriteStream(bucket + "/" + key); }
  virtual StatusOr<ObjectMetadata> GetObjectMetadata(const std::string& bucket, const std::string& key) {
    auto& w = cloud_world::world();
    std::string o = bucket + "/" + key;
    bool f = w.fails("head");
    w.note("head", o, "", !f);
    if (f) return Status("unavailable");
    auto it = w.objects.find(o);
    if (it == w.objects.end()) return Status("not found");
    return ObjectMetadata(w.lead + it->second.size());
  }
  virtual StatusOr<ObjectMetadata> UploadFile(const std::string& src, const std::string& bucket, const std::string& key) {
    auto& w = cloud_world::world();
    std::string o = bucket + "/" + key;
    bool f = w.fails("put");
    w.note("put", o, src, !f);
    if (f) return Status("unavailable");
    std::ifstream in(src, std::ios::binary);
    if (!in.is_open()) return Status("cannot open the file");
    std::stringstream s;
    s << in.rdbuf();
    w.objects[o] = s.str();
    return ObjectMetadata(w.objects[o].size());
  }
  virtual Status DeleteResumableUpload(const std::string& id) {
    auto& w = cloud_world::world();
    bool f = w.fails("abort");
    w.note("abort", "", id, !f);
    if (f) return Status("unavailable");
    if (!w.uploads.erase(id)) return Status("no such session");
    return Status();
  }
};
}
