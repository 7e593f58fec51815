// Records uses of buffered file access (mode buf), of the cloud readers and writers against an in-memory
// storage service with scripted failures (mode cloud), and of the file managers and addresses (mode mgr).
#include <dirent.h>
#include <filesystem>
#include <fstream>
#include "common.h"
#include "cloud_world.h"
#include "fbpcf/aws/S3Util.h"
#include "fbpcf/gcp/GCSUtil.h"
#include "fbpcf/io/FileManagerUtil.h"
#include "fbpcf/io/GCSInputStream.h"
#include "fbpcf/io/IFileManager.h"
#include "fbpcf/io/GCSFileManager.h"
#include "fbpcf/io/LocalFileManager.h"
#include "fbpcf/io/S3FileManager.h"
#include "fbpcf/io/api/BufferedReader.h"
#include "fbpcf/io/api/BufferedWriter.h"
#include "fbpcf/io/api/CloudFileReader.h"
#include "fbpcf/io/api/FileIOWrappers.h"
#include "fbpcf/io/api/FileReader.h"
#include "fbpcf/io/api/FileWriter.h"
#include "fbpcf/io/api/LocalFileReader.h"
#include "fbpcf/io/api/LocalFileWriter.h"
#include "fbpcf/io/cloud_util/S3Client.h"

using namespace vh;
namespace io = fbpcf::io;
namespace fs = std::filesystem;

static std::string jstrs(const std::vector<std::string>& v) { return jmap(v, [](const std::string& s) { return jbytes(s); }); }
static std::string slurp(const std::string& p) {
  std::ifstream f(p, std::ios::binary);
  std::stringstream s;
  s << f.rdbuf();
  return s.str();
}
static void spit(const std::string& p, const std::string& c) { std::ofstream f(p, std::ios::binary); f << c; }
static std::string str(const std::vector<char>& v, size_t n) { return std::string(v.begin(), v.begin() + n); }

static std::string content(Rng& r, size_t n) {
  std::string s;
  int style = r.below(4);
  for (size_t i = 0; i < n; i++) {
    if (style == 0) s += (char)r.next();
    else if (r.chance(style == 1 ? 30 : 6)) s += '\n';
    else if (r.chance(8)) s += ",\r\t \0"[r.below(5)];
    else if (r.chance(10)) s += ',';
    else s += (char)('a' + r.below(26));
  }
  if (n && r.chance(30)) s[n - 1] = '\n';
  if (n > 1 && r.chance(15)) s[n - 2] = s[n - 1] = '\n';
  return s;
}

// a file served in pieces which may be shorter than asked for
class PieceReader : public io::IReaderCloser {
 public:
  PieceReader(std::string c, size_t most) : c_(std::move(c)), most_(most) { filepath_ = "pieces"; }
  int close() override { return 0; }
  bool eof() override { return pos_ >= c_.size(); }
  size_t read(std::vector<char>& b) override {
    size_t n = std::min({b.size(), most_, c_.size() - pos_});
    std::copy(c_.begin() + pos_, c_.begin() + pos_ + n, b.begin());
    pos_ += n;
    return n;
  }
 private:
  std::string c_;
  size_t most_, pos_ = 0;
};
// a file on a device with room for `room` bytes: writes past it are short or throw; close may fail too
class SmallDevice : public io::IWriterCloser {
 public:
  SmallDevice(std::string& sink, size_t room, int how) : sink_(sink), room_(room), how_(how) { filepath_ = "device"; }
  int close() override { return how_ == 2 && bad_ ? -1 : 0; }
  size_t write(std::vector<char>& b) override {
    size_t n = std::min(b.size(), room_ - sink_.size());
    sink_.append(b.begin(), b.begin() + n);
    if (n < b.size()) {
      bad_ = true;
      if (how_ == 0) throw std::runtime_error("device full");
      if (how_ == 2) return b.size();  // noticed only at close
    }
    return n;
  }
 private:
  std::string& sink_;
  size_t room_;
  int how_;
  bool bad_ = false;
};

static std::string dir() { return std::string(getenv("VERIF_SCRATCH")) + "/io"; }
static std::string path(int f) { return dir() + "/f" + std::to_string(f); }

static void readerEpisode(Rng& r, Trace& T, bool vast = false) {
  int nf = r.range(1, 2);
  std::vector<std::string> cs;
  std::vector<size_t> chunks;
  for (int f = 0; f < nf; f++) {
    size_t chunk = r.chance(12) ? (r.coin() ? 4096 : r.range(4097, 9000)) : r.range(1, 24);
    size_t n = r.chance(10) ? 0 : chunk >= 4096 ? (r.coin() ? chunk * r.range(1, 2) : r.range(3000, 9000)) : r.chance(30) ? chunk * r.range(1, 4) : r.range(1, 90);
    if (vast && f == 0) chunk = r.range(65537, 100000), n = r.range(66000, 140000);  // more than sixteen bits count
    cs.push_back(content(r, n));
    chunks.push_back(chunk);
    spit(path(f), cs[f]);
    T(Ev("put").f("f", f).raw("c", jbytes(cs[f])));
  }
  struct R { size_t left; std::unique_ptr<io::IReaderCloser> raw; std::unique_ptr<io::BufferedReader> buf; io::IReaderCloser& get() { return buf ? (io::IReaderCloser&)*buf : *raw; } };
  std::vector<R> rs;
  int nr = r.range(1, 3);
  for (int i = 0; i < nr; i++) {
    int f = r.below(nf), kind = r.below(5);
    if (vast && i == 0) f = 0, kind = 2;
    R x;
    x.left = cs[f].size();
    T(Ev("open").f("r", i).f("f", f));
    auto base = [&]() -> std::unique_ptr<io::IReaderCloser> {
      int w = r.below(3);
      if (w == 0) return std::make_unique<io::LocalFileReader>(path(f));
      if (w == 1) return std::make_unique<io::FileReader>(path(f));
      return std::make_unique<PieceReader>(cs[f], vast ? r.range(30000, 80000) : r.range(1, 30));
    };
    if (kind == 0) x.raw = r.coin() ? (std::unique_ptr<io::IReaderCloser>)std::make_unique<io::LocalFileReader>(path(f)) : std::make_unique<io::FileReader>(path(f));
    else if (kind == 1) x.buf = std::make_unique<io::BufferedReader>(base());
    else x.buf = std::make_unique<io::BufferedReader>(base(), chunks[f]);
    rs.push_back(std::move(x));
  }
  int steps = r.range(6, 40);
  for (int s = 0; s < steps; s++) {
    int i = r.below(nr);
    auto& x = rs[i];
    int w = r.below(10);
    try {
      if (w < 2) T(Ev("eof").f("r", i).f("out", x.get().eof()));
      else if (w < 6 && x.buf) {
        bool atEnd = x.buf->eof();
        std::string o;
        try { o = x.buf->readLine(); x.left -= std::min(x.left, o.size() + 1); T(Ev("line").f("r", i).raw("out", jbytes(o))); }
        catch (const std::exception&) { T(Ev("end").f("r", i)); }
        (void)atEnd;
      } else {
        if (x.raw && x.raw->eof()) { T(Ev("eof").f("r", i).f("out", true)); continue; }  // a bare reader is asked first
        size_t n = vast && r.chance(40) ? r.range(20000, 66000) : r.chance(15) ? r.range(40, 5000) : r.range(1, 30);
        if (r.chance(20) && x.left > 2) n = x.left - r.below(3);  // up to the last bytes of the file
        std::vector<char> b(n, (char)0x5a);
        size_t got = 0;
        bool ok = true;
        try { got = x.get().read(b); } catch (const std::exception&) { ok = false; }
        if (!ok) T(Ev("end").f("r", i));
        else if (got > b.size()) T(Ev("failed").f("r", i).f("got", got));
        else { x.left -= std::min(x.left, got); T(Ev("read").f("r", i).f("n", n).raw("out", jbytes(str(b, got)))); }
      }
    } catch (const std::exception& ex) { T(Ev("failed").f("what", ex.what())); }
  }
  for (int i = 0; i < nr; i++) T(Ev("close").f("rc", rs[i].get().close()));
}

static void writerEpisode(Rng& r, Trace& T, bool vast = false) {
  int fault = r.chance(45) ? r.range(1, 2) : 0;  // 1: a device which fills up; 2: the system's full device
  std::string sink, p = path(9);
  size_t chunk = r.chance(15) ? 4096 : r.range(1, 24);
  if (vast) fault = 0, chunk = r.range(65537, 90000);
  size_t room = r.chance(30) ? 0 : r.range(1, 80);
  if (r.chance(30)) p = dir() + "/sub" + std::to_string(r.below(1000)) + "/x/file";
  if (fault == 2) p = "/dev/full";
  std::unique_ptr<io::IWriterCloser> base;
  int how = r.below(3);
  if (fault == 1) base = std::make_unique<SmallDevice>(sink, room, how);
  else if (r.coin()) base = std::make_unique<io::LocalFileWriter>(p);
  else base = std::make_unique<io::FileWriter>(p);
  bool bare = !vast && r.chance(20);
  std::unique_ptr<io::BufferedWriter> bw;
  if (!bare) bw = vast || r.coin() ? std::make_unique<io::BufferedWriter>(std::move(base), chunk) : std::make_unique<io::BufferedWriter>(std::move(base));
  T(Ev("wopen").f("room", fault == 1 ? (int)room : fault == 2 ? 0 : -1));
  int steps = vast ? 5 : r.range(0, 12);
  bool dead = false;
  for (int s = 0; s < steps && !dead; s++) {
    std::string c = content(r, r.chance(10) ? 0 : vast && s < 4 ? r.range(15000, 40000) : r.chance(15) ? r.range(100, chunk == 4096 ? 6000 : 200) : r.range(1, 40));
    std::vector<char> v(c.begin(), c.end());
    size_t n = 0;
    bool ok = true;
    try { n = bare ? base->write(v) : r.coin() ? bw->write(v) : bw->writeString(c); } catch (const std::exception&) { ok = false; }
    T(Ev("write").raw("c", jbytes(c)).f("ok", ok && n == c.size()));
    dead = !ok || n != c.size();
  }
  int rc = 0;
  bool ok = true;
  try { rc = bare ? base->close() : bw->close(); } catch (const std::exception&) { ok = false; }
  T(Ev("wclose").f("ok", ok && rc == 0).raw("c", jbytes(fault == 1 ? sink : fault == 2 ? "" : slurp(p))));
  int again = 0;
  if (ok) {
    try { again = bare ? base->close() : bw->close(); } catch (const std::exception&) { again = 7; }
    if (fault == 0) T(Ev("close").f("rc", again));
  }
}

static void wrapperEpisode(Rng& r, Trace& T) {
  int steps = r.range(3, 9);
  for (int s = 0; s < steps; s++) {
    int f = r.below(3), g = r.below(3), w = r.below(8);
    size_t n = r.chance(12) ? 0 : r.chance(12) ? (r.coin() ? 4096 : r.range(4000, 9000)) : r.range(1, 80);
    bool ok = true;
    if (w == 0 || s < 3) {
      f = s < 3 ? s : f;
      auto c = content(r, n);
      if (r.coin()) { spit(path(f), c); T(Ev("put").f("f", f).raw("c", jbytes(c))); }
      else {
        try { io::FileIOWrappers::writeFile(path(f), c); } catch (const std::exception&) { ok = false; }
        T(Ev("writefile").f("f", f).f("ok", ok).raw("c", jbytes(c)).raw("now", jbytes(slurp(path(f)))));
      }
    } else if (w <= 2) {
      std::string o;
      try { o = io::FileIOWrappers::readFile(path(f)); } catch (const std::exception&) { ok = false; }
      T(Ev("readfile").f("f", f).f("ok", ok).raw("out", jbytes(o)));
    } else if (w == 3) {
      if (f == g) continue;
      try { io::FileIOWrappers::transferFileInParts(path(f), path(g)); } catch (const std::exception&) { ok = false; }
      T(Ev("transfer").f("f", f).f("g", g).f("ok", ok).raw("now", jbytes(slurp(path(g)))));
    } else if (w <= 5) {
      std::vector<std::string> header, rowHeader;
      std::vector<std::vector<std::string>> rows;
      int headers = 0;
      bool same = true;
      bool res = false;
      try {
        res = io::FileIOWrappers::readCsv(
            path(f),
            [&](const std::vector<std::string>& h, const std::vector<std::string>& row) { same = same && h == header; rows.push_back(row); },
            [&](const std::vector<std::string>& h) { header = h; headers++; });
      } catch (const std::exception&) { ok = false; }
      T(Ev("csv").f("f", f).f("ok", ok && res && same && headers == 1).raw("header", jstrs(header)).raw("rows", jmap(rows, jstrs)));
    } else if (w == 6) {
      // a source which is not there
      std::string o;
      bool a = true, b = true;
      try { io::FileIOWrappers::readFile(dir() + "/absent"); } catch (const std::exception&) { a = false; }
      try { io::FileReader x(dir() + "/absent/too"); } catch (const std::exception&) { b = false; }
      T(Ev("absent").f("ok", std::vector<int>{a, b}));
    } else {
      // a destination which takes nothing
      bool a = true, b = true;
      auto c = content(r, n ? n : 1);
      spit(path(f), c);
      T(Ev("put").f("f", f).raw("c", jbytes(c)));
      try { io::FileIOWrappers::writeFile("/dev/full", c); } catch (const std::exception&) { a = false; }
      try { io::FileIOWrappers::transferFileInParts(path(f), "/dev/full"); } catch (const std::exception&) { b = false; }
      T(Ev("full").f("f", f).f("ok", std::vector<int>{a, b}));
    }
  }
}

static void buf(Args& ar, Trace& T, Watchdog& wd) {
  Rng r(ar.seed * 1000 + ar.shard);
  fs::create_directories(dir());
  int eps = ar.thorough ? 900 : 220;
  for (int e = 0; e < eps; e++) {
    wd.tick();
    T(Ev("begin").f("n", e));
    int w = r.below(3);
    if (e == 0) readerEpisode(r, T, true);
    else if (e == 1) writerEpisode(r, T, true);
    else if (w == 0) readerEpisode(r, T);
    else if (w == 1) writerEpisode(r, T);
    else wrapperEpisode(r, T);
  }
}

#include "fileio_cloud.h"

int main(int c, char** v) {
  Args ar(c, v);
  Trace T(ar.out);
  Watchdog wd(T, 60);
  if (ar.mode == "buf") buf(ar, T, wd);
  else if (ar.mode == "cloud") cloud(ar, T, wd);
  else mgr(ar, T, wd);
  return 0;
}
