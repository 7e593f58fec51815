#pragma once
// ---- cloud readers and writers ---------------------------------------------------------------
struct Uploading final : io::IWriterCloser {
  std::unique_ptr<fbpcf::cloudio::IFileUploader> u;
  std::optional<int> rc;
  explicit Uploading(std::unique_ptr<fbpcf::cloudio::IFileUploader> x) : u(std::move(x)) {}
  size_t write(std::vector<char>& b) override { int n = u->upload(b); return n < 0 ? 0 : n; }
  int close() override { if (!rc) rc = u->complete(); return *rc; }
};
struct Obj { bool s3; std::string url, name; };
static Obj makeObj(Rng& r, int i) {
  bool s3 = r.coin();
  std::string b = r.coin() ? "bkt" : "my-bucket-7", k = (r.coin() ? "key" : "dir/sub/key") + std::to_string(i);
  if (s3) {
    std::string reg = r.coin() ? "us-west-2" : "eu-north-1";
    return {true, "https://" + b + (r.coin() ? ".s3." : ".s3-") + reg + ".amazonaws.com/" + k, reg + ":" + b + "/" + k};
  }
  int w = r.below(3);
  std::string u = w == 0 ? "https://storage.cloud.google.com/" + b + "/" + k : w == 1 ? "https://" + b + ".storage.googleapis.com/" + k : "https://storage.googleapis.com/" + b + "/" + k;
  return {false, u, b + "/" + k};
}

// vast: more parts, or more bytes, than small counters hold
static void cloudEpisode(Rng& r, Trace& T, bool vast = false) {
  auto& w = cloud_world::world();
  w.objects.clear();
  w.uploads.clear();
  int no = r.range(1, 3);
  std::vector<Obj> os;
  for (int i = 0; i < no; i++) os.push_back(makeObj(r, i));
  // the script of failures: how likely each kind of request fails, and for how many requests in a row
  std::map<std::string, int> likely;
  int run = r.range(1, 6), lost = r.chance(30) ? 40 : 0;
  if (!vast && r.chance(65)) {
    for (auto op : {"create", "start", "part", "write", "complete", "finish", "abort", "get", "head"})
      if (r.chance(op == std::string("part") ? 60 : op == std::string("abort") ? 40 : 18)) likely[op] = r.chance(30) ? 100 : r.range(10, 60);
  }
  std::map<std::string, int> left;
  w.fate = [&](const std::string& op) {
    int f = 0;
    if (left[op] > 0) { left[op]--; f = 1; }
    else if (likely.count(op) && r.chance(likely[op])) { left[op] = r.below(run); f = 1; }
    if (f && (op == "part" || op == "complete" || op == "abort") && r.chance(lost)) f = 2;
    return f;
  };
  int reqs = 0;
  w.note = [&](const std::string& op, const std::string&, const std::string&, bool ok) {
    T(Ev("req").f("op", op).f("ok", ok));
    if (++reqs > 20000) { T.flush(); _exit(86); }  // the code asks for ever
  };
  auto now = [&](int i) {
    std::vector<std::string> v;
    if (w.objects.count(os[i].name)) v.push_back(w.objects[os[i].name]);
    int pending = 0;
    for (auto& u : w.uploads) pending += u.second.object == os[i].name;
    return Ev("world").f("o", i).raw("c", jstrs(v)).f("pending", pending);
  };
  for (int i = 0; i < no; i++)
    if (r.coin()) {
      w.objects[os[i].name] = content(r, vast ? r.range(66000, 90000) : r.range(0, 60));
      T(Ev("object").f("o", i).raw("c", jbytes(w.objects[os[i].name])));
    }
  int rounds = vast ? 5 : r.range(1, 3);
  for (int round = 0; round < rounds; round++) {
    int i = r.below(no);
    const auto& o = os[i];
    if (r.chance(60)) {
      w.uploads.clear();  // an upload whose abort failed stays behind; not this one's
      T(Ev("wopen").f("o", i).f("s3", o.s3));
      std::unique_ptr<io::IWriterCloser> base;
      std::unique_ptr<io::BufferedWriter> bw;
      bool many = vast && round % 2 == 0, direct = r.chance(30);  // the uploader itself, without the writers around it
      try { if (direct) base = std::make_unique<Uploading>(fbpcf::cloudio::getCloudFileUploader(o.url)); else base = std::make_unique<io::FileWriter>(o.url); }
      catch (const std::exception&) { T(Ev("wrefused").f("o", i)); T(now(i)); continue; }
      bool bare = direct || many || r.coin();
      if (!bare) bw = std::make_unique<io::BufferedWriter>(std::move(base), r.range(1, 16));
      int steps = many ? r.range(257, 300) : r.range(0, 6);
      bool stop = false;
      for (int s = 0; s < steps && !stop; s++) {
        std::string c = content(r, r.range(bare ? 1 : 0, many ? 3 : 40));
        std::vector<char> v(c.begin(), c.end());
        size_t n = 0;
        bool ok = true;
        try { n = bare ? base->write(v) : r.coin() ? bw->write(v) : bw->writeString(c); } catch (const std::exception&) { ok = false; }
        ok = ok && n == c.size();
        T(Ev("write").raw("c", jbytes(c)).f("ok", ok));
        stop = !ok && r.coin();  // or carry on regardless
      }
      if (bare && stop && r.coin()) {  // given up after the failure, without a close
        base.reset();
        T(Ev("wdrop").f("o", i));
        T(now(i));
        continue;
      }
      int rc = -9;
      try { rc = bare ? base->close() : bw->close(); } catch (const std::exception&) {}
      if (r.coin()) { try { bare ? base->close() : bw->close(); } catch (const std::exception&) {} }
      bw.reset();
      base.reset();
      T(Ev("wclose").f("o", i).f("ok", rc == 0));
      T(now(i));
    } else {
      w.readLimit = !vast && r.chance(40) ? r.range(1, 9) : 0;
      T(Ev("ropen").f("o", i).f("lim", (int)w.readLimit));
      std::unique_ptr<io::IReaderCloser> raw;
      std::unique_ptr<io::BufferedReader> buf;
      try { raw = std::make_unique<io::FileReader>(o.url); }
      catch (const std::exception&) { T(Ev("rrefused")); continue; }
      bool bare = r.coin();
      if (!bare) buf = std::make_unique<io::BufferedReader>(std::move(raw), vast ? r.range(65537, 70000) : r.range(1, 16));
      int steps = r.range(2, 14);
      bool dead = false;
      for (int s = 0; s < steps && !dead; s++) {
        int k = r.below(6);
        try {
          if (k == 0) { bool e = bare ? raw->eof() : buf->eof(); T(Ev("eof").f("out", e)); }
          else if (k < 3 && !bare) {
            bool e = buf->eof();
            if (e) { bool ok = true; try { buf->readLine(); } catch (const std::exception&) { ok = false; } T(Ev(ok ? "failed" : "end")); }
            else { auto l = buf->readLine(); T(Ev("line").raw("out", jbytes(l))); }
          } else {
            size_t n = vast ? r.range(9000, 30000) : r.range(1, 25);
            std::vector<char> b(n, 'Z');
            bool e = bare ? raw->eof() : buf->eof();
            if (e) {
              bool ok = true;
              size_t got = 0;
              try { got = bare ? raw->read(b) : buf->read(b); } catch (const std::exception&) { ok = false; }
              T(Ev(ok && got != (size_t)-1 ? "failed" : "end"));
            } else {
              size_t got = bare ? raw->read(b) : buf->read(b);
              if (got > b.size()) T(Ev("failed").f("got", (long)got));
              else T(Ev(bare ? "piece" : "read").f("n", n).raw("out", jbytes(str(b, got))));
            }
          }
        } catch (const fbpcf::PcfException&) { T(Ev("error")); dead = !bare; }
        catch (const std::exception& ex) { T(Ev("failed").f("what", ex.what())); dead = true; }
      }
      T(Ev("rclose").f("rc", bare ? raw->close() : buf->close()));
    }
  }
  w.fate = [](const std::string&) { return 0; };
  w.note = [](const std::string&, const std::string&, const std::string&, bool) {};
  w.readLimit = 0;
}

// more than one part of the default size, through the file functions (byte i of the pattern is a function of i)
static char pat(size_t i) { return i % 61 == 60 ? '\n' : (char)('A' + (i * 7 + i / 4099) % 57); }
static int prefix(const std::string& s) {
  for (size_t i = 0; i < s.size(); i++)
    if (s[i] != pat(i)) return -1 - (int)i;
  return (int)s.size();
}
static void big(Rng& r, Trace& T, int rounds) {
  auto& w = cloud_world::world();
  w.objects.clear();
  w.uploads.clear();
  for (int k = 0; k < rounds; k++) {
    size_t n = k == 0 ? 61 * 180000 : 61 * 85949 + 61 * r.below(3);  // 10.9 MB, or about the size of one part
    std::string s(n, 0);
    for (size_t i = 0; i < n; i++) s[i] = pat(i);
    Obj a = makeObj(r, 1), b = makeObj(r, 2);
    auto one = [&](const char* what, const std::function<std::string()>& f) {
      int p = -2000000000;
      try { p = prefix(f()); } catch (const std::exception&) {}
      T(Ev("big").f("what", what).f("n", n).f("prefix", p).f("pending", w.uploads.size()));
    };
    one("write", [&] { io::FileIOWrappers::writeFile(a.url, s); return w.objects.at(a.name); });
    one("transfer", [&] { io::FileIOWrappers::transferFileInParts(a.url, b.url); return w.objects.at(b.name); });
    if (k == 0) one("read", [&] { return io::FileIOWrappers::readFile(b.url); });
    // a service that never completes: the loss is reported
    w.fate = [](const std::string& op) { return op == "complete" || op == "finish" ? 1 : 0; };
    w.objects.clear();
    int ok = 1;
    try { io::FileIOWrappers::writeFile(a.url, "some text\n"); } catch (const std::exception&) { ok = 0; }
    w.fate = [](const std::string&) { return 0; };
    T(Ev("incomplete").f("ok", ok).f("objects", w.objects.size()).f("pending", w.uploads.size()));
  }
}

// ranges and sizes beyond 32 bits: an object whose stored bytes come after a long lead of zeros
static void far(Rng& r, Trace& T, int rounds) {
  auto& w = cloud_world::world();
  w.objects.clear();
  w.uploads.clear();
  for (int k = 0; k < rounds; k++) {
    Obj o = makeObj(r, k);
    std::string c = content(r, r.range(1, 60));
    w.objects[o.name] = c;
    w.lead = r.coin() ? (1ull << r.range(31, 40)) + r.below(3) - 1 : ((unsigned long long)r.range(1, 4000) << 30) + r.below(1 << 30);
    size_t from = r.below(c.size()), n = r.range(1, 30);
    std::string out;
    bool ok = true;
    long long len = -1;
    try {
      auto rd = fbpcf::cloudio::getCloudFileReader(o.url);
      len = (long long)(rd->getFileContentLength(o.url) - w.lead);
      out = rd->readBytes(o.url, w.lead + from, w.lead + from + n);
    } catch (const std::exception&) { ok = false; }
    T(Ev("far").raw("c", jbytes(c)).f("from", from).f("n", n).f("ok", ok).f("len", len < 0 || len > 1000000 ? -1 : (int)len).raw("out", jbytes(out)));
    // a reader at the start of it is nowhere near the end
    std::vector<int> eof;
    bool zeros = true;
    try {
      io::FileReader rd(o.url);
      for (int q = r.range(1, 4); q > 0; q--) {
        eof.push_back(rd.eof());
        std::vector<char> b(r.range(1, 100), 'Z');
        size_t want = b.size(), got = rd.read(b);
        zeros = zeros && got == want && std::count(b.begin(), b.begin() + std::min(got, b.size()), '\0') == (long)want;
      }
      eof.push_back(rd.eof());
    } catch (const std::exception&) { zeros = false; }
    T(Ev("ahead").f("eof", eof).f("zeros", zeros));
    w.lead = 0;
    w.objects.clear();
  }
}

static void cloud(Args& ar, Trace& T, Watchdog& wd) {
  Rng r(ar.seed * 1000 + ar.shard);
  int eps = ar.thorough ? 4000 : 700;
  for (int e = 0; e < eps; e++) {
    wd.tick();
    T(Ev("begin").f("n", e));
    cloudEpisode(r, T, e == 0);
  }
  T(Ev("begin").f("n", eps));
  far(r, T, ar.thorough ? 400 : 40);
  if (ar.shard == 0) { T(Ev("begin").f("n", eps)); big(r, T, ar.thorough ? 4 : 2); }
}

// ---- file managers and addresses -------------------------------------------------------------
static void managerEpisode(Rng& r, Trace& T) {
  auto& w = cloud_world::world();
  w.objects.clear();
  w.uploads.clear();
  fs::remove_all(dir() + "/m");
  fs::create_directories(dir() + "/m");
  fbpcf::LocalFileManager local;
  fbpcf::S3FileManager s3(fbpcf::aws::createS3Client(fbpcf::aws::S3ClientOption{.region = "us-west-2"}));
  fbpcf::GCSFileManager<google::cloud::storage::Client> gcs(std::make_shared<google::cloud::storage::Client>());
  int bad = r.chance(40) ? r.range(5, 50) : 0;
  w.fate = [&](const std::string& op) { return r.chance(bad) ? 1 : 0; };
  bool failed = false;
  w.note = [&](const std::string&, const std::string&, const std::string&, bool ok) { failed = failed || !ok; };
  // kinds: 0 local, 1 S3, 2 GCS, 3 the free functions on a local path, 4 on an S3 address
  auto where = [&](int kind, int o) -> std::string {
    std::string k = std::to_string(o);
    if (kind == 0 || kind == 3) return o == 0 ? "plain" + k : o == 1 ? dir() + "/m/f" + k : dir() + "/m/https://bkt.s3.us-west-2.amazonaws.com/f" + k;
    if (kind == 2) return o == 0 ? "gs://bkt/f0" : o == 1 ? "https://storage.googleapis.com/bkt/a/f1" : "https://bkt.storage.googleapis.com/f2";
    return o == 2 ? "https://my.bkt.s3-us-west-2.amazonaws.com/x/f2" : "https://bkt.s3.us-west-2.amazonaws.com/f" + k;
  };
  auto name = [&](int kind, int o) -> std::string {
    if (kind == 2) return o == 1 ? "bkt/a/f1" : "bkt/f" + std::to_string(o);
    return o == 2 ? "us-west-2:my.bkt/x/f2" : "us-west-2:bkt/f" + std::to_string(o);
  };
  auto store = [](int kind) { return kind == 3 ? 0 : kind == 4 ? 1 : kind; };
  auto now = [&](int kind, int o) {
    std::vector<std::string> v;
    if (store(kind) == 0) { if (fs::exists(where(0, o))) v.push_back(slurp(where(0, o))); }
    else if (w.objects.count(name(store(kind), o))) v.push_back(w.objects[name(store(kind), o)]);
    return jstrs(v);
  };
  auto mgrOf = [&](int kind) -> fbpcf::IFileManager& { return kind == 0 ? (fbpcf::IFileManager&)local : kind == 1 ? (fbpcf::IFileManager&)s3 : (fbpcf::IFileManager&)gcs; };
  int steps = r.range(4, 16);
  for (int s = 0; s < steps; s++) {
    int kind = r.below(5), o = r.below(3), op = r.below(8);
    bool ok = true;
    failed = false;
    std::string out, c = content(r, r.chance(10) ? 0 : r.chance(6) ? r.range(8000, 20000) : r.range(1, 70));
    if (op < 3 || s < 2) {
      try { if (kind >= 3) io::write(where(kind, o), c); else mgrOf(kind).write(where(kind, o), c); } catch (const std::exception&) { ok = false; }
      T(Ev("write").f("m", store(kind)).f("o", o).raw("c", jbytes(c)).f("ok", ok).f("failed", failed).raw("now", now(kind, o)));
    } else if (op < 5) {
      try {
        if (kind >= 3) {
          if (r.coin()) out = io::read(where(kind, o));
          else { auto st = io::getInputStream(where(kind, o)); std::stringstream ss; ss << st->get().rdbuf(); out = ss.str(); }
        } else if (r.coin()) out = mgrOf(kind).read(where(kind, o));
        else { auto st = mgrOf(kind).getInputStream(where(kind, o)); std::stringstream ss; ss << st->get().rdbuf(); out = ss.str(); }
      } catch (const std::exception&) { ok = false; }
      T(Ev("read").f("m", store(kind)).f("o", o).f("ok", ok).f("failed", failed).raw("out", jbytes(out)));
    } else if (op < 7) {
      if (kind >= 3) kind -= 3;
      size_t a = r.below(r.chance(10) ? 20000 : 40), b = kind ? a + r.range(1, 40) : r.below(10) ? a + r.range(0, 40) : r.below(30);
      if (r.chance(5)) b = a + 20000;
      try { out = mgrOf(kind).readBytes(where(kind, o), a, b); } catch (const std::exception&) { ok = false; }
      T(Ev("range").f("m", kind).f("o", o).f("a", (int)a).f("b", (int)b).f("ok", ok).f("failed", failed).raw("out", jbytes(out)));
    } else {
      if (kind >= 3) kind -= 3;
      int src = r.below(3);
      if (kind == 0 && src == o) continue;
      try { mgrOf(kind).copy(where(0, src), where(kind, o)); } catch (const std::exception&) { ok = false; }
      T(Ev("copy").f("m", kind).f("src", src).f("o", o).f("ok", ok).f("failed", failed).raw("now", now(kind, o)));
    }
  }
  if (r.chance(10)) {
    int ok = 1;
    try { local.write("/dev/full", content(r, r.chance(20) ? 20000 : 20)); } catch (const std::exception&) { ok = 0; }
    T(Ev("full").f("ok", ok));
  }
  w.fate = [](const std::string&) { return 0; };
  w.note = [](const std::string&, const std::string&, const std::string&, bool) {};
  fs::remove("plain0");
}

static std::string word(Rng& r, const char* alphabet, int lo, int hi) {
  std::string s;
  int n = r.range(lo, hi);
  for (int i = 0; i < n; i++) s += alphabet[r.below(strlen(alphabet))];
  return s;
}
static std::string bucketName(Rng& r) {
  std::string s = word(r, "abcxyz0189", 1, 4);
  int n = r.below(3);
  for (int i = 0; i < n; i++) s += (r.coin() ? "." : "-") + (r.chance(20) ? "s3" : word(r, "abcs3019", 1, 4));
  return s;
}
static std::string keyName(Rng& r) {
  std::string s = word(r, "abcXYZ019_-.", 1, 6);
  int n = r.below(3);
  for (int i = 0; i < n; i++) s += "/" + word(r, "abcXYZ019_-.=", 1, 5);
  return s;
}
static void addressEpisode(Rng& r, Trace& T) {
  for (int s = 0; s < 6; s++) {
    std::string b = bucketName(r), k = keyName(r), reg = std::string(r.coin() ? "us-west-" : "cn-north") + word(r, "0123456789", 1, 2), url;
    bool nokey = r.chance(20), env = r.chance(70);
    if (nokey) k = "";
    std::string envRegion = env ? word(r, "abc-12", 3, 8) : "";
    env ? setenv("AWS_DEFAULT_REGION", envRegion.c_str(), 1) : unsetenv("AWS_DEFAULT_REGION");
    static const char* forms[] = {"s3-dot", "s3-dash", "s3", "gcs-cloud", "gcs-host", "gcs-path", "gs", "other", "file", "s3-typo", "gcs-tail", "gcs-else"};
    std::string form = forms[r.below(12)];
    if (form == "s3-dot") url = "https://" + b + ".s3." + reg + ".amazonaws.com/" + k;
    else if (form == "s3-dash") url = "https://" + b + ".s3-" + reg + ".amazonaws.com/" + k;
    else if (form == "s3") url = "s3://" + b + "/" + k;
    else if (form == "gcs-cloud") url = "https://storage.cloud.google.com/" + b + "/" + k;
    else if (form == "gcs-host") url = "https://" + b + ".storage.googleapis.com/" + k;
    else if (form == "gcs-path") url = "https://storage.googleapis.com/" + b + "/" + k;
    else if (form == "gs") url = "gs://" + b + "/" + k;
    // near misses
    else if (form == "s3-typo") url = "https://" + b + ".s3." + reg + ".amazonawsXcom/" + k;
    else if (form == "gcs-tail") url = "https://" + b + ".storage.googleapis.com.example.org/" + k;
    else if (form == "gcs-else") url = "https://storage.example.com/" + b + "/" + k;
    else if (form == "other") url = "https://" + b + ".example.org/" + k;
    else url = (r.coin() ? "/" : "") + b + (r.chance(30) ? "/https://" : "/") + k;
    bool ok = true;
    std::vector<std::string> out;
    if (form == "file") {
    } else if (r.chance(form[0] == 's' ? 80 : form[0] == 'g' ? 20 : 50)) {
      try { auto x = fbpcf::aws::uriToObjectReference(url); out = {x.region, x.bucket, x.key}; } catch (const std::exception&) { ok = false; }
      T(Ev("s3ref").f("form", form).f("b", b).f("k", k).f("reg", reg).f("env", envRegion).f("url", url).f("ok", ok).raw("out", jmap(out, [](auto& x) { return js(x); })));
    } else {
      try { auto x = fbpcf::gcp::uriToObjectReference(url); out = {x.bucket, x.key}; } catch (const std::exception&) { ok = false; }
      T(Ev("gcsref").f("form", form).f("b", b).f("k", k).f("reg", reg).f("url", url).f("ok", ok).raw("out", jmap(out, [](auto& x) { return js(x); })));
    }
    if (!nokey && form != "s3-typo") {
      int t = (int)fbpcf::cloudio::getCloudFileType(url);
      T(Ev("type").f("form", form).f("url", url)
            .f("out", std::string(t == (int)fbpcf::cloudio::CloudFileType::S3 ? "S3" : t == (int)fbpcf::cloudio::CloudFileType::GCS ? "GCS" : "UNKNOWN"))
            .f("provider", fbpcf::cloudio::getCloudProviderString(url))
            .f("service", fbpcf::cloudio::getCloudStorageServiceString(url)));
      if (form == "other" || form == "file" || form == "gcs-tail" || form == "gcs-else") {
        std::vector<int> oks;
        try { fbpcf::cloudio::getCloudFileReader(url); oks.push_back(1); } catch (const std::exception&) { oks.push_back(0); }
        try { fbpcf::cloudio::getCloudFileUploader(url); oks.push_back(1); } catch (const std::exception&) { oks.push_back(0); }
        T(Ev("unsupported").f("ok", oks));
      }
    }
  }
}
// the settings of an S3 client: what the caller says, else the environment, else the default
static void clientEpisode(Rng& r, Trace& T) {
  static const char* vars[] = {"AWS_DEFAULT_REGION", "AWS_PROXY_HOST", "AWS_PROXY_PORT", "AWS_PROXY_SCHEME", "AWS_PROXY_CERT_PATH"};
  fbpcf::aws::S3ClientOption o;
  std::vector<std::string> opt(5), env(5);
  for (int i = 0; i < 5; i++) {
    auto v = [&] { return i == 2 ? std::to_string(r.range(1, 65535)) : i == 3 ? std::string(r.coin() ? "HTTPS" : "HTTP") : word(r, "abc-1", 1, 6); };
    if (r.coin()) opt[i] = v();
    if (r.coin()) env[i] = v();
    env[i].empty() ? unsetenv(vars[i]) : setenv(vars[i], env[i].c_str(), 1);
  }
  if (!opt[0].empty()) o.region = opt[0];
  if (!opt[1].empty()) o.proxyHost = opt[1];
  if (!opt[2].empty()) o.proxyPort = std::stoi(opt[2]);
  if (!opt[3].empty()) o.proxyScheme = opt[3];
  if (!opt[4].empty()) o.proxySSLCertPath = opt[4];
  std::string id = r.coin() ? word(r, "AK1", 3, 5) : "", key = r.coin() ? word(r, "sec", 3, 5) : "";
  if (!id.empty()) o.accessKeyId = id;
  if (!key.empty()) o.secretKey = key;
  auto c = fbpcf::aws::createS3Client(o);
  const auto& g = c->config();
  std::vector<std::string> out = {g.region, g.proxyHost, std::to_string(g.proxyPort), g.proxyScheme == Aws::Http::Scheme::HTTPS ? "HTTPS" : "HTTP", g.proxySSLCertPath};
  std::vector<std::string> cred;
  if (c->credentials()) cred = {c->credentials()->GetAWSAccessKeyId(), c->credentials()->GetAWSSecretKey()};
  auto q = [](const std::string& x) { return js(x); };
  T(Ev("client").raw("opt", jmap(opt, q)).raw("env", jmap(env, q)).f("id", id).f("key", key).raw("out", jmap(out, q)).raw("cred", jmap(cred, q)));
  for (auto v : vars) unsetenv(v);
  std::vector<std::string> regs;
  std::vector<int> ids, right;
  std::vector<std::shared_ptr<fbpcf::cloudio::S3Client>> cs;
  int n = r.range(2, 6);
  for (int i = 0; i < n; i++) {
    std::string reg = r.chance(20) ? "" : "r" + std::to_string(r.below(4));
    fbpcf::aws::S3ClientOption x;
    if (!reg.empty()) x.region = reg;
    auto p = fbpcf::cloudio::S3Client::getInstance(x);
    int k = 0;
    while (k < (int)cs.size() && cs[k] != p) k++;
    cs.push_back(p);
    regs.push_back(reg);
    ids.push_back(k);
    right.push_back(p->getS3Client()->config().region == (reg.empty() ? "us-east-1" : reg));
  }
  T(Ev("instances").raw("regs", jmap(regs, q)).f("ids", ids).f("right", right));
}
static void mgr(Args& ar, Trace& T, Watchdog& wd) {
  Rng r(ar.seed * 1000 + ar.shard);
  fs::create_directories(dir());
  fs::current_path(dir());
  int eps = ar.thorough ? 1800 : 400;
  for (int e = 0; e < eps; e++) {
    wd.tick();
    T(Ev("begin").f("n", e));
    int w = r.below(5);
    if (w < 2) managerEpisode(r, T);
    else if (w < 4) addressEpisode(r, T);
    else clientEpisode(r, T);
  }
}
