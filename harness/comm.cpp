// Drives the communication agents and their factories.
//  mem/sock/tls : typed messages over in-memory, socket and TLS channels, any chunking
//  broken       : a raw peer that ends the connection anywhere
//  pair         : which agent is connected to which
//  auth         : whom TLS agents talk to
#include <arpa/inet.h>
#include <netinet/in.h>
#include <openssl/ec.h>
#include <openssl/evp.h>
#include <openssl/pem.h>
#include <openssl/ssl.h>
#include <openssl/x509v3.h>
#include <poll.h>
#include <signal.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <set>
#include "common.h"
#include "fbpcf/engine/communication/InMemoryPartyCommunicationAgentFactory.h"
#include "fbpcf/engine/communication/SocketPartyCommunicationAgent.h"
#include "fbpcf/engine/communication/SocketPartyCommunicationAgentFactory.h"

using namespace vh;
namespace cm = fbpcf::engine::communication;
using Sock = cm::SocketPartyCommunicationAgent;
using SockF = cm::SocketPartyCommunicationAgentFactory;
using Host = cm::InMemoryPartyCommunicationAgentFactory::HostInfo;

// ---- ports and certificates ----------------------------------------------------------------
static int listenOn(int port) {
  int s = socket(AF_INET, SOCK_STREAM, 0), on = 1;
  setsockopt(s, SOL_SOCKET, SO_REUSEADDR, &on, sizeof on);
  sockaddr_in a{};
  a.sin_family = AF_INET;
  a.sin_addr.s_addr = INADDR_ANY;
  a.sin_port = htons(port);
  if (bind(s, (sockaddr*)&a, sizeof a) < 0 || listen(s, 4) < 0) {
    close(s);
    return -1;
  }
  return s;
}
static int portOf(int s) {
  sockaddr_in a{};
  socklen_t l = sizeof a;
  getsockname(s, (sockaddr*)&a, &l);
  return ntohs(a.sin_port);
}
struct Ports {
  int next;
  explicit Ports(uint64_t seed) : next(10000 + (getpid() * 131 + seed * 977) % 20000) {}
  // the first of `len` free ports
  int take(int len) {
    for (;;) {
      if (next + len > 31000) next = 10000;
      bool ok = true;
      for (int i = 0; i < len && ok; i++) {
        int s = listenOn(next + i);
        if (s < 0) ok = false;
        else close(s);
      }
      int r = next;
      next += len;
      if (ok) return r;
    }
  }
};
static int connectTo(int port) {
  int s = socket(AF_INET, SOCK_STREAM, 0);
  sockaddr_in a{};
  a.sin_family = AF_INET;
  a.sin_addr.s_addr = inet_addr("127.0.0.1");
  a.sin_port = htons(port);
  for (int i = 0; i < 200; i++) {
    if (connect(s, (sockaddr*)&a, sizeof a) == 0) return s;
    usleep(20000);
    close(s);
    s = socket(AF_INET, SOCK_STREAM, 0);
  }
  return -1;
}

static std::string certDir;
// Authorities "good" and "evil" (<who>_ca.pem), certificates issued by them or self-signed, for any name (as
// common name or as alternative name), valid, expired or not yet valid.
struct Cert {
  std::string issuer = "good", name = "127.0.0.1", time = "valid", in = "cn";
  std::string file() const { return certDir + "/" + issuer + "_" + (name[0] == '*' ? "star" + name.substr(1) : name) + "_" + time + "_" + in; }
};
static X509* issue(EVP_PKEY* key, const std::string& cn, EVP_PKEY* caKey, X509* ca, const Cert& c, bool isCa) {
  static long serial = 1;
  X509* x = X509_new();
  X509_set_version(x, 2);
  ASN1_INTEGER_set(X509_get_serialNumber(x), serial++);
  const long day = 86400;
  X509_gmtime_adj(X509_getm_notBefore(x), c.time == "future" ? 20 * day : -20 * day);
  X509_gmtime_adj(X509_getm_notAfter(x), c.time == "expired" ? -day : 40 * day);
  X509_set_pubkey(x, key);
  auto nm = X509_get_subject_name(x);
  X509_NAME_add_entry_by_txt(nm, "CN", MBSTRING_ASC, (const unsigned char*)cn.c_str(), -1, -1, 0);
  X509_set_issuer_name(x, ca ? X509_get_subject_name(ca) : nm);
  auto ext = [&](int nid, const std::string& v) {
    X509V3_CTX v3;
    X509V3_set_ctx_nodb(&v3);
    X509V3_set_ctx(&v3, ca ? ca : x, x, nullptr, nullptr, 0);
    auto e = X509V3_EXT_conf_nid(nullptr, &v3, nid, v.c_str());
    X509_add_ext(x, e, -1);
    X509_EXTENSION_free(e);
  };
  ext(NID_basic_constraints, isCa ? "critical,CA:TRUE" : "CA:FALSE");
  if (!isCa && c.in == "san") ext(NID_subject_alt_name, "DNS:" + c.name);
  X509_sign(x, caKey, EVP_sha256());
  return x;
}
struct Authority { EVP_PKEY* key = nullptr; X509* cert = nullptr; };
static std::map<std::string, Authority> authorities;
static void writePem(const std::string& path, X509* x, EVP_PKEY* k) {
  FILE* f = fopen(path.c_str(), "w");
  if (!f) { perror(path.c_str()); _exit(2); }
  if (x) PEM_write_X509(f, x);
  if (k) PEM_write_PrivateKey(f, k, EVP_aes_256_cbc(), nullptr, 0, nullptr, (void*)"secret123");
  fclose(f);
}
static void makeCerts() {
  certDir = std::string(getenv("VERIF_SCRATCH")) + "/certs";
  mkdir(getenv("VERIF_SCRATCH"), 0777);
  mkdir(certDir.c_str(), 0777);
  for (std::string who : {"good", "evil"}) {
    Authority a;
    a.key = EVP_EC_gen("P-256");
    a.cert = issue(a.key, who + " ca", a.key, nullptr, {}, true);
    writePem(certDir + "/" + who + "_ca.pem", a.cert, nullptr);
    writePem(certDir + "/" + who.substr(0, 1), a.cert, nullptr);
    authorities[who] = a;
  }
  FILE* f = fopen((certDir + "/pass.pem").c_str(), "w");
  fputs("secret123", f);
  fclose(f);
}
static std::string certOf(const Cert& c) {
  static std::map<std::string, bool> made;
  static std::mutex m;
  std::lock_guard<std::mutex> g(m);
  auto f = c.file();
  if (made[f]) return f;
  made[f] = true;
  auto key = EVP_EC_gen("P-256");
  bool self = c.issuer == "self";
  auto x = issue(key, c.in == "san" ? "127.0.0.9" : c.name, self ? key : authorities[c.issuer].key,
                 self ? nullptr : authorities[c.issuer].cert, c, false);
  writePem(f + "_cert.pem", x, nullptr);
  writePem(f + "_key.pem", nullptr, key);
  X509_free(x);
  EVP_PKEY_free(key);
  return f;
}
static Sock::TlsInfo tls(bool on, const Cert& c = {}, const std::string& ca = "good") {
  if (!on) return {false, "", "", "", ""};
  auto f = certOf(c);
  return {true, f + "_cert.pem", f + "_key.pem", certDir + "/pass.pem", ca.empty() ? "" : certDir + "/" + ca + "_ca.pem"};
}
static std::string addrOf(int party) { return "127.0.0." + std::to_string(party + 1); }

// ---- typed messages -------------------------------------------------------------------------
struct Msg {
  int type;  // 0 bytes, 1 bits, 2 int64, 3 int32 values via sendT, 4 single int16, 5 single int64, 6 bytes via sendT, 7 bits via sendT
  std::vector<int> bits;              // 1, 7
  std::string bytes;                  // everything else, as it lies in memory
  static int size(int t) { return t == 2 || t == 5 ? 8 : t == 3 ? 4 : t == 4 ? 2 : 1; }
};
static Msg randomMsg(Rng& r, int len) {
  Msg m{(int)r.below(8), {}, ""};
  if (m.type == 4 || m.type == 5) len = 1;
  if (m.type == 1 || m.type == 7) {
    for (int i = 0; i < len; i++) m.bits.push_back(r.below(2));
  } else {
    for (int i = 0; i < len * Msg::size(m.type); i++) m.bytes.push_back((char)r.next());
  }
  return m;
}
template <class T>
static std::vector<T> as(const std::string& s) {
  std::vector<T> v(s.size() / sizeof(T));
  memcpy(v.data(), s.data(), s.size());
  return v;
}
template <class T>
static std::string raw(const std::vector<T>& v) { return std::string((const char*)v.data(), v.size() * sizeof(T)); }
static void sendMsg(cm::IPartyCommunicationAgent& a, const Msg& m) {
  std::vector<bool> b(m.bits.begin(), m.bits.end());
  switch (m.type) {
    case 0: a.send(as<unsigned char>(m.bytes)); break;
    case 1: a.sendBool(b); break;
    case 2: a.sendInt64(as<uint64_t>(m.bytes)); break;
    case 3: a.sendT<int32_t>(as<int32_t>(m.bytes)); break;
    case 4: a.sendSingleT<int16_t>(as<int16_t>(m.bytes)[0]); break;
    case 5: a.sendSingleT<uint64_t>(as<uint64_t>(m.bytes)[0]); break;
    case 6: a.sendT<unsigned char>(as<unsigned char>(m.bytes)); break;
    case 7: a.sendT<bool>(b); break;
  }
}
static Msg recvMsg(cm::IPartyCommunicationAgent& a, int type, int len) {
  Msg m{type, {}, ""};
  std::vector<bool> b;
  switch (type) {
    case 0: m.bytes = raw(a.receive(len)); break;
    case 1: b = a.receiveBool(len); break;
    case 2: m.bytes = raw(a.receiveInt64(len)); break;
    case 3: m.bytes = raw(a.receiveT<int32_t>(len)); break;
    case 4: m.bytes = raw(std::vector<int16_t>{a.receiveSingleT<int16_t>()}); break;
    case 5: m.bytes = raw(std::vector<uint64_t>{a.receiveSingleT<uint64_t>()}); break;
    case 6: m.bytes = raw(a.receiveT<unsigned char>(len)); break;
    case 7: b = a.receiveT<bool>(len); break;
  }
  for (bool x : b) m.bits.push_back(x);
  return m;
}
static int wire(const Msg& m) { return m.type == 1 || m.type == 7 ? (m.bits.size() + 7) / 8 : m.bytes.size(); }
static Ev msgEv(const char* name, int me, int peer, int ch, const Msg& m) {
  Ev e(name);
  e.f("me", me).f("peer", peer).f("ch", ch).f("type", m.type);
  if (m.type == 1 || m.type == 7) e.f("bits", m.bits).f("bytes", std::vector<int>());
  else e.f("bits", std::vector<int>()).raw("bytes", jbytes(m.bytes));
  return e;
}

// ---- bulk: much data one way, known by a digest in the trace
struct Digest {
  uint64_t h = 1469598103934665603ull;
  long n = 0;
  void add(const Msg& m) {
    for (int b : m.bits) h = (h ^ (b + 1)) * 1099511628211ull;
    for (unsigned char c : m.bytes) h = (h ^ c) * 1099511628211ull;
    n += (m.bits.size() + 7) / 8 + m.bytes.size();
  }
  std::string hex() const {
    char b[20];
    snprintf(b, sizeof b, "%016llx", (unsigned long long)h);
    return b;
  }
};
struct Bulk {
  std::vector<Msg> out;
  std::vector<std::pair<int, int>> in;  // type, length
  Digest d;
};
static Bulk randomBulk(Rng& r, long most) {
  Bulk b;
  auto put = [&](int type, int len) {
    Msg m{type, {}, ""};
    if (type == 1 || type == 7) {
      uint64_t w = 0;
      for (int i = 0; i < len; i++) {
        if (i % 64 == 0) w = r.next();
        m.bits.push_back(w >> (i % 64) & 1);
      }
    } else {
      m.bytes.resize((long)len * Msg::size(type));
      for (size_t i = 0; i < m.bytes.size(); i += 8) {
        auto w = r.next();
        memcpy(&m.bytes[i], &w, std::min<size_t>(8, m.bytes.size() - i));
      }
    }
    b.d.add(m);
    b.out.push_back(std::move(m));
  };
  static const int byteTypes[] = {0, 2, 3, 6};
  int k = r.below(4);
  if (k == 0) {  // bits, same pieces at both ends
    for (int i = r.range(1, 2); i-- > 0;) {
      int t = r.coin() ? 1 : 7, len = r.coin() ? r.range(most * 2, most * 8) : r.range(most, most * 2);
      put(t, len);
      b.in.push_back({r.coin() ? 1 : 7, len});
    }
    return b;
  }
  long total = 0;
  if (k == 1) {  // very many small messages
    for (int i = r.range(500, 6000); i-- > 0;) put(r.coin() ? 5 : 4, 1);
  } else {
    for (int i = r.range(1, 3); i-- > 0;) {
      int t = byteTypes[r.below(4)];
      put(t, std::max<long>(1, r.range(most / 8, most) / Msg::size(t)));
    }
  }
  total = b.d.n;
  bool small = k == 1 && r.coin();
  while (total > 0) {
    int t = byteTypes[r.below(4)];
    long want = small ? std::min<long>(total, r.range(1, 40)) : r.chance(40) ? total : r.range(1, total);
    int len = want / Msg::size(t);
    if (!len) t = 0, len = want;
    b.in.push_back({t, len});
    total -= (long)len * Msg::size(t);
  }
  return b;
}

// ---- factories for n parties -----------------------------------------------------------------
struct World {
  std::vector<std::unique_ptr<cm::IPartyCommunicationAgentFactory>> f;
  std::vector<std::string> err;
};
static World makeWorld(const std::string& kind, int n, Ports& ports, Rng& r, std::vector<int>* jam = nullptr) {
  World w;
  w.f.resize(n);
  w.err.resize(n);
  if (kind == "mem") {
    std::map<std::pair<int, int>, std::shared_ptr<Host>> hosts;
    for (int i = 0; i < n; i++)
      for (int j = i + 1; j < n; j++) {
        auto h = std::make_shared<Host>();
        h->mutex = std::make_unique<std::mutex>();
        hosts[{i, j}] = h;
      }
    for (int i = 0; i < n; i++) {
      std::map<int, std::shared_ptr<Host>> m;
      for (int j = 0; j < n; j++)
        if (j != i) m[j] = hosts[{std::min(i, j), std::max(i, j)}];
      w.f[i] = std::make_unique<cm::InMemoryPartyCommunicationAgentFactory>(i, std::move(m));
    }
    return w;
  }
  std::vector<std::map<int, SockF::PartyInfo>> info(n);
  int gap = r.chance(60) ? 4 : 1;  // with 1 the ports of later agents are taken
  int base = ports.take(n * n * gap + 4), k = 0;
  for (int i = 0; i < n; i++)
    for (int j = i + 1; j < n; j++) {
      int p = base + gap * k++;
      info[i][j] = {r.coin() ? "ignored.example" : "", p};
      info[j][i] = {addrOf(i), p};
      if (jam && gap == 4 && r.coin()) jam->push_back(listenOn(p + 1 + r.below(2)));
    }
  std::vector<int> delay(n);
  for (auto& d : delay) d = r.below(3) * 20;
  std::vector<int> how(n);  // the ways to make a factory
  for (auto& h : how) h = kind == "tls" ? (r.coin() ? 9 : (int)r.below(2)) : r.below(10);
  w.err = runParties(n, nullptr, [&](int me) {
    usleep(delay[me] * 1000);
    auto mc = std::make_shared<fbpcf::util::MetricCollector>("p");
    auto t = tls(kind == "tls", {"good", addrOf(me)});
    switch (how[me]) {
      case 0: w.f[me] = std::make_unique<SockF>(me, info[me], t, mc); break;
      case 1: w.f[me] = std::make_unique<SockF>(me, info[me], t, std::string("p")); break;
      case 2: w.f[me] = std::make_unique<SockF>(me, info[me], mc); break;
      case 3: w.f[me] = std::make_unique<SockF>(me, info[me], std::string("p")); break;
      case 4: w.f[me] = std::make_unique<SockF>(me, info[me], false, std::string("/nowhere"), std::string("p")); break;
      default: w.f[me] = std::make_unique<SockF>(me, info[me], t, mc, 20); break;
    }
  });
  return w;
}

static void messages(Args& ar, Trace& T, Watchdog& wd) {
  std::string kind = ar.mode;
  Rng r(ar.seed);
  Ports ports(ar.seed);
  int episodes = (kind == "mem" ? 150 : 20) * (ar.thorough ? 5 : 1);
  for (int e = 0; e < episodes; e++) {
    wd.tick();
    int n = kind == "mem" ? r.range(2, 4) : r.chance(70) ? 2 : 3;
    bool big = e % (kind == "mem" ? 25 : 4) == 3;
    T(Ev("begin").f("kind", kind).f("n", n));
    auto w = makeWorld(kind, n, ports, r);
    for (auto& x : w.err)
      if (!x.empty()) { T(Ev("failed").f("what", x)); return; }
    // channels; created one pair after the other
    int per = r.range(1, 3);
    struct Ch { int a, b, k; std::unique_ptr<cm::IPartyCommunicationAgent> ag[2]; };
    std::vector<Ch> chs;
    for (int i = 0; i < n; i++)
      for (int j = i + 1; j < n; j++)
        for (int k = 0; k < per; k++) chs.push_back({i, j, k, {}});
    auto err = runParties(n, nullptr, [&](int me) {
      for (auto& c : chs) {
        if (c.a == me) c.ag[0] = w.f[me]->create(c.b, "x" + std::to_string(c.k));
        if (c.b == me) c.ag[1] = w.f[me]->create(c.a, "x" + std::to_string(c.k));
      }
    });
    for (auto& x : err)
      if (!x.empty()) { T(Ev("failed").f("what", x)); return; }
    // a global sequence of sends and receives: a receive comes after the bytes it needs
    struct Op { bool send; int ch, side; Msg m; int type, len, jitter; };
    std::vector<Op> ops;
    std::vector<std::array<std::deque<int>, 2>> q(chs.size());  // bytes on the way from side s, as pieces in between which bits are aligned
    int nops = r.range(4, big ? 12 : 30);
    auto recvOp = [&](int c, int s, bool all) {  // side s receives from side 1-s
      int avail = 0;
      for (int x : q[c][1 - s]) avail += x;
      if (!avail) return;
      Op o{false, c, s, {}, (int)r.below(8), 0, (int)r.below(4)};
      int sz = Msg::size(o.type);
      if (o.type == 4 || o.type == 5) {
        if (avail < sz) o.type = 0, sz = 1;
        else o.len = 1;
      }
      int take;
      if (o.len == 1 && (o.type == 4 || o.type == 5)) take = sz;
      else {
        int want = all || r.chance(30) ? avail : r.chance(50) ? q[c][1 - s].front() : 1 + r.below(avail);
        if (o.type == 1 || o.type == 7) {
          o.len = std::max<int>(1, want * 8 - (int)r.below(8));
          take = (o.len + 7) / 8;
        } else {
          if (want < sz) o.type = 0, sz = 1;
          o.len = want / sz;
          take = o.len * sz;
        }
      }
      while (take) {
        int& f = q[c][1 - s].front();
        int t = std::min(f, take);
        f -= t;
        take -= t;
        if (!f) q[c][1 - s].pop_front();
      }
      ops.push_back(o);
    };
    for (int i = 0; i < nops; i++) {
      int c = r.below(chs.size()), s = r.below(2);
      if (r.chance(45)) {
        recvOp(c, s, false);
      } else {
        int len = r.chance(8) ? 0 : big && r.chance(40) ? r.range(3000, 40000) / 8 : r.chance(50) ? r.range(1, 9) : r.range(1, 80);
        Op o{true, c, s, randomMsg(r, len), 0, 0, (int)r.below(4)};
        if (wire(o.m)) q[c][s].push_back(wire(o.m));
        ops.push_back(o);
      }
    }
    for (size_t c = 0; c < chs.size(); c++)
      for (int s = 0; s < 2; s++)
        while (!q[c][1 - s].empty()) recvOp(c, s, r.chance(60));
    // one thread per party, or one per channel end, or two per channel end
    int threads = r.below(3);
    if (threads == 2 && kind == "tls") threads = 1;
    std::map<int, std::vector<Op*>> work;
    for (auto& o : ops) {
      int p = o.side ? chs[o.ch].b : chs[o.ch].a;
      int key = threads == 0 ? p : threads == 1 ? 1000 + o.ch * 2 + o.side : 1000 + o.ch * 4 + o.side * 2 + o.send;
      work[key].push_back(&o);
    }
    std::vector<std::vector<Op*>> ws;
    for (auto& kv : work) ws.push_back(kv.second);
    err = runParties(ws.size(), nullptr, [&](int i) {
      for (auto* o : ws[i]) {
        auto& c = chs[o->ch];
        int me = o->side ? c.b : c.a, peer = o->side ? c.a : c.b;
        if (o->jitter == 3) usleep(300);
        if (o->jitter == 2) std::this_thread::yield();
        if (o->send) {
          T(msgEv("send", me, peer, c.k, o->m));
          sendMsg(*c.ag[o->side], o->m);
        } else {
          auto m = recvMsg(*c.ag[o->side], o->type, o->len);
          T(msgEv("recv", me, peer, c.k, m).f("len", o->len));
        }
        wd.tick();
      }
    });
    for (auto& x : err)
      if (!x.empty()) { T(Ev("failed").f("what", x)); return; }
    // much data at once, both ways at the same time if the agents can do that
    bool bulky = kind == "mem" ? e % 5 == 1 : e % 2 == 0;
    if (bulky) {
      auto& c = chs[r.below(chs.size())];
      int first = r.below(2);
      std::vector<int> sides = {first};
      if (r.coin()) sides.push_back(1 - first);
      bool together = kind != "tls" && r.coin();
      std::vector<Bulk> bulks;
      for (size_t i = 0; i < sides.size(); i++) bulks.push_back(randomBulk(r, kind == "mem" && r.chance(70) ? 3000 : 180000));
      auto sender = [&](int i) {
        int s = sides[i];
        T(Ev("bulksend").f("me", s ? c.b : c.a).f("peer", s ? c.a : c.b).f("ch", c.k).f("n", bulks[i].d.n).f("d", bulks[i].d.hex()));
        for (auto& m : bulks[i].out) sendMsg(*c.ag[s], m);
      };
      auto receiver = [&](int i) {
        int s = 1 - sides[i];
        Digest d;
        for (auto& x : bulks[i].in) d.add(recvMsg(*c.ag[s], x.first, x.second));
        T(Ev("bulkrecv").f("me", s ? c.b : c.a).f("peer", s ? c.a : c.b).f("ch", c.k).f("n", d.n).f("d", d.hex()));
      };
      for (size_t i = 0; i < sides.size() && err == std::vector<std::string>(err.size()); i += together ? 2 : 1) {
        wd.tick();
        err = runParties(together && sides.size() == 2 ? 4 : 2, nullptr, [&](int t) {
          if (t % 2) receiver(i + t / 2);
          else sender(i + t / 2);
        });
      }
      for (auto& x : err)
        if (!x.empty()) { T(Ev("failed").f("what", x)); return; }
    }
    for (auto& c : chs)
      for (int s = 0; s < 2; s++) {
        auto st = c.ag[s]->getTrafficStatistics();
        T(Ev("stats").f("me", s ? c.b : c.a).f("peer", s ? c.a : c.b).f("ch", c.k).f("sent", st.first).f("received", st.second));
      }
    T(Ev("end"));
  }
}

// ---- raw peers ---------------------------------------------------------------------------------
struct RawPeer {
  int fd = -1;
  SSL* ssl = nullptr;
  bool write(const std::string& s) {
    size_t o = 0;
    while (o < s.size()) {
      int k = ssl ? SSL_write(ssl, s.data() + o, s.size() - o) : ::send(fd, s.data() + o, s.size() - o, 0);
      if (k <= 0) return false;
      o += k;
    }
    return true;
  }
  // 0 orderly (TLS: with close_notify), 1 TCP close only, 2 reset
  void end(int how) {
    if (ssl && how == 0) SSL_shutdown(ssl);
    // closing with unread input would reset the connection
    char buf[512];
    if (how != 2) while (::recv(fd, buf, sizeof buf, MSG_DONTWAIT) > 0) {}
    if (how == 2) {
      linger l{1, 0};
      setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l);
    }
    close(fd);
    if (ssl) { SSL_set_quiet_shutdown(ssl, 1); SSL_free(ssl); }
  }
};
// as a server: proves c (not if it has no issuer); as a client: checks the peer by authority ca (not if empty)
static SSL* rawTls(int fd, bool server, const Cert& cert, int maxVer, const std::string& ca) {
  SSL_CTX* c = SSL_CTX_new(server ? TLS_server_method() : TLS_client_method());
  SSL_CTX_set_max_proto_version(c, maxVer);
  if (server) {
    auto f = certOf(cert);
    SSL_CTX_set_default_passwd_cb_userdata(c, (void*)"secret123");
    SSL_CTX_use_certificate_file(c, (f + "_cert.pem").c_str(), SSL_FILETYPE_PEM);
    SSL_CTX_use_PrivateKey_file(c, (f + "_key.pem").c_str(), SSL_FILETYPE_PEM);
  } else if (!ca.empty()) {
    SSL_CTX_load_verify_locations(c, (certDir + "/" + ca + "_ca.pem").c_str(), nullptr);
    SSL_CTX_set_verify(c, SSL_VERIFY_PEER, nullptr);
  }
  SSL* s = SSL_new(c);
  SSL_CTX_free(c);
  SSL_set_fd(s, fd);
  int rc = server ? SSL_accept(s) : SSL_connect(s);
  if (rc != 1) {
    SSL_free(s);
    return nullptr;
  }
  return s;
}

static void broken(Args& ar, Trace& T, Watchdog& wd) {
  Rng r(ar.seed);
  int episodes = ar.thorough ? 600 : 120;
  for (int e = 0; e < episodes; e++) {
    wd.tick();
    bool useTls = e % 2, agentServer = r.coin();
    int how = r.below(3);
    T(Ev("begin").f("kind", useTls ? "tls" : "sock").f("n", 2));
    int ls = listenOn(0), port = portOf(ls);
    std::unique_ptr<Sock> ag;
    RawPeer peer;
    std::string bad;
    auto rec = std::make_shared<cm::PartyCommunicationAgentTrafficRecorder>();
    std::thread t([&] {
      try {
        if (agentServer) ag = std::make_unique<Sock>(ls, port, tls(useTls), rec, 20);
        else ag = std::make_unique<Sock>("127.0.0.1", port, tls(useTls), rec, 20);
      } catch (const std::exception& x) { bad = x.what(); }
    });
    if (agentServer) peer.fd = connectTo(port);
    else { peer.fd = accept(ls, 0, 0); close(ls); }
    if (useTls) peer.ssl = rawTls(peer.fd, !agentServer, {}, 0, "good");
    t.join();
    if (!ag || (useTls && !peer.ssl)) { T(Ev("failed").f("what", "connect: " + bad)); return; }
    // the peer writes some messages in pieces, then ends the connection
    Rng q(r.next());
    std::string all;
    // sometimes much, told as two pieces
    std::vector<int> piece;
    if (e % 6 >= 4) {
      int total = q.range(16384, 90000), at = q.chance(30) ? 0 : q.range(1, total);
      piece = {at, total - at};
      for (int len : piece) {
        Msg m{0, {}, ""};
        for (int k = 0; k < len; k++) m.bytes.push_back((char)q.next());
        Digest d;
        d.add(m);
        if (len) T(Ev("bulksend").f("me", 1).f("peer", 0).f("ch", 0).f("n", d.n).f("d", d.hex()));
        peer.write(m.bytes);
      }
    }
    if (piece.empty()) for (int i = q.below(4); i-- > 0;) {
      Msg m{0, {}, ""};
      int len = q.chance(20) ? q.range(500, 3000) : q.range(1, 40);
      for (int k = 0; k < len; k++) m.bytes.push_back((char)q.next());
      T(msgEv("send", 1, 0, 0, m));
      if (q.coin() && len > 1) {
        size_t cut = 1 + q.below(len - 1);
        peer.write(m.bytes.substr(0, cut));
        peer.write(m.bytes.substr(cut));
      } else peer.write(m.bytes);
      all += m.bytes;
    }
    auto take = [&](int len) {
      try {
        Digest d;
        d.add(recvMsg(*ag, 0, len));
        T(Ev("bulkrecv").f("me", 0).f("peer", 1).f("ch", 0).f("n", d.n).f("d", d.hex()));
      } catch (const std::exception& x) {
        T(Ev("recvfail").f("me", 0).f("peer", 1).f("ch", 0).f("type", 0).f("len", len));
      }
    };
    bool exact = q.coin();
    if (piece.size() && piece[0]) take(piece[0]);
    bool early = q.coin();  // receive something before the end
    size_t done = 0;
    auto recv = [&](int type, int len) {
      try {
        auto m = recvMsg(*ag, type, len);
        T(msgEv("recv", 0, 1, 0, m).f("len", len));
        done += wire(m);
        return true;
      } catch (const std::exception& x) {
        T(Ev("recvfail").f("me", 0).f("peer", 1).f("ch", 0).f("type", type).f("len", len));
        return false;
      }
    };
    if (early && all.size()) recv(0, 1 + q.below(all.size()));
    T(Ev("cut").f("peer", 1).f("me", 0).f("ch", 0).f("how", how));
    peer.end(how);
    usleep(15000);
    int tries = piece.size() ? 0 : q.range(1, 4);
    if (piece.size() && piece[1]) {
      if (exact) take(piece[1]);
      else if (q.coin()) {
        int more = q.coin() ? 1 : q.range(1, 40000), type = q.below(4);
        int len = type == 1 ? (piece[1] + more) * 8 : (piece[1] + more + 7) / Msg::size(type);
        recv(type, len);
      }
    }
    int sends = q.below(2) ? 5 : 0;
    if (q.coin()) sends = 0;
    for (int i = 0; i < tries; i++) {
      size_t left = all.size() - done;
      int type = q.chance(50) ? 0 : q.chance(50) ? 1 : q.chance(50) ? 2 : q.chance(50) ? 3 : 5;
      if (type == 5) recv(5, 1);
      else if (type == 1) recv(1, 1 + q.below(left * 8 + 10));
      else {
        int sz = Msg::size(type);
        recv(type, q.chance(40) ? left / sz : q.chance(50) ? (left + sz) / sz : q.below((left + 20) / sz + 1));
      }
    }
    recv(0, 1 + all.size() + (piece.size() ? piece[0] + piece[1] : 0));
    for (int i = 0; i < sends; i++) {
      Msg m = randomMsg(q, q.chance(60) ? 30 : q.range(1000, 6000));
      bool ok = true;
      try { sendMsg(*ag, m); } catch (const std::exception&) { ok = false; }
      T(Ev("sendbroken").f("me", 0).f("peer", 1).f("ch", 0).f("i", i).f("ok", ok));
      usleep(15000);
    }
    ag.reset();
    T(Ev("end"));
  }
}

// ---- pairing -----------------------------------------------------------------------------------
static void pairing(Args& ar, Trace& T, Watchdog& wd) {
  Rng r(ar.seed);
  Ports ports(ar.seed + 7);
  int episodes = ar.thorough ? 300 : 50;
  for (int e = 0; e < episodes; e++) {
    wd.tick();
    std::string kind = e % 5 == 4 ? "tls" : e % 5 == 3 ? "sock" : "mem";
    int n = kind == "mem" ? r.range(2, 5) : r.range(2, ar.thorough ? 4 : 3);
    T(Ev("begin").f("kind", kind).f("n", n));
    std::vector<int> jam;
    auto w = makeWorld(kind, n, ports, r, &jam);
    for (auto& x : w.err)
      if (!x.empty()) { T(Ev("failed").f("what", x)); return; }
    // per pair a number of agents; a common random order for sockets, any order per party in memory
    std::vector<std::pair<int, int>> order;
    for (int i = 0; i < n; i++)
      for (int j = i + 1; j < n; j++)
        for (int k = r.range(kind == "mem" ? 0 : 1, kind == "mem" ? 5 : 3); k-- > 0;) order.push_back({i, j});
    auto shuffle = [&](std::vector<std::pair<int, int>> v, Rng q) {
      for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[q.below(i)]);
      return v;
    };
    order = shuffle(order, Rng(r.next()));
    std::vector<uint64_t> sd(n);
    for (auto& s : sd) s = r.next();
    struct Got { int me, peer, k; std::vector<int> tok; };
    std::mutex gm;
    std::vector<Got> got;
    auto err = runParties(n, nullptr, [&](int me) {
      Rng q(sd[me]);
      auto mine = kind == "mem" ? shuffle(order, q) : order;
      std::map<int, std::vector<std::unique_ptr<cm::IPartyCommunicationAgent>>> ags;
      for (auto& pr : mine) {
        if (pr.first != me && pr.second != me) continue;
        int peer = pr.first == me ? pr.second : pr.first;
        if (q.chance(20)) usleep(500);
        int k = ags[peer].size();
        ags[peer].push_back(w.f[me]->create(peer, "name" + std::to_string(q.below(3))));
        T(Ev("create").f("me", me).f("peer", peer).f("k", k));
        wd.tick();
        if (q.chance(25)) {
          bool threw = false;
          try { w.f[me]->create(q.coin() ? me : n + 3, "bad"); } catch (const std::exception&) { threw = true; }
          T(Ev("refuse").f("ok", threw));
        }
      }
      for (auto& kv : ags)
        for (size_t k = 0; k < kv.second.size(); k++) kv.second[k]->sendT<int32_t>({me, kv.first, (int)k});
      for (auto& kv : ags)
        for (size_t k = 0; k < kv.second.size(); k++) {
          auto t = kv.second[k]->receiveT<int32_t>(3);
          std::lock_guard<std::mutex> g(gm);
          got.push_back({me, kv.first, (int)k, {t[0], t[1], t[2]}});
        }
      // sockets are closed when everybody has got everything: keep them until then
      static std::mutex km;
      static std::vector<std::map<int, std::vector<std::unique_ptr<cm::IPartyCommunicationAgent>>>> keep;
      std::lock_guard<std::mutex> g(km);
      keep.push_back(std::move(ags));
    });
    for (int s : jam)
      if (s >= 0) close(s);
    for (auto& x : err)
      if (!x.empty()) { T(Ev("failed").f("what", x)); return; }
    for (auto& g : got) T(Ev("token").f("me", g.me).f("peer", g.peer).f("k", g.k).f("tok", g.tok));
    T(Ev("end").f("agents", (int)got.size()));
  }
  // a peer that does not come
  for (int i = 0; i < 4; i++) {
    wd.tick();
    T(Ev("begin").f("kind", "nobody").f("n", 2));
    bool server = i % 2, t = i / 2, threw = false;
    int port = ports.take(4);
    try {
      SockF f(server ? 0 : 1, {{server ? 1 : 0, {"127.0.0.1", port}}}, tls(t), std::make_shared<fbpcf::util::MetricCollector>("p"), 1);
    } catch (const std::exception&) { threw = true; }
    T(Ev("refuse").f("ok", threw));
    T(Ev("end"));
  }
}

// ---- TLS authentication -------------------------------------------------------------------------
static int acceptUntil(int ls, std::atomic<bool>& stop) {
  while (!stop) {
    pollfd pf{ls, POLLIN, 0};
    if (poll(&pf, 1, 20) > 0) return accept(ls, 0, 0);
  }
  return -1;
}
static void auth(Args& ar, Trace& T, Watchdog& wd) {
  Rng r(ar.seed * 31 + ar.shard);
  Ports ports(ar.seed + 11);
  setenv("HOME", certDir.c_str(), 1);
  int episodes = ar.thorough ? 800 : 200;
  auto oneOf = [&](std::vector<std::string> v) { return v[r.below(v.size())]; };
  for (int e = 0; e < episodes; e++) {
    wd.tick();
    bool agentServer = e % 3 == 2, viaFactory = e % 4 == 1, dir = r.chance(15);
    // mostly one thing is wrong, sometimes nothing, sometimes several
    std::string addr = oneOf({"127.0.0.1", "127.0.0.1", "127.0.0.2", "localhost"});
    Cert c{oneOf({"good", "evil"}), addr, "valid", oneOf({"cn", "san"})};
    std::string ca = c.issuer, peerca = r.coin() ? "" : c.issuer;
    int ver = TLS1_3_VERSION, proto = 1;
    for (int wrongs = r.chance(25) ? 0 : r.chance(85) ? 1 : 2; wrongs-- > 0;) switch (r.below(agentServer ? 3 : 9)) {
      case 0: ver = TLS1_2_VERSION; break;
      case 1: proto = 0; break;  // does not speak TLS at all
      case 2: c.issuer = oneOf({"good", "evil", "self"}); break;
      case 3: c.name = oneOf({"127.0.0.1", "127.0.0.2", "localhost", "0.0.1", "127.0.0", "localhost.example", "27.0.0.1", "host", "x.127.0.0.1"}); break;
      case 4: c.time = "expired"; break;
      case 5: c.time = "future"; break;
      case 6: c.issuer = "self"; break;
      case 7: ca = ca == "good" ? "evil" : "good"; break;
      case 8: ca = ""; break;
    }
    if (dir && viaFactory) ca = "";  // such a factory knows no authority
    int ls = listenOn(0), port = portOf(ls);
    std::atomic<int> target{port};
    bool ok = false, echo = false;
    std::string secret = "secret-" + std::to_string(r.next()) + "-payload-" + std::to_string(r.next()), got;
    bool args = r.coin();
    auto info = tls(true, c, ca);
    if (r.coin() && !ca.empty()) info.rootCaCertPath = certDir + "/" + ca.substr(0, 1);
    if (args) {
      auto rel = [&](const std::string& x) { return x.empty() ? "" : x.substr(certDir.size() + 1); };
      // an empty authority cannot be said this way
      if (!ca.empty()) info = cm::getTlsInfoFromArgs(true, rel(info.rootCaCertPath), rel(info.certPath), rel(info.keyPath), rel(info.passphrasePath));
    }
    auto rec = std::make_shared<cm::PartyCommunicationAgentTrafficRecorder>();
    T(Ev("begin").f("kind", "auth").f("n", 2));
    // a relay that sees what crosses the wire
    int relay = listenOn(0), rport = portOf(relay);
    std::string seen;
    std::atomic<bool> stop{false};
    std::thread rel([&] {
      int a = acceptUntil(relay, stop);
      if (a < 0) return;
      int b = connectTo(target);
      bool ea = false, eb = false;
      while (!(ea && eb) && !stop) {
        pollfd p[2] = {{ea ? -1 : a, POLLIN, 0}, {eb ? -1 : b, POLLIN, 0}};
        if (poll(p, 2, 20) <= 0) continue;
        char buf[4096];
        for (int i = 0; i < 2; i++) {
          if (!p[i].revents) continue;
          int k = read(p[i].fd, buf, sizeof buf);
          if (k <= 0) {
            (i ? eb : ea) = true;
            shutdown(i ? a : b, SHUT_WR);
          } else {
            seen.append(buf, k);
            if (::send(i ? a : b, buf, k, 0) < 0) (i ? ea : eb) = true;
          }
        }
      }
      close(a);
      close(b);
    });
    // via a factory: its first connection is all right, the one judged is that of the agent it creates
    int first = -1, fport = 0;
    if (viaFactory && !agentServer) first = listenOn(0), fport = portOf(first);
    if (viaFactory && agentServer) fport = ports.take(3);
    std::thread peer([&] {
      int fd0 = -1;
      SSL* s0 = nullptr;
      if (viaFactory) {
        fd0 = agentServer ? connectTo(fport) : acceptUntil(first, stop);
        if (fd0 >= 0) s0 = rawTls(fd0, !agentServer, {ca.empty() ? "good" : ca, addr}, 0, "");
        int32_t p = rport;
        if (s0 && !agentServer) SSL_write(s0, &p, 4);
        if (s0 && agentServer && SSL_read(s0, &p, 4) == 4) target = p;
      }
      int fd = agentServer ? connectTo(rport) : acceptUntil(ls, stop);
      if (fd >= 0 && !proto) {
        // sends back what it gets
        char buf[256];
        std::string junk = "hello, this is not TLS at all, is it? ........................";
        if (agentServer) ::send(fd, junk.data(), junk.size(), 0);
        for (int have = 0; have < (int)secret.size();) {
          pollfd pf{fd, POLLIN, 0};
          if (poll(&pf, 1, 3000) <= 0) break;
          int k = read(fd, buf, sizeof buf);
          if (k <= 0) break;
          got.append(buf, k);
          have += k;
          if (::send(fd, buf, k, 0) < 0) break;
          if (got.find(secret.substr(0, 10)) == std::string::npos) break;
        }
      } else if (fd >= 0) {
        SSL* s = rawTls(fd, !agentServer, c, ver, agentServer ? peerca : "");
        if (s) {
          char buf[256];
          int want = secret.size(), have = 0;
          while (have < want) {
            int k = SSL_read(s, buf + have, want - have);
            if (k <= 0) break;
            have += k;
          }
          got.assign(buf, have);
          if (have == want) SSL_write(s, buf, have);
          SSL_shutdown(s);
          SSL_free(s);
        }
      }
      if (fd >= 0) close(fd);
      if (s0) SSL_free(s0);
      if (fd0 >= 0) close(fd0);
    });
    std::unique_ptr<cm::IPartyCommunicationAgentFactory> f;
    try {
      std::unique_ptr<cm::IPartyCommunicationAgent> ag;
      std::string d = c.file() + "_dir";
      if (dir) {
        certOf(c);
        mkdir(d.c_str(), 0777);
        for (auto x : {"cert", "key"}) symlink((c.file() + "_" + x + ".pem").c_str(), (d + "/" + x + ".pem").c_str());
        symlink((certDir + "/pass.pem").c_str(), (d + "/passphrase.pem").c_str());
      }
      if (viaFactory && dir) {
        f = std::make_unique<SockF>(agentServer ? 0 : 1, std::map<int, SockF::PartyInfo>{{agentServer ? 1 : 0, {agentServer ? "" : addr, fport}}}, true, d, std::string("p"));
        ag = f->create(agentServer ? 1 : 0, "x");
      } else if (viaFactory) {
        f = std::make_unique<SockF>(agentServer ? 0 : 1, std::map<int, SockF::PartyInfo>{{agentServer ? 1 : 0, {agentServer ? "" : addr, fport}}},
                                    info, std::make_shared<fbpcf::util::MetricCollector>("p"), 20);
        ag = f->create(agentServer ? 1 : 0, "x");
      } else if (dir) {
        if (agentServer) ag = std::make_unique<Sock>(ls, port, true, d, rec);
        else ag = std::make_unique<Sock>(addr, rport, true, d, rec);
      } else if (agentServer) ag = std::make_unique<Sock>(ls, port, info, rec, 20);
      else ag = std::make_unique<Sock>(addr, rport, info, rec, 20);
      ok = true;
      ag->send(std::vector<unsigned char>(secret.begin(), secret.end()));
      auto b = ag->receive(secret.size());
      echo = std::string(b.begin(), b.end()) == secret && got == secret;
    } catch (const std::exception& x) {
      echo = false;
    }
    if (!ok) stop = true;
    peer.join();
    stop = true;
    rel.join();
    close(relay);
    if (!agentServer || viaFactory) close(ls);
    if (first >= 0) close(first);
    bool leak = seen.find(secret.substr(0, 20)) != std::string::npos;
    T(Ev("handshake").f("server", agentServer).f("factory", viaFactory).f("dir", dir && !viaFactory).f("issuer", c.issuer).f("name", c.name).f("time", c.time).f("in", c.in)
          .f("ca", ca).f("peerca", peerca).f("addr", addr).f("tls13", ver == TLS1_3_VERSION).f("tls", proto).f("args", args)
          .f("ok", ok).f("echo", echo).f("leak", leak));
    T(Ev("end"));
  }
}

int main(int c, char** v) {
  signal(SIGPIPE, SIG_IGN);
  Args ar(c, v);
  Trace T(ar.out);
  Watchdog wd(T, 25);
  if (ar.mode != "mem") makeCerts();
  if (ar.mode == "broken") broken(ar, T, wd);
  else if (ar.mode == "pair") pairing(ar, T, wd);
  else if (ar.mode == "auth") auth(ar, T, wd);
  else messages(ar, T, wd);
  T.flush();
  return 0;
}
