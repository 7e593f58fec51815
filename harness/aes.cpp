// Records the AES circuit over plain and over secret bits, its counter mode, and the MACs.
#include "parties.h"
#include "fbpcf/engine/util/aes.h"
#include "fbpcf/frontend/Bit.h"
#include "fbpcf/mpc_std_lib/aes_circuit/AesCircuitCtrFactory.h"
#include "fbpcf/mpc_std_lib/aes_circuit/AesCircuitFactory.h"
#include "fbpcf/mpc_std_lib/aes_circuit/DummyAesCircuitFactory.h"
#include "fbpcf/primitive/mac/AesCmacFactory.h"
#include "fbpcf/primitive/mac/S2vFactory.h"

using namespace vh;
namespace ac = fbpcf::mpc_std_lib::aes_circuit;
namespace mac = fbpcf::primitive::mac;
using fbpcf::engine::util::Aes;
using Bytes = std::vector<unsigned char>;
using Bits = std::vector<bool>;

static std::string jb(const Bytes& r) {
  std::string s = "[";
  for (size_t i = 0; i < r.size(); i++) s += (i ? "," : "") + std::to_string((int)r[i]);
  return s + "]";
}
// in pieces of a block
static std::string jblocks(const Bytes& r) {
  std::string s = "[";
  for (size_t i = 0; i + 16 <= r.size(); i += 16) s += (i ? "," : "") + jb(Bytes(r.begin() + i, r.begin() + i + 16));
  return s + "]";
}
static Bytes rnd(Rng& r, size_t n) {
  Bytes b(n);
  int how = r.below(8);
  for (auto& x : b) x = how == 0 ? 0 : how == 1 ? 255 : how == 2 ? (r.chance(10) ? 1 << r.below(8) : 0) : r.next();
  return b;
}
static Bits bitsOf(const Bytes& b) {
  Bits v(b.size() * 8);
  for (size_t i = 0; i < v.size(); i++) v[i] = b[i / 8] >> (7 - i % 8) & 1;
  return v;
}
static Bytes bytesOf(const Bits& v) {
  Bytes b(v.size() / 8);
  for (size_t i = 0; i < v.size(); i++) if (v[i]) b[i / 8] |= 1 << (7 - i % 8);
  return b;
}
static Bytes expand(const Bytes& key, bool dec) {
  __m128i k;
  memcpy(&k, key.data(), 16);
  auto e = dec ? Aes::expandDecryptionKey(k) : Aes::expandEncryptionKey(k);
  Bytes b(176);
  memcpy(b.data(), e.data(), 176);
  return b;
}

struct Lane { Bytes key, ks, text, mask, out; };
static std::string jlanes(const std::vector<Lane>& l) {
  return jmap(l, [](const Lane& x) {
    return "{\"key\":" + jb(x.key) + ",\"ks\":" + jblocks(x.ks) + ",\"in\":" + jblocks(x.text) + ",\"mask\":" + jblocks(x.mask) + ",\"out\":" + jblocks(x.out) + "}";
  });
}
static std::vector<Lane> lanes(Rng& r, const std::string& what, int n, int blocks) {
  std::vector<Lane> v(n);
  Bytes one = rnd(r, 16);
  bool same = r.coin();
  for (auto& x : v) {
    x.key = same ? one : rnd(r, 16);
    x.ks = expand(x.key, what == "dec");
    x.text = rnd(r, 16 * blocks);
    if (what[0] == 'c') x.mask = rnd(r, 16 * blocks);
  }
  return v;
}
static const char* whats[] = {"enc", "dec", "ctrEnc", "ctrDec"};

template <class B> std::vector<B> apply(const std::string& what, const std::vector<B>& text, const std::vector<B>& ks, const std::vector<B>& mask, bool dummy) {
  if (what == "ctrEnc") return ac::AesCircuitCtrFactory<B>().create()->encrypt(text, ks, mask);
  if (what == "ctrDec") return ac::AesCircuitCtrFactory<B>().create()->decrypt(text, ks, mask);
  std::unique_ptr<ac::IAesCircuit<B>> c;
  if (dummy) c = ac::insecure::DummyAesCircuitFactory<B>().create(); else c = ac::AesCircuitFactory<B>().create();
  return what == "enc" ? c->encrypt(text, ks) : c->decrypt(text, ks);
}

static void plain(Trace& T, Rng& r) {
  std::string what = whats[r.below(4)];
  auto v = lanes(r, what, 1, r.range(1, 5));
  auto& x = v[0];
  auto o = apply<bool>(what, bitsOf(x.text), bitsOf(x.ks), bitsOf(x.mask), false);
  x.out = bytesOf(o);
  T(Ev("circuit").f("kind", "bool").f("what", what.c_str()).raw("lanes", jlanes(v)));
}
static void sizes(Trace& T, Rng& r) {
  std::string what = whats[r.below(4)];
  static const int odd[] = {0, 1, 64, 127, 128, 129, 192, 255, 256, 320, 384, 448};
  auto some = [&]() -> int { return r.chance(50) ? odd[r.below(12)] : r.coin() ? 8 * r.below(60) : r.below(500); };
  int n = some(), k = r.coin() ? 1408 : r.coin() ? r.range(0, 24) * 64 : r.range(1300, 1500), m = r.coin() ? n : some();
  bool ok = true, dummy = r.chance(30) && what.size() == 3;
  int len = 0;
  try { len = apply<bool>(what, Bits(n), Bits(k), Bits(m), dummy).size(); } catch (const std::exception&) { ok = false; }
  T(Ev("sizes").f("what", what.c_str()).f("dummy", dummy).f("n", n).f("k", k).f("m", m).f("ok", ok).f("len", len));
}
using SecBit = fbpcf::frontend::Bit<true, 0, true>;
static void secret(Trace& T, Rng& r, int i) {
  static const char* kinds[] = {"eager", "lazy", "netplain"};
  std::string kind = kinds[i % 3], what = whats[r.below(4)];
  auto v = lanes(r, what, r.range(1, 4), r.range(1, 2));
  int owner = r.below(2), keyOwner = r.below(2);
  Bits got[2];
  std::vector<Bytes> out[2];
  auto err = runMpc(kind, 2, r.below(3), r.next(), [&](int me, fbpcf::scheduler::IArithmeticScheduler&, AgentFactory&) {
    auto share = [&](Bytes Lane::*f, int who) {
      std::vector<Bits> b;
      for (auto& x : v) b.push_back(bitsOf(x.*f));
      std::vector<SecBit> s;
      for (size_t k = 0; k < b[0].size(); k++) {
        Bits col(v.size());
        for (size_t j = 0; j < v.size(); j++) col[j] = me == who && b[j][k];
        s.push_back(SecBit(col, who));
      }
      return s;
    };
    auto text = share(&Lane::text, owner), ks = share(&Lane::ks, keyOwner), mask = share(&Lane::mask, owner);
    auto o = apply<SecBit>(what, text, ks, mask, false);
    for (int to = 0; to < 2; to++) {
      std::vector<Bits> b(v.size());
      for (auto& x : o) { auto c = x.openToParty(to).getValue(); for (size_t j = 0; j < v.size(); j++) b[j].push_back(c.at(j)); }
      if (to == me) for (auto& x : b) out[me].push_back(bytesOf(x));
    }
  });
  for (auto& e : err) if (!e.empty()) T(Ev("failed").f("what", e.c_str()));
  for (int p = 0; p < 2; p++) {
    if (out[p].size() != v.size()) { T(Ev("failed").f("what", "no result")); continue; }
    for (size_t j = 0; j < v.size(); j++) v[j].out = out[p][j];
    T(Ev("circuit").f("kind", kind.c_str()).f("what", what.c_str()).raw("lanes", jlanes(v)));
  }
}
static void macs(Trace& T, Rng& r, bool big) {
  Bytes key = rnd(r, 16);
  bool s2v = r.coin();
  std::unique_ptr<mac::IMac> m;
  if (s2v) m = mac::S2vFactory().create(key); else m = mac::AesCmacFactory().create(key);
  int n = r.range(1, 4);
  for (int i = 0; i < n; i++) {
    size_t len = r.chance(50) ? r.below(50) : 16 * r.below(5) + r.below(3) - (r.coin() ? 1 : 0);
    if (len > 200) len = 0;
    if (big && i == 0) len = r.range(4090, 4400);
    Bytes text = rnd(r, len);
    Bytes out(16);
    bool wide = r.coin();
    if (wide) { auto x = m->getMacM128i(text); memcpy(out.data(), &x, 16); } else out = m->getMac128(text);
    T(Ev("mac").f("s2v", s2v).raw("key", jb(key)).raw("text", jb(text)).raw("out", jb(out)));
  }
}

int main(int argc, char** argv) {
  Args a(argc, argv);
  Trace T(a.out);
  Watchdog dog(T, 60);
  bool mpc = a.mode == "mpc";
  int n = mpc ? (a.thorough ? 120 : 9) : (a.thorough ? 2500 : 200);
  for (int i = 0; i < n; i++) {
    dog.tick();
    Rng r(a.seed * 1000003 + a.shard * 7919 + i);
    T(Ev("begin"));
    if (mpc) secret(T, r, i);
    else if (i % 4 == 0) for (int j = 0; j < 4; j++) sizes(T, r);
    else if (i % 4 == 1) plain(T, r);
    else macs(T, r, i == 2);
  }
  return 0;
}
