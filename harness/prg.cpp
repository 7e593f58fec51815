// Records uses of the AES primitives and the generator (mode prg) and of the asynchronous buffer (mode buf).
#include "common.h"
#include "fbpcf/engine/util/AesPrg.h"
#include "fbpcf/engine/util/AesPrgFactory.h"
#include "fbpcf/engine/util/AsyncBuffer.h"
#include "fbpcf/engine/util/Masker.h"
#include "fbpcf/engine/util/aes.h"
#include "fbpcf/engine/util/util.h"

using namespace vh;
namespace eu = fbpcf::engine::util;

static std::string jm(const __m128i& v) {
  unsigned char b[16];
  memcpy(b, &v, 16);
  std::string r = "[";
  for (int i = 0; i < 16; i++) r += (i ? "," : "") + std::to_string((int)b[i]);
  return r + "]";
}
static std::string jms(const std::vector<__m128i>& v) { return jmap(v, jm); }
static __m128i rnd(Rng& r) {
  unsigned char b[16];
  for (auto& x : b) x = r.chance(10) ? (r.coin() ? 255 : 0) : (unsigned char)r.next();
  __m128i v;
  memcpy(&v, b, 16);
  return v;
}

// a long request, of which some stretches are written down
static void longRequest(Trace& T, Rng& r, int i, eu::IPrg* p, eu::AesPrg* a) {
  int blocks = r.chance(30) ? 1 << r.range(8, 16) : r.range(200, 80000);
  std::vector<unsigned char> out;
  int kind = a ? r.range(3, 4) : r.below(3);
  if (kind == 0) out = p->getRandomBytes(16 * blocks + r.below(16));
  else if (kind == 1) {
    for (auto x : p->getRandomUInt64(2 * blocks + r.below(2)))
      for (int j = 7; j >= 0; j--) out.push_back(x >> (8 * j));
  } else if (kind == 3) {
    std::vector<__m128i> v(blocks, rnd(r));
    a->getRandomDataInPlace(v);
    out.resize(16 * blocks);
    memcpy(out.data(), v.data(), out.size());
  } else {
    std::vector<bool> b(128 * (blocks / 8 + 1));
    if (kind == 2) b = p->getRandomBits(b.size());
    else a->getRandomBitsInPlace(b);
    out.resize(b.size() / 8);
    for (size_t j = 0; j < b.size(); j++) out[j / 8] |= b[j] << (j % 8);
  }
  std::vector<std::string> at;
  int n = out.size();
  auto sample = [&](int from) {
    if (from < 0 || from >= n) return;
    std::vector<int> piece;
    for (int j = from; j < std::min(n, from + 20); j++) piece.push_back(out[j]);
    at.push_back("{\"from\":" + std::to_string(from) + ",\"out\":" + jmap(piece, [](int x) { return std::to_string(x); }) + "}");
  };
  sample(0);
  sample(n - 20);
  for (int k = 0; k < 6; k++) sample(r.below(n));
  for (int k = 0; k < 3; k++) sample((16 << r.range(0, 16)) - r.below(32));
  T(Ev("long").f("g", i).f("bufd", p != nullptr).f("n", n).raw("at", jmap(at, [](const std::string& x) { return x; })));
}

static void prg(Args& ar, Trace& T, Watchdog& wd) {
  Rng r(ar.seed * 1000 + ar.shard);
  int eps = ar.thorough ? 60 : 12;
  for (int e = 0; e < eps; e++) {
    wd.tick();
    T(Ev("begin").f("n", e));
    struct G { std::unique_ptr<eu::IPrg> p; std::unique_ptr<eu::AesPrg> a; };
    std::vector<G> gs;
    int k = r.range(1, 3);
    __m128i shared = rnd(r);
    for (int i = 0; i < k; i++) {
      __m128i seed = r.coin() ? shared : rnd(r);
      bool buffered = r.chance(65);
      G g;
      if (!buffered) g.a = std::make_unique<eu::AesPrg>(seed);
      else if (r.coin()) g.p = std::make_unique<eu::AesPrg>(seed, (int)r.range(1, 9));
      else g.p = eu::AesPrgFactory(r.coin() ? 1024 : r.range(1, 40)).create(seed);
      T(Ev("prg").f("g", i).raw("seed", jm(seed)).f("buffered", buffered));
      gs.push_back(std::move(g));
    }
    int steps = r.range(4, 14);
    for (int s = 0; s < steps; s++) {
      int i = r.below(k);
      auto& g = gs[i];
      if (r.chance(4)) { longRequest(T, r, i, g.p.get(), g.a.get()); continue; }
      int n = r.chance(8) ? 0 : r.chance(15) ? r.range(60, 300) : r.range(1, 40);
      if (g.p) {
        int w = r.below(4);
        if (w == 0) T(Ev("bytes").f("g", i).f("n", n).f("out", g.p->getRandomBytes(n)));
        else if (w == 1) T(Ev("bits").f("g", i).f("n", n).f("out", g.p->getRandomBits(n)));
        else if (w == 2) {
          n = n > 40 ? n / 8 : n / 2;
          auto v = g.p->getRandomUInt64(n);
          std::vector<int> b;
          for (auto x : v)
            for (int j = 7; j >= 0; j--) b.push_back((x >> (8 * j)) & 255);
          T(Ev("u64").f("g", i).f("n", n).f("out", b));
        } else {
          auto m = g.p->getRandomM128i();
          T(Ev("bytes").f("g", i).f("n", 16).raw("out", jm(m)));
        }
      } else {
        int w = r.below(5);
        if (w < 2) {
          n = n > 40 ? n / 8 : n / 2;
          std::vector<__m128i> v(n, rnd(r));
          g.a->getRandomDataInPlace(v);
          std::string flat;
          for (auto& x : v) { auto t = jm(x); flat += (flat.empty() ? "" : ",") + t.substr(1, t.size() - 2); }
          T(Ev("inplace").f("g", i).f("n", n).raw("out", "[" + flat + "]"));
        } else if (w < 4) {
          auto v = r.bits(n);
          g.a->getRandomBitsInPlace(v);
          T(Ev("bitsinplace").f("g", i).f("n", n).f("out", v));
        } else {
          bool ok = true;
          try {
            if (r.coin()) g.a->getRandomBytes(n);
            else if (r.coin()) g.a->getRandomBits(n);
            else g.a->getRandomUInt64(n);
          } catch (const std::exception&) { ok = false; }
          T(Ev(ok ? "failed" : "refused").f("g", i));
        }
      }
    }
    for (int s = 0; s < 3; s++) {
      __m128i key = r.chance(20) ? eu::Aes::getFixedKey() : rnd(r);
      std::vector<__m128i> v;
      for (int i = r.range(1, 6); i > 0; i--) v.push_back(r.chance(20) ? key : rnd(r));
      auto w = v;
      eu::Aes c(key);
      bool hash = r.coin();
      if (hash) c.inPlaceHash(w);
      else c.encryptInPlace(w);
      T(Ev("aes").raw("key", jm(key)).f("hash", hash).raw("in", jms(v)).raw("out", jms(w)));
    }
    {
      auto key = rnd(r);
      auto a = eu::Aes::expandEncryptionKey(key);
      auto b = eu::Aes::expandDecryptionKey(key);
      T(Ev("keyexp").raw("key", jm(key)).raw("enc", jms({a.begin(), a.end()})).raw("dec", jms({b.begin(), b.end()})));
    }
    {
      int idx = r.coin() ? r.below(4) : r.below(16000);
      std::vector<__m128i> v;
      for (int i = r.range(1, 5); i > 0; i--) v.push_back(rnd(r));
      auto in = v;
      T(Ev("expand").f("index", idx).raw("in", jms(in)).raw("out", jms(eu::Expander(idx).expand(std::move(v)))));
    }
    for (int s = 0; s < 6; s++) {
      auto a = rnd(r), b = a;
      static const int at[] = {0, 1, 7, 63, 64, 65, 127, 128};
      int by = r.coin() ? at[r.below(8)] : r.range(0, 127);
      eu::lShiftByBitsInPlace(b, by);
      T(Ev("shift").f("by", by).raw("in", jm(a)).raw("out", jm(b)));
      auto z = a, o = a;
      eu::setLsbTo0(z);
      eu::setLsbTo1(o);
      std::vector<unsigned char> by16(16);
      memcpy(by16.data(), &a, 16);
      T(Ev("lsb").raw("in", jm(a)).f("lsb", eu::getLsb(a)).f("msb", eu::getMsb(a)).raw("zero", jm(z)).raw("one", jm(o))
            .raw("back", jm(eu::buildM128i(by16))).raw("low64", jw(eu::getLast64Bits(a))));
      int n = r.chance(15) ? r.range(129, 200) : r.coin() ? at[r.below(8)] : r.range(0, 128);
      std::vector<bool> bits(n);
      bool ok = true;
      try { eu::extractLnbToVector(a, bits); } catch (const std::exception&) { ok = false; }
      T(Ev("extract").f("n", n).f("ok", ok).raw("in", jm(a)).f("out", bits));
      std::vector<unsigned char> num;
      for (int i = r.range(0, 24); i > 0; i--) num.push_back(r.chance(15) ? 0 : r.next());
      uint32_t m = r.coin() ? r.range(1, 300) : r.range(1, (1 << 23) - 1);
      BN_CTX* ctx = BN_CTX_new();
      T(Ev("mod").f("m", m).f("in", num).f("out", eu::mod(num, m, ctx)));
      BN_CTX_free(ctx);
    }
    for (int s = 0; s < 8; s++) {
      auto k0 = rnd(r), k1 = rnd(r);
      bool c = r.coin(), b0 = r.coin(), b1 = r.coin();
      auto kb = c ? k1 : k0;
      bool g = eu::Masker<bool>::unmask(kb, c, eu::Masker<bool>::mask(b0, k0), eu::Masker<bool>::mask(b1, k1));
      T(Ev("maskbit").f("choice", c).f("v0", b0).f("v1", b1).f("got", g));
      uint64_t w0 = r.word(), w1 = r.word();
      auto gw = eu::Masker<uint64_t>::unmask(kb, c, eu::Masker<uint64_t>::mask(w0, k0), eu::Masker<uint64_t>::mask(w1, k1));
      T(Ev("maskbit").f("choice", c).raw("v0", jw(w0)).raw("v1", jw(w1)).raw("got", jw(gw)));
    }
  }
}

// T is what the buffer holds
template <class V>
static void buffer(Trace& T, Rng& r, int e) {
  int size = r.chance(10) ? r.bigSize() : r.range(1, 12);
  int style = r.below(4);  // ready at once, deferred, in the background, in the background slowly
  T(Ev("begin").f("n", e));
  std::atomic<int> made{0}, val{0};
  auto fill = [&, style](uint64_t n, uint64_t pause) {
    if (style == 3) std::this_thread::sleep_for(std::chrono::microseconds(pause));
    std::vector<V> v;
    for (uint64_t i = 0; i < n; i++) v.push_back((V)(val++));
    std::vector<int> j(v.begin(), v.end());
    T(Ev("gend").f("vals", j));
    return v;
  };
  {
    auto rg = std::make_shared<Rng>(r.next());
    eu::AsyncBuffer<V> b(size, [&, rg](uint64_t n) -> std::future<std::vector<V>> {
      T(Ev("gen").f("size", (int)n));
      uint64_t pause = rg->below(1500);
      if (style == 0) {
        std::promise<std::vector<V>> p;
        p.set_value(fill(n, 0));
        return p.get_future();
      }
      return std::async(style == 1 ? std::launch::deferred : std::launch::async, fill, n, pause);
    });
    int asks = r.range(0, 9);
    for (int i = 0; i < asks; i++) {
      int n = r.chance(10) ? 0 : r.chance(30) ? size * r.range(1, 3) + r.range(-1, 1) : r.range(1, 2 * size);
      if (n < 0) n = 0;
      T(Ev("get").f("size", n));
      auto v = b.getData(n);
      std::vector<int> j(v.begin(), v.end());
      T(Ev("got").f("vals", j));
      if (style == 3 && r.coin()) std::this_thread::sleep_for(std::chrono::microseconds(r.below(1500)));
    }
  }
  T(Ev("destroyed").f("made", made.load()));
}

int main(int c, char** v) {
  Args ar(c, v);
  Trace T(ar.out);
  Watchdog wd(T, 25);
  if (ar.mode == "prg") prg(ar, T, wd);
  else {
    Rng r(ar.seed * 1000 + ar.shard);
    int eps = ar.thorough ? 900 : 150;
    for (int e = 0; e < eps; e++) {
      wd.tick();
      if (r.chance(40)) buffer<uint64_t>(T, r, e);
      else if (r.coin()) buffer<unsigned char>(T, r, e);
      else buffer<bool>(T, r, e);
    }
  }
  T.flush();
  return 0;
}
