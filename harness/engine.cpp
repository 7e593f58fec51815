// Records what the secret-share engine does, operation by operation, at every party:
// shares before and after, tuples taken, values opened, bytes sent.
//   mode "mask": tuples dealt by us and recorded;  mode "real": the tuple generators of the system
#include "common.h"
#include "dealer.h"
#include "fbpcf/engine/SecretShareEngineFactory.h"
#include "fbpcf/engine/communication/AgentMapHelper.h"

using namespace vh;
using namespace fbpcf;
using namespace fbpcf::engine;
using V = std::vector<uint64_t>;

struct OpenNote { std::string b = "[]", a = "[]"; bool any = false; };

class CommProbe final : public communication::ISecretShareEngineCommunicationAgent {
 public:
  CommProbe(std::unique_ptr<communication::ISecretShareEngineCommunicationAgent> c, OpenNote& n) : c_(std::move(c)), n_(n) {}
  std::map<int, __m128i> exchangeKeys(const std::map<int, __m128i>& k) override { return c_->exchangeKeys(k); }
  std::vector<bool> openSecretsToAll(const std::vector<bool>& s) override {
    if (!s.empty()) { n_.b = js(s); n_.any = true; }
    return c_->openSecretsToAll(s);
  }
  std::vector<uint64_t> openSecretsToAll(const std::vector<uint64_t>& s) override {
    if (!s.empty()) { n_.a = jws(s); n_.any = true; }
    return c_->openSecretsToAll(s);
  }
  std::vector<bool> openSecretsToParty(int id, const std::vector<bool>& s) override { return c_->openSecretsToParty(id, s); }
  std::vector<uint64_t> openSecretsToParty(int id, const std::vector<uint64_t>& s) override { return c_->openSecretsToParty(id, s); }
  std::pair<uint64_t, uint64_t> getTrafficStatistics() const override { return c_->getTrafficStatistics(); }

 private:
  std::unique_ptr<communication::ISecretShareEngineCommunicationAgent> c_;
  OpenNote& n_;
};

struct Reg { bool a, pub; V val; std::vector<V> sh; };
struct Sched { std::string kind; std::vector<int> ins; std::vector<uint32_t> idx; bool a; };

struct Episode {
  Trace& T; Rng& r; Watchdog& wd;
  int n; bool rec, comp;
  std::shared_ptr<Net> net = std::make_shared<Net>();
  std::vector<std::unique_ptr<ISecretShareEngine>> eng;
  std::vector<TupleNote> tn;
  std::vector<OpenNote> on;
  std::vector<Reg> regs;
  std::vector<Sched> pend, last;
  std::mutex m;
  std::vector<V> sent;
  std::vector<std::unique_ptr<AgentFactory>> fac;
  bool failed = false;
  bool arithOk = true;

  Episode(Trace& T, Rng& r, Watchdog& wd) : T(T), r(r), wd(wd) {}
  template <class F> bool all(const char* what, F f) {
    wd.tick();
    auto err = runParties(n, net, f);
    for (auto& e : err) if (!e.empty()) { T(Ev("failed").f("next", what).f("err", err)); failed = true; return false; }
    return true;
  }
  std::string jv(bool a, const V& v) { return a ? jws(v) : js(v); }
  std::string jsh(bool a, const std::vector<V>& s) { return jmap(s, [&](const V& v) { return jv(a, v); }); }
  std::string jsent() { return jmap(sent, [](const V& v) { return js(v); }); }
  void clearSent() { std::lock_guard<std::mutex> g(m); sent.assign(n, V(n, 0)); }
  static std::vector<bool> bv(const V& v) { std::vector<bool> o; for (auto x : v) o.push_back(x); return o; }
  static V uv(const std::vector<bool>& v) { V o; for (bool x : v) o.push_back(x); return o; }

  void start(std::string mode) {
    rec = mode == "mask";
    n = rec ? r.range(2, 5) : r.range(2, 3);
    comp = rec ? r.coin() : n == 2;
    eng.resize(n); tn.resize(n); on.resize(n); fac.resize(n);
    net->onOp = [this](const NetEvent& e) { if (e.send) { std::lock_guard<std::mutex> g(m); sent[e.from][e.to] += e.n; } };
    clearSent();
    uint64_t seed = r.next();
    int kind = r.below(3);
    if (r.chance(rec ? 12 : 30)) big = r.bigSize();
    if (!rec) arithOk = kind != 0;
    T(Ev("begin").f("n", n).f("comp", comp).f("rec", rec));
    all("create", [&](int p) {
      fac[p] = std::make_unique<AgentFactory>(net, p);
      auto& f = *fac[p];
      if (rec) {
        auto c = std::make_unique<communication::SecretShareEngineCommunicationAgent>(p, communication::getAgentMap(n, p, f));
        eng[p] = std::make_unique<SecretShareEngine>(
            std::make_unique<Dealer>(p, n, seed, comp, &tn[p]), std::make_unique<IntDealer>(p, n, seed + 1, &tn[p]),
            std::make_unique<CommProbe>(std::move(c), on[p]), std::make_unique<engine::util::AesPrgFactory>(), p, n);
      } else {
        auto mc = std::make_shared<fbpcf::util::MetricCollector>("m");
        auto rcot = std::shared_ptr<tg::oblivious_transfer::IRandomCorrelatedObliviousTransferFactory>(tg::oblivious_transfer::createClassicRcotFactory());
        size_t buf = 512;
        std::unique_ptr<tg::ITupleGeneratorFactory> bf;
        std::unique_ptr<tg::IArithmeticTupleGeneratorFactory> af = std::make_unique<tg::NullArithmeticTupleGeneratorFactory>();
        auto ps = std::make_shared<tg::ProductShareGeneratorFactory>(
            std::make_unique<engine::util::AesPrgFactory>(buf),
            std::make_unique<tg::oblivious_transfer::RcotBasedBidirectionObliviousTransferFactory>(p, f, rcot));
        if (n == 2) bf = std::make_unique<tg::TwoPartyTupleGeneratorFactory>(rcot, f, p, buf, mc);
        else bf = std::make_unique<tg::TupleGeneratorFactory>(ps, std::make_unique<engine::util::AesPrgFactory>(), buf, p, n, mc);
        if (arithOk) af = std::make_unique<tg::ArithmeticTupleGeneratorFactory>(ps, std::make_unique<engine::util::AesPrgFactory>(), buf / 8, p, n);
        eng[p] = getEngineFactoryWithTupleGeneratorFactories(p, n, f, std::move(bf), std::move(af))->create();
      }
    });
  }
  uint64_t val(bool a) { return a ? r.word() : r.below(2); }
  int add(Reg x) { regs.push_back(x); return regs.size() - 1; }
  size_t big = 0;  // a long batch this episode likes
  size_t size() { return big && r.chance(35) ? big : r.chance(55) ? 1 : r.chance(10) ? r.range(9, 40) : r.range(1, 7); }
  template <class P> int pick(P p) {
    std::vector<int> c;
    for (size_t i = 0; i < regs.size(); i++) if (p(regs[i])) c.push_back(i);
    if (c.empty()) return -1;
    return r.chance(60) ? c[c.size() - 1 - r.below(std::min<size_t>(c.size(), 12))] : c[r.below(c.size())];
  }
  void input(bool a) {
    int owner = r.below(n);
    Reg x{a, false, {}, std::vector<V>(n)};
    size_t k = size();
    bool batch = k != 1 || r.coin();
    for (size_t i = 0; i < k; i++) x.val.push_back(val(a));
    V junk; for (size_t i = 0; i < k; i++) junk.push_back(val(a));
    bool give = r.coin();
    if (!all("in", [&](int p) {
      const V& v = p == owner ? x.val : junk;
      if (!a) x.sh[p] = batch ? uv(eng[p]->setBatchInput(owner, bv(v))) : V{eng[p]->setInput(owner, p == owner || give ? std::optional<bool>(v[0]) : std::nullopt)};
      else x.sh[p] = batch ? eng[p]->setBatchIntegerInput(owner, v) : V{eng[p]->setIntegerInput(owner, p == owner || give ? std::optional<uint64_t>(v[0]) : std::nullopt)};
    })) return;
    add(x);
    T(Ev("in").f("k", a ? "a" : "b").f("owner", owner).raw("val", jv(a, x.val)).raw("sh", jsh(a, x.sh)));
  }
  void pub(bool a) {
    Reg x{a, true, {}, std::vector<V>(n)};
    size_t k = size();
    for (size_t i = 0; i < k; i++) x.val.push_back(val(a));
    for (auto& s : x.sh) s = x.val;
    add(x);
    T(Ev("pub").f("k", a ? "a" : "b").raw("val", jv(a, x.val)));
  }
  // an operation every party does on its own
  void local() {
    bool a = arithOk && r.chance(45);
    int x = pick([&](Reg& z) { return z.a == a; });
    if (x < 0) return;
    int which = r.below(3);
    std::string op;
    int y = -1;
    if (which == 0) {  // unary
      if (a) op = "symneg"; else op = regs[x].pub ? "symnot" : "asymnot";
    } else if (which == 1) {
      y = pick([&](Reg& z) { return z.a == a && z.val.size() == regs[x].val.size(); });
      if (regs[x].pub && !regs[y].pub) std::swap(x, y);
      op = std::string(regs[x].pub == regs[y].pub ? "sym" : "asym") + (a ? "plus" : "xor");
    } else {
      y = pick([&](Reg& z) { return z.a == a && z.pub && z.val.size() == regs[x].val.size(); });
      if (y < 0) return;
      op = a ? "freemult" : "freeand";
    }
    Reg o{a, regs[x].pub && (y < 0 || regs[y].pub), {}, std::vector<V>(n)};
    bool batch = regs[x].val.size() != 1 || r.coin();
    clearSent();
    if (!all("loc", [&](int p) {
      auto& e = *eng[p];
      const V& l = regs[x].sh[p];
      const V& q = regs[y < 0 ? x : y].sh[p];
      V& z = o.sh[p];
      if (op == "symnot") z = batch ? uv(e.computeBatchSymmetricNOT(bv(l))) : V{e.computeSymmetricNOT(l[0])};
      if (op == "asymnot") z = batch ? uv(e.computeBatchAsymmetricNOT(bv(l))) : V{e.computeAsymmetricNOT(l[0])};
      if (op == "symneg") z = batch ? e.computeBatchSymmetricNeg(l) : V{e.computeSymmetricNeg(l[0])};
      if (op == "symxor") z = batch ? uv(e.computeBatchSymmetricXOR(bv(l), bv(q))) : V{e.computeSymmetricXOR(l[0], q[0])};
      if (op == "asymxor") z = batch ? uv(e.computeBatchAsymmetricXOR(bv(l), bv(q))) : V{e.computeAsymmetricXOR(l[0], q[0])};
      if (op == "symplus") z = batch ? e.computeBatchSymmetricPlus(l, q) : V{e.computeSymmetricPlus(l[0], q[0])};
      if (op == "asymplus") z = batch ? e.computeBatchAsymmetricPlus(l, q) : V{e.computeAsymmetricPlus(l[0], q[0])};
      if (op == "freeand") z = batch ? uv(e.computeBatchFreeAND(bv(l), bv(q))) : V{e.computeFreeAND(l[0], q[0])};
      if (op == "freemult") z = batch ? e.computeBatchFreeMult(l, q) : V{e.computeFreeMult(l[0], q[0])};
    })) return;
    o.val.resize(regs[x].val.size());
    add(o);
    std::vector<int> ins{x + 1};
    if (y >= 0) ins.push_back(y + 1);
    T(Ev("loc").f("op", op).raw("ins", js(ins)).raw("sh", jsh(a, o.sh)).raw("sent", jsent()));
  }
  // alike > 0: one more composite gate of that many
  // want: its kind (bits, groups, words; single or batched)
  void sched(int alike = 0, int want = -1) {
    bool a = want >= 0 ? want / 2 == 2 : !alike && arithOk && r.chance(40);
    int x = pick([&](Reg& z) { return z.a == a && !z.pub && ((!alike && (want < 0 || want % 2)) || z.val.size() == 1); });
    if (x < 0) return;
    size_t k = regs[x].val.size();
    auto like = [&](Reg& z) { return z.a == a && !z.pub && z.val.size() == k; };
    bool batch = want >= 0 ? want % 2 : k != 1 || r.chance(30);
    bool cmp = want >= 0 ? want / 2 == 1 : alike || (!a && r.chance(45));
    Sched s; s.a = a; s.idx.resize(n);
    s.ins = {x};
    static const int groups[] = {7, 8, 9, 15, 16, 17, 31, 33, 63, 64, 65, 127, 128, 129, 200, 255, 256, 257, 300};
    int c = !cmp ? 1 : alike ? alike : r.chance(12) && k < 50 ? groups[r.below(k < 8 ? 19 : 15)] : r.range(1, 5);
    for (int i = 0; i < c; i++) s.ins.push_back(pick(like));
    s.kind = std::string(batch ? "b" : "") + (a ? "mult" : cmp ? "cand" : "and");
    clearSent();
    if (!all("sched", [&](int p) {
      auto& e = *eng[p];
      auto& l = regs[x].sh[p];
      auto& q = regs[s.ins[1]].sh[p];
      if (a) s.idx[p] = batch ? e.scheduleBatchMult(l, q) : e.scheduleMult(l[0], q[0]);
      else if (!cmp) s.idx[p] = batch ? e.scheduleBatchAND(bv(l), bv(q)) : e.scheduleAND(l[0], q[0]);
      else if (batch) {
        std::vector<std::vector<bool>> rs;
        for (int i = 1; i <= c; i++) rs.push_back(bv(regs[s.ins[i]].sh[p]));
        s.idx[p] = e.scheduleBatchCompositeAND(bv(l), rs);
      } else {
        std::vector<bool> rs;
        for (int i = 1; i <= c; i++) rs.push_back(regs[s.ins[i]].sh[p][0]);
        s.idx[p] = e.scheduleCompositeAND(l[0], rs);
      }
    })) return;
    pend.push_back(s);
    std::vector<int> ins;
    for (int i : s.ins) ins.push_back(i + 1);
    T(Ev("sched").f("kind", s.kind).raw("ins", js(ins)).raw("idx", js(s.idx)).raw("sent", jsent()));
  }
  std::vector<V> fetch(const Sched& s, int p) {
    auto& e = *eng[p];
    uint32_t i = s.idx[p];
    if (s.kind == "and") return {V{e.getANDExecutionResult(i)}};
    if (s.kind == "band") return {uv(e.getBatchANDExecutionResult(i))};
    if (s.kind == "mult") return {V{e.getMultExecutionResult(i)}};
    if (s.kind == "bmult") return {e.getBatchMultExecutionResult(i)};
    std::vector<V> o;
    if (s.kind == "cand") { for (bool b : e.getCompositeANDExecutionResult(i)) o.push_back(V{b}); }
    else for (auto& v : e.getBatchCompositeANDExecutionResult(i)) o.push_back(uv(v));
    return o;
  }
  std::string notes() {
    std::string nb = "[", nc = "[", ni = "[";
    for (int p = 0; p < n; p++) {
      auto cat = [](const std::vector<std::string>& v) { return jmap(v, [](const std::string& x) { return x; }); };
      nb += (p ? "," : "") + cat(tn[p].bits); nc += (p ? "," : "") + cat(tn[p].comps); ni += (p ? "," : "") + cat(tn[p].ints);
    }
    std::string ob = "[", oa = "[";
    for (int p = 0; p < n; p++) { ob += (p ? "," : "") + on[p].b; oa += (p ? "," : "") + on[p].a; }
    return ",\"tb\":" + nb + "],\"tc\":" + nc + "],\"ti\":" + ni + "],\"ob\":" + ob + "],\"oa\":" + oa + "]";
  }
  void reset() { for (auto& x : tn) x = TupleNote(); for (auto& x : on) x = OpenNote(); clearSent(); }
  void exec() {
    reset();
    std::vector<std::vector<std::vector<V>>> out(n);
    if (!all("exec", [&](int p) {
      eng[p]->executeScheduledOperations();
      for (auto& s : pend) out[p].push_back(fetch(s, p));
    })) return;
    // res: per scheduled operation, per party, list of outputs
    std::string res = "[";
    for (size_t k = 0; k < pend.size(); k++) {
      res += k ? ",[" : "[";
      for (int p = 0; p < n; p++) res += (p ? "," : "") + jmap(out[p][k], [&](const V& v) { return jv(pend[k].a, v); });
      res += "]";
    }
    Ev e("exec");
    e.raw("res", res + "]").raw("sent", jsent());
    e.s += notes();
    T(e);
    for (size_t k = 0; k < pend.size(); k++) {
      size_t c = pend[k].ins.size() - 1;
      for (size_t j = 0; j < c; j++) {
        Reg o{pend[k].a, false, V(regs[pend[k].ins[0]].val.size()), std::vector<V>(n)};
        for (int p = 0; p < n; p++) o.sh[p] = j < out[p][k].size() ? out[p][k][j] : V();
        add(o);
      }
    }
    last = pend;
    pend.clear();
  }
  void imm() {
    bool a = arithOk && r.coin();
    int x = pick([&](Reg& z) { return z.a == a && !z.pub; });
    if (x < 0) return;
    int y = pick([&](Reg& z) { return z.a == a && !z.pub && z.val.size() == regs[x].val.size(); });
    reset();
    Reg o{a, false, V(regs[x].val.size()), std::vector<V>(n)};
    if (!all("imm", [&](int p) {
      if (a) o.sh[p] = eng[p]->computeBatchMultImmediately(regs[x].sh[p], regs[y].sh[p]);
      else o.sh[p] = uv(eng[p]->computeBatchANDImmediately(bv(regs[x].sh[p]), bv(regs[y].sh[p])));
    })) return;
    add(o);
    Ev e("imm");
    e.f("kind", a ? "bmult" : "band").raw("ins", js(std::vector<int>{x + 1, y + 1})).raw("sh", jsh(a, o.sh)).raw("sent", jsent());
    e.s += notes();
    T(e);
  }
  void reveal() {
    bool a = arithOk && r.coin();
    int x = pick([&](Reg& z) { return z.a == a && !z.pub; });
    bool empty = r.chance(8);
    if (x < 0) return;
    int id = r.below(n);
    clearSent();
    std::vector<V> out(n);
    if (!all("rev", [&](int p) {
      V l = empty ? V() : regs[x].sh[p];
      out[p] = a ? eng[p]->revealToParty(id, l) : uv(eng[p]->revealToParty(id, bv(l)));
    })) return;
    T(Ev("rev").f("reg", empty ? 0 : x + 1).f("id", id).f("k", a ? "a" : "b").raw("out", jsh(a, out)).raw("sent", jsent()));
  }
  // operands that do not fit are refused, and nothing is left behind
  void bad() {
    size_t k = r.range(1, 4), j = k + r.range(1, 3);
    if (r.coin()) std::swap(k, j);
    std::vector<bool> x = r.bits(k), y = r.bits(j);
    V xi(k, 3), yi(j, 4);
    const char* names[] = {"symxor", "asymxor", "symplus", "asymplus", "freeand", "freemult", "schedand", "schedcand", "schedmult", "immand", "immmult", "noinput", "emptyin", "emptyinint"};
    int w = r.below(14);
    std::vector<int> threw(n, 0);
    auto one = [&](int p) {
      auto& e = *eng[p];
      try {
        switch (w) {
          case 0: e.computeBatchSymmetricXOR(x, y); break;
          case 1: e.computeBatchAsymmetricXOR(x, y); break;
          case 2: e.computeBatchSymmetricPlus(xi, yi); break;
          case 3: e.computeBatchAsymmetricPlus(xi, yi); break;
          case 4: e.computeBatchFreeAND(x, y); break;
          case 5: e.computeBatchFreeMult(xi, yi); break;
          case 6: e.scheduleBatchAND(x, y); break;
          case 7: e.scheduleBatchCompositeAND(x, {x, y, x}); break;
          case 8: e.scheduleBatchMult(xi, yi); break;
          case 9: e.computeBatchANDImmediately(x, y); break;
          case 10: e.computeBatchMultImmediately(xi, yi); break;
          case 11: if (r.coin()) e.setInput(p); else e.setIntegerInput(p); break;
          case 12: e.setBatchInput(p, {}); break;
          case 13: e.setBatchIntegerInput(p, {}); break;
        }
      } catch (const std::exception&) { threw[p] = 1; }
    };
    clearSent();
    for (int p = 0; p < n; p++) one(p);
    T(Ev("bad").f("what", names[w]).raw("threw", js(threw)).raw("sent", jsent()));
  }
};

int main(int c, char** v) {
  Args ar(c, v);
  Trace T(ar.out);
  Watchdog wd(T, 60);
  Rng r(ar.seed);
  int episodes = (ar.mode == "mask" ? 40 : 5) * (ar.thorough ? 4 : 1);
  for (int e = 0; e < episodes; e++) {
    Episode ep(T, r, wd);
    ep.start(ar.mode);
    int len = r.range(15, 60);
    for (int i = 0; i < 5 && !ep.failed; i++) ep.input(ep.arithOk && r.coin());
    int burstAt = r.chance(20) ? r.below(len) : -1;
    for (int i = 0; i < len && !ep.failed; i++) {
      int pc = r.below(100);
      // many operations waiting for one execution
      if (i == burstAt && r.chance(40)) { int alike = r.range(1, 3), kind = r.chance(60) ? 2 : r.chance(50) ? 3 : -1; for (int k = r.range(257, 330); k > 0 && !ep.failed; k--) ep.sched(alike, kind); ep.exec(); }
      else if (i == burstAt) { for (int k = r.range(20, 150); k > 0 && !ep.failed; k--) ep.sched(); ep.exec(); }
      if (ep.failed) break;
      bool a = ep.arithOk && r.chance(40);
      if (pc < 10) ep.input(a);
      else if (pc < 16) ep.pub(a);
      else if (pc < 40) ep.local();
      else if (pc < 48) { ep.exec(); int want = r.below(ep.arithOk ? 6 : 4); for (int k = r.range(1, 5); k > 0 && !ep.failed; k--) ep.sched(0, want); if (!ep.failed) ep.exec(); }
      else if (pc < 70) ep.sched();
      else if (pc < 80) ep.exec();
      else if (pc < 86) ep.imm();
      else if (pc < 95) ep.reveal();
      else if (ar.mode == "mask") ep.bad();
    }
    if (!ep.failed) ep.exec();
    if (!ep.failed) {
      // leave the engines the way programs do: all parties at once
      ep.all("destroy", [&](int p) { ep.eng[p].reset(); });
    }
    if (!ep.failed) T(Ev("end"));
  }
  return 0;
}
