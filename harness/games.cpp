// Records runs of the bundled games: edit distance (with its validator) and the billionaires.
#include "parties.h"
#include <filesystem>
#include <fstream>
#include "example/billionaire_problem/BillionaireProblemGame.h"
#include "example/edit_distance/EditDistanceCalculator.h"
#include "example/edit_distance/EditDistanceGame.h"
#include "example/edit_distance/Validator.h"

using namespace vh;
namespace ed = fbpcf::edit_distance;
namespace bp = fbpcf::billionaire_problem;
using Strings = std::vector<std::string>;
static std::string dir;

// parties have schedulers of their own, as the games set one themselves
template <int P> std::string playEdit(const std::string& kind, int wk, uint64_t seed, const std::string& data, const std::string& params, AgentFactory& af) {
  ed::EditDistanceGame<P> g(P, makeScheduler(kind, P, 2, af, wk, seed));
  return g.play(ed::EditDistanceInputReader(data, params));
}
static std::string text(Rng& r, const std::string& pool, int len) { std::string s; while (len-- > 0) s += pool[r.below(pool.size())]; return s; }
static std::string put(const std::string& name, const std::string& s) { std::ofstream(dir + name) << s; return dir + name; }
static std::string csv(const Strings& head, const std::vector<Strings>& cols, bool end) {
  std::string s;
  for (size_t c = 0; c < head.size(); c++) s += (c ? "," : "") + head[c];
  for (size_t i = 0; i < cols[0].size(); i++) { s += "\n"; for (size_t c = 0; c < head.size(); c++) s += (c ? "," : "") + cols[c][i]; }
  return s + (end ? "\n" : "");
}
static std::string jtexts(const Strings& v) { return jmap(v, [](const std::string& s) { return jbytes(s); }); }

static void edit(Trace& T, Rng& r, int i, bool thorough) {
  bool crowd = i == 0;  // more pairs than a byte counts
  int n = crowd ? (int)r.range(257, 280) : r.chance(20) ? 1 : (int)r.range(2, 5);
  static const std::string pools[] = {"ab", "abcdefghijklmnopqrstuvwxyz", "!#$%&()*+-./0123456789:;<=>?@ABCXYZ[]^_`xyz{|}~", "\x01 ~"};
  const std::string& pool = pools[r.below(3)];
  auto len = [&] { return crowd && r.chance(98) ? (int)r.range(1, 2) : r.chance(15) ? 15 : r.chance(10) ? 1 : (int)r.range(1, r.coin() ? 15 : 6); };
  Strings word(n), guess(n), msg(n);
  for (int k = 0; k < n; k++) {
    word[k] = text(r, pool, len());
    guess[k] = r.chance(20) ? word[k] : r.chance(40) ? word[k] : text(r, pool, len());
    if (r.chance(40)) for (int e = r.range(1, 3); e > 0; e--) guess[k][r.below(guess[k].size())] = pool[r.below(pool.size())];
    if (r.chance(30) && guess[k].size() > 1) guess[k].erase(r.below(guess[k].size()), 1);
    msg[k] = text(r, pools[1], len());
  }
  int thr = r.chance(10) ? 0 : r.chance(10) ? (1 << 30) - 1 : (int)r.range(0, r.coin() ? 20 : 120), del = r.range(0, r.coin() ? 5 : 60), ins = r.range(0, r.coin() ? 5 : 60);
  if (r.chance(10)) ins = 40000000, del = 30000000;
  std::string flaw = r.chance(75) ? "none" : std::vector<std::string>{"rows", "threshold", "delete", "insert", "word", "guess", "message"}[r.below(7)];
  Strings word2 = word, guess2 = guess, msg2 = msg;
  if (flaw == "word") word2[r.below(n)] = text(r, pools[1], r.range(16, 40));
  if (flaw == "guess") guess2[r.below(n)] = text(r, pools[1], r.range(16, 40));
  if (flaw == "message") msg2[r.below(n)] = text(r, pools[1], r.range(16, 40));
  if (flaw == "rows") { if (r.coin()) guess2.push_back("x"); else word2.push_back("y"), msg2.push_back("z"); }
  auto params = [&](int me) {
    int t = thr, d = del, s = ins;
    if (me == 1 && flaw == "threshold") t ^= 1 << r.below(8);
    if (me == 1 && flaw == "delete") d ^= 1 << r.below(8);
    if (me == 1 && flaw == "insert") s ^= 1 << r.below(8);
    return csv({"threshold", "insert_cost", "delete_cost"}, {{std::to_string(t)}, {std::to_string(s)}, {std::to_string(d)}}, r.coin());
  };
  std::string f[2], p[2];
  f[0] = put("d0", r.coin() ? csv({"word", "sender_message"}, {word2, msg2}, r.coin()) : csv({"sender_message", "id", "word"}, {msg2, word2, word2}, r.coin()));
  f[1] = put("d1", csv({"guess"}, {guess2}, r.coin()));
  for (int me = 0; me < 2; me++) p[me] = put("p" + std::to_string(me), params(me));
  T(Ev("begin").f("game", "edit"));
  std::string kind = r.chance(85) ? "lazy" : "eager", out[2];
  int wk = r.below(3);
  uint64_t seed = r.next();
  auto net = std::make_shared<Net>();
  auto err = runParties(2, net, [&](int me) {
    AgentFactory af(net, me);
    out[me] = me == 0 ? playEdit<0>(kind, wk, seed, f[0], p[0], af) : playEdit<1>(kind, wk, seed, f[1], p[1], af);
  });
  if (flaw != "none") {
    T(Ev("refused").f("flaw", flaw.c_str()).f("a", !err[0].empty()).f("b", !err[1].empty()));
    return;
  }
  bool bad = false;
  for (auto& e : err) if (!e.empty()) T(Ev("failed").f("what", e.c_str())), bad = true;
  if (bad) return;
  std::vector<folly::dynamic> shares;
  std::string js2[2];
  for (int me = 0; me < 2; me++) {
    shares.push_back(folly::parseJson(out[me]));
    auto& d = shares[me]["editDistanceShares"];
    std::vector<uint64_t> v;
    for (size_t k = 0; k < d.size(); k++) v.push_back(d[k].asInt());
    js2[me] = jws(v);
  }
  ed::EditDistanceResults res(shares);
  std::vector<uint64_t> dist(res.editDistances.begin(), res.editDistances.end());
  T(Ev("edit").f("n", n).raw("word", jtexts(word)).raw("guess", jtexts(guess)).raw("msg", jtexts(msg)).f("thr", thr).f("ins", ins).f("del", del)
        .raw("s0", js2[0]).raw("s1", js2[1]).raw("dist", jws(dist)).raw("got", jtexts(res.receiverMessages)));
  // the validator compares what the shares hold with what was expected
  for (int k = 0; k < 3; k++) {
    Strings d, m = res.receiverMessages;
    for (auto x : res.editDistances) d.push_back(std::to_string(x));
    std::string what = k == 0 ? "none" : std::vector<std::string>{"distance", "message", "fewer", "more"}[r.below(4)];
    int at = r.below(n);
    if (what == "distance") d[at] = std::to_string(res.editDistances[at] + (r.coin() ? 1 : -1));
    if (what == "message") { if (m[at].size() && r.coin()) m[at].back() ^= 1; else m[at] += "x"; }
    if (what == "fewer") d.pop_back(), m.pop_back();
    if (what == "more") d.push_back("0"), m.push_back("");
    Strings paths = {put("o0", out[0]), put("o1", out[1])};
    ed::Validator v(paths, put("e", csv({"distance", "receiver_message"}, {d, m}, true)));
    int code = -1;
    try { code = v.validate(); } catch (const std::exception& e) { T(Ev("failed").f("what", e.what())); }
    T(Ev("validate").f("what", what.c_str()).f("code", code == ed::Validator::SUCCESS ? "ok" : code == ed::Validator::SIZE_MISMATCH ? "size" : code == ed::Validator::RESULT_MISMATCH ? "result" : "?"));
  }
  // shares of different length are not put together
  if (n > 1) {
    auto cut = folly::parseJson(out[1]);
    auto& a = cut[r.coin() ? "editDistanceShares" : "receiverMessageShares"];
    folly::dynamic b = folly::dynamic::array();
    for (size_t k = 0; k + 1 < a.size(); k++) b.push_back(a[k]);
    a = b;
    bool refused = false;
    try { std::vector<folly::dynamic> s{shares[0], cut}; ed::EditDistanceResults x(s); } catch (const std::exception&) { refused = true; }
    T(Ev("cut").f("refused", refused));
  }
  (void)thorough; (void)i;
}

// strings on wires: sizes, case, choice, opening, shares
template <int W, bool batch> static void ascii(Trace& T, Rng& r) {
  using Sec = ed::AsciiString<W, true, 0, batch>;
  using Pub = ed::AsciiString<W, false, 0, batch>;
  int n = batch ? (int)(r.chance(10) ? r.range(257, 280) : r.range(1, 12)) : 1, ownX = r.below(2), ownY = r.below(2), to = r.below(2);
  static const std::string pool = "azAZ`{@[\x01 \x7fmMqQ09";
  Strings x(n), y(n);
  for (auto* v : {&x, &y}) for (auto& w : *v) w = text(r, pool, r.chance(25) ? W : r.chance(20) ? 0 : (int)r.range(0, W));
  std::vector<bool> c(n);
  for (int k = 0; k < n; k++) c[k] = r.coin();
  std::string out[2];
  auto in = [&](const Strings& v) { if constexpr (batch) return v; else return v[0]; };
  auto strs = [&](auto v) { if constexpr (batch) return jtexts(v); else return jtexts({v}); };
  auto sizes = [&](auto v) { if constexpr (batch) return jmap(v, [](const auto& k) { return js((int)k); }); else return "[" + js((int)v) + "]"; };
  T(Ev("begin").f("game", "ascii"));
  static const char* kinds[] = {"lazy", "eager", "netplain"};
  auto err = runMpc(kinds[r.below(3)], 2, r.below(3), r.next(), [&](int me, fbpcf::scheduler::IArithmeticScheduler&, AgentFactory&) {
    Strings none(n);
    Sec sx(in(me == ownX ? x : none), ownX), sy(in(me == ownY ? y : none), ownY);
    Pub py(in(y));
    using Bits = fbpcf::frontend::Bit<true, 0, batch>;
    auto bit = [&] { if constexpr (batch) return Bits(me == ownX ? c : std::vector<bool>(n), ownX); else return Bits(me == ownX && c[0], ownX); };
    Bits ch = bit();
    auto rx = sx.openToParty(to), up = sx.toUpperCase().openToParty(to), m = sx.mux(ch, sy).openToParty(to), mp = sx.mux(ch, py).openToParty(to);
    auto sz = sx.template privateSize<8>().openToParty(to);
    auto shares = sx.extractAsciiStringShare();
    auto pubUp = py.toUpperCase();
    auto back = Sec(std::move(shares)).openToParty(to);
    out[me] = Ev("ascii").f("n", n).f("w", W).f("me", me == to).raw("x", jtexts(x)).raw("y", jtexts(y)).raw("c", jmap(std::vector<int>(c.begin(), c.end()), [](const int& b) { return js(b); }))
                  .raw("open", strs(rx.getValue())).raw("openSize", sizes(rx.size())).raw("upper", strs(up.getValue())).raw("mux", strs(m.getValue()))
                  .raw("muxPub", strs(mp.getValue())).raw("size", sizes(sz.getValue())).raw("back", strs(back.getValue()))
                  .raw("pub", strs(py.getValue())).raw("pubSize", sizes(py.size())).raw("pubUpper", strs(pubUp.getValue())).str();
    bool refused = false;  // one letter too many
    try { Strings big(n); big[n - 1] = std::string(W + 1, 'a'); if (me == 0) Pub p(in(big)); else Sec s(in(big), 0); } catch (const std::runtime_error&) { refused = true; }
    if (!refused) out[me] = Ev("failed").f("what", "a string too long was taken").str();
  });
  for (auto& e : err) if (!e.empty()) T(Ev("failed").f("what", e.c_str()));
  for (auto& o : out) if (!o.empty()) T.line(o);
}

struct Assets { std::vector<uint32_t> v[3]; };
template <int P, bool batch> std::vector<bool> playBill(const std::string& kind, int wk, uint64_t seed, const Assets& a, const Assets& b, AgentFactory& af) {
  bp::BillionaireProblemGame<P, batch> g(makeScheduler(kind, P, 2, af, wk, seed));
  if constexpr (batch) return g.billionaireProblem({a.v[0], a.v[1], a.v[2]}, {b.v[0], b.v[1], b.v[2]});
  else return {g.billionaireProblem({a.v[0][0], a.v[1][0], a.v[2][0]}, {b.v[0][0], b.v[1][0], b.v[2][0]})};
}
static void bill(Trace& T, Rng& r, int i) {
  bool batch = r.chance(70);
  int n = batch ? (i == 3 ? (int)r.range(257, 300) : r.chance(20) ? 1 : (int)r.range(2, 60)) : 1;
  Assets a, b, none;
  for (int k = 0; k < n; k++) {
    uint32_t x[3], y[3];
    int style = r.below(6);
    for (int c = 0; c < 3; c++) {
      auto v = [&]() -> uint32_t { return style == 0 ? r.below(4) : style == 1 ? r.below(1u << 30) : style == 2 ? ~0u - r.below(3) : r.chance(20) ? ~0u : r.chance(20) ? 0 : (uint32_t)r.next(); };
      x[c] = v(), y[c] = v();
    }
    if (style == 3) { int s = r.below(3); for (int c = 0; c < 3; c++) y[c] = x[(c + s) % 3]; }                      // same total
    if (style == 4) { for (int c = 0; c < 3; c++) y[c] = x[c]; int c = r.below(3); if (r.coin()) y[c]++; else y[c]--; }
    for (int c = 0; c < 3; c++) { a.v[c].push_back(x[c]); b.v[c].push_back(y[c]); none.v[c].push_back(r.chance(50) ? 0 : (uint32_t)r.next()); }
  }
  T(Ev("begin").f("game", "billionaires"));
  std::string kind = r.coin() ? "lazy" : "eager";
  int wk = r.below(3);
  uint64_t seed = r.next();
  std::vector<bool> out[2];
  auto net = std::make_shared<Net>();
  auto err = runParties(2, net, [&](int me) {
    AgentFactory af(net, me);
    if (me == 0) out[0] = batch ? playBill<0, true>(kind, wk, seed, a, none, af) : playBill<0, false>(kind, wk, seed, a, none, af);
    else out[1] = batch ? playBill<1, true>(kind, wk, seed, none, b, af) : playBill<1, false>(kind, wk, seed, none, b, af);
  });
  for (auto& e : err) if (!e.empty()) T(Ev("failed").f("what", e.c_str()));
  auto j = [&](const Assets& s) { return "[" + jmap(s.v[0], [](const uint32_t& x) { return jw(x); }) + "," + jmap(s.v[1], [](const uint32_t& x) { return jw(x); }) + "," + jmap(s.v[2], [](const uint32_t& x) { return jw(x); }) + "]"; };
  auto jb = [](const std::vector<bool>& v) { std::string s = "["; for (size_t k = 0; k < v.size(); k++) s += (k ? "," : "") + js((bool)v[k]); return s + "]"; };
  T(Ev("bill").f("n", n).raw("a", j(a)).raw("b", j(b)).raw("alice", jb(out[0])).raw("bob", jb(out[1])));
  (void)i;
}

int main(int argc, char** argv) {
  Args a(argc, argv);
  Trace T(a.out);
  Watchdog dog(T, 120);
  const char* s = getenv("VERIF_SCRATCH");
  dir = (std::filesystem::path(s ? s : "/tmp") / ("games." + std::to_string(getpid()))).string() + "/";
  std::filesystem::create_directories(dir);
  int n = a.thorough ? 400 : 40;
  for (int i = 0; i < n; i++) {
    dog.tick();
    Rng r(a.seed * 1000003 + a.shard * 7919 + i);
    if (i % 2) bill(T, r, i);
    else edit(T, r, i, a.thorough);
    if (i % 4 == 0) ascii<15, true>(T, r); else if (i % 4 == 1) ascii<15, false>(T, r);
    else if (i % 4 == 2) ascii<4, true>(T, r); else ascii<2, false>(T, r);
  }
  std::filesystem::remove_all(dir);
  return 0;
}
