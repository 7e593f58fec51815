// Records metric collection and the small vector helpers.
#include "common.h"
#include "fbpcf/common/FunctionalUtil.h"
#include "fbpcf/common/VectorUtil.h"
#include "fbpcf/util/MetricCollector.h"
#include "folly/json.h"

using namespace vh;
using folly::dynamic;

struct Recorder final : fbpcf::util::IMetricRecorder {
  dynamic now = dynamic::object;
  dynamic getMetrics() const override { return now; }
};
static dynamic value(Rng& r, int depth) {
  switch (r.below(depth ? 9 : 7)) {
    case 0: return (int64_t)r.below(5);
    case 1: return (int64_t)r.below(1u << 20) - (1 << 19);
    case 2: return (double)((int64_t)r.below(4001) - 2000) / 8;
    case 3: return "s" + std::to_string(r.below(3));
    case 4: return r.coin();
    case 5: return nullptr;
    case 6: return (int64_t)r.below(1u << 24);
    case 7: { dynamic a = dynamic::array(); for (int k = r.below(3); k > 0; k--) a.push_back(value(r, 0)); return a; }
    default: { dynamic o = dynamic::object; for (int k = r.below(3); k > 0; k--) o.insert("n" + std::to_string(r.below(4)), value(r, 0)); return o; }
  }
}
// a number is given in eighths, anything else as text
static std::string jvalue(const dynamic& d) {
  if (d.isInt()) return "{\"t\":\"int\",\"v\":" + std::to_string(d.asInt() * 8) + ",\"s\":\"\"}";
  if (d.isDouble()) return "{\"t\":\"dbl\",\"v\":" + std::to_string((int64_t)(d.asDouble() * 8)) + ",\"s\":\"\"}";
  return "{\"t\":\"other\",\"v\":0,\"s\":" + js(folly::toJson(d)) + "}";
}
static std::string jmetrics(const dynamic& d) {
  std::string s = "[";
  for (auto& [k, v] : d.items()) s += (s.size() > 1 ? ",{\"k\":" : "{\"k\":") + js(k.asString()) + ",\"v\":" + jvalue(v) + "}";
  return s + "]";
}

static void collect(Trace& T, Rng& r) {
  static const char* prefixes[] = {"p", "", "a.b", "traffic"};
  static const char* names[] = {"x", "y", "tuple_generator", "x.y", "p", ""};
  static const char* keys[] = {"sent", "received", "x", "time", "p.x"};
  std::string prefix = prefixes[r.below(4)];
  fbpcf::util::MetricCollector c(prefix);
  T(Ev("begin").f("prefix", prefix.c_str()));
  std::vector<std::shared_ptr<Recorder>> rec;
  int n = r.range(2, 14);
  for (int i = 0; i < n; i++) {
    int op = r.below(10);
    if (op < 5 || rec.empty()) {
      auto x = std::make_shared<Recorder>();
      int m = r.below(5);
      while (m-- > 0) x->now.insert(keys[r.below(5)], value(r, 1));
      std::string name = names[r.below(6)];
      rec.push_back(x);
      c.addNewRecorder(name, x);
      T(Ev("add").f("name", name.c_str()).raw("m", jmetrics(x->now)));
    } else if (op < 7) {
      int k = r.below(rec.size());
      rec[k]->now.insert(keys[r.below(5)], value(r, 1));
      T(Ev("change").f("id", k + 1).raw("m", jmetrics(rec[k]->now)));
    }
    if (op >= 7 || i + 1 == n) {
      auto all = c.collectMetrics();
      std::string s = "[";
      for (auto& [k, v] : all.items()) s += (s.size() > 1 ? ",{\"k\":" : "{\"k\":") + js(k.asString()) + ",\"m\":" + jmetrics(v) + "}";
      T(Ev("collect").f("prefix", c.getPrefix().c_str()).raw("all", s + "]"));
      T(Ev("aggregate").raw("m", jmetrics(c.aggregateMetrics())));
    }
  }
}

static std::string ji(const std::vector<int>& v) { return jmap(v, [](const int& x) { return js(x); }); }
static void helpers(Trace& T, Rng& r) {
  T(Ev("begin").f("prefix", ""));
  auto some = [&](int n) { std::vector<int> v; while (n-- > 0) v.push_back(r.below(2000) - 1000); return v; };
  for (int i = 0; i < 6; i++) {
    auto a = some(r.chance(15) ? 0 : (int)r.range(1, 20)), b = some(r.chance(70) ? (int)a.size() : (int)r.below(22));
    int k = r.below(7);
    auto m = fbpcf::functional::map<int, int>(a, [&](const int& x) { return x * k + 1; });
    T(Ev("map").f("k", k).raw("a", ji(a)).raw("out", ji(m)));
    int red = 0, refused = 0;
    auto step = [](const int& x, const int& y) { return (x * 3 + y) % 1009; };  // neither commutes nor associates
    try { red = fbpcf::functional::reduce<int>(a, step); } catch (const std::invalid_argument&) { refused = 1; }
    T(Ev("reduce").f("refused", refused).f("out", red).raw("a", ji(a)));
    for (int op = 0; op < 3; op++) {
      std::vector<int> out;
      refused = 0;
      auto x = a, y = b;
      if (op == 1) { for (auto& v : x) v = std::abs(v); for (auto& v : y) v = std::abs(v); }
      try {
        out = op == 0 ? fbpcf::vector::Add(x, y) : op == 1 ? fbpcf::vector::Xor(x, y) : fbpcf::vector::apply<int>(x, y, [](int p, int q) { return p - 2 * q; });
      } catch (const std::invalid_argument&) { refused = 1; }
      T(Ev("vector").f("op", op).f("refused", refused).raw("a", ji(x)).raw("b", ji(y)).raw("out", ji(out)));
    }
  }
}

int main(int argc, char** argv) {
  Args a(argc, argv);
  Trace T(a.out);
  int n = a.thorough ? 4000 : 400;
  for (int i = 0; i < n; i++) {
    Rng r(a.seed * 1000003 + a.shard * 7919 + i);
    if (i % 4 == 3) helpers(T, r); else collect(T, r);
  }
  return 0;
}
