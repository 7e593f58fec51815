// Records rows being serialised by their owner and read back from shares.
#include "parties.h"
#include "fbpcf/mpc_std_lib/unified_data_process/data_processor/DummyDataProcessorFactory.h"
#include "fbpcf/mpc_std_lib/unified_data_process/serialization/RowStructureDefinition.h"

using namespace vh;
namespace sr = fbpcf::mpc_std_lib::unified_data_process::serialization;
namespace dp = fbpcf::mpc_std_lib::unified_data_process::data_processor;
using Col = sr::IColumnDefinition<0>;
using Kind = Col::SupportedColumnTypes;
using SecString = fbpcf::frontend::BitString<true, 0, true>;
using Types = fbpcf::frontend::MPCTypes<0, true>;
static const char* kKind[] = {"bit", "packed", "u32", "u64", "i32", "i64", "u32s", "u64s", "i32s", "i64s"};

// one column of values of some type
struct Data {
  int kind;
  std::vector<bool> bits;
  std::vector<uint32_t> u32;
  std::vector<uint64_t> u64;
  std::vector<int32_t> i32;
  std::vector<int64_t> i64;
  std::vector<std::vector<uint32_t>> u32s;
  std::vector<std::vector<uint64_t>> u64s;
  std::vector<std::vector<int32_t>> i32s;
  std::vector<std::vector<int64_t>> i64s;
  std::vector<std::vector<bool>> packed;
};
template <class T> T val(Rng& r) {
  switch (r.below(6)) {
    case 0: return 0;
    case 1: return (T)~0ull;
    case 2: return std::numeric_limits<T>::max();
    case 3: return std::numeric_limits<T>::min();
    default: return (T)r.next();
  }
}
template <class T> std::vector<T> vals(Rng& r, int n) { std::vector<T> v; while (n-- > 0) v.push_back(val<T>(r)); return v; }
template <class T> std::vector<std::vector<T>> arrays(Rng& r, int n, int pad, int wrong) {
  std::vector<std::vector<T>> v;
  for (int i = 0; i < n; i++) v.push_back(vals<T>(r, i == wrong ? pad + (pad == 0 || r.coin() ? 1 : -1) : pad));
  return v;
}
template <class T> std::string jv(const std::vector<T>& v) { return jmap(v, [](const T& x) { return jw((uint64_t)(int64_t)x); }); }
template <class T> std::string jvv(const std::vector<std::vector<T>>& v) { return jmap(v, [](const std::vector<T>& x) { return jv(x); }); }
static std::string jcolumn(const Data& d) {
  switch (d.kind) {
    case 0: { std::string s = "["; for (size_t i = 0; i < d.bits.size(); i++) s += (i ? "," : "") + js((bool)d.bits[i]); return s + "]"; }
    case 2: return jv(d.u32);
    case 3: return jv(d.u64);
    case 4: return jv(d.i32);
    case 5: return jv(d.i64);
    case 6: return jvv(d.u32s);
    case 7: return jvv(d.u64s);
    case 8: return jvv(d.i32s);
    default: return jvv(d.i64s);
  }
}
static Data column(Rng& r, int kind, int n, int pad, int wrong) {
  Data d;
  d.kind = kind;
  switch (kind) {
    case 0: for (int i = 0; i < n; i++) d.bits.push_back(r.coin()); break;
    case 2: d.u32 = vals<uint32_t>(r, n); break;
    case 3: d.u64 = vals<uint64_t>(r, n); break;
    case 4: d.i32 = vals<int32_t>(r, n); break;
    case 5: d.i64 = vals<int64_t>(r, n); break;
    case 6: d.u32s = arrays<uint32_t>(r, n, pad, wrong); break;
    case 7: d.u64s = arrays<uint64_t>(r, n, pad, wrong); break;
    case 8: d.i32s = arrays<int32_t>(r, n, pad, wrong); break;
    default: d.i64s = arrays<int64_t>(r, n, pad, wrong);
  }
  return d;
}
static Col::InputColumnDataType ref(Data& d) {
  switch (d.kind) {
    case 0: return std::ref(d.bits);
    case 2: return std::ref(d.u32);
    case 3: return std::ref(d.u64);
    case 4: return std::ref(d.i32);
    case 5: return std::ref(d.i64);
    case 6: return std::ref(d.u32s);
    case 7: return std::ref(d.u64s);
    case 8: return std::ref(d.i32s);
    default: return std::ref(d.i64s);
  }
}
template <class N, class T> std::string openInts(const std::vector<T>& v, int rows, int to) {
  std::vector<std::vector<N>> a(rows);
  for (auto& x : v) { auto o = x.openToParty(to).getValue(); for (int i = 0; i < rows; i++) a[i].push_back((N)o.at(i)); }
  return jvv(a);
}
template <class N, class T> std::string openInt(const T& x, int to) {
  std::vector<N> a;
  for (auto o : x.openToParty(to).getValue()) a.push_back((N)o);
  return jv(a);
}
static std::string openColumn(const Col::DeserializeType& v, int kind, int rows, int to) {
  switch (kind) {
    case 0: { Data d; d.kind = 0; d.bits = std::get<Types::SecBool>(v).openToParty(to).getValue(); return jcolumn(d); }
    case 2: return openInt<uint32_t>(std::get<Types::SecUnsigned32Int>(v), to);
    case 3: return openInt<uint64_t>(std::get<Types::SecUnsigned64Int>(v), to);
    case 4: return openInt<int32_t>(std::get<Types::Sec32Int>(v), to);
    case 5: return openInt<int64_t>(std::get<Types::Sec64Int>(v), to);
    case 6: return openInts<uint32_t>(std::get<std::vector<Types::SecUnsigned32Int>>(v), rows, to);
    case 7: return openInts<uint64_t>(std::get<std::vector<Types::SecUnsigned64Int>>(v), rows, to);
    case 8: return openInts<int32_t>(std::get<std::vector<Types::Sec32Int>>(v), rows, to);
    default: return openInts<int64_t>(std::get<std::vector<Types::Sec64Int>>(v), rows, to);
  }
}

static void one(Trace& T, Rng& r, int i) {
  T(Ev("begin"));
  std::map<std::string, Kind> def;
  int bits = r.chance(60) ? r.below(4) : r.below(27), others = r.below(6);
  if (bits + others == 0) bits = 1;
  // wider rows, longer arrays or more rows than a byte counts
  int large = i == 5 ? 1 : i == 9 ? 2 : i == 13 ? 3 : 0;
  if (large == 1) others = r.range(60, 80);
  if (large == 2) others = r.range(1, 3);
  auto name = [&] { return std::string(1, (r.coin() ? 'A' : 'a') + r.below(26)) + std::to_string(r.below(1000)); };
  while ((int)def.size() < bits) def[name()] = Kind::Bit;
  while ((int)def.size() < bits + others) def.emplace(name(), (Kind)r.range(2, 9));
  if (r.chance(20)) def.emplace("packedBits0", (Kind)(r.coin() ? 0 : r.range(2, 9)));
  int pad = r.chance(30) ? 1 : r.chance(70) ? r.range(1, 5) : r.range(6, 20);
  if (large == 1) pad = 2;
  if (large == 2) { pad = r.range(257, 280); def[name()] = (Kind)r.range(6, 9); }
  std::vector<std::string> names;
  std::vector<std::string> kinds;
  for (auto& kv : def) { names.push_back(kv.first); kinds.push_back(kKind[kv.second]); }
  if (r.chance(5)) {
    auto d = def;
    d.emplace("zz", Kind::PackedBitField);
    bool ok = true;
    try { sr::RowStructureDefinition<0> x(d, pad); } catch (const std::exception&) { ok = false; }
    T(Ev("packed").f("ok", ok));
  }
  sr::RowStructureDefinition<0> rs(def, pad);
  T(Ev("def").raw("names", jmap(names, [](const std::string& s) { return js(s); })).raw("kinds", jmap(kinds, [](const std::string& s) { return js(s); })).f("pad", pad).f("size", (int)rs.getRowSizeBytes()));
  int times = r.range(1, 3);
  for (int t = 0; t < times; t++) {
    int n = large == 3 ? r.range(257, 300) : r.range(1, large ? 3 : 9);
    std::map<std::string, Data> in;
    for (auto& kv : def) in[kv.first] = column(r, kv.second, n, pad, -1);
    std::string flaw = "none";
    if (!large && r.chance(35)) {  // something does not fit
      auto it = in.begin();
      std::advance(it, r.below(in.size()));
      auto kind = it->second.kind;
      switch (r.below(6)) {
        case 0: flaw = "missing"; in.erase(it); break;
        case 1: flaw = "extra"; in["~more"] = column(r, 2, n, pad, -1); break;
        case 2: { flaw = "renamed"; auto d = it->second; in.erase(it); in["~other"] = d; break; }
        case 3: flaw = "rows"; it->second = column(r, kind, n + (n == 1 || r.coin() ? 1 : -1), pad, -1); break;
        case 4: if (kind >= 6) { flaw = "array"; it->second = column(r, kind, n, pad, r.below(n)); } break;
        default: { int k = kind == 0 ? 2 : kind >= 6 ? kind - 4 : kind == 2 ? 4 : 0; flaw = "type"; it->second = column(r, k, n, pad, -1); }
      }
    }
    std::unordered_map<std::string, Col::InputColumnDataType> data;
    for (auto& kv : in) data.emplace(kv.first, ref(kv.second));
    std::vector<std::vector<unsigned char>> rows;
    bool ok = true;
    try { rows = rs.serializeDataAsBytesForUDP(data, n); } catch (const std::exception&) { ok = false; }
    std::vector<int> lens;
    for (auto& x : rows) lens.push_back(x.size());
    std::string cols = "[";
    for (auto& nm : names) cols += (cols.size() > 1 ? "," : "") + (in.count(nm) ? jcolumn(in[nm]) : std::string("[]"));
    T(Ev("ser").f("n", n).f("flaw", flaw.c_str()).f("ok", ok).f("lens", lens).raw("cols", cols + "]"));
    if (!ok || flaw != "none") break;
    // through shares and back
    int owner = r.below(2);
    bool viaProcessor = r.chance(40);
    std::vector<uint64_t> pick(n);
    for (int k = 0; k < n; k++) pick[k] = k;
    if (viaProcessor) {
      for (int k = n; k > 1; k--) std::swap(pick[k - 1], pick[r.below(k)]);
      pick.resize(r.range(1, n));
    }
    std::string out[2];
    static const char* kinds3[] = {"lazy", "eager", "netplain"};
    auto err = runMpc(kinds3[(i + t) % 3], 2, r.below(3), r.next(), [&](int me, fbpcf::scheduler::IArithmeticScheduler&, AgentFactory& af) {
      sr::RowStructureDefinition<0> mine(def, pad);
      SecString s;
      if (viaProcessor) {
        auto p = dp::insecure::DummyDataProcessorFactory<0>(me, 1 - me, af).create();
        s = me == owner ? p->processMyData(rows, pick.size()) : p->processPeersData(n, pick, mine.getRowSizeBytes());
      } else {
        std::vector<std::vector<bool>> b(rows[0].size() * 8, std::vector<bool>(n));
        for (size_t k = 0; k < b.size(); k++) for (int j = 0; j < n; j++) b[k][j] = me == owner && (rows[j][k / 8] >> k % 8 & 1);
        s = SecString(b, owner);
      }
      auto back = mine.deserializeUDPOutputIntoMPCTypes(s);
      std::string c = "[";
      for (auto& kv : def) {
        std::string a[2];
        for (int to = 0; to < 2; to++) a[to] = openColumn(back.at(kv.first), kv.second, pick.size(), to);
        c += (c.size() > 1 ? "," : "") + a[me];
      }
      out[me] = Ev("back").f("me", me).f("count", (int)back.size()).f("pick", std::vector<int>(pick.begin(), pick.end())).raw("cols", c + "]").str();
    });
    for (auto& e : err) if (!e.empty()) T(Ev("failed").f("what", e.c_str()));
    for (int p = 0; p < 2; p++) if (!out[p].empty()) T.line(out[p]);
  }
}

int main(int argc, char** argv) {
  Args a(argc, argv);
  Trace T(a.out);
  Watchdog dog(T, 60);
  int n = a.thorough ? 1500 : 150;
  for (int i = 0; i < n; i++) {
    dog.tick();
    Rng r(a.seed * 1000003 + a.shard * 7919 + i);
    one(T, r, i);
  }
  return 0;
}
