// Records uses of the ORAM index encoder, its mapping and the decoder.
#include <filesystem>
#include "common.h"
#include "fbpcf/mpc_std_lib/oram/encoder/OramDecoder.h"
#include "fbpcf/mpc_std_lib/oram/encoder/OramEncoder.h"

using namespace vh;
namespace om = fbpcf::mpc_std_lib::oram;
using Row = std::vector<uint32_t>;

// numbers of 32 bits as 4 bytes, most significant first: their order is that of the sequences
static std::string jn(uint32_t v) { return "[" + std::to_string(v >> 24) + "," + std::to_string(v >> 16 & 255) + "," + std::to_string(v >> 8 & 255) + "," + std::to_string(v & 255) + "]"; }
static std::string jn_(const uint32_t& v) { return jn(v); }
static std::string jrow(const Row& r) { return jmap(r, jn_); }
static std::string jrows(const std::vector<Row>& r) { return jmap(r, jrow); }

static const char* names[] = {"GT", "LT", "GTE", "LTE", "EQ", "NEQ", "SUBSET_OF", "NOT_SUBSET_OF"};

int main(int c, char** v) {
  Args ar(c, v);
  Trace T(ar.out);
  Watchdog wd(T, 60);
  Rng r(ar.seed * 1000 + ar.shard);
  std::string dir = std::string(getenv("VERIF_SCRATCH")) + "/enc";
  std::filesystem::create_directories(dir);
  int eps = ar.thorough ? 1500 : 400;
  for (int e = 0; e < eps; e++) {
    wd.tick();
    T(Ev("begin").f("n", e));
    bool big = e % 12 == 11;
    int vast = e < 3 ? e + 1 : 0;  // more rows that differ, more rows at once, or more columns than a byte counts
    int cols = big ? r.range(2, 6) : r.range(1, 4);
    if (vast) cols = vast == 3 ? r.range(257, 300) : 2;
    std::vector<uint32_t> pool;
    int np = vast == 1 ? r.range(40, 60) : big ? r.range(4, 30) : r.range(1, 6);
    for (int i = 0; i < np; i++) {
      static const uint32_t special[] = {0, 1, 2, 10, 11, 12, 100, 256, 0x7fffffffu, 0x80000000u, 0xffffffffu, 4294967290u};
      pool.push_back(r.coin() ? special[r.below(12)] : r.coin() ? (uint32_t)r.below(30) : (uint32_t)r.next());
    }
    auto filters = std::make_unique<std::vector<std::unique_ptr<om::IFilter>>>();
    int nf = vast == 1 ? 0 : vast == 3 ? 1 : r.chance(40) ? 0 : big ? 1 : r.range(1, 3);
    for (int i = 0; i < nf; i++) {
      int t = big && r.chance(70) ? (r.coin() ? 5 : 7) : r.below(8);
      size_t col = vast == 3 ? 256 + r.below(cols - 256) : r.chance(7) ? cols : r.below(cols);
      bool wrong = r.chance(8);
      std::vector<uint32_t> vals;
      bool ok = true;
      std::unique_ptr<om::IFilter> f;
      if ((t < 6) != wrong) {
        vals = {r.chance(85) ? pool[r.below(np)] : (uint32_t)r.next()};
        try { f = std::make_unique<om::SingleValueFilter>((om::IFilter::FilterType)t, col, vals[0]); } catch (const std::invalid_argument&) { ok = false; }
      } else {
        int n = r.below(4);
        for (int k = 0; k < n; k++) vals.push_back(pool[r.below(np)]);
        try { f = std::make_unique<om::VectorValueFilter>((om::IFilter::FilterType)t, col, vals); } catch (const std::invalid_argument&) { ok = false; }
      }
      T(Ev("filter").f("type", names[t]).f("col", (int)col).raw("vals", jmap(vals, jn_)).f("many", (t < 6) == wrong).f("ok", ok));
      if (f) filters->push_back(std::move(f));
    }
    om::OramEncoder enc(std::move(filters));
    int steps = r.range(2, 9);
    for (int s = 0; s < steps; s++) {
      int w = r.below(10);
      if (w < 6 || s == 0) {
        std::vector<Row> in;
        int n = vast == 1 ? 300 : vast == 2 ? r.range(257, 300) : r.chance(8) ? 0 : big ? r.range(5, 60) : r.range(1, 14);
        for (int i = 0; i < n; i++) {
          Row x;
          int k = !vast && r.chance(4) ? r.range(1, 5) : cols;
          for (int j = 0; j < k; j++) x.push_back(pool[r.below(np)]);
          in.push_back(x);
        }
        bool ok = true;
        std::vector<uint32_t> out;
        try { out = enc.generateORAMIndexes(in); } catch (const std::invalid_argument&) { ok = false; }
        T(Ev("enc").raw("rows", jrows(in)).f("ok", ok).f("out", std::vector<int>(out.begin(), out.end())).f("size", (int)enc.getOramSize()));
        if (!ok) break;  // how much of the batch was taken is not defined
      } else {
        auto m = enc.exportMappingConfig();
        int how = r.below(3);
        if (how == 1) m = om::OramMappingConfig::fromSerializedString(m->serializeAsString());
        if (how == 2) {
          m->writeMappingToFile(dir + "/map");
          m = om::OramMappingConfig::readMappingFromFile(dir + "/map");
        }
        om::OramDecoder dec(std::move(m));
        int size = enc.getOramSize();
        int n = r.range(0, 12);
        std::vector<uint32_t> idx;
        for (int i = 0; i < n; i++) idx.push_back(r.chance(4) ? size + r.below(3) : r.below(std::max(size, 1)));
        if (r.chance(30)) { idx.clear(); for (int i = 0; i < size; i++) idx.push_back(i); }
        bool ok = true;
        std::vector<Row> out;
        try { out = dec.decodeORAMIndexes(idx); } catch (const std::exception&) { ok = false; }
        T(Ev("dec").f("idx", std::vector<int>(idx.begin(), idx.end())).f("ok", ok).raw("out", jrows(out)));
      }
    }
  }
  return 0;
}
