#pragma once
#include <emmintrin.h>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <random>
// Insecure stand-in for the few emp-tool / emp-ot names fbpcf's adapter uses.
namespace emp {
using block = __m128i;
struct Group { unsigned char scratch[256]; void resize_scratch(size_t) {} };
struct Point { Group* group = nullptr; size_t size() const { return 0; } void to_bin(unsigned char*, size_t) {} void from_bin(Group*, const unsigned char*, size_t) {} };
template <class IO> struct IKNP {
  IO* io; __m128i delta{};
  explicit IKNP(IO* i) : io(i) {}
  void setup_send(const bool* d) { unsigned char b[16] = {0}; for (int i = 0; i < 128; i++) if (d[i]) b[i / 8] |= 1 << (i % 8); memcpy(&delta, b, 16); }
  void setup_recv() {}
  void send_cot(__m128i* out, int64_t n) {
    std::random_device rd; 
    for (int64_t i = 0; i < n; i++) { out[i] = _mm_set_epi32(rd(), rd(), rd(), rd()); __m128i p[2] = {out[i], _mm_xor_si128(out[i], delta)}; io->send_block(p, 2); }
  }
  void recv_cot(__m128i* out, const bool* b, int64_t n) { for (int64_t i = 0; i < n; i++) { __m128i p[2]; io->recv_block(p, 2); out[i] = b[i] ? p[1] : p[0]; } }
};
}
inline void block_to_bool(bool* d, __m128i b) { unsigned char c[16]; memcpy(c, &b, 16); for (int i = 0; i < 128; i++) d[i] = (c[i / 8] >> (i % 8)) & 1; }
