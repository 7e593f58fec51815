#pragma once
#include <random>
#include <cstdint>
namespace folly {
struct Random {
  static std::mt19937_64& e() { thread_local std::mt19937_64 g{std::random_device{}()}; return g; }
  static uint32_t rand32() { return (uint32_t)e()(); }
  static uint32_t rand32(uint32_t m) { return m ? rand32() % m : 0; }
  static uint32_t rand32(uint32_t a, uint32_t b) { return a < b ? a + rand32() % (b - a) : 0; }
  static uint64_t rand64() { return e()(); }
  static uint64_t rand64(uint64_t m) { return m ? rand64() % m : 0; }
  static uint64_t rand64(uint64_t a, uint64_t b) { return a < b ? a + rand64() % (b - a) : 0; }
  static uint32_t secureRand32() { return rand32(); }
  static uint32_t secureRand32(uint32_t m) { return rand32(m); }
  static uint32_t secureRand32(uint32_t a, uint32_t b) { return rand32(a, b); }
  static uint64_t secureRand64() { return rand64(); }
  static uint64_t secureRand64(uint64_t m) { return rand64(m); }
  static uint64_t secureRand64(uint64_t a, uint64_t b) { return rand64(a, b); }
  static bool secureOneIn(uint32_t n) { return n && rand32(n) == 0; }
  static bool oneIn(uint32_t n) { return n && rand32(n) == 0; }
};
}
