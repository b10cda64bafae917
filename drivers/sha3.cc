// Histories of the real Sha3Cache.
//   sha3 seq SEED N        one long history; prints <input hex> <hash hex> per call
//   sha3 threads SEED N    the same from four threads sharing one cache
#include <cstdio>
#include <cstring>
#include <iostream>
#include <memory>
#include <random>
#include <string>
#include <thread>
#include <vector>
#include "vm/evmzero/sha3_cache.h"
using namespace tosca::evmzero;
using Bytes = std::vector<uint8_t>;

static std::string Hex(const uint8_t* p, size_t n) {
  static const char* d = "0123456789abcdef";
  std::string s;
  for (size_t i = 0; i < n; i++) { s += d[p[i] >> 4]; s += d[p[i] & 15]; }
  return s.empty() ? "-" : s;
}

// Inputs: many lengths, with families that differ in one byte or share prefixes,
// suffixes and the hash-table words.
static Bytes Input(std::mt19937& rng, int family, const Bytes& base) {
  switch (family) {
    case 0: { Bytes b(rng() % 200); for (auto& x : b) x = rng(); return b; }
    case 1: { Bytes b(32); b[31] = rng() % 256; b[30] = rng() % 6; return b; }        // mapping-like keys
    case 2: { Bytes b(64); b[31] = rng() % 256; b[63] = rng() % 8; return b; }
    case 3: { Bytes b(base.begin(), base.begin() + 32); b[rng() % 32] ^= 1 << rng() % 8; return b; }
    case 4: { Bytes b(base.begin(), base.begin() + 64); b[rng() % 64] ^= 1 << rng() % 8; return b; }
    case 5: return Bytes(base.begin(), base.begin() + 30 + rng() % 5);
    case 6: return Bytes(base.begin(), base.begin() + 62 + rng() % 5);
    default: return Bytes(rng() % 300, (uint8_t)(rng() % 3));
  }
}

int main(int argc, char** argv) {
  std::string mode = argv[1];
  unsigned seed = atoi(argv[2]);
  int n = atoi(argv[3]);
  auto cache = std::make_unique<Sha3Cache>();
  auto work = [&](unsigned s, std::string& out) {
    std::mt19937 rng(s), common(seed);
    Bytes base(200);
    for (auto& x : base) x = common();
    std::vector<Bytes> recent;
    for (int i = 0; i < n; i++) {
      Bytes b = !recent.empty() && rng() % 2 ? recent[rng() % recent.size()] : Input(rng, rng() % 8, base);
      if (recent.size() < 400) recent.push_back(b); else recent[rng() % recent.size()] = b;
      std::unique_ptr<uint8_t[]> exact(new uint8_t[b.size()]);
      if (!b.empty()) memcpy(exact.get(), b.data(), b.size());
      auto h = cache->Hash({exact.get(), b.size()});
      auto be = ToEvmcBytes(h);
      out += Hex(b.data(), b.size()) + " " + Hex(be.bytes, 32) + "\n";
      // A scan that pushes everything out of the caches.
      if (mode == "seq" && i % 3000 == 2999) for (int k = 0; k < 1100; k++) { uint8_t key[64] = {}; key[0] = 9; key[1] = k; key[2] = k >> 8; cache->Hash({key, 32}); cache->Hash({key, 64}); }
    }
  };
  if (mode == "seq") { std::string o; work(seed, o); std::cout << o; return 0; }
  std::vector<std::string> outs(4);
  std::vector<std::thread> ts;
  for (int i = 0; i < 4; i++) ts.emplace_back([&, i] { work(seed * 31 + i / 2, outs[i]); });
  for (auto& t : ts) t.join();
  for (auto& o : outs) std::cout << o;
}
