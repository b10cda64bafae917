// Hashes the keys given in hex, one per line, in several placements: in a heap
// block of exactly its size, and inside larger blocks at all alignments with
// different surroundings.
#include <cstdio>
#include <cstring>
#include <iostream>
#include <memory>
#include <string>
#include <utility>
#include "common/hash_utils.h"
static int h(char c) { return c <= '9' ? c - '0' : c - 'a' + 10; }
using Fn = size_t (*)(const uint8_t*);
template <size_t N> size_t Hash(const uint8_t* p) { return tosca::HashBytes<N>()(std::span<const uint8_t, N>(p, N)); }
template <size_t... I> Fn Select(size_t n, std::index_sequence<I...>) {
  Fn f = nullptr;
  ((I == n ? (f = &Hash<I>, 0) : 0), ...);
  return f;
}
static Fn Select(size_t n) {
  if (n == 64) return &Hash<64>;
  if (n == 65) return &Hash<65>;
  if (n == 127) return &Hash<127>;
  if (n == 128) return &Hash<128>;
  return Select(n, std::make_index_sequence<42>());
}
int main() {
  std::string l;
  unsigned salt = 1;
  while (std::getline(std::cin, l)) {
    size_t n = l.size() / 2;
    Fn f = Select(n);
    std::unique_ptr<uint8_t[]> p(new uint8_t[n]);
    for (size_t i = 0; i < n; i++) p[i] = h(l[2 * i]) * 16 + h(l[2 * i + 1]);
    std::string s = "{\"key\":[";
    for (size_t i = 0; i < n; i++) s += (i ? "," : "") + std::to_string(p[i]);
    s += "],\"hash\":[";
    auto emit = [&](size_t x, bool first) {
      s += first ? "[" : ",[";
      for (int i = 0; i < 4; i++) s += (i ? "," : "") + std::to_string((x >> (16 * i)) & 0xffff);
      s += "]";
    };
    emit(f(p.get()), true);
    // std::array keys are hashed through the same function object (alignment 1).
    for (int off = 0; off < 8; off++) {
      alignas(16) uint8_t big[176];
      for (auto& b : big) b = (salt = salt * 1103515245 + 12345) >> 16;
      memcpy(big + 16 + off, p.get(), n);
      emit(f(big + 16 + off), false);
    }
    for (size_t i = 0; i < n; i++)  // the key is not modified
      if (p[i] != h(l[2 * i]) * 16 + h(l[2 * i + 1])) { std::cerr << "MODIFIED\n"; return 1; }
    std::cout << s << "]}\n";
  }
}
