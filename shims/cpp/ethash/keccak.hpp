// Offline stand-in for ethash's Keccak (Keccak-256 with the original padding).
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <ethash/hash_types.hpp>

namespace ethash {
namespace detail {
inline uint64_t rotl(uint64_t x, unsigned s) noexcept { return s == 0 ? x : (x << s) | (x >> (64 - s)); }
inline void keccakf1600(uint64_t st[25]) noexcept {
  static constexpr uint64_t rc[24] = {
      0x0000000000000001, 0x0000000000008082, 0x800000000000808a, 0x8000000080008000, 0x000000000000808b,
      0x0000000080000001, 0x8000000080008081, 0x8000000000008009, 0x000000000000008a, 0x0000000000000088,
      0x0000000080008009, 0x000000008000000a, 0x000000008000808b, 0x800000000000008b, 0x8000000000008089,
      0x8000000000008003, 0x8000000000008002, 0x8000000000000080, 0x000000000000800a, 0x800000008000000a,
      0x8000000080008081, 0x8000000000008080, 0x0000000080000001, 0x8000000080008008};
  static constexpr unsigned rot[24] = {1,  3,  6,  10, 15, 21, 28, 36, 45, 55, 2,  14,
                                       27, 41, 56, 8,  25, 43, 62, 18, 39, 61, 20, 44};
  static constexpr unsigned pil[24] = {10, 7,  11, 17, 18, 3, 5,  16, 8,  21, 24, 4,
                                       15, 23, 19, 13, 12, 2, 20, 14, 22, 9,  6,  1};
  for (int r = 0; r < 24; ++r) {
    uint64_t bc[5];
    for (int i = 0; i < 5; ++i) bc[i] = st[i] ^ st[i + 5] ^ st[i + 10] ^ st[i + 15] ^ st[i + 20];
    for (int i = 0; i < 5; ++i) {
      const uint64_t t = bc[(i + 4) % 5] ^ rotl(bc[(i + 1) % 5], 1);
      for (int j = 0; j < 25; j += 5) st[j + i] ^= t;
    }
    uint64_t t = st[1];
    for (int i = 0; i < 24; ++i) {
      const unsigned j = pil[i];
      const uint64_t b = st[j];
      st[j] = rotl(t, rot[i]);
      t = b;
    }
    for (int j = 0; j < 25; j += 5) {
      uint64_t b[5];
      for (int i = 0; i < 5; ++i) b[i] = st[j + i];
      for (int i = 0; i < 5; ++i) st[j + i] = b[i] ^ (~b[(i + 1) % 5] & b[(i + 2) % 5]);
    }
    st[0] ^= rc[r];
  }
}
inline void keccak(uint8_t* out, size_t out_size, size_t rate, const uint8_t* data, size_t size) noexcept {
  uint64_t st[25] = {};
  uint8_t block[200];
  while (size >= rate) {
    for (size_t i = 0; i < rate / 8; ++i) {
      uint64_t w;
      std::memcpy(&w, data + 8 * i, 8);
      st[i] ^= w;
    }
    keccakf1600(st);
    data += rate;
    size -= rate;
  }
  std::memset(block, 0, sizeof(block));
  if (size) std::memcpy(block, data, size);
  block[size] = 0x01;
  block[rate - 1] |= 0x80;
  for (size_t i = 0; i < rate / 8; ++i) {
    uint64_t w;
    std::memcpy(&w, block + 8 * i, 8);
    st[i] ^= w;
  }
  keccakf1600(st);
  std::memcpy(out, st, out_size);
}
}  // namespace detail

inline hash256 keccak256(const uint8_t* data, size_t size) noexcept {
  hash256 h;
  detail::keccak(h.bytes, 32, 136, data, size);
  return h;
}
inline hash256 keccak256_32(const uint8_t data[32]) noexcept { return keccak256(data, 32); }
inline hash512 keccak512(const uint8_t* data, size_t size) noexcept {
  hash512 h;
  detail::keccak(h.bytes, 64, 72, data, size);
  return h;
}
inline hash256 keccak256(const hash256& x) noexcept { return keccak256(x.bytes, 32); }
}  // namespace ethash
