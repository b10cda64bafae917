#pragma once
#include <stdint.h>
union ethash_hash256 {
  uint64_t word64s[4];
  uint32_t word32s[8];
  uint8_t bytes[32];
  char str[32];
};
union ethash_hash512 {
  uint64_t word64s[8];
  uint32_t word32s[16];
  uint8_t bytes[64];
  char str[64];
};
