#pragma once
#include <ethash/hash_types.h>
namespace ethash {
using hash256 = ethash_hash256;
using hash512 = ethash_hash512;
}
