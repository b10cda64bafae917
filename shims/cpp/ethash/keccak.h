#pragma once
#include <ethash/keccak.hpp>
