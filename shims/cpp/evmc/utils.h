#pragma once
#include <evmc/evmc.h>
