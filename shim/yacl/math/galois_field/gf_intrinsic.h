#pragma once
#include "yacl/base/block.h"
#include "yacl/base/int128.h"
namespace yacl { uint128_t GfMul128(uint128_t a, uint128_t b); }
