#pragma once
#include <string>
namespace yacl {
struct ArgLibT { template <class T> int operator=(T&&) const { return 0; } };
inline const ArgLibT ArgLib{};
}  // namespace yacl
