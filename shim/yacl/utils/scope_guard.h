#pragma once
#include <utility>
namespace yacl {
template <class F> class ScopeGuard { public: explicit ScopeGuard(F f) : f_(std::move(f)) {} ~ScopeGuard() { f_(); } ScopeGuard(ScopeGuard&&) = delete; private: F f_; };
struct ScopeGuardOp { template <class F> ScopeGuard<F> operator+(F f) const { return ScopeGuard<F>(std::move(f)); } };
}  // namespace yacl
#define SHIM_CAT2(a, b) a##b
#define SHIM_CAT(a, b) SHIM_CAT2(a, b)
#define ON_SCOPE_EXIT(...) auto SHIM_CAT(scope_guard_, __COUNTER__) = yacl::ScopeGuardOp() + __VA_ARGS__
