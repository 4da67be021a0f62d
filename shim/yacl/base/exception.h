// Stand-in for yacl/base/exception.h.
#pragma once
#include "absl/types/span.h"
#include <exception>
#include <memory>
#include <stdexcept>
#include <string>
#include <utility>
#include "fmt/format.h"
#include "fmt/ostream.h"
#include "fmt/ranges.h"
namespace yacl {
namespace internal {
inline std::string Format() { return {}; }
template <class S, class... A> std::string Format(S&& f, A&&... a) { return fmt::format(fmt::runtime(std::forward<S>(f)), std::forward<A>(a)...); }
}  // namespace internal
class Exception : public std::exception {
 public:
  Exception() = default;
  explicit Exception(std::string m, void** = nullptr, int = 0, bool = false) : msg_(std::move(m)) {}
  const char* what() const noexcept override { return msg_.c_str(); }
  const std::string& stack_trace() const noexcept { return stack_; }
 private:
  std::string msg_, stack_;
};
#define SHIM_EX(N, B) class N : public B { using B::B; }
SHIM_EX(RuntimeError, Exception);
SHIM_EX(LogicError, Exception);
SHIM_EX(IoError, RuntimeError);
SHIM_EX(NetworkError, IoError);
SHIM_EX(LinkError, NetworkError);
SHIM_EX(InvalidFormat, IoError);
SHIM_EX(EnforceNotMet, Exception);
SHIM_EX(ArgumentError, Exception);
SHIM_EX(NotImplementedError, Exception);
#undef SHIM_EX
template <class T> T&& CheckNotNullImpl(const char* f, int l, T&& t) {
  if (t == nullptr) throw EnforceNotMet(fmt::format("[Enforce fail at {}:{}]. Pointer is null", f, l));
  return std::forward<T>(t);
}
}  // namespace yacl
#define YACL_THROW(...) throw yacl::RuntimeError(fmt::format("[{}:{}] {}", __FILE__, __LINE__, yacl::internal::Format(__VA_ARGS__)))
#define YACL_THROW_WITH_STACK(...) YACL_THROW(__VA_ARGS__)
#define YACL_THROW_HELPER(E, b, ...) throw E(fmt::format("[{}:{}] {}", __FILE__, __LINE__, yacl::internal::Format(__VA_ARGS__)))
#define YACL_THROW_LOGIC_ERROR(...) YACL_THROW_HELPER(yacl::LogicError, false, __VA_ARGS__)
#define YACL_THROW_IO_ERROR(...) YACL_THROW_HELPER(yacl::IoError, false, __VA_ARGS__)
#define YACL_THROW_NETWORK_ERROR(...) YACL_THROW_HELPER(yacl::NetworkError, false, __VA_ARGS__)
#define YACL_THROW_INVALID_FORMAT(...) YACL_THROW_HELPER(yacl::InvalidFormat, false, __VA_ARGS__)
#define YACL_THROW_ARGUMENT_ERROR(...) YACL_THROW_HELPER(yacl::ArgumentError, false, __VA_ARGS__)
#define YACL_ENFORCE(C, ...) \
  do { if (!(C)) throw yacl::EnforceNotMet(fmt::format("[Enforce fail at {}:{}] {}. {}", __FILE__, __LINE__, #C, yacl::internal::Format(__VA_ARGS__))); } while (false)
#define YACL_ENFORCE_THAT_IMPL(a, b, op, ...) \
  do { const auto& a_ = (a); const auto& b_ = (b); if (!(a_ op b_)) throw yacl::EnforceNotMet(fmt::format("[Enforce fail at {}:{}] {}. {} vs {}. {}", __FILE__, __LINE__, #a " " #op " " #b, a_, b_, yacl::internal::Format(__VA_ARGS__))); } while (false)
#define YACL_ENFORCE_EQ(x, y, ...) YACL_ENFORCE_THAT_IMPL(x, y, ==, ##__VA_ARGS__)
#define YACL_ENFORCE_NE(x, y, ...) YACL_ENFORCE_THAT_IMPL(x, y, !=, ##__VA_ARGS__)
#define YACL_ENFORCE_LE(x, y, ...) YACL_ENFORCE_THAT_IMPL(x, y, <=, ##__VA_ARGS__)
#define YACL_ENFORCE_LT(x, y, ...) YACL_ENFORCE_THAT_IMPL(x, y, <, ##__VA_ARGS__)
#define YACL_ENFORCE_GE(x, y, ...) YACL_ENFORCE_THAT_IMPL(x, y, >=, ##__VA_ARGS__)
#define YACL_ENFORCE_GT(x, y, ...) YACL_ENFORCE_THAT_IMPL(x, y, >, ##__VA_ARGS__)
namespace yacl { template <class T> T&& CheckNotNull(T&& t) { return CheckNotNullImpl(__FILE__, __LINE__, std::forward<T>(t)); } }

#ifndef WEAK_ENFORCE
#define WEAK_ENFORCE(...) YACL_ENFORCE(__VA_ARGS__)
#endif
