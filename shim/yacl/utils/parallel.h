#pragma once
#include <cstdint>
#include <exception>
#include <functional>
#include <thread>
#include <vector>
namespace yacl {
int get_num_threads();
void set_num_threads(int n);
bool in_parallel_region();
void ShimParallel(int64_t begin, int64_t end, int64_t grain, const std::function<void(int64_t, int64_t)>& f);
inline int init_num_threads() { return get_num_threads(); }
template <class F> void parallel_for(int64_t b, int64_t e, int64_t g, const F& f) { if (b < e) ShimParallel(b, e, g, [&](int64_t x, int64_t y) { f(x, y); }); }
template <class F> void parallel_for(int64_t b, int64_t e, const F& f) { parallel_for(b, e, 1, f); }
template <class S, class F, class R> S parallel_reduce(int64_t b, int64_t e, int64_t g, const F& f, const R& r) {
  S acc = f(b, e); (void)g; (void)r; return acc;
}
}  // namespace yacl
