#pragma once
// Included first everywhere: the standard headers the real yacl headers pull in.
#include <algorithm>
#include <array>
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <cstring>
#include <deque>
#include <filesystem>
#include <fstream>
#include <functional>
#include <future>
#include <iostream>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <optional>
#include <queue>
#include <random>
#include <set>
#include <shared_mutex>
#include <sstream>
#include <string>
#include <string_view>
#include <thread>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <variant>
#include <vector>
#include "absl/strings/ascii.h"
#include "absl/strings/escaping.h"
#include "absl/strings/numbers.h"
#include "absl/strings/str_join.h"
#include "absl/strings/str_split.h"
#include "absl/time/clock.h"
#include "absl/time/time.h"
#include "absl/types/span.h"
#include "fmt/format.h"
#include "fmt/ostream.h"
#include "fmt/ranges.h"
#include "spdlog/spdlog.h"
#include "yacl/base/buffer.h"
#include "yacl/base/exception.h"
#include "yacl/base/int128.h"
#include "yacl/crypto/hash/hash_utils.h"
#include "yacl/crypto/rand/rand.h"

// Guarded size constants of the code under test: the harness may draw a smaller
// value per run, so that paths of several batches are reached by small tables.
namespace sim {
size_t SizeOf(const char* name, size_t shipped);
void SetSize(const char* name, size_t v);  // 0: shipped value
struct Sized {
  const char* name; size_t shipped;
  operator size_t() const { return SizeOf(name, shipped); }
};
}  // namespace sim
#define PSI_SIM_SIZE(name, shipped) (::sim::Sized{name, shipped})
