// The absl library functions taking a string_view, for absl::string_view ==
// std::string_view (the installed library was built with its own class).
#include <cctype>
#include <cerrno>
#include <cstdlib>
#include <string>
#include "absl/strings/escaping.h"
#include "absl/strings/match.h"
#include "absl/strings/numbers.h"
#include "absl/strings/str_cat.h"
#include "absl/strings/str_replace.h"
#include "absl/strings/str_split.h"
#include <time.h>
#include "absl/time/clock.h"
namespace absl {
ABSL_NAMESPACE_BEGIN
// the library's own reads the cycle counter
int64_t GetCurrentTimeNanos() { struct timespec t; clock_gettime(CLOCK_REALTIME, &t); return t.tv_sec * 1000000000ll + t.tv_nsec; }
Time Now() { return FromUnixNanos(GetCurrentTimeNanos()); }
static const char kB64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
std::string Base64Escape(absl::string_view s) {
  std::string r; size_t i = 0; r.reserve((s.size() + 2) / 3 * 4);
  auto u = [&](size_t k) { return (uint32_t)(unsigned char)s[k]; };
  for (; i + 2 < s.size(); i += 3) { uint32_t v = u(i) << 16 | u(i + 1) << 8 | u(i + 2); r += kB64[v >> 18]; r += kB64[(v >> 12) & 63]; r += kB64[(v >> 6) & 63]; r += kB64[v & 63]; }
  if (s.size() - i == 1) { uint32_t v = u(i) << 16; r += kB64[v >> 18]; r += kB64[(v >> 12) & 63]; r += "=="; }
  else if (s.size() - i == 2) { uint32_t v = u(i) << 16 | u(i + 1) << 8; r += kB64[v >> 18]; r += kB64[(v >> 12) & 63]; r += kB64[(v >> 6) & 63]; r += '='; }
  return r;
}
void Base64Escape(absl::string_view s, std::string* d) { *d = Base64Escape(s); }
bool Base64Unescape(absl::string_view s, std::string* d) {
  std::string o; uint32_t acc = 0; int bits = 0; size_t n = s.size(), data = 0, pads = 0;
  for (size_t i = 0; i < n; ++i) {
    char c = s[i]; if (isspace((unsigned char)c)) continue;
    if (c == '=') { ++pads; continue; }
    if (pads) return false;
    const char* p = c ? strchr(kB64, c) : nullptr; if (!p) return false;
    acc = acc << 6 | (uint32_t)(p - kB64); bits += 6; ++data;
    if (bits >= 8) { bits -= 8; o += (char)(acc >> bits & 255); }
  }
  if (data % 4 == 1 || (pads && (data + pads) % 4) || pads > 2) return false;
  if (acc & ((1u << bits) - 1)) return false;
  *d = std::move(o); return true;
}
std::string BytesToHexString(absl::string_view s) { static const char* h = "0123456789abcdef"; std::string r; for (unsigned char c : s) { r += h[c >> 4]; r += h[c & 15]; } return r; }
std::string HexStringToBytes(absl::string_view s) {
  auto v = [](char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }; std::string r; for (size_t i = 0; i + 1 < s.size(); i += 2) r += (char)(v(s[i]) << 4 | v(s[i + 1])); return r;
}
absl::string_view ByChar::Find(absl::string_view t, size_t pos) const { size_t f = t.find(c_, pos); return f == absl::string_view::npos ? absl::string_view(t.data() + t.size(), 0) : t.substr(f, 1); }
ByString::ByString(absl::string_view sp) : delimiter_(sp) {}
absl::string_view ByString::Find(absl::string_view t, size_t pos) const {
  if (delimiter_.empty()) return pos + 1 <= t.size() && !t.empty() ? absl::string_view(t.data() + pos + 1, 0) : absl::string_view(t.data() + t.size(), 0);
  size_t f = t.find(delimiter_, pos); return f == absl::string_view::npos ? absl::string_view(t.data() + t.size(), 0) : t.substr(f, delimiter_.size());
}
ByAnyChar::ByAnyChar(absl::string_view sp) : delimiters_(sp) {}
absl::string_view ByAnyChar::Find(absl::string_view t, size_t pos) const { size_t f = t.find_first_of(delimiters_, pos); return f == absl::string_view::npos ? absl::string_view(t.data() + t.size(), 0) : t.substr(f, 1); }
static std::string Lower(absl::string_view s) { std::string r(s); for (auto& c : r) c = (char)tolower((unsigned char)c); return r; }
bool EqualsIgnoreCase(absl::string_view a, absl::string_view b) noexcept { return Lower(a) == Lower(b); }
bool StartsWithIgnoreCase(absl::string_view t, absl::string_view p) noexcept { return t.size() >= p.size() && Lower(t.substr(0, p.size())) == Lower(p); }
bool EndsWithIgnoreCase(absl::string_view t, absl::string_view p) noexcept { return t.size() >= p.size() && Lower(t.substr(t.size() - p.size())) == Lower(p); }
std::string StrReplaceAll(absl::string_view s, std::initializer_list<std::pair<absl::string_view, absl::string_view>> rs) {
  std::string o; size_t i = 0;
  while (i < s.size()) {
    const std::pair<absl::string_view, absl::string_view>* best = nullptr;
    for (auto& r : rs) if (!r.first.empty() && s.substr(i, r.first.size()) == r.first && (!best || r.first.size() > best->first.size())) best = &r;
    if (best) { o += best->second; i += best->first.size(); } else o += s[i++];
  }
  return o;
}
int StrReplaceAll(std::initializer_list<std::pair<absl::string_view, absl::string_view>> rs, std::string* t) {
  int n = 0; std::string o; size_t i = 0; absl::string_view s = *t;
  while (i < s.size()) {
    const std::pair<absl::string_view, absl::string_view>* best = nullptr;
    for (auto& r : rs) if (!r.first.empty() && s.substr(i, r.first.size()) == r.first && (!best || r.first.size() > best->first.size())) best = &r;
    if (best) { o += best->second; i += best->first.size(); ++n; } else o += s[i++];
  }
  *t = std::move(o); return n;
}
namespace numbers_internal {
template <class T> static bool Parse(absl::string_view t, T* v, int base) {
  size_t b = 0, e = t.size(); while (b < e && isspace((unsigned char)t[b])) ++b; while (e > b && isspace((unsigned char)t[e - 1])) --e;
  *v = 0; if (b == e) return false;
  bool neg = false; if (t[b] == '-') { neg = true; ++b; } else if (t[b] == '+') ++b;
  if (b == e || (neg && !std::numeric_limits<T>::is_signed)) return false;
  if (base == 0) base = 10;
  __int128 r = 0;
  for (; b < e; ++b) {
    char c = t[b]; int d = isdigit((unsigned char)c) ? c - '0' : isalpha((unsigned char)c) ? (c | 32) - 'a' + 10 : 99; if (d >= base) return false;
    r = r * base + d; if (r > ((__int128)1 << 66)) break;
  }
  if (neg) r = -r;
  if (r > (__int128)std::numeric_limits<T>::max()) { *v = std::numeric_limits<T>::max(); return false; }
  if (r < (__int128)std::numeric_limits<T>::min()) { *v = std::numeric_limits<T>::min(); return false; }
  *v = (T)r; return true;
}
bool safe_strto32_base(absl::string_view t, int32_t* v, int b) { return Parse(t, v, b); }
bool safe_strto64_base(absl::string_view t, int64_t* v, int b) { return Parse(t, v, b); }
bool safe_strtou32_base(absl::string_view t, uint32_t* v, int b) { return Parse(t, v, b); }
bool safe_strtou64_base(absl::string_view t, uint64_t* v, int b) { return Parse(t, v, b); }
}  // namespace numbers_internal
bool SimpleAtod(absl::string_view s, double* o) { std::string t(s); char* e; errno = 0; *o = strtod(t.c_str(), &e); while (*e == ' ') ++e; return !t.empty() && !*e && !errno; }
bool SimpleAtof(absl::string_view s, float* o) { double d; bool r = SimpleAtod(s, &d); *o = d; return r; }
namespace strings_internal {
std::string CatPieces(std::initializer_list<absl::string_view> p) { std::string r; for (auto x : p) r += x; return r; }
void AppendPieces(std::string* d, std::initializer_list<absl::string_view> p) { for (auto x : p) *d += x; }
}  // namespace strings_internal
std::string StrCat(const AlphaNum& a, const AlphaNum& b) { return strings_internal::CatPieces({a.Piece(), b.Piece()}); }
std::string StrCat(const AlphaNum& a, const AlphaNum& b, const AlphaNum& c) { return strings_internal::CatPieces({a.Piece(), b.Piece(), c.Piece()}); }
std::string StrCat(const AlphaNum& a, const AlphaNum& b, const AlphaNum& c, const AlphaNum& d) { return strings_internal::CatPieces({a.Piece(), b.Piece(), c.Piece(), d.Piece()}); }
void StrAppend(std::string* s, const AlphaNum& a) { *s += a.Piece(); }
void StrAppend(std::string* s, const AlphaNum& a, const AlphaNum& b) { *s += a.Piece(); *s += b.Piece(); }
void StrAppend(std::string* s, const AlphaNum& a, const AlphaNum& b, const AlphaNum& c) { *s += StrCat(a, b, c); }
void StrAppend(std::string* s, const AlphaNum& a, const AlphaNum& b, const AlphaNum& c, const AlphaNum& d) { *s += StrCat(a, b, c, d); }
bool SimpleAtob(absl::string_view s, bool* o) {
  std::string l = Lower(s);
  if (l == "true" || l == "t" || l == "yes" || l == "y" || l == "1") { *o = true; return true; }
  if (l == "false" || l == "f" || l == "no" || l == "n" || l == "0") { *o = false; return true; }
  return false;
}
ABSL_NAMESPACE_END
}  // namespace absl
