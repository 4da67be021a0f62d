// Definitions behind the stand-in yacl headers: simulated entropy, hashing,
// the ideal group, ideal OT/OPRF/VOLE and the parallel-for fan-out.
#include <cstring>
#include <exception>
#include <mutex>
#include <stdexcept>
#include <thread>
#include <vector>
#include "FourQ_api.h"
#include "omp.h"
#include "openssl/rand.h"
#include "sim/sim.h"
#include "yacl/base/exception.h"
#include "yacl/crypto/aes/aes_intrinsics.h"
#include "yacl/crypto/ecc/ecc_spi.h"
#include "yacl/crypto/hash/hash_utils.h"
#include "yacl/crypto/rand/rand.h"
#include "yacl/crypto/tools/prg.h"
#include "yacl/kernel/algorithms/iknp_ote.h"
#include "yacl/kernel/algorithms/kkrt_ote.h"
#include "yacl/kernel/algorithms/silent_vole.h"
#include "yacl/math/galois_field/gf_intrinsic.h"
#include "yacl/utils/parallel.h"

// ------------------------------------------------------------------ entropy
extern "C" {
int omp_get_num_procs(void) { return sim::Active() ? sim::K().ncpu : 4; }
int omp_get_max_threads(void) { return omp_get_num_procs(); }
int omp_get_thread_num(void) { return 0; }
int omp_get_num_threads(void) { return 1; }
void omp_set_num_threads(int) {}
}
namespace yacl::crypto {
void FillRandBytes(void* p, size_t n) {
  char* c = (char*)p;
  while (n) { uint64_t v = sim::AppRand(); size_t k = n < 8 ? n : 8; memcpy(c, &v, k); c += k; n -= k; }
}
uint64_t PrgExpand(uint128_t seed, uint64_t counter, void* out, size_t n) {
  AES_KEY k; AES_set_encrypt_key(seed, &k);
  char* c = (char*)out;
  while (n) { uint128_t v = AesEnc(k, (uint128_t)counter++); size_t m = n < 16 ? n : 16; memcpy(c, &v, m); c += m; n -= m; }
  return counter;
}

// ------------------------------------------------------------------ hashing
namespace {
struct Sha {
  uint32_t h[8]; uint8_t b[64]; uint64_t len; uint32_t fill;
};
const uint32_t kK[64] = {0x428a2f98,0x71374491,0xb5c0fbcf,0xe9b5dba5,0x3956c25b,0x59f111f1,0x923f82a4,0xab1c5ed5,0xd807aa98,0x12835b01,0x243185be,0x550c7dc3,0x72be5d74,0x80deb1fe,0x9bdc06a7,0xc19bf174,0xe49b69c1,0xefbe4786,0x0fc19dc6,0x240ca1cc,0x2de92c6f,0x4a7484aa,0x5cb0a9dc,0x76f988da,0x983e5152,0xa831c66d,0xb00327c8,0xbf597fc7,0xc6e00bf3,0xd5a79147,0x06ca6351,0x14292967,0x27b70a85,0x2e1b2138,0x4d2c6dfc,0x53380d13,0x650a7354,0x766a0abb,0x81c2c92e,0x92722c85,0xa2bfe8a1,0xa81a664b,0xc24b8b70,0xc76c51a3,0xd192e819,0xd6990624,0xf40e3585,0x106aa070,0x19a4c116,0x1e376c08,0x2748774c,0x34b0bcb5,0x391c0cb3,0x4ed8aa4a,0x5b9cca4f,0x682e6ff3,0x748f82ee,0x78a5636f,0x84c87814,0x8cc70208,0x90befffa,0xa4506ceb,0xbef9a3f7,0xc67178f2};
inline uint32_t Ror(uint32_t x, int n) { return (x >> n) | (x << (32 - n)); }
void Blk(Sha& s, const uint8_t* p) {
  uint32_t w[64];
  for (int i = 0; i < 16; ++i) w[i] = (uint32_t)p[4 * i] << 24 | p[4 * i + 1] << 16 | p[4 * i + 2] << 8 | p[4 * i + 3];
  for (int i = 16; i < 64; ++i) w[i] = w[i - 16] + (Ror(w[i - 15], 7) ^ Ror(w[i - 15], 18) ^ (w[i - 15] >> 3)) + w[i - 7] + (Ror(w[i - 2], 17) ^ Ror(w[i - 2], 19) ^ (w[i - 2] >> 10));
  uint32_t a = s.h[0], b = s.h[1], c = s.h[2], d = s.h[3], e = s.h[4], f = s.h[5], g = s.h[6], h = s.h[7];
  for (int i = 0; i < 64; ++i) {
    uint32_t t1 = h + (Ror(e, 6) ^ Ror(e, 11) ^ Ror(e, 25)) + ((e & f) ^ (~e & g)) + kK[i] + w[i];
    uint32_t t2 = (Ror(a, 2) ^ Ror(a, 13) ^ Ror(a, 22)) + ((a & b) ^ (a & c) ^ (b & c));
    h = g; g = f; f = e; e = d + t1; d = c; c = b; b = a; a = t1 + t2;
  }
  s.h[0] += a; s.h[1] += b; s.h[2] += c; s.h[3] += d; s.h[4] += e; s.h[5] += f; s.h[6] += g; s.h[7] += h;
}
void Init(Sha& s) { static const uint32_t iv[8] = {0x6a09e667,0xbb67ae85,0x3c6ef372,0xa54ff53a,0x510e527f,0x9b05688c,0x1f83d9ab,0x5be0cd19}; memcpy(s.h, iv, 32); s.len = 0; s.fill = 0; }
void Upd(Sha& s, const void* q, size_t n) {
  const uint8_t* p = (const uint8_t*)q; s.len += n;
  while (n) { size_t k = 64 - s.fill < n ? 64 - s.fill : n; memcpy(s.b + s.fill, p, k); s.fill += k; p += k; n -= k; if (s.fill == 64) { Blk(s, s.b); s.fill = 0; } }
}
void Fin(Sha s, uint8_t* out) {
  uint64_t bits = s.len * 8; uint8_t x = 0x80; Upd(s, &x, 1); x = 0; while (s.fill != 56) Upd(s, &x, 1);
  uint8_t l[8]; for (int i = 0; i < 8; ++i) l[i] = bits >> (56 - 8 * i); Upd(s, l, 8);
  for (int i = 0; i < 8; ++i) { out[4 * i] = s.h[i] >> 24; out[4 * i + 1] = s.h[i] >> 16; out[4 * i + 2] = s.h[i] >> 8; out[4 * i + 3] = s.h[i]; }
}
void Start(Sha& s, HashAlgorithm a) { Init(s); if (a != HashAlgorithm::SHA256) { uint8_t t = 100 + (int)a; Upd(s, &t, 1); } }
std::array<uint8_t, 32> H1(HashAlgorithm a, ByteContainerView d) { Sha s; Start(s, a); Upd(s, d.data(), d.size()); std::array<uint8_t, 32> r; Fin(s, r.data()); return r; }
size_t DigestLen(HashAlgorithm a) {
  switch (a) {
    case HashAlgorithm::SHA224: return 28; case HashAlgorithm::SHA384: return 48; case HashAlgorithm::SHA512: case HashAlgorithm::BLAKE2B: return 64;
    case HashAlgorithm::SHA_1: return 20; case HashAlgorithm::SHA256: case HashAlgorithm::SM3: case HashAlgorithm::BLAKE3: return 32; default: YACL_THROW("Unsupported hash algo: {}", (int)a);
  }
}
}  // namespace
SslHash::SslHash(HashAlgorithm a) : a_(a), n_(DigestLen(a)) { auto* s = new Sha; Start(*s, a); c_ = (EVP_MD_CTX*)s; }
SslHash::SslHash(const SslHash& o) : a_(o.a_), n_(o.n_) { c_ = (EVP_MD_CTX*)new Sha(*(Sha*)o.c_); }
SslHash::~SslHash() { delete (Sha*)c_; }
SslHash& SslHash::Reset() { Start(*(Sha*)c_, a_); return *this; }
SslHash& SslHash::Update(ByteContainerView d) { Upd(*(Sha*)c_, d.data(), d.size()); return *this; }
std::vector<uint8_t> SslHash::CumulativeHash() const {
  uint8_t r[64]; Fin(*(Sha*)c_, r);
  if (n_ > 32) { Sha s = *(Sha*)c_; Upd(s, "x", 1); Fin(s, r + 32); }
  return std::vector<uint8_t>(r, r + n_);
}
std::array<uint8_t, 32> Sha256(ByteContainerView d) { return H1(HashAlgorithm::SHA256, d); }
std::array<uint8_t, 32> Sm3(ByteContainerView d) { return H1(HashAlgorithm::SM3, d); }
std::array<uint8_t, 32> Blake3(ByteContainerView d) { return H1(HashAlgorithm::BLAKE3, d); }
std::array<uint8_t, 20> Sha1(ByteContainerView d) { auto a = H1(HashAlgorithm::SHA_1, d); std::array<uint8_t, 20> r; memcpy(r.data(), a.data(), 20); return r; }
uint128_t Blake3_128(ByteContainerView d) { auto a = Blake3(d); uint128_t r; memcpy(&r, a.data(), 16); return r; }

// ------------------------------------------------------------- ideal group
// The additive group Z_p, p = 2^127 - 1, with scalars acting by multiplication
// mod p: commutative, injective for non-zero scalars, invertible.
namespace {
const uint128_t kP = (((uint128_t)1) << 127) - 1;
uint128_t Red(uint128_t v) { v = (v & kP) + (v >> 127); return v >= kP ? v - kP : v; }
uint128_t MulP(uint128_t a, uint128_t b) {
  uint64_t a0 = a, a1 = a >> 64, b0 = b, b1 = b >> 64;
  uint128_t ll = (uint128_t)a0 * b0, lh = (uint128_t)a0 * b1, hl = (uint128_t)a1 * b0, hh = (uint128_t)a1 * b1;
  uint128_t mid = (ll >> 64) + (uint64_t)lh + (uint64_t)hl;
  uint128_t lo = (uint128_t)(uint64_t)ll | (mid << 64);
  uint128_t hi = hh + (lh >> 64) + (hl >> 64) + (mid >> 64);
  // value = hi * 2^128 + lo;  2^128 = 2 mod p
  uint128_t h2 = Red(hi << 1);   // hi < 2^126
  return Red(Red(lo) + h2);
}
uint128_t PowP(uint128_t a, uint128_t e) { uint128_t r = 1; while (e) { if (e & 1) r = MulP(r, a); a = MulP(a, a); e >>= 1; } return r; }
uint128_t Scalar(const uint8_t* p, size_t n) {   // little endian, mod p, never 0
  uint128_t r = 0; for (size_t i = n; i-- > 0;) { r = Red(MulP(r, 256) + p[i]); }
  return r ? r : 1;
}
uint128_t Mix(uint128_t v) {
  uint64_t a = (uint64_t)v, b = (uint64_t)(v >> 64);
  auto f = [](uint64_t z) { z += 0x9E3779B97F4A7C15ull; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); };
  uint64_t x = f(a ^ f(b)), y = f(b ^ f(a + 0x1234567));
  return (uint128_t)f(x + y * 3) << 64 | f(y ^ (x * 5));
}
Array32 Elem(uint128_t v) { Array32 r; memcpy(r.data(), &v, 16); uint128_t m = Mix(v); memcpy(r.data() + 16, &m, 16); return r; }
uint128_t Val(const uint8_t* p) { uint128_t v; memcpy(&v, p, 16); v = Red(v); return v ? v : 1; }
bool Valid(const uint8_t* p) { uint128_t v, m; memcpy(&v, p, 16); memcpy(&m, p + 16, 16); return v && v < kP && m == Mix(v); }
}  // namespace
EcGroup::EcGroup(std::string curve) : curve_(std::move(curve)) {
  std::string l; for (char c : curve_) l += tolower(c);
  len_ = (l == "sm2" || l == "secp256k1") ? 33 : 32;
  raw_ = l.find("25519") != std::string::npos;
}
EcGroupFactory& EcGroupFactory::Instance() { static EcGroupFactory f; return f; }
EcPoint EcGroup::HashToCurve(HashToCurveStrategy, std::string_view s) const {
  auto h = Sha256(ByteContainerView(s.data(), s.size())); return Elem(Val(h.data()));
}
EcPoint EcGroup::Mul(const EcPoint& p, const math::MPInt& k) const { return Elem(MulP(Val(std::get<Array32>(p).data()), Scalar(k.Le().data(), k.Le().size()))); }
EcPoint EcGroup::MulBase(const math::MPInt& k) const { return Elem(MulP(9, Scalar(k.Le().data(), k.Le().size()))); }
Buffer EcGroup::SerializePoint(const EcPoint& p, PointOctetFormat) const {
  const auto& a = std::get<Array32>(p); Buffer b((int64_t)len_); char* c = b.data<char>();
  if (len_ == 33) *c++ = 2; memcpy(c, a.data(), 32); return b;
}
EcPoint EcGroup::DeserializePoint(ByteContainerView b, PointOctetFormat) const {
  YACL_ENFORCE(b.size() == len_, "{}: point of {} bytes, want {}", curve_, b.size(), len_);
  const uint8_t* p = b.data(); if (len_ == 33) { YACL_ENFORCE(*p == 2 || *p == 3, "bad point"); ++p; }
  YACL_ENFORCE(raw_ || Valid(p), "{}: not on the curve", curve_);
  Array32 r; memcpy(r.data(), p, 32); return r;
}

// ---------------------------------------------------------------- OT / OPRF
OtRecvStore BaseOtRecv(const std::shared_ptr<link::Context>& ctx, const dynamic_bitset<uint128_t>& c, uint32_t n) {
  YACL_ENFORCE(c.size() == n); ctx->SendAsync(ctx->NextRank(), Buffer("BOTR"), "BASE_OT:R"); auto b = ctx->Recv(ctx->NextRank(), "BASE_OT:S");
  YACL_ENFORCE(b.size() == 4); return OtRecvStore(n);
}
OtSendStore BaseOtSend(const std::shared_ptr<link::Context>& ctx, uint32_t n) {
  auto b = ctx->Recv(ctx->NextRank(), "BASE_OT:R"); YACL_ENFORCE(b.size() == 4); ctx->SendAsync(ctx->NextRank(), Buffer("BOTS"), "BASE_OT:S"); return OtSendStore(n);
}
OtSendStore IknpOtExtSend(const std::shared_ptr<link::Context>& ctx, const OtRecvStore& base, uint32_t n, bool) {
  YACL_ENFORCE(base.Size() == 128); auto b = ctx->Recv(ctx->NextRank(), "IKNP"); YACL_ENFORCE((uint32_t)b.size() == 4 + n); return OtSendStore(n);
}
OtRecvStore IknpOtExtRecv(const std::shared_ptr<link::Context>& ctx, const OtSendStore& base, const dynamic_bitset<uint128_t>& c, uint32_t n, bool) {
  YACL_ENFORCE(base.Size() == 128 && c.size() == n); Buffer b((int64_t)4 + n); memset(b.data(), 'i', 4 + n); ctx->SendAsync(ctx->NextRank(), b, "IKNP"); return OtRecvStore(n);
}
void KkrtPrf(uint128_t key, uint64_t idx, uint128_t item, uint8_t* out, size_t n) {
  uint128_t a = Mix(key ^ ((uint128_t)idx << 64 | 0x6b6b7274)), b = Mix(a ^ item);
  size_t m = n < 16 ? n : 16; memcpy(out, &b, m);
  for (size_t i = 16; i < n; ++i) out[i] = (uint8_t)(Mix(b + i));
}
void KkrtOtExtReceiver::Init(const std::shared_ptr<link::Context>&, const OtSendStore& s, uint64_t n) { YACL_ENFORCE(s.Size() == 512, "KKRT needs 512 base OTs"); num_ = n; key_ = RandU128(); }
Buffer KkrtOtExtReceiver::ShiftCorrection(uint64_t n) {
  Buffer b((int64_t)n * 64); PrgExpand(key_, 77, b.data(), n * 64); memcpy(b.data(), &key_, n ? 16 : 0); key_ = RandU128(); return b;
}

// --------------------------------------------------------------- ideal VOLE
SilentVoleSender::SilentVoleSender(CodeType, bool) : delta_(RandU128()) {}
static uint128_t VoleSeed(const std::shared_ptr<link::Context>& ctx, size_t n) {
  auto b = ctx->Recv(ctx->NextRank(), "VOLE"); YACL_ENFORCE(b.size() == 24); uint64_t m; memcpy(&m, b.data<char>() + 16, 8); YACL_ENFORCE(m == n, "vole size {} != {}", m, n);
  uint128_t s; memcpy(&s, b.data(), 16); return s;
}
static uint128_t VoleOpen(const std::shared_ptr<link::Context>& ctx, uint64_t n) {
  uint128_t s = RandU128(); Buffer b((int64_t)24); memcpy(b.data(), &s, 16); memcpy(b.data<char>() + 16, &n, 8); ctx->SendAsync(ctx->NextRank(), b, "VOLE"); return s;
}
void SilentVoleSender::Send(const std::shared_ptr<link::Context>& ctx, absl::Span<uint128_t> c) {
  uint128_t s = VoleSeed(ctx, c.size()); std::vector<uint128_t> a(c.size()); PrgExpand(s, 0, a.data(), 16 * c.size()); PrgExpand(s + 1, 0, c.data(), 16 * c.size());
  for (size_t i = 0; i < c.size(); ++i) c[i] ^= GfMul128(delta_, a[i]);
}
void SilentVoleReceiver::Recv(const std::shared_ptr<link::Context>& ctx, absl::Span<uint128_t> a, absl::Span<uint128_t> b) {
  uint128_t s = VoleOpen(ctx, a.size()); PrgExpand(s, 0, a.data(), 16 * a.size()); PrgExpand(s + 1, 0, b.data(), 16 * a.size());
}
void SilentVoleSender::SfSend(const std::shared_ptr<link::Context>& ctx, absl::Span<uint128_t> c) {
  uint128_t s = VoleSeed(ctx, c.size()); std::vector<uint64_t> a(c.size()); PrgExpand(s, 0, a.data(), 8 * c.size()); PrgExpand(s + 1, 0, c.data(), 16 * c.size());
  for (size_t i = 0; i < c.size(); ++i) c[i] ^= GfMul128(delta_, a[i]);
}
void SilentVoleReceiver::SfRecv(const std::shared_ptr<link::Context>& ctx, absl::Span<uint64_t> a, absl::Span<uint128_t> b) {
  uint128_t s = VoleOpen(ctx, a.size()); PrgExpand(s, 0, a.data(), 8 * a.size()); PrgExpand(s + 1, 0, b.data(), 16 * a.size());
}
}  // namespace yacl::crypto

namespace yacl {
uint128_t GfMul128(uint128_t a, uint128_t b) {
  __m128i x = crypto::ToM128(a), y = crypto::ToM128(b);
  __m128i t1 = _mm_clmulepi64_si128(x, y, 0x00), t2 = _mm_clmulepi64_si128(x, y, 0x10), t3 = _mm_clmulepi64_si128(x, y, 0x01), t4 = _mm_clmulepi64_si128(x, y, 0x11);
  t2 = _mm_xor_si128(t2, t3); t1 = _mm_xor_si128(t1, _mm_slli_si128(t2, 8)); t4 = _mm_xor_si128(t4, _mm_srli_si128(t2, 8));
  __m128i m = _mm_set_epi64x(0, 0x87);
  __m128i r = _mm_clmulepi64_si128(t4, m, 0x01); t1 = _mm_xor_si128(t1, _mm_slli_si128(r, 8)); t4 = _mm_xor_si128(t4, _mm_srli_si128(r, 8));
  return crypto::FromM128(_mm_xor_si128(t1, _mm_clmulepi64_si128(t4, m, 0x00)));
}

// ------------------------------------------------------------- parallel_for
static thread_local bool tl_par = false;
static int g_threads = 0;
int get_num_threads() { return g_threads > 0 ? g_threads : (sim::Active() ? (int)sim::K().par_threads : 1); }
void set_num_threads(int n) { g_threads = n; }
bool in_parallel_region() { return tl_par; }
void ShimParallel(int64_t begin, int64_t end, int64_t grain, const std::function<void(int64_t, int64_t)>& f) {
  int64_t n = end - begin; if (grain < 1) grain = 1;
  int64_t k = get_num_threads(); if (sim::Active() && k > (int64_t)sim::K().par_threads) k = sim::K().par_threads;
  if (k > (n + grain - 1) / grain) k = (n + grain - 1) / grain;
  if (tl_par || k <= 1) { f(begin, end); return; }
  int64_t chunk = (n + k - 1) / k;
  std::vector<std::thread> ts; std::mutex m; std::exception_ptr first;
  auto run = [&](int64_t b, int64_t e) {
    tl_par = true;
    try { f(b, e); } catch (...) { std::lock_guard<std::mutex> l(m); if (!first) first = std::current_exception(); }
    tl_par = false;
  };
  for (int64_t i = 1; i < k; ++i) { int64_t b = begin + i * chunk, e = std::min(end, b + chunk); if (b < e) ts.emplace_back(run, b, e); }
  run(begin, std::min(end, begin + chunk));
  for (auto& t : ts) t.join();
  if (first) std::rethrow_exception(first);
}
}  // namespace yacl

// ----------------------------------------------------------- FourQ interface
using yacl::crypto::MulP;
using yacl::crypto::Scalar;
static uint128_t PV(point_affine* p) { uint128_t v; memcpy(&v, p->x, 16); return v; }
static void PS(point_affine* p, uint128_t v) { memset(p, 0, sizeof *p); memcpy(p->x, &v, 16); }
bool ecc_mul(point_affine* p, digit_t* k, point_affine* q, bool) { PS(q, MulP(PV(p), Scalar((uint8_t*)k, 32))); return true; }
void encode(point_affine* p, unsigned char* out) { auto e = yacl::crypto::Elem(PV(p)); memcpy(out, e.data(), 32); }
ECCRYPTO_STATUS decode(const unsigned char* in, point_affine* p) { if (!yacl::crypto::Valid(in)) return ECCRYPTO_ERROR_INVALID_PARAMETER; PS(p, yacl::crypto::Val(in)); return ECCRYPTO_SUCCESS; }
void mod1271(felm_t) {}
ECCRYPTO_STATUS HashToCurve(f2elm_t r, point_affine* p) { PS(p, yacl::crypto::Val((const uint8_t*)r)); return ECCRYPTO_SUCCESS; }
void to_Montgomery(const digit_t* a, digit_t* b) { memmove(b, a, 32); }
void from_Montgomery(const digit_t* a, digit_t* b) { memmove(b, a, 32); }
void Montgomery_inversion_mod_order(const digit_t* a, digit_t* b) {
  uint128_t v = yacl::crypto::PowP(Scalar((const uint8_t*)a, 32), yacl::crypto::kP - 2); uint8_t o[32] = {}; memcpy(o, &v, 16); memcpy(b, o, 32);
}

namespace yacl::io {
// the real destructor logs and calls _exit(-1)
void ExitForFail(const std::string& name) {
  sim::SetProcMsg("write failed in a destructor: " + name);
  sim::ExitNow(255);
}
}  // namespace yacl::io

namespace yacl::io { size_t IoBuffer() { return sim::Active() ? sim::K().io_buf : 0; } }
