#pragma once
// No-op stand-in for the tracing SDK.
#include <cstdint>
#include <memory>
#include <string>
#include <vector>
namespace perfetto {
struct Category { explicit constexpr Category(const char*) {} constexpr Category SetDescription(const char*) const { return *this; } };
struct TracingInitArgs { uint32_t backends = 0; };
enum { kInProcessBackend = 1, kSystemBackend = 2 };
struct DsCfg { void set_name(const char*) {} void set_track_event_config_raw(const std::string&) {} };
struct Ds { DsCfg c; DsCfg* mutable_config() { return &c; } };
struct Buf { void set_size_kb(uint32_t) {} };
struct TraceConfig { Buf b; Ds d; Buf* add_buffers() { return &b; } Ds* add_data_sources() { return &d; } };
struct TracingSession { void Setup(const TraceConfig&) {} void StartBlocking() {} void StopBlocking() {} std::vector<char> ReadTraceBlocking() { return {'t', 'r', 'a', 'c', 'e'}; } };
struct Tracing { static void Initialize(const TracingInitArgs&) {} static std::unique_ptr<TracingSession> NewTrace() { return std::make_unique<TracingSession>(); } };
namespace protos::gen { struct ProcD { void set_process_name(const std::string&) {} }; struct TrackDescriptor { ProcD p; ProcD* mutable_process() { return &p; } }; }
struct ProcessTrack { static ProcessTrack Current() { return {}; } protos::gen::TrackDescriptor Serialize() const { return {}; } };
struct TrackEvent { static bool Register() { return true; } static void Flush() {} template <class A, class B> static void SetTrackDescriptor(const A&, const B&) {} };
}  // namespace perfetto
#define PERFETTO_DEFINE_CATEGORIES(...) static_assert(true, "")
#define PERFETTO_TRACK_EVENT_STATIC_STORAGE() static_assert(true, "")
#define TRACE_EVENT(...) do {} while (0)
#define TRACE_EVENT_BEGIN(...) do {} while (0)
#define TRACE_EVENT_END(...) do {} while (0)
