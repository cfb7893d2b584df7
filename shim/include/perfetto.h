#pragma once
#include <string>
#include <vector>
#include <memory>
#define TRACE_EVENT(...) ((void)0)
#define PERFETTO_DEFINE_CATEGORIES(...) namespace perfetto_shim_categories { struct Unused; }
#define PERFETTO_TRACK_EVENT_STATIC_STORAGE() namespace perfetto_shim_storage { struct Unused; }
namespace perfetto {
struct Category { explicit Category(const char*) {} Category& SetDescription(const char*) { return *this; } };
enum BackendType { kInProcessBackend = 1 };
struct TracingInitArgs { int backends = 0; };
struct DataSourceConfig { void set_name(const std::string&) {} };
struct TraceConfig {
  struct Buf { void set_size_kb(int) {} };
  struct Ds { DataSourceConfig c; DataSourceConfig* mutable_config() { return &c; } };
  Buf b; Ds d;
  Buf* add_buffers() { return &b; }
  Ds* add_data_sources() { return &d; }
};
struct TracingSession {
  void Setup(const TraceConfig&) {}
  void StartBlocking() {}
  void StopBlocking() {}
  std::vector<char> ReadTraceBlocking() { return {'s','h','i','m','-','t','r','a','c','e'}; }
};
struct Tracing { static void Initialize(const TracingInitArgs&) {} static std::unique_ptr<TracingSession> NewTrace() { return std::make_unique<TracingSession>(); } };
namespace protos::gen { struct ProcD { void set_process_name(const std::string&) {} }; struct TrackDescriptor { ProcD p; ProcD* mutable_process() { return &p; } }; }
struct ProcessTrack { static ProcessTrack Current() { return {}; } protos::gen::TrackDescriptor Serialize() { return {}; } };
struct TrackEvent { static void Register() {} static void Flush() {} static void SetTrackDescriptor(const ProcessTrack&, const protos::gen::TrackDescriptor&) {} };
}  // namespace perfetto
