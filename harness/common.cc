#include <ctime>
#include "common.h"

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <unistd.h>

#include <cstdio>
#include <cstdlib>
#include <memory>
#include <unordered_set>

namespace vf {
bool g_verbose = false;
bool g_thorough = false;
uint64_t g_case_seed = 0;
uint64_t g_edges_executed = 0;

namespace {
std::map<std::string, uint64_t>& Counters() {
  static auto* m = new std::map<std::string, uint64_t>;
  return *m;
}
std::string* g_log = new std::string;
bool g_direct = false;  // log straight to stdout, so a crash leaves the trace
bool g_nontrivial = false;
uint64_t g_hash = 0;
std::vector<Violation>* g_findings = new std::vector<Violation>;

std::string VSf(const char* fmt, va_list ap) {
  char buf[4096];
  vsnprintf(buf, sizeof buf, fmt, ap);
  return buf;
}
}  // namespace

uint64_t& Counter(const char* name) { return Counters()[name]; }
void NonTrivial() { g_nontrivial = true; }
void Observe(uint64_t h) { g_hash = Mix(g_hash, h); }

void Fail(const char* key, const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  Violation v{key, VSf(fmt, ap)};
  va_end(ap);
  LOG("!! VIOLATION %s: %s", v.key.c_str(), v.msg.c_str());
  throw v;
}
void Finding(const char* key, const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  g_findings->push_back({key, VSf(fmt, ap)});
  va_end(ap);
}
void Die(const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  fprintf(stderr, "HARNESS ERROR: %s\n", VSf(fmt, ap).c_str());
  va_end(ap);
  _exit(99);
}
void LogF(const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  if (g_direct) {
    puts(VSf(fmt, ap).c_str());
    fflush(stdout);
  } else if (g_log->size() < (4u << 20)) {
    *g_log += VSf(fmt, ap);
    *g_log += '\n';
  }
  va_end(ap);
}
std::string Sf(const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  std::string s = VSf(fmt, ap);
  va_end(ap);
  return s;
}

bool SameMotion(const Result& a, const Result& b) {
  return SameF(a.position.x, b.position.x) &&
         SameF(a.position.y, b.position.y) &&
         SameF(a.velocity.x, b.velocity.x) &&
         SameF(a.velocity.y, b.velocity.y) &&
         SameF(a.acceleration.x, b.acceleration.x) &&
         SameF(a.acceleration.y, b.acceleration.y) &&
         SameD(a.time.Value(), b.time.Value());
}
bool SameStylus(const Result& a, const Result& b) {
  return SameF(a.pressure, b.pressure) && SameF(a.tilt, b.tilt) &&
         SameF(a.orientation, b.orientation);
}
bool Same(const std::vector<Result>& a, const std::vector<Result>& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i)
    if (!Same(a[i], b[i])) return false;
  return true;
}
bool FiniteResult(const Result& r) {
  return r.position.IsFinite() && r.velocity.IsFinite() &&
         r.acceleration.IsFinite() && std::isfinite(r.time.Value()) &&
         std::isfinite(r.pressure) && std::isfinite(r.tilt) &&
         std::isfinite(r.orientation);
}

std::string Str(const Input& i) {
  const char* e = i.event_type == EventType::kDown   ? "Down"
                  : i.event_type == EventType::kMove ? "Move"
                  : i.event_type == EventType::kUp   ? "Up"
                                                     : "?";
  return Sf("%s pos=(%.9g,%.9g) t=%.17g p=%.9g tilt=%.9g ori=%.9g", e,
            i.position.x, i.position.y, i.time.Value(), i.pressure, i.tilt,
            i.orientation);
}
std::string Str(const Result& r) {
  return Sf(
      "pos=(%.9g,%.9g) v=(%.9g,%.9g) a=(%.9g,%.9g) t=%.17g p=%.9g tilt=%.9g "
      "ori=%.9g",
      r.position.x, r.position.y, r.velocity.x, r.velocity.y, r.acceleration.x,
      r.acceleration.y, r.time.Value(), r.pressure, r.tilt, r.orientation);
}
std::string Str(const StrokeModelParams& p) {
  const auto& l = p.position_modeler_params.loop_contraction_mitigation_params;
  std::string s = Sf(
      "{wobble:%d,%.9g,%.9g,%.9g spring:%.9g drag:%.9g rate:%.9g stop:%.9g "
      "eos:%d max_out:%d angle:%.9g stylus:%s,%d,%d,%.9g "
      "loop:%d,%.9g,%.9g,%.9g,%.9g,%.9g,%d ",
      p.wobble_smoother_params.is_enabled,
      p.wobble_smoother_params.timeout.Value(),
      p.wobble_smoother_params.speed_floor,
      p.wobble_smoother_params.speed_ceiling,
      p.position_modeler_params.spring_mass_constant,
      p.position_modeler_params.drag_constant,
      p.sampling_params.min_output_rate,
      p.sampling_params.end_of_stroke_stopping_distance,
      p.sampling_params.end_of_stroke_max_iterations,
      p.sampling_params.max_outputs_per_call,
      p.sampling_params.max_estimated_angle_to_traverse_per_input,
      p.stylus_state_modeler_params.use_stroke_normal_projection ? "normal"
                                                                 : "closest",
      p.stylus_state_modeler_params.max_input_samples,
      p.stylus_state_modeler_params.min_input_samples,
      p.stylus_state_modeler_params.min_sample_duration.Value(), l.is_enabled,
      l.speed_lower_bound, l.speed_upper_bound,
      l.interpolation_strength_at_speed_lower_bound,
      l.interpolation_strength_at_speed_upper_bound,
      l.min_speed_sampling_window.Value(), l.min_discrete_speed_samples);
  if (const auto* k =
          std::get_if<KalmanPredictorParams>(&p.prediction_params)) {
    const auto& c = k->confidence_params;
    s += Sf(
        "kalman:q%.9g r%.9g stable%d times%d catchup%.9g aw%.9g jw%.9g "
        "int%.9g conf[%d %.9g %.9g %.9g %.9g %.9g]",
        k->process_noise, k->measurement_noise, k->min_stable_iteration,
        k->max_time_samples, k->min_catchup_velocity, k->acceleration_weight,
        k->jerk_weight, k->prediction_interval.Value(),
        c.desired_number_of_samples, c.max_estimation_distance,
        c.min_travel_speed, c.max_travel_speed, c.max_linear_deviation,
        c.baseline_linearity_confidence);
  } else if (std::holds_alternative<StrokeEndPredictorParams>(
                 p.prediction_params)) {
    s += "predict:stroke-end";
  } else {
    s += "predict:disabled";
  }
  return s + "}";
}

uint64_t HashObs(const Obs& o) {
  uint64_t h = Mix(static_cast<int>(o.code), o.r.size());
  for (const Result& r : o.r) {
    uint32_t b[9];
    float f[9] = {r.position.x,     r.position.y, r.velocity.x,
                  r.velocity.y,     r.acceleration.x, r.acceleration.y,
                  r.pressure,       r.tilt,       r.orientation};
    memcpy(b, f, sizeof b);
    for (uint32_t x : b) h = Mix(h, x);
  }
  return h;
}

const char* OpName(Op::Kind k) {
  switch (k) {
    case Op::kResetP: return "Reset(params)";
    case Op::kReset0: return "Reset()";
    case Op::kUpdate: return "Update";
    case Op::kPredict: return "Predict";
    case Op::kSave: return "Save";
    case Op::kRestore: return "Restore";
  }
  return "?";
}

namespace {
void LogObs(const char* name, const std::string& call, const Obs& o) {
  if (!g_verbose) return;
  LogF("%s.%s -> %s%s%s, %zu results", name, call.c_str(),
       absl::StatusCodeToString(o.code).c_str(), o.ok() ? "" : ": ",
       o.message.c_str(), o.r.size());
  for (size_t i = 0; i < o.r.size() && i < 64; ++i)
    LogF("    [%zu] %s", i, Str(o.r[i]).c_str());
}
void SetStatus(Obs& o, const absl::Status& s) {
  o.code = s.code();
  if (g_verbose) o.message = std::string(s.message());
}
}  // namespace

Obs Mon::ResetP(const StrokeModelParams& p) {
  Obs o;
  LOG("%s.Reset(%s)", name_, Str(p).c_str());
  auto mine = std::make_unique<StrokeModelParams>(p);
  SetStatus(o, m.Reset(*mine));
  if (Fleeting()) {
    *mine = StrokeModelParams{};
    mine->wobble_smoother_params = {.is_enabled = !p.wobble_smoother_params.is_enabled, .timeout = Duration(3), .speed_floor = 1, .speed_ceiling = 1e6};
    mine->position_modeler_params = {.spring_mass_constant = 1, .drag_constant = .1};
    mine->sampling_params = {.min_output_rate = 1e4, .end_of_stroke_stopping_distance = 1e-9, .end_of_stroke_max_iterations = 2};
    if (std::holds_alternative<KalmanPredictorParams>(p.prediction_params)) {
      KalmanPredictorParams k{.process_noise = 7, .measurement_noise = 3, .min_stable_iteration = 1, .max_time_samples = 2, .min_catchup_velocity = 1e-3, .prediction_interval = Duration(1)};
      k.acceleration_weight = k.jerk_weight = 0;
      mine->prediction_params = k;
    }
    asm volatile("" : : "r"(mine.get()) : "memory");
#if __has_feature(address_sanitizer)
    mine.reset();
#endif
  }
  // (Were it freed, another modeler's might take its place.)
  if (mine) kept_.push_back(std::move(mine));
  COUNT("api.reset");
  LogObs(name_, "Reset(params)", o);
  return o;
}
Obs Mon::Reset0() {
  Obs o;
  SetStatus(o, m.Reset());
  COUNT("api.reset");
  LogObs(name_, "Reset()", o);
  return o;
}
Obs Mon::Update(const Input& in) {
  Obs o;
  // A line before the call, so that a crash or hang inside shows its input.
  LOG("%s.Update(%s)", name_, Str(in).c_str());
  if (Fleeting()) {
    Input mine = in;
    SetStatus(o, m.Update(mine, o.r));
    mine = {.event_type = EventType::kUp, .position = {-1e6f, 1e6f}, .time = Time(-1e9)};
    asm volatile("" : : "r"(&mine) : "memory");
  } else {
    SetStatus(o, m.Update(in, o.r));
  }
  COUNT("api.update");
  COUNTN("api.results", o.r.size());
  LogObs(name_, "Update", o);
  return o;
}
Obs Mon::PredictInto(std::vector<Result> v) {
  Obs o;
  o.r = std::move(v);
  SetStatus(o, m.Predict(o.r));
  COUNT("api.predict");
  COUNTN("api.predicted_results", o.r.size());
  LogObs(name_, "Predict", o);
  return o;
}
void Mon::Save() {
  LOG("%s.Save()", name_);
  COUNT("api.save");
  m.Save();
}
void Mon::Restore() {
  LOG("%s.Restore()", name_);
  COUNT("api.restore");
  m.Restore();
}
Obs Mon::Do(const Op& op) {
  switch (op.kind) {
    case Op::kResetP: return ResetP(*op.params);
    case Op::kReset0: return Reset0();
    case Op::kUpdate: return Update(op.in);
    case Op::kPredict: return Predict();
    case Op::kSave: Save(); return {};
    case Op::kRestore: Restore(); return {};
  }
  Die("bad op");
}

void ExpectSame(const char* key, const Obs& a, const Obs& b,
                const std::string& what) {
  COUNT("twin.comparisons");
  if (a.code != b.code)
    Fail(key, "%s: status %s vs %s", what.c_str(),
         absl::StatusCodeToString(a.code).c_str(),
         absl::StatusCodeToString(b.code).c_str());
  if (a.r.size() != b.r.size())
    Fail(key, "%s: %zu vs %zu results", what.c_str(), a.r.size(), b.r.size());
  COUNTN("twin.results_compared", a.r.size());
  for (size_t i = 0; i < a.r.size(); ++i)
    if (!Same(a.r[i], b.r[i]))
      Fail(key, "%s: result %zu differs\n  A: %s\n  B: %s", what.c_str(), i,
           Str(a.r[i]).c_str(), Str(b.r[i]).c_str());
}

// --- edge counters ------------------------------------------------------------
namespace {
uint32_t g_total_edges = 0;
std::vector<uint8_t>* g_edge_hit = nullptr;
}  // namespace
}  // namespace vf

extern "C" {
__attribute__((no_sanitize("coverage"))) void __sanitizer_cov_trace_pc_guard_init(uint32_t* start,
                                                  uint32_t* stop) {
  if (start == stop || *start) return;
  for (uint32_t* x = start; x < stop; ++x) *x = ++vf::g_total_edges;
  if (!vf::g_edge_hit) vf::g_edge_hit = new std::vector<uint8_t>;
  vf::g_edge_hit->resize(vf::g_total_edges + 1);
}
#ifdef VERIF_COUNT_EDGES
__attribute__((no_sanitize("coverage"))) void __sanitizer_cov_trace_pc_guard(uint32_t* guard) {
  ++vf::g_edges_executed;
  (*vf::g_edge_hit)[*guard] = 1;
}
#else
__attribute__((no_sanitize("coverage", "thread"))) void __sanitizer_cov_trace_pc_guard(uint32_t* guard) {
  uint32_t g = *guard;
  if (!g) return;
  (*vf::g_edge_hit)[g] = 1;
  *guard = 0;
}
#endif
}

namespace vf {
namespace {
struct Progress {
  uint64_t index;
  uint64_t state;  // 1 = inside case, 2 = done
};
Progress* g_progress = nullptr;

void OnAlarm(int) {
  const char m[] = "CPU WATCHDOG: case exceeded its CPU budget\n";
  (void)!write(2, m, sizeof m - 1);
  _exit(97);
}
void ArmWatchdog(int cpu_seconds) {
  itimerval t{};
  t.it_value.tv_sec = cpu_seconds;
  setitimer(ITIMER_PROF, &t, nullptr);
}

std::string JsonStr(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += c;
    } else if (c == '\n') {
      o += "\\n";
    } else if (c < 32 || c > 126) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else {
      o += c;
    }
  }
  return o + "\"";
}

uint64_t PropSalt() {
  uint64_t h = 1469598103934665603ull;
  for (const char* p = kProperty; *p; ++p) h = (h ^ *p) * 1099511628211ull;
  return h;
}
}  // namespace

double CpuSeconds() {
  timespec t;
  clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t);
  return t.tv_sec + 1e-9 * t.tv_nsec;
}

int Main(int argc, char** argv) {
  uint64_t seed = 1, shard = 0, nshards = 1, cases = 100;
  long long replay = -1;
  int cpu = 30;
  uint64_t sample_at = ~0ull;
  std::string out, progress;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&] {
      if (i + 1 >= argc) Die("missing value for %s", a.c_str());
      return std::string(argv[++i]);
    };
    if (a == "--seed") seed = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--shard") shard = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--nshards") nshards = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--cases") cases = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--replay") replay = atoll(val().c_str());
    else if (a == "--cpu") cpu = atoi(val().c_str());
    else if (a == "--out") out = val();
    else if (a == "--progress") progress = val();
    else if (a == "--thorough") g_thorough = true;
    else Die("bad argument %s", a.c_str());
  }
  signal(SIGPROF, OnAlarm);
  static Progress dummy;
  g_progress = &dummy;
  if (!progress.empty()) {
    int fd = open(progress.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (fd < 0 || ftruncate(fd, sizeof(Progress)) != 0) Die("progress file");
    g_progress = static_cast<Progress*>(mmap(nullptr, sizeof(Progress),
                                             PROT_READ | PROT_WRITE, MAP_SHARED,
                                             fd, 0));
    if (g_progress == MAP_FAILED) Die("mmap");
  }
  if (replay < 0 && shard == 0) {
    uint64_t d = DirectedCases();
    sample_at = d < cases ? d : cases - 1;
  }

  std::unordered_set<uint64_t> distinct;
  uint64_t evaluations = 0, nontrivial = 0;
  std::string sample, vjson;
  bool violated = false;
  double slowest = 0;
  uint64_t slowest_case = 0;
  auto one = [&](uint64_t k) {
    g_case_seed = Mix(Mix(seed, PropSalt()), k);
    g_nontrivial = false;
    g_hash = 0;
    g_log->clear();
    g_progress->index = k;
    g_progress->state = 1;
    ArmWatchdog(cpu);
    const double cpu0 = CpuSeconds();
    try {
      RunCase(k, Rng(g_case_seed));
    } catch (const Violation& v) {
      violated = true;
      vjson = "{\"index\": " + std::to_string(k) +
              ", \"key\": " + JsonStr(v.key) + ", \"msg\": " + JsonStr(v.msg) +
              "}";
    }
    ArmWatchdog(0);
    if (const double c = CpuSeconds() - cpu0; c > slowest) slowest = c, slowest_case = k;
    g_progress->state = 2;
    ++evaluations;
    if (g_nontrivial) {
      ++nontrivial;
      distinct.insert(g_hash);
    }
  };
  if (replay >= 0) {
    g_verbose = g_direct = true;
    one(replay);
    return violated ? 1 : 0;
  }
  for (uint64_t k = shard; k < cases && !violated; k += nshards) {
    g_verbose = k == sample_at;
    one(k);
    if (g_verbose) {
      sample = *g_log;
      if (sample.size() > 6000) sample = sample.substr(0, 6000) + "...";
      g_verbose = false;
    }
  }

  if (!out.empty()) {
    FILE* f = fopen(out.c_str(), "w");
    if (!f) Die("cannot write %s", out.c_str());
    uint64_t hit = 0;
    std::string hits;
    if (g_edge_hit)
      for (size_t i = 1; i < g_edge_hit->size(); ++i) {
        hit += (*g_edge_hit)[i];
        hits += (*g_edge_hit)[i] ? '1' : '0';
      }
    fprintf(f, "{\"evaluations\": %llu, \"nontrivial\": %llu,\n",
            (unsigned long long)evaluations, (unsigned long long)nontrivial);
    fprintf(f, "\"rule\": %s,\n", JsonStr(kRule).c_str());
    fprintf(f, "\"edges\": \"%s\",\n", hits.c_str());
    fprintf(f, "\"slowest\": [%.3f, %llu],\n", slowest, (unsigned long long)slowest_case);
    fprintf(f, "\"violation\": %s,\n", violated ? vjson.c_str() : "null");
    fprintf(f, "\"sample\": %s,\n", JsonStr(sample).c_str());
    fprintf(f, "\"counters\": {");
    bool first = true;
    for (auto& [k, v] : Counters()) {
      fprintf(f, "%s%s: %llu", first ? "" : ", ", JsonStr(k).c_str(),
              (unsigned long long)v);
      first = false;
    }
    fprintf(f, "},\n\"floors\": {");
    first = true;
    for (auto& fl : Floors()) {
      fprintf(f, "%s%s: %llu", first ? "" : ", ", JsonStr(fl.counter).c_str(),
              (unsigned long long)fl.min);
      first = false;
    }
    fprintf(f, "},\n\"findings\": [");
    first = true;
    for (auto& v : *g_findings) {
      fprintf(f, "%s{\"key\": %s, \"msg\": %s}", first ? "" : ", ",
              JsonStr(v.key).c_str(), JsonStr(v.msg).c_str());
      first = false;
    }
    fprintf(f, "],\n\"distinct\": [");
    first = true;
    for (uint64_t h : distinct) {
      fprintf(f, "%s%llu", first ? "" : ",", (unsigned long long)(h >> 11));
      first = false;
    }
    fprintf(f, "]}\n");
    if (fclose(f) != 0) Die("write %s", out.c_str());
  }
  return violated ? 1 : 0;
}
}  // namespace vf

#ifndef VERIF_NO_MAIN
int main(int argc, char** argv) { return vf::Main(argc, argv); }
#endif
