// C24: memory and work per call are bounded by the windows; all is released.
#include <cstdlib>
#include <deque>
#include <memory>
#include <new>
#include "gen.h"
namespace vf {
namespace {
// Allocations made inside calls to the modeler are tagged and accounted for
// until they are freed.
bool g_inside = false;
int64_t g_live = 0, g_peak = 0, g_blocks = 0;
uint64_t g_allocs = 0;
struct alignas(16) Head {
  uint64_t size, tag;
};
constexpr uint64_t kOurs = 0x51ed270b4f1bbcdcull, kOther = 0x9ddfea08eb382d69ull;
void* Alloc(size_t n) {
  Head* h = static_cast<Head*>(std::malloc(n + sizeof(Head)));
  if (!h) throw std::bad_alloc();
  h->size = n;
  h->tag = g_inside ? kOurs : kOther;
  if (g_inside) {
    g_live += n;
    ++g_blocks;
    ++g_allocs;
    if (g_live > g_peak) g_peak = g_live;
  }
  return h + 1;
}
void Free(void* p) {
  if (!p) return;
  Head* h = static_cast<Head*>(p) - 1;
  if (h->tag == kOurs) {
    g_live -= h->size;
    --g_blocks;
  }
  h->tag = 0;
  std::free(h);
}
struct Inside {
  Inside() { g_inside = true; }
  ~Inside() { g_inside = false; }
};
}  // namespace
}  // namespace vf
void* operator new(size_t n) { return vf::Alloc(n); }
void* operator new[](size_t n) { return vf::Alloc(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return vf::Alloc(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return vf::Alloc(n); }
void operator delete(void* p) noexcept { vf::Free(p); }
void operator delete[](void* p) noexcept { vf::Free(p); }
void operator delete(void* p, size_t) noexcept { vf::Free(p); }
void operator delete[](void* p, size_t) noexcept { vf::Free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { vf::Free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { vf::Free(p); }

namespace vf {
const char* kProperty = "C24";
const char* kRule =
    "Long histories (one stroke of hundreds to thousands of inputs, many strokes, repeated parameter "
    "sets, rejected inputs, interleaved with Predict/Save/Restore/Reset) with a periodic workload, under "
    "an allocator that attributes memory to modeler calls and, in the counting build, a count of executed "
    "control-flow edges per call. Memory held after calls and work per result in the last third must not "
    "exceed that of the first third (which is longer than every window), memory must stay under a bound "
    "computed from the windows, and destruction must release every block. Non-trivial: all such histories.";
int DirectedCases() { return 0; }
std::vector<Floor> Floors() {
  return {{"long_stroke", 20}, {"many_strokes", 20}, {"resets", 20}, {"calls", 50000}, {"allocations", 1000}, {"predictions", 5000}, {"restores", 1000}, {"rejected", 1000}, {"work_compared", 20}, {"style.resting", 10}, {"style.unknown_stylus", 40}, {"style.equal_times", 10}, {"style.paired_times", 10}, {"style.equal_times_kalman", 10}};
}
namespace {
struct Thirds {
  double a = 0, c = 0, any = 0;
  void Add(double v, int i, int n) {
    if (i < n / 3) a = std::max(a, v);
    if (i >= n - n / 3) c = std::max(c, v);
    any = std::max(any, v);
  }
};
}  // namespace
void RunCase(uint64_t, Rng rng) {
  NonTrivial();
  WorldOpts wo;
  wo.ms_units = false;
  std::vector<World> ws{GenWorld(rng, wo)};
  const int mode = rng.I(0, 2);
  if (mode == 2)
    for (int i = rng.I(1, 2); i > 0; --i) ws.push_back(GenWorld(rng, wo));
  // A window no history here can fill says nothing: keep them modest.
  double window = 0, max_n = 1, counted = 0;
  for (World& w : ws) {
    auto cap = [&](Duration& d) { if (d.Value() > .15) d = Duration(.15); window = std::max(window, d.Value()); };
    cap(w.p.wobble_smoother_params.timeout);
    cap(w.p.stylus_state_modeler_params.min_sample_duration);
    cap(w.p.position_modeler_params.loop_contraction_mitigation_params.min_speed_sampling_window);
    if (auto* k = std::get_if<KalmanPredictorParams>(&w.p.prediction_params)) max_n = std::max(max_n, static_cast<double>(k->max_time_samples));
    max_n = std::max(max_n, 1. + w.p.sampling_params.end_of_stroke_max_iterations);
    const auto& ss = w.p.stylus_state_modeler_params;
    const auto& lp = w.p.position_modeler_params.loop_contraction_mitigation_params;
    counted = std::max(counted, 0. + std::max({ss.max_input_samples, ss.min_input_samples, lp.is_enabled ? 2 * lp.min_discrete_speed_samples : 0, static_cast<int>(max_n)}));
  }
  const double dt = 1 / ws[0].rate_in;
  int n = mode == 0 ? static_cast<int>(std::max(1500., 3 * (1.5 * window / dt + 1.2 * counted + 60))) : 0;
  if (mode == 0 && g_thorough) n *= rng.I(1, 4);
  const int per_stroke = rng.I(2, 12), strokes = rng.I(250, 500);
  if (mode != 0) n = strokes * (per_stroke + 2);
  const int np = rng.I(1, 4), ns = rng.I(2, 9), nr = rng.I(2, 9), nb = rng.I(3, 12);
  const bool rejects = rng.P(.5), saves = rng.P(.7);
  // What the pen does throughout: moves (at any speed) or rests; reports its
  // stylus values, some of them or none; at regular, pairwise equal or (where
  // no window is a span of time) all equal times.
  const double pace = rng.P(.5) ? 1 : rng.Pick({0., 1e-3, .05, 20.});
  const int stylus = rng.P(.5) ? 0 : rng.I(1, 4), stylus_from = rng.I(0, 40);
  if (mode == 0 && rng.P(.3)) {
    // No window of this world is a span of time: all times may be equal.
    World& w = ws[0];
    w.p.wobble_smoother_params.is_enabled = false;
    w.p.stylus_state_modeler_params.use_stroke_normal_projection = false;
    w.p.stylus_state_modeler_params.max_input_samples = rng.I(1, 20);
    w.p.position_modeler_params.loop_contraction_mitigation_params.is_enabled = false;
  }
  bool spans = false;
  for (const World& w : ws) spans |= w.p.wobble_smoother_params.is_enabled || w.p.stylus_state_modeler_params.use_stroke_normal_projection;
  const int timing = rng.P(.6) ? 0 : spans ? 1 : 2;
  if (pace == 0) COUNT("style.resting");
  if (stylus) COUNT("style.unknown_stylus");
  if (timing == 1) COUNT("style.paired_times");
  if (timing == 2) COUNT("style.equal_times");
  if (timing == 2 && std::holds_alternative<KalmanPredictorParams>(ws[0].p.prediction_params)) COUNT("style.equal_times_kalman");
  if (mode == 0) COUNT("long_stroke");
  if (mode == 1) COUNT("many_strokes");
  if (mode == 2) COUNT("resets");

  std::unique_ptr<StrokeModeler> m;
  std::vector<Result> out;
  out.reserve(4000);
  const int64_t base = g_live;
  if (base != 0) g_live = g_blocks = 0;  // after a failed case
  {
    Inside in;
    m = std::make_unique<StrokeModeler>();
  }
  auto reset = [&](const World& w) {
    Inside in;
    if (!m->Reset(w.p).ok()) Die("valid parameters rejected");
  };
  reset(ws[0]);
  Thirds mem, work_u, work_p, work_s, most, recent;
  // Results that a window of time may hold: a turning path has more of them.
  std::deque<double> times;
  auto recently = [&](int i) {
    for (const Result& r : out) times.push_back(r.time.Value());
    while (!times.empty() && !(times.front() >= times.back() - 1.5 * window)) times.pop_front();
    recent.Add(static_cast<double>(times.size()), i, n);
  };
  uint64_t peak_results = 0;
  bool reallocated = false;
  const World* w = &ws[0];
  auto account = [&](int i, Thirds& work, uint64_t e0) {
    COUNT("calls");
    peak_results = std::max<uint64_t>(peak_results, out.size());
    mem.Add(static_cast<double>(g_live), i, n);
    most.Add(static_cast<double>(out.size()), i, n);
    work.Add(static_cast<double>(g_edges_executed - e0) / (out.size() + 1.), i, n);
    if (out.capacity() != 4000) reallocated = true;
  };
  double t = 0, t0 = 0;
  int stroke = 0, pos = 0;
  const int period = rng.I(8, 40);
  for (int i = 0; i < n; ++i) {
    Input in{};
    const bool down = mode == 0 ? i == 0 : pos == 0, up = mode == 0 ? false : pos == per_stroke + 1;
    if (down) {
      if (mode == 2) {
        w = &ws[stroke % ws.size()];
        reset(*w);
      } else if (mode == 1 && stroke % 5 == 4) {
        Inside x;
        (void)m->Reset();
      }
      t0 = t;
    }
    const double ph = 2 * 3.141592653589793 * (mode == 0 ? i % period : pos) / period;
    const double rad = w->speed * dt * period / 6.3 * pace;
    in.event_type = down ? EventType::kDown : up ? EventType::kUp : EventType::kMove;
    in.position = {static_cast<float>(w->ox + rad * std::cos(ph)), static_cast<float>(w->oy + rad * .6 * std::sin(2 * ph))};
    // Times of every stroke start anew, so that all strokes are alike.
    const int tick = mode == 0 ? i : pos;
    in.time = Time(timing == 0 ? tick * dt : timing == 1 ? tick / 2 * 2 * dt : 0);
    // Equal times must not make inputs exact repeats of each other.
    in.pressure = .5 + .3 * std::sin(ph) + (timing ? .01 * (tick % 2) : 0);
    in.tilt = .4;
    in.orientation = std::fmod(ph + .1, 6.2);
    if (timing && stylus) in.position.x += static_cast<float>(w->speed * dt * (tick % 2));
    if (tick >= stylus_from) {
      if (stylus == 1) in.pressure = in.tilt = in.orientation = -1;
      if (stylus == 2) in.pressure = -1;
      if (stylus == 3) in.tilt = NAN;
      if (stylus == 4) in.orientation = NAN, in.pressure = -1;
    }
    out.clear();
    uint64_t e0 = g_edges_executed;
    bool ok;
    {
      Inside x;
      absl::Status s = m->Update(in, out);
      ok = s.ok();
    }
    if (!ok) {
      COUNT("unexpected_rejection");
      LOG("rejected: %s\n", Str(in).c_str());
    }
    account(i, work_u, e0);
    if (down) times.clear();
    recently(i);
    if (i % np == 0) {
      e0 = g_edges_executed;
      {
        Inside x;
        absl::Status s = m->Predict(out);
      }
      if (!out.empty()) COUNT("predictions");
      account(i, work_p, e0);
    }
    if (saves && i % ns == 1) {
      e0 = g_edges_executed;
      { Inside x; m->Save(); }
      out.clear();
      account(i, work_s, e0);
    }
    if (saves && i % (ns * nr) == ns + 1) {
      // Right after saving: the history stays periodic.
      e0 = g_edges_executed;
      { Inside x; m->Save(); m->Restore(); }
      out.clear();
      COUNT("restores");
      account(i, work_s, e0);
    }
    if (rejects && i % nb == 0) {
      Input bad = in;
      if (i % 3 == 0) bad.time = Time(bad.time.Value() - 1);
      else if (i % 3 == 1) bad.position.x = NAN;
      else bad.time = Time(bad.time.Value() + 1e9);
      if (mode != 0 && up) bad.event_type = EventType::kMove;
      out.clear();
      e0 = g_edges_executed;
      {
        Inside x;
        absl::Status s = m->Update(bad, out);
        if (s.ok()) Fail("accept", "an input that must be rejected was accepted: %s", Str(bad).c_str());
      }
      COUNT("rejected");
      account(i, work_u, e0);
    }
    if (mode != 0) {
      pos = up ? 0 : pos + 1;
      if (up) ++stroke;
    }
  }
  COUNTN("allocations", g_allocs);
  g_allocs = 0;
  if (reallocated) COUNT("results_reallocated");
  LOG("mode %d, %d inputs, window %.3g s, dt %.3g: memory first third %.0f, last third %.0f; work %.0f -> %.0f, %.0f -> %.0f, %.0f -> %.0f; recent results %.0f -> %.0f\n", mode, n, window, dt, mem.a, mem.c, work_u.a, work_u.c,
      work_p.a, work_p.c, work_s.a, work_s.c, recent.a, recent.c);
  Observe(Mix(static_cast<uint64_t>(mem.a), static_cast<uint64_t>(mem.c)));
  Observe(Mix(static_cast<uint64_t>(work_u.a), static_cast<uint64_t>(work_p.a)));
  if (!reallocated) {
    // A larger single call may enlarge a buffer.
    if (mem.c > mem.a + 2048 + 4 * sizeof(Result) * std::max(0., most.any - most.a) + 256 * std::max(0., recent.c - recent.a))
      Fail("growth", "memory held grows with the history: %.0f bytes in the first third, %.0f in the last third of %d inputs (mode %d)", mem.a, mem.c, n, mode);
    // Per windowed sample at most 256 bytes, twice for the saved copy.
    double samples = 0;
    for (const World& x : ws) samples = std::max(samples, window / dt * 2 + window * x.p.sampling_params.min_output_rate + window / dt + 100 + max_n);
    const double bound = 32768 + 2 * 256 * samples + 4. * sizeof(Result) * peak_results;
    if (mem.c > bound || mem.a > bound) Fail("bound", "memory held is %.0f bytes; windows of at most %.0f samples and calls of at most %lu results warrant %.0f", std::max(mem.a, mem.c), samples, static_cast<unsigned long>(peak_results), bound);
  }
  if (g_edges_executed) {
    COUNT("work_compared");
    for (auto [x, what] : {std::pair<Thirds, const char*>(work_u, "Update"), {work_p, "Predict"}, {work_s, "Save/Restore"}})
      if (x.c > x.a * 1.3 + 400 + 40 * std::max(0., recent.c - recent.a)) Fail("work", "work per result of %s grows with the history: %.0f edges in the first third, %.0f in the last third of %d inputs (mode %d)", what, x.a, x.c, n, mode);
  }
  m.reset();
  if (!reallocated && (g_live != 0 || g_blocks != 0)) Fail("leak", "%ld bytes in %ld blocks are not released by destruction", static_cast<long>(g_live), static_cast<long>(g_blocks));
  g_live = g_blocks = 0;
}
}  // namespace vf
