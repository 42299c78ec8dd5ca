// C22: finite input gives finite results, stylus values within range.
#include "gen.h"
namespace vf {
const char* kProperty = "C22";
const char* kRule =
    "Random strokes of ordinary magnitude with stable springs and every feature set, including "
    "coincident, nearly coincident and far-apart times, stationary input, repeated positions, "
    "one-sample windows and zero-width speed ranges; every result of Update and Predict must be "
    "finite in every field and its stylus values -1 or within the range of the stroke's input values "
    "(orientation in [0, 2pi]). Non-trivial: at least 10 results were checked; distinct by results.";
int DirectedCases() { return 0; }
std::vector<Floor> Floors() {
  return {{"results", 100000}, {"predicted", 20000}, {"coincident", 2000}, {"near_coincident", 500}, {"stationary", 1000}, {"ranged", 50000},
          {"unknown", 5000}, {"kalman", 3000}, {"loop", 10000}};
}
namespace {
struct Range {
  float lo = 0, hi = 0;
  bool unknown = false, any = false;
  void Add(float v) {
    if (!(v >= 0)) { unknown = true; return; }
    lo = any ? std::min(lo, v) : v;
    hi = any ? std::max(hi, v) : v;
    any = true;
  }
};
void CheckOne(const Result& r, const Range* g, const char* what, size_t i, size_t n) {
  if (!FiniteResult(r)) Fail("finite", "%s result %zu of %zu is not finite: %s", what, i, n, Str(r).c_str());
  const float v[3] = {r.pressure, r.tilt, r.orientation};
  static const char* const kName[3] = {"pressure", "tilt", "orientation"};
  for (int f = 0; f < 3; ++f) {
    if (v[f] == -1) {
      if (!g[f].unknown) Fail("range", "%s result %zu has unknown %s although the stroke's inputs all have one", what, i, kName[f]);
      COUNT("unknown");
      continue;
    }
    COUNT("ranged");
    if (f < 2 ? !(v[f] >= g[f].lo - 1e-6f * g[f].lo && v[f] <= g[f].hi + 1e-6f * g[f].hi) : !(v[f] >= 0 && v[f] <= 6.2831860f))
      Fail("range", "%s result %zu of %zu: %s %.9g outside of the inputs' range [%.9g, %.9g]", what, i, n, kName[f], v[f], g[f].lo, g[f].hi);
  }
}
}  // namespace
void RunCase(uint64_t, Rng rng) {
  WorldOpts wo;
  wo.small_max = rng.P(.1);
  if (rng.P(.4)) wo.pred = kPredKalman;
  World w = GenWorld(rng, wo);
  if (rng.P(.2)) w.p.stylus_state_modeler_params.max_input_samples = 1;
  if (auto* k = std::get_if<KalmanPredictorParams>(&w.p.prediction_params); k && rng.P(.3)) {
    k->min_stable_iteration = rng.I(1, 3);
    k->max_time_samples = rng.I(1, 3);
  }
  Mon m("A");
  if (!m.ResetP(w.p).ok()) Die("valid params rejected");
  size_t n = 0;
  for (int s = rng.I(1, 2); s > 0; --s) {
    StrokeOpts so;
    so.very_long_moves = 1000;
    so.max_dt_steps = std::min(200, w.p.sampling_params.max_outputs_per_call);
    if (rng.P(.3)) so.time_style = rng.Pick({kTBurst, kTNear});
    if (rng.P(.1)) so.time_style = kTFast;
    std::vector<Input> st = GenStroke(rng, w, so);
    // All at one time, or all but the Down.
    if (rng.P(.05))
      for (size_t i = rng.P(.5) ? 1 : 2; i < st.size(); ++i) st[i].time = st[i - 1].time;
    // Stationary, but for the time.
    if (rng.P(.05))
      for (Input& in : st) in.position = st[0].position;
    Range g[3];
    const Input* prev = nullptr;
    for (const Input& in : st) {
      Obs o = m.Update(in);
      if (!o.ok()) continue;
      Observe(HashObs(o));
      if (in.event_type == EventType::kDown) {
        g[0] = g[1] = g[2] = Range();
        const Result& r = o.r.at(0);
        if (!std::isfinite(r.position.x + r.position.y + r.velocity.x + r.velocity.y + r.acceleration.x + r.acceleration.y) || !std::isfinite(r.time.Value()))
          Fail("finite", "Down result is not finite: %s", Str(r).c_str());
      }
      g[0].Add(in.pressure);
      g[1].Add(in.tilt);
      g[2].Add(in.orientation);
      if (in.event_type != EventType::kDown) {
        for (size_t i = 0; i < o.r.size(); ++i) CheckOne(o.r[i], g, in.event_type == EventType::kMove ? "Move" : "Up", i, o.r.size());
        const double dt = in.time.Value() - prev->time.Value();
        if (dt == 0) COUNT("coincident");
        else if (dt < 1e-5 * w.tu) COUNT("near_coincident");
        if (in.position == prev->position) COUNT("stationary");
      }
      COUNTN("results", o.r.size());
      if (w.p.position_modeler_params.loop_contraction_mitigation_params.is_enabled) COUNTN("loop", o.r.size());
      n += o.r.size();
      prev = &in;
      if (in.event_type == EventType::kUp) break;
      if (rng.P(.5)) {
        Obs q = m.Predict();
        for (size_t i = 0; i < q.r.size(); ++i) CheckOne(q.r[i], g, "predicted", i, q.r.size());
        COUNTN("predicted", q.r.size());
        if (std::holds_alternative<KalmanPredictorParams>(w.p.prediction_params)) COUNTN("kalman", q.r.size());
      }
    }
    m.Reset0();
  }
  if (n >= 10) NonTrivial();
}
}  // namespace vf
