// C19: units and coordinate system do not matter.
#include "gen.h"
#include "ref.h"
namespace vf {
const char* kProperty = "C19";
const char* kRule =
    "Twins: the second gets the same stroke and parameters expressed in other units of length and time "
    "(powers of two), rotated by quarter turns, mirrored (closest-point projection only): exact in IEEE "
    "arithmetic, so every field of every result and prediction must agree after transforming back "
    "(1e-5 allowed); or with another time origin (dyadic times: exact, else 1e-3 of a step) or position "
    "origin (within accumulated rounding). Non-trivial: at least 10 results were compared under a "
    "transformation other than the identity.";
int DirectedCases() { return 0; }
std::vector<Floor> Floors() {
  return {{"exact.results", 50000}, {"exact.predicted", 5000}, {"scale", 1000}, {"timescale", 1000}, {"rotate", 1000}, {"mirror", 300}, {"loop", 2000}, {"kalman", 1000}, {"stylus", 50000},
          {"translate.results", 10000}, {"shift.results", 10000}, {"shift.exact", 2000}, {"shift.kalman", 300}};
}
namespace {
struct Tr {
  double s = 1, t = 1;  // length, time
  int rot = 0;
  bool mirror = false;
  double t0 = 0;
  D2 o;
  D2 Vec(D2 v) const {
    if (mirror) v.y = -v.y;
    for (int i = 0; i < rot; ++i) v = {-v.y, v.x};
    return v * s;
  }
};
Vec2 F(D2 v) { return {static_cast<float>(v.x), static_cast<float>(v.y)}; }
StrokeModelParams Apply(const Tr& tr, StrokeModelParams p) {
  const double s = tr.s, t = tr.t;
  auto dur = [&](Duration& d) { d = Duration(d.Value() * t); };
  auto& w = p.wobble_smoother_params;
  dur(w.timeout);
  w.speed_floor *= s / t;
  w.speed_ceiling *= s / t;
  auto& m = p.position_modeler_params;
  m.spring_mass_constant *= t * t;
  m.drag_constant /= t;
  auto& l = m.loop_contraction_mitigation_params;
  l.speed_lower_bound *= s / t;
  l.speed_upper_bound *= s / t;
  dur(l.min_speed_sampling_window);
  p.sampling_params.min_output_rate /= t;
  p.sampling_params.end_of_stroke_stopping_distance *= s;
  dur(p.stylus_state_modeler_params.min_sample_duration);
  if (auto* k = std::get_if<KalmanPredictorParams>(&p.prediction_params)) {
    // The filter's noise is per input, in units of length squared.
    k->min_catchup_velocity *= s / t;
    dur(k->prediction_interval);
    auto& c = k->confidence_params;
    c.max_estimation_distance *= s;
    c.min_travel_speed *= s / t;
    c.max_travel_speed *= s / t;
    c.max_linear_deviation *= s;
  }
  return p;
}
Input Apply(const Tr& tr, Input i) {
  i.position = F(tr.Vec(V(i.position)) + tr.o);
  i.time = Time(i.time.Value() * tr.t + tr.t0);
  return i;
}
// Products of tiny components are denormal, and denormal numbers do not scale.
bool Tiny(D2 v) { return (v.x && std::abs(v.x) < 1e-14) || (v.y && std::abs(v.y) < 1e-14); }
bool TinyAny(const Result& r) { return Tiny(V(r.velocity)) || Tiny(V(r.acceleration)); }
bool Huge(const Result& r) { return Len(V(r.velocity)) > 1e16 || Len(V(r.acceleration)) > 1e16 || Len(V(r.position)) > 1e16 || !FiniteResult(r); }
}  // namespace
void RunCase(uint64_t, Rng rng) {
  const int mode = rng.P(.6) ? 0 : rng.I(1, 2);  // exact, translation, time origin
  WorldOpts wo;
  Tr tr;
  std::string what;
  wo.small_max = rng.P(.1);
  if (mode == 0) {
    if (rng.P(.25)) { tr.mirror = true; wo.normal = kOff; wo.loop = kOff; what += " mirrored"; COUNT("mirror"); }
  } else {
    wo.angle = kOff;
    wo.dyadic = mode == 2;
    wo.loop = kOff;
    if (mode == 2 && rng.P(.8)) wo.pred = rng.P(.6) ? kPredEnd : kPredKalman;
  }
  World w = GenWorld(rng, wo);
  StrokeModelParams& p = w.p;
  const bool kalman = std::holds_alternative<KalmanPredictorParams>(p.prediction_params);
  const double step = w.speed / w.rate_in;
  if (mode == 0) {
    if (rng.P(.6)) { tr.rot = rng.I(1, 3); what += Sf(" rotated by %d quarter turns", tr.rot); COUNT("rotate"); }
    if (rng.P(.7) || what.empty()) {
      const int k = static_cast<int>(std::floor(std::log2(w.speed)));
      if (!kalman || rng.P(.5)) {
        if (!kalman) { tr.s = std::ldexp(1, rng.I(-12, 12) - k); what += Sf(" lengths x %g", tr.s); COUNT("scale"); }
      }
      if (rng.P(.6) || tr.s == 1) {
        int j = rng.I(-6, 10);
        if (p.position_modeler_params.loop_contraction_mitigation_params.is_enabled) j = rng.I(-6, 3);
        tr.t = std::ldexp(1, j);
        what += Sf(" times x %g", tr.t);
        COUNT("timescale");
      }
    }
  } else {
    if (p.wobble_smoother_params.is_enabled && p.wobble_smoother_params.speed_floor == p.wobble_smoother_params.speed_ceiling) p.wobble_smoother_params.is_enabled = false;
    w.ox = w.oy = 0;
    if (mode == 1) {
      tr.o = {step * rng.U(-150, 150), step * rng.U(-150, 150)};
      what = Sf("moved by (%g, %g)", tr.o.x, tr.o.y);
    } else {
      tr.t0 = std::ldexp(rng.I(-9, 9) | 1, rng.P(.5) ? rng.I(-3, 8) : rng.I(9, 18)) * w.tu;
      what = Sf("times + %g", tr.t0);
    }
  }
  StrokeModelParams q = Apply(tr, p);
  const auto& lq = q.position_modeler_params.loop_contraction_mitigation_params;
  if (lq.is_enabled && lq.min_speed_sampling_window.Value() > 10000) return;
  LOG("twin: %s\n", what.c_str());
  Mon a("A"), b("B");
  if (!a.ResetP(p).ok()) Die("valid params rejected");
  if (!b.ResetP(q).ok()) Fail("params", "valid parameters are rejected when expressed otherwise (%s)", what.c_str());
  StrokeOpts so;
  so.max_dt_steps = std::min(60, p.sampling_params.max_outputs_per_call);
  if (mode == 2) { so.near_dt = false; so.time_style = kTDyadic; so.big_t0 = false; }
  if (mode == 1) { so.near_dt = false; so.jumps = false; }
  std::vector<Input> st = GenStroke(rng, w, so);
  const bool loop = p.position_modeler_params.loop_contraction_mitigation_params.is_enabled;
  const double dt = 1 / p.sampling_params.min_output_rate;
  size_t n = 0;
  double extent = Len(tr.o);
  bool exact_shift = p.sampling_params.end_of_stroke_max_iterations <= 16;
  auto compare = [&](const Obs& x, const Obs& y, const char* call, const Input& in) {
    if (x.code != y.code) Fail("status", "%s after %s (%s): %s vs %s", call, Str(in).c_str(), what.c_str(), x.message.c_str(), y.message.c_str());
    if (mode == 2) {
      size_t lin = in.event_type == EventType::kUp ? LinearCount(in, x.r) : x.r.size();
      if (call[0] != 'P' && (lin & (lin - 1))) exact_shift = false;
    }
    const bool moved_on = mode != 0 && (call[0] == 'P' || in.event_type == EventType::kUp);
    const bool exact = mode == 0 || (mode == 2 && exact_shift);
    if (moved_on && !exact) return true;  // the end of the stroke is decided by thresholds
    for (const Obs* o : {&x, &y})
      for (const Result& r : o->r)
        if (Huge(r)) return false;
    if (x.r.size() != y.r.size()) Fail("count", "%s after %s: %zu results, but %zu when %s", call, Str(in).c_str(), x.r.size(), y.r.size(), what.c_str());
    for (size_t i = 0; i < x.r.size(); ++i) {
      const Result &r = x.r[i], &g = y.r[i];
      const D2 wp = tr.Vec(V(r.position)) + tr.o, wv = tr.Vec(V(r.velocity)) * (1 / tr.t), wa = tr.Vec(V(r.acceleration)) * (1 / (tr.t * tr.t));
      const double wt = r.time.Value() * tr.t + tr.t0;
      double ep, ev, ea, et;
      if (exact) {
        const double tiny = 1e-30;
        ep = 1e-5 * Len(wp) + tiny, ev = 1e-5 * Len(wv) + tiny, ea = 1e-5 * Len(wa) + tiny, et = 1e-9 * dt * tr.t;
        if (mode == 2) et = 1e-12 * (std::abs(wt) + dt);
      } else {
        const double e = 300 * (kEps * (extent + Len(V(r.position))) + (mode == 2 ? 1e-6 * step : 0));
        ep = e, ev = 3 * e / dt, ea = 8 * e / (dt * dt), et = 1e-6 * dt;
      }
      extent = std::max(extent, Len(tr.o) + Len(V(in.position)));
      if (!(Dist(V(g.position), wp) <= ep && Dist(V(g.velocity), wv) <= ev && Dist(V(g.acceleration), wa) <= ea && std::abs(g.time.Value() - wt) <= et))
        Fail("motion", "%s result %zu: %s; when %s: %s, expected pos=(%.9g,%.9g) v=(%.9g,%.9g) a=(%.9g,%.9g) t=%.17g", call, i, Str(r).c_str(), what.c_str(), Str(g).c_str(), wp.x, wp.y, wv.x, wv.y, wa.x,
             wa.y, wt);
      ++n;
      if (mode == 1) COUNT("translate.results");
      if (mode == 2) { COUNT("shift.results"); if (exact) COUNT("shift.exact"); if (exact && kalman && call[0] == 'P') COUNT("shift.kalman"); }
      if (mode == 0) {
        COUNT("exact.results");
        if (loop) COUNT("loop");
        if (call[0] == 'P') { COUNT("exact.predicted"); if (kalman) COUNT("kalman"); }
      }
      if (exact) {
        // Denormal numbers do not scale.
        if (TinyAny(r) || TinyAny(g)) return false;
        auto close = [](float u, float v) { return u == v || std::abs(u - v) <= 1e-5f * (1 + std::abs(u)) || (std::isnan(u) && std::isnan(v)); };
        COUNT("stylus");
        if (!close(r.pressure, g.pressure) || !close(r.tilt, g.tilt) || !(close(r.orientation, g.orientation) || AngleDiff(r.orientation, g.orientation) < 1e-5))
          Fail("stylus", "%s result %zu: %s; when %s: %s", call, i, Str(r).c_str(), what.c_str(), Str(g).c_str());
      }
    }
    return true;
  };
  // Mitigation hides the spring's states, which may be denormal.
  Mon c("C");
  StrokeModelParams pc = p;
  pc.position_modeler_params.loop_contraction_mitigation_params.is_enabled = false;
  if (loop && !c.ResetP(pc).ok()) Die("valid params rejected");
  auto hidden = [&](const Obs& o) {
    for (const Result& r : o.r)
      if (TinyAny(r) || Tiny(tr.Vec(V(r.velocity)) * (1 / tr.t)) || Tiny(tr.Vec(V(r.acceleration)) * (1 / (tr.t * tr.t)))) return true;
    return false;
  };
  const Input* prev = nullptr;
  for (const Input& in : st) {
    const Input in2 = Apply(tr, in);
    if (prev && mode == 1) {
      // Rounding may make two inputs equal.
      const Input prev2 = Apply(tr, *prev);
      if (prev->time == in.time && prev2.position == in2.position && prev->position != in.position) break;
    }
    prev = &in;
    Obs x = a.Update(in), y = b.Update(in2);
    Observe(HashObs(x));
    if (loop && hidden(c.Update(in))) break;
    if (!compare(x, y, "Update", in)) break;
    if (!rng.P(.3)) continue;
    if (loop && hidden(c.Predict())) break;
    if (!compare(a.Predict(), b.Predict(), "Predict", in)) break;
  }
  if (n >= 10) NonTrivial();
}
}  // namespace vf
