// C20: parameters are accepted exactly when they are in the documented domain.
#include "gen.h"
namespace vf {
const char* kProperty = "C20";
const char* kRule =
    "Valid parameters with 0-4 fields replaced by boundary, out-of-domain, NaN, infinite, denormal or "
    "huge values (or with features switched on and off); Reset and the per-struct validators must "
    "agree with a reference predicate written from the documentation. Non-trivial: at least one "
    "field was replaced; distinct by the (feature set, replaced fields, value class, verdict).";
namespace {
constexpr double kInf = std::numeric_limits<double>::infinity();
bool Fin(double v) { return std::isfinite(v); }
bool Pos(double v) { return Fin(v) && v > 0; }
bool NonNeg(double v) { return Fin(v) && v >= 0; }

bool WobbleOk(const WobbleSmootherParams& w) {
  return !w.is_enabled || (NonNeg(w.timeout.Value()) && NonNeg(w.speed_floor) && Fin(w.speed_ceiling) && w.speed_ceiling >= w.speed_floor);
}
bool PositionOk(const PositionModelerParams& p) {
  if (!Pos(p.spring_mass_constant) || !Pos(p.drag_constant)) return false;
  const auto& l = p.loop_contraction_mitigation_params;
  if (!l.is_enabled) return true;
  const float lo = l.speed_lower_bound, hi = l.speed_upper_bound;
  const float sl = l.interpolation_strength_at_speed_lower_bound, su = l.interpolation_strength_at_speed_upper_bound;
  return Fin(lo) && Fin(hi) && lo >= 0 && lo <= hi && Fin(sl) && Fin(su) && sl <= 1 && su >= 0 && sl >= su &&
         l.min_discrete_speed_samples >= 1 && l.min_discrete_speed_samples <= 10000 && Pos(l.min_speed_sampling_window.Value()) &&
         l.min_speed_sampling_window.Value() <= 10000;
}
bool SamplingOk(const SamplingParams& s) {
  const double a = s.max_estimated_angle_to_traverse_per_input;
  return Pos(s.min_output_rate) && Pos(s.end_of_stroke_stopping_distance) && s.end_of_stroke_max_iterations >= 1 &&
         s.end_of_stroke_max_iterations <= 1000 && s.max_outputs_per_call >= 1 && (a == -1 || (a > 0 && a < 3.14159265358979323846));
}
bool StylusOk(const StylusStateModelerParams& s) {
  return s.use_stroke_normal_projection ? s.min_input_samples >= 1 && Pos(s.min_sample_duration.Value()) : s.max_input_samples >= 1;
}
bool PredictionOk(const ink::stroke_model::PredictionParams& pp) {
  const auto* k = std::get_if<KalmanPredictorParams>(&pp);
  if (!k) return true;
  const auto& c = k->confidence_params;
  return Pos(k->process_noise) && Pos(k->measurement_noise) && k->min_stable_iteration >= 1 && k->max_time_samples >= 1 &&
         Pos(k->min_catchup_velocity) && Fin(k->acceleration_weight) && Fin(k->jerk_weight) && Pos(k->prediction_interval.Value()) &&
         c.desired_number_of_samples >= 1 && Pos(c.max_estimation_distance) && NonNeg(c.min_travel_speed) && Fin(c.max_travel_speed) &&
         c.max_travel_speed >= c.min_travel_speed && Pos(c.max_linear_deviation) && c.baseline_linearity_confidence >= 0 &&
         c.baseline_linearity_confidence <= 1;
}
bool AllOk(const StrokeModelParams& p) {
  return WobbleOk(p.wobble_smoother_params) && PositionOk(p.position_modeler_params) && SamplingOk(p.sampling_params) &&
         StylusOk(p.stylus_state_modeler_params) && PredictionOk(p.prediction_params) &&
         (!p.position_modeler_params.loop_contraction_mitigation_params.is_enabled || p.stylus_state_modeler_params.use_stroke_normal_projection);
}
struct Field {
  const char* name;
  enum { F, D, I, B, T } kind;
  void* at;
};
std::vector<Field> Fields(StrokeModelParams& p) {
  auto& w = p.wobble_smoother_params;
  auto& l = p.position_modeler_params.loop_contraction_mitigation_params;
  auto& s = p.sampling_params;
  auto& y = p.stylus_state_modeler_params;
  std::vector<Field> f{
      {"wobble.is_enabled", Field::B, &w.is_enabled},
      {"wobble.timeout", Field::T, &w.timeout},
      {"wobble.speed_floor", Field::F, &w.speed_floor},
      {"wobble.speed_ceiling", Field::F, &w.speed_ceiling},
      {"spring_mass_constant", Field::F, &p.position_modeler_params.spring_mass_constant},
      {"drag_constant", Field::F, &p.position_modeler_params.drag_constant},
      {"loop.is_enabled", Field::B, &l.is_enabled},
      {"loop.speed_lower_bound", Field::F, &l.speed_lower_bound},
      {"loop.speed_upper_bound", Field::F, &l.speed_upper_bound},
      {"loop.strength_lower", Field::F, &l.interpolation_strength_at_speed_lower_bound},
      {"loop.strength_upper", Field::F, &l.interpolation_strength_at_speed_upper_bound},
      {"loop.window", Field::T, &l.min_speed_sampling_window},
      {"loop.samples", Field::I, &l.min_discrete_speed_samples},
      {"min_output_rate", Field::D, &s.min_output_rate},
      {"stopping_distance", Field::F, &s.end_of_stroke_stopping_distance},
      {"max_iterations", Field::I, &s.end_of_stroke_max_iterations},
      {"max_outputs", Field::I, &s.max_outputs_per_call},
      {"max_angle", Field::D, &s.max_estimated_angle_to_traverse_per_input},
      {"stylus.max_input_samples", Field::I, &y.max_input_samples},
      {"stylus.normal", Field::B, &y.use_stroke_normal_projection},
      {"stylus.min_input_samples", Field::I, &y.min_input_samples},
      {"stylus.min_sample_duration", Field::T, &y.min_sample_duration},
  };
  if (auto* k = std::get_if<KalmanPredictorParams>(&p.prediction_params)) {
    auto& c = k->confidence_params;
    for (const Field& x : std::vector<Field>{
             {"kalman.process_noise", Field::D, &k->process_noise},
             {"kalman.measurement_noise", Field::D, &k->measurement_noise},
             {"kalman.min_stable_iteration", Field::I, &k->min_stable_iteration},
             {"kalman.max_time_samples", Field::I, &k->max_time_samples},
             {"kalman.min_catchup_velocity", Field::F, &k->min_catchup_velocity},
             {"kalman.acceleration_weight", Field::F, &k->acceleration_weight},
             {"kalman.jerk_weight", Field::F, &k->jerk_weight},
             {"kalman.prediction_interval", Field::T, &k->prediction_interval},
             {"confidence.desired_number_of_samples", Field::I, &c.desired_number_of_samples},
             {"confidence.max_estimation_distance", Field::F, &c.max_estimation_distance},
             {"confidence.min_travel_speed", Field::F, &c.min_travel_speed},
             {"confidence.max_travel_speed", Field::F, &c.max_travel_speed},
             {"confidence.max_linear_deviation", Field::F, &c.max_linear_deviation},
             {"confidence.baseline", Field::F, &c.baseline_linearity_confidence}})
      f.push_back(x);
  }
  return f;
}
double Get(const Field& f) {
  switch (f.kind) {
    case Field::F: return *static_cast<float*>(f.at);
    case Field::D: return *static_cast<double*>(f.at);
    case Field::T: return static_cast<Duration*>(f.at)->Value();
    case Field::I: return *static_cast<int*>(f.at);
    case Field::B: return *static_cast<bool*>(f.at);
  }
  return 0;
}
// Values that matter somewhere: the ends of every documented domain, just
// inside and just outside of them, and everything that is no number.
const double kSpecial[] = {
    std::nan(""), kInf, -kInf, 0, -0.0, -1, 1, 2, .5, -1e-3, 1e-3, 1e-45, -1e-45, 1e-38, 3e38, -3e38, 1.0000001, .99999994, 1e-320, -1e-320, 1e300,
    9999.999, 10000, 10000.001, 3.14159265358979323846, 3.1415926535897927, 3.1415926535897936, 3.141, 3.15, -1.0000000000000002, -.9999999999999999, 100, 1e6};
const int kSpecialI[] = {0, -1, 1, 2, -2, 999, 1000, 1001, 9999, 10000, 10001, 100000, std::numeric_limits<int>::max(), std::numeric_limits<int>::min(), 5};
int Set(const Field& f, Rng& rng, const std::vector<Field>& all) {
  int k = static_cast<int>(rng.Next() % std::size(kSpecial));
  double v = kSpecial[k];
  // Ordered pairs: at, just above or just below another field.
  if (f.kind != Field::I && f.kind != Field::B && rng.P(.2)) {
    const Field& g = all[rng.Next() % all.size()];
    const double gv = Get(g);
    const int d = rng.I(-1, 1);
    v = f.kind == Field::F ? (d == 0 ? gv : std::nextafter(static_cast<float>(gv), d < 0 ? -3e38f : 3e38f)) : d == 0 ? gv : std::nextafter(gv, d < 0 ? -1e308 : 1e308);
    k = 100 + d;
  }
  switch (f.kind) {
    case Field::F: *static_cast<float*>(f.at) = static_cast<float>(v); break;
    case Field::D: *static_cast<double*>(f.at) = v; break;
    case Field::T: *static_cast<Duration*>(f.at) = Duration(v); break;
    case Field::I: *static_cast<int*>(f.at) = kSpecialI[k = static_cast<int>(rng.Next() % std::size(kSpecialI))]; break;
    case Field::B: *static_cast<bool*>(f.at) = !*static_cast<bool*>(f.at); break;
  }
  return k;
}
void Check(const char* what, const absl::Status& s, bool want, const StrokeModelParams& p, const std::string& changed) {
  LOG("%s -> %s (expected %s)\n", what, s.ok() ? "OK" : std::string(s.message()).c_str(), want ? "OK" : "an error");
  if (s.ok() != want)
    Fail("domain", "%s %s parameters that are %s the documented domain (changed: %s; %s) %s", what, s.ok() ? "accepts" : "rejects", want ? "in" : "outside",
         changed.c_str(), Str(p).c_str(), std::string(s.message()).c_str());
  if (!s.ok() && s.code() != absl::StatusCode::kInvalidArgument) Fail("code", "%s reports code %d for bad parameters (changed: %s)", what, static_cast<int>(s.code()), changed.c_str());
}
}  // namespace
int DirectedCases() { return 3 * 2 * 3 * 36 * static_cast<int>(std::size(kSpecial)); }
std::vector<Floor> Floors() { return {{"accepted", 2000}, {"rejected", 5000}, {"accepted.changed", 1000}, {"used_after_accept", 300}, {"directed", 10000}}; }
void RunCase(uint64_t index, Rng rng) {
  WorldOpts wo;
  const bool directed = index < static_cast<uint64_t>(DirectedCases());
  uint64_t i = index;
  size_t field = 0, special = 0;
  if (directed) {
    // Every field x every special value x every feature set, one at a time.
    wo.pred = 1 << (i % 3); i /= 3;
    wo.wobble = i % 2 ? kOn : kOff; i /= 2;
    const int m = i % 3; i /= 3;
    wo.normal = m == 0 ? kOff : kOn;
    wo.loop = m == 2 ? kOn : kOff;
    field = i % 36; i /= 36;
    special = i;
    COUNT("directed");
  }
  World w = GenWorld(rng, wo);
  StrokeModelParams p = w.p;
  if (!AllOk(p)) Die("generated parameters are not valid");
  std::vector<Field> fs = Fields(p);
  std::string changed;
  uint64_t h = Mix(p.prediction_params.index(), p.wobble_smoother_params.is_enabled * 4 + p.stylus_state_modeler_params.use_stroke_normal_projection * 2 +
                                                    p.position_modeler_params.loop_contraction_mitigation_params.is_enabled);
  if (directed) {
    if (field >= fs.size()) return;
    const Field& f = fs[field];
    const double v = kSpecial[special];
    switch (f.kind) {
      case Field::F: *static_cast<float*>(f.at) = static_cast<float>(v); break;
      case Field::D: *static_cast<double*>(f.at) = v; break;
      case Field::T: *static_cast<Duration*>(f.at) = Duration(v); break;
      case Field::I: *static_cast<int*>(f.at) = kSpecialI[special % std::size(kSpecialI)]; break;
      case Field::B: *static_cast<bool*>(f.at) = !*static_cast<bool*>(f.at); break;
    }
    changed = Sf(" %s=%.17g", f.name, Get(f));
    h = Mix(h, field * 64 + special);
  } else {
    for (int n = rng.P(.1) ? 0 : rng.I(1, rng.P(.5) ? 1 : 4); n > 0; --n) {
      const size_t k = rng.Next() % fs.size();
      const int c = Set(fs[k], rng, fs);
      changed += Sf(" %s=%.17g", fs[k].name, Get(fs[k]));
      h = Mix(h, k * 256 + c);
    }
  }
  if (!changed.empty()) NonTrivial();
  const bool want = AllOk(p);
  Observe(Mix(h, want));
  Check("ValidateStrokeModelParams", ink::stroke_model::ValidateStrokeModelParams(p), want, p, changed);
  Check("ValidateWobbleSmootherParams", ink::stroke_model::ValidateWobbleSmootherParams(p.wobble_smoother_params), WobbleOk(p.wobble_smoother_params), p, changed);
  Check("ValidatePositionModelerParams", ink::stroke_model::ValidatePositionModelerParams(p.position_modeler_params), PositionOk(p.position_modeler_params), p, changed);
  Check("ValidateSamplingParams", ink::stroke_model::ValidateSamplingParams(p.sampling_params), SamplingOk(p.sampling_params), p, changed);
  Check("ValidateStylusStateModelerParams", ink::stroke_model::ValidateStylusStateModelerParams(p.stylus_state_modeler_params), StylusOk(p.stylus_state_modeler_params), p, changed);
  Check("ValidatePredictionParams", ink::stroke_model::ValidatePredictionParams(p.prediction_params), PredictionOk(p.prediction_params), p, changed);
  StrokeModeler m;
  const bool before = rng.P(.3);
  if (before && !m.Reset(w.p).ok()) Fail("domain", "Reset rejects valid parameters: %s", Str(w.p).c_str());
  Check("Reset", m.Reset(p), want, p, changed);
  if (want) {
    COUNT("accepted");
    if (!changed.empty()) COUNT("accepted.changed");
  } else {
    COUNT("rejected");
  }
  // Accepted parameters are in force, rejected ones are not.
  std::vector<Result> r;
  absl::Status s = m.Update(In(EventType::kDown, w.ox, w.oy, 0), r);
  if (s.ok() != (want || before)) Fail("in-force", "a Down after Reset (%s) is %s", want ? "accepted" : "rejected", s.ok() ? "accepted" : "rejected");
  if (want) COUNT("used_after_accept");
}
}  // namespace vf
