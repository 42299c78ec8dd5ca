// C01: no crash, undefined behaviour, hang or runaway allocation.
#include <memory>
#include <sstream>
#include "gen.h"
namespace vf {
const char* kProperty = "C01";
const char* kRule =
    "Hostile call sequences under AddressSanitizer, UndefinedBehaviorSanitizer and Valgrind: parameters "
    "with random bit patterns and extreme values (used whenever Reset accepts them), inputs with any bit "
    "pattern in any field, huge and tiny time gaps, every call order, including Save/Restore, moved and "
    "re-created modelers. Every call must return a status within the CPU limit and Update/Predict must "
    "not produce more than max_outputs_per_call results. Non-trivial: parameters were accepted and at "
    "least 3 inputs accepted; distinct by the sequence of verdicts and results.";
std::vector<Floor> Floors() {
  return {{"params.accepted", 500}, {"params.rejected", 100}, {"update.ok", 3000}, {"update.error", 2000}, {"predict.ok", 500}, {"nonfinite_result", 50}, {"at_limit", 5}, {"scenario.before_reset", 1000}, {"scenario.left_behind", 500}};
}
namespace {
float AnyFloat(Rng& rng) {
  if (rng.P(.35)) {
    uint32_t u = static_cast<uint32_t>(rng.Next());
    float f;
    std::memcpy(&f, &u, 4);
    return f;
  }
  if (rng.P(.5))
    return rng.Pick({0.f, -0.f, 1e-45f, -1e-45f, 1.1754944e-38f, 3.4028235e38f, -3.4028235e38f, INFINITY, -INFINITY, NAN, 1.f, -1.f, 1e10f, -1e10f, 1e20f, 6.2831855f, 2147483648.f, 9.2233720e18f});
  return static_cast<float>((rng.P(.5) ? 1 : -1) * rng.LogU(1e-30, 1e30));
}
double AnyDouble(Rng& rng) {
  if (rng.P(.3)) {
    uint64_t u = rng.Next();
    double f;
    std::memcpy(&f, &u, 8);
    return f;
  }
  if (rng.P(.5))
    return rng.Pick({0., -0., 5e-324, 2.2e-308, 1.7e308, -1.7e308, 1. / 0., std::nan(""), 1., -1., 1e10, 1e20, 2147483647., 2147483648., 9.3e18, 1e-9, 1e-300});
  return (rng.P(.5) ? 1 : -1) * rng.LogU(1e-200, 1e200);
}
int AnyInt(Rng& rng) {
  return rng.P(.3) ? static_cast<int>(rng.Next()) : rng.P(.5) ? rng.Pick({0, 1, 2, 3, -1, 1000, 10000, 2147483647, -2147483647 - 1}) : rng.I(1, 100);
}
double Positive(Rng& rng, double v) { return rng.P(.8) ? std::abs(v) : v; }

void Mutate(Rng& rng, StrokeModelParams& p) {
  auto& w = p.wobble_smoother_params;
  auto& l = p.position_modeler_params.loop_contraction_mitigation_params;
  auto& s = p.sampling_params;
  auto& y = p.stylus_state_modeler_params;
  auto F = [&] { return static_cast<float>(Positive(rng, AnyFloat(rng))); };
  auto D = [&] { return Positive(rng, AnyDouble(rng)); };
  switch (rng.I(0, 34)) {
    case 0: w.is_enabled = !w.is_enabled; break;
    case 1: w.timeout = Duration(D()); break;
    case 2: w.speed_floor = F(); break;
    case 3: w.speed_ceiling = F(); break;
    case 4: case 30: p.position_modeler_params.spring_mass_constant = F(); break;
    case 5: case 31: p.position_modeler_params.drag_constant = F(); break;
    case 6: l.is_enabled = !l.is_enabled; break;
    case 7: l.speed_lower_bound = F(); break;
    case 8: l.speed_upper_bound = F(); break;
    case 9: l.interpolation_strength_at_speed_lower_bound = F(); break;
    case 10: l.min_speed_sampling_window = Duration(D()); break;
    case 11: l.min_discrete_speed_samples = AnyInt(rng); break;
    case 12: case 32: s.min_output_rate = D(); break;
    case 13: case 33: s.end_of_stroke_stopping_distance = F(); break;
    case 14: s.end_of_stroke_max_iterations = rng.P(.5) ? 1000 : AnyInt(rng); break;
    case 15: s.max_outputs_per_call = rng.P(.3) ? rng.I(1, 3) : AnyInt(rng); break;
    case 16: case 34: s.max_estimated_angle_to_traverse_per_input = rng.P(.5) ? D() : rng.LogU(1e-300, 3); break;
    case 17: y.max_input_samples = AnyInt(rng); break;
    case 18: y.use_stroke_normal_projection = !y.use_stroke_normal_projection; break;
    case 19: y.min_input_samples = AnyInt(rng); break;
    case 20: y.min_sample_duration = Duration(D()); break;
    default: {
      auto* k = std::get_if<KalmanPredictorParams>(&p.prediction_params);
      if (!k) break;
      auto& c = k->confidence_params;
      switch (rng.I(0, 13)) {
        case 0: k->process_noise = D(); break;
        case 1: k->measurement_noise = D(); break;
        case 2: k->min_stable_iteration = AnyInt(rng); break;
        case 3: k->max_time_samples = AnyInt(rng); break;
        case 4: k->min_catchup_velocity = F(); break;
        case 5: k->acceleration_weight = AnyFloat(rng); break;
        case 6: k->jerk_weight = AnyFloat(rng); break;
        case 7: k->prediction_interval = Duration(D()); break;
        case 8: c.desired_number_of_samples = AnyInt(rng); break;
        case 9: c.max_estimation_distance = F(); break;
        case 10: c.min_travel_speed = F(); break;
        case 11: c.max_travel_speed = F(); break;
        case 12: c.max_linear_deviation = F(); break;
        case 13: c.baseline_linearity_confidence = rng.U(); break;
      }
    }
  }
}
constexpr int kMaxOut = 20000;

void CheckCount(const Obs& o, const StrokeModelParams& p, const char* what) {
  if (o.r.size() > static_cast<size_t>(p.sampling_params.max_outputs_per_call))
    Fail("limit", "%s produced %zu results, more than max_outputs_per_call = %d", what, o.r.size(), p.sampling_params.max_outputs_per_call);
  if (o.ok() && o.r.size() == static_cast<size_t>(p.sampling_params.max_outputs_per_call) && o.r.size() > 1) COUNT("at_limit");
  for (const Result& r : o.r)
    if (!FiniteResult(r)) { COUNT("nonfinite_result"); break; }
}

// The limit is what bounds a call; the machine bounds the limit, more so if
// every result costs a pass over a long window.
void Bound(StrokeModelParams& p) {
  int& n = p.sampling_params.max_outputs_per_call;
  const auto& l = p.position_modeler_params.loop_contraction_mitigation_params;
  const bool windowed = l.is_enabled && (l.min_discrete_speed_samples > 2000 || !(l.min_speed_sampling_window.Value() * p.sampling_params.min_output_rate < 2000));
  n = std::min(n, windowed ? 500 : kMaxOut);
}

// Directed extremes: every accepted field at its most extreme.
const float kAngles[] = {1e10f, 3.4028235e38f, INFINITY, 1e20f, 6.2831855f, 6.2831859f, 2147483648.f, 1e-45f};
const double kGaps[] = {1e300, 1e18, 9.3e18, 1e12, 2147483647., 2147483648., 1e-300, 5e-324};
}  // namespace
int DirectedCases() { return 8 * 3 * 2 + 8 * 3 * 2; }
void RunCase(uint64_t index, Rng rng) {
  WorldOpts wo;
  int d = -1;
  if (index < static_cast<uint64_t>(DirectedCases())) {
    d = static_cast<int>(index);
    wo.normal = d & 1 ? kOn : kOff;
    wo.pred = 1 << (d / 2 % 3);
  }
  // A tip that is left far behind: a soft spring, a jump and a resting pen.
  const bool left_behind = d < 0 && rng.P(.05);
  const bool far_behind = left_behind && rng.P(.4);
  if (far_behind) wo.pred = kPredKalman;
  World w = GenWorld(rng, wo);
  StrokeModelParams p = w.p;
  p.sampling_params.max_outputs_per_call = rng.P(.1) ? 100000 : static_cast<int>(rng.LogU(1, 2000));
  if (d < 0)
    for (int n = rng.P(.25) ? 0 : rng.I(1, 5); n > 0; --n) Mutate(rng, p);
  if (left_behind) {
    COUNT("scenario.left_behind");
    p.position_modeler_params.spring_mass_constant *= rng.LogU(1, 1e12);
    if (auto* k = std::get_if<KalmanPredictorParams>(&p.prediction_params)) {
      k->min_catchup_velocity *= rng.LogU(1e-20, 1);
      k->min_stable_iteration = rng.I(1, 6);
      if (far_behind) {
        // The estimate comes to rest quickly.
        COUNT("scenario.far_behind");
        p.position_modeler_params.spring_mass_constant *= rng.LogU(1, 1e18);
        k->min_catchup_velocity *= rng.LogU(1e-15, 1);
        k->process_noise *= rng.LogU(1, 1e6);
        k->measurement_noise *= rng.LogU(1e-12, 1);
      }
    }
  }
  Bound(p);
  auto m = std::make_unique<Mon>("A");
  auto prelude = [&] {
    // Calls on a modeler that was never given parameters.
    if (!rng.P(.2)) return;
    COUNT("scenario.before_reset");
    for (int n = rng.I(1, 4); n > 0; --n) {
      switch (rng.I(0, 4)) {
        case 0: m->Restore(); break;
        case 1: m->Save(); break;
        case 2: CheckCount(m->Predict(), p, "Predict"); break;
        case 3: CheckCount(m->Update(In(static_cast<EventType>(rng.I(0, 2)), 0, 0, 0)), p, "Update"); break;
        case 4: m->Reset0(); break;
      }
    }
  };
  prelude();
  bool init = m->ResetP(p).ok();
  if (init) COUNT("params.accepted");
  else COUNT("params.rejected");
  if (!init) {
    std::vector<Result> r;
    m->Update(In(EventType::kDown, 0, 0, 0));
    m->Predict();
    m->Save();
    m->Restore();
    p = w.p;
    p.sampling_params.max_outputs_per_call = 1000;
    init = m->ResetP(p).ok();
  }
  StrokeOpts so;
  so.max_moves = far_behind ? 40 : 10;
  if (far_behind) so.min_moves = 20;
  so.max_dt_steps = 20;
  std::vector<Input> st = GenStroke(rng, w, so);
  if (d >= 0 && d < 48) {
    const float a = kAngles[d / 6 % 8];
    for (size_t i = 0; i < st.size(); ++i) {
      st[i].orientation = i % 2 ? a : rng.P(.5) ? 0 : a;
      st[i].tilt = i % 3 ? a : 0;
      st[i].pressure = i % 3 == 1 ? a : .5f;
    }
  } else if (d >= 48) {
    const double g = kGaps[(d - 48) / 6 % 8];
    for (size_t i = st.size() / 2; i < st.size(); ++i) st[i].time = Time(st[i].time.Value() + g);
  }
  if (left_behind) {
    const size_t at = far_behind ? rng.I(1, 4) : rng.I(0, static_cast<int>(st.size()) - 1);
    const Vec2 far{static_cast<float>(w.speed * rng.LogU(1e-2, 1e8)), static_cast<float>(w.speed * rng.U(-1, 1))};
    for (size_t i = 1; i < st.size(); ++i) {
      st[i].position = st[0].position;
      if (i >= at) st[i].position += far;
    }
  }
  int ok = 0;
  double t = st[0].time.Value();
  const int hostile = d >= 0 || left_behind ? 0 : rng.I(0, 3);
  for (size_t i = 0; i < st.size() + 6; ++i) {
    Input in = i < st.size() ? st[i] : rng.Of(st);
    if (hostile >= 1) {
      if (rng.P(hostile == 1 ? .1 : .5)) in.pressure = AnyFloat(rng);
      if (rng.P(hostile == 1 ? .1 : .5)) in.tilt = AnyFloat(rng);
      if (rng.P(hostile == 1 ? .1 : .5)) in.orientation = AnyFloat(rng);
    }
    if (hostile >= 2) {
      if (rng.P(.3)) in.position.x = AnyFloat(rng);
      if (rng.P(.3)) in.position.y = AnyFloat(rng);
      if (rng.P(.2)) in.time = Time(AnyDouble(rng));
      else if (rng.P(.2)) in.time = Time(t + std::abs(AnyDouble(rng)));
      if (rng.P(.1)) in.event_type = static_cast<EventType>(AnyInt(rng));
      if (rng.P(.1)) in.event_type = static_cast<EventType>(rng.I(0, 2));
    }
    if (hostile == 3 && rng.P(.4)) in.time = Time(t);
    Obs o = m->Update(in);
    Observe(HashObs(o));
    if (o.ok()) {
      COUNT("update.ok");
      ++ok;
      t = in.time.Value();
    } else {
      COUNT("update.error");
    }
    CheckCount(o, p, "Update");
    if (rng.P(.4)) {
      Obs q = m->Predict();
      if (q.ok()) COUNT("predict.ok");
      CheckCount(q, p, "Predict");
      Observe(HashObs(q));
    }
    if (rng.P(.1)) m->Save();
    if (rng.P(.1)) m->Restore();
    if (rng.P(.02)) m->Reset0();
    if (rng.P(.02)) {
      StrokeModelParams q = p;
      Mutate(rng, q);
      Bound(q);
      if (m->ResetP(q).ok()) p = q;
    }
    if (rng.P(.03)) {
      m = std::make_unique<Mon>("A");
      prelude();
      m->ResetP(p);
    }
    if (rng.P(.05)) {
      std::ostringstream os;
      os << in;
      if (!o.r.empty()) os << o.r.back();
      Vec2 u{AnyFloat(rng), AnyFloat(rng)};
      auto a = in.position.AbsoluteAngleTo(u);
      if (!a.ok()) os << a.status().ToString();
    }
  }
  if (init && ok >= 3) NonTrivial();
}
}  // namespace vf
