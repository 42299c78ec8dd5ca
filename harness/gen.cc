#include "gen.h"

namespace vf {
namespace {
constexpr double kPi = 3.14159265358979323846;
bool Decide(Rng& rng, Tri t, double p) {
  return t == kOn || (t == kAny && rng.P(p));
}
double Pow2(Rng& rng, int lo, int hi) { return std::ldexp(1.0, rng.I(lo, hi)); }
bool SameStylusValues(const Input& a, const Input& b) {
  return SameF(a.pressure, b.pressure) && SameF(a.tilt, b.tilt) && SameF(a.orientation, b.orientation);
}
}  // namespace

World GenWorld(Rng& rng, const WorldOpts& o) {
  World w;
  StrokeModelParams& p = w.p;
  w.dyadic = o.dyadic;
  w.tu = !o.ms_units || rng.P(.75) ? 1 : (o.dyadic ? Pow2(rng, -4, 10) : rng.Pick({1000., 1000., 60., 1e-2}));
  const double tu = w.tu;
  w.speed = o.dyadic ? Pow2(rng, -6, 16) : rng.P(.4) ? rng.Pick({1., 10., 100., 1000., 2000.}) : rng.LogU(1e-2, 1e5);
  const double S = w.speed;
  w.rate_in = o.dyadic ? Pow2(rng, 5, 9) : rng.P(.6) ? rng.Pick({60., 90., 120., 133., 240.}) : rng.LogU(20, 1000);
  const double step = S / w.rate_in;  // typical distance between inputs
  // Sampling.
  double rate = o.dyadic ? Pow2(rng, 5, 9) : rng.P(.6) ? rng.Pick({60., 120., 180., 180., 240., 400.}) : rng.LogU(25, 1500);
  SamplingParams& sp = p.sampling_params;
  sp.min_output_rate = rate / tu;
  sp.end_of_stroke_stopping_distance =
      rng.P(.3) ? step * 1e-3 : step * rng.LogU(1e-4, 3e-1);
  sp.end_of_stroke_max_iterations =
      rng.P(.6) ? 20 : rng.P(.5) ? rng.I(1, 12) : rng.I(1, 100);
  sp.max_outputs_per_call =
      o.small_max && rng.P(.4) ? rng.I(1, 40) : rng.P(.8) ? 100000 : rng.I(2000, 100000);
  sp.max_estimated_angle_to_traverse_per_input =
      Decide(rng, o.angle, .4) ? (rng.P(.5) ? kPi / rng.I(2, 32) : rng.U(.03, 3.1)) : -1;
  // Spring: stable for every step up to one output period.
  PositionModelerParams& pm = p.position_modeler_params;
  const double dt = 1 / rate;
  double M = 11. / 32400, kd = 72;
  if (o.dyadic) {
    M = dt * dt / Pow2(rng, -4, 0);
    kd = rng.U(.1, 1.2) / dt;
  } else if (rng.P(.5) || dt * dt / M + 2 * dt * kd > 3.6) {
    do {
      M = dt * dt / rng.LogU(.004, 1.5);
      kd = rng.LogU(.02, 1.6) / dt;
    } while (dt * dt / M + 2 * dt * kd > 3.6);
  }
  pm.spring_mass_constant = M * tu * tu;
  pm.drag_constant = kd / tu;
  // Wobble.
  WobbleSmootherParams& ws = p.wobble_smoother_params;
  ws.is_enabled = Decide(rng, o.wobble, .6);
  if (ws.is_enabled || rng.P(.5)) {
    double to = o.dyadic ? Pow2(rng, -8, -2)
                : rng.P(.4)  ? .04
                : rng.P(.5)  ? 2.5 / w.rate_in
                : rng.P(.15) ? 0.
                             : rng.LogU(.002, .5);
    ws.timeout = Duration(to * tu);
    double fl = S * rng.Pick({0., .02, .2, .5, .8, 1.31}) / tu;
    ws.speed_floor = fl;
    ws.speed_ceiling = rng.P(.12) ? ws.speed_floor : static_cast<float>(fl + S * rng.Pick({.01, .13, .5, 1., 3.}) / tu);
  }
  // Stylus.
  StylusStateModelerParams& ss = p.stylus_state_modeler_params;
  bool loop = Decide(rng, o.loop, .35) && o.normal != kOff;
  ss.use_stroke_normal_projection = loop || Decide(rng, o.normal, .4);
  ss.max_input_samples = rng.P(.4) ? 10 : rng.Pick({1, 2, 3, 4, 7, 20});
  if (ss.use_stroke_normal_projection || rng.P(.5)) {
    ss.min_input_samples = rng.P(.4) ? 10 : rng.Pick({1, 2, 3, 5, 20});
    ss.min_sample_duration = Duration((o.dyadic ? Pow2(rng, -8, -2) : rng.P(.4) ? .05 : rng.LogU(.001, .4)) * tu);
  }
  // Loop mitigation.
  auto& lp = pm.loop_contraction_mitigation_params;
  lp.is_enabled = loop;
  if (loop || rng.P(.3)) {
    lp.speed_lower_bound = S / tu * rng.Pick({0., .1, .3, .7, 1.});
    lp.speed_upper_bound = rng.P(.1) ? lp.speed_lower_bound : static_cast<float>(lp.speed_lower_bound + S / tu * rng.U(.05, 2));
    float a = rng.P(.4) ? 1. : rng.U(), b = rng.P(.3) ? 0. : rng.U();
    lp.interpolation_strength_at_speed_lower_bound = std::max(a, b);
    lp.interpolation_strength_at_speed_upper_bound = std::min(a, b);
    lp.min_speed_sampling_window = Duration((o.dyadic ? Pow2(rng, -8, -2) : rng.P(.4) ? .04 : rng.LogU(.001, .4)) * tu);
    lp.min_discrete_speed_samples = rng.Pick({1, 2, 3, 5, 10, 20});
  }
  // Prediction.
  std::vector<int> kinds;
  for (int k : {kPredEnd, kPredKalman, kPredNone})
    if (o.pred & k) kinds.push_back(k);
  int kind = rng.Of(kinds);
  if (kind == kPredNone && (o.pred & ~kPredNone) && rng.P(.6)) kind = kinds[0];
  if (kind == kPredEnd) {
    p.prediction_params = StrokeEndPredictorParams{};
  } else if (kind == kPredNone) {
    p.prediction_params = DisabledPredictorParams{};
  } else {
    KalmanPredictorParams k;
    k.process_noise = step * step * rng.LogU(1e-4, 1);
    k.measurement_noise = step * step * rng.LogU(1e-3, 10);
    k.min_stable_iteration = rng.P(.5) ? 4 : rng.I(1, 8);
    k.max_time_samples = rng.P(.5) ? 20 : rng.Pick({1, 2, 2, 3, 3, 5, 5, 10});
    k.min_catchup_velocity = S / tu * rng.LogU(1e-3, 1e-1);
    if (rng.P(.4)) {
      k.acceleration_weight = rng.Pick({0., .5, 1., rng.U(), 1.5, -.4});
      k.jerk_weight = rng.Pick({0., .1, 1., rng.U(), 1.5, -.4});
    }
    k.prediction_interval =
        Duration((rng.P(.6) ? rng.I(1, 12) / rate : rng.LogU(.002, .2)) * tu);
    auto& c = k.confidence_params;
    c.desired_number_of_samples = rng.P(.4) ? 20 : rng.I(1, 15);
    c.max_estimation_distance = step * rng.LogU(.1, 20);
    c.min_travel_speed = S / tu * rng.Pick({0., .05, .2});
    c.max_travel_speed = c.min_travel_speed + (rng.P(.1) ? 0. : S / tu * rng.U(.05, 1));
    c.max_linear_deviation = S * k.prediction_interval.Value() / tu * rng.LogU(.05, 10);
    c.baseline_linearity_confidence = rng.P(.5) ? .4 : rng.U();
    p.prediction_params = k;
  }
  // Windows much longer than usual.
  w.big = rng.P(.05);
  if (w.big) {
    auto size = [&](double lo, double hi) { return static_cast<int>(rng.P(.6) ? rng.U(lo, hi) : rng.LogU(lo, 5 * hi)); };
    if (rng.P(.5)) ss.max_input_samples = size(20, 200);
    if (rng.P(.5)) ss.min_input_samples = size(20, 150);
    if (rng.P(.3)) ss.min_sample_duration = Duration(o.dyadic ? 2 * tu : rng.U(.4, 2) * tu);
    if (rng.P(.5)) lp.min_discrete_speed_samples = size(20, 150);
    if (rng.P(.3)) lp.min_speed_sampling_window = Duration(o.dyadic ? 1 * tu : rng.U(.4, 1.5) * tu);
    if (rng.P(.4)) ws.timeout = Duration(o.dyadic ? 1 * tu : rng.U(.3, 2) * tu);
    if (rng.P(.4)) sp.end_of_stroke_max_iterations = rng.I(100, 1000);
    if (auto* k = std::get_if<KalmanPredictorParams>(&p.prediction_params)) {
      if (rng.P(.5)) k->max_time_samples = size(20, 120);
      if (rng.P(.4)) k->min_stable_iteration = size(8, 60);
      if (rng.P(.4)) k->confidence_params.desired_number_of_samples = size(15, 200);
      if (rng.P(.4)) k->prediction_interval = Duration(rng.LogU(.2, 1) * tu);
    }
  }
  if (rng.P(.5)) {
    double e = step * rng.LogU(1, 1000);
    w.ox = rng.U(-e, e);
    w.oy = rng.U(-e, e);
  }
  return w;
}

void ShiftTimes(std::vector<Input>& s, double t0) {
  if (s.empty()) return;
  double d = t0 - s[0].time.Value();
  for (Input& i : s) i.time = Time(i.time.Value() + d);
}

std::vector<Input> GenStroke(Rng& rng, const World& w, const StrokeOpts& o) {
  const double S = w.speed, tu = w.tu;
  int n = rng.P(.1) ? rng.I(0, 2) : rng.I(2, o.max_moves);
  n = std::max(o.min_moves, std::min(n, o.max_moves));
  if (o.may_be_long && rng.P(w.big ? .5 : .008)) n = rng.I(o.max_moves, 12 * o.max_moves);
  // Very long: past the range of 8 bit, 16 bit and other counters.
  double longest = o.max_dt_steps;
  if (o.may_be_long && o.very_long_moves > 0 && rng.P(.0004)) {
    n = rng.P(.05) ? rng.I(66000, 70000) : static_cast<int>(rng.LogU(500, 5000));
    n = std::min(n, w.big ? std::min(800, o.very_long_moves) : o.very_long_moves);
    longest = std::min(longest, n > 60000 ? 2. : 20.);
    COUNT("stroke.very_long");
  }
  // Times.
  int ts = o.time_style;
  if (ts < 0) {
    do {
      ts = w.dyadic ? (rng.P(.8) ? kTDyadic : kTUniform) : rng.I(0, kNumTimeStyles - 1);
    } while ((ts == kTBurst && !o.zero_dt) || (ts == kTNear && !o.near_dt) ||
             (ts == kTPause && !o.pauses));
  }
  const double period = 1 / (w.p.sampling_params.min_output_rate * tu);  // s
  const double cap = period * longest;
  double t0 = 0;
  if (w.dyadic)
    t0 = rng.I(-64, 64) / 64.;
  else if (rng.P(.4))
    t0 = o.big_t0 ? rng.Pick({rng.U(-10, 10), rng.U(0, 1e4), 1.7e9 + rng.I(0, 1000000), rng.U(0, 1e6)}) : rng.U(-2, 20);
  std::vector<double> t{t0};
  double base = 1 / w.rate_in;
  if (ts == kTSlow) base = 1 / rng.LogU(4, 40);
  if (ts == kTFast) base = period / rng.LogU(1, 20);
  for (int i = 0; i < n + 1; ++i) {
    double d = base;
    switch (ts) {
      case kTUniform: case kTSlow: case kTFast: break;
      case kTJitter: d = base * rng.LogU(.2, 4); break;
      case kTBurst: d = rng.P(.35) ? 0 : base * rng.U(.5, 2); break;
      case kTNear: d = rng.P(.3) ? rng.LogU(1e-10, 1e-5) : base * rng.U(.5, 2); break;
      case kTPause: d = rng.P(.15) ? rng.LogU(.05, 20) : base; break;
      case kTDyadic: {
        int k = rng.P(o.zero_dt ? .05 : 0) ? 0 : rng.I(1, rng.P(.2) ? 40 : 6);
        d = k * (w.dyadic ? std::min(base, period) * .5 : 1. / 512);
        break;
      }
    }
    t.push_back(t.back() + std::min(d, cap));
  }
  // An input at time zero exactly.
  if (!w.dyadic && t0 == 0 && rng.P(.06)) {
    double z = t[rng.I(1, n + 1)];
    for (double& v : t) v -= z;
  }
  if (o.zero_dt && rng.P(.15)) t[n + 1] = t[n];  // Up at the last Move's time
  // Positions.
  std::vector<Vec2> pos;
  int shape = rng.I(0, 10);
  double x = w.ox, y = w.oy, th = rng.U(0, 2 * kPi);
  double sp = S * rng.Pick({.05, .3, .7, 1., 1.3, 2.5});
  double turn = rng.U(-1, 1) * rng.Pick({2., 10., 40.});  // rad/s
  double jit = rng.P(.4) ? S / w.rate_in * rng.LogU(1e-3, .5) : 0;
  double grid = rng.P(.25) ? S / w.rate_in * rng.LogU(.05, 2) : 0;
  double phase = 0;
  bool moving = true;
  if (w.dyadic) grid = std::ldexp(S, -12);
  for (int i = 0; i <= n + 1; ++i) {
    if (i > 0) {
      double d = t[i] - t[i - 1];
      if (d < base * 1e-3) d = base * rng.U(0, .3);  // coincident in time only
      d = std::min(d, 10 * base);
      phase += d;
      switch (shape) {
        case 0: break;                                       // straight line
        case 1: th += turn * d; break;                       // circle
        case 2: if (rng.P(.2)) th += kPi + rng.U(-.3, .3); break;  // reversals
        case 3: th += 3 * std::sin(phase * 20) * d * 10; break;    // sinusoid
        case 4: th += rng.U(-.6, .6); break;                 // random walk
        case 5: if (rng.P(.2)) moving = !moving; break;      // stop and go
        case 6: moving = false; break;                       // stationary
        case 7: sp = S * rng.LogU(.01, 4); break;            // varying speed
        case 8: if (o.jumps && rng.P(.15)) { x += S * .3 * rng.U(-1, 1); y += S * .3 * rng.U(-1, 1); } break;
        case 9: if (rng.P(.3)) th = kPi / 2 * rng.I(0, 3); break;  // grid walk
        case 10: th += turn * d; x += .4 * sp * d; break;    // loops
      }
      if (moving) {
        x += sp * d * std::cos(th);
        y += sp * d * std::sin(th);
      }
    }
    double px = x + (jit ? jit * rng.U(-1, 1) : 0);
    double py = y + (jit ? jit * rng.U(-1, 1) : 0);
    if (grid) {
      px = grid * std::round(px / grid);
      py = grid * std::round(py / grid);
    }
    pos.push_back({static_cast<float>(px), static_cast<float>(py)});
  }
  if (rng.P(.2)) pos[n + 1] = pos[n];
  // The origin, an axis, or the stroke's first position, exactly.
  if (rng.P(.06)) {
    Vec2& v = pos[rng.I(1, n + 1)];
    switch (rng.I(0, 3)) {
      case 0: if (o.jumps || !(w.ox || w.oy)) v = {0, 0}; break;
      case 1: if (o.jumps || !w.ox) v.x = 0; break;
      case 2: if (o.jumps || !w.oy) v.y = 0; break;
      case 3: v = pos[0]; break;
    }
  }
  // Stylus values.
  int st = o.stylus_style >= 0 ? o.stylus_style : rng.I(0, kNumStylusStyles - 1);
  bool hp = true, ht = true, ho = true;
  if (st == kSPartial) {
    hp = rng.P(.5); ht = rng.P(.5); ho = rng.P(.5);
  }
  int drop = st == kSDrop || st == kSNan ? rng.I(0, n + 1) : -1;
  int dropmask = rng.I(1, 7), droplen = rng.P(.5) ? 1 : rng.I(1, 100);
  double pr = rng.U(), ti = rng.U(0, kPi / 2), or_ = rng.U(0, 2 * kPi);
  double od = rng.U(-.5, .5);
  if (st == kSWrap) { or_ = rng.P(.5) ? .05 : 2 * kPi - .05; od = rng.U(-.3, .3); }
  // Devices may report more than 1; zero may be negative zero.
  const double press = rng.P(.06) ? rng.Pick({1.5, 4., 1024.}) : 1;
  // Nor is tilt always in radians.
  const double tilt = rng.P(.05) ? rng.Pick({1.5, 2., 57.29578}) : 1;
  const bool negzero = st == kSFull && rng.P(.15);
  // Coarse orientations: exactly opposite ones, right angles.
  const int turns = (st == kSFull || st == kSJumpy) && rng.P(.1) ? 1 << rng.I(0, 2) : 0;
  if (turns) COUNT("stylus.coarse_orientation");
  // Inputs that differ from the previous one in their stylus values only.
  const bool stylus_twins = o.twins && o.zero_dt && rng.P(.2);
  std::vector<Input> out;
  for (int i = 0; i <= n + 1; ++i) {
    if (i == n + 1 && !o.up) break;
    Input in{};
    in.event_type = i == 0 ? EventType::kDown : i == n + 1 ? EventType::kUp : EventType::kMove;
    in.position = pos[i];
    in.time = Time(t[i] * tu);
    if (st != kSNone) {
      if (st != kSConst && i) {
        pr = std::min(1., std::max(0., pr + rng.U(-.1, .1)));
        ti = std::min(kPi / 2, std::max(0., ti + rng.U(-.1, .1)));
        or_ += od * rng.U();
        if (st == kSFull && rng.P(.03)) pr = rng.I(0, 1);
        if (st == kSFull && rng.P(.03)) ti = rng.P(.5) ? 0 : kPi / 2;
        if (st == kSFull && rng.P(.03)) or_ = 0;
        if (st == kSJumpy) { pr = rng.U(); ti = rng.U(0, kPi / 2); or_ = rng.U(0, 2 * kPi); }
        or_ = std::fmod(or_ + 2 * kPi, 2 * kPi);
      }
      in.pressure = hp ? pr * press : -1;
      in.tilt = ht ? ti * tilt : -1;
      in.orientation = ho ? or_ : -1;
      if (turns && ho) in.orientation = static_cast<float>(std::floor(or_ / kPi * turns) * kPi / turns);
      if (in.orientation >= 6.2831855f) in.orientation = 0;
      if (negzero && rng.P(.15)) {
        const int k = rng.I(0, 2);
        (k == 0 ? in.pressure : k == 1 ? in.tilt : in.orientation) = -0.f;
      }
      if (drop >= 0 && i >= drop && i < drop + droplen) {
        float bad = st == kSNan ? std::numeric_limits<float>::quiet_NaN() : static_cast<float>(-rng.Pick({1., .5, 1e-6}));
        if (dropmask & 1) in.pressure = bad;
        if (dropmask & 2) in.tilt = bad;
        if (dropmask & 4) in.orientation = bad;
      }
    }
    if (!out.empty() && in.time.Value() < out.back().time.Value()) in.time = out.back().time;
    // No exact duplicates.
    while (!out.empty() && out.back().event_type == in.event_type &&
           out.back().time.Value() == in.time.Value() &&
           out.back().position.x == in.position.x && out.back().position.y == in.position.y &&
           !(stylus_twins && !SameStylusValues(out.back(), in))) {
      in.position.x = std::nextafter(in.position.x + static_cast<float>(S / w.rate_in / 16), 3e38f);
    }
    out.push_back(in);
  }
  return out;
}

Input GenBadInput(Rng& rng, const World& w, const Input* last,
                  std::string* why) {
  const double per = 1 / w.p.sampling_params.min_output_rate;
  Input in{};
  if (last) in = *last;
  else {
    in.event_type = EventType::kDown;
    in.position = {static_cast<float>(w.ox), static_cast<float>(w.oy)};
    in.time = Time(rng.U(0, 10));
  }
  auto nonfinite = [&] {
    return rng.Pick({std::numeric_limits<float>::quiet_NaN(),
                     std::numeric_limits<float>::infinity(),
                     -std::numeric_limits<float>::infinity()});
  };
  if (last) {
    in.event_type = rng.P(.75) ? EventType::kMove : EventType::kUp;
    in.position.x += static_cast<float>(w.speed / w.rate_in * rng.U(-1, 1));
    in.time = Time(last->time.Value() + per * rng.U(.2, 1));
    if (rng.P(.5)) { in.pressure = rng.U(); in.tilt = rng.U(); in.orientation = rng.U(); }
    // Whatever else is unusual about it must leave no trace either.
    if (rng.P(.2)) in.time = last->time;
    if (rng.P(.1)) in.position = last->position;
    if (rng.P(.1)) in.position.y += static_cast<float>(w.speed * rng.U(-10, 10));
    if (rng.P(.1)) in.pressure = -1;
    if (rng.P(.1)) in.tilt = std::nanf("");
    if (rng.P(.1)) in.orientation = -1;
    switch (rng.I(0, 7)) {
      case 0: in = *last; *why = "duplicate";
        if (in.event_type == EventType::kDown) break;
        break;
      case 1: in.time = Time(last->time.Value() - rng.LogU(1e-6, 10) * w.tu); *why = "backwards"; break;
      case 2: in.event_type = EventType::kDown; *why = "down in stroke"; break;
      case 3: in.position.x = nonfinite(); *why = "non-finite x"; break;
      case 4: in.position.y = nonfinite(); *why = "non-finite y"; break;
      case 5: in.time = Time(nonfinite()); *why = "non-finite time"; break;
      case 6: {
        double k = static_cast<double>(w.p.sampling_params.max_outputs_per_call) * rng.LogU(1.01, 1e6) + 2;
        in.time = Time(last->time.Value() + per * k);
        *why = "too far apart";
        break;
      }
      case 7: in.event_type = static_cast<EventType>(rng.Pick({3, 7, -1, 1000})); *why = "unknown event"; break;
    }
    // A duplicate with NaN stylus data is not equal to itself.
    if (*why == "duplicate" && (std::isnan(last->pressure) || std::isnan(last->tilt) || std::isnan(last->orientation))) {
      in.event_type = EventType::kDown;
      *why = "down in stroke";
    }
    return in;
  }
  if (rng.P(.3)) { in.pressure = rng.U(); in.tilt = rng.U(); in.orientation = rng.U(); }
  if (rng.P(.3)) in.position.y += static_cast<float>(w.speed * rng.U(-1, 1));
  switch (rng.I(0, 4)) {
    case 0: in.event_type = EventType::kMove; *why = "move between strokes"; break;
    case 1: in.event_type = EventType::kUp; *why = "up between strokes"; break;
    case 2: in.position.x = nonfinite(); *why = "non-finite x"; break;
    case 3: in.time = Time(nonfinite()); *why = "non-finite time"; break;
    case 4: in.event_type = static_cast<EventType>(rng.Pick({3, -5})); *why = "unknown event"; break;
  }
  return in;
}

StrokeModelParams GenBadParams(Rng& rng, StrokeModelParams p) {
  switch (rng.I(0, 7)) {
    case 0: p.sampling_params.min_output_rate = rng.Pick({0., -1., std::nan("")}); break;
    case 1: p.sampling_params.end_of_stroke_stopping_distance = 0; break;
    case 2: p.sampling_params.end_of_stroke_max_iterations = rng.Pick({0, -3, 1001}); break;
    case 3: p.position_modeler_params.spring_mass_constant = rng.Pick({0.f, -1.f}); break;
    case 4: p.position_modeler_params.drag_constant = std::numeric_limits<float>::infinity(); break;
    case 5: p.wobble_smoother_params = {.is_enabled = true, .timeout = Duration(-1), .speed_floor = 0, .speed_ceiling = 1}; break;
    case 6: p.stylus_state_modeler_params.max_input_samples = 0;
            p.stylus_state_modeler_params.min_input_samples = 0; break;
    case 7: p.sampling_params.max_outputs_per_call = 0; break;
  }
  return p;
}
}  // namespace vf
