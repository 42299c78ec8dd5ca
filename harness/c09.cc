// C09: result times follow the input timeline without gaps.
#include "gen.h"
#include "ref.h"
namespace vf {
const char* kProperty = "C09";
const char* kRule =
    "Random strokes (all features, coincident and nearly coincident inputs, pauses, large time "
    "offsets, other time units) with predictions; every result time of every call is checked "
    "against the input timeline. Non-trivial: the stroke had an accepted Move with more than one "
    "result and either an end-of-stroke tail or a non-empty prediction.";
int DirectedCases() { return 0; }
std::vector<Floor> Floors() {
  return {{"down", 1000}, {"moves.multi", 1000}, {"moves.coincident", 200}, {"ups.tail", 500}, {"ups.coincident", 50},
          {"predict.end", 500}, {"predict.kalman", 300}, {"loop", 100}, {"big_time", 100}};
}
void RunCase(uint64_t, Rng rng) {
  WorldOpts wo;
  wo.dyadic = rng.P(.2);
  wo.small_max = rng.P(.2);
  World w = GenWorld(rng, wo);
  const double per = 1 / w.p.sampling_params.min_output_rate;
  Mon m("A");
  if (!m.ResetP(w.p).ok()) Die("valid params rejected");
  if (w.p.position_modeler_params.loop_contraction_mitigation_params.is_enabled) COUNT("loop");
  bool multi = false, more = false;
  for (int s = rng.I(1, 2); s > 0; --s) {
    StrokeOpts so;
    so.max_dt_steps = rng.P(.1) ? 3000 : 100;
    std::vector<Input> st = GenStroke(rng, w, so);
    std::optional<Input> prev;
    double last_t = 0;
    for (const Input& in : st) {
      Obs o = m.Update(in);
      if (!o.ok()) continue;
      Observe(HashObs(o));
      const std::vector<Result>& r = o.r;
      if (r.empty()) Fail("empty", "accepted %s gave no result", Str(in).c_str());
      const double T = in.time.Value(), ulp = 2.3e-16 * (std::abs(T) + (prev ? std::abs(prev->time.Value()) : 0));
      if (std::abs(T) > 1e8) COUNT("big_time");
      if (in.event_type == EventType::kDown) {
        COUNT("down");
        Result want{.position = in.position, .velocity = {0, 0}, .acceleration = {0, 0}, .time = in.time,
                    .pressure = in.pressure, .tilt = in.tilt, .orientation = in.orientation};
        if (r.size() != 1) Fail("down", "Down gave %zu results", r.size());
        if (!Same(r[0], want)) Fail("down", "Down result %s does not repeat the Down %s", Str(r[0]).c_str(), Str(in).c_str());
      } else {
        const double P = prev->time.Value(), dt = T - P;
        size_t n = LinearCount(in, r);
        double t = last_t;
        for (size_t i = 0; i < r.size(); ++i) {
          double ti = r[i].time.Value();
          if (!(ti >= t)) Fail("backwards", "result %zu time %.17g before the previous result's %.17g", i, ti, t);
          if (ti - t > per * (1 + 3e-7) + 3e-7 * dt * (i < n) + 4 * ulp)
            Fail("gap", "result %zu is %.17g after the previous one, output period is %.17g", i, ti - t, per);
          t = ti;
        }
        if (in.event_type == EventType::kMove && n != r.size())
          Fail("beyond", "Move at %.17g gave a result at %.17g", T, r.back().time.Value());
        if (dt > 0) {
          if (n == 0 || r[n - 1].time.Value() != T)
            Fail("end", "no result exactly at the input's time %.17g (last before the tail: %.17g)", T, n ? r[n - 1].time.Value() : NAN);
          for (size_t i = 0; i < n; ++i) {
            double want = P + dt * (double(i + 1) / n);
            if (std::abs(r[i].time.Value() - want) > 3 * kEps * dt + 4 * ulp)
              Fail("spacing", "result %zu of %zu at %.17g, even spacing wants %.17g", i, n, r[i].time.Value(), want);
          }
          if (n > 1) { COUNT("moves.multi"); multi = true; }
        } else {
          if (in.event_type == EventType::kMove) COUNT("moves.coincident");
          else COUNT("ups.coincident");
          for (size_t i = 0; i < n; ++i)
            if (r[i].time.Value() != T) Fail("coincident", "result %zu at %.17g for a coincident input at %.17g", i, r[i].time.Value(), T);
        }
        if (in.event_type == EventType::kUp && n < r.size()) { COUNT("ups.tail"); more = true; }
      }
      last_t = r.back().time.Value();
      prev = in;
      if (in.event_type == EventType::kUp) { prev.reset(); break; }
      if (rng.P(.4)) {
        Obs q = m.Predict();
        if (!q.ok() || q.r.empty()) continue;
        more = true;
        if (std::holds_alternative<KalmanPredictorParams>(w.p.prediction_params)) COUNT("predict.kalman");
        else COUNT("predict.end");
        double t = last_t, span = q.r.back().time.Value() - last_t;
        for (size_t i = 0; i < q.r.size(); ++i) {
          double ti = q.r[i].time.Value();
          if (!(ti >= t)) Fail("pred-backwards", "predicted result %zu at %.17g, after one at %.17g", i, ti, t);
          if (ti - t > per * (1 + 3e-7) + 3e-7 * span + 4 * ulp)
            Fail("pred-gap", "predicted result %zu is %.17g after the previous result, output period is %.17g", i, ti - t, per);
          t = ti;
        }
        if (std::holds_alternative<KalmanPredictorParams>(w.p.prediction_params)) {
          // Evenly spaced, one period apart.
          for (size_t i = 0; i < q.r.size(); ++i) {
            double want = last_t + per * double(i + 1);
            if (std::abs(q.r[i].time.Value() - want) > 3e-7 * span + (8 + i) * ulp)
              Fail("pred-spacing", "predicted result %zu at %.17g, expected %.17g", i, q.r[i].time.Value(), want);
          }
        }
      }
    }
    if (prev) m.Reset0();
  }
  if (multi && more) NonTrivial();
}
}  // namespace vf
