// C11: the tip moves as a damped mass on a spring pulled by the input.
#include "gen.h"
#include "ref.h"
namespace vf {
const char* kProperty = "C11";
const char* kRule =
    "Random strokes without loop mitigation; for every result up to the input's time, acceleration, "
    "velocity and position are recomputed from the previous recorded result with the documented law "
    "and the documented anchor (equal steps from the previous input's position to the new one; with "
    "smoothing on, between the anchors recovered from the record), within float rounding bounds. "
    "Non-trivial: at least one multi-result input with a moving tip was checked.";
int DirectedCases() { return 0; }
std::vector<Floor> Floors() {
  return {{"steps", 20000}, {"steps.multi", 5000}, {"steps.wobble", 3000}, {"steps.up", 500}, {"steps.after_coincident", 100},
          {"steps.turning", 1000}};
}
void RunCase(uint64_t, Rng rng) {
  WorldOpts wo;
  wo.loop = kOff;
  wo.wobble = rng.P(.7) ? kOff : kOn;
  wo.dyadic = rng.P(.15);
  World w = GenWorld(rng, wo);
  const PositionModelerParams& pm = w.p.position_modeler_params;
  const bool wobble = w.p.wobble_smoother_params.is_enabled;
  Mon m("A");
  if (!m.ResetP(w.p).ok()) Die("valid params rejected");
  bool nt = false;
  for (int strokes = rng.I(1, 2); strokes > 0; --strokes) {
    StrokeOpts so;
    so.max_dt_steps = 60;
    std::vector<Input> st = GenStroke(rng, w, so);
    std::optional<Input> prev;
    D2 c_prev;
    double c_tol = 0;
    bool c_known = true, after_coincident = false;
    Result last{};
    for (const Input& in : st) {
      Obs o = m.Update(in);
      if (!o.ok()) continue;
      Observe(HashObs(o));
      if (in.event_type == EventType::kDown) {
        last = o.r.at(0);
        c_prev = V(in.position);
        c_tol = 0;
        c_known = true;
        prev = in;
        continue;
      }
      size_t n = LinearCount(in, o.r);
      const bool coincident = in.time.Value() == prev->time.Value();
      bool no_step = coincident && n == 1 && SameMotion(o.r[0], last);
      if (n == 0 || no_step) {
        // No step was made; the tip did not move.
        if (coincident && n == 1) COUNT("coincident_no_step");
        if (wobble) c_known = false;
        else c_prev = V(in.position), c_tol = 0, c_known = true;
        after_coincident = true;
        prev = in;
        if (in.event_type == EventType::kUp) break;
        continue;
      }
      St from = ToSt(last);
      // End anchor.
      D2 c_new = V(in.position);
      double n_tol = 0;
      if (wobble && in.event_type == EventType::kMove) {
        St f = n > 1 ? ToSt(o.r[n - 2]) : from;
        Anchor a = RecoverAnchor(f, ToSt(o.r[n - 1]), pm);
        c_new = a.p;
        n_tol = a.tol;
      }
      bool sane = true;
      D2 a_first;
      double a_tol = 0;
      for (size_t i = 0; i < n; ++i) {
        St to = ToSt(o.r[i]);
        if (!SaneState(from) || !SaneState(to)) { sane = false; break; }
        const double dt = to.t - from.t;
        const double fr = double(i + 1) / n;
        // Velocity and position from the recorded acceleration.
        const double lv = Len(to.v), ls = std::max(Len(to.s), Len(from.s));
        D2 v = from.v + to.a * dt, s = from.s + to.v * dt;
        const double ev = kEps * (4 * dt * Len(to.a) + 4 * std::max(lv, Len(from.v))) + 1e-38;
        const double es = kEps * (4 * dt * lv + 4 * ls) + 1e-38;
        if (Dist(v, to.v) > ev)
          Fail("velocity", "result %zu of %s: velocity (%.9g,%.9g), previous velocity + dt * acceleration is (%.9g,%.9g)", i,
               Str(in).c_str(), to.v.x, to.v.y, v.x, v.y);
        if (Dist(s, to.s) > es)
          Fail("position", "result %zu of %s: position (%.9g,%.9g), previous position + dt * velocity is (%.9g,%.9g)", i,
               Str(in).c_str(), to.s.x, to.s.y, s.x, s.y);
        Anchor a = RecoverAnchor(from, to, pm);
        if (i == 0) a_first = a.p, a_tol = a.tol;
        if (c_known) {
          D2 want = c_prev + (c_new - c_prev) * fr;
          double tol = a.tol + c_tol + n_tol + 6 * kEps * (Len(c_prev) + Len(c_new));
          if (Dist(a.p, want) > tol)
            Fail("acceleration", "result %zu of %zu of %s: acceleration (%.9g,%.9g) pulls towards (%.9g,%.9g), anchor should be (%.9g,%.9g) (tolerance %.3g)",
                 i, n, Str(in).c_str(), to.a.x, to.a.y, a.p.x, a.p.y, want.x, want.y, tol);
        } else if (n >= 3 && i > 0) {
          D2 want = a_first + (c_new - a_first) * (double(i) / (n - 1));
          double tol = 3 * a.tol + 3 * a_tol + n_tol + 6 * kEps * (Len(a_first) + Len(c_new));
          if (Dist(a.p, want) > tol)
            Fail("anchor-line", "result %zu of %zu of %s: anchors not evenly spaced", i, n, Str(in).c_str());
        }
        COUNT("steps");
        if (n > 1) { COUNT("steps.multi"); if (lv > 0) nt = true; }
        if (wobble) COUNT("steps.wobble");
        if (in.event_type == EventType::kUp) COUNT("steps.up");
        if (after_coincident) COUNT("steps.after_coincident");
        if (lv > 0 && std::abs(Cross(from.v, to.v)) > .05 * Len(from.v) * lv) COUNT("steps.turning");
        from = to;
      }
      if (!sane) { COUNT("overflow_skipped"); break; }
      after_coincident = false;
      last = o.r[n - 1];
      c_prev = c_new;
      c_tol = n_tol;
      c_known = true;
      prev = in;
      if (in.event_type == EventType::kUp) break;
    }
    m.Reset0();
  }
  if (nt) NonTrivial();
}
}  // namespace vf
