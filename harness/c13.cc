// C13: the end of the stroke catches up with the pen without overshooting.
#include "gen.h"
#include "ref.h"
namespace vf {
const char* kProperty = "C13";
const char* kRule =
    "Random strokes without loop mitigation and with many stopping distances, attempt limits and "
    "spring settings; after the Up, every recorded result is checked against the end-of-stroke rule "
    "step by step (discarded attempts are re-simulated), including that modelling stopped exactly "
    "when the rule says. Non-trivial: at least one end-of-stroke result was checked.";
int DirectedCases() { return 0; }
std::vector<Floor> Floors() {
  return {{"ups", 3000}, {"tail_results", 5000}, {"halved", 500}, {"stop.reached", 300}, {"stop.no progress", 300},
          {"stop.attempts", 200}, {"single_state", 20}, {"limit_cuts", 20}};
}
void RunCase(uint64_t, Rng rng) {
  WorldOpts wo;
  wo.loop = kOff;
  wo.small_max = rng.P(.3);
  wo.dyadic = rng.P(.1);
  World w = GenWorld(rng, wo);
  SamplingParams& sp = w.p.sampling_params;
  if (rng.P(.5)) sp.end_of_stroke_stopping_distance *= rng.LogU(.01, 30);
  if (rng.P(.3)) sp.end_of_stroke_max_iterations = rng.I(1, 60);
  Mon m("A");
  if (!m.ResetP(w.p).ok()) Die("valid params rejected");
  bool nt = false;
  for (int s = rng.I(1, 3); s > 0; --s) {
    StrokeOpts so;
    so.max_dt_steps = std::min(40, sp.max_outputs_per_call);
    so.max_moves = 12;
    std::vector<Input> st = GenStroke(rng, w, so);
    Result last{};
    for (const Input& in : st) {
      Obs o = m.Update(in);
      if (!o.ok()) continue;
      Observe(HashObs(o));
      if (in.event_type != EventType::kUp) {
        last = o.r.back();
        continue;
      }
      size_t n = LinearCount(in, o.r);
      std::vector<Result> tail(o.r.begin() + n, o.r.end());
      St from = ToSt(n ? o.r[n - 1] : last);
      int limit = std::min(sp.end_of_stroke_max_iterations, sp.max_outputs_per_call - static_cast<int>(n));
      if (limit < sp.end_of_stroke_max_iterations) COUNT("limit_cuts");
      COUNT("ups");
      EosInfo info;
      std::string bad = CheckEndOfStroke(w.p, from, V(in.position), 0, limit, tail, &info);
      if (!bad.empty()) {
        // An Up that yields neither a modelled step nor an end-of-stroke result
        // reports the current state (n may then be 0 or count it).
        std::string b2 = "x";
        if (o.r.size() == 1) {
          EosInfo i2;
          b2 = CheckEndOfStroke(w.p, ToSt(last), V(in.position), 0, sp.end_of_stroke_max_iterations, {}, &i2);
          if (b2.empty()) {
            // The state is the last one, or the step that made no progress.
            // (after discarded attempts, with a halved step).
            const double t0 = last.time.Value(), dt = o.r[0].time.Value() - t0;
            double want = 1 / sp.min_output_rate;
            const double slack = 1e-15 * std::abs(t0) + 1e-9 * want;
            for (int j = 0; j < sp.end_of_stroke_max_iterations && want > dt + slack; ++j) want *= .5;
            St c = Spring(ToSt(last), V(in.position), static_cast<float>(dt), w.p.position_modeler_params);
            StepErr e = SpringErr(ToSt(last), c, V(in.position), dt, w.p.position_modeler_params, 0);
            const St got = ToSt(o.r[0]);
            bool is_c = std::abs(want - dt) <= slack && Dist(got.s, c.s) <= e.s && Dist(got.v, c.v) <= e.v;
            if (!is_c && !SameMotion(o.r[0], last)) b2 = "single result is not the current state";
            else COUNT("single_state");
          }
        }
        if (!b2.empty())
          Fail("end", "%s: %s", Str(in).c_str(), bad.c_str());
        continue;
      }
      if (o.r.size() == 1 && tail.empty() && SameMotion(o.r[0], last)) COUNT("single_state");
      for (const Result& r : tail) {
        (void)r;
        COUNT("tail_results");
        nt = true;
      }
      if (info.halvings) COUNT("halved");
      if (info.ambiguous) COUNT("ambiguous");
      if (std::string(info.stop) == "reached") COUNT("stop.reached");
      if (std::string(info.stop) == "no progress") COUNT("stop.no progress");
      if (std::string(info.stop) == "attempts") COUNT("stop.attempts");
    }
    m.Reset0();
  }
  if (nt) NonTrivial();
}
}  // namespace vf
