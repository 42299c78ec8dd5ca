// C10: upsampling yields the required number of results, within the limit.
#include "gen.h"
#include "ref.h"
namespace vf {
const char* kProperty = "C10";
const char* kRule =
    "Random strokes with small and large output limits, with and without a turning-angle limit, "
    "inputs placed exactly at, just below and just above the limit; the number of results of every "
    "call is compared with the number computed from the recorded tip state, the input gap and the "
    "parameters (an interval where rounding could go either way), and rejection with exceeding the "
    "limit. Non-trivial: a Move required more than one result, or was refused.";
int DirectedCases() { return 0; }
std::vector<Floor> Floors() {
  return {{"exact_count", 2000}, {"angle_decides", 300}, {"rejected", 300}, {"at_limit", 30}, {"up.exact", 300},
          {"up.at_limit", 20}, {"predict", 300}, {"predict.at_limit", 20}, {"one_result", 200}};
}
void RunCase(uint64_t, Rng rng) {
  WorldOpts wo;
  wo.dyadic = rng.P(.5);
  wo.small_max = true;
  bool angle = rng.P(.6);
  wo.angle = angle ? kOn : kOff;
  wo.loop = angle ? kOff : kAny;
  World w = GenWorld(rng, wo);
  SamplingParams& sp = w.p.sampling_params;
  if (rng.P(.5)) sp.max_outputs_per_call = rng.I(1, 30);
  const int mx = sp.max_outputs_per_call;
  Mon m("A");
  if (!m.ResetP(w.p).ok()) Die("valid params rejected");
  StrokeOpts so;
  so.max_dt_steps = std::min<double>(1000, rng.P(.7) ? mx : mx * 2);
  so.max_moves = 20;
  std::vector<Input> st = GenStroke(rng, w, so);
  std::optional<Input> prev;
  St tip;
  bool nt = false;
  double shift = 0;
  for (Input in : st) {
    in.time = Time(in.time.Value() + shift);
    if (prev && mx < 200 && rng.P(.12)) {
      // Around the limit.
      double k = mx + rng.Pick({-1., 0., 0., 1., .5, -.5});
      double t = PeriodsAfter(w, prev->time.Value(), std::max(0., k));
      shift += t - in.time.Value();
      in.time = Time(t);
    }
    if (prev && in.time.Value() < prev->time.Value()) in.time = prev->time;
    if (prev && in == *prev) continue;
    Obs o = m.Update(in);
    Observe(o.r.size() * 8 + o.ok());
    if (o.r.size() > static_cast<size_t>(mx))
      Fail("limit", "%s returned %zu results, limit is %d", Str(in).c_str(), o.r.size(), mx);
    if (in.event_type == EventType::kDown) {
      prev = in;
      tip = ToSt(o.r.at(0));
      continue;
    }
    NRange n = StepsRange(w.p, tip, *prev, in);
    if (n.unknown) { COUNT("overflow_skipped"); break; }
    if (!o.ok()) {
      COUNT("rejected");
      nt = true;
      if (n.hi <= mx)
        Fail("refused", "%s refused although %.0f results are within the limit %d: %s", Str(in).c_str(), n.hi, mx, o.message.c_str());
      continue;
    }
    if (n.lo > mx) Fail("accepted", "%s needs %.0f results, limit is %d, but was accepted", Str(in).c_str(), n.lo, mx);
    size_t k = LinearCount(in, o.r);
    const bool coincident = in.time.Value() == prev->time.Value();
    if (!coincident || in.event_type == EventType::kMove) {
      double lo = std::max(1., n.lo), hi = std::max(1., n.hi);
      if (k < lo || k > hi)
        Fail("count", "%s gave %zu results up to its time, expected %.0f%s", Str(in).c_str(), k, lo, lo == hi ? "" : Sf(" to %.0f", hi).c_str());
      if (lo == hi) COUNT("exact_count");
      if (hi == 1) COUNT("one_result");
      double x = std::ceil((in.time.Value() - prev->time.Value()) * sp.min_output_rate);
      if (n.lo > x + 1) COUNT("angle_decides");
      if (k == static_cast<size_t>(mx)) COUNT("at_limit");
      if (k > 1) nt = true;
    } else if (k > std::max(1., n.hi)) {
      Fail("count", "coincident Up gave %zu results up to its time", k);
    }
    if (in.event_type == EventType::kUp) {
      COUNT("up.exact");
      if (o.r.size() == static_cast<size_t>(mx)) COUNT("up.at_limit");
      break;
    }
    prev = in;
    tip = ToSt(o.r.back());
    if (rng.P(.3)) {
      Obs q = m.Predict();
      if (q.r.size() > static_cast<size_t>(mx)) Fail("predict-limit", "Predict returned %zu results, limit is %d", q.r.size(), mx);
      if (!q.r.empty()) COUNT("predict");
      if (q.r.size() == static_cast<size_t>(mx)) COUNT("predict.at_limit");
    }
  }
  if (nt) NonTrivial();
}
}  // namespace vf
