// C14: stroke-end prediction shows what lifting the pen now would give.
#include <memory>
#include "gen.h"
#include "ref.h"
#include "sty.h"
namespace vf {
const char* kProperty = "C14";
const char* kRule =
    "Random strokes with stroke-end prediction, without loop mitigation. At random points Predict is "
    "compared (1) with the results a twin gives for an Up at the same position and time (smoothing "
    "off: bit-identical motion), and (2) with the end-of-stroke rule re-simulated towards the "
    "(reference-smoothed) current input from the last recorded tip state. Non-trivial: a non-empty "
    "prediction was checked.";
int DirectedCases() { return 0; }
std::vector<Floor> Floors() {
  return {{"twin.nonempty", 1000}, {"twin.empty", 100}, {"rule.nonempty", 2000}, {"rule.wobble", 500}, {"after_down", 300},
          {"halved", 200}, {"limit", 20}, {"stylus", 2000}, {"stylus.projected", 20000}};
}
void RunCase(uint64_t, Rng rng) {
  WorldOpts wo;
  wo.loop = kOff;
  wo.pred = kPredEnd;
  wo.wobble = rng.P(.6) ? kOff : kOn;
  wo.small_max = rng.P(.2);
  World w = GenWorld(rng, wo);
  SamplingParams& sp = w.p.sampling_params;
  if (rng.P(.4)) sp.end_of_stroke_stopping_distance *= rng.LogU(.03, 30);
  const bool wobble = w.p.wobble_smoother_params.is_enabled;
  Mon m("A");
  if (!m.ResetP(w.p).ok()) Die("valid params rejected");
  StrokeOpts so;
  so.very_long_moves = 600;
  so.max_dt_steps = std::min(30, sp.max_outputs_per_call);
  so.max_moves = 16;
  std::vector<Input> st = GenStroke(rng, w, so), hist;
  RefWobble wob;
  RefStylus sty;
  bool sty_known = true;
  std::vector<Smoothed> c;
  bool nt = false;
  Result last{};
  for (const Input& in : st) {
    if (in.event_type == EventType::kUp) break;
    Obs o = m.Update(in);
    if (!o.ok()) continue;
    hist.push_back(in);
    last = o.r.back();
    Observe(HashObs(o));
    if (in.event_type == EventType::kDown) {
      wob.Reset(w.p.wobble_smoother_params, in);
      c = {{V(in.position), 0}};
      sty.Reset(w.p.stylus_state_modeler_params);
    } else {
      c = wob.Update(in);
    }
    if (c.size() != 1) sty_known = false;
    sty.Update(c[0].p, c[0].tol, in.time.Value(), in.pressure, in.tilt, in.orientation);
    if (!rng.P(.35)) continue;
    Obs q = m.Predict();
    if (!q.ok()) Fail("status", "Predict failed: %s", q.message.c_str());
    if (in.event_type == EventType::kDown) {
      COUNT("after_down");
      for (const Result& r : q.r)
        if (r.position != in.position) Fail("after-down", "prediction before the first Move leaves the Down position: %s", Str(r).c_str());
    }
    // Stylus values come from the input so far.
    for (const Result& r : q.r) {
      float lo[3], hi[3];
      bool unknown[3] = {false, false, false};
      const float got[3] = {r.pressure, r.tilt, r.orientation};
      for (int f = 0; f < 3; ++f) {
        lo[f] = 1e30f, hi[f] = -1e30f;
        for (const Input& h : hist) {
          const float v = f == 0 ? h.pressure : f == 1 ? h.tilt : h.orientation;
          if (!(v >= 0)) unknown[f] = true;
          lo[f] = std::min(lo[f], v), hi[f] = std::max(hi[f], v);
        }
        COUNT("stylus");
        if (unknown[f] ? got[f] != -1 : f < 2 ? !(got[f] >= lo[f] * (1 - 1e-6f) && got[f] <= hi[f] * (1 + 1e-6f)) : !(got[f] >= 0 && got[f] <= 6.283186f))
          Fail("stylus", "predicted %s carries values that are not those of the input so far", Str(r).c_str());
      }
    }
    // More exactly, from where the tip projects to.
    double pt = in.time.Value();
    for (size_t i = 0; sty_known && i < q.r.size(); ++i) {
      const std::vector<Hit> hs = sty.Project(ToSt(q.r[i]), {q.r[i].time.Value() - pt});
      pt = q.r[i].time.Value();
      if (hs.empty()) continue;
      bool match = false;
      for (const Hit& h : hs) match |= sty.Matches(q.r[i], h);
      if (!match) Fail("stylus", "predicted result %zu %s carries stylus values that are not those of the input it projects to, e.g. %s", i, Str(q.r[i]).c_str(), sty.Expect(hs[0]).c_str());
      COUNT("stylus.projected");
    }
    // (2) the rule.
    std::string bad;
    bool ok = false;
    EosInfo info;
    for (const Smoothed& s : c) {
      info = EosInfo();
      bad = CheckEndOfStroke(w.p, ToSt(last), s.p, s.tol, std::min(sp.end_of_stroke_max_iterations, sp.max_outputs_per_call), q.r, &info);
      if (bad.empty()) { ok = true; break; }
    }
    if (!ok) Fail("rule", "after %s: %s", Str(in).c_str(), bad.c_str());
    if (info.halvings) COUNT("halved");
    if (!q.r.empty()) {
      COUNT("rule.nonempty");
      nt = true;
      if (wobble) COUNT("rule.wobble");
      if (q.r.size() == static_cast<size_t>(sp.max_outputs_per_call)) COUNT("limit");
    }
    // (1) the twin.
    if (wobble || !rng.P(.5)) continue;
    auto b = std::make_unique<Mon>("B");
    b->ResetP(w.p);
    for (const Input& h : hist) b->Update(h);
    Input up = in;
    up.event_type = EventType::kUp;
    Obs u = b->Update(up);
    if (!u.ok()) Fail("twin", "Up at the current position and time failed: %s", u.message.c_str());
    size_t n = LinearCount(up, u.r);
    std::vector<Result> tail(u.r.begin() + n, u.r.end());
    if (q.r.empty()) {
      COUNT("twin.empty");
      if (tail.size() > (n == 0 ? 1u : 0u)) Fail("twin", "prediction is empty, but an Up now gives %zu results", u.r.size());
      continue;
    }
    // With results up to the input's time (one, by the angle rule), fewer
    // attempts may remain for the end of the stroke.
    if (n > 0 && sp.max_outputs_per_call - static_cast<int>(n) < sp.end_of_stroke_max_iterations) continue;
    if (tail.size() != q.r.size()) Fail("twin", "Predict gives %zu results, an Up now gives %zu", q.r.size(), tail.size());
    for (size_t i = 0; i < tail.size(); ++i) {
      if (!SameMotion(tail[i], q.r[i]))
        Fail("twin", "result %zu: predicted %s, an Up now gives %s", i, Str(q.r[i]).c_str(), Str(tail[i]).c_str());
    }
    COUNT("twin.nonempty");
  }
  if (nt) NonTrivial();
}
}  // namespace vf
