// C16 / C17 share this trace checker; C17 includes this file.
#include "gen.h"
#include "sty.h"
namespace vf {
#ifndef VERIF_C17
constexpr bool kNormal = false;
const char* kProperty = "C16";
const char* kRule =
    "Random strokes with closest-point projection and pressure/tilt/orientation that vary, wrap "
    "around, jump, are missing or go missing (negative or NaN); the stylus values of every result "
    "and prediction must be those of an admissible closest point on the polyline of the last "
    "max_input_samples inputs, computed in double precision. Non-trivial: varying values were "
    "checked on a point determined to better than 5% of its segment.";
int DirectedCases() { return 0; }
std::vector<Floor> Floors() {
  return {{"checked", 20000}, {"sharp", 5000}, {"sharp.interior", 1000}, {"unknown", 1000}, {"predicted", 2000}, {"up", 1000},
          {"window_full", 3000}, {"orientation.wrap", 100}, {"single_sample", 200}, {"wobble", 2000}, {"repeated_point", 200}};
}
#endif
namespace {
struct Checker {
  const World& w;
  RefStylus sty;
  RefWobble wob;
  bool nt = false;
  bool strict_first = false;  // the first normal of a Move as documented
  explicit Checker(const World& world) : w(world) {}

  // False: disagreement, described in *why.
  bool Check(const Result& r, const std::vector<double>& dts, const char* what, size_t i, std::string* why) {
    std::vector<Hit> hs = sty.Project(ToSt(r), dts);
    if (hs.empty()) { COUNT("undetermined"); return true; }
    bool ok = false;
    for (const Hit& h : hs) ok |= sty.Matches(r, h);
    if (!ok) {
      *why = Sf("%s result %zu carries p=%.9g tilt=%.9g ori=%.9g; admissible:", what, i, r.pressure, r.tilt, r.orientation);
      for (size_t k = 0; k < hs.size() && k < 6; ++k) *why += " " + sty.Expect(hs[k]);
      *why += Sf(" unknown=%d%d%d", sty.unknown[0], sty.unknown[1], sty.unknown[2]);
      return false;
    }
    COUNT("checked");
    if (sty.saw_both_sides) COUNT("both_sides");
    if (sty.saw_none) COUNT("neither_side");
    if (sty.saw_closest_fallback) COUNT("no_normal");
    if (hs.size() == 1) {
      const Hit& h = hs[0];
      if (h.hi - h.lo < .05) {
        COUNT("sharp");
        if (h.seg >= 0 && h.lo > .02 && h.hi < .98) COUNT("sharp.interior");
        if (h.seg >= 0 && !(sty.unknown[0] && sty.unknown[1] && sty.unknown[2])) nt = true;
        if (h.seg >= 0 && !sty.unknown[2] && std::abs(sty.pts[h.seg].st[2] - sty.pts[h.seg + 1].st[2]) > kPiD) COUNT("orientation.wrap");
      }
      if (h.seg < 0) COUNT("single_sample");
    }
    if (sty.unknown[0] || sty.unknown[1] || sty.unknown[2]) COUNT("unknown");
    return true;
  }
  void Run(Mon& m, const std::vector<Input>& st, Rng& rng, double predict_p) {
    Result last{};
    std::optional<Input> prev;
    for (const Input& in : st) {
      Obs o = m.Update(in);
      if (!o.ok()) continue;
      Observe(HashObs(o));
      if (in.event_type == EventType::kDown) {
        sty.Reset(w.p.stylus_state_modeler_params);
        wob.Reset(w.p.wobble_smoother_params, in);
        sty.Update(V(in.position), 0, in.time.Value(), in.pressure, in.tilt, in.orientation);
        last = o.r.at(0);
        if (!SameF(last.pressure, in.pressure) || !SameF(last.tilt, in.tilt) || !SameF(last.orientation, in.orientation))
          Fail("down", "Down result carries p=%.9g tilt=%.9g ori=%.9g", last.pressure, last.tilt, last.orientation);
      } else {
        Smoothed c{V(in.position), 0};
        if (in.event_type == EventType::kMove) {
          std::vector<Smoothed> cs = wob.Update(in);
          if (cs.size() != 1) { COUNT("smoothing_ambiguous"); return; }
          c = cs[0];
        }
        sty.Update(c.p, c.tol, in.time.Value(), in.pressure, in.tilt, in.orientation);
        if (prev && prev->position == in.position) COUNT("repeated_point");
        if (!kNormal && sty.pts.size() == static_cast<size_t>(w.p.stylus_state_modeler_params.max_input_samples)) COUNT("window_full");
        if (w.p.wobble_smoother_params.is_enabled) COUNT("wobble");
        if (in.event_type == EventType::kUp) COUNT("up");
        double pt = prev->time.Value();
        for (size_t i = 0; i < o.r.size(); ++i) {
          std::vector<double> dts{o.r[i].time.Value() - pt};
          std::string why;
          // Known finding (C17): the first result of a Move uses the new
          // input's time as the previous time.
          if (i == 0 && in.event_type == EventType::kMove && !strict_first) dts.push_back(o.r[i].time.Value() - in.time.Value());
          if (!Check(o.r[i], dts, EventName(in), i, &why)) {
            if (strict_first && i == 0) { Finding("first-result-normal", "%s", why.c_str()); return; }
            Fail("stylus", "%s", why.c_str());
          }
          pt = o.r[i].time.Value();
        }
        last = o.r.back();
      }
      prev = in;
      if (in.event_type == EventType::kUp) return;
      if (rng.P(predict_p)) {
        Obs q = m.Predict();
        double pt = in.time.Value();
        for (size_t i = 0; i < q.r.size(); ++i) {
          std::string why;
          if (!Check(q.r[i], {q.r[i].time.Value() - pt}, "predicted", i, &why)) Fail("stylus-predict", "%s", why.c_str());
          COUNT("predicted");
          pt = q.r[i].time.Value();
        }
      }
    }
  }
  static const char* EventName(const Input& in) { return in.event_type == EventType::kMove ? "Move" : "Up"; }
};
}  // namespace
#ifndef VERIF_C17
void RunCase(uint64_t, Rng rng) {
  WorldOpts wo;
  wo.loop = kOff;
  wo.normal = kOff;
  wo.wobble = rng.P(.7) ? kOff : kOn;
  wo.dyadic = rng.P(.1);
  World w = GenWorld(rng, wo);
  Mon m("A");
  if (!m.ResetP(w.p).ok()) Die("valid params rejected");
  bool nt = false;
  for (int s = rng.I(1, 2); s > 0; --s) {
    StrokeOpts so;
    so.max_dt_steps = 30;
    if (rng.P(.6)) so.stylus_style = rng.Pick({kSFull, kSJumpy, kSWrap, kSDrop});
    Checker c(w);
    c.Run(m, GenStroke(rng, w, so), rng, .25);
    nt |= c.nt;
    m.Reset0();
  }
  if (nt) NonTrivial();
}
#endif
}  // namespace vf
