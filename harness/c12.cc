// C12: wobble smoothing averages slow input and leaves fast input alone.
#include "gen.h"
#include "ref.h"
namespace vf {
const char* kProperty = "C12";
const char* kRule =
    "Random strokes without loop mitigation (slow, fast and mixed speeds, pauses, coincident inputs, "
    "samples exactly on the window's edge, long strokes); the anchor recovered from each recorded "
    "result is compared with a reference smoother recomputed from scratch in double precision. "
    "Non-trivial: an anchor was checked that lies strictly between the average and the raw "
    "position or is the average of several inputs.";
int DirectedCases() { return 2; }
std::vector<Floor> Floors() {
  return {{"anchors", 20000}, {"ratio.zero", 1000}, {"ratio.one", 1000}, {"ratio.between", 1000}, {"disabled", 500},
          {"up", 300}, {"window.many", 3000}, {"after_pause", 100}, {"after_coincident", 100}, {"edge_cases", 50}};
}
namespace {
bool CheckStroke(const World& w, Mon& m, const std::vector<Input>& st) {
  const PositionModelerParams& pm = w.p.position_modeler_params;
  RefWobble ref;
  std::vector<Smoothed> c_prev, c_new;
  Result last{};
  std::optional<Input> prev;
  bool nt = false, coincident_before = false;
  for (const Input& in : st) {
    Obs o = m.Update(in);
    if (!o.ok()) continue;
    Observe(HashObs(o));
    if (in.event_type == EventType::kDown) {
      ref.Reset(w.p.wobble_smoother_params, in);
      c_prev = {{V(in.position), 0}};
      last = o.r.at(0);
      prev = in;
      continue;
    }
    if (in.event_type == EventType::kUp) c_new = {{V(in.position), 0}};
    else c_new = ref.Update(in);
    size_t n = LinearCount(in, o.r);
    St from = ToSt(last);
    const bool coincident = in.time.Value() == prev->time.Value();
    if (coincident && (n == 0 || SameMotion(o.r[0], last))) {
      n = 0;
      coincident_before = true;
    }
    for (size_t i = 0; i < n; ++i) {
      St to = ToSt(o.r[i]);
      if (!SaneState(from) || !SaneState(to)) { COUNT("overflow_skipped"); return nt; }
      Anchor a = RecoverAnchor(from, to, pm);
      const double fr = double(i + 1) / n;
      bool ok = false;
      double best = 1e300, best_tol = 0;
      D2 best_p;
      for (const Smoothed& p : c_prev)
        for (const Smoothed& q : c_new) {
          D2 want = p.p + (q.p - p.p) * fr;
          double tol = a.tol + p.tol * (1 - fr) + q.tol * fr + 6 * kEps * (Len(p.p) + Len(q.p));
          double d = Dist(a.p, want);
          if (d <= tol) ok = true;
          if (d < best) best = d, best_p = want, best_tol = tol;
        }
      if (!ok)
        Fail("anchor", "result %zu of %zu of %s is pulled towards (%.9g,%.9g), reference smoothing gives (%.9g,%.9g) (tolerance %.3g)",
             i, n, Str(in).c_str(), a.p.x, a.p.y, best_p.x, best_p.y, best_tol);
      COUNT("anchors");
      from = to;
    }
    if (n) {
      if (in.event_type == EventType::kUp) COUNT("up");
      else if (!w.p.wobble_smoother_params.is_enabled) COUNT("disabled");
      else {
        double r = ref.last_ratio;
        if (r == 0) { COUNT("ratio.zero"); if (ref.last_window > 1) nt = true; }
        else if (r == 1) COUNT("ratio.one");
        else if (r > 0) { COUNT("ratio.between"); nt = true; }
        if (ref.last_window > 2) COUNT("window.many");
        if (c_new.size() > 1) COUNT("ambiguous");
        if (in.time.Value() - prev->time.Value() > 20 / w.rate_in * w.tu) COUNT("after_pause");
        if (coincident_before) COUNT("after_coincident");
        double q = w.p.wobble_smoother_params.timeout.Value();
        if (w.dyadic && c_new.size() == 1 && std::fmod(in.time.Value() - st[0].time.Value(), q) == 0) COUNT("edge_cases");
      }
      last = o.r[n - 1];
      coincident_before = false;
    }
    c_prev = c_new;
    prev = in;
    if (in.event_type == EventType::kUp) break;
  }
  return nt;
}
}  // namespace
void RunCase(uint64_t index, Rng rng) {
  WorldOpts wo;
  wo.loop = kOff;
  wo.normal = kOff;
  wo.angle = rng.P(.2) ? kAny : kOff;
  wo.wobble = rng.P(.9) ? kOn : kOff;
  wo.dyadic = rng.P(.25);
  World w = GenWorld(rng, wo);
  if (index < 2) {
    // A pause followed by slow drawing far from the origin: nothing of the
    // pause may remain.
    w = World{};
    w.p.wobble_smoother_params = {.is_enabled = true, .timeout = Duration(.04), .speed_floor = 1.31f, .speed_ceiling = 1.44f};
    w.p.sampling_params = {.min_output_rate = 180, .end_of_stroke_stopping_distance = .001f};
    Mon m("A");
    m.ResetP(w.p);
    std::vector<Input> st{In(EventType::kDown, 1000, 1000, 0)};
    double t = 0;
    for (int i = 0; i < 40; ++i) {
      t += i % 10 == 5 ? (index ? 300 : 20) : .005;
      st.push_back(In(EventType::kMove, 1000 + i * .003, 1000 - i * .001, t));
    }
    CheckStroke(w, m, st);
    NonTrivial();
    return;
  }
  Mon m("A");
  if (!m.ResetP(w.p).ok()) Die("valid params rejected");
  bool nt = false;
  for (int s = rng.I(1, 2); s > 0; --s) {
    StrokeOpts so;
    so.max_dt_steps = rng.P(.1) ? 2000 : 60;
    so.max_moves = rng.P(.05) ? 300 : 30;
    if (rng.P(.15)) so.time_style = kTPause;
    nt |= CheckStroke(w, m, GenStroke(rng, w, so));
    m.Reset0();
  }
  if (nt) NonTrivial();
}
}  // namespace vf
