// C18: loop mitigation blends towards the raw input by recent speed.
#include <algorithm>
#include <deque>
#include "gen.h"
#include "ref.h"
namespace vf {
const char* kProperty = "C18";
const char* kRule =
    "Twins with and without mitigation on the same stroke. The pressure of input k is (k+1)/128, so the "
    "mitigation-free twin's results tell which point of the input polyline each tip state projects to. Every "
    "mitigated result and prediction must be the blend of the twin's result with that point (position, velocity, "
    "acceleration) by the share recomputed from the recorded speeds of the results before it; times, counts and "
    "stylus values must be the twin's. With mitigation off, its parameters must not matter at all. Non-trivial: a "
    "result with a share well below 1 and a projection well away from the tip was checked.";
int DirectedCases() { return 0; }
std::vector<Floor> Floors() {
  return {{"checked", 100000}, {"predicted", 20000}, {"up", 5000}, {"share.one", 3000}, {"share.between", 20000}, {"share.zero", 1000}, {"ratio.between", 10000},
          {"window.full", 10000}, {"window.min_samples", 3000}, {"window.all", 3000}, {"sharp", 20000}, {"wobble", 5000}, {"off", 5000}, {"equal_bounds", 200}, {"bare", 20000}, {"long", 30}};
}
namespace {
struct Pt {
  D2 p, v, a;
  double tp = 0, tv = 0, ta = 0, t = 0;
};
struct Share {
  double lo, hi;
};
struct Speeds {
  struct S {
    double speed, t;
  };
  const PositionModelerParams::LoopContractionMitigationParameters* p;
  std::deque<S> code;  // what the implementation keeps
  std::vector<S> all;
  bool full = false, by_min = false;
  void Add(const Result& r) { all.push_back({Len(V(r.velocity)), r.time.Value()}); }
  // Candidate window starts.
  std::vector<Share> Shares() {
    full = by_min = false;
    if (all.empty()) return {{1, 1}};
    std::set<size_t> starts;
    const size_t n = all.size(), m = std::min<size_t>(n, p->min_discrete_speed_samples);
    const double win = p->min_speed_sampling_window.Value();
    const double slack = 1e-15 * (std::abs(all.back().t) + std::abs(all[0].t) + win);
    // The largest window that spans at most the duration (but has enough
    // samples), or the smallest that spans at least the duration.
    size_t i = n - 1;
    for (double sl : {-slack, 0., slack}) {
      for (i = n - 1; i > 0 && all.back().t - all[i - 1].t <= win + sl; --i) {}
      starts.insert(std::min(i, n - m));
      if (n - m < i) by_min = true;
      if (i > 0) full = true;
      if (i > 0 && all.back().t - all[i].t < win + sl) starts.insert(std::min(i - 1, n - m));
    }
    std::vector<Share> out;
    const double lo = p->speed_lower_bound, hi = p->speed_upper_bound;
    const double sl = p->interpolation_strength_at_speed_lower_bound, su = p->interpolation_strength_at_speed_upper_bound;
    for (size_t s : starts) {
      double sum = 0;
      for (size_t k = s; k < n; ++k) sum += all[k].speed;
      const double avg = sum / (n - s), err = (n - s + 4) * kEps * avg;
      if (hi == lo) {
        out.push_back({sl, sl});
        out.push_back({su, su});
        continue;
      }
      auto share = [&](double v) {
        const double r = std::clamp((v - lo) / (hi - lo), 0., 1.);
        return sl + (su - sl) * r;
      };
      const double e2 = err + 2 * kEps * (avg + lo + hi);
      out.push_back({std::max(0., share(avg + e2) - 2e-7), std::min(1., share(avg - e2) + 2e-7)});
    }
    return out;
  }
};
bool Between(D2 got, D2 a, D2 b, const Share& s, double tol) {
  // got == a + (b - a) * w for some w in s?
  const D2 d = b - a;
  const double l2 = Dot(d, d);
  double w = l2 > 0 ? Dot(got - a, d) / l2 : s.lo;
  w = std::clamp(w, s.lo, s.hi);
  return Dist(got, a + d * w) <= tol + 4 * kEps * (Len(a) + Len(b)) + 1e-37;
}
struct Checker {
  const World& w;
  Mon &a, &b, &c;
  std::vector<Pt> pts;
  Speeds sp;
  bool nt = false, wobble = false;
  bool Check(const char* call, const Input& in, const Obs& x, const Obs& y, Speeds* speeds) {
    if (x.code != y.code) Fail("status", "%s: %s with mitigation, %s without", call, x.message.c_str(), y.message.c_str());
    if (!x.ok()) return true;
    if (x.r.size() != y.r.size()) Fail("count", "%s after %s: %zu results with mitigation, %zu without", call, Str(in).c_str(), x.r.size(), y.r.size());
    for (size_t i = 0; i < x.r.size(); ++i) {
      const Result &r = x.r[i], &m = y.r[i];
      if (!FiniteResult(r) || !FiniteResult(m) || !SaneState(ToSt(r)) || !SaneState(ToSt(m))) { COUNT("insane"); return false; }
      if (r.time.Value() != m.time.Value()) Fail("time", "%s result %zu: %s; without mitigation %s", call, i, Str(r).c_str(), Str(m).c_str());
      auto close = [](float u, float v) { return std::abs(u - v) <= 1e-6f * (1 + std::abs(v)); };
      if (!close(r.pressure, m.pressure) || !close(r.tilt, m.tilt) || !(close(r.orientation, m.orientation) || AngleDiff(r.orientation, m.orientation) < 3e-6))
        Fail("stylus", "%s result %zu: %s; without mitigation %s", call, i, Str(r).c_str(), Str(m).c_str());
      // Where on the polyline?
      const double idx = std::clamp(m.pressure * 128. - 1, 0., double(pts.size() - 1));
      const double de = 3e-5 * std::max(1., pts.size() / 128.);
      size_t s = std::min(static_cast<size_t>(idx), pts.size() - 1);
      const double f = idx - s;
      const size_t e = std::min(s + 1, pts.size() - 1);
      D2 pp = pts[s].p + (pts[e].p - pts[s].p) * f, pv = pts[s].v + (pts[e].v - pts[s].v) * f, pa = pts[s].a + (pts[e].a - pts[s].a) * f;
      double tp = 0, tv = 0, ta = 0;
      // Neighbouring segments, for projections at the joints.
      for (size_t k = s > 0 ? s - 1 : 0; k <= e + 1 && k < pts.size(); ++k) {
        if ((k < s && f > de) || (k > e && f < 1 - de)) continue;
        tp = std::max({tp, Dist(pts[k].p, pp) * de, pts[k].tp});
        tv = std::max({tv, Dist(pts[k].v, pv) * de, pts[k].tv});
        ta = std::max({ta, Dist(pts[k].a, pa) * de, pts[k].ta});
      }
      const D2 mp = V(m.position), mv = V(m.velocity), ma = V(m.acceleration);
      const std::vector<Share> shares = speeds->Shares();
      bool ok = false;
      for (const Share& h : shares) {
        const double q = 1 - h.lo;
        if (Between(V(r.position), pp, mp, h, q * tp) && Between(V(r.velocity), pv, mv, h, q * tv) && Between(V(r.acceleration), pa, ma, h, q * ta)) ok = true;
        if (h.lo == 1 && SameMotion(r, m)) ok = true;
      }
      if (!ok)
        Fail("blend",
             "%s after %s, result %zu: %s; spring %s; projection %.6f on the polyline: pos=(%.9g,%.9g) v=(%.9g,%.9g) a=(%.9g,%.9g); spring's share should be %.7g..%.7g (%zu results before, %zu "
             "candidates)",
             call, Str(in).c_str(), i, Str(r).c_str(), Str(m).c_str(), idx, pp.x, pp.y, pv.x, pv.y, pa.x, pa.y, shares[0].lo, shares[0].hi, speeds->all.size(), shares.size());
      COUNT("checked");
      if (wobble) COUNT("wobble");
      if (call[0] == 'P') COUNT("predicted");
      else if (in.event_type == EventType::kUp) COUNT("up");
      const auto& lp = *speeds->p;
      if (lp.speed_lower_bound == lp.speed_upper_bound) COUNT("equal_bounds");
      if (!speeds->all.empty()) {
        if (speeds->by_min) COUNT("window.min_samples");
        else if (speeds->full) COUNT("window.full");
        else COUNT("window.all");
      }
      if (shares[0].lo == 1) COUNT("share.one");
      else if (shares[0].hi < 1e-6) COUNT("share.zero");
      else COUNT("share.between");
      const double su = lp.interpolation_strength_at_speed_upper_bound, sl = lp.interpolation_strength_at_speed_lower_bound;
      if (shares[0].lo > su + .02 && shares[0].hi < sl - .02) COUNT("ratio.between");
      if (shares[0].hi < .9 && Dist(pp, mp) * (1 - shares[0].hi) > 50 * tp + 1e-5 * (Len(mp) + Len(pp))) { COUNT("sharp"); nt = true; }
      speeds->Add(r);
    }
    return true;
  }
  void Run(std::vector<Input> st, Rng& rng) {
    sp.p = &w.p.position_modeler_params.loop_contraction_mitigation_params;
    const size_t most = rng.P(.1) ? 1500 : 120;
    if (st.size() > most) st.resize(most);
    if (st.size() > 200) COUNT("long");
    // The same stroke without (or soon without) stylus values moves alike.
    bool bare = rng.P(.1);
    Input before{};
    const size_t bare_from = rng.P(.5) ? 0 : rng.I(1, 12);
    RefWobble ref;
    for (size_t k = 0; k < st.size(); ++k) {
      Input in = st[k];
      in.pressure = (k + 1) / 128.f;
      Obs x = a.Update(in), y = b.Update(in);
      Observe(HashObs(x));
      if (x.code != y.code) Fail("status", "%s: %s with mitigation, %s without", Str(in).c_str(), x.message.c_str(), y.message.c_str());
      Input none = in;
      if (k >= bare_from) none.pressure = none.tilt = none.orientation = -1;
      if (k > 0 && none == before) bare = false;  // now a repeat
      before = none;
      if (bare) {
        Obs z = c.Update(none);
        COUNT("bare");
        if (x.code != z.code || x.r.size() != z.r.size()) Fail("bare", "%s: %zu results; %zu if the stylus values are unknown (%s)", Str(in).c_str(), x.r.size(), z.r.size(), z.message.c_str());
        for (size_t i = 0; i < x.r.size(); ++i)
          if (!SameMotion(x.r[i], z.r[i])) Fail("bare", "%s: result %zu is %s; %s if the stylus values are unknown", Str(in).c_str(), i, Str(x.r[i]).c_str(), Str(z.r[i]).c_str());
      }
      if (!x.ok()) return;
      D2 pos = V(in.position);
      double tol = 0;
      if (in.event_type == EventType::kDown) ref.Reset(w.p.wobble_smoother_params, in);
      else if (in.event_type == EventType::kMove) {
        std::vector<Smoothed> c = ref.Update(in);
        if (c.size() != 1) { COUNT("ambiguous"); return; }
        pos = c[0].p;
        tol = c[0].tol;
      }
      Pt q;
      q.p = pos;
      q.tp = tol;
      q.t = in.time.Value();
      if (!pts.empty() && q.t != pts.back().t) {
        const Pt& l = pts.back();
        const double dt = q.t - l.t;
        q.v = (q.p - l.p) * (1 / dt);
        q.tv = (tol + l.tp) / dt + 4 * kEps * Len(q.v);
        q.a = (q.v - l.v) * (1 / dt);
        q.ta = (q.tv + l.tv) / dt + 4 * kEps * Len(q.a);
      }
      // Subtracting positions in float is not exact.
      if (!pts.empty() && q.t != pts.back().t) {
        const double dt = q.t - pts.back().t, e = kEps * Dist(q.p, pts.back().p) + (tol > 0 ? 2 * kEps * Len(q.p) : 0);
        q.tv += 2 * e / dt;
        q.ta += 4 * e / dt / dt + 2 * kEps * (Len(q.v) + Len(pts.back().v)) / dt;
      }
      pts.push_back(q);
      if (in.event_type == EventType::kDown) {
        if (!Same(x.r, y.r)) Fail("down", "%s: %s with mitigation, %s without", Str(in).c_str(), Str(x.r.at(0)).c_str(), Str(y.r.at(0)).c_str());
        continue;
      }
      if (!Check("Update", in, x, y, &sp)) return;
      if (in.event_type == EventType::kUp) return;
      if (!rng.P(.3)) continue;
      Speeds copy = sp;
      if (!Check("Predict", in, a.Predict(), b.Predict(), &copy)) return;
    }
  }
};
}  // namespace
void RunCase(uint64_t, Rng rng) {
  WorldOpts wo;
  wo.loop = kOn;
  wo.normal = kOn;
  wo.wobble = rng.P(.75) ? kOff : kOn;
  wo.dyadic = rng.P(.15);
  World w = GenWorld(rng, wo);
  auto& lp = w.p.position_modeler_params.loop_contraction_mitigation_params;
  if (!lp.is_enabled) Die("no mitigation");
  if (rng.P(.4)) {
    // A share that depends on the speed throughout.
    lp.interpolation_strength_at_speed_lower_bound = 1;
    lp.interpolation_strength_at_speed_upper_bound = rng.P(.5) ? 0 : .3;
    lp.speed_lower_bound = 0;
    lp.speed_upper_bound = w.speed / w.tu * rng.U(.5, 4);
  }
  if (rng.P(.3)) lp.min_speed_sampling_window = Duration(rng.U(.5, 12) / w.p.sampling_params.min_output_rate);
  World v = w;
  auto& lv = v.p.position_modeler_params.loop_contraction_mitigation_params;
  lv.is_enabled = false;
  if (rng.P(.5)) lv = {};
  Mon a("A"), b("B"), bare("C");
  const bool off = rng.P(.04);
  if (off) lp.is_enabled = false;
  if (!a.ResetP(w.p).ok() || !b.ResetP(v.p).ok() || !bare.ResetP(w.p).ok()) Die("valid params rejected");
  bool nt = false;
  for (int s = rng.I(1, 2); s > 0; --s) {
    StrokeOpts so;
    so.max_dt_steps = 30;
    so.stylus_style = rng.Pick({kSFull, kSFull, kSJumpy, kSWrap, kSNone, kSPartial});
    std::vector<Input> st = GenStroke(rng, w, so);
    if (off) {
      for (const Input& in : st) {
        Obs x = a.Update(in), y = b.Update(in);
        if (x.code != y.code || !Same(x.r, y.r)) Fail("off", "%s: parameters of the disabled mitigation matter", Str(in).c_str());
        COUNT("off");
        Obs px = a.Predict(), py = b.Predict();
        if (px.code != py.code || !Same(px.r, py.r)) Fail("off", "Predict after %s: parameters of the disabled mitigation matter", Str(in).c_str());
      }
      nt = true;
    } else {
      Checker c{w, a, b, bare};
      c.wobble = w.p.wobble_smoother_params.is_enabled;
      c.Run(st, rng);
      nt |= c.nt;
    }
    a.Reset0();
    b.Reset0();
    bare.Reset0();
  }
  if (nt) NonTrivial();
}
}  // namespace vf
