// C15: Kalman prediction: estimate, connect, extend by confidence.
#include <algorithm>
#include <array>
#include "gen.h"
#include "ref.h"
namespace vf {
const char* kProperty = "C15";
const char* kRule =
    "Random strokes and Kalman configurations without loop mitigation. Every prediction is compared point by point "
    "with a reference that is recomputed in double precision from the (reference-smoothed) inputs: constant-jerk "
    "filter per axis, scaling by the average interval, cubic connector from the last recorded tip state, cubic "
    "extension; its length must be one that the four heuristics allow under interval arithmetic. Non-trivial: a "
    "prediction with a connector and an extension was checked.";
int DirectedCases() { return 0; }
std::vector<Floor> Floors() {
  return {{"checked", 20000}, {"empty.unstable", 5000}, {"connector", 20000}, {"connector.many", 5000}, {"connector.thousands", 300}, {"extension", 20000}, {"ext.none", 1000}, {"ext.partial", 5000}, {"ext.full", 1000},
          {"count.certain", 10000}, {"limit", 300}, {"f.samples", 2000}, {"f.distance", 3000}, {"f.speed", 2000}, {"f.linearity", 3000}, {"time_window_full", 3000}, {"wobble", 2000},
          {"catchup_speed", 300}, {"fractional_interval", 2000}, {"second_stroke", 3000}, {"exactly_stable", 2000}};
}
namespace {
// One axis. Also tracks how much each input contributes to the estimate, and
// how far rounding moves the estimate (by randomly perturbed double precision
// copies: the covariance update is ill-conditioned for small noises).
template <typename T>
struct Filter {
  using V4 = std::array<T, 4>;
  using M4 = std::array<V4, 4>;
  T q, r;
  uint64_t noise = 0;  // 0: none
  V4 x{};
  M4 P{};
  int n = 0;
  V4 k{};
  T N(T v) {
    if (!noise) return v;
    noise = Mix(noise);
    return v * (1 + ((noise & 1) ? 1 : -1) * T(1.2e-16) * ((noise >> 1) & 1));
  }
  static V4 Step(const V4& s) { return V4{s[0] + s[1] + s[2] / 2 + s[3] / 6, s[1] + s[2] + s[3] / 2, s[2] + s[3], s[3]}; }
  void Update(T z) {
    if (n++ == 0) {
      x = {z, 0, 0, 0};
      for (int i = 0; i < 4; ++i) P[i][i] = 1;
      return;
    }
    x = Step(x);
    // F P F' + Q
    M4 A;
    for (int j = 0; j < 4; ++j) {
      V4 c = Step({P[0][j], P[1][j], P[2][j], P[3][j]});
      for (int i = 0; i < 4; ++i) A[i][j] = N(c[i]);
    }
    const V4 v{T(1) / 6, T(.5), 1, 1};
    for (int i = 0; i < 4; ++i) {
      V4 c = Step(A[i]);
      for (int j = 0; j < 4; ++j) P[i][j] = N(c[j] + q * v[i] * v[j]);
    }
    const T s = P[0][0] + r;
    for (int i = 0; i < 4; ++i) k[i] = N(P[i][0] / s);
    const T y = N(z - x[0]);
    for (int i = 0; i < 4; ++i) x[i] = N(x[i] + k[i] * y);
    // (I - K H) P (I - K H)' + K R K'
    M4 B;
    const T c0 = N(1 - k[0]);
    for (int j = 0; j < 4; ++j) {
      B[0][j] = N(c0 * P[0][j]);
      for (int i = 1; i < 4; ++i) B[i][j] = N(P[i][j] - N(k[i] * P[0][j]));
    }
    for (int i = 0; i < 4; ++i) {
      P[i][0] = N(B[i][0] * c0 + N(k[i] * k[0] * r));
      for (int j = 1; j < 4; ++j) P[i][j] = N(N(B[i][j] - N(B[i][0] * k[j])) + N(k[i] * k[j] * r));
    }
  }
};
struct Axis {
  Axis(double q, double r, uint64_t seed) : f{q, r} {
    for (int i = 0; i < 4; ++i) rough.push_back({q, r, Mix(seed, i) | 1});
  }
  Filter<long double> f;
  std::vector<Filter<double>> rough;
  int n = 0;
  struct Gain {
    std::array<long double, 4> g;
    double tol;
  };
  std::vector<Gain> gains;
  double X(int i) const { return f.x[i]; }
  void Update(double z, double tol) {
    tol += 1e-14 * std::abs(z);
    ++n;
    f.Update(z);
    for (auto& r : rough) r.Update(z);
    for (Gain& g : gains) {
      auto h = f.Step(g.g);
      for (int i = 0; i < 4; ++i) g.g[i] = h[i] - f.k[i] * h[0];
    }
    if (n == 1) gains.push_back({{1, 0, 0, 0}, tol});
    else gains.push_back({f.k, tol});
  }
  double Err(int i) const {
    double e = 0;
    for (const Gain& g : gains) e += std::abs(double(g.g[i])) * g.tol;
    double d = 0;
    for (const auto& r : rough) d = std::max(d, std::abs(double(r.x[i] - f.x[i])));
    return e + 20 * d;
  }
};
struct Rg {
  double lo, hi;
};
Rg Norm01(double a, double b, double v, double e) {
  if (a == b) return {v - e > a ? 1. : 0., v + e > a ? 1. : 0.};
  auto f = [&](double u) { return std::clamp((u - a) / (b - a), 0., 1.); };
  const double d = 1e-6 * 1;
  return {std::max(0., f(v - e) - (f(v - e) < 1 ? d : 0)), std::min(1., f(v + e) + (f(v + e) > 0 ? d : 0))};
}
struct Est {
  D2 p, v, a, j;
  double ep, ev, ea, ej;
};
}  // namespace
void RunCase(uint64_t, Rng rng) {
  WorldOpts wo;
  wo.loop = kOff;
  wo.pred = kPredKalman;
  wo.wobble = rng.P(.8) ? kOff : kOn;
  wo.small_max = rng.P(.1);
  World w = GenWorld(rng, wo);
  SamplingParams& sp = w.p.sampling_params;
  KalmanPredictorParams* k = std::get_if<KalmanPredictorParams>(&w.p.prediction_params);
  if (!k) Die("no Kalman predictor");
  auto& cp = k->confidence_params;
  if (rng.P(.3)) k->prediction_interval = Duration(rng.U(.3, 15) / sp.min_output_rate);
  if (rng.P(.3)) cp.max_estimation_distance *= 30;
  if (rng.P(.3)) cp.max_travel_speed *= .1, cp.min_travel_speed *= .1;
  if (rng.P(.2)) k->min_catchup_velocity = w.speed / w.tu * rng.LogU(.1, 10);
  if (rng.P(.3)) cp.baseline_linearity_confidence = rng.P(.5) ? 0 : 1;
  // A tip left far behind by a pen that rests: it takes thousands of points to
  // reach the estimate.
  const bool left = rng.P(.03);
  if (left) {
    w.p.position_modeler_params.spring_mass_constant *= static_cast<float>(rng.LogU(10, 1e5));
    k->min_catchup_velocity *= static_cast<float>(rng.LogU(1e-5, 1));
    sp.max_outputs_per_call = std::min(sp.max_outputs_per_call, rng.I(100, 3000));
  }
  const bool wobble = w.p.wobble_smoother_params.is_enabled;
  Mon m("A");
  if (!m.ResetP(w.p).ok()) Die("valid params rejected");
  bool nt = false;
  const int strokes = rng.I(1, 2);
  for (int s = 0; s < strokes; ++s) {
    StrokeOpts so;
    so.very_long_moves = 3000;
    so.max_dt_steps = std::min(30, sp.max_outputs_per_call);
    so.min_moves = 3;
    so.max_moves = rng.P(.2) ? 60 : 25;
    if (rng.P(.5)) so.jumps = false;
    std::vector<Input> st = GenStroke(rng, w, so);
    if (left)
      for (size_t i = st.size() / 3 + 1; i < st.size(); ++i) st[i].position = st[i - 1].position;
    RefWobble wob;
    Axis ax(k->process_noise, k->measurement_noise, rng.Next()), ay(k->process_noise, k->measurement_noise, rng.Next());
    std::vector<double> times;
    Result last{};
    m.Reset0();
    for (const Input& in : st) {
      if (in.event_type == EventType::kUp) break;
      Obs o = m.Update(in);
      if (!o.ok()) continue;
      Observe(HashObs(o));
      last = o.r.back();
      Smoothed c{V(in.position), 0};
      if (in.event_type == EventType::kDown) {
        wob.Reset(w.p.wobble_smoother_params, in);
      } else {
        std::vector<Smoothed> cs = wob.Update(in);
        if (cs.size() != 1) { COUNT("ambiguous"); break; }
        c = cs[0];
      }
      ax.Update(c.p.x, c.tol);
      ay.Update(c.p.y, c.tol);
      times.push_back(in.time.Value());
      if (!rng.P(.5)) continue;
      Obs q = m.Predict();
      if (!q.ok()) Fail("status", "Predict failed: %s", q.message.c_str());
      if (ax.n < k->min_stable_iteration) {
        COUNT("empty.unstable");
        if (!q.r.empty()) Fail("unstable", "%zu results predicted after %d inputs; at least %d are required", q.r.size(), ax.n, k->min_stable_iteration);
        continue;
      }
      const size_t nt_ = std::min<size_t>(times.size(), k->max_time_samples);
      const double span = times.back() - times[times.size() - nt_];
      const double dt = span / nt_;
      if (dt == 0) {
        COUNT("empty.no_time");
        if (!q.r.empty()) Fail("no-time", "%zu results predicted although the recent inputs span no time", q.r.size());
        continue;
      }
      if (dt * dt * dt < 1e-33 || !SaneState(ToSt(last))) { COUNT("insane"); continue; }
      Est e;
      const double aw = k->acceleration_weight, jw = k->jerk_weight;
      e.p = {ax.X(0), ay.X(0)};
      e.v = D2{ax.X(1), ay.X(1)} * (1 / dt);
      e.a = D2{ax.X(2), ay.X(2)} * (aw / dt / dt);
      e.j = D2{ax.X(3), ay.X(3)} * (jw / dt / dt / dt);
      e.ep = std::hypot(ax.Err(0), ay.Err(0)) + 2 * kEps * Len(e.p);
      e.ev = std::hypot(ax.Err(1), ay.Err(1)) / dt + 6 * kEps * Len(e.v);
      e.ea = std::hypot(ax.Err(2), ay.Err(2)) * std::abs(aw) / dt / dt + 10 * kEps * Len(e.a);
      e.ej = std::hypot(ax.Err(3), ay.Err(3)) * std::abs(jw) / dt / dt / dt + 14 * kEps * Len(e.j);
      // Must also be representable before the weights.
      if (Len(e.v) > 1e15 || Len({ax.X(2), ay.X(2)}) / dt / dt > 1e30 || Len({ax.X(3), ay.X(3)}) / dt / dt / dt > 1e30) { COUNT("insane"); continue; }
      bool insane = false;
      for (const Result& r : q.r) insane |= !SaneState(ToSt(r));
      if (insane) { COUNT("insane"); continue; }
      const double d = 1 / sp.min_output_rate, I = k->prediction_interval.Value();
      // Length of the connector.
      const St tip = ToSt(last);
      const double dist = Dist(tip.s, e.p), edist = e.ep + 3 * kEps * (dist + Len(tip.s) + Len(e.p));
      const double vt = Len(tip.v), vm = std::max({vt, Len(e.v), double(k->min_catchup_velocity)}), evm = e.ev + 3 * kEps * vm;
      if (vm <= evm) { COUNT("insane"); continue; }
      const double x_lo = std::max(0., dist - edist) / (vm + evm) / d * (1 - 6 * kEps), x_hi = (dist + edist) / (vm - evm) / d * (1 + 6 * kEps);
      if (x_hi > 1e6 || x_hi - x_lo > 8) { COUNT("wide"); continue; }
      const int nc_lo = std::max(1., std::ceil(x_lo)), nc_hi = std::max(1., std::ceil(x_hi));
      // Length of the extension.
      const double f1 = std::min(1., double(ax.n) / cp.desired_number_of_samples);
      const double err = Dist(c.p, e.p);
      const Rg n2 = Norm01(0, cp.max_estimation_distance, err, c.tol + e.ep + 3 * kEps * (Len(c.p) + Len(e.p)));
      const D2 bend = e.a * (I * I / 2) + e.j * (I * I * I / 6);
      const double mag = Len(e.p) + Len(e.v) * I + Len(e.a) * I * I / 2 + Len(e.j) * I * I * I / 6;
      const double ebend = e.ea * I * I / 2 + e.ej * I * I * I / 6;
      const double eend = e.ep + e.ev * I + ebend + 10 * kEps * mag;
      const Rg n3 = Norm01(cp.min_travel_speed, cp.max_travel_speed, Len(e.v * I + bend) / I, eend / I);
      const Rg n4 = Norm01(0, cp.max_linear_deviation, Len(bend), ebend + 2 * e.ep + 2 * e.ev * I + 14 * kEps * mag);
      const double base = cp.baseline_linearity_confidence;
      const double c_lo = f1 * (1 - n2.hi) * n3.lo * (base + (1 - base) * (1 - n4.hi)), c_hi = f1 * (1 - n2.lo) * n3.hi * (base + (1 - base) * (1 - n4.lo));
      const double target = I * sp.min_output_rate;
      const double np_lo = std::min(std::ceil(target * c_lo * (1 - 1e-6) - 1e-9), std::floor(target * (1 - 1e-6)));
      const double np_hi = std::min(std::ceil(target * c_hi * (1 + 1e-6)), std::floor(target * (1 + 1e-6)));
      const int max_out = sp.max_outputs_per_call;
      // Does the prediction fit?
      std::string why;
      bool ok = false;
      const int n = q.r.size();
      int nc_ok = 0;
      for (int nc = nc_lo; nc <= nc_hi && !ok; ++nc) {
        const int c_out = std::min(nc, max_out);
        const double rem = max_out - c_out;
        const double ext = n - c_out;
        why.clear();
        if (ext < std::min(np_lo, rem) || ext > std::min(np_hi, rem)) {
          why = Sf("%d results; expected %d (%d..%d) to reach the estimate and %g..%g beyond (confidence %.6g..%.6g of %.9g; factors %.6g, %.6g, %.6g, %.6g), at most %d in all", n, nc, nc_lo, nc_hi, np_lo, np_hi,
                   c_lo, c_hi, target, f1, 1 - n2.lo, n3.lo, base + (1 - base) * (1 - n4.lo), max_out);
          continue;
        }
        const double T = nc * d;
        const D2 ca = tip.s * 2 - e.p * 2 + (tip.v + e.v) * T, cb = e.p * 3 - tip.s * 3 - (tip.v * 2 + e.v) * T, cc = tip.v * T;
        const double E = 24 * kEps * (Len(tip.s) + Len(e.p) + (vt + Len(e.v)) * T) + 3 * e.ep + 2 * e.ev * T;
        for (int i = 0; i < n && why.empty(); ++i) {
          const Result& r = q.r[i];
          D2 wp, wv, wa;
          double wt, tp, tv, ta;
          if (i < c_out) {
            const double u = double(i + 1) / nc;
            wp = ca * (u * u * u) + cb * (u * u) + cc * u + tip.s;
            wv = (ca * (3 * u * u) + cb * (2 * u) + cc) * (1 / T);
            wa = (ca * (6 * u) + cb * 2) * (1 / T / T);
            wt = tip.t + T * u;
            tp = E, tv = 6 * E / T, ta = 16 * E / T / T;
          } else {
            const int kx = i - c_out + 1;
            const double u = kx * d;
            wp = e.p + e.v * u + e.a * (u * u / 2) + e.j * (u * u * u / 6);
            wv = e.v + e.a * u + e.j * (u * u / 2);
            wa = e.a + e.j * u;
            wt = tip.t + T + u;
            const double M1 = Len(e.v) * u + Len(e.a) * u * u + Len(e.j) * u * u * u;
            tp = e.ep + e.ev * u + e.ea * u * u + e.ej * u * u * u + (4 + 2 * kx) * kEps * (Len(e.p) + M1) + 8 * kEps * M1;
            tv = e.ev + e.ea * u + e.ej * u * u + (8 + 4 * kx) * kEps * (Len(e.v) + Len(e.a) * u + Len(e.j) * u * u);
            ta = e.ea + e.ej * u + (8 + 4 * kx) * kEps * (Len(e.a) + Len(e.j) * u);
          }
          const double tt = 1e-14 * (std::abs(wt) + 1) * 0 + 4e-16 * (std::abs(wt) * (n + 4)) + 2 * kEps * T;
          const double tiny = 1e-33;
          if (!(Dist(V(r.position), wp) <= tp + tiny && Dist(V(r.velocity), wv) <= tv + tiny && Dist(V(r.acceleration), wa) <= ta + tiny && std::abs(r.time.Value() - wt) <= tt))
            why = Sf("predicted result %d of %d (%d lead to the estimate) is %s; expected pos=(%.9g,%.9g)+-%.3g v=(%.9g,%.9g)+-%.3g a=(%.9g,%.9g)+-%.3g t=%.17g", i, n, nc, Str(r).c_str(), wp.x, wp.y, tp, wv.x,
                     wv.y, tv, wa.x, wa.y, ta, wt);
        }
        if (why.empty()) ok = true, nc_ok = nc;
      }
      if (!ok) Fail("prediction", "after %s (input %d): %s", Str(in).c_str(), ax.n, why.c_str());
      COUNT("checked");
      const int ext = n - nc_ok;
      COUNTN("connector", std::min(n, nc_ok));
      if (nc_ok > 2) COUNT("connector.many");
      if (nc_ok > 1024) COUNT("connector.thousands");
      if (ext > 0) { COUNTN("extension", ext); nt = true; }
      if (n == max_out) COUNT("limit");
      else if (ext == 0) COUNT("ext.none");
      else if (ext + 1 <= target) COUNT("ext.partial");
      else COUNT("ext.full");
      if (np_lo == np_hi && nc_lo == nc_hi) COUNT("count.certain");
      if (ext > 1) {
        if (f1 < .95) COUNT("f.samples");
        if (n2.lo > .05) COUNT("f.distance");
        if (n3.hi < .95) COUNT("f.speed");
        if (n4.lo > .05 && base < .9) COUNT("f.linearity");
      }
      if (times.size() > nt_) COUNT("time_window_full");
      if (wobble) COUNT("wobble");
      if (vm == k->min_catchup_velocity && nc_ok > 1) COUNT("catchup_speed");
      if (std::abs(target - std::round(target)) > .01) COUNT("fractional_interval");
      if (s > 0) COUNT("second_stroke");
      if (ax.n == k->min_stable_iteration) COUNT("exactly_stable");
    }
  }
  if (nt) NonTrivial();
}
}  // namespace vf
