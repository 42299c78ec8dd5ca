#include "ref.h"
#include <algorithm>
#include "gen.h"
namespace vf {
bool SaneState(const St& s) {
  for (double d : {s.s.x, s.s.y, s.v.x, s.v.y, s.a.x, s.a.y})
    if (!(std::abs(d) < 1e15)) return false;
  return std::isfinite(s.t);
}

St Spring(const St& f, D2 anchor, double dt, const PositionModelerParams& p) {
  St r;
  const double M = p.spring_mass_constant, k = p.drag_constant;
  r.a = (anchor - f.s) * (1 / M) - f.v * k;
  r.v = f.v + r.a * dt;
  r.s = f.s + r.v * dt;
  r.t = f.t + dt;
  return r;
}

StepErr SpringErr(const St& f, const St& to, D2 anchor, double dt, const PositionModelerParams& p, double anchor_err) {
  const double M = p.spring_mass_constant, k = p.drag_constant;
  StepErr e;
  e.a = kEps * (4 * Dist(anchor, f.s) / M + 3 * k * Len(f.v) + 2 * Len(to.a)) + anchor_err / M + 1e-37 / M;
  e.v = dt * e.a + kEps * (3 * dt * Len(to.a) + 2 * Len(to.v)) + 1e-40;
  e.s = dt * e.v + kEps * (3 * dt * Len(to.v) + 2 * std::max(Len(to.s), Len(f.s))) + 1e-40;
  return e;
}

Anchor RecoverAnchor(const St& f, const St& to, const PositionModelerParams& p) {
  const double M = p.spring_mass_constant, k = p.drag_constant;
  Anchor r;
  r.p = f.s + (to.a + f.v * k) * M;
  double d = Dist(r.p, f.s);
  r.tol = 4 * kEps * (2 * d + 2 * M * k * Len(f.v) + M * Len(to.a) + Len(r.p)) + 1e-37;
  return r;
}

NRange StepsRange(const StrokeModelParams& p, const St& tip, const Input& prev, const Input& in) {
  NRange n;
  if (!SaneState(tip)) {
    n.unknown = true;
    return n;
  }
  const double rate = p.sampling_params.min_output_rate;
  const double dt = in.time.Value() - prev.time.Value();
  const double x = dt * rate;
  // Exactly representable: no freedom in rounding.
  const bool exact = static_cast<double>(static_cast<float>(dt)) == dt && std::fma(dt, rate, -x) == 0;
  const double d = exact ? 0 : 1.3e-7;
  n.lo = std::ceil(x * (1 - d));
  n.hi = std::ceil(x * (1 + d));
  const double M = p.position_modeler_params.spring_mass_constant;
  const D2 e = V(in.position);
  const D2 dv = (e - tip.s) * (dt / M);
  const D2 ve = tip.v + dv;
  if (!(Len(dv) < 1e17) || !(Len(e) < 1e17)) {
    n.unknown = true;
    return n;
  }
  const double mx = p.sampling_params.max_estimated_angle_to_traverse_per_input;
  if (mx > 0 && (tip.v.x != 0 || tip.v.y != 0)) {
    const double lv = Len(tip.v), le = Len(ve);
    const double err = 6 * kEps * (Len(dv) + lv + le) + 4 * kEps * Len(tip.s) * dt / M;
    double lo = 0, hi = kPiD;
    if (lv > 1e-15 && le > 1e-15 && le > err * 1.01) {
      const double da = std::asin(std::min(1., err / le));
      const double c = Dot(tip.v, ve) / (lv * le);
      lo = std::max(0., std::acos(std::min(1., std::max(-1., c + 1e-6))) - da);
      hi = std::min(kPiD + 1e-6, std::acos(std::min(1., std::max(-1., c - 1e-6))) + da);
    }
    n.lo = std::max(n.lo, std::ceil(lo / mx * (1 - 1e-6)));
    n.hi = std::max(n.hi, std::ceil(hi / mx * (1 + 1e-6)));
  }
  return n;
}

void RefWobble::Reset(const WobbleSmootherParams& p, const Input& down) {
  p_ = p;
  s_.clear();
  last_ = V(down.position);
  last_t_ = down.time.Value();
  s_.push_back({last_, 0, 0, last_t_});
}

std::vector<Smoothed> RefWobble::Update(const Input& in) {
  const D2 pos = V(in.position);
  const double t = in.time.Value();
  last_ratio = -1;
  last_window = 0;
  if (!p_.is_enabled) return {{pos, 0}};
  s_.push_back({pos, Dist(pos, last_), t - last_t_, t});
  last_ = pos;
  last_t_ = t;
  const double edge = t - p_.timeout.Value();
  const double slack = 4 * 1.2e-16 * (std::abs(t) + std::abs(p_.timeout.Value()));
  // Anything certainly out of the window can go; samples on its edge stay in
  // the deque and are admissible in or out.
  while (s_.size() > 1 && s_.front().t - edge < -slack) s_.pop_front();
  std::vector<Smoothed> out;
  size_t first = 0;
  for (;;) {
    D2 sum;
    double dist = 0, dur = 0, mag = 0;
    for (size_t i = first; i < s_.size(); ++i) {
      sum = sum + s_[i].p * s_[i].dur;
      dist += s_[i].dist;
      dur += s_[i].dur;
      mag = std::max(mag, Len(s_[i].p));
    }
    const double m = s_.size() - first;
    if (dur <= 0 || static_cast<float>(dur) == 0) {
      out.push_back({pos, 0});
      if (dur > 0 && dur < 1e-30) out.push_back({pos, mag});
    } else {
      const D2 avg = sum * (1 / dur);
      const double avg_err = kEps * mag * (2 * m + 8);
      const double speed = dist / dur;
      const double sp_err = speed * kEps * (2 * m + 8) + m * 3 * kEps * mag / dur + 1e-40;
      const double fl = p_.speed_floor, ce = p_.speed_ceiling;
      auto add = [&](double ratio, double rerr) {
        const D2 q = avg + (pos - avg) * ratio;
        out.push_back({q, avg_err + 4 * kEps * (mag + Dist(pos, avg)) + rerr * Dist(pos, avg)});
        last_ratio = ratio;
      };
      if (fl == ce) {
        if (speed > fl - sp_err) add(1, 0);
        if (speed <= fl + sp_err) add(0, 0);
      } else {
        const double r = std::min(1., std::max(0., (speed - fl) / (ce - fl)));
        add(r, (sp_err + 4 * kEps * (speed + fl)) / (ce - fl) + 4 * kEps);
      }
      last_window = static_cast<int>(m);
    }
    // Next alternative: without the samples of the oldest time on the edge.
    if (first + 1 >= s_.size() || slack == 0 || !(std::abs(s_[first].t - edge) <= slack)) break;
    // Exact arithmetic: the edge itself is inside.
    const double te = s_[first].t;
    if ((t - te) == p_.timeout.Value() && te == edge && static_cast<float>(t) == t && static_cast<float>(te) == te) break;
    ++first;
    while (first + 1 < s_.size() && s_[first].t == te) ++first;
  }
  return out;
}

size_t LinearCount(const Input& in, const std::vector<Result>& r) {
  size_t n = 0;
  while (n < r.size() && r[n].time.Value() <= in.time.Value()) ++n;
  return n;
}

namespace {
struct EosState {
  St cur;
  double delta;
  int used;
  size_t next;
};
}  // namespace

std::string CheckEndOfStroke(const StrokeModelParams& p, const St& from, D2 anchor, double atol, int max_iter,
                             const std::vector<Result>& tail, EosInfo* info) {
  const double stop = p.sampling_params.end_of_stroke_stopping_distance;
  const PositionModelerParams& pm = p.position_modeler_params;
  St cur = from;
  double delta = 1. / p.sampling_params.min_output_rate;
  int used = 0;
  size_t k = 0;
  if (!SaneState(cur)) return "";
  // Every decision is either certain or, within rounding, free; the recorded
  // results say which way a free one went.
  for (;;) {
    if (used >= max_iter) {
      if (k < tail.size())
        return Sf("result %zu appended although all %d attempts are used up", k, max_iter);
      info->stop = "attempts";
      return "";
    }
    ++used;
    const double dt = (cur.t + delta) - cur.t;
    St c = Spring(cur, anchor, static_cast<float>(dt), pm);
    c.t = cur.t + delta;
    if (!SaneState(c)) return "";
    const StepErr e = SpringErr(cur, c, anchor, dt, pm, atol);
    const double moved = Dist(c.s, cur.s);
    // The recorded position is already rounded, and the true one is within e.s
    // of the candidate.
    const double merr = e.s + 4 * kEps * moved + 2 * kEps * Len(c.s);
    const bool may_halt = moved - merr < stop, must_halt = moved + merr < stop;
    // Overshoot: the closest point on the segment is before its end.
    const D2 d = c.s - cur.s;
    const double dd = Dot(d, d), ratio = dd > 0 ? Dot(anchor - cur.s, d) / dd : 0;
    const double ap = Dist(anchor, cur.s);
    const double rerr = dd > 0 ? (8 * kEps + 3 * (merr + atol) / moved) * (1 + ap / moved) : 1e9;
    const bool may_over = ratio - rerr < 1, must_over = ratio + rerr < 1;
    if (may_halt != must_halt || may_over != must_over) info->ambiguous = true;
    // Does the next recorded result match this candidate?
    bool match = false;
    if (k < tail.size()) {
      const St r = ToSt(tail[k]);
      const double terr = 4e-16 * (std::abs(r.t) + std::abs(cur.t)) + 1e-7 * delta;
      match = std::abs(r.t - c.t) <= terr && Dist(r.s, c.s) <= merr && Dist(r.v, c.v) <= e.v && Dist(r.a, c.a) <= e.a;
    }
    if (match && !must_halt && !must_over) {
      St r = ToSt(tail[k]);
      ++k;
      const double left = Dist(r.s, anchor), lerr = 8 * kEps * (left + Len(r.s)) + atol;
      if (left + lerr < stop) {
        if (k < tail.size()) return Sf("result %zu appended although the tip was within the stopping distance", k);
        info->stop = "reached";
        return "";
      }
      if (left - lerr < stop && k == tail.size()) {
        info->stop = "reached";
        info->ambiguous = true;
        return "";
      }
      cur = r;
      continue;
    }
    if (k == tail.size() && may_halt) {
      info->stop = "no progress";
      return "";
    }
    if (must_halt) return Sf("result %zu appended although a step would move the tip only %.9g (< %.9g)", k, moved, stop);
    if (may_over) {
      delta *= .5;
      ++info->halvings;
      continue;
    }
    if (k == tail.size())
      return Sf("modelling stopped after %zu results although attempt %d of %d moves %.9g >= %.9g towards the end and is %.9g away",
                k, used, max_iter, moved, stop, Dist(cur.s, anchor));
    return Sf("result %zu %s does not continue the motion: expected pos=(%.9g,%.9g) v=(%.9g,%.9g) a=(%.9g,%.9g) t=%.17g",
              k, Str(tail[k]).c_str(), c.s.x, c.s.y, c.v.x, c.v.y, c.a.x, c.a.y, c.t);
  }
}

double AngleDiff(double a, double b) {
  double d = std::fmod(a - b, 2 * kPiD);
  if (d > kPiD) d -= 2 * kPiD;
  if (d < -kPiD) d += 2 * kPiD;
  return std::abs(d);
}
}  // namespace vf
