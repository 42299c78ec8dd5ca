#include "sty.h"
#include <algorithm>
namespace vf {
void RefStylus::Update(D2 pos, double tol, double t, float pressure, float tilt, float orientation) {
  const float in[3] = {pressure, tilt, orientation};
  PolyPt q;
  q.p = pos;
  q.tol = tol;
  q.t = t;
  for (int i = 0; i < 3; ++i) {
    if (!(in[i] >= 0)) unknown[i] = true;
    q.st[i] = in[i];
  }
  if (!pts.empty() && t != pts.back().t) {
    const double dt = t - pts.back().t;
    q.v = (pos - pts.back().p) * (1 / dt);
    q.a = (q.v - pts.back().v) * (1 / dt);
  }
  pts.push_back(q);
  if (!p_.use_stroke_normal_projection) {
    while (pts.size() > static_cast<size_t>(p_.max_input_samples)) pts.pop_front();
    return;
  }
  const double dur = p_.min_sample_duration.Value();
  const double slack = 4 * 1.2e-16 * (std::abs(t) + dur);
  maybe_dropped = 0;
  for (;;) {
    if (!(pts.size() - maybe_dropped > static_cast<size_t>(p_.min_input_samples))) break;
    const double span = t - pts[maybe_dropped + 1].t;
    if (maybe_dropped == 0 && span - dur > slack) {
      pts.pop_front();
      continue;
    }
    if (span - dur < -slack) break;
    if (span == dur && static_cast<float>(t) == t && static_cast<float>(pts[maybe_dropped + 1].t) == pts[maybe_dropped + 1].t) break;
    ++maybe_dropped;
  }
}

double RefStylus::Mag(size_t first) const {
  double m = 0;
  for (size_t i = first; i < pts.size(); ++i) m = std::max(m, Len(pts[i].p));
  return m;
}

void RefStylus::Closest(size_t first, const St& tip, std::vector<Hit>* out) const {
  struct C {
    Hit h;
    double d, tol;
    bool fixed;  // certainly at exactly the point `at`
    D2 at;
  };
  std::vector<C> cs;
  double lim = 1e300;
  for (size_t i = first; i + 1 < pts.size(); ++i) {
    const D2 a = pts[i].p, b = pts[i + 1].p, d = b - a, w = tip.s - a;
    const double len = Len(d), tol0 = pts[i].tol + pts[i + 1].tol;
    const double tol = 6 * kEps * (Len(a) + Len(b) + Len(tip.s)) * .5 + tol0;
    C c;
    c.fixed = false;
    double t = 0, dl = 1;
    if (len > 0) {
      t = Dot(w, d) / (len * len);
      dl = (tol / len + 6 * kEps) * (1 + Len(w) / len);
    }
    if (len <= tol0) dl = 1e9, t = .5;
    if (len == 0 && tol0 == 0) dl = 0, t = 0, c.fixed = true, c.at = a;
    if (t <= -dl) { c.fixed = tol0 == 0; c.at = a; t = 0; dl = 0; }
    else if (t >= 1 + dl) { c.fixed = tol0 == 0; c.at = b; t = 1; dl = 0; }
    const double lo = std::max(0., t - dl), hi = std::min(1., t + dl), tc = std::min(1., std::max(0., t));
    c.h = {static_cast<int>(i), 0, lo, hi};
    c.d = Dist(tip.s, a + d * tc);
    c.tol = tol + (dl > 1 ? len : 0);
    lim = std::min(lim, c.d + c.tol);
    cs.push_back(c);
  }
  for (size_t i = 0; i < cs.size(); ++i) {
    if (cs[i].d - cs[i].tol > lim) continue;
    // Of several inputs at the same place, the latest counts.
    bool later = false;
    for (size_t j = i + 1; j < cs.size(); ++j)
      if (cs[i].fixed && cs[j].fixed && cs[i].at.x == cs[j].at.x && cs[i].at.y == cs[j].at.y) later = true;
    if (!later) out->push_back(cs[i].h);
  }
}

bool RefStylus::Normal(size_t first, const St& tip, D2 n, double nerr, std::vector<Hit>* out) const {
  struct C {
    Hit h;
    double d, dtol;
    bool definite, left, right;
  };
  std::vector<C> cs;
  const double ln = Len(n);
  for (size_t i = first; i + 1 < pts.size(); ++i) {
    const D2 a = pts[i].p, b = pts[i + 1].p, v = b - a, w = a - tip.s;
    const double lv = Len(v), lw = Len(w), tol0 = pts[i].tol + pts[i + 1].tol;
    const double pos = 4 * kEps * std::max({Len(a), Len(b), Len(tip.s)}) + tol0;
    if (lv == 0 && tol0 == 0) continue;
    const double det = Cross(n, v), num = Cross(w, n);
    const double edet = ln * (lv * (nerr + 8 * kEps) + pos), enum_ = ln * (lw * (nerr + 8 * kEps) + pos);
    C c;
    double t = .5, dl = 1e9;
    if (std::abs(det) > 2 * edet) {
      t = num / det;
      dl = (enum_ + std::abs(t) * edet) / std::abs(det) * 1.5 + 4 * kEps;
    }
    if (t + dl < 0 || t - dl > 1) continue;
    c.definite = t - dl >= 0 && t + dl <= 1;
    const double lo = std::max(0., t - dl), hi = std::min(1., t + dl), mid = (lo + hi) / 2;
    c.h = {static_cast<int>(i), 0, lo, hi};
    const D2 proj = a + v * mid;
    c.d = Dist(proj, tip.s);
    c.dtol = pos + (hi - lo) / 2 * lv + 4 * kEps * c.d;
    const double side = Dot(proj - tip.s, n);
    const double es = ln * (c.dtol + c.d * (nerr + 4 * kEps));
    c.right = side < es;
    c.left = side > -es;
    cs.push_back(c);
  }
  bool dl = false, dr = false, any_definite = false;
  double best_l = 1e300, best_r = 1e300;
  bool any_l = false, any_r = false;
  for (const C& c : cs) {
    any_l |= c.left;
    any_r |= c.right;
    if (!c.definite) continue;
    any_definite = true;
    if (c.left && !c.right) { dl = true; best_l = std::min(best_l, c.d + c.dtol); }
    if (c.right && !c.left) { dr = true; best_r = std::min(best_r, c.d + c.dtol); }
  }
  const double turn = Dot(n, tip.a), et = ln * Len(tip.a) * (nerr + 6 * kEps);
  const bool may_right = turn >= -et, may_left = turn <= et;
  if (dl && dr) saw_both_sides = true;
  for (const C& c : cs) {
    bool ok = false;
    if (c.left && c.d - c.dtol <= best_l && (!dr || may_left)) ok = true;
    if (c.right && c.d - c.dtol <= best_r && (!dl || may_right)) ok = true;
    // The other side's only certain hit may itself be on either side.
    if (ok) out->push_back(c.h);
  }
  if (!any_definite) {
    saw_none = cs.empty();
    const double df = Dist(pts[first].p, tip.s), db = Dist(pts.back().p, tip.s);
    const double tol = 6 * kEps * (Len(pts[first].p) + Len(pts.back().p) + Len(tip.s)) + pts[first].tol + pts.back().tol;
    if (df < db + tol) out->push_back({-1, static_cast<int>(first), 0, 0});
    if (db <= df + tol) out->push_back({-1, static_cast<int>(pts.size()) - 1, 0, 0});
  }
  return true;
}

std::vector<Hit> RefStylus::Project(const St& tip, const std::vector<double>& dts) const {
  std::vector<Hit> out;
  saw_both_sides = saw_none = saw_closest_fallback = false;
  if (pts.empty() || !SaneState(tip)) return out;
  for (int first = 0; first <= maybe_dropped && first < static_cast<int>(pts.size()); ++first) {
    if (first + 1 == static_cast<int>(pts.size())) {
      out.push_back({-1, first, 0, 0});
      continue;
    }
    if (!p_.use_stroke_normal_projection) {
      Closest(first, tip, &out);
      continue;
    }
    auto orth = [](D2 v) { return D2{-v.y, v.x}; };
    const double lv = Len(tip.v), la = Len(tip.a);
    // Too small for float cross products.
    if ((lv > 0 && lv < 1e-15) || (la > 0 && la < 1e-15)) return {};
    if (lv == 0 && la == 0) {
      saw_closest_fallback = true;
      Closest(first, tip, &out);
    } else if (lv == 0) {
      Normal(first, tip, orth(tip.a), kEps, &out);
    } else if (la == 0) {
      Normal(first, tip, orth(tip.v), kEps, &out);
    } else {
      const double c = std::abs(Dot(tip.v, tip.a)) / (lv * la);
      const double lim = 0.99996192;
      if (c > lim - 2e-6) Normal(first, tip, orth(tip.v), kEps, &out);
      if (c < lim + 2e-6)
        for (double dt : dts) {
          const D2 w = tip.v + tip.a * dt;
          const double lw = Len(w);
          const double we = 6 * kEps * (lv + la * std::abs(dt));
          if (lw <= 4 * we) return {};
          const D2 u = tip.v * (1 / lv) + w * (1 / lw);
          const double ue = 8 * kEps + we / lw;
          if (Len(u) <= 4 * ue) return {};
          Normal(first, tip, orth(u), 2 * ue / Len(u), &out);
        }
    }
  }
  return out;
}

namespace {
double Ang(double a) {
  a = std::fmod(a, 2 * kPiD);
  return a < 0 ? a + 2 * kPiD : a;
}
}  // namespace

bool RefStylus::Matches(const Result& r, const Hit& h) const {
  const float got[3] = {r.pressure, r.tilt, r.orientation};
  // Joint parameter interval over the fields.
  double lo = h.lo, hi = h.hi;
  for (int f = 0; f < 3; ++f) {
    if (unknown[f]) {
      if (got[f] != -1) return false;
      continue;
    }
    if (h.seg < 0) {
      const double want = pts[h.pt].st[f];
      if (f < 2 ? !(std::abs(got[f] - want) <= 1e-6 * (1 + std::abs(want))) : !(AngleDiff(got[f], want) <= 3e-6)) return false;
      if (f == 2 && !(got[f] >= 0 && got[f] <= 6.2831860f)) return false;
      continue;
    }
    const double a = pts[h.seg].st[f], b = pts[h.seg + 1].st[f];
    if (f < 2) {
      const double tol = 4e-7 * (std::abs(a) + std::abs(b)) + 1e-30;
      const double va = a + (b - a) * lo, vb = a + (b - a) * hi;
      if (!(got[f] >= std::min(va, vb) - tol && got[f] <= std::max(va, vb) + tol)) return false;
      // Narrow the parameter for the other fields.
      if (std::abs(b - a) > 1e-3 * (std::abs(a) + std::abs(b))) {
        const double t = (got[f] - a) / (b - a), dt = 2 * tol / std::abs(b - a);
        lo = std::max(lo, t - dt);
        hi = std::min(hi, t + dt);
        if (lo > hi) lo = hi = t;
      }
    } else {
      if (!(got[f] >= 0 && got[f] <= 6.2831860f)) return false;
      const double x = Ang(a), y = Ang(b);
      double d = y - x;
      if (d > kPiD) d -= 2 * kPiD;
      if (d < -kPiD) d += 2 * kPiD;
      bool ok = false;
      for (int alt = 0; alt < 2 && !ok; ++alt) {
        if (alt == 1) {
          if (std::abs(d) < kPiD - 3e-6) break;
          d = d > 0 ? d - 2 * kPiD : d + 2 * kPiD;
        }
        const double mid = x + d * (lo + hi) / 2, half = std::abs(d) * (hi - lo) / 2 + 5e-6;
        if (AngleDiff(got[f], mid) <= half) ok = true;
      }
      if (!ok) return false;
    }
  }
  return true;
}

std::string RefStylus::Expect(const Hit& h) const {
  if (h.seg < 0) return Sf("input %d (p=%.6g tilt=%.6g ori=%.6g)", h.pt, pts[h.pt].st[0], pts[h.pt].st[1], pts[h.pt].st[2]);
  const double m = (h.lo + h.hi) / 2;
  auto f = [&](int i) { return pts[h.seg].st[i] + (pts[h.seg + 1].st[i] - pts[h.seg].st[i]) * m; };
  return Sf("segment %d of %zu at %.6g..%.6g (p=%.6g tilt=%.6g ori=%.6g..%.6g)", h.seg, pts.size() - 1, h.lo, h.hi, f(0), f(1),
            pts[h.seg].st[2], pts[h.seg + 1].st[2]);
}
}  // namespace vf
