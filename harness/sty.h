// Reference for stylus values: the recent-input polyline and the admissible
// points on it for a given tip state, by either projection rule.
#ifndef VERIF_STY_H_
#define VERIF_STY_H_
#include <deque>
#include "ref.h"
namespace vf {
struct PolyPt {
  D2 p, v, a;
  double tol = 0;  // uncertainty of p (smoothed positions)
  double t = 0;
  double st[3] = {-1, -1, -1};
};
// A point on the polyline: parameter in [lo, hi] on segment [seg, seg + 1], or
// (seg == -1) the input `pt` itself.
struct Hit {
  int seg = -1, pt = 0;
  double lo = 0, hi = 0;
};
class RefStylus {
 public:
  void Reset(const StylusStateModelerParams& p) { *this = RefStylus(); p_ = p; }
  void Update(D2 pos, double tol, double t, float pressure, float tilt, float orientation);
  // Admissible projections of the tip. `dts`: admissible times since the
  // previous state (for the stroke normal). Empty result: nothing can be said.
  std::vector<Hit> Project(const St& tip, const std::vector<double>& dts) const;
  // Does `r` carry the values at one of the hits (all three fields together)?
  bool Matches(const Result& r, const Hit& h) const;
  std::string Expect(const Hit& h) const;
  bool unknown[3] = {false, false, false};
  std::deque<PolyPt> pts;
  int maybe_dropped = 0;  // oldest points that rounding may have dropped
  // What the last Project saw, for counters.
  mutable bool saw_both_sides = false, saw_none = false, saw_closest_fallback = false;

 private:
  void Closest(size_t first, const St& tip, std::vector<Hit>* out) const;
  bool Normal(size_t first, const St& tip, D2 n, double nerr, std::vector<Hit>* out) const;
  double Mag(size_t first) const;
  StylusStateModelerParams p_;
};
}  // namespace vf
#endif
