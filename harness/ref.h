// Independent reference computations (double precision, with error bounds) of
// what the documentation says the modeler computes. They never call the
// library's internals.
#ifndef VERIF_REF_H_
#define VERIF_REF_H_
#include <deque>
#include "common.h"
namespace vf {
constexpr double kEps = 5.9604644775390625e-8;  // 2^-24, float rounding
constexpr double kPiD = 3.14159265358979323846;

struct D2 {
  double x = 0, y = 0;
};
inline D2 operator+(D2 a, D2 b) { return {a.x + b.x, a.y + b.y}; }
inline D2 operator-(D2 a, D2 b) { return {a.x - b.x, a.y - b.y}; }
inline D2 operator*(D2 a, double k) { return {a.x * k, a.y * k}; }
inline double Dot(D2 a, D2 b) { return a.x * b.x + a.y * b.y; }
inline double Cross(D2 a, D2 b) { return a.x * b.y - a.y * b.x; }
inline double Len(D2 a) { return std::hypot(a.x, a.y); }
inline double Dist(D2 a, D2 b) { return Len(a - b); }
inline D2 V(Vec2 v) { return {v.x, v.y}; }

// Tip state.
struct St {
  D2 s, v, a;
  double t = 0;
};
inline St ToSt(const Result& r) { return {V(r.position), V(r.velocity), V(r.acceleration), r.time.Value()}; }
// Far enough from overflow and underflow for relative error bounds to apply.
bool SaneState(const St& s);

// One spring step with the given anchor over dt.
St Spring(const St& from, D2 anchor, double dt, const PositionModelerParams& p);
// Rounding error bounds of a spring step evaluated in float.
struct StepErr {
  double a, v, s;
};
StepErr SpringErr(const St& from, const St& to, D2 anchor, double dt, const PositionModelerParams& p, double anchor_err);

// The anchor a recorded step was pulled towards.
struct Anchor {
  D2 p;
  double tol = 0;
};
Anchor RecoverAnchor(const St& from, const St& to, const PositionModelerParams& p);

// Number of results that upsampling requires between two inputs.
struct NRange {
  double lo = 0, hi = 0;   // admissible values (doubles: may exceed int)
  bool unknown = false;    // overflow: anything goes
};
NRange StepsRange(const StrokeModelParams& p, const St& tip, const Input& prev, const Input& in);

// Wobble smoothing.
struct Smoothed {
  D2 p;
  double tol = 0;
};
class RefWobble {
 public:
  void Reset(const WobbleSmootherParams& p, const Input& down);
  // All admissible smoothed positions (several only at discontinuities).
  std::vector<Smoothed> Update(const Input& in);
  // For counters.
  double last_ratio = -1;
  int last_window = 0;

 private:
  struct S {
    D2 p;
    double dist, dur, t;
  };
  WobbleSmootherParams p_;
  std::deque<S> s_;
  D2 last_;
  double last_t_ = 0;
};

// End-of-stroke rule. Checks that `tail` is what the rule gives when started in
// `from`; returns an empty string or what is wrong.
struct EosInfo {
  int halvings = 0;
  const char* stop = "";
  bool ambiguous = false;
};
std::string CheckEndOfStroke(const StrokeModelParams& p, const St& from, D2 anchor, double anchor_tol, int max_iter,
                             const std::vector<Result>& tail, EosInfo* info);

// Splits the results of a Move/Up into those up to the input's time and the
// rest.
size_t LinearCount(const Input& in, const std::vector<Result>& r);

// Angle of `a` modulo 2 pi compared with `b`.
double AngleDiff(double a, double b);
}  // namespace vf
#endif
