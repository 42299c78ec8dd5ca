// Workload generation: parameters ("worlds") and strokes.
#ifndef VERIF_GEN_H_
#define VERIF_GEN_H_
#include "common.h"

namespace vf {
enum Tri { kOff, kOn, kAny };
enum PredMask { kPredEnd = 1, kPredKalman = 2, kPredNone = 4, kPredAny = 7 };

struct WorldOpts {
  Tri wobble = kAny;
  Tri normal = kAny;
  Tri loop = kAny;   // on implies normal
  Tri angle = kAny;
  int pred = kPredAny;
  bool dyadic = false;      // powers of two for every time-like quantity
  bool small_max = false;   // allow small max_outputs_per_call
  bool ms_units = true;     // allow time in other units than seconds
};

struct World {
  StrokeModelParams p;
  double tu = 1;        // time units per second
  double speed = 1;     // typical pen speed, length units per second
  double rate_in = 100; // typical input rate, Hz
  double ox = 0, oy = 0;  // typical stroke origin
  bool dyadic = false;
  bool big = false;     // long windows: wants long strokes
};
World GenWorld(Rng& rng, const WorldOpts& o);

enum TimeStyle {
  kTUniform, kTJitter, kTBurst, kTNear, kTSlow, kTPause, kTDyadic, kTFast,
  kNumTimeStyles
};
enum StylusStyle {
  kSNone, kSFull, kSConst, kSPartial, kSDrop, kSNan, kSWrap, kSJumpy,
  kNumStylusStyles
};
struct StrokeOpts {
  int min_moves = 0, max_moves = 30;
  bool zero_dt = true;      // coincident timestamps
  bool near_dt = true;      // nearly coincident timestamps
  bool big_t0 = true;       // large time offsets
  bool pauses = true;
  bool jumps = true;        // teleporting positions
  int time_style = -1;      // -1: random
  int stylus_style = -1;    // -1: random
  bool up = true;           // end with an Up
  double max_dt_steps = 400;  // longest gap, in output periods
  bool may_be_long = true;    // now and then up to 12 * max_moves
  int very_long_moves = 70000;  // very rarely, thousands, up to this
  bool twins = true;          // inputs that differ in their stylus values only
};
// A well-formed stroke (no exact duplicates, times non-decreasing).
std::vector<Input> GenStroke(Rng& rng, const World& w, const StrokeOpts& o);

// Shifts and continues: makes all times start at t0.
void ShiftTimes(std::vector<Input>& s, double t0);

// An input that is certain to be rejected after `last` (mid-stroke) or between
// strokes (last == nullptr); `why` names the reason.
Input GenBadInput(Rng& rng, const World& w, const Input* last,
                  std::string* why);

// Parameters that must be rejected, derived from valid ones.
StrokeModelParams GenBadParams(Rng& rng, StrokeModelParams p);

// Shrinks typical numbers so that one world can host a whole boundary study:
// an input time exactly k output periods after `prev`.
inline double PeriodsAfter(const World& w, double prev, double k) {
  return prev + k / w.p.sampling_params.min_output_rate;
}
}  // namespace vf
#endif
