// Shared runtime of all monitors: seeded case loop, counters, logging of every
// call made to the code under test, violation reporting.
#ifndef VERIF_COMMON_H_
#define VERIF_COMMON_H_
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstring>
#include <limits>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <vector>

#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "ink_stroke_modeler/params.h"
#include "ink_stroke_modeler/stroke_modeler.h"
#include "ink_stroke_modeler/types.h"

namespace vf {
using ink::stroke_model::DisabledPredictorParams;
using ink::stroke_model::Duration;
using ink::stroke_model::Input;
using ink::stroke_model::KalmanPredictorParams;
using ink::stroke_model::PositionModelerParams;
using ink::stroke_model::Result;
using ink::stroke_model::SamplingParams;
using ink::stroke_model::StrokeEndPredictorParams;
using ink::stroke_model::StrokeModeler;
using ink::stroke_model::StrokeModelParams;
using ink::stroke_model::StylusStateModelerParams;
using ink::stroke_model::Time;
using ink::stroke_model::Vec2;
using ink::stroke_model::WobbleSmootherParams;
using EventType = Input::EventType;

inline uint64_t Mix(uint64_t z) {
  z += 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
inline uint64_t Mix(uint64_t a, uint64_t b) { return Mix(a ^ Mix(b)); }

class Rng {
 public:
  explicit Rng(uint64_t seed) : s_(Mix(seed)) {}
  uint64_t Next() { return Mix(s_++); }
  double U() { return (Next() >> 11) * (1.0 / 9007199254740992.0); }
  double U(double a, double b) { return a + (b - a) * U(); }
  double LogU(double a, double b) {
    return std::exp(U(std::log(a), std::log(b)));
  }
  // Uniform integer in [a, b].
  int I(int a, int b) {
    return a + static_cast<int>(Next() % (static_cast<uint64_t>(b) - a + 1));
  }
  bool P(double p) { return U() < p; }
  template <typename T>
  T Pick(std::initializer_list<T> l) {
    return *(l.begin() + Next() % l.size());
  }
  template <typename C>
  const typename C::value_type& Of(const C& c) {
    return c[Next() % c.size()];
  }

 private:
  uint64_t s_;
};

struct Violation {
  std::string key, msg;
};
// Reports that the property is violated: ends the case.
[[noreturn]] void Fail(const char* key, const char* fmt, ...)
    __attribute__((format(printf, 2, 3)));
// The harness itself is broken (never a verdict on the code).
[[noreturn]] void Die(const char* fmt, ...)
    __attribute__((format(printf, 1, 2)));
void LogF(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
extern bool g_verbose;
#define LOG(...)                      \
  do {                                \
    if (vf::g_verbose) vf::LogF(__VA_ARGS__); \
  } while (0)
std::string Sf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

uint64_t& Counter(const char* name);
#define COUNT(name)                             \
  do {                                          \
    static uint64_t& c_ = vf::Counter(name);    \
    ++c_;                                       \
  } while (0)
#define COUNTN(name, n)                         \
  do {                                          \
    static uint64_t& c_ = vf::Counter(name);    \
    c_ += (n);                                  \
  } while (0)

// The current case exercised its property in a non-trivial way.
void NonTrivial();
// Folds observed behaviour into the hash that identifies the case.
void Observe(uint64_t h);

extern bool g_thorough;
extern uint64_t g_case_seed;

// --- code under test, with logging -----------------------------------------
struct Obs {
  absl::StatusCode code = absl::StatusCode::kOk;
  std::string message;
  std::vector<Result> r;
  bool ok() const { return code == absl::StatusCode::kOk; }
};

inline bool SameF(float a, float b) {
  return a == b || (std::isnan(a) && std::isnan(b));
}
inline bool SameD(double a, double b) {
  return a == b || (std::isnan(a) && std::isnan(b));
}
bool SameMotion(const Result& a, const Result& b);
bool SameStylus(const Result& a, const Result& b);
inline bool Same(const Result& a, const Result& b) {
  return SameMotion(a, b) && SameStylus(a, b);
}
bool Same(const std::vector<Result>& a, const std::vector<Result>& b);
bool FiniteResult(const Result& r);

std::string Str(const Input& i);
std::string Str(const Result& r);
std::string Str(const StrokeModelParams& p);
uint64_t HashObs(const Obs& o);

struct Op {
  enum Kind { kResetP, kReset0, kUpdate, kPredict, kSave, kRestore } kind;
  Input in{};
  const StrokeModelParams* params = nullptr;
};
const char* OpName(Op::Kind k);
inline Op UpdateOp(const Input& i) { return {Op::kUpdate, i, nullptr}; }

// A modeler whose every call is logged (when verbose) and counted.
class Mon {
 public:
  explicit Mon(const char* name) : name_(name) {}
  Obs ResetP(const StrokeModelParams& p);
  Obs Reset0();
  Obs Update(const Input& in);
  // Appends to `v`; the Obs holds only what was appended (valid when the
  // prefix is intact).
  Obs Predict() { return PredictInto({}); }
  Obs PredictInto(std::vector<Result> v);
  void Save();
  void Restore();
  Obs Do(const Op& op);
  StrokeModeler m;
  const char* name_;

 private:
  std::vector<Result> buf_;
  // What A is given is changed and destroyed right after the call, what the
  // others are given is kept as it is.
  bool Fleeting() const { return name_[0] == 'A'; }
  std::vector<std::unique_ptr<const StrokeModelParams>> kept_;
};

void ExpectSame(const char* key, const Obs& a, const Obs& b,
                const std::string& what);

inline Input In(EventType e, double x, double y, double t, double p = -1,
                double ti = -1, double o = -1) {
  return Input{.event_type = e,
               .position = {static_cast<float>(x), static_cast<float>(y)},
               .time = Time(t),
               .pressure = static_cast<float>(p),
               .tilt = static_cast<float>(ti),
               .orientation = static_cast<float>(o)};
}

// --- defined by each property's translation unit ----------------------------
extern const char* kProperty;
extern const char* kRule;
// Number of directed cases; they are run first, as case indices [0, n).
int DirectedCases();
// Runs case `index`; directed if index < DirectedCases().
void RunCase(uint64_t index, Rng rng);
// Counters that must be non-zero (at least `min`) over all shards for the run
// to count as an observation of the property.
struct Floor {
  const char* counter;
  uint64_t min;
};
std::vector<Floor> Floors();

// Known findings: a directed case that demonstrates a recorded defect calls
// this instead of Fail.
void Finding(const char* key, const char* fmt, ...)
    __attribute__((format(printf, 2, 3)));

// Code-under-test progress in executed instrumented edges.
extern uint64_t g_edges_executed;
}  // namespace vf
#endif
