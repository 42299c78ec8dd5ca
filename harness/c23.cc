// C23: the value types obey their arithmetic.
#include <sstream>
#include "gen.h"
namespace vf {
const char* kProperty = "C23";
const char* kRule =
    "Random operands (ordinary, integral, equal, zero, negative zero, denormal, huge, infinite, NaN) for "
    "every operator, comparison, measure and formatter of Vec2, Duration, Time, Input and Result, "
    "against scalar IEEE arithmetic, double-precision references and algebraic laws. Non-trivial: all "
    "cases; distinct by operands' classes and results.";
int DirectedCases() { return 0; }
std::vector<Floor> Floors() {
  return {{"vec2", 10000}, {"duration", 10000}, {"time", 10000}, {"angle.ok", 5000}, {"angle.error", 500}, {"angle.zero", 100}, {"equality", 5000}, {"format", 5000},
          {"finite", 5000}, {"angle.parallel", 200}};
}
namespace {
constexpr double kPi = 3.14159265358979323846;
double Num(Rng& rng) {
  switch (rng.I(0, 9)) {
    case 0: return rng.I(-4, 4);
    case 1: return rng.Pick({0., -0., 1., -1., .5});
    case 2: return rng.P(.3) ? rng.Pick({std::nan(""), 1. / 0., -1. / 0.}) : rng.U(-1, 1);
    case 3: return rng.Pick({3e38, -3e38, 1e-45, -1e-40, 1e30, 1e-30});
    case 4: return (rng.P(.5) ? 1 : -1) * rng.LogU(1e-20, 1e20);
    default: return rng.U(-100, 100);
  }
}
bool CloseF(float a, double b) {
  if (std::isnan(b)) return std::isnan(a);
  if (std::abs(b) > 3.402e38 || std::abs(b) < 1.2e-38) return std::isinf(b) && !std::isinf(a) ? false : true;
  return std::abs(a - b) <= 2.4e-7 * std::abs(b);
}
bool CloseD(double a, double b) { return SameD(a, b) || std::abs(a - b) <= 5e-16 * std::abs(b); }
#define REQUIRE(c, ...) \
  do {                  \
    if (!(c)) Fail("law", __VA_ARGS__); \
  } while (0)
std::string Num6(double v) { return Sf("%.6g", v); }
// The number after `label` in `s`.
bool Shows(const std::string& s, const char* label, double v) {
  const size_t p = s.find(label);
  if (p == std::string::npos) return false;
  const char* c = s.c_str() + p + std::strlen(label);
  while (*c == ' ' || *c == ':') ++c;
  char* e;
  const double got = std::strtod(c, &e);
  if (e == c) return false;
  return std::isnan(v) ? std::isnan(got) : got == v || std::abs(got - v) <= 6e-6 * std::abs(v);
}
bool ShowsVec(const std::string& s, const char* label, Vec2 v) {
  const size_t p = s.find(label);
  if (p == std::string::npos) return false;
  const size_t a = s.find('(', p), c = s.find(',', p), z = s.find(')', p);
  if (a == std::string::npos || c == std::string::npos || z == std::string::npos || !(a < c && c < z)) return false;
  return Shows(s.substr(a), "(", v.x) && Shows(s.substr(c), ",", v.y);
}
}  // namespace
void RunCase(uint64_t, Rng rng) {
  NonTrivial();
  const float ax = Num(rng), ay = Num(rng), bx = rng.P(.2) ? ax : static_cast<float>(Num(rng)), by = rng.P(.2) ? ay : static_cast<float>(Num(rng));
  const float k = Num(rng);
  const Vec2 a{ax, ay}, b{bx, by};
  uint64_t h = 0;
  for (float f : {ax, ay, bx, by, k}) {
    uint32_t u;
    std::memcpy(&u, &f, 4);
    h = Mix(h, u);
  }
  Observe(h);
  auto vs = [](Vec2 v) { return Sf("(%.9g, %.9g)", v.x, v.y); };
  LOG("a=%s b=%s k=%.9g\n", vs(a).c_str(), vs(b).c_str(), k);
  {
    COUNT("vec2");
    auto is = [&](Vec2 got, double x, double y, const char* what) {
      REQUIRE(CloseF(got.x, x) && CloseF(got.y, y), "Vec2 %s with a=%s b=%s k=%.9g gives %s, not (%.9g, %.9g)", what, vs(a).c_str(), vs(b).c_str(), k, vs(got).c_str(), x, y);
    };
    const double dk = k;
    is(a + b, static_cast<double>(ax) + bx, static_cast<double>(ay) + by, "a + b");
    is(a - b, static_cast<double>(ax) - bx, static_cast<double>(ay) - by, "a - b");
    is(a * k, ax * dk, ay * dk, "a * k");
    is(k * a, ax * dk, ay * dk, "k * a");
    is(a / k, ax / dk, ay / dk, "a / k");
    auto sv = [&](Vec2 x, Vec2 y) { return SameF(x.x, y.x) && SameF(x.y, y.y); };
    Vec2 c = a;
    REQUIRE(sv(c += b, a + b) && sv(c, a + b), "Vec2 +=: %s", vs(c).c_str());
    c = a;
    REQUIRE(sv(c -= b, a - b) && sv(c, a - b), "Vec2 -=: %s", vs(c).c_str());
    c = a;
    REQUIRE(sv(c *= k, a * k) && sv(c, a * k), "Vec2 *=: %s", vs(c).c_str());
    c = a;
    REQUIRE(sv(c /= k, a / k) && sv(c, a / k), "Vec2 /=: %s", vs(c).c_str());
    c = a;
    c += c;
    REQUIRE(sv(c, a + a), "Vec2 v += v: %s", vs(c).c_str());
    c = a;
    c -= c;
    REQUIRE(sv(c, a - a), "Vec2 v -= v: %s", vs(c).c_str());
    REQUIRE(&(c += b) == &c && &(c -= b) == &c && &(c *= k) == &c && &(c /= k) == &c, "compound assignment does not return its left operand");
    REQUIRE((a == b) == (ax == bx && ay == by) && (a != b) == !(a == b), "Vec2 ==/!= on %s, %s", vs(a).c_str(), vs(b).c_str());
    REQUIRE(a.IsFinite() == (std::isfinite(ax) && std::isfinite(ay)), "IsFinite of %s", vs(a).c_str());
    COUNT("finite");
    if (a.IsFinite() && b.IsFinite()) {
      const double m = std::hypot(static_cast<double>(ax), static_cast<double>(ay));
      REQUIRE(CloseF(a.Magnitude(), m), "Magnitude of %s is %.9g, not %.9g", vs(a).c_str(), a.Magnitude(), m);
      const double p1 = static_cast<double>(ax) * bx, p2 = static_cast<double>(ay) * by;
      if (std::abs(p1) < 1e38 && std::abs(p2) < 1e38) {
        REQUIRE(std::abs(Vec2::DotProduct(a, b) - (p1 + p2)) <= 4e-7 * (std::abs(p1) + std::abs(p2)) + 1e-44, "DotProduct of %s, %s is %.9g", vs(a).c_str(), vs(b).c_str(), Vec2::DotProduct(a, b));
        REQUIRE(SameF(Vec2::DotProduct(a, b), Vec2::DotProduct(b, a)), "DotProduct is not symmetric");
      }
    }
  }
  // Angles.
  {
    Vec2 u = a, v = b;
    if (rng.P(.5)) {
      const double th = rng.P(.3) ? rng.I(0, 8) * kPi / 4 : rng.U(0, 2 * kPi), d = rng.P(.3) ? rng.I(-4, 4) * kPi / 4 : rng.U(-kPi, kPi);
      const bool wide = rng.P(.3);
      const double r1 = wide ? rng.LogU(1e-35, 1e37) : rng.LogU(1e-10, 1e10), r2 = wide ? rng.LogU(1e-35, 1e37) : rng.LogU(1e-10, 1e10);
      u = {static_cast<float>(r1 * std::cos(th)), static_cast<float>(r1 * std::sin(th))};
      v = {static_cast<float>(r2 * std::cos(th + d)), static_cast<float>(r2 * std::sin(th + d))};
      if (rng.P(.05)) { v = u * static_cast<float>(rng.LogU(.1, 10)); COUNT("angle.parallel"); }
    }
    auto r = u.AbsoluteAngleTo(v), q = v.AbsoluteAngleTo(u);
    const bool fin = std::isfinite(u.x) && std::isfinite(u.y) && std::isfinite(v.x) && std::isfinite(v.y);
    LOG("angle %s %s -> %s %.9g\n", vs(u).c_str(), vs(v).c_str(), r.ok() ? "ok" : "error", r.ok() ? *r : -1);
    REQUIRE(r.ok() == fin && q.ok() == fin, "AbsoluteAngleTo(%s, %s): error status %d, components %sfinite", vs(u).c_str(), vs(v).c_str(), !r.ok(), fin ? "" : "not all ");
    if (!fin) {
      COUNT("angle.error");
      REQUIRE(r.status().code() == absl::StatusCode::kInvalidArgument, "AbsoluteAngleTo reports code %d", static_cast<int>(r.status().code()));
    } else {
      REQUIRE(*r >= 0 && *r <= 3.1415928f, "AbsoluteAngleTo(%s, %s) = %.9g is not in [0, pi]", vs(u).c_str(), vs(v).c_str(), *r);
      REQUIRE(std::abs(*r - *q) <= 1e-3, "AbsoluteAngleTo(%s, %s) is not symmetric: %.9g, %.9g", vs(u).c_str(), vs(v).c_str(), *r, *q);
      const double lu = std::hypot(static_cast<double>(u.x), static_cast<double>(u.y)), lv = std::hypot(static_cast<double>(v.x), static_cast<double>(v.y));
      if (lu == 0 || lv == 0) {
        COUNT("angle.zero");
        REQUIRE(*r == 0, "AbsoluteAngleTo(%s, %s) = %.9g", vs(u).c_str(), vs(v).c_str(), *r);
      } else if (lu > 1e-36 && lv > 1e-36 && lu < 1e38 && lv < 1e38) {
        COUNT("angle.ok");
        const double cr = (u.x / lu) * (v.y / lv) - (u.y / lu) * (v.x / lv), dt = (u.x / lu) * (v.x / lv) + (u.y / lu) * (v.y / lv);
        const double want = std::atan2(std::abs(cr), dt);
        // acos loses precision towards 0 and pi.
        const double tol = 1e-6 + std::min(1e-3, 5e-7 / std::max(1e-9, std::abs(std::sin(want))));
        REQUIRE(std::abs(*r - want) <= tol, "AbsoluteAngleTo(%s, %s) = %.9g, not %.9g", vs(u).c_str(), vs(v).c_str(), *r, want);
      }
    }
  }
  // Durations and times.
  const double x = Num(rng), y = rng.P(.2) ? x : Num(rng), z = Num(rng);
  {
    COUNT("duration");
    const Duration d(x), e(y);
    REQUIRE(SameD(d.Value(), x) && Duration().Value() == 0 && Time().Value() == 0, "Duration(%.17g).Value() = %.17g", x, d.Value());
    REQUIRE(CloseD((d + e).Value(), x + y) && CloseD((d - e).Value(), x - y) && CloseD((d * z).Value(), x * z) && CloseD((z * d).Value(), x * z) && CloseD((d / z).Value(), x / z),
            "Duration arithmetic on %.17g, %.17g, %.17g: + %.17g - %.17g * %.17g %.17g / %.17g", x, y, z, (d + e).Value(), (d - e).Value(), (d * z).Value(), (z * d).Value(), (d / z).Value());
    Duration c = d;
    REQUIRE(SameD((c += e).Value(), (d + e).Value()) && SameD(c.Value(), (d + e).Value()), "Duration +=");
    c = d;
    REQUIRE(SameD((c -= e).Value(), (d - e).Value()) && SameD(c.Value(), (d - e).Value()), "Duration -=");
    c = d;
    REQUIRE(SameD((c *= z).Value(), (d * z).Value()) && SameD(c.Value(), (d * z).Value()), "Duration *=");
    c = d;
    REQUIRE(SameD((c /= z).Value(), (d / z).Value()) && SameD(c.Value(), (d / z).Value()), "Duration /=");
    REQUIRE((d == e) == (x == y) && (d != e) == (x != y) && (d < e) == (x < y) && (d > e) == (x > y) && (d <= e) == (x <= y) && (d >= e) == (x >= y), "Duration comparisons of %.17g and %.17g: %d%d%d%d%d%d",
            x, y, d == e, d != e, d < e, d > e, d <= e, d >= e);
  }
  {
    COUNT("time");
    const Time s(x), t(y);
    const Duration d(z);
    REQUIRE(CloseD((s + d).Value(), x + z) && SameD((d + s).Value(), (s + d).Value()) && CloseD((s - d).Value(), x - z) && CloseD((s - t).Value(), x - y), "Time arithmetic on %.17g, %.17g, %.17g", x, y, z);
    Time c = s;
    REQUIRE(SameD((c += d).Value(), (s + d).Value()) && SameD(c.Value(), (s + d).Value()), "Time +=");
    c = s;
    REQUIRE(SameD((c -= d).Value(), (s - d).Value()) && SameD(c.Value(), (s - d).Value()), "Time -=");
    if (std::isfinite(x) && std::isfinite(z))
      REQUIRE(std::abs(((s + d) - s).Value() - z) <= 5e-16 * (std::abs(x) + std::abs(z)), "(t + d) - t != d for %.17g, %.17g", x, z);
    REQUIRE((s == t) == (x == y) && (s != t) == (x != y) && (s < t) == (x < y) && (s > t) == (x > y) && (s <= t) == (x <= y) && (s >= t) == (x >= y), "Time comparisons of %.17g and %.17g: %d%d%d%d%d%d",
            x, y, s == t, s != t, s < t, s > t, s <= t, s >= t);
  }
  // Inputs and results.
  auto num = [&] { return static_cast<float>(rng.P(.5) ? rng.U(-10, 10) : rng.P(.5) ? rng.I(-2, 2) : rng.LogU(1e-3, 1e3)); };
  Input in{.event_type = static_cast<EventType>(rng.I(0, 2)), .position = {num(), num()}, .time = Time(num()), .pressure = num(), .tilt = num(), .orientation = num()};
  Result re{.position = {num(), num()}, .velocity = {num(), num()}, .acceleration = {num(), num()}, .time = Time(num()), .pressure = num(), .tilt = num(), .orientation = num()};
  {
    COUNT("equality");
    Input j = in;
    REQUIRE(j == in && !(j != in), "a copied Input differs: %s", Str(in).c_str());
    Result s = re;
    REQUIRE(s == re && !(s != re), "a copied Result differs: %s", Str(re).c_str());
    float* fi[] = {&j.position.x, &j.position.y, &j.pressure, &j.tilt, &j.orientation};
    const int ki = rng.I(0, 6);
    auto other = [&](float v) { return rng.P(.5) ? std::nextafter(v, 1e9f) : rng.P(.5) && v != 0 ? -v : v + 1; };
    if (ki < 5) *fi[ki] = other(*fi[ki]);
    else if (ki == 5) j.time = Time(std::nextafter(j.time.Value(), rng.P(.5) ? 1e9 : -1e9));
    else j.event_type = static_cast<EventType>((static_cast<int>(j.event_type) + rng.I(1, 2)) % 3);
    REQUIRE(!(j == in) && j != in && in != j, "Inputs that differ in field %d are equal: %s %s", ki, Str(in).c_str(), Str(j).c_str());
    float* fr[] = {&s.position.x, &s.position.y, &s.velocity.x, &s.velocity.y, &s.acceleration.x, &s.acceleration.y, &s.pressure, &s.tilt, &s.orientation};
    const int kr = rng.I(0, 9);
    if (kr < 9) *fr[kr] = other(*fr[kr]);
    else s.time = Time(std::nextafter(s.time.Value(), 1e9));
    REQUIRE(!(s == re) && s != re && re != s, "Results that differ in field %d are equal: %s %s", kr, Str(re).c_str(), Str(s).c_str());
  }
  {
    COUNT("format");
    std::ostringstream o;
    o << in;
    const std::string si = o.str();
    static const char* const kEv[] = {"Down", "Move", "Up"};
    REQUIRE(si.find(kEv[static_cast<int>(in.event_type)]) != std::string::npos && ShowsVec(si, "pos", in.position) && Shows(si, "time", in.time.Value()) && Shows(si, "pressure", in.pressure) &&
                Shows(si, "tilt", in.tilt) && Shows(si, "orientation", in.orientation),
            "an Input is formatted as %s but is %s", si.c_str(), Str(in).c_str());
    REQUIRE(ToFormattedString(in) == si, "ToFormattedString and << differ");
    std::ostringstream p;
    p << re;
    const std::string sr = p.str();
    REQUIRE(ShowsVec(sr, "pos", re.position) && ShowsVec(sr, "vel", re.velocity) && ShowsVec(sr, "acc", re.acceleration) && Shows(sr, "time", re.time.Value()) && Shows(sr, "pressure", re.pressure) &&
                Shows(sr, "tilt", re.tilt) && Shows(sr, "orientation", re.orientation),
            "a Result is formatted as %s but is %s", sr.c_str(), Str(re).c_str());
    std::ostringstream q;
    q << in.event_type << " " << re.position << " " << re.time << " " << Duration(x);
    const std::string sq = q.str();
    REQUIRE(sq.find(kEv[static_cast<int>(in.event_type)]) == 0 && ShowsVec(sq, " ", re.position), "event and position are formatted as %s", sq.c_str());
    std::ostringstream d, t;
    d << Duration(x);
    t << Time(x);
    REQUIRE(Shows("v " + d.str(), "v", x) && Shows("v " + t.str(), "v", x), "Duration/Time(%.17g) are formatted as %s / %s", x, d.str().c_str(), t.str().c_str());
    const int bad = rng.Pick({3, 99, -7});
    std::ostringstream ub;
    ub << static_cast<EventType>(bad);
    REQUIRE(ub.str().find(Sf("%d", bad)) != std::string::npos, "unknown event type %d is formatted as %s", bad, ub.str().c_str());
  }
}
}  // namespace vf
