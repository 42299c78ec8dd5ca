// C02: the stream protocol.
#include "gen.h"
#include "ref.h"
namespace vf {
const char* kProperty = "C02";
const char* kRule =
    "Random sequences of Reset (with valid, invalid or no parameters), Update (well-formed, misplaced, "
    "repeated, backwards, too-far, non-finite, unknown event), Predict, Save and Restore on one modeler, "
    "checked call by call against a protocol automaton that predicts acceptance and the error code. "
    "Acceptance next to the upsampling limit is decided by an interval oracle. Non-trivial: a case with "
    "both accepted and rejected calls; distinct by the sequence of verdicts.";
int DirectedCases() { return 0; }
std::vector<Floor> Floors() {
  return {{"update.ok", 20000}, {"update.uninitialised", 500}, {"update.bad_value", 1000}, {"update.order", 2000}, {"update.backwards", 500},
          {"update.duplicate", 500}, {"update.too_far", 500}, {"update.at_limit_ok", 100}, {"predict.ok", 3000}, {"predict.uninitialised", 100}, {"predict.disabled", 300},
          {"predict.no_stroke", 300}, {"reset0.ok", 1000}, {"reset0.uninitialised", 100}, {"reset.bad", 500}, {"down.earlier_than_last_stroke", 200},
          {"restored", 300}, {"down.repeats_last_stroke", 50}};
}
namespace {
World Gen(Rng& rng, const WorldOpts& wo) {
  World w = GenWorld(rng, wo);
  // Keep the work at the limit small, mostly.
  if (w.p.sampling_params.max_outputs_per_call > 400 && !rng.P(.01)) w.p.sampling_params.max_outputs_per_call = rng.I(2, 400);
  return w;
}
enum Why : unsigned { kOrder = 1, kData = 2, kMaybe = 4 };
bool HasNan(const Input& i) { return std::isnan(i.pressure) || std::isnan(i.tilt) || std::isnan(i.orientation); }
bool Equal(const Input& a, const Input& b) {
  return a.event_type == b.event_type && a.position.x == b.position.x && a.position.y == b.position.y && a.time.Value() == b.time.Value() && a.pressure == b.pressure && a.tilt == b.tilt && a.orientation == b.orientation;
}
struct Model {
  std::optional<StrokeModelParams> p;
  std::optional<Input> last;
  Result tip{};
};
}  // namespace
void RunCase(uint64_t, Rng rng) {
  WorldOpts wo;
  wo.small_max = true;
  World w = Gen(rng, wo);
  Mon m("A");
  Model s;
  std::optional<Model> saved;
  bool save_valid = false;
  std::optional<Input> last_up;
  std::vector<Input> st;
  size_t at = 0;
  int ok = 0, bad = 0;
  uint64_t h = 0;
  // The modeler knows parameters from the start, or later.
  bool init = rng.P(.85);
  for (int step = 0, n = rng.I(5, 40); step < n; ++step) {
    double u = step == 0 && init ? .99 : rng.U();
    if (u < .66) {
      // Update.
      if (at >= st.size()) {
        StrokeOpts so;
        so.max_moves = 8;
        so.max_dt_steps = std::max(1, std::min(40, w.p.sampling_params.max_outputs_per_call));
        st = GenStroke(rng, w, so);
        at = 0;
        if (last_up && rng.P(.5)) ShiftTimes(st, last_up->time.Value() + (rng.P(.5) ? -1 : 1) * rng.U(0, .5) * w.tu);
      }
      Input in = st[at];
      std::string what;
      const double v = rng.U();
      if (v < .62) {
        ++at;
      } else if (v < .8) {
        in = GenBadInput(rng, w, s.last ? &*s.last : nullptr, &what);
        if (rng.P(.1)) in.position.x = NAN;  // several reasons at once
      } else if (v < .86 && s.last && s.p) {
        // Around the upsampling limit.
        const int lim = s.p->sampling_params.max_outputs_per_call;
        in = *s.last;
        in.event_type = rng.P(.7) ? EventType::kMove : EventType::kUp;
        in.position.x += static_cast<float>(w.speed / w.rate_in * rng.U(-1, 1));
        const double k = lim + rng.Pick({-1., -.5, -1e-3, 0., 1e-3, .5, 1., 2.});
        in.time = Time(s.last->time.Value() + std::max(0., k) / s.p->sampling_params.min_output_rate);
      } else if (v < .9 && s.last) {
        in = *s.last;  // exact repeat, or all but one field
        const bool ulp = rng.P(.5);  // the next value up or down, or a clear difference
        auto nudge = [&](float v) { return ulp ? std::nextafter(v, rng.P(.5) ? 1e9f : -1e9f) : v + .25f; };
        switch (rng.I(0, 8)) {
          case 0: in.pressure = nudge(in.pressure); break;
          case 1: in.tilt = nudge(in.tilt); break;
          case 2: in.orientation = nudge(in.orientation); break;
          case 3: in.position.x = std::nextafter(in.position.x, rng.P(.5) ? 1e9f : -1e9f); break;
          case 4: in.position.y = std::nextafter(in.position.y, rng.P(.5) ? 1e9f : -1e9f); break;
          case 5: in.time = Time(std::nextafter(in.time.Value(), 1e300)); break;
          case 6: in.time = Time(std::nextafter(in.time.Value(), -1e300)); break;
          default: break;
        }
        if (in.event_type == EventType::kDown && rng.P(.7)) in.event_type = EventType::kMove;
      } else if (v < .93 && last_up && !s.last) {
        in = *last_up;
        in.event_type = rng.P(.8) ? EventType::kDown : EventType::kUp;
      } else if (v < .96) {
        in.event_type = static_cast<EventType>(rng.I(0, 2));
      } else if (!st.empty()) {
        in = rng.Of(st);
      }
      // Reasons for which it must be refused.
      unsigned why = 0;
      const bool finite = std::isfinite(in.position.x) && std::isfinite(in.position.y) && std::isfinite(in.time.Value());
      const bool known = in.event_type == EventType::kDown || in.event_type == EventType::kMove || in.event_type == EventType::kUp;
      const char* name = "update.ok";
      bool limit = false;
      if (!s.p) {
        why |= kOrder;
        name = "update.uninitialised";
      }
      if (!finite || !known) { why |= kData; name = "update.bad_value"; }
      if (known && s.p) {
        if (in.event_type == EventType::kDown ? s.last.has_value() : !s.last.has_value()) { why |= kOrder; name = "update.order"; }
        if (s.last && finite) {
          if (in.time.Value() < s.last->time.Value()) { why |= kData; name = "update.backwards"; }
          if (Equal(in, *s.last)) { why |= kData; name = "update.duplicate"; }
          // Whether a repeat with NaN stylus data is a repeat is left open.
          Input c = in, d = *s.last;
          for (Input* i : {&c, &d})
            for (float* f : {&i->pressure, &i->tilt, &i->orientation})
              if (std::isnan(*f)) *f = -77;
          if (Equal(c, d) && (HasNan(in) || HasNan(*s.last))) why |= kMaybe;
          if (in.event_type != EventType::kDown && !(why & kData)) {
            NRange nr = StepsRange(*s.p, ToSt(s.tip), *s.last, in);
            const double lim = s.p->sampling_params.max_outputs_per_call;
            if (nr.unknown || (nr.lo <= lim && nr.hi > lim)) why |= kMaybe;
            else if (nr.lo > lim) { why |= kData; name = "update.too_far"; }
            else if (nr.hi == lim) limit = true;
          }
        }
      }
      Obs o = m.Update(in);
      h = Mix(h, static_cast<uint64_t>(o.code) * 8 + why);
      // With loop mitigation the results are not the spring's states.
      const bool blind = s.p && s.p->position_modeler_params.loop_contraction_mitigation_params.is_enabled && s.p->sampling_params.max_estimated_angle_to_traverse_per_input != -1;
      if (why & kMaybe || blind) {
        COUNT("update.ambiguous");
        if (!blind && o.ok() && (why & ~kMaybe)) Fail("accept", "%s accepted, although %s", Str(in).c_str(), name);
        if (blind && o.ok() && (why & ~kMaybe) && strcmp(name, "update.too_far")) Fail("accept", "%s accepted, although %s", Str(in).c_str(), name);
      } else if (why == 0) {
        if (!o.ok()) Fail("reject", "well-formed %s rejected: %s", Str(in).c_str(), o.message.c_str());
        if (limit) COUNT("update.at_limit_ok");
        COUNT("update.ok");
      } else {
        ++Counter(name);
        if (o.ok()) Fail("accept", "%s accepted, although %s", Str(in).c_str(), name);
      }
      if (!o.ok()) {
        ++bad;
        const bool fp = o.code == absl::StatusCode::kFailedPrecondition, ia = o.code == absl::StatusCode::kInvalidArgument;
        if (!fp && !ia) Fail("code", "%s rejected with code %d", Str(in).c_str(), static_cast<int>(o.code));
        if ((why & ~kMaybe) == kOrder && !fp) Fail("code", "%s: misuse of the call order reported as code %d (%s)", Str(in).c_str(), static_cast<int>(o.code), o.message.c_str());
        if ((why & ~kMaybe) == kData && !ia) Fail("code", "%s: bad input data reported as code %d (%s)", Str(in).c_str(), static_cast<int>(o.code), o.message.c_str());
      } else {
        ++ok;
        if (in.event_type == EventType::kDown) {
          if (last_up && in.time.Value() < last_up->time.Value()) COUNT("down.earlier_than_last_stroke");
          if (last_up && in.time.Value() == last_up->time.Value()) COUNT("down.repeats_last_stroke");
        }
        if (o.r.empty()) Fail("empty", "%s accepted without a result", Str(in).c_str());
        s.tip = o.r.back();
        if (in.event_type == EventType::kUp) {
          last_up = in;
          s.last.reset();
          save_valid = false;  // beyond this property (C05)
          at = st.size();
        } else {
          s.last = in;
        }
      }
    } else if (u < .8) {
      Obs o = m.Predict();
      h = Mix(h, 100 + static_cast<uint64_t>(o.code));
      const bool dis = s.p && std::holds_alternative<DisabledPredictorParams>(s.p->prediction_params);
      const bool want = s.p && !dis && s.last;
      if (o.ok() != want)
        Fail("predict", "Predict %s: initialised %d, prediction %s, stroke in progress %d", o.ok() ? "succeeds" : "fails", s.p.has_value(), dis ? "disabled" : "enabled", s.last.has_value());
      if (!want && o.code != absl::StatusCode::kFailedPrecondition) Fail("code", "Predict reports code %d", static_cast<int>(o.code));
      if (!s.p) COUNT("predict.uninitialised");
      else if (dis) COUNT("predict.disabled");
      else if (!s.last) COUNT("predict.no_stroke");
      else COUNT("predict.ok");
      want ? ++ok : ++bad;
    } else if (u < .86) {
      Obs o = m.Reset0();
      h = Mix(h, 200 + static_cast<uint64_t>(o.code));
      if (o.ok() != s.p.has_value()) Fail("reset", "Reset() %s although parameters were %s accepted before", o.ok() ? "succeeds" : "fails", s.p ? "" : "never");
      if (!o.ok() && o.code != absl::StatusCode::kFailedPrecondition) Fail("code", "Reset() reports code %d", static_cast<int>(o.code));
      if (o.ok()) COUNT("reset0.ok");
      else COUNT("reset0.uninitialised");
      if (o.ok()) { s.last.reset(); save_valid = false; at = st.size(); }
    } else if (u < .9) {
      m.Save();
      saved = s;
      save_valid = s.last.has_value();
    } else if (u < .94) {
      // Only where the effect is beyond doubt: within the saved stroke.
      if (save_valid && s.last) {
        m.Restore();
        s = *saved;
        at = st.size();
        COUNT("restored");
        if (s.last && rng.P(.7)) {
          StrokeOpts so;
          so.max_moves = 6;
          st = GenStroke(rng, w, so);
          ShiftTimes(st, s.last->time.Value());
          at = 1;
        }
      }
    } else if (u < .96) {
      StrokeModelParams q = GenBadParams(rng, w.p);
      Obs o = m.ResetP(q);
      COUNT("reset.bad");
      if (o.ok()) Fail("reset", "invalid parameters accepted: %s", Str(q).c_str());
      if (o.code != absl::StatusCode::kInvalidArgument) Fail("code", "bad parameters reported as code %d", static_cast<int>(o.code));
    } else if (u < .98 && step > 0 && rng.P(.5)) {
      w = Gen(rng, wo);
      Obs o = m.ResetP(w.p);
      if (!o.ok()) Fail("reset", "valid parameters rejected: %s", o.message.c_str());
      s = Model();
      s.p = w.p;
      save_valid = false;
      last_up.reset();
      at = st.size();
    } else if (init || rng.P(.5)) {
      Obs o = m.ResetP(w.p);
      if (!o.ok()) Fail("reset", "valid parameters rejected: %s", o.message.c_str());
      s = Model();
      s.p = w.p;
      save_valid = false;
      at = st.size();
    }
  }
  Observe(h);
  if (ok > 1 && bad > 0) NonTrivial();
}
}  // namespace vf
