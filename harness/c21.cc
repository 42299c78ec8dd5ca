// C21: stylus data and prediction never influence the modelled motion.
#include "gen.h"
namespace vf {
const char* kProperty = "C21";
const char* kRule =
    "Twins fed the same positions and times: (motion) different stylus data, projection and predictor, "
    "(with loop mitigation: same projection): bit-identical motion, also of predictions when the predictor is the same; "
    "(fields) inputs differing in one of pressure/tilt/orientation only: the other two are "
    "bit-identical; (predictor) different predictor only: results bit-identical in every field. "
    "Non-trivial: the twins' varied data really differed and at least 10 results were compared.";
int DirectedCases() { return 0; }
std::vector<Floor> Floors() {
  return {{"motion.results", 20000}, {"motion.predicted", 3000}, {"motion.stylus_differs", 5000}, {"fields.results", 20000}, {"fields.varied_differs", 3000},
          {"fields.unknown", 500}, {"predictor.results", 20000}, {"predictor.loop", 2000}, {"motion.loop", 5000}};
}
namespace {
void Restyle(Rng& rng, std::vector<Input>& st, int mask) {
  const int mode = rng.I(0, 4);
  float v[3] = {static_cast<float>(rng.U()), static_cast<float>(rng.U(0, 1.57)), static_cast<float>(rng.U(0, 6.28))};
  const int drop = rng.I(0, static_cast<int>(st.size()));
  for (size_t i = 0; i < st.size(); ++i) {
    float* f[3] = {&st[i].pressure, &st[i].tilt, &st[i].orientation};
    for (int k = 0; k < 3; ++k) {
      if (!(mask >> k & 1)) continue;
      if (mode >= 1) v[k] = rng.U() * (k == 0 ? 1 : k == 1 ? 1.57 : 6.28);
      *f[k] = mode == 2 && static_cast<int>(i) >= drop ? -1 : mode == 3 ? -1 : mode == 4 && static_cast<int>(i) == drop ? NAN : v[k];
    }
  }
}
}  // namespace
void RunCase(uint64_t, Rng rng) {
  const int mode = rng.I(0, 2);
  WorldOpts wo;
  const bool loop = mode == 0 && rng.P(.3);
  if (mode == 0) wo.loop = loop ? kOn : kOff;
  if (loop) wo.normal = kOn;
  wo.small_max = rng.P(.1);
  World w = GenWorld(rng, wo);
  StrokeModelParams q = w.p;
  bool same_pred = true;
  if (mode != 1) {
    WorldOpts w2;
    World other = GenWorld(rng, w2);
    if (mode == 2 || rng.P(.5)) {
      // Scaled to this world, or not: nothing about it may matter.
      q.prediction_params = other.p.prediction_params;
      if (auto* k = std::get_if<KalmanPredictorParams>(&q.prediction_params)) {
        // (Predictions of tens of thousands of results only cost time.)
        const double rate = w.p.sampling_params.min_output_rate;
        if (k->prediction_interval.Value() * rate > 300) k->prediction_interval = Duration(300 / rate);
        k->min_catchup_velocity = std::max(k->min_catchup_velocity, static_cast<float>(.01 * w.speed));
      }
      same_pred = false;
    }
    if (mode == 0 && !loop) {
      if (rng.P(.7)) {
        q.stylus_state_modeler_params = other.p.stylus_state_modeler_params;
        // Its fields may be unset for the other projection only.
      }
      auto lp = other.p.position_modeler_params.loop_contraction_mitigation_params;
      lp.is_enabled = false;
      q.position_modeler_params.loop_contraction_mitigation_params = lp;
    }
  }
  Mon a("A"), b("B");
  if (!a.ResetP(w.p).ok() || !b.ResetP(q).ok()) Die("valid params rejected");
  size_t n = 0;
  bool differ = mode == 2;
  for (int s = rng.I(1, 2); s > 0; --s) {
    StrokeOpts so;
    so.twins = false;
    so.max_dt_steps = std::min(60, w.p.sampling_params.max_outputs_per_call);
    std::vector<Input> sa = GenStroke(rng, w, so), sb = sa;
    int mask = 0;
    if (mode == 0) Restyle(rng, sb, mask = rng.I(0, 7));
    if (mode == 1) Restyle(rng, sb, mask = 1 << rng.I(0, 2));
    for (size_t i = 0; i < sa.size(); ++i) {
      Obs x = a.Update(sa[i]), y = b.Update(sb[i]);
      Observe(HashObs(x));
      if (x.code != y.code) Fail("status", "%s: %d vs %d on the twin", Str(sa[i]).c_str(), static_cast<int>(x.code), static_cast<int>(y.code));
      auto compare = [&](const Obs& x, const Obs& y, const char* what) {
        if (x.r.size() != y.r.size()) Fail("count", "%s after %s: %zu results vs %zu on the twin", what, Str(sa[i]).c_str(), x.r.size(), y.r.size());
        for (size_t k = 0; k < x.r.size(); ++k) {
          const Result &r = x.r[k], &t = y.r[k];
          ++n;
          if (mode == 0) {
            COUNT("motion.results");
            if (!SameStylus(r, t)) { COUNT("motion.stylus_differs"); differ = true; }
            if (!SameMotion(r, t)) Fail("motion", "%s result %zu: %s vs %s on the twin with other stylus data/projection/predictor", what, k, Str(r).c_str(), Str(t).c_str());
            if (loop) COUNT("motion.loop");
          } else if (mode == 1) {
            COUNT("fields.results");
            if (!SameMotion(r, t)) Fail("motion", "%s result %zu: %s vs %s on the twin with other stylus data", what, k, Str(r).c_str(), Str(t).c_str());
            if (mask == 1 ? !SameF(r.pressure, t.pressure) : mask == 2 ? !SameF(r.tilt, t.tilt) : !SameF(r.orientation, t.orientation)) { COUNT("fields.varied_differs"); differ = true; }
            if (r.pressure == -1 || r.tilt == -1 || r.orientation == -1) COUNT("fields.unknown");
            if ((mask != 1 && !SameF(r.pressure, t.pressure)) || (mask != 2 && !SameF(r.tilt, t.tilt)) || (mask != 4 && !SameF(r.orientation, t.orientation)))
              Fail("fields", "%s result %zu: %s vs %s although only stylus value %d of the inputs differs", what, k, Str(r).c_str(), Str(t).c_str(), mask);
          } else {
            COUNT("predictor.results");
            if (w.p.position_modeler_params.loop_contraction_mitigation_params.is_enabled) COUNT("predictor.loop");
            if (!Same(r, t)) Fail("predictor", "%s result %zu: %s vs %s with another predictor", what, k, Str(r).c_str(), Str(t).c_str());
          }
        }
      };
      compare(x, y, "Update");
      if (rng.P(.3)) {
        Obs p = a.Predict(), r = b.Predict();
        if (p.ok() && r.ok() && same_pred) {
          compare(p, r, "Predict");
          if (mode == 0) COUNTN("motion.predicted", p.r.size());
        }
      }
    }
    // The Up may have been rejected.
    a.Reset0();
    b.Reset0();
  }
  if (n >= 10 && differ) NonTrivial();
}
}  // namespace vf
