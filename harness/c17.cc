// C17: normal projection.
#define VERIF_C17
namespace vf { constexpr bool kNormal = true; }
#include "c16.cc"
namespace vf {
const char* kProperty = "C17";
const char* kRule =
    "Random strokes with normal projection (loops, reversals, sharp turns, stationary phases) and "
    "varying, wrapping or missing stylus values; the stylus values of every result and prediction "
    "must be those of an admissible intersection of the stroke normal with the recent-input "
    "polyline (side, distance, fall-back and window rules recomputed in double precision with "
    "rounding margins). Non-trivial: varying values were checked on a point determined to better "
    "than 5% of its segment.";
int DirectedCases() { return 1; }
std::vector<Floor> Floors() {
  return {{"checked", 20000}, {"sharp", 3000}, {"sharp.interior", 1000}, {"unknown", 1000}, {"predicted", 2000}, {"up", 1000},
          {"both_sides", 200}, {"neither_side", 500}, {"no_normal", 50}, {"wobble", 1000}, {"first_of_move_directed", 1}};
}
void RunCase(uint64_t index, Rng rng) {
  WorldOpts wo;
  wo.loop = kOff;
  wo.normal = kOn;
  wo.wobble = rng.P(.7) ? kOff : kOn;
  wo.dyadic = rng.P(.1);
  if (index == 0) {
    // Known finding: a fixed history in which the first result of the second
    // Move is read off with the documented normal.
    World w;
    w.p.wobble_smoother_params = {.is_enabled = false};
    w.p.sampling_params = {.min_output_rate = 20, .end_of_stroke_stopping_distance = .001f};
    w.p.stylus_state_modeler_params.use_stroke_normal_projection = true;
    w.p.stylus_state_modeler_params.min_input_samples = 10;
    w.p.stylus_state_modeler_params.min_sample_duration = Duration(10);
    w.p.position_modeler_params.spring_mass_constant = .01f;
    w.p.position_modeler_params.drag_constant = 5;
    w.p.prediction_params = DisabledPredictorParams{};
    Mon m("A");
    if (!m.ResetP(w.p).ok()) Die("directed params rejected");
    Checker c(w);
    c.strict_first = true;
    COUNT("first_of_move_directed");
    std::vector<Input> st{In(EventType::kDown, 0, 0, 0, 0, 0, 0)};
    for (int i = 1; i < 12; ++i)
      st.push_back(In(EventType::kMove, 10 * std::sin(i * .5), 10 - 10 * std::cos(i * .5), i * .2, i * .05, i * .05, i * .2));
    c.Run(m, st, rng, 0);
    return;
  }
  World w = GenWorld(rng, wo);
  Mon m("A");
  if (!m.ResetP(w.p).ok()) Die("valid params rejected");
  bool nt = false;
  for (int s = rng.I(1, 2); s > 0; --s) {
    StrokeOpts so;
    so.max_dt_steps = 30;
    if (rng.P(.6)) so.stylus_style = rng.Pick({kSFull, kSJumpy, kSWrap, kSDrop});
    Checker c(w);
    c.Run(m, GenStroke(rng, w, so), rng, .25);
    nt |= c.nt;
    m.Reset0();
  }
  if (nt) NonTrivial();
}
}  // namespace vf
