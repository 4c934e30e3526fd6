// C17: reset makes a stroke independent of the past.   C27 uses the same history machinery.
#include "brushgen.hpp"
#include "refdab.hpp"
using namespace pbt;
static void compare(Case &c, RecSurf &a, size_t a0, RecSurf &b, const char *what) {
  size_t n = std::min(a.dabs.size() - a0, b.dabs.size());
  for (size_t i = 0; i < n; i++) if (!same_bits(a.dabs[a0 + i], b.dabs[i])) c.fail(what, "dab %zu is %s instead of %s", i, str(a.dabs[a0 + i]).c_str(), str(b.dabs[i]).c_str());
  if (a.dabs.size() - a0 != b.dabs.size()) c.fail(what, "%zu dabs instead of %zu", a.dabs.size() - a0, b.dabs.size());
}
static void states(Case &c, MyPaintBrush *a, MyPaintBrush *b, const char *what, int i) {
  for (int k = 0; k < MYPAINT_BRUSH_STATES_COUNT; k++) { float u = mypaint_brush_get_state(a, (MyPaintBrushState)k), v = mypaint_brush_get_state(b, (MyPaintBrushState)k); if (memcmp(&u, &v, 4) && !(u == v)) c.fail(what, "after event %d state %d is %.9g instead of %.9g", i, k, u, v); }
  for (int k = 0; k < 300; k++) { float p[9], q[9]; int x = mypaint_brush_get_smudge_bucket_state(a, k, p, p + 1, p + 2, p + 3, p + 4, p + 5, p + 6, p + 7, p + 8), y = mypaint_brush_get_smudge_bucket_state(b, k, q, q + 1, q + 2, q + 3, q + 4, q + 5, q + 6, q + 7, q + 8);
    if (x != y) c.fail(what, "bucket %d exists in one brush only", k); if (!x) break; for (int j = 0; j < 9; j++) if (!(p[j] == q[j]) && memcmp(p + j, q + j, 4)) c.fail(what, "after event %d smudge bucket %d value %d is %.9g instead of %.9g", i, k, j, p[j], q[j]); }
}
static void past(Case &c, Brush &b, RecSurf &s, int buckets) {
  int n = 1 + c.below(15); Pen pen(c, c.real(-300, 300, 100), c.real(-300, 300, 100)); c.log("past:");
  for (int i = 0; i < n; i++) {
    Event e = pen.next(c, 40); if (c.chance(1, 12)) { e.x = c.pick({NAN, INFINITY, 1e9f, 5000.0f}); } if (c.chance(1, 12)) e.dtime = 20; c.log(" %s", str(e).c_str()); stroke(b, s.iface(), e);
    if (buckets && c.chance(1, 4)) { int k = c.below(buckets); mypaint_brush_set_smudge_bucket_state(b, k, c.real(0, 1, .5), .1, .2, .9, .3, .4, .5, .6, c.real(0, 1, 1)); c.log(" bucket %d written", k); }
  }
}
static bool scheduled(int s) { return random_setting(s) || s == SET(STROKE_HOLDTIME); }
FACET(reset, 4000, 200000, "a brush (any settings without randomness, smudge buckets) with any past, then reset or a pause of more than 5 s, then a stroke, against a fresh brush painting the same stroke: the re-establishing event paints nothing, and all dabs, states and smudge buckets afterwards are bit-identical; non-trivial: the past painted and >= 2 dabs follow") {
  int buckets = c.chance(1, 2) ? 1 + c.below(12) : 0; Brush a(buckets), b(buckets); BrushOpts o; o.randoms = false; o.rhi = 3.5; gen_brush(c, a, o); if (c.chance(1, 2)) { a.set(SET(SMUDGE), 0.5); a.set(SET(SMUDGE_BUCKET), c.near(0, 14, 0)); } if (c.chance(1, 3)) a.set(SET(SLOW_TRACKING), c.real(0, 10, 3)); if (c.chance(1, 3)) a.set(SET(SLOW_TRACKING_PER_DAB), c.real(0, 10, 3));
  copy_settings(a, b); RecSurf sa, sb; sa.color = sb.color = pick_color; past(c, a, sa, buckets);
  bool painted = !sa.dabs.empty(); size_t d0 = sa.dabs.size(); bool pause = c.chance(1, 2);
  Pen pen(c, c.real(-100, 100, 0), c.real(-100, 100, 0)); Event e = pen.next(c, 10); if (pause) e.dtime = c.pick({5.001, 6.0, 30.0, 1000.0}); else { mypaint_brush_reset(a); if (c.chance(1, 6)) mypaint_brush_reset(a); }
  if (sa.dabs.size() != d0) c.fail("paint", "resetting painted");
  bool sep = c.chance(1, 2); if (sep) { mypaint_brush_new_stroke(a); mypaint_brush_new_stroke(b); }
  c.log("%s, then %s", pause ? "pause" : "reset", str(e).c_str());
  int r = stroke(a, sa.iface(), e), rb = stroke(b, sb.iface(), e);
  if (sa.dabs.size() != d0) c.fail("paint", "the first event after the reset painted %zu dabs", sa.dabs.size() - d0);
  if (!sb.dabs.empty()) c.fail("paint", "the first event of a new brush painted %zu dabs", sb.dabs.size());
  if (sep && !!r != !!rb) c.fail("result", "the first event returned %d instead of %d", r, rb);
  states(c, a, b, "state", 0);
  int n = 1 + c.below(12);
  for (int i = 0; i < n; i++) { Event f = pen.next(c, 30); c.log("%s", str(f).c_str()); int u = stroke(a, sa.iface(), f), v = stroke(b, sb.iface(), f); if (sep && !!u != !!v) c.fail("result", "event %d returned %d instead of %d", i, u, v); states(c, a, b, "state", i + 1); compare(c, sa, d0, sb, "dabs"); }
  if (painted && sb.dabs.size() >= 2) c.nontrivial();
}
// the starting position is re-established exactly where the event says
FACET(start, 2500, 120000, "after a reset the first event sets position and pressure states exactly to the event (no filter pulls them back to the past), whatever the tracking filters; non-trivial: a tracking filter is on") {
  Brush a; BrushOpts o; o.randoms = false; gen_brush(c, a, o); a.set(SET(SLOW_TRACKING), c.real(0, 10, 3)); a.set(SET(SLOW_TRACKING_PER_DAB), c.real(0, 10, 0)); RecSurf s; past(c, a, s, 0);
  Pen pen(c, c.real(-3000, 3000, 0), c.real(-3000, 3000, 0)); Event e = pen.next(c, 10); bool pause = c.chance(1, 2); if (pause) e.dtime = c.pick({5.001, 60.0}); else { e.dtime = c.real(0.001, 0.09, 0.01); mypaint_brush_reset(a); } c.log("%s %s", pause ? "pause" : "reset", str(e).c_str());
  size_t n = s.dabs.size(); int r = stroke(a, s.iface(), e); if (s.dabs.size() != n) c.fail("paint", "the event painted");
  if (!pause && !r) c.fail("result", "the re-establishing event did not report the end of a stroke");
  if (a.get(SET(SLOW_TRACKING)) > 0.01) c.nontrivial();
  if (a.state(ST(X)) != e.x || a.state(ST(Y)) != e.y || a.state(ST(ACTUAL_X)) != e.x || a.state(ST(ACTUAL_Y)) != e.y) c.fail("position", "start established at (%.9g,%.9g), drawn at (%.9g,%.9g), the event was at (%.9g,%.9g)", a.state(ST(X)), a.state(ST(Y)), a.state(ST(ACTUAL_X)), a.state(ST(ACTUAL_Y)), e.x, e.y);
  if (fabs(a.state(ST(PRESSURE)) - std::max(0.0f, e.pressure)) > 1e-6) c.fail("position", "pressure %.9g, the event had %.9g", a.state(ST(PRESSURE)), e.pressure);
}
PBT_MAIN("C17", "no randomness: the generator is not part of what a reset clears", "pauses are decided on the time step handed to stroke_to")
