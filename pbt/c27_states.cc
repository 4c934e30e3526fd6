// C27: saving and restoring states replays the rest of a stroke.
#include "brushgen.hpp"
#include "refdab.hpp"
using namespace pbt;
static void copy_states(MyPaintBrush *a, MyPaintBrush *b, bool reversed) {
  for (int q = 0; q < MYPAINT_BRUSH_STATES_COUNT; q++) { int k = reversed ? MYPAINT_BRUSH_STATES_COUNT - 1 - q : q; mypaint_brush_set_state(b, (MyPaintBrushState)k, mypaint_brush_get_state(a, (MyPaintBrushState)k)); }
  int lo = mypaint_brush_get_min_smudge_bucket_used(a), hi = mypaint_brush_get_max_smudge_bucket_used(a);
  for (int k = lo; lo >= 0 && k <= hi; k++) { float p[9]; if (mypaint_brush_get_smudge_bucket_state(a, k, p, p + 1, p + 2, p + 3, p + 4, p + 5, p + 6, p + 7, p + 8)) mypaint_brush_set_smudge_bucket_state(b, k, p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7], p[8]); }
}
FACET(replay, 4000, 200000, "a stroke interrupted anywhere; all states and the used smudge buckets are copied into another brush with the same settings and another past; the rest of the stroke gives bit-identical dabs and states in both; non-trivial: >= 2 dabs follow and the states differed before copying") {
  int buckets = c.chance(1, 2) ? 1 + c.below(12) : 0; Brush a(buckets), b(buckets); BrushOpts o; o.randoms = false; o.rhi = 3.5; o.allow = [](int s) { return s != SET(GRIDMAP_SCALE) && s != SET(GRIDMAP_SCALE_X) && s != SET(GRIDMAP_SCALE_Y); }; gen_brush(c, a, o); if (c.chance(1, 2)) { a.set(SET(SMUDGE), 0.5); a.set(SET(SMUDGE_BUCKET), c.near(0, 14, 0)); } if (c.chance(1, 2)) { a.set(SET(GRIDMAP_SCALE), c.real(-1, 1, 0)); a.set(SET(GRIDMAP_SCALE_X), c.real(0, 4, 1)); a.curve(SET(OPAQUE), INP(GRIDMAP_X), {{0, -0.3f}, {256, 0.3f}}); }
  while (c.more(3)) { int s = c.pick({(int)SET(DABS_PER_SECOND), (int)SET(DABS_PER_ACTUAL_RADIUS), (int)SET(DABS_PER_BASIC_RADIUS), (int)SET(RADIUS_LOGARITHMIC), (int)SET(ELLIPTICAL_DAB_RATIO), (int)SET(ELLIPTICAL_DAB_ANGLE), (int)SET(SLOW_TRACKING), (int)SET(SLOW_TRACKING_PER_DAB), (int)SET(DIRECTION_FILTER)}), in = c.pick({(int)INP(PRESSURE), (int)INP(PRESSURE), (int)INP(SPEED1), (int)INP(DIRECTION), (int)INP(STROKE), (int)INP(CUSTOM)}); double w = s == SET(DABS_PER_SECOND) ? 40 : s == SET(ELLIPTICAL_DAB_ANGLE) ? 90 : 1; float v0 = c.real(-1, 1, 0) * w, v1 = c.real(-1, 1, 1) * w, x1 = in == INP(DIRECTION) ? 180 : 1; a.curve(s, in, {{0, v0}, {x1, v1}}); c.log("curve %s <- %s: (0,%g) (%g,%g)", sname(s), iname(in), v0, x1, v1); }
  copy_settings(a, b); RecSurf sa, sb; sa.color = sb.color = pick_color; sa.on_dab = [&](const Dab &) { if (sa.dabs.size() > 20000) throw Discard(); return 1; }; sb.on_dab = [](const Dab &) { return 1; }; int n = 1 + c.below(15); Pen pen(c, c.real(-300, 300, 100), c.real(-300, 300, 100));
  Event first = pen.next(c, 20); first.dtime = 6; stroke(a, sa.iface(), first); c.log("%s", str(first).c_str()); for (int i = 0; i < n; i++) { Event e = pen.next(c, 30); c.log("%s", str(e).c_str()); stroke(a, sa.iface(), e); if (c.chance(1, 12)) { mypaint_brush_new_stroke(a); c.log("new stroke"); } }
  // the other brush: only needs not to have a reset pending
  Event e0 = {c.chance(1, 2) ? 0.0f : 77.0f, 5, 0, 0, 0, 10, 1, 0, 0, 0}; stroke(b, sb.iface(), e0); if (buckets == 0 && c.chance(1, 2)) { Event e1 = {30, 9, 0.6, 0.3, 0.1, 0.05, 1, 0, 0, 0}; stroke(b, sb.iface(), e1); }
  int differ = 0; for (int k = 0; k < MYPAINT_BRUSH_STATES_COUNT; k++) differ += a.state(k) != b.state(k);
  copy_states(a, b, c.chance(1, 2)); c.log("states copied");
  for (int k = 0; k < MYPAINT_BRUSH_STATES_COUNT; k++) { float u = a.state(k), v = b.state(k); if (memcmp(&u, &v, 4)) c.fail("roundtrip", "state %d was set to %.9g and reads %.9g", k, u, v); }
  size_t da = sa.dabs.size(), db = sb.dabs.size(); int m = 1 + c.below(12);
  for (int i = 0; i < m; i++) {
    Event e = pen.next(c, 30); c.log("%s", str(e).c_str()); stroke(a, sa.iface(), e); stroke(b, sb.iface(), e);
    if (sa.dabs.size() - da != sb.dabs.size() - db) c.fail("dabs", "event %d: %zu dabs in the original, %zu in the restored brush", i, sa.dabs.size() - da, sb.dabs.size() - db);
    for (size_t k = 0; k < sa.dabs.size() - da; k++) if (!same_bits(sa.dabs[da + k], sb.dabs[db + k])) c.fail("dabs", "dab %zu: %s in the original, %s in the restored brush", k, str(sa.dabs[da + k]).c_str(), str(sb.dabs[db + k]).c_str());
    for (int k = 0; k < MYPAINT_BRUSH_STATES_COUNT; k++) { float u = a.state(k), v = b.state(k); if (memcmp(&u, &v, 4) && u != v) c.fail("states", "event %d: state %d is %.9g in the original, %.9g in the restored brush", i, k, u, v); }
  }
  if (sa.dabs.size() - da >= 2 && differ > 3) c.nontrivial();
}
FACET(single, 3000, 150000, "writing any finite value to any state reads back exactly and changes no other state, setting or bucket; non-trivial: always") {
  Brush b(4); RecSurf s; Event e = {3, 4, 0.5, 0.1, 0.2, 6, 1, 0, 0, 0}; stroke(b, s.iface(), e); e.x = 20; e.dtime = 0.1; stroke(b, s.iface(), e); c.nontrivial();
  std::vector<float> m; for (int k = 0; k < MYPAINT_BRUSH_STATES_COUNT; k++) m.push_back(b.state(k));
  do { int k = c.below(MYPAINT_BRUSH_STATES_COUNT); float v = c.pick({0.0f, 1.0f, -1.0f, 1e-30f, 1e30f, -7.25f, 1e8f, 0.1f}); if (c.chance(1, 2)) v = c.real(-1000, 1000, 3); mypaint_brush_set_state(b, (MyPaintBrushState)k, v); m[k] = v; c.log("state %d = %.9g", k, v);
    for (int j = 0; j < MYPAINT_BRUSH_STATES_COUNT; j++) if (b.state(j) != m[j]) c.fail("roundtrip", "state %d reads %.9g instead of %.9g", j, b.state(j), m[j]); } while (c.more(6));
}
PBT_MAIN("C27", "no randomness (the generator is not a state), no dynamics on the grid map scale (evaluated values are not states)", "stroke time accounting is not part of the states")
