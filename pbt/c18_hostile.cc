// C18: whatever the tablet sends, dabs are finite and sane and states recover.
#include "brushgen.hpp"
using namespace pbt;
static void sane(Case &c, const Dab &d, double maxr) {
  for (int i = 0; i < Dab::N; i++) if (!std::isfinite(d.v()[i])) c.fail("finite", "%s is %g in %s", dab_field(i), d.v()[i], str(d).c_str());
  if (!(d.opaque >= 0 && d.opaque <= 1)) c.fail("opacity", "%s", str(d).c_str());
  if (!(d.radius > 0 && d.radius <= maxr)) c.fail("radius", "larger than %g: %s", maxr, str(d).c_str());
  if (!(d.softness >= 0 && d.softness <= 1)) c.fail("softness", "%s", str(d).c_str());
  if (!(d.paint >= 0 && d.paint <= 1)) c.fail("pigment", "%s", str(d).c_str());
  if (!(fabs(d.x) <= 1e8 && fabs(d.y) <= 1e8)) c.fail("position", "%s", str(d).c_str());
}
static void finite_states(Case &c, Brush &b, const char *when) {
  for (int k = 0; k < MYPAINT_BRUSH_STATES_COUNT; k++) { float u = b.state(k); if (!std::isfinite(u)) c.fail("state", "%s state %d is %g", when, k, u); }
  if (!(b.state(ST(DECLINATION)) >= -0.01 && b.state(ST(DECLINATION)) <= 90.01 && fabs(b.state(ST(DECLINATIONX))) <= 60.01 && fabs(b.state(ST(DECLINATIONY))) <= 60.01)) c.fail("tilt", "%s the declination is %g, in x %g, in y %g", when, b.state(ST(DECLINATION)), b.state(ST(DECLINATIONX)), b.state(ST(DECLINATIONY)));
}
// hostile events: any of the fields may be absurd. far: how far coordinates go.
struct Hostile {
  float x = 100, y = 100; double far; bool bad = false;
  Event next(Case &c, double step) {
    Event e = {x, y, 0.5, 0, 0, 0.01, 1, 0, 0, (int)c.below(2)};
    switch (c.below(7)) {
      case 0: break;
      case 1: case 2: x += c.real(-step, step, step / 2); y += c.real(-step, step, step / 4); e.x = x; e.y = y; break;
      case 3: x = c.real(-far, far, 0); y = c.real(-far, far, 0); e.x = x; e.y = y; break;
      case 4: (c.chance(1, 2) ? e.x : e.y) = c.pick({NAN, INFINITY, -INFINITY}); bad = true; break;
      case 5: (c.chance(1, 2) ? e.x : e.y) = c.pick({1e8f, -1e8f, 99999992.0f, 1e9f, 9.9e9f, -1e10f, 1e20f, 3.4e38f, -3.4e38f, 2147483648.0f}); if (fabs(e.x) < 1e8 && fabs(e.y) < 1e8) { if (far < 1e7) e.x = 1e9f; else { x = e.x; y = e.y; } } bad = true; break;
      case 6: e.x = x += c.real(-1e-3, 1e-3, 1e-38); break;
    }
    switch (c.below(9)) { case 0: case 1: break; case 2: e.pressure = 0; break; case 3: e.pressure = c.pick({-0.0f, -1e-30f, -0.5f, -1e30f}); break; case 4: e.pressure = c.pick({1.0f, 1.5f, 10.0f, 1e6f, 1e30f, 3e38f}); bad = true; break; case 5: e.pressure = c.pick({NAN, INFINITY, -INFINITY}); bad = true; break; default: e.pressure = c.real(0, 1, 1); }
    switch (c.below(6)) { case 0: case 1: break; case 2: e.xtilt = c.real(-1, 1, 0); e.ytilt = c.real(-1, 1, 0); break; case 3: e.xtilt = c.pick({5.0f, -90.0f, 1e30f, 1e-30f}); e.ytilt = c.pick({0.0f, -60.0f, 1e30f, -1e-38f}); bad = true; break; case 4: (c.chance(1, 2) ? e.xtilt : e.ytilt) = c.pick({INFINITY, -INFINITY, 900.0f, -900.0f}); bad = true; break; case 5: e.xtilt = 1e-44f; e.ytilt = -1e-44f; }
    switch (c.below(9)) { case 0: case 1: break; case 2: e.dtime = 0; break; case 3: e.dtime = c.pick({-1e-9, -0.5, -1e9}); bad = true; break; case 4: e.dtime = c.pick({1e-9, 1e-300, 5e-324, 1e-6}); bad = true; break; case 5: e.dtime = c.pick({0.1, 0.11, 1.0, 4.99, 5.0}); break; case 6: e.dtime = c.pick({5.0001, 60.0, 1e9, 1e300, (double)INFINITY}); break; default: e.dtime = c.real(0.0005, 0.05, 0.01); }
    if (c.chance(1, 6)) { e.zoom = c.pick({0.01f, 0.25f, 16.0f, 64.0f, 100.0f}); e.rot = c.pick({0.0f, 3.1415927f, -3.0f, 100.0f, -1e6f}); e.barrel = c.pick({0.0f, 0.5f, -1.0f, 7.0f, 1e6f}); }
    return e;
  }
};
static void steep(Case &c, Brush &b, const BrushOpts &o) {   // feedback, cliffs and large factors
  for (int k = c.below(4); k > 0; k--) {
    int s = c.below(MYPAINT_BRUSH_SETTINGS_COUNT), in = c.below(MYPAINT_BRUSH_INPUTS_COUNT); if (density(s) || (o.allow && !o.allow(s)) || sinfo(s)->constant) continue;
    float at = c.real(-1, 1, 0), w = c.pick({1e-30f, 1e-6f, 1e-3f, 0.1f, 1.0f}), lo = c.real(sinfo(s)->min, sinfo(s)->max, 0), hi = c.real(sinfo(s)->min, sinfo(s)->max, 1);
    b.curve(s, in, {{at, lo}, {at + w, hi}}); c.log("cliff %s <- %s: (%.9g,%.9g) (%.9g,%.9g)", sname(s), iname(in), at, lo, at + w, hi);
  }
}
static void rare_dabs(Case &c, Brush &b, bool huge) {
  if (!huge) return;   // a jump of 1e8 pixels must not take millions of dabs
  b.set(SET(DABS_PER_ACTUAL_RADIUS), c.chance(1, 2) ? (float)c.real(0, 6, 0) * 1e-6f : 0); b.set(SET(DABS_PER_BASIC_RADIUS), c.chance(1, 2) ? (float)c.real(0, 6, 0) * 1e-6f : 0); b.set(SET(DABS_PER_SECOND), c.real(0, 80, 80));
}
FACET(stream, 2500, 150000, "any settings and dynamics (random ones, cliffs, feedback of the custom input) with any event stream: NaN, infinite and huge coordinates and pressures, out-of-range tilt, zero, negative, tiny, long and infinite time steps; every dab is finite and within its limits, all states stay finite; non-trivial: >= 3 dabs and some absurd event") {
  Brush b(c.chance(1, 2) ? (int)c.below(5) : -1); BrushOpts o; o.allow = [](int s) { return s != SET(ANTI_ALIASING) && s != SET(ELLIPTICAL_DAB_RATIO); }; o.rhi = 6; gen_brush(c, b, o); steep(c, b, o); if (c.chance(1, 2)) { b.set(SET(ELLIPTICAL_DAB_RATIO), c.real(1, 10, 2)); b.curve(SET(ELLIPTICAL_DAB_RATIO), INP(TILT_ASCENSION), {{-180, 0}, {180, 5}}); }  // (the ratio multiplies the number of dabs)
  float aa = c.chance(1, 4) ? c.pick({1e-9f, 1e-7f, 1e-5f, 1e-3f}) : (float)c.real(0, 5, 1); b.set(SET(ANTI_ALIASING), aa); for (int i = 0; i < MYPAINT_BRUSH_INPUTS_COUNT; i++) mypaint_brush_set_mapping_n(b, MYPAINT_BRUSH_SETTING_ANTI_ALIASING, (MyPaintBrushInput)i, 0);
  bool rnd = c.chance(1, 3); if (rnd) { b.set(SET(RADIUS_BY_RANDOM), c.real(0, 1.5, 0.5)); b.set(SET(OFFSET_BY_RANDOM), c.real(0, 25, 1)); b.set(SET(TRACKING_NOISE), c.real(0, 12, 1)); }
  bool huge = c.chance(1, 2); rare_dabs(c, b, huge); Hostile h; h.far = huge ? 9.9e7 : 3000;
  RecSurf s; s.color = pick_color; s.on_dab = [&](const Dab &d) { sane(c, d, (1000 + aa / 2 + 0.25) * 1.00001); if (s.dabs.size() > 30000) throw Discard(); return c.h & 1; };
  int n = 1 + c.below(25); double R = std::min(300.0, std::max(1.0, exp(b.get(SET(RADIUS_LOGARITHMIC)))));
  for (int i = 0; i < n; i++) {
    Event e = h.next(c, R * 2); c.log("%s", str(e).c_str()); stroke(b, s.iface(), e); finite_states(c, b, "after an event");
    for (auto &p : s.picks) if (!std::isfinite(p.x) || !std::isfinite(p.y) || !(p.radius > 0 && p.radius <= 1000)) c.fail("pick", "color picked at (%g,%g) radius %g", p.x, p.y, p.radius);
    s.picks.clear(); c.checkpoint();
  }
  if (s.dabs.size() >= 3 && h.bad) c.nontrivial(); if (huge) c.label("huge coordinates");
}
FACET(far, 1500, 80000, "strokes of ordinary steps anywhere up to 1e8 pixels from the origin, where dab steps can vanish in the rounding of coordinates, for any radius and dab rate: ends, dabs stay sane and near the pen; non-trivial: further than 1e6 pixels") {
  Brush b; b.set(SET(RADIUS_LOGARITHMIC), c.real(-2, 4, 1)); b.set(SET(DABS_PER_ACTUAL_RADIUS), c.real(0, 6, 2)); b.set(SET(DABS_PER_BASIC_RADIUS), c.real(0, 6, 0)); b.set(SET(DABS_PER_SECOND), c.real(0, 80, 0)); b.set(SET(ELLIPTICAL_DAB_RATIO), c.real(1, 10, 1)); b.set(SET(ELLIPTICAL_DAB_ANGLE), c.real(0, 180, 90));
  if (c.chance(1, 2)) b.curve(SET(RADIUS_LOGARITHMIC), INP(PRESSURE), {{0, -1}, {1, 1}}); b.set(SET(SLOW_TRACKING), c.real(0, 10, 0)); b.set(SET(SLOW_TRACKING_PER_DAB), c.real(0, 10, 0));
  double m = pow(10, c.real(2, 8, 8)), ang = c.real(0, 6.28, 0); float x = m * cos(ang) * 0.9999, y = m * sin(ang) * 0.9999; c.log("around (%.9g,%.9g), radius exp(%g)", x, y, b.get(SET(RADIUS_LOGARITHMIC)));
  RecSurf s; double lo[2] = {x, y}, hi[2] = {x, y}; s.on_dab = [&](const Dab &d) { sane(c, d, 1001); if (s.dabs.size() > 60000) throw Discard(); return 1; };
  Event e = {x, y, 0, 0, 0, 10, 1, 0, 0, 0}; stroke(b, s.iface(), e); int n = 1 + c.below(12); if (m > 1e6) c.nontrivial();
  for (int i = 0; i < n; i++) {
    Pen pen(c, x, y); pen.view = false; e = pen.next(c, 30); x = e.x; y = e.y; if (fabs(x) >= 1e8 || fabs(y) >= 1e8) c.discard(); lo[0] = std::min(lo[0], (double)x); hi[0] = std::max(hi[0], (double)x); lo[1] = std::min(lo[1], (double)y); hi[1] = std::max(hi[1], (double)y); c.log("%s", str(e).c_str()); size_t k = s.dabs.size(); stroke(b, s.iface(), e); finite_states(c, b, "after an event");
    double t = 1e-3 + 4e-7 * m; for (; k < s.dabs.size(); k++) { const Dab &d = s.dabs[k]; if (d.x < lo[0] - t || d.x > hi[0] + t || d.y < lo[1] - t || d.y > hi[1] + t) c.fail("astray", "dab %zu at (%.9g,%.9g) is outside the area the pen moved in (%.9g..%.9g, %.9g..%.9g)", k, d.x, d.y, lo[0], hi[0], lo[1], hi[1]); }
  }
}
FACET(offset, 2500, 150000, "any combination of directional offsets, multipliers and dynamics on them: a dab is at most 3240 pixels from the pen in each axis; non-trivial: an offset above 1 pixel") {
  Brush b; auto off = [](int s) { return s == SET(OFFSET_X) || s == SET(OFFSET_Y) || s == SET(OFFSET_ANGLE) || s == SET(OFFSET_ANGLE_ASC) || s == SET(OFFSET_ANGLE_VIEW) || s == SET(OFFSET_ANGLE_2) || s == SET(OFFSET_ANGLE_2_ASC) || s == SET(OFFSET_ANGLE_2_VIEW) || s == SET(OFFSET_ANGLE_ADJ) || s == SET(OFFSET_MULTIPLIER); };
  BrushOpts o; o.allow = off; o.avg = 12; o.rhi = 6; o.randoms = false; static const int all[] = {SET(OFFSET_X), SET(OFFSET_Y), SET(OFFSET_ANGLE), SET(OFFSET_ANGLE_ASC), SET(OFFSET_ANGLE_VIEW), SET(OFFSET_ANGLE_2), SET(OFFSET_ANGLE_2_ASC), SET(OFFSET_ANGLE_2_VIEW)};
  gen_brush(c, b, o); b.set(SET(OFFSET_BY_RANDOM), 0); b.set(SET(TRACKING_NOISE), 0); for (int i = c.below(4); i > 0; i--) { int s = all[c.below(8)]; b.set(s, c.real(sinfo(s)->min, sinfo(s)->max, 1)); c.log("set %s %g", sname(s), b.get(s)); } if (c.chance(1, 2)) { b.set(SET(OFFSET_MULTIPLIER), c.real(-2, 3, 0)); c.log("multiplier %g", b.get(SET(OFFSET_MULTIPLIER))); } steep(c, b, o);
  RecSurf s; bool nt = false; s.on_dab = [&](const Dab &d) { sane(c, d, 1001); double dx = d.x - b.state(ST(ACTUAL_X)), dy = d.y - b.state(ST(ACTUAL_Y)); if (fabs(dx) > 1 || fabs(dy) > 1) nt = true; if (!(fabs(dx) <= 3240.01 && fabs(dy) <= 3240.01)) c.fail("offset", "dab (%g,%g) away from the pen", dx, dy); if (s.dabs.size() > 20000) throw Discard(); return 1; };
  Pen pen(c, 0, 0); Event e = pen.next(c, 10); e.dtime = 10; stroke(b, s.iface(), e); int n = 1 + c.below(12); for (int i = 0; i < n; i++) { e = pen.next(c, 60); c.log("%s", str(e).c_str()); stroke(b, s.iface(), e); } if (nt) c.nontrivial();
}
// recovery: a plain brush is back to ordinary dabs as soon as ordinary events come in
FACET(recover, 3000, 150000, "a brush without filters, any hostile event stream, then ordinary events: from the second one on, every dab lies on the pen's path between the events with exactly the ordinary radius, colour, opacity and shape; non-trivial: absurd events before, >= 3 dabs after") {
  Brush b; float rl = c.real(-1, 4, 2), op = c.real(0.05, 1, 1), hard = c.real(0, 1, 0.5); bool press = c.chance(1, 2); b.set(SET(RADIUS_LOGARITHMIC), rl); bound_density(c, b); b.set(SET(HARDNESS), hard); b.set(SET(ANTI_ALIASING), 0); b.set(SET(OPAQUE_LINEARIZE), 0); b.set(SET(SLOW_TRACKING), 0); b.set(SET(SLOW_TRACKING_PER_DAB), 0);
  for (int i = 0; i < MYPAINT_BRUSH_INPUTS_COUNT; i++) for (int k : {SET(OPAQUE_MULTIPLY), SET(OPAQUE)}) mypaint_brush_set_mapping_n(b, (MyPaintBrushSetting)k, (MyPaintBrushInput)i, 0); b.set(SET(OPAQUE_MULTIPLY), 1); if (press) { b.set(SET(OPAQUE), 0); b.curve(SET(OPAQUE), INP(PRESSURE), {{0, 0}, {1, op}}); } else b.set(SET(OPAQUE), op);
  b.set(SET(COLOR_H), 0.3); b.set(SET(COLOR_S), 0.6); b.set(SET(COLOR_V), 0.8); bool huge = c.chance(1, 2); float act = b.get(SET(DABS_PER_ACTUAL_RADIUS)), bas = b.get(SET(DABS_PER_BASIC_RADIUS)), sec = b.get(SET(DABS_PER_SECOND)); rare_dabs(c, b, huge); Hostile h; h.far = huge ? 9.9e7 : 2000; RecSurf s; s.on_dab = [&](const Dab &d) { sane(c, d, 1001); if (s.dabs.size() > 30000) throw Discard(); return 1; };
  int n = 1 + c.below(12); double R = std::max(0.2, std::min(1000.0, exp(rl)));
  for (int i = 0; i < n; i++) { Event e = h.next(c, R * 2); c.log("hostile %s", str(e).c_str()); stroke(b, s.iface(), e); }
  b.set(SET(DABS_PER_ACTUAL_RADIUS), 0); b.set(SET(DABS_PER_BASIC_RADIUS), 0); b.set(SET(DABS_PER_SECOND), 0);
  Pen pen(c, 0, 0); pen.view = pen.tilt = false; Event prev = pen.next(c, R); prev.dtime = 0.01; for (int k = 0; k < 3; k++) { stroke(b, s.iface(), prev); c.log("ordinary %s", str(prev).c_str()); }
  b.set(SET(DABS_PER_ACTUAL_RADIUS), act); b.set(SET(DABS_PER_BASIC_RADIUS), bas); b.set(SET(DABS_PER_SECOND), sec); stroke(b, s.iface(), prev); stroke(b, s.iface(), prev); size_t after = s.dabs.size(); n = 1 + c.below(6); float rad = 0; { float v[3] = {0.3f, 0.6f, 0.8f}; (void)v; }
  for (int i = 0; i < n; i++) {
    Event e = pen.next(c, R * 3); if (e.dtime > 0.09) e.dtime = 0.09; c.log("ordinary %s", str(e).c_str()); size_t k = s.dabs.size(); stroke(b, s.iface(), e);
    for (; k < s.dabs.size(); k++) {
      const Dab &d = s.dabs[k]; double dx = e.x - prev.x, dy = e.y - prev.y, L = dx * dx + dy * dy, t = L > 0 ? ((d.x - prev.x) * dx + (d.y - prev.y) * dy) / L : 0; t = std::min(1.0, std::max(0.0, t)); double ex = prev.x + t * dx - d.x, ey = prev.y + t * dy - d.y;
      if (hypot(ex, ey) > 2e-3 + 1e-6 * (fabs(d.x) + fabs(d.y))) c.fail("path", "after bad input dab %zu at (%.9g,%.9g) is %g off the path (%g,%g)-(%g,%g)", k, d.x, d.y, hypot(ex, ey), prev.x, prev.y, e.x, e.y);
      if (fabs(d.radius - R) > 1e-4 * R) c.fail("ordinary", "after bad input a dab has radius %.9g instead of %.9g", d.radius, R);
      double lo = std::min(prev.pressure, e.pressure), hi = std::max(prev.pressure, e.pressure); double wl = press ? lo * op : op, wh = press ? hi * op : op; if (d.opaque < wl - 1e-3 || d.opaque > wh + 1e-3) c.fail("ordinary", "after bad input a dab has opacity %.9g, expected %.9g..%.9g", d.opaque, wl, wh);
      if (fabs(d.hardness - hard) > 1e-4 || d.aspect != 1 || d.color_a != 1 || fabs(d.r - 0.8 * (1 - 0.6 * 0.8)) > 1e-3 || fabs(d.g - 0.8) > 1e-3) c.fail("ordinary", "after bad input: %s", str(d).c_str());
    }
    prev = e;
  }
  if (h.bad && s.dabs.size() - after >= 3) c.nontrivial(); (void)rad;
}
// insane fields count as their documented replacement
FACET(replaced, 2500, 60000, "any brush and event stream in which coordinates are insane (not finite or beyond 1e8), pressures negative or not finite, or time steps not positive, against the same stream with these fields written out as their replacements (lifted pen at the origin in the plain view, no pressure, 0.1 ms): same dabs, states and return values; non-trivial: an insane field and >= 3 dabs") {
  Brush a, b; { BrushOpts o; o.rhi = 4; o.allow = [](int s) { return s != SET(ELLIPTICAL_DAB_RATIO); }; gen_brush(c, a, o); mypaint_brush_set_mapping_n(a, MYPAINT_BRUSH_SETTING_ANTI_ALIASING, MYPAINT_BRUSH_INPUT_RANDOM, 0); }
  a.set(SET(DABS_PER_ACTUAL_RADIUS), a.get(SET(DABS_PER_ACTUAL_RADIUS)) * 0.3f); a.set(SET(DABS_PER_BASIC_RADIUS), a.get(SET(DABS_PER_BASIC_RADIUS)) * 0.3f);
  if (c.chance(1, 2)) a.curve(SET(RADIUS_LOGARITHMIC), INP(BARREL_ROTATION), {{0, 0}, {360, 1}});
  copy_settings(a, b);
  RecSurf s, t; s.color = t.color = pick_color; s.on_dab = t.on_dab = [&](const Dab &) { if (s.dabs.size() > 20000) throw Discard(); return 1; };
  Pen pen(c, 50, 50); int n = 2 + c.below(14), bad = 0;
  for (int i = 0; i < n; i++) {
    Event e = pen.next(c, 20); e.linear = c.below(2); if (c.chance(1, 3)) e.zoom = c.real(0.1, 8, 1); if (c.chance(1, 3)) e.rot = c.real(-3, 3, 0); if (c.chance(1, 3)) e.barrel = c.real(0, 6, 0); Event f = e;
    if (c.chance(1, 6)) { e.pressure = c.pick({-0.0f, -1e-30f, -0.5f, -1e30f, (float)NAN, INFINITY, -INFINITY}); f.pressure = 0; bad++; }
    if (c.chance(1, 6)) { e.dtime = c.pick({0.0, -0.0, -1e-9, -0.5, -1e9}); f.dtime = 0.0001; bad++; }
    if (c.chance(1, 5)) { (c.chance(1, 2) ? e.x : e.y) = c.pick({(float)NAN, INFINITY, -INFINITY, 1e8f, -1e8f, 9.9e9f, -1e10f, 1e20f, -3.4e38f}); f.x = f.y = f.pressure = f.rot = f.barrel = 0; f.zoom = 1; bad++; }
    c.log("%s", str(e).c_str()); int ra = stroke(a, s.iface(), e), rb = stroke(b, t.iface(), f);
    if (!!ra != !!rb) c.fail("replaced", "event %d returned %d, with the replacements %d", i, ra, rb);
    if (s.dabs.size() != t.dabs.size()) c.fail("replaced", "event %d: %zu dabs so far, with the replacements %zu", i, s.dabs.size(), t.dabs.size());
    for (int k = 0; k < MYPAINT_BRUSH_STATES_COUNT; k++) { float u = a.state(k), v = b.state(k); if (memcmp(&u, &v, 4) && u != v) c.fail("replaced", "event %d leaves state %d at %.9g, with the replacements at %.9g", i, k, u, v); }
  }
  for (size_t i = 0; i < s.dabs.size(); i++) if (str(s.dabs[i]) != str(t.dabs[i])) c.fail("replaced", "dab %zu is %s, with the replacements %s", i, str(s.dabs[i]).c_str(), str(t.dabs[i]).c_str());
  if (bad && s.dabs.size() >= 3) c.nontrivial();
}
// the whole pipeline
FACET(canvas, 400, 20000, "hostile event streams within a few thousand pixels painted on a real tiled surface: pixels stay valid, nothing crashes; non-trivial: painted") {
  Brush b; BrushOpts o; o.rhi = 2.5; o.curves = false; o.randoms = false; o.allow = [](int s) { return s != SET(ANTI_ALIASING) && s != SET(OFFSET_BY_SPEED) && s != SET(OFFSET_MULTIPLIER); }; gen_brush(c, b, o); b.set(SET(OFFSET_BY_RANDOM), 0); b.set(SET(TRACKING_NOISE), 0); b.set(SET(RADIUS_BY_RANDOM), 0);
  if (c.chance(1, 2)) b.curve(SET(OPAQUE), INP(PRESSURE), {{0, -0.5}, {1, 0.5}}); if (c.chance(1, 2)) b.curve(SET(RADIUS_LOGARITHMIC), INP(SPEED1), {{0, 0}, {4, -1}});
  TileSurf t; t.c = &c; int style = c.below(4); u64 seed = c.below(1 << 16); t.fill = [=](int x, int y, uint16_t *p) { random_tile(seed, x, y, p, style); }; Hostile h; h.far = 1000; int n = 1 + c.below(8);
  t.begin(); for (int i = 0; i < n; i++) { Event e = h.next(c, 20); c.log("%s", str(e).c_str()); stroke(b, t.iface(), e); } MyPaintRectangle rr[5]; MyPaintRectangles roi = {5, rr}; t.end_(&roi); t.balanced("end");
  if (!t.written.empty()) c.nontrivial();
  for (auto &k : t.written) { const Tile &q = t.tiles[k]; for (int i = 0; i < TS * TS; i++) { const uint16_t *p = &q[i * 4]; if (p[3] > 32768 || p[0] > p[3] || p[1] > p[3] || p[2] > p[3]) c.fail("pixel", "tile (%d,%d) pixel %d is (%d,%d,%d,%d)", k.first, k.second, i, p[0], p[1], p[2], p[3]); } }
}
PBT_MAIN("C18", "finite tilt or infinite (NaN tilt is rejected by assertion on purpose); view zoom positive, view rotation and barrel rotation finite", "the number of dabs per event is bounded by the generator; dynamics may have any slope")
