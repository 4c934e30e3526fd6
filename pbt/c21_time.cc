// C21: stroke time accounting and split suggestions.
#include "brushgen.hpp"
using namespace pbt;
namespace {
struct Model {
  double total = 0, idle = 0; bool reset = true; float pressure = 0; // pressure: where the last event left it
  enum R { NO, YES, MAYBE };
  // dabs: 0 none, 1 all failed, 2 some painted. last: pressure when the last dab was drawn
  R account(double dt, float p, int dabs, double falling) {
    bool paint = dabs ? dabs == 2 : !(idle > 0 || total == 0); auto over = [](double v, double lim) { return fabs(v - lim) < 1e-4 ? MAYBE : v > lim ? YES : NO; };
    if (paint) { total += dt; idle = 0; R r = over(total, 4 + 3 * (double)p); if (r == NO) return NO; if (falling >= 0) return r; return falling < -1e-5 ? NO : MAYBE; }
    idle += dt; return total == 0 ? over(idle, 1.0) : over(total + idle, 0.9 + 5 * (double)p);
  }
};
void same_brush(Case &c, Brush &a, Brush &b, RecSurf &sa, RecSurf &sb, int i) {
  if (sa.dabs.size() != sb.dabs.size()) c.fail("new stroke", "event %d: starting new strokes changed the number of dabs from %zu to %zu", i, sb.dabs.size(), sa.dabs.size());
  if (!sa.dabs.empty() && !same_bits(sa.dabs.back(), sb.dabs.back())) c.fail("new stroke", "event %d: starting new strokes changed %s to %s", i, str(sb.dabs.back()).c_str(), str(sa.dabs.back()).c_str());
  for (int k = 0; k < MYPAINT_BRUSH_STATES_COUNT; k++) { float u = a.state(k), v = b.state(k); if (memcmp(&u, &v, 4)) c.fail("new stroke", "event %d: starting new strokes changed state %d from %.9g to %.9g", i, k, v, u); }
}
}
FACET(accounting, 6000, 400000, "histories of events (any pressures, durations from 0 to beyond the pause limit, dabs that paint or not as a script decides, pen at rest or moving), resets and new strokes: every result and the painting time after every event against a model of the documented contract, and dabs and states against a brush whose strokes were never separated; non-trivial: >= 1 s painted, an idle event and a suggested split") {
  Brush a, b; for (Brush *q : {&a, &b}) { q->set(SET(RADIUS_LOGARITHMIC), 2); }
  double per = c.pick({0.0, 2.0, 5.0}), sec = c.pick({0.0, 10.0, 50.0, 1.0}), gain = c.chance(1, 4) ? c.real(-1.8, 2.3, 0) : 0; bool byp = c.chance(1, 2), rnd = c.chance(1, 4);
  for (Brush *q : {&a, &b}) { q->set(SET(DABS_PER_ACTUAL_RADIUS), per); q->set(SET(DABS_PER_SECOND), sec); q->set(SET(PRESSURE_GAIN_LOG), gain); q->set(SET(OPAQUE), 1); q->set(SET(OPAQUE_MULTIPLY), 1); if (!byp) for (int i = 0; i < MYPAINT_BRUSH_INPUTS_COUNT; i++) mypaint_brush_set_mapping_n(*q, MYPAINT_BRUSH_SETTING_OPAQUE_MULTIPLY, (MyPaintBrushInput)i, 0); else q->set(SET(OPAQUE_MULTIPLY), 0); if (rnd) q->set(SET(OFFSET_BY_RANDOM), 0.3); }
  c.log("dabs per radius %g per second %g gain %g opacity by pressure %d", per, sec, gain, byp);
  RecSurf sa, sb; Model m; int mode = 0; bool any = false, all = true; long n = 0; float last = 0; u64 script = c.below(1 << 16);
  sb.on_dab = [&](const Dab &d) { return d.opaque > 0 && (mode == 0 || (mode == 1 ? 0 : mode == 2 ? (int)(script >> (sb.dabs.size() & 15)) & 1 : d.opaque > 0.5)); };
  sa.on_dab = [&](const Dab &d) { int r = d.opaque > 0 && (mode == 0 || (mode == 1 ? 0 : mode == 2 ? (int)(script >> (sa.dabs.size() & 15)) & 1 : d.opaque > 0.5)); n++; any |= r; last = a.state(ST(PRESSURE)); return r ? c.pick({1, 5, -1}) : 0; };
  float x = 0, y = 0, p = 0; int splits = 0, idles = 0; double painted = 0; int N = 1 + c.below(40); bool steady = c.chance(1, 2);
  for (int i = 0; i < N; i++) {
    if (c.chance(1, 10)) { mypaint_brush_reset(a); mypaint_brush_reset(b); m.reset = true; c.log("reset"); }
    if (c.chance(1, 12) || (splits && c.chance(1, 3))) { mypaint_brush_new_stroke(a); m.total = m.idle = 0; c.log("new stroke"); splits = splits ? 1 : 0; }
    if (!steady || c.chance(1, 6)) p = c.pick({0.0f, 1.0f, 0.3f, 0.5f, 0.7f, -0.5f, 2.5f, (float)c.real(0, 1, 0.5)}); else if (c.chance(1, 3)) p += c.real(-0.1, 0.1, -0.01);
    if (c.chance(1, 2)) x += c.real(-40, 40, 10); if (c.chance(1, 3)) y += c.real(-20, 20, 0);
    double dt; switch (c.below(7)) { case 0: dt = c.pick({0.0, -1.0, 0.1, 5.0, 0.0001}); break; case 1: dt = c.real(0, 5, 1); break; case 2: dt = c.real(0.2, 1.2, 1); break; case 3: dt = c.chance(1, 4) ? 6 : 0.9; break; default: dt = c.real(0.001, 0.3, 0.1); }
    if (c.chance(1, 5)) mode = c.below(4);
    Event e = {x, y, p, 0, 0, dt, 1, 0, 0, 0}; c.log("%s (dab results: mode %d)", str(e).c_str(), mode);
    // what should happen
    Model::R want; double P = p > 0 ? p : 0; double d = dt <= 0 ? 0.0001 : dt; if (d > 5) m.reset = true; float before = m.reset && d > 0.1 && P > 0 ? 0 : m.pressure;
    bool sub = d > 0.1 && P > 0 && (m.pressure == 0 || m.reset);
    struct Ev { double dt; float p; bool has; }; std::vector<Ev> evs; if (sub) evs.push_back({d - 0.0001, 0, false}); evs.push_back({sub ? 0.0001 : d, (float)P, false});
    // dabs of the preceding no-pressure part are told apart by the pressure state
    bool any1 = false; long n1 = 0; auto on = sa.on_dab; float lastp = 0; long n2 = 0; bool any2 = false; bool seen2 = false; int ret;
    { auto inner = sa.on_dab; sa.on_dab = [&](const Dab &dd) { int r = inner(dd); float q = a.state(ST(PRESSURE)); bool first = sub && !seen2 && q == 0; if (first) { n1++; any1 |= r != 0; } else { seen2 = true; n2++; any2 |= r != 0; lastp = q; } return r; };
      ret = stroke(a, sa.iface(), e); sa.on_dab = on; }
    stroke(b, sb.iface(), e); 
    if (m.reset && n1) c.fail("reset", "event %d: the event after a reset painted", i);
    double told = mypaint_brush_get_total_stroke_painting_time(a); bool unsure = false;
    for (size_t k = 0; k < evs.size(); k++) {
      if (m.reset) { m.reset = false; m.pressure = evs[k].p; want = Model::YES; continue; }
      long dn = sub && k == 0 ? n1 : n2; bool dany = sub && k == 0 ? any1 : any2; double ref = sub && k == 0 ? (dn ? 0 : m.pressure) : dn ? lastp : m.pressure;
      double before_total = m.total; want = m.account(evs[k].dt, evs[k].p, dn ? dany ? 2 : 1 : 0, (double)evs[k].p - ref); m.pressure = evs[k].p; if (m.idle > 0) idles++; painted += m.total - before_total;
    }
    // the state is kept in single precision: a pen held steady may seem to be released by a rounding error
    { float q = a.state(ST(PRESSURE)); if (!(fabs(q - m.pressure) <= 1e-6 * (1 + fabs(q) + P))) c.fail("pressure", "event %d: the pressure is %.9g after an event with %.9g", i, q, P); m.pressure = q; }
    if (fabs(told - m.total) > 1e-6 * (1 + m.total)) c.fail("painting time", "event %d: painting time %.9g instead of %.9g", i, told, m.total); c.stat(fabs(told - m.total) * 1e6);
    if (want != Model::MAYBE && !!ret != (want == Model::YES)) c.fail("split", "event %d returned %d with %.9g s painted and %.9g s idle at pressure %.9g", i, ret, m.total, m.idle, P);
    if (ret) { splits++; c.label("split"); } if (ret && m.idle == 0 && m.total > 4) c.label("forced split");
    same_brush(c, a, b, sa, sb, i);
  }
  if (painted > 1 && idles && splits) c.nontrivial();
}
PBT_MAIN("C21", "totals within 1e-4 s of a threshold are not judged", "dabs count as painting when the surface says so (C06 decides when it does)")
