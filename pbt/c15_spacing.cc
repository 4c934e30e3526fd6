// C15: dab spacing follows the brush, not the event rate.
#include "brushgen.hpp"
using namespace pbt;

struct Spec { double rlog, extra, act, bas, sec, ratio, angle; float off[3] = {0, 0, 0}; };
static Spec gen_spec(Case &c) {
  Spec s; s.rlog = (float)c.real(-0.5, 4, 2); s.extra = c.chance(1, 3) ? (float)c.real(-1, 1, 0.5) : 0;
  s.act = c.chance(3, 4) ? (float)c.real(0, 6, 2) : 0; s.bas = c.chance(1, 2) ? (float)c.real(0, 6, 1) : 0; s.sec = c.chance(1, 2) ? (float)c.real(0, 80, 30) : 0;
  s.ratio = c.chance(1, 3) ? (float)c.real(1, 6, 2) : 1; s.angle = (float)c.real(0, 180, 90);
  return s;
}
// dynamics on the rates: they may well push a rate below zero
static void gen_offsets(Case &c, Spec &s) { if (c.chance(1, 4)) for (int i = 0; i < 3; i++) if (c.chance(1, 2)) s.off[i] = c.real(-1, 1, -0.5) * (i == 2 ? 60 : 5); }
static void setup(Case &c, Brush &b, const Spec &s) {
  b.set(SET(RADIUS_LOGARITHMIC), s.rlog); if (s.extra) b.curve(SET(RADIUS_LOGARITHMIC), INP(PRESSURE), {{0, (float)s.extra}, {1, (float)s.extra}});
  b.set(SET(DABS_PER_ACTUAL_RADIUS), s.act); b.set(SET(DABS_PER_BASIC_RADIUS), s.bas); b.set(SET(DABS_PER_SECOND), s.sec); for (int i = 0; i < 3; i++) if (s.off[i]) { b.curve(i == 0 ? SET(DABS_PER_ACTUAL_RADIUS) : i == 1 ? SET(DABS_PER_BASIC_RADIUS) : SET(DABS_PER_SECOND), INP(PRESSURE), {{0, s.off[i]}, {1, s.off[i]}}); c.log("dynamics change rate %d by %g", i, s.off[i]); }
  b.set(SET(ELLIPTICAL_DAB_RATIO), s.ratio); b.set(SET(ELLIPTICAL_DAB_ANGLE), s.angle); b.set(SET(ANTI_ALIASING), 0); b.set(SET(OPAQUE_LINEARIZE), 0); b.set(SET(SLOW_TRACKING), 0); b.set(SET(SLOW_TRACKING_PER_DAB), 0);
  // pressure shows up as opacity, tilt as hardness, softness and colorize
  b.set(SET(OPAQUE), 0); b.curve(SET(OPAQUE), INP(PRESSURE), {{0, 0}, {1, 1}}); b.set(SET(OPAQUE_MULTIPLY), 1); for (int i = 0; i < MYPAINT_BRUSH_INPUTS_COUNT; i++) mypaint_brush_set_mapping_n(b, MYPAINT_BRUSH_SETTING_OPAQUE_MULTIPLY, (MyPaintBrushInput)i, 0);
  b.set(SET(HARDNESS), 0); b.curve(SET(HARDNESS), INP(TILT_DECLINATION), {{0, 0}, {90, 1}});
  b.set(SET(SOFTNESS), 0); b.curve(SET(SOFTNESS), INP(TILT_DECLINATIONX), {{-90, 0}, {90, 1}});
  b.set(SET(COLORIZE), 0); b.curve(SET(COLORIZE), INP(TILT_DECLINATIONY), {{-90, 0}, {90, 1}});
  b.set(SET(LOCK_ALPHA), 0); b.curve(SET(LOCK_ALPHA), INP(TILT_ASCENSION), {{-180, 0}, {180, 1}});
  b.set(SET(POSTERIZE), 0); b.curve(SET(POSTERIZE), INP(BARREL_ROTATION), {{-180, 0}, {180, 1}});
  c.log("radius exp(%g)*exp(%g) dabs per actual %g basic %g second %g ratio %g angle %g", s.rlog, s.extra, s.act, s.bas, s.sec, s.ratio, s.angle);
}
struct Key { double x, y, p, dec, decx, decy, asc, bar; };   // what is interpolated
static Key key(const Event &e) {
  Key k{e.x, e.y, e.pressure < 0 ? 0.0 : e.pressure, 90, 0, 0, 0, fmod(e.barrel * 360.0, 360)};
  if (e.xtilt || e.ytilt) { k.asc = atan2(-(double)e.xtilt, (double)e.ytilt) * 180 / M_PI; k.dec = 90 - hypot(e.xtilt, e.ytilt) * 60; k.decx = e.xtilt * 60; k.decy = e.ytilt * 60; }
  return k;
}
static double wrap(double a) { a = fmod(a, 360); if (a > 180) a -= 360; if (a < -180) a += 360; return a; }
static Key mix(const Key &a, const Key &b, double f) {
  auto l = [&](double u, double v) { return u + (v - u) * f; };
  return {l(a.x, b.x), l(a.y, b.y), l(a.p, b.p), l(a.dec, b.dec), l(a.decx, b.decx), l(a.decy, b.decy), a.asc + f * wrap(b.asc - a.asc), a.bar + f * wrap(b.bar - a.bar)};
}
static double clamp(double v) { return std::min(1.0, std::max(0.0, v)); }
static Event gen_event(Case &c, float &x, float &y, double step, bool tilt, float &bar) {
  Event e = {0, 0, 0, 0, 0, 0, 1, 0, 0, 0};
  switch (c.below(6)) { case 0: break; case 1: x += c.real(-step, step, 1); break; default: x += c.real(-step, step, step / 2); y += c.real(-step, step, step / 3); }
  e.x = x; e.y = y; e.pressure = c.chance(1, 3) ? 0.5 : (float)c.real(0.02, 1, 1); if (tilt) { e.xtilt = c.real(-0.9, 0.9, 0.3); e.ytilt = c.real(-0.9, 0.9, 0.1); bar += c.real(-0.3, 0.3, 0.1); e.barrel = bar; }
  e.dtime = c.chance(1, 12) ? (double)c.pick({0.0, -1.0}) : c.real(0.0005, 0.095, 0.01); return e;
}
static const double QT = 4e-3;
static void judge(Case &c, size_t i, const Dab &d, const Key &k, const Spec &s, double postol, double lip) {
  // lip: how much a quantity may differ because the dab sits postol away along the segment
  auto near = [&](const char *n, double got, double want, double t) { c.stat(fabs(got - want) / t); if (!(fabs(got - want) <= t)) c.fail(n, "dab %zu: %s is %.7g, interpolation gives %.7g (tolerance %.2g)", i, n, got, want, t); };
  near("x", d.x, k.x, postol); near("y", d.y, k.y, postol);
  double r = exp(s.rlog + s.extra); near("radius", d.radius, std::min(1000.0, std::max(0.2, r)), 1e-4 * r + 1e-5);
  near("pressure", d.opaque, clamp(k.p), QT + lip); near("declination", d.hardness, clamp(k.dec / 90), QT + lip); near("declination x", d.softness, clamp((k.decx + 90) / 180), QT + lip); near("declination y", d.colorize, clamp((k.decy + 90) / 180), QT + lip);
  auto ang = [&](const char *n, double got, double want) { double q = wrap(got * 360 - 180 - want); if (!(fabs(q) <= 1.5 + 360 * lip)) c.fail(n, "dab %zu: %s is %.7g degrees, interpolation gives %.7g", i, n, got * 360 - 180, wrap(want)); };
  ang("ascension", d.lock_alpha, k.asc); ang("barrel rotation", d.posterize, k.bar);
}
static void prime(Brush &b, RecSurf &s, Event e) { e.dtime = 10; e.pressure = 0; stroke(b, s.iface(), e); e.dtime = 0.001; stroke(b, s.iface(), e); }

FACET(rate, 4000, 200000, "polylines of up to 40 events (positions, pressure, tilt, barrel rotation, time steps incl. zero and negative) of brushes with any constant dab rates, radius and aspect ratio, against a double precision model accumulating rate*distance/radius + rate*time: same dabs, at the interpolated position, pressure and tilt; non-trivial: >= 5 dabs") {
  Spec s = gen_spec(c); gen_offsets(c, s); Brush b; setup(c, b, s); s.act += s.off[0]; s.bas += s.off[1]; s.sec += s.off[2]; // from here on: the rates in effect
  RecSurf rs; bool tilt = c.chance(1, 2); float x = c.real(-300, 300, 0), y = c.real(-300, 300, 0), bar = 0;
  Event e0 = gen_event(c, x, y, 5, tilt, bar); e0.pressure = 0.5; prime(b, rs, e0); c.log("start %s", str(e0).c_str());
  if (!rs.dabs.empty() && s.sec <= 0) c.fail("start", "%zu dabs without moving", rs.dabs.size());
  size_t base = rs.dabs.size(); Key from = key(e0); from.p = 0; double R0 = std::min(1000.0, std::max(0.2, exp(s.rlog))), R1 = std::min(1000.0, std::max(0.2, exp(s.rlog + s.extra)));
  double part = b.state(ST(PARTIAL_DABS)); if (part < -1e-6 || part > 1) c.fail("partial", "%g of a dab pending after standing still for 1 ms", part);
  double cs = cos(s.angle * M_PI / 180), sn = sin(s.angle * M_PI / 180), step = c.chance(1, 4) ? 3 : R0 * c.real(0.2, 8, 2); step = std::min(step, 300.0);
  int n = 1 + c.below(40); size_t next = base; double err = 0, bound = 0;
  for (int i = 0; i < n && rs.dabs.size() < 2500; i++) {
    Event e = gen_event(c, x, y, step, tilt, bar); c.log("%s", str(e).c_str()); stroke(b, rs.iface(), e); Key to = key(e); if (fabs(wrap(to.asc - from.asc)) > 179.5 || fabs(wrap(to.bar - from.bar)) > 179.5) c.discard();
    double dt = e.dtime <= 0 ? 0.0001 : e.dtime, dx = to.x - from.x, dy = to.y - from.y, dist = hypot(dx, dy);
    if (s.ratio > 1) { double u = dx * cs + dy * sn, v = (dy * cs - dx * sn) * s.ratio; dist = hypot(u, v); }
    double todo = dist * (s.act / R1 + s.bas / R0) + dt * s.sec; if (todo < 0) todo = 0; // rates below zero paint nothing and owe nothing
    if (todo > 3000) c.discard();
    // dabs of this segment
    // every step is computed from single precision coordinates: part of a step that vanishes in their rounding
    double ulp = 1.2e-7 * (fabs(to.x) + fabs(to.y) + 50), perpx = todo > 0 && hypot(dx, dy) > 0 ? todo / hypot(dx, dy) : 0;
    size_t have = rs.dabs.size(); double k = 1 - part;
    err += 3e-6 * (1 + todo) ;
    double slip = err + ulp * (fabs(s.act) / R1 + fabs(s.bas) / R0) * s.ratio * (2 + todo) + 1e-5;
    while (k <= todo) {
      if (next >= have) { if (k > todo - slip) break; c.fail("missing", "segment %d should hold another dab (%.6f of %.6f)", i, k, todo); }
      double f = todo > 0 ? k / todo : 1; Key w = mix(from, to, f); double dp = perpx > 0 ? slip / perpx : 0;
      judge(c, next, rs.dabs[next], w, s, 2e-3 + 4 * ulp + std::max(dp, slip / std::max(todo, 1e-9) * hypot(dx, dy)), std::min(1.0, slip / std::max(todo, 1e-9) + 1e-3));
      next++; k += 1;
    }
    if (next < have) { if (have - next > 1 || k > todo + slip) c.fail("extra", "segment %d: %zu more dabs than the distance and time give (next at %.6f of %.6f)", i, have - next, k, todo); next++; k += 1; }
    part = todo - (k - 1); from = to;
    double got = b.state(ST(PARTIAL_DABS)); if (fabs(got - part) > slip * 2 + 1e-4 ) c.fail("partial", "segment %d: %.7g of a dab is pending, expected %.7g", i, got, part);
    part = got;   // re-synchronise so that rounding does not pile up
  }
  if (next - base >= 5) c.nontrivial(); c.label(s.sec > 0 ? (s.act + s.bas > 0 ? "distance and time" : "time") : "distance");
}
FACET(split, 4000, 200000, "a polyline painted with one event per segment and with every segment divided into 2..12 collinear, proportionally timed events: same number of dabs (up to one at the very end) with the same parameters; non-trivial: >= 5 dabs") {
  Spec s = gen_spec(c); Brush b1, b2; setup(c, b1, s); setup(c, b2, s); RecSurf s1, s2; bool tilt = c.chance(1, 3); float x = 0, y = 0, bar = 0; Event e0 = gen_event(c, x, y, 5, false, bar); e0.pressure = 0.5; prime(b1, s1, e0); prime(b2, s2, e0);
  Event cur = e0; int n = 1 + c.below(10); double R = exp(s.rlog), step = std::min(300.0, R * c.real(0.2, 8, 2)); double worst = 0;
  for (int i = 0; i < n && s1.dabs.size() < 2500; i++) {
    Event e = gen_event(c, x, y, step, false, bar); if (e.dtime <= 0) e.dtime = 0.01; if (i == 0) cur.pressure = 0; if (tilt) { e.xtilt = 0.3; e.ytilt = -0.4; } int m = 2 + c.below(11);
    c.log("%s in %d parts", str(e).c_str(), m); stroke(b1, s1.iface(), e);
    for (int k = 1; k <= m; k++) { double f = k / (double)m; Event q = e; q.dtime = e.dtime / m; if (k < m) { q.x = cur.x + (e.x - cur.x) * f; q.y = cur.y + (e.y - cur.y) * f; q.pressure = cur.pressure + (e.pressure - cur.pressure) * f; } stroke(b2, s2.iface(), q); }
    cur = e;
  }
  size_t m = std::min(s1.dabs.size(), s2.dabs.size()); if (m >= 5) c.nontrivial();
  if (s1.dabs.size() + s2.dabs.size() > 2 * m + 1) c.fail("count", "%zu dabs, %zu when the motion is divided", s1.dabs.size(), s2.dabs.size());
  bool firsttilt = tilt;
  for (size_t i = 0; i < m; i++) {
    const Dab &p = s1.dabs[i], &q = s2.dabs[i], &u = s1.dabs[i ? i - 1 : 0], &v = s1.dabs[i + 1 < s1.dabs.size() ? i + 1 : i];
    auto st = [&](float a, float k, float z) { return 0.02 * std::max(fabs(a - k), fabs(z - k)); };   // two percent of a dab's step
    if (fabs(p.x - q.x) > 5e-3 + st(u.x, p.x, v.x) || fabs(p.y - q.y) > 5e-3 + st(u.y, p.y, v.y)) c.fail("position", "dab %zu at (%.7g,%.7g), with divided events at (%.7g,%.7g)", i, p.x, p.y, q.x, q.y);
    if (fabs(p.opaque - q.opaque) > 6e-3 + st(u.opaque, p.opaque, v.opaque)) c.fail("pressure", "dab %zu has pressure %.7g, with divided events %.7g", i, p.opaque, q.opaque);
    if (fabs(p.radius - q.radius) > 1e-4 * p.radius) c.fail("radius", "dab %zu has radius %.7g, with divided events %.7g", i, p.radius, q.radius);
  }
}
// with dynamics: consecutive dabs of one event are one unit apart, measured with the shape of the earlier one
FACET(vary, 3000, 150000, "strokes whose radius, aspect ratio and angle follow pressure and tilt: any two consecutive dabs of one event lie exactly one unit apart (distance over the earlier dab's radius, in its elliptic metric, times the rates), the last one less than one unit from the event; non-trivial: >= 5 such pairs") {
  Brush b; Spec s = gen_spec(c); s.sec = 0; s.extra = 0; if (s.act + s.bas < 0.3) s.act = 1; setup(c, b, s); for (int k : {SET(HARDNESS), SET(SOFTNESS), SET(COLORIZE), SET(LOCK_ALPHA), SET(POSTERIZE)}) for (int i = 0; i < MYPAINT_BRUSH_INPUTS_COUNT; i++) mypaint_brush_set_mapping_n(b, (MyPaintBrushSetting)k, (MyPaintBrushInput)i, 0);
  b.set(SET(HARDNESS), 0.5); float lo = c.real(-1.5, 1, -1), hi = c.real(-1.5, 1, 0.5); b.curve(SET(RADIUS_LOGARITHMIC), INP(PRESSURE), {{0, lo}, {1, hi}}); bool ell = c.chance(1, 2);
  if (ell) { b.curve(SET(ELLIPTICAL_DAB_RATIO), INP(PRESSURE), {{0, 0}, {1, (float)c.real(0, 4, 2)}}); b.curve(SET(ELLIPTICAL_DAB_ANGLE), INP(TILT_ASCENSION), {{-180, -180}, {180, 180}}); }
  c.log("radius factor exp(%g..%g), ellipse varies %d", lo, hi, ell);
  RecSurf rs; float x = 0, y = 0, bar = 0; Event e0 = gen_event(c, x, y, 5, false, bar); e0.pressure = 0.5; prime(b, rs, e0); double R0 = std::min(1000.0, std::max(0.2, exp(s.rlog))), step = std::min(300.0, R0 * c.real(0.5, 8, 3)); int n = 1 + c.below(12), pairs = 0;
  for (int i = 0; i < n && rs.dabs.size() < 2500; i++) {
    Event e = gen_event(c, x, y, step, ell, bar); c.log("%s", str(e).c_str()); size_t a = rs.dabs.size(); stroke(b, rs.iface(), e);
    auto units = [&](const Dab &p, double qx, double qy) { double dx = qx - p.x, dy = qy - p.y, d = hypot(dx, dy); if (p.aspect > 1) { double t = p.angle * M_PI / 180, u = dx * cos(t) + dy * sin(t), v = (dy * cos(t) - dx * sin(t)) * p.aspect; d = hypot(u, v); } return d * (s.act / p.radius + s.bas / R0); };
    double ulp = 1.2e-7 * (fabs(x) + fabs(y) + 50);
    for (size_t k = a; k + 1 < rs.dabs.size(); k++, pairs++) { const Dab &p = rs.dabs[k], &q = rs.dabs[k + 1]; double u = units(p, q.x, q.y), t = 2e-4 + 6 * ulp * (s.act / p.radius + s.bas / R0) * std::max(1.0f, p.aspect); c.stat(fabs(u - 1) / t); if (!(fabs(u - 1) <= t)) c.fail("unit", "dabs %zu and %zu of one event are %.7g units apart: %s %s", k, k + 1, u, str(p).c_str(), str(q).c_str()); }
    if (rs.dabs.size() > a) { const Dab &p = rs.dabs.back(); double u = units(p, e.x, e.y), t = 2e-4 + 6 * ulp * (s.act / p.radius + s.bas / R0) * std::max(1.0f, p.aspect); if (u > 1 + t) c.fail("unit", "%.7g units remain after the last dab of an event", u);
      double part = b.state(ST(PARTIAL_DABS)); if (fabs(part - u) > t) c.fail("partial", "%.7g of a dab is pending, %.7g units remain", part, u); }
  }
  if (pairs >= 5) c.nontrivial();
}
PBT_MAIN("C15", "constant radius, aspect ratio and dab rates; no tracking filters; time steps below 0.1 s", "the first motion after a reset only initialises the rates, so strokes are primed with an event at the starting position")
