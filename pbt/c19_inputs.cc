// C19: brush inputs report what is documented, within their documented ranges.
#include "brushgen.hpp"
using namespace pbt;
// four settings whose value reaches the surface unchanged show four inputs at every dab
static const int show[4] = {SET(LOCK_ALPHA), SET(COLORIZE), SET(POSTERIZE), SET(POSTERIZE_NUM)};
static float shown(const Dab &d, int k) { return k == 0 ? d.lock_alpha : k == 1 ? d.colorize : k == 2 ? d.posterize : d.posterize_num; }
static void observe(Case &c, Brush &b, int in[4]) {
  for (int k = 0; k < 4; k++) {
    in[k] = c.below(MYPAINT_BRUSH_INPUTS_COUNT); b.set(show[k], 0);
    for (int i = 0; i < MYPAINT_BRUSH_INPUTS_COUNT; i++) mypaint_brush_set_mapping_n(b, (MyPaintBrushSetting)show[k], (MyPaintBrushInput)i, 0);
    b.curve(show[k], in[k], {{0, 0}, {1, 1}});   // the identity
    c.log("%s shows %s", sname(show[k]), iname(in[k]));
  }
}
static void in_range(Case &c, int in, float v, const char *when) {
  const MyPaintBrushInputInfo *i = iinfo(in); double eps = 1e-3;
  if (!std::isfinite(v) || v < i->hard_min - eps || v > i->hard_max + eps) c.fail("range", "input %s is %.9g%s, documented %g..%g", iname(in), v, when, i->hard_min, i->hard_max);
}
FACET(range, 4000, 200000, "brushes with any settings and dynamics and any ordinary event stream incl. extreme tilt, view rotation of many turns, zoom over its documented range, pressure gain and repeated pauses: every input seen at every dab lies within its published hard limits; non-trivial: >= 5 dabs") {
  Brush b; BrushOpts o; o.rhi = 6; o.allow = [](int s) { return s != SET(ELLIPTICAL_DAB_RATIO); }; gen_brush(c, b, o); b.set(SET(RADIUS_LOGARITHMIC), c.real(-2, 6, 1)); if (c.chance(1, 2)) b.set(SET(STROKE_DURATION_LOGARITHMIC), c.real(-1, 3, 0)); if (c.chance(1, 2)) b.set(SET(STROKE_HOLDTIME), c.real(0, 10, 1)); b.set(SET(SMUDGE), 0); int in[4]; observe(c, b, in);
  if (c.chance(1, 3)) { b.set(SET(TRACKING_NOISE), c.real(0, 3, 0)); b.set(SET(OFFSET_BY_RANDOM), c.real(0, 3, 0)); }
  RecSurf s; size_t seen = 0; Pen pen(c, c.real(-1000, 1000, 0), c.real(-1000, 1000, 0)); double R = std::min(100.0, std::max(1.0, exp(b.get(SET(RADIUS_LOGARITHMIC))))); int n = 1 + c.below(25); bool flat = c.chance(1, 4);
  s.on_dab = [&](const Dab &) { if (s.dabs.size() > 20000) throw Discard(); return 1; };
  for (int i = 0; i < n; i++) {
    Event e = pen.next(c, R * 2); if (c.chance(1, 4)) { pen.rot = c.real(-40, 40, 3.1415926); pen.zoom = exp(c.real(-2.77, 4.15, 0)); pen.barrel = c.real(-5, 5, 0.5); } e.rot = pen.rot; e.zoom = pen.zoom; e.barrel = pen.barrel; if (c.chance(1, 4)) { e.xtilt = c.pick({1.0f, -1.0f, 0.0f, 3.0f}); e.ytilt = c.pick({1.0f, -1.0f, 0.0f, -7.0f, 900.0f, INFINITY}); } if (flat) e.y = 0; if (c.chance(1, 8)) e.pressure = c.real(0, 3, 1); if (c.chance(1, 15)) mypaint_brush_reset(b);
    c.log("%s", str(e).c_str()); stroke(b, s.iface(), e);
    for (; seen < s.dabs.size(); seen++) for (int k = 0; k < 4; k++) in_range(c, in[k], shown(s.dabs[seen], k), "");
  }
  if (seen >= 5) c.nontrivial();
}
static double wrap(double a) { a = fmod(a, 360); if (a > 180) a -= 360; if (a < -180) a += 360; return a; }
static double pmod(double a, double n) { return a - n * floor(a / n); }
struct Expect { double v[MYPAINT_BRUSH_INPUTS_COUNT], tol[MYPAINT_BRUSH_INPUTS_COUNT]; };
struct Model {   // double precision model of the input computation, for brushes whose dabs come at a constant rate in time
  double rate, R0, gain, T1, T2, g[2], DF, thr, dur, hold, custom, customT, gs, gx, gy;
  double x = 0, y = 0, p = 0, dec = 0, decx = 0, decy = 0, asc = 0, bar = 0, sp[2] = {0, 0}, se[2] = {0, 0}, dx = 0, dy = 0, ax = 0, ay = 0, stroke = 1, cu = 0, part = 0; bool started = false, rates = false, lost = false;
  double derr = 0, derr2 = 0, strokeerr = 0;   // derr2: of the axis, where the way round may also be a matter of rounding
  std::vector<Expect> out;
  void step(double f, const Event &e, const double *to, double dtleft, bool dab) {
    double sx = f * (e.x - x), sy = f * (e.y - y), dt = f * dtleft, zoom = e.zoom, rot = pmod(e.rot * 180 / M_PI + 180, 360) - 180; if (dt <= 0) dt = 0.001;
    double ox = x, oy = y;
    x += sx; y += sy; p += f * (to[0] - p); dec += f * (to[1] - dec); decx += f * (to[2] - decx); decy += f * (to[3] - decy); asc += f * wrap(to[4] - asc); bar += f * wrap(to[5] - bar); if (p < 0) p = 0;
    if (fabs(p - thr - 1e-4) < 2e-6 || fabs(p - thr * 0.9 - 1e-4) < 2e-6) lost = true;
    if (!started && p > thr + 1e-4) { started = true; stroke = 0; strokeerr = 0; } else if (started && p <= thr * 0.9 + 1e-4) started = false;
    Expect q; auto put = [&](int i, double v, double t) { q.v[i] = v; q.tol[i] = t; }; double ulp = 1.3e-7 * (fabs(x) + fabs(y) + 1);
    for (int i = 0; i < MYPAINT_BRUSH_INPUTS_COUNT; i++) put(i, 0, -1);   // tolerance -1: not compared, 1000 + t: compared modulo 360, 2000 + t modulo 180, 3000 + t modulo 256
    put(INP(PRESSURE), p * exp(gain), 1e-4 * exp(gain)); put(INP(STROKE), std::min(stroke, 1.0), 5e-4 + 4 * strokeerr); put(INP(VIEWZOOM), log(zoom), 1e-4); put(INP(BRUSH_RADIUS), log(R0), 1e-4);
    for (int k = 0; k < 2; k++) { double gm = exp(g[k]), m = 0.015 * (45 + gm), qq = 0.5 - m * log(45 + gm); double lo = log(gm + std::max(0.0, sp[k] - 5 * se[k])) * m + qq, hi = log(gm + sp[k] + 5 * se[k]) * m + qq, v = log(gm + sp[k]) * m + qq; put(k ? INP(SPEED2) : INP(SPEED1), v, 1e-3 + 1e-6 * fabs(m * 8) + std::max(hi - v, v - lo)); }
    double mag = hypot(ax, ay), dm = hypot(dx, dy), at = mag > 1e-12 ? 15 * derr / mag * 57.3 + 0.15 : 1e9, dtol = dm > 1e-12 ? 15 * derr2 / dm * 57.3 + 0.15 : 1e9, a360 = atan2(ay, ax) * 180 / M_PI;
    if (dtol < 20) put(INP(DIRECTION), pmod(atan2(dy, dx) * 180 / M_PI + rot, 180), 2000 + dtol);
    if (at < 20) { put(INP(DIRECTION_ANGLE), pmod(a360 + rot, 360), 1000 + at); put(INP(ATTACK_ANGLE), wrap(a360 + 90 - asc), 1000 + at + 0.02); }
    put(INP(TILT_DECLINATION), dec, 0.01); put(INP(TILT_DECLINATIONX), decx, 0.01); put(INP(TILT_DECLINATIONY), decy, 0.01); put(INP(TILT_ASCENSION), wrap(asc + rot), 1000.02); put(INP(BARREL_ROTATION), wrap(bar), 1000.05);
    double gsz = 256 * exp(gs); auto grid = [&](double u, double s) { double v = pmod(fabs(u * s), gsz) / gsz * 256; return u < 0 ? 256 - v : v; }; double gt = 0.02 + ulp * 30 * std::max(gx, gy) / exp(gs); if (gt < 8) { if (fabs(ox) > 1e-2) put(INP(GRIDMAP_X), grid(ox, gx), 3000 + gt); if (fabs(oy) > 1e-2) put(INP(GRIDMAP_Y), grid(oy, gy), 3000 + gt); }
    put(INP(CUSTOM), cu, 1e-4);
    if (dab) out.push_back(q);
    // filters follow after the inputs were taken
    double sp_now = hypot(sx, sy) / dt * zoom; for (int k = 0; k < 2; k++) { double T = k ? T2 : T1, fac = T <= 0.001 ? 1 : 1 - exp(-dt / T); sp[k] += (sp_now - sp[k]) * fac; double noise = 3 * ulp / dt * zoom + 1e-5 * sp_now + sp_now * std::min(1.0, 1e-7 / dt) ; se[k] = se[k] * (1 - fac) + fac * noise + 1e-6 * sp[k]; }
    double vx = sx * zoom, vy = sy * zoom, st = hypot(vx, vy), Tdf = exp(DF * 0.5) - 1, fac = Tdf <= 0.001 ? 1 : 1 - exp(-st / Tdf); double de = fac * 3 * ulp * zoom + (Tdf > 0.001 ? std::min(1.0, 3 * ulp * zoom / Tdf) * (hypot(vx - ax, vy - ay) + st) : 0); derr = derr * (1 - fac) + de; derr2 = derr2 * (1 - fac) + de;
    ax += (vx - ax) * fac; ay += (vy - ay) * fac; double dot = vx * dx + vy * dy; if (fabs(dot) <= (derr2 + 4 * ulp * zoom) * (st + hypot(dx, dy)) * 4) derr2 += std::min(2 * (1 - fac) * hypot(dx, dy), 2 * fac * st); if (dot < 0) vx = -vx, vy = -vy; dx += (vx - dx) * fac; dy += (vy - dy) * fac;
    cu += (custom - cu) * (customT <= 0.001 ? 1 : 1 - exp(-0.1 / customT));
    double adv = hypot(sx, sy) / R0 * exp(-dur), w = 1 + std::max(0.0, hold); stroke = stroke + adv; strokeerr += 3 * ulp / R0 * exp(-dur) + 1e-6; if (fabs(stroke - w) < 1e-4 + strokeerr || (stroke > w && fabs(remainder(stroke, w)) < 1e-4 + strokeerr)) lost = true; if (stroke >= w) stroke = w > 10.9 ? 1 : fmod(stroke, w); if (w > 10.9 && stroke == 1) strokeerr = 0;
  }
  void event(const Event &e) {
    double to[6] = {e.pressure, 90, 0, 0, 0, e.barrel * 360.0}, xt = std::min(1.0f, std::max(-1.0f, e.xtilt)), yt = std::min(1.0f, std::max(-1.0f, e.ytilt)); if (xt || yt) { to[1] = 90 - 60 * hypot(xt, yt); to[2] = 60 * xt; to[3] = 60 * yt; to[4] = atan2(-xt, yt) * 180 / M_PI; }
    if (fabs(wrap(to[4] - asc)) > 179.9 || fabs(wrap(to[5] - bar)) > 179.9) lost = true;   // either way round
    double left = e.dtime, todo = rates ? left * rate : 0; rates = true;
    while (part + todo >= 1) { double d = part > 0 ? 1 - part : 1, f = d / todo; part = 0; double dt = f * left; step(f, e, to, left, true); left -= dt; todo = left * rate; if (todo < 2e-3) lost = true; }
    if (fabs(part + todo - 1) < 2e-3) lost = true;
    step(1, e, to, left, false); part += todo;
  }
};
FACET(model, 5000, 250000, "brushes placing dabs at a constant rate in time, with any filter, gamma, gain, grid-map, stroke and custom-input settings, on any stroke with tilt, barrel rotation, zoom and view rotation: every input seen at every dab against a double precision model of its documented meaning; non-trivial: >= 5 dabs compared while moving") {
  Brush b; Model m; auto set = [&](int s, double v) { b.set(s, v); c.log("set %s %.9g", sname(s), b.get(s)); return (double)b.get(s); };
  b.set(SET(DABS_PER_ACTUAL_RADIUS), 0); b.set(SET(DABS_PER_BASIC_RADIUS), 0); m.rate = set(SET(DABS_PER_SECOND), c.real(15, 200, 50)); m.R0 = exp(set(SET(RADIUS_LOGARITHMIC), c.real(-2, 6, 2)));
  m.gain = set(SET(PRESSURE_GAIN_LOG), c.chance(1, 2) ? c.real(-1.8, 1.8, 0) : 0); m.T1 = set(SET(SPEED1_SLOWNESS), c.real(0, 0.2, 0.04)); m.T2 = set(SET(SPEED2_SLOWNESS), c.real(0, 3, 0.8)); m.g[0] = set(SET(SPEED1_GAMMA), c.real(-8, 8, 4)); m.g[1] = set(SET(SPEED2_GAMMA), c.real(-8, 8, 4)); m.DF = set(SET(DIRECTION_FILTER), c.chance(1, 4) ? 0 : c.real(0, 10, 2));
  m.thr = set(SET(STROKE_THRESHOLD), c.chance(1, 2) ? c.real(0, 0.5, 0.2) : 0); m.dur = set(SET(STROKE_DURATION_LOGARITHMIC), c.chance(1, 2) ? c.real(-1, 4, 1) : c.real(-1, 14, 4)); m.hold = set(SET(STROKE_HOLDTIME), c.chance(1, 2) ? c.real(0, 10, 0) : c.pick({0.0, 9.8, 10.0, 1.0})); m.custom = set(SET(CUSTOM_INPUT), c.real(-5, 5, 1)); m.customT = set(SET(CUSTOM_INPUT_SLOWNESS), c.chance(1, 2) ? c.real(0, 10, 0) : c.real(0, 0.3, 0));
  m.gs = set(SET(GRIDMAP_SCALE), c.chance(1, 2) ? c.real(-3, 3, 0) : 0); m.gx = set(SET(GRIDMAP_SCALE_X), c.chance(1, 2) ? c.real(0, 10, 1) : 1); m.gy = set(SET(GRIDMAP_SCALE_Y), c.chance(1, 2) ? c.real(0, 10, 1) : 1);
  int in[4]; observe(c, b, in); resettle(c, b); RecSurf s; Pen pen(c, c.real(-400, 400, 0), c.real(-400, 400, 0)); double step = exp(c.real(0, 5, 3)); Event e = pen.next(c, step); e.dtime = 0.01; mypaint_brush_reset(b); stroke(b, s.iface(), e); c.log("start %s", str(e).c_str()); m.x = e.x; m.y = e.y; m.p = e.pressure;
  if (!s.dabs.empty()) c.fail("start", "the first event painted"); size_t seen = 0, moving = 0; int n = 1 + c.below(30); bool straight = c.chance(1, 4);
  for (int i = 0; i < n; i++) {
    if (straight) { float px = pen.x, py = pen.y; e = pen.next(c, 1); pen.x = e.x = px + step; pen.y = e.y = py + step / 2; } else e = pen.next(c, step);
    e.dtime = c.real(0.001, 0.09, 0.03); if (c.chance(1, 6)) { pen.rot = c.real(-8, 8, 3); pen.zoom = exp(c.real(-2.7, 4.1, 0)); pen.barrel = c.real(-2, 2, 0.4); e.rot = pen.rot; e.zoom = pen.zoom; e.barrel = pen.barrel; } if (c.chance(1, 10)) e.pressure = m.thr * c.real(0.8, 1.2, 1); if (c.chance(1, 8)) (c.chance(1, 2) ? e.xtilt : e.ytilt) = c.pick({1.5f, -1.01f, 900.0f, -60.0f, INFINITY, -INFINITY}); if (fabs(e.x) > 20000 || fabs(e.y) > 20000) break;
    c.log("%s", str(e).c_str()); stroke(b, s.iface(), e); m.event(e); if (m.lost) { c.label("stopped at a rounding-dependent event"); break; }
    if (m.out.size() != s.dabs.size()) c.fail("count", "%zu dabs instead of %zu", s.dabs.size(), m.out.size());
    for (; seen < s.dabs.size(); seen++) { if (hypot(m.ax, m.ay) > 0) moving++; for (int k = 0; k < 4; k++) {
        float v = shown(s.dabs[seen], k); double t = m.out[seen].tol[in[k]], w = m.out[seen].v[in[k]]; if (t < 0) { in_range(c, in[k], v, ""); continue; } double d = v - w, tt = fmod(t, 1000); c.label(iname(in[k])); in_range(c, in[k], v, "");
        if (t >= 3000) d = pmod(d + 128, 256) - 128; else if (t >= 2000) d = pmod(d + 90, 180) - 90; else if (t >= 1000) d = pmod(d + 180, 360) - 180; else tt = t; c.stat(fabs(d) / tt);
        if (!(fabs(d) <= tt)) c.fail("value", "dab %zu: input %s is %.9g, expected %.9g (tolerance %.2g)", seen, iname(in[k]), v, w, tt); } }
  }
  if (moving >= 5) c.nontrivial();
}
// the calibration points and simple gestures the documentation names, on any brush size, direction and view
FACET(meaning, 2500, 120000, "steady straight motion at any angle, speed, zoom and view rotation: the directions become the direction of motion plus view rotation, speed inputs 0.5 at 45 screen pixels per second for every gamma, rising with slope 0.015 there and monotonic elsewhere, stroke reaches 1 after radius*exp(duration); non-trivial: always") {
  Brush b; b.set(SET(RADIUS_LOGARITHMIC), c.real(-1, 3, 2)); b.set(SET(DABS_PER_ACTUAL_RADIUS), 0); b.set(SET(DABS_PER_SECOND), 50); double g1 = c.real(-8, 8, 4), g2 = c.real(-8, 8, 4), dur = c.real(-1, 3, 1); b.set(SET(SPEED1_GAMMA), g1); b.set(SET(SPEED2_GAMMA), g2); b.set(SET(SPEED2_SLOWNESS), 0.05); b.set(SET(STROKE_DURATION_LOGARITHMIC), dur); b.set(SET(STROKE_HOLDTIME), 10); b.set(SET(DIRECTION_FILTER), c.real(0.5, 2, 2));
  int in[4] = {INP(DIRECTION), INP(DIRECTION_ANGLE), INP(SPEED1), INP(STROKE)}; if (c.chance(1, 2)) in[2] = INP(SPEED2); for (int k = 0; k < 4; k++) { b.set(show[k], 0); b.curve(show[k], in[k], {{0, 0}, {1, 1}}); }
  double a = c.real(-180, 180, 30), rot = c.real(-3.1, 3.1, 0), zoom = exp(c.real(-2, 2, 0)), v = c.chance(1, 2) ? 45 : c.real(20, 500, 45);   // v screen pixels per second
  double R = exp(b.get(SET(RADIUS_LOGARITHMIC))), dt = 0.02, sx = cos(a * M_PI / 180) * v / zoom * dt, sy = sin(a * M_PI / 180) * v / zoom * dt; c.log("angle %g speed %g zoom %g rotation %g gamma %g %g duration %g radius %g", a, v, zoom, rot, g1, g2, dur, R);
  RecSurf s; Event e = {0, 0, 0.5, 0, 0, 10, (float)zoom, (float)rot, 0, 0}; stroke(b, s.iface(), e); e.dtime = dt; std::vector<std::pair<double, float>> st;
  for (int i = 1; i <= 60; i++) { e.x = sx * i; e.y = sy * i; size_t k = s.dabs.size(); stroke(b, s.iface(), e); if (s.dabs.size() > k) st.push_back({hypot(e.x, e.y), s.dabs.back().posterize_num}); }
  if (s.dabs.size() < 50) c.fail("count", "only %zu dabs in 1.2 s at 50 per second", s.dabs.size()); c.nontrivial(); const Dab &d = s.dabs.back(); double deg = rot * 180 / M_PI, mov = hypot(sx, sy) * 59;
  if (mov * zoom > 12) { if (fabs(wrap(d.colorize - (a + deg))) > 0.3) c.fail("direction", "moving at %g degrees in a view rotated by %g the direction input is %g", a, deg, d.colorize); if (fabs(pmod(d.lock_alpha - (a + deg) + 90, 180) - 90) > 0.3) c.fail("direction", "moving at %g degrees in a view rotated by %g the 180 degree direction is %g", a, deg, d.lock_alpha); }
  double gm = exp(in[2] == INP(SPEED1) ? g1 : g2), m = 0.015 * (45 + gm), want = 0.5 + m * log((gm + v) / (gm + 45)); if (fabs(d.posterize - want) > 2e-2 * (1 + fabs(want))) c.fail("speed", "at %g screen pixels per second the speed input is %g instead of %g", v, d.posterize, want);
  double full = R * exp(dur); for (auto &q : st) { double f = q.first / full, step1 = hypot(sx, sy) / full; if (f < 0.999 && !(q.second >= f - 2.1 * step1 - 1e-3 && q.second <= f + 1e-3)) c.fail("stroke", "after moving %g of %g pixels the stroke input is %g", q.first, full, q.second); if (f > 1 + 2.1 * step1 && q.second != 1) c.fail("stroke", "after moving %g of %g pixels the stroke input is %g instead of 1", q.first, full, q.second); }
}
FACET(random, 400, 20000, "the random input over many dabs: within [0,1), new for every dab, mean and variance those of the uniform distribution within 6 standard errors, not correlated from dab to dab; non-trivial: >= 300 dabs") {
  Brush b; b.set(SET(DABS_PER_ACTUAL_RADIUS), 0); b.set(SET(DABS_PER_SECOND), 80); b.set(SET(LOCK_ALPHA), 0); b.curve(SET(LOCK_ALPHA), INP(RANDOM), {{0, 0}, {1, 1}}); RecSurf s; Event e = {0, 0, 0.5, 0, 0, 10, 1, 0, 0, 0}; stroke(b, s.iface(), e); int skip = c.below(2000); std::vector<double> v;
  while (s.dabs.size() < (size_t)skip + 800) { e.dtime = 0.0625; e.x += 1; stroke(b, s.iface(), e); }
  for (size_t i = skip; i < s.dabs.size(); i++) v.push_back(s.dabs[i].lock_alpha);
  if (v.size() >= 300) c.nontrivial(); double mean = 0, var = 0, cor = 0; for (double x : v) { if (!(x >= 0 && x < 1)) c.fail("range", "random input %.9g", x); mean += x; } mean /= v.size(); size_t same = 0; for (size_t i = 0; i < v.size(); i++) { var += (v[i] - mean) * (v[i] - mean); if (i) { cor += (v[i] - mean) * (v[i - 1] - mean); same += v[i] == v[i - 1]; } } var /= v.size(); cor /= v.size() * (1 / 12.0);
  if (same > 2) c.fail("stale", "the random input repeated %zu times", same); double se = sqrt(1 / 12.0 / v.size()); if (fabs(mean - 0.5) > 6 * se) c.fail("mean", "mean %g of %zu values", mean, v.size()); if (fabs(var - 1 / 12.0) > 6 * sqrt(1 / 180.0 / v.size())) c.fail("variance", "variance %g", var); if (fabs(cor) > 6 / sqrt(v.size())) c.fail("correlation", "successive values correlate by %g", cor);
}
PBT_MAIN("C19", "finite inputs; view zoom within the documented range", "inputs whose exact value depends on rounding (direction of a vanishing movement, a threshold hit exactly) are only checked for their range")
