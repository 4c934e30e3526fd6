// C20: settings determine the dab as documented.
#include <array>
#include "brushgen.hpp"
using namespace pbt;
typedef std::array<double, 3> RGB;
static double clamp01(double v) { return std::min(1.0, std::max(0.0, v)); }
static RGB hsv2rgb(double h, double s, double v) { h -= floor(h); s = clamp01(s); v = clamp01(v); auto f = [&](double n) { double k = fmod(n + h * 6, 6); return v - v * s * std::max(0.0, std::min({k, 4 - k, 1.0})); }; return {f(5), f(3), f(1)}; }
static RGB hsl2rgb(double h, double s, double l) { h -= floor(h); s = clamp01(s); l = clamp01(l); double a = s * std::min(l, 1 - l); auto f = [&](double n) { double k = fmod(n + h * 12, 12); return l - a * std::max(-1.0, std::min({k - 3, 9 - k, 1.0})); }; return {f(0), f(8), f(4)}; }
static double hue(const RGB &c) { double M = std::max({c[0], c[1], c[2]}), m = std::min({c[0], c[1], c[2]}), d = M - m; if (d <= 0) return 0; double h = M == c[0] ? fmod((c[1] - c[2]) / d + 6, 6) : M == c[1] ? 2 + (c[2] - c[0]) / d : 4 + (c[0] - c[1]) / d; return h / 6; }
struct Color { RGB c; double tol; };
// the colour of a dab: brush colour, HSV change, then HSL change, in the display space when the canvas is linear
static Color ref_color(Brush &b, bool linear) {
  auto g = [&](int s) { return (double)b.get(s); }; double dh = g(SET(CHANGE_COLOR_H)), ds = g(SET(CHANGE_COLOR_HSV_S)), dv = g(SET(CHANGE_COLOR_V)), dl = g(SET(CHANGE_COLOR_L)), dsl = g(SET(CHANGE_COLOR_HSL_S)); bool hsv = dh || ds || dv, hsl = dl || dsl;
  RGB c = hsv2rgb(g(SET(COLOR_H)), g(SET(COLOR_S)), g(SET(COLOR_V))); double tol = 1e-3, cond = 1;
  if (linear && (hsv || hsl)) { for (double &x : c) x = pow(x, 1 / 2.2); tol = 4e-3; }
  auto spread = [&] { return std::max({c[0], c[1], c[2]}) - std::min({c[0], c[1], c[2]}); };
  if (hsv) { double M = std::max({c[0], c[1], c[2]}), d = spread(), s = d > 1e-4 ? d / M : 0, h = d > 1e-4 ? hue(c) : 0; tol += 6e-4; if (d > 0) cond += std::min(10.0, 1e-7 / d * 1e4); c = hsv2rgb(h + dh, s + s * M * ds, M + dv); if (M < 1e-3 && d > 0) tol = 9; if (M > 0 && d > 0 && d < 3e-4 && M < 0.1) tol += d / M * 2; }
  if (hsl) { double M = std::max({c[0], c[1], c[2]}), m = std::min({c[0], c[1], c[2]}), d = M - m, l = (M + m) / 2, s = d <= 0 ? 0 : l <= 0.5 ? d / (M + m) : d / (2 - M - m); if (d > 1e-12 && d < 1e-3) tol = 9; double nl = clamp01(l + dl), nl0 = l + dl; s += s * std::min(fabs(1 - nl0), fabs(nl0)) * 2 * dsl; c = hsl2rgb(hue(c), s, nl); if (d > 0 && (M + m < 1e-3 || 2 - M - m < 1e-3)) tol = 9; if (d > 0) tol += std::min(0.5, 2e-6 / std::min(d, std::min(M + m, 2 - M - m) + 1e-9)); }
  if (linear && (hsv || hsl)) for (double &x : c) x = pow(clamp01(x), 2.2);
  return {c, tol * cond};
}
struct Shape { double radius, hardness, tol; };
static Shape ref_shape(Brush &b, double R) {
  double h = clamp01(b.get(SET(HARDNESS))), aa = b.get(SET(ANTI_ALIASING)), r = R, tol = 2e-5;
  if (R * (1 - h) < aa) { double opt = r - (1 - h) * r / 2; h = (opt - aa / 2) / (opt + aa / 2); r = opt + aa / 2; tol = 6e-5; }
  return {r, h, tol};
}
static double mod360(double a) { a = fmod(a, 360); if (a > 180) a -= 360; if (a < -180) a += 360; return a; }
static const int rates[] = {SET(DABS_PER_ACTUAL_RADIUS), SET(DABS_PER_BASIC_RADIUS)};
static void random_constants(Case &c, Brush &b, double rhi) {
  static const int skip[] = {SET(SMUDGE), SET(SMUDGE_BUCKET), SET(RADIUS_BY_RANDOM), SET(OFFSET_BY_RANDOM), SET(TRACKING_NOISE), SET(DABS_PER_SECOND), SET(RADIUS_LOGARITHMIC), SET(RESTORE_COLOR)};
  for (int s = 0; s < MYPAINT_BRUSH_SETTINGS_COUNT; s++) for (int i = 0; i < MYPAINT_BRUSH_INPUTS_COUNT; i++) mypaint_brush_set_mapping_n(b, (MyPaintBrushSetting)s, (MyPaintBrushInput)i, 0);
  b.set(SET(OPAQUE_MULTIPLY), 1); b.set(SET(RADIUS_LOGARITHMIC), c.real(-2, rhi, 2)); b.set(SET(OPAQUE), c.real(0, 1, 0.5)); c.log("radius exp(%.9g) opaque %.9g", b.get(SET(RADIUS_LOGARITHMIC)), b.get(SET(OPAQUE)));
  while (c.more(10)) { int s = c.below(MYPAINT_BRUSH_SETTINGS_COUNT); bool no = false; for (int k : skip) no |= k == s; if (no) continue; float v = gen_value(c, s); for (int k : rates) if (s == k) v = c.real(0, 20, 2); b.set(s, v); c.log("set %s %.9g", sname(s), v); }
}
FACET(dab, 6000, 300000, "brushes with any settings in their published ranges, without dynamics or with curves over a constant input (effective values up to a range outside), painting short strokes (tilt, zoom, view rotation, linear or not): all 17 parameters of every dab against formulas in double precision written from the documentation; non-trivial: >= 3 dabs and >= 3 settings away from their default") {
  Brush b; random_constants(c, b, 6); b.set(SET(DABS_PER_SECOND), 60); b.set(SET(STROKE_THRESHOLD), 0); if (c.chance(1, 3)) { static const int cc[] = {SET(COLOR_H), SET(COLOR_S), SET(COLOR_V), SET(CHANGE_COLOR_H), SET(CHANGE_COLOR_HSV_S), SET(CHANGE_COLOR_V), SET(CHANGE_COLOR_L), SET(CHANGE_COLOR_HSL_S)}; for (int s : cc) if (s <= SET(COLOR_V) || c.chance(1, 2)) { b.set(s, s < SET(CHANGE_COLOR_H) ? c.real(0, 1, 0.5) : c.real(-1, 1, 0)); c.log("set %s %.9g", sname(s), b.get(s)); } }
  int diff = 0; for (int s = 0; s < MYPAINT_BRUSH_SETTINGS_COUNT; s++) diff += b.get(s) != sinfo(s)->def; bool linear = c.chance(1, 2); b.set(SET(SLOW_TRACKING), 0);
  // with dynamics: the custom input stays 0, curves over it add a constant; v holds the resulting values
  Brush v; copy_settings(b, v); bool dyn = c.chance(1, 3); if (dyn) { b.set(SET(CUSTOM_INPUT), 0); v.set(SET(CUSTOM_INPUT), 0); int n = 1 + c.below(6);
    for (int k = 0; k < n; k++) {
      static const int any[] = {SET(OPAQUE), SET(OPAQUE_MULTIPLY), SET(HARDNESS), SET(SOFTNESS), SET(PAINT_MODE), SET(RADIUS_LOGARITHMIC), SET(SNAP_TO_PIXEL)}, in[] = {SET(CHANGE_COLOR_H), SET(CHANGE_COLOR_HSV_S), SET(CHANGE_COLOR_V), SET(CHANGE_COLOR_L), SET(CHANGE_COLOR_HSL_S), SET(ERASER), SET(LOCK_ALPHA), SET(COLORIZE), SET(POSTERIZE), SET(POSTERIZE_NUM), SET(OFFSET_X), SET(OFFSET_Y), SET(OFFSET_ANGLE), SET(OFFSET_ANGLE_ASC), SET(OFFSET_ANGLE_VIEW), SET(OFFSET_ANGLE_2), SET(OFFSET_ANGLE_2_ASC), SET(OFFSET_ANGLE_2_VIEW), SET(OFFSET_ANGLE_ADJ), SET(OFFSET_MULTIPLIER), SET(OFFSET_BY_SPEED), SET(ELLIPTICAL_DAB_RATIO), SET(ELLIPTICAL_DAB_ANGLE), SET(ANTI_ALIASING)};
      bool wide = c.chance(1, 2); int s = wide ? any[c.below(7)] : in[c.below(24)]; double lo = sinfo(s)->min, hi = sinfo(s)->max; float base = c.real(lo, hi, sinfo(s)->def); if (wide && s != SET(RADIUS_LOGARITHMIC)) { double w = hi - lo; lo -= w; hi += w; }
      float y = c.real(lo, hi, lo) - base; double z = c.real(-2, 2, 0) * y; b.set(s, base); b.curve(s, INP(CUSTOM), {{-1, (float)(y - z)}, {1, (float)(y + z)}}); v.set(s, base + ((float)(y - z) + (float)(y + z)) / 2); c.log("dynamics: %s %.9g + %.9g", sname(s), base, v.get(s) - base); c.label("dynamics"); } }
  Color col = ref_color(v, linear); double R0 = exp((double)b.get(SET(RADIUS_LOGARITHMIC))), R = std::min(1000.0, std::max(0.2, exp((double)v.get(SET(RADIUS_LOGARITHMIC))))); Shape sh = ref_shape(v, R);
  double op = clamp01(std::max(0.0, (double)v.get(SET(OPAQUE))) * v.get(SET(OPAQUE_MULTIPLY))), lin = b.get(SET(OPAQUE_LINEARIZE)); if (lin) { double n = std::max(1.0, 2.0 * (b.get(rates[0]) + b.get(rates[1]))); n = 1 + lin * (n - 1); op = 1 - pow(1 - op, 1 / n); }
  resettle(c, b); RecSurf s; int flip = -1; long nth = 0; auto g = [&](int k) { return (double)v.get(k); };
  s.on_dab = [&](const Dab &d) {
    nth++; flip = -flip;
    auto near = [&](const char *n, double got, double want, double t) { c.stat(fabs(got - want) / t); if (!(fabs(got - want) <= t)) c.fail(n, "dab %ld: %s is %.9g instead of %.9g (tolerance %.2g)", nth, n, got, want, t); };
    for (int k = 0; k < 3; k++) if (col.tol < 1) near(k == 0 ? "red" : k == 1 ? "green" : "blue", (&d.r)[k], col.c[k], col.tol); else if (!((&d.r)[k] >= -1e-6 && (&d.r)[k] <= 1 + 1e-6)) c.fail("color", "color %g", (&d.r)[k]);
    near("opacity", d.opaque, op, 2e-5);
    double snap = std::min(1.0, g(SET(SNAP_TO_PIXEL))), r = sh.radius; if (snap > 0) { double q = std::max(0.5, floor(r * 2 + 0.5) / 2); if (fabs(r * 2 - floor(r * 2) - 0.5) < 1e-4) q = d.radius > r ? std::max(0.5, ceil(r * 2) / 2) : std::max(0.5, floor(r * 2) / 2); if (snap > 0.9999) q -= 1e-4; if (fabs(snap - 0.9999) < 1e-6) q = r, snap = 0; r += (q - r) * snap; }
    near("radius", d.radius, r, (sh.tol + 2e-5) * (r + 1)); near("hardness", d.hardness, sh.hardness, 1e-4); near("softness", d.softness, clamp01(g(SET(SOFTNESS))), 1e-6);
    near("eraser", d.color_a, 1 - g(SET(ERASER)), 1e-6); near("aspect ratio", d.aspect, g(SET(ELLIPTICAL_DAB_RATIO)), 1e-6); near("lock alpha", d.lock_alpha, g(SET(LOCK_ALPHA)), 1e-6); near("colorize", d.colorize, g(SET(COLORIZE)), 1e-6); near("posterize", d.posterize, g(SET(POSTERIZE)), 1e-6); near("posterize levels", d.posterize_num, g(SET(POSTERIZE_NUM)), 1e-6); near("pigment", d.paint, clamp01(g(SET(PAINT_MODE))), 1e-6);
    double rot = b.state(ST(VIEWROTATION)), da = fmod(d.angle - (g(SET(ELLIPTICAL_DAB_ANGLE)) - rot), 180); if (da > 90) da -= 180; if (da < -90) da += 180; if (fabs(da) > 2e-3) c.fail("angle", "dab %ld: angle %.9g for a setting of %.9g in a view rotated by %.9g", nth, d.angle, g(SET(ELLIPTICAL_DAB_ANGLE)), rot);
    if (!(d.angle >= -180.001 && d.angle <= 0.001)) c.fail("angle", "angle %.9g out of its range", d.angle);
    // position
    double mul = R0 * exp(g(SET(OFFSET_MULTIPLIER))), adj = g(SET(OFFSET_ANGLE_ADJ)), dir = atan2((double)b.state(ST(DIRECTION_ANGLE_DY)), (double)b.state(ST(DIRECTION_ANGLE_DX))) * 180 / M_PI - 90, asc = b.state(ST(ASCENSION)) - rot, x = g(SET(OFFSET_X)), y = g(SET(OFFSET_Y)); auto rad = [](double a) { return a * M_PI / 180; };
    double o = g(SET(OFFSET_ANGLE)); x += cos(rad(dir + adj)) * o; y += sin(rad(dir + adj)) * o; o = g(SET(OFFSET_ANGLE_ASC)); x += cos(rad(asc + adj)) * o; y += sin(rad(asc + adj)) * o; o = g(SET(OFFSET_ANGLE_VIEW)); x += cos(rad(rot + adj)) * o; y -= sin(rad(rot + adj)) * o;
    o = std::max(0.0, g(SET(OFFSET_ANGLE_2))) * flip; x += cos(rad(dir + adj * flip)) * o; y += sin(rad(dir + adj * flip)) * o; o = std::max(0.0, g(SET(OFFSET_ANGLE_2_ASC))) * flip; x += cos(rad(asc + adj * flip)) * o; y += sin(rad(asc + adj * flip)) * o; o = std::max(0.0, g(SET(OFFSET_ANGLE_2_VIEW))) * flip; x += cos(rad(rot + adj)) * o; y -= sin(rad(rot + adj)) * o;
    double big = (fabs(x) + fabs(y) + fabs(g(SET(OFFSET_X))) + fabs(g(SET(OFFSET_Y))) + fabs(g(SET(OFFSET_ANGLE))) + fabs(g(SET(OFFSET_ANGLE_ASC))) + fabs(g(SET(OFFSET_ANGLE_VIEW))) + fabs(g(SET(OFFSET_ANGLE_2))) + fabs(g(SET(OFFSET_ANGLE_2_ASC))) + fabs(g(SET(OFFSET_ANGLE_2_VIEW)))) * mul; x = std::min(3240.0, std::max(-3240.0, x * mul)); y = std::min(3240.0, std::max(-3240.0, y * mul));
    double sp = g(SET(OFFSET_BY_SPEED)) * 0.1 / b.state(ST(VIEWZOOM)), vx = b.state(ST(NORM_DX_SLOW)) * sp, vy = b.state(ST(NORM_DY_SLOW)) * sp; double X = b.state(ST(ACTUAL_X)) + x + vx, Y = b.state(ST(ACTUAL_Y)) + y + vy, t = 1e-3 + 3e-6 * (fabs(X) + fabs(Y) + fabs(vx) + fabs(vy)) + 2e-5 * std::min(big, 3240.0 * 50);
    auto snapped = [&](const char *n, double got, double P) { if (snap <= 0) return near(n, got, P, t); double best = 1e9; for (double u : {P - t, P, P + t}) { double w = P + (floor(u) + 0.5 - P) * snap; best = std::min(best, fabs(got - w)); } if (!(best <= t)) c.fail(n, "dab %ld: %s is %.9g, off by %g (unsnapped %.9g, snap %g)", nth, n, got, best, P, snap); };
    snapped("x", d.x, X); snapped("y", d.y, Y); if (big > 1) c.label("offset"); if (snap > 0) c.label("snapped"); return 1;
  };
  Pen pen(c, c.real(-300, 300, 0), c.real(-300, 300, 0)); Event e = pen.next(c, 30); e.dtime = 10; e.pressure = 0; e.linear = linear; stroke(b, s.iface(), e); int n = 1 + c.below(8);
  for (int i = 0; i < n; i++) { e = pen.next(c, std::min(100.0, R * 1.5)); e.linear = linear; if (e.dtime > 0.09) e.dtime = 0.05; c.log("%s", str(e).c_str()); stroke(b, s.iface(), e); if (nth > 3000) break; }
  if (nth >= 3 && diff >= 3) c.nontrivial();
}
// position filters
FACET(tracking, 3000, 150000, "slow tracking (per event and per dab) and speed offsets on strokes of brushes with a constant dab rate in time: dab positions against a double precision model of the filters; non-trivial: >= 5 dabs with a filter on") {
  Brush b; b.set(SET(DABS_PER_ACTUAL_RADIUS), 0); double rate = c.real(20, 150, 50); b.set(SET(DABS_PER_SECOND), rate); double T = c.chance(1, 2) ? 0 : c.real(0, 10, 2), Td = c.chance(1, 2) ? 0 : c.real(0, 10, 2), os = c.chance(1, 2) ? 0 : c.real(-3, 3, 1), sl = c.real(0, 15, 1); b.set(SET(SLOW_TRACKING), T); b.set(SET(SLOW_TRACKING_PER_DAB), Td); b.set(SET(OFFSET_BY_SPEED), os); b.set(SET(OFFSET_BY_SPEED_SLOWNESS), sl); T = b.get(SET(SLOW_TRACKING)); Td = b.get(SET(SLOW_TRACKING_PER_DAB)); os = b.get(SET(OFFSET_BY_SPEED)); sl = b.get(SET(OFFSET_BY_SPEED_SLOWNESS)); rate = b.get(SET(DABS_PER_SECOND));
  c.log("rate %g slow tracking %g per dab %g offset by speed %g slowness %g", rate, T, Td, os, sl); RecSurf s; Pen pen(c, 0, 0); Event e = pen.next(c, 10); e.dtime = 0.01; mypaint_brush_reset(b); stroke(b, s.iface(), e); c.log("%s", str(e).c_str());
  double x = e.x, y = e.y, ax = x, ay = y, vx = 0, vy = 0, part = 0; bool first = true; size_t seen = 0; int n = 1 + c.below(20); double Tv = std::max(0.002, exp(sl * 0.01) - 1), verr = 0;
  for (int i = 0; i < n; i++) {
    e = pen.next(c, 30); e.dtime = c.real(0.001, 0.09, 0.03); c.log("%s", str(e).c_str()); double fac = T <= 0.001 ? 1 : 1 - exp(-100 * e.dtime / T), tx = x + (e.x - x) * fac, ty = y + (e.y - y) * fac, left = e.dtime, todo = first ? 0 : left * rate; first = false; std::vector<std::array<double, 3>> want; bool lost = false;
    auto step = [&](double f, double dd) { double sx = f * (tx - x), sy = f * (ty - y), dt = f * left; if (dt <= 0) dt = 0.001; x += sx; y += sy; double fa = Td <= 0.001 ? 1 : 1 - exp(-dd / Td); ax += (x - ax) * fa; ay += (y - ay) * fa; double fv = 1 - exp(-dt / Tv); vx += (sx / dt * e.zoom - vx) * fv; vy += (sy / dt * e.zoom - vy) * fv; verr = verr * (1 - fv) + fv * (2e-4 / dt * e.zoom + 1e-5 * (fabs(sx) + fabs(sy)) / dt * e.zoom); };
    while (part + todo >= 1) { double d = part > 0 ? 1 - part : 1, f = d / todo; part = 0; double dt = f * left; step(f, d); left -= dt; todo = left * rate; if (todo < 2e-3) lost = true; want.push_back({ax + vx * os * 0.1 / e.zoom, ay + vy * os * 0.1 / e.zoom, 2e-3 + verr * fabs(os) * 0.1 / e.zoom}); }
    if (fabs(part + todo - 1) < 2e-3) lost = true;
    step(1, todo); part += todo; stroke(b, s.iface(), e); if (lost) break;
    if (s.dabs.size() - seen != want.size()) c.fail("count", "event %d: %zu dabs instead of %zu", i, s.dabs.size() - seen, want.size());
    for (auto &w : want) { const Dab &d = s.dabs[seen++]; c.stat(hypot(d.x - w[0], d.y - w[1]) / w[2]); if (hypot(d.x - w[0], d.y - w[1]) > w[2] + 2e-6 * (fabs(w[0]) + fabs(w[1]))) c.fail("position", "dab %zu at (%.7g,%.7g) instead of (%.7g,%.7g)", seen - 1, d.x, d.y, w[0], w[1]); }
  }
  if (seen >= 5 && (T || Td || os)) c.nontrivial();
}
// what random settings do on average and dab by dab
FACET(random, 250, 12000, "random radius and random offsets over 600 dabs: each dab's opacity is corrected by the squared ratio of radii (never upwards), logarithmic radii and offsets have the documented mean and standard deviation within 6 standard errors, opposite settings stay untouched; non-trivial: a random setting on") {
  Brush b; for (int i = 0; i < MYPAINT_BRUSH_INPUTS_COUNT; i++) mypaint_brush_set_mapping_n(b, MYPAINT_BRUSH_SETTING_OPAQUE_MULTIPLY, (MyPaintBrushInput)i, 0); b.set(SET(OPAQUE_MULTIPLY), 1); double op = c.real(0.1, 1, 0.7), rl = c.real(0.5, 3, 1.5), rr = c.chance(2, 3) ? c.real(0.02, 0.8, 0.3) : 0, ro = c.chance(2, 3) ? c.real(-1, 10, 1) : 0; b.set(SET(OPAQUE), op); b.set(SET(OPAQUE_LINEARIZE), 0); b.set(SET(RADIUS_LOGARITHMIC), rl); b.set(SET(RADIUS_BY_RANDOM), rr); b.set(SET(OFFSET_BY_RANDOM), ro); b.set(SET(ANTI_ALIASING), 0); b.set(SET(DABS_PER_ACTUAL_RADIUS), 0); b.set(SET(DABS_PER_SECOND), 100); c.log("opaque %g radius exp(%g) radius by random %g offset by random %g", op, rl, rr, ro);
  RecSurf s; Event e = {50, 60, 0.5, 0, 0, 0.01, 1, 0, 0, 0}; mypaint_brush_reset(b); stroke(b, s.iface(), e); int skip = c.below(500); while (s.dabs.size() < (size_t)skip + 600) { e.dtime = 0.05; stroke(b, s.iface(), e); }
  double R = exp(rl), N = 0, m[3] = {0, 0, 0}, q[3] = {0, 0, 0}; op = b.get(SET(OPAQUE));
  for (size_t i = skip; i < s.dabs.size(); i++, N++) {
    const Dab &d = s.dabs[i]; double f = std::min(1.0, R * R / ((double)d.radius * d.radius)); if (rr == 0) { f = 1; if (fabs(d.radius - R) > 1e-4 * R) c.fail("radius", "radius %g instead of %g", d.radius, R); }
    if (fabs(d.opaque - op * f) > 2e-4) c.fail("opacity", "a dab of radius %.7g instead of %.7g has opacity %.7g instead of %.7g", d.radius, R, d.opaque, op * f);
    double v[3] = {log(d.radius) - rl, (d.x - 50) / R, (d.y - 60) / R}; for (int k = 0; k < 3; k++) { m[k] += v[k]; q[k] += v[k] * v[k]; }
    if (ro <= 0 && (d.x != 50 || d.y != 60)) c.fail("offset", "dab at (%g,%g) without random offset", d.x, d.y);
  }
  double sd[3] = {rr, std::max(0.0, ro), std::max(0.0, ro)}; if (rr || ro > 0) c.nontrivial();
  for (int k = 0; k < 3; k++) if (sd[k] > 0) { double mean = m[k] / N, var = q[k] / N; if (fabs(mean) > 6 * sd[k] / sqrt(N) + 1e-4) c.fail("mean", "%s has mean %g at a standard deviation of %g", k ? "offset" : "log radius", mean, sd[k]); if (fabs(var / (sd[k] * sd[k]) - 1) > 6 * sqrt(2 / N)) c.fail("variance", "%s has variance %g instead of %g", k ? "offset" : "log radius", var, sd[k] * sd[k]); }
}
PBT_MAIN("C20", "dynamics only as constant additions; directions, tilt and filtered speed are read from the brush's states at each dab (C19 checks how they come about)", "colours whose saturation is dominated by rounding (nearly grey, black or white before an HSL change) are only checked for their range")
