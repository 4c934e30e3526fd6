// C29: strokes rotate, scale, move and mirror with the view as documented.
#include "brushgen.hpp"
using namespace pbt;
static const int show[4] = {SET(LOCK_ALPHA), SET(COLORIZE), SET(POSTERIZE), SET(POSTERIZE_NUM)};
static float shown(const Dab &d, int k) { return k == 0 ? d.lock_alpha : k == 1 ? d.colorize : k == 2 ? d.posterize : d.posterize_num; }
static double wrap(double a, double n) { a = fmod(a, n); if (a > n / 2) a -= n; if (a < -n / 2) a += n; return a; }
static void clear_curves(Brush &b, int s) { for (int i = 0; i < MYPAINT_BRUSH_INPUTS_COUNT; i++) mypaint_brush_set_mapping_n(b, (MyPaintBrushSetting)s, (MyPaintBrushInput)i, 0); }
// canvas-bound features, which a turned view cannot leave alone
static bool bound_to_canvas(int s) { static const int l[] = {SET(OFFSET_X), SET(OFFSET_Y), SET(SNAP_TO_PIXEL), SET(OFFSET_BY_RANDOM), SET(TRACKING_NOISE), SET(OFFSET_ANGLE_ASC), SET(OFFSET_ANGLE_2_ASC), SET(SMUDGE), SET(ELLIPTICAL_DAB_RATIO), SET(GRIDMAP_SCALE), SET(GRIDMAP_SCALE_X), SET(GRIDMAP_SCALE_Y)}; for (int k : l) if (k == s) return true; return false; }
static bool no_curves(Brush &b, int s) { for (int i = 0; i < MYPAINT_BRUSH_INPUTS_COUNT; i++) if (mypaint_brush_get_mapping_n(b, (MyPaintBrushSetting)s, (MyPaintBrushInput)i)) return false; return true; }
typedef std::vector<std::pair<float, float>> Pts;
// dynamics that are continuous and moderate, so that rounding stays rounding
static void smooth_brush(Case &c, Brush &b, const std::vector<int> &inputs, std::function<bool(int)> ok, int avg) {
  for (int s = 0; s < MYPAINT_BRUSH_SETTINGS_COUNT; s++) clear_curves(b, s);
  b.set(SET(OPAQUE_MULTIPLY), 1); b.set(SET(RADIUS_LOGARITHMIC), c.real(0.5, 4, 2)); b.set(SET(SMUDGE), 0); b.set(SET(ANTI_ALIASING), 0);
  while (c.more(avg)) {
    int s = c.below(MYPAINT_BRUSH_SETTINGS_COUNT); if (density(s) || !ok(s) || s == SET(SMUDGE) || s == SET(ANTI_ALIASING)) continue; float v = gen_value(c, s);
    if (s == SET(OFFSET_MULTIPLIER)) v = c.real(-2, 0.5, 0); if (s == SET(CUSTOM_INPUT_SLOWNESS) || s == SET(STROKE_DURATION_LOGARITHMIC)) v = c.real(0, 5, 1); if (s == SET(PRESSURE_GAIN_LOG)) v = c.real(-1, 1, 0); b.set(s, v); c.log("set %s %.9g", sname(s), v);
    if (!sinfo(s)->constant && !inputs.empty() && c.chance(1, 2) && s != SET(CUSTOM_INPUT_SLOWNESS) && s != SET(STROKE_DURATION_LOGARITHMIC) && s != SET(DIRECTION_FILTER) && s != SET(STROKE_HOLDTIME) && s != SET(OFFSET_BY_SPEED_SLOWNESS)) {
      int in = inputs[c.below(inputs.size())]; bool circ = in == INP(DIRECTION) || in == INP(DIRECTION_ANGLE) || in == INP(TILT_ASCENSION) || in == INP(ATTACK_ANGLE) || in == INP(BARREL_ROTATION) || in == INP(GRIDMAP_X) || in == INP(GRIDMAP_Y);
      if ((in == INP(DIRECTION) || in == INP(DIRECTION_ANGLE) || in == INP(ATTACK_ANGLE)) && (s == SET(SPEED1_SLOWNESS) || s == SET(SPEED2_SLOWNESS) || s == SET(CUSTOM_INPUT) || s == SET(SLOW_TRACKING_PER_DAB))) continue;   // these have a memory of the time before the pen had a direction
      const MyPaintBrushInputInfo *ii = iinfo(in); float lo = circ ? ii->hard_min : ii->soft_min, hi = circ ? ii->hard_max : ii->soft_max; double span = std::min(20.0f, sinfo(s)->max - sinfo(s)->min) * (s == SET(OFFSET_MULTIPLIER) ? 0.1 : 0.5); float u = c.real(-1, 1, 0.5) * span, w = c.real(-1, 1, 0) * span, m = lo + (hi - lo) * c.real(0.2, 0.8, 0.5);
      b.curve(s, in, {{lo, u}, {m, w}, {hi, circ ? u : (float)(c.real(-1, 1, 0) * span)}}); c.log("curve %s <- %s: (%g,%g) (%g,%g) (%g,..)", sname(s), iname(in), lo, u, m, w, hi);
    }
  }
}
struct Gesture { std::vector<Event> ev; };
static Gesture gesture(Case &c, int n, double step, bool turns, bool tilt, bool rests = true) {
  Gesture g; double x = 0.25 * c.near(-2000, 2000, 40), y = 0.25 * c.near(-2000, 2000, 80), head = c.real(-M_PI, M_PI, 0.5), p = 0.5; double ta = c.real(-M_PI, M_PI, 1), tm = tilt ? c.real(0.05, 0.95, 0.5) : 0; float bar = c.chance(1, 3) ? c.real(-1, 1, 0.2) : 0;
  for (int i = 0; i < n; i++) {
    if (i) { head += turns && c.chance(1, 10) ? c.real(-M_PI, M_PI, 2) : c.real(-1.2, 1.2, 0.1); double l = rests && c.chance(1, 12) ? 0 : c.real(0.05, 1, 0.5) * step; double ox = x, oy = y; x += floor(cos(head) * l * 4) / 4; y += floor(sin(head) * l * 4) / 4; if (!rests && x == ox && y == oy) x += 0.25; }
    if (c.chance(1, 3)) p = c.chance(1, 8) ? 0 : c.real(0.05, 1, 0.5); if (tilt && c.chance(1, 2)) { ta += c.real(-1, 1, 0); tm = c.real(0.05, 0.95, 0.5); }
    g.ev.push_back({(float)x, (float)y, (float)p, (float)(cos(ta) * tm), (float)(sin(ta) * tm), i ? 1.0 / 16 : 0.01, 1, 0, bar, 0});
  }
  return g;
}
static Event turned(const Event &e, double v) { Event r = e; double q = v / (M_PI / 2), n = floor(q + 0.5); double co = cos(v), si = sin(v); if (fabs(q - n) < 1e-9) { int k = ((int)n % 4 + 4) % 4; co = k == 0 ? 1 : k == 2 ? -1 : 0; si = k == 1 ? 1 : k == 3 ? -1 : 0; }
  r.x = co * e.x - si * e.y; r.y = si * e.x + co * e.y; r.xtilt = co * e.xtilt - si * e.ytilt; r.ytilt = si * e.xtilt + co * e.ytilt; return r; }
struct Twin { Brush a, b; RecSurf sa, sb; };
static void same_field(Case &c, int dab, int f, double got, double want, double tol, const char *how) { c.stat(fabs(got - want) / tol); if (!(fabs(got - want) <= tol)) c.fail(dab_field(f), "dab %d: %s is %.9g, %s demands %.9g (tolerance %.2g)", dab, dab_field(f), got, how, want, tol); }
FACET(rotate, 3000, 150000, "one dab per event (rate in time); brushes whose settings follow the view (random settings, continuous dynamics incl. direction, ascension, attack angle, angular and view offsets, speed offsets); the same screen gesture painted in a view turned by any angle: inputs (two are shown raw) equal, dab positions and angles turned back, everything else equal; non-trivial: >= 4 dabs compared with direction in use or elliptical dabs") {
  Twin t; static const std::vector<int> in = {INP(PRESSURE), INP(SPEED1), INP(SPEED2), INP(RANDOM), INP(STROKE), INP(DIRECTION), INP(DIRECTION_ANGLE), INP(TILT_DECLINATION), INP(TILT_ASCENSION), INP(ATTACK_ANGLE), INP(CUSTOM), INP(BARREL_ROTATION), INP(VIEWZOOM), INP(BRUSH_RADIUS)};
  smooth_brush(c, t.a, in, [](int s) { return !bound_to_canvas(s); }, 8); bool ell = c.chance(1, 2); t.a.set(SET(ELLIPTICAL_DAB_RATIO), ell ? c.real(1, 4, 2) : 1); if (c.chance(1, 2)) { clear_curves(t.a, SET(ELLIPTICAL_DAB_ANGLE)); Pts p{{0, 0}, {180, 180}}; t.a.set(SET(ELLIPTICAL_DAB_ANGLE), c.real(0, 180, 0)); t.a.curve(SET(ELLIPTICAL_DAB_ANGLE), INP(DIRECTION), p); c.log("angle follows direction"); }
  if (c.chance(1, 2)) { int s = c.pick({SET(OFFSET_ANGLE), SET(OFFSET_ANGLE_2), SET(OFFSET_ANGLE_VIEW), SET(OFFSET_ANGLE_2_VIEW), SET(OFFSET_BY_SPEED)}); t.a.set(s, c.real(0, 3, 1)); c.log("set %s %g", sname(s), t.a.get(s)); }
  int obs[2]; for (int k = 0; k < 2; k++) { obs[k] = in[c.below(in.size())]; t.a.set(show[k], 0); clear_curves(t.a, show[k]); t.a.curve(show[k], obs[k], {{0, 0}, {1, 1}}); c.log("%s shows %s", sname(show[k]), iname(obs[k])); }
  t.a.set(SET(DABS_PER_SECOND), 16); t.a.set(SET(DABS_PER_ACTUAL_RADIUS), 0); t.a.set(SET(DABS_PER_BASIC_RADIUS), 0); copy_settings(t.a, t.b);
  Gesture g = gesture(c, 3 + c.below(20), 30, true, true); double v = c.chance(1, 3) ? M_PI / 2 * c.near(-8, 8, 1) : c.real(-20, 20, 0.5), v0 = c.chance(1, 2) ? 0 : c.real(-7, 7, 0.3), zoom = c.chance(1, 2) ? 1 : exp(c.real(-2, 2, 0.7)); bool step_view = c.chance(1, 4); c.log("view rotations %.9g and %.9g%s, zoom %.9g", v0, v0 + v, step_view ? " (turning during the stroke)" : "", zoom);
  mypaint_brush_reset(t.a); mypaint_brush_reset(t.b); bool moved = false, amb = false; int compared = 0, lin = c.below(2); double worst = 0;
  bool dirdep = false; for (int s = 0; s < MYPAINT_BRUSH_SETTINGS_COUNT; s++) for (int i : {INP(DIRECTION), INP(DIRECTION_ANGLE), INP(ATTACK_ANGLE)}) dirdep |= s != show[0] && s != show[1] && mypaint_brush_get_mapping_n(t.a, (MyPaintBrushSetting)s, (MyPaintBrushInput)i) > 0; for (int s : {SET(OFFSET_ANGLE), SET(OFFSET_ANGLE_2)}) dirdep |= t.a.get(s) != 0 || !no_curves(t.a, s); (void)worst;
  for (size_t i = 0; i < g.ev.size() && !amb; i++) {
    Event e = g.ev[i]; e.zoom = zoom; e.linear = lin; double w = v; if (step_view) v0 += 0.05; Event f = turned(e, -w); e.rot = v0; f.rot = v0 + w; c.log("%s", str(e).c_str());
    double ax = t.a.state(ST(DIRECTION_DX)), ay = t.a.state(ST(DIRECTION_DY)), sx = i ? e.x - g.ev[i - 1].x : 0, sy = i ? e.y - g.ev[i - 1].y : 0, l = hypot(ax, ay) * hypot(sx, sy); if (l > 0 && fabs(ax * sx + ay * sy) < 2e-3 * l) amb = true;
    size_t na = t.sa.dabs.size(), nb = t.sb.dabs.size(); stroke(t.a, t.sa.iface(), e); stroke(t.b, t.sb.iface(), f); size_t da = t.sa.dabs.size() - na, db = t.sb.dabs.size() - nb;
    if (amb) break; double dirlen = hypot(t.a.state(ST(DIRECTION_ANGLE_DX)), t.a.state(ST(DIRECTION_ANGLE_DY))) / zoom;
    bool good = moved && dirlen > 0.02; if (sx || sy) moved = true;
    if (da != db) { double o = 0; (void)o; if (da + db) c.fail("count", "event %zu gives %zu dab(s), %zu in the turned view", i, da, db); continue; }
    if (dirdep && !good) continue;
    for (size_t k = 0; k < da; k++) {
      const Dab &p = t.sa.dabs[na + k], &q = t.sb.dabs[nb + k]; double co = cos(-w), si = sin(-w), X = co * p.x - si * p.y, Y = si * p.x + co * p.y, tol = 0.02 + 2e-5 * (fabs(p.x) + fabs(p.y)) + (dirdep ? 1e-3 * hypot(p.x - e.x, p.y - e.y) * (1 + 1 / dirlen * 0.05) : 0);
      if (hypot(p.x - e.x, p.y - e.y) < 3100 && hypot(q.x - f.x, q.y - f.y) < 3100) { same_field(c, na + k, 0, q.x, X, tol, "turning the view"); same_field(c, na + k, 1, q.y, Y, tol, "turning the view"); }   // offsets are limited along the axes
      for (int j = 2; j < Dab::N; j++) { if (j == 11) continue; double a = p.v()[j], z = q.v()[j]; int o = j == 12 ? 0 : j == 13 ? 1 : -1; double jt = 2e-3 + 1e-3 * fabs(a);
        if (o >= 0) { double d; int id = obs[o]; bool dir = id == INP(DIRECTION) || id == INP(DIRECTION_ANGLE) || id == INP(ATTACK_ANGLE); if (dir && !good) continue; d = id == INP(DIRECTION) ? wrap(z - a, 180) : dir || id == INP(TILT_ASCENSION) || id == INP(BARREL_ROTATION) ? wrap(z - a, 360) : z - a; double it = dir ? 0.1 + 0.02 / dirlen : jt; c.stat(fabs(d) / it); if (!(fabs(d) <= it)) c.fail("input", "dab %zu: input %s is %.9g, %.9g in the turned view", na + k, iname(id), a, z); }
        else same_field(c, na + k, j, z, a, jt, "turning the view"); }
      if (p.aspect > 1.001) { double d = wrap(q.angle - (p.angle - w * 180 / M_PI), 180), at = 0.05 + (dirdep ? 0.1 + 0.02 / dirlen : 0); c.stat(fabs(d) / at); if (!(fabs(d) <= at)) c.fail("angle", "dab %zu: angle %.9g, %.9g in a view turned by %.9g degrees", na + k, p.angle, q.angle, w * 180 / M_PI); c.label("elliptical"); }
      compared++;
    }
  }
  if (dirdep) c.label("direction"); if (compared >= 4 && (dirdep || ell)) c.nontrivial();
}
FACET(scale, 3000, 150000, "the same screen gesture at another zoom (power of two), with the brush radius scaled along: every dab scales; all inputs but zoom and radius equal; dabs at any rate per radius and second, any settings and dynamics that are not bound to pixels (incl. random ones); non-trivial: >= 4 dabs") {
  Twin t; static const std::vector<int> in = {INP(PRESSURE), INP(SPEED1), INP(SPEED2), INP(RANDOM), INP(STROKE), INP(DIRECTION), INP(DIRECTION_ANGLE), INP(TILT_DECLINATION), INP(TILT_ASCENSION), INP(ATTACK_ANGLE), INP(CUSTOM), INP(BARREL_ROTATION), INP(TILT_DECLINATIONX), INP(TILT_DECLINATIONY)};
  smooth_brush(c, t.a, in, [](int s) { return s != SET(SNAP_TO_PIXEL) && s != SET(GRIDMAP_SCALE) && s != SET(GRIDMAP_SCALE_X) && s != SET(GRIDMAP_SCALE_Y); }, 10); for (int s : {SET(TRACKING_NOISE), SET(OFFSET_BY_RANDOM)}) if (t.a.get(s) > 3) t.a.set(s, 1);
  bool random = t.a.get(SET(TRACKING_NOISE)) || t.a.get(SET(OFFSET_BY_RANDOM)) || t.a.get(SET(RADIUS_BY_RANDOM)); t.a.set(SET(RADIUS_LOGARITHMIC), c.real(1.5, 3.5, 2)); clear_curves(t.a, SET(RADIUS_LOGARITHMIC)); if (t.a.get(SET(RADIUS_BY_RANDOM)) > 0.5) t.a.set(SET(RADIUS_BY_RANDOM), 0.3); clear_curves(t.a, SET(RADIUS_BY_RANDOM));
  int obs[2]; for (int k = 0; k < 2; k++) { obs[k] = in[c.below(in.size())]; t.a.set(show[k], 0); clear_curves(t.a, show[k]); t.a.curve(show[k], obs[k], {{0, 0}, {1, 1}}); c.log("%s shows %s", sname(show[k]), iname(obs[k])); }
  t.a.set(SET(DABS_PER_SECOND), 16); t.a.set(SET(DABS_PER_ACTUAL_RADIUS), 0); t.a.set(SET(DABS_PER_BASIC_RADIUS), 0); copy_settings(t.a, t.b); double z = c.pick({2.0, 0.5, 4.0, 0.25}), base = c.chance(1, 2) ? 1 : exp(c.real(-1, 1, 0.5)); t.b.set(SET(RADIUS_LOGARITHMIC), t.a.get(SET(RADIUS_LOGARITHMIC)) - log(z)); c.log("zoom %g and %g%s", base, base * z, random ? ", random" : "");
  Gesture g = gesture(c, 3 + c.below(20), 30, true, c.chance(1, 2)); mypaint_brush_reset(t.a); mypaint_brush_reset(t.b); int n = 0;
  // directional offsets are limited to 3240 px before others are added
  double reach = 0; for (int s : {SET(OFFSET_X), SET(OFFSET_Y), SET(OFFSET_ANGLE), SET(OFFSET_ANGLE_ASC), SET(OFFSET_ANGLE_VIEW), SET(OFFSET_ANGLE_2), SET(OFFSET_ANGLE_2_ASC), SET(OFFSET_ANGLE_2_VIEW)}) reach += fabs(t.a.get(s)) + (no_curves(t.a, s) ? 0 : 20); reach *= exp(t.a.get(SET(OFFSET_MULTIPLIER)) + (no_curves(t.a, SET(OFFSET_MULTIPLIER)) ? 0 : 1) + t.a.get(SET(RADIUS_LOGARITHMIC))) * std::max(1.0, 1 / z);
  bool limited = reach > 3200 && (random || t.a.get(SET(OFFSET_BY_SPEED)) || !no_curves(t.a, SET(OFFSET_BY_SPEED)) || !no_curves(t.a, SET(OFFSET_BY_RANDOM)) || t.a.get(SET(SLOW_TRACKING)) || t.a.get(SET(SLOW_TRACKING_PER_DAB)) || !no_curves(t.a, SET(SLOW_TRACKING_PER_DAB)));
  if (t.a.get(SET(TRACKING_NOISE)) < 0.05) t.a.set(SET(TRACKING_NOISE), 0), t.b.set(SET(TRACKING_NOISE), 0); double skip = 0, noise = exp(t.a.get(SET(RADIUS_LOGARITHMIC))) * t.a.get(SET(TRACKING_NOISE));   // motion shorter than half the noise is skipped, down to 0.001 px
  for (size_t i = 0; i < g.ev.size(); i++) {
    Event e = g.ev[i], f; if (i && noise) { skip -= hypot(e.x - g.ev[i - 1].x, e.y - g.ev[i - 1].y); if (fabs(skip) < 0.01) break; if (skip < 0) skip = noise / 2; } else skip = noise / 2; e.rot = 0.3; e.zoom = base; f = e; f.zoom = base * z; f.x /= z; f.y /= z; c.log("%s", str(e).c_str()); size_t na = t.sa.dabs.size(), nb = t.sb.dabs.size(); stroke(t.a, t.sa.iface(), e); stroke(t.b, t.sb.iface(), f);
    if (t.sa.dabs.size() - na != t.sb.dabs.size() - nb) c.fail("count", "event %zu gives %zu dab(s), %zu at the other zoom", i, t.sa.dabs.size() - na, t.sb.dabs.size() - nb);
    for (size_t k = 0; na + k < t.sa.dabs.size(); k++, n++) { const Dab &p = t.sa.dabs[na + k], &q = t.sb.dabs[nb + k]; double d = hypot(p.x - e.x, p.y - e.y); double tol = 0.01 + 1e-5 * (fabs(p.x) + fabs(p.y)) + 1e-3 * d;
      if (limited || !(d < 3000 / std::max(1.0, 1 / z))) c.label("limited"); else for (int j = 0; j < 2; j++) same_field(c, n, j, q.v()[j] * z, p.v()[j], tol, "zooming");
      same_field(c, n, 2, q.radius * z, p.radius, 1e-3 * p.radius, "zooming");
      for (int j = 3; j < Dab::N; j++) { double a = p.v()[j], w = q.v()[j], jt = 2e-3 + 1e-3 * fabs(a); if (j == 11 || ((j == 12 || j == 13) && true)) { int id = j == 11 ? -1 : obs[j - 12]; double m = j == 11 || id == INP(DIRECTION) ? 180 : id == INP(DIRECTION_ANGLE) || id == INP(ATTACK_ANGLE) || id == INP(TILT_ASCENSION) || id == INP(BARREL_ROTATION) ? 360 : 1e9; double df = wrap(w - a, m), at = m < 1e9 ? 0.2 : jt; if (!(fabs(df) <= at)) c.fail(j == 11 ? "angle" : "input", "dab %d: %s is %.9g, %.9g at the other zoom", n, j == 11 ? "angle" : iname(id), a, w); } else same_field(c, n, j, w, a, jt, "zooming"); } }
  }
  if (random) c.label("random"); if (n >= 4) c.nontrivial();
}
FACET(zoom, 3000, 150000, "the same canvas gesture at two zooms, brushes without anything tied to zoom (no speed, direction or zoom dynamics, no direction offsets) at any dab rate: exactly the same dabs (speed offsets: up to rounding); non-trivial: >= 4 dabs") {
  Twin t; static const std::vector<int> in = {INP(PRESSURE), INP(RANDOM), INP(STROKE), INP(TILT_DECLINATION), INP(TILT_ASCENSION), INP(CUSTOM), INP(BARREL_ROTATION), INP(TILT_DECLINATIONX), INP(TILT_DECLINATIONY), INP(GRIDMAP_X), INP(GRIDMAP_Y), INP(BRUSH_RADIUS)};
  BrushOpts o; o.curves = false; smooth_brush(c, t.a, in, [](int s) { return s != SET(OFFSET_ANGLE) && s != SET(OFFSET_ANGLE_2); }, 10); bool speedy = t.a.get(SET(OFFSET_BY_SPEED)) || mypaint_brush_get_mapping_n(t.a, SET(OFFSET_BY_SPEED), INP(PRESSURE)); bound_density(c, t.a); if (c.chance(1, 2)) t.a.set(SET(SMUDGE), c.real(0, 1, 0.5)); for (int s : {SET(RADIUS_BY_RANDOM)}) if (t.a.get(s) > 0.5) t.a.set(s, 0.4); clear_curves(t.a, SET(RADIUS_BY_RANDOM)); speedy = !no_curves(t.a, SET(OFFSET_BY_SPEED)) || t.a.get(SET(OFFSET_BY_SPEED)) != 0; copy_settings(t.a, t.b);
  for (int i = 0; i < MYPAINT_BRUSH_INPUTS_COUNT; i++) speedy |= mypaint_brush_get_mapping_n(t.a, SET(OFFSET_BY_SPEED), (MyPaintBrushInput)i) > 0;
  if (speedy) for (Brush *b : {&t.a, &t.b}) { b->set(SET(SNAP_TO_PIXEL), 0); clear_curves(*b, SET(SNAP_TO_PIXEL)); }
  if (speedy) { t.a.set(SET(SMUDGE), 0); clear_curves(t.a, SET(SMUDGE)); t.b.set(SET(SMUDGE), 0); clear_curves(t.b, SET(SMUDGE)); }
  double z1 = exp(c.real(-2.5, 4, 0)), z2 = exp(c.real(-2.5, 4, 1)); c.log("zoom %.9g and %.9g", z1, z2); t.sa.color = t.sb.color = pick_color; Gesture g = gesture(c, 3 + c.below(20), 30, true, c.chance(1, 2)); mypaint_brush_reset(t.a); mypaint_brush_reset(t.b);
  for (auto e : g.ev) { if (e.dtime > 0.02) e.dtime = c.real(0.001, 0.1, 0.02); Event f = e; e.zoom = z1; f.zoom = z2; c.log("%s", str(e).c_str()); stroke(t.a, t.sa.iface(), e); stroke(t.b, t.sb.iface(), f); if (t.sa.dabs.size() != t.sb.dabs.size()) c.fail("count", "%zu dabs, %zu at the other zoom", t.sa.dabs.size(), t.sb.dabs.size()); if (t.sa.dabs.size() > 5000) throw Discard(); }
  for (size_t i = 0; i < t.sa.dabs.size(); i++) { const Dab &p = t.sa.dabs[i], &q = t.sb.dabs[i]; for (int j = 0; j < Dab::N; j++) { double a = p.v()[j], b = q.v()[j]; if (speedy && j < 2) { if (t.a.get(SET(SNAP_TO_PIXEL)) > 0) continue; if (fabs(a - b) > 0.01 + 1e-4 * fabs(a)) c.fail("position", "dab %zu: %s is %.9g, %.9g at the other zoom", i, dab_field(j), a, b); } else if (speedy && t.a.get(SET(SMUDGE)) > 0 && (j >= 3 && j < 10)) continue; else if (a != b) c.fail("zoom", "dab %zu: %s is %.9g, %.9g at the other zoom", i, dab_field(j), a, b); } }
  if (speedy) c.label("speed offset"); if (t.sa.dabs.size() >= 4) c.nontrivial();
}
FACET(move, 3000, 150000, "the same gesture moved by whole pixels, one dab per event on a quarter-pixel grid, any settings and dynamics but the grid map: dabs (and smudge picks, exactly) move along, all else is the same; non-trivial: >= 4 dabs") {
  Twin t; std::vector<int> in; for (int i = 0; i < MYPAINT_BRUSH_INPUTS_COUNT; i++) if (i != INP(GRIDMAP_X) && i != INP(GRIDMAP_Y)) in.push_back(i);
  smooth_brush(c, t.a, in, [](int) { return true; }, 10); bool smudge = c.chance(1, 2); if (smudge) { for (int s : {SET(OFFSET_X), SET(OFFSET_Y), SET(OFFSET_ANGLE), SET(OFFSET_ANGLE_ASC), SET(OFFSET_ANGLE_VIEW), SET(OFFSET_ANGLE_2), SET(OFFSET_ANGLE_2_ASC), SET(OFFSET_ANGLE_2_VIEW), SET(OFFSET_BY_SPEED), SET(OFFSET_BY_RANDOM), SET(TRACKING_NOISE), SET(SLOW_TRACKING), SET(SLOW_TRACKING_PER_DAB), SET(SNAP_TO_PIXEL)}) { t.a.set(s, 0); clear_curves(t.a, s); } t.a.set(SET(SMUDGE), c.real(0.1, 1, 0.5)); }
  t.a.set(SET(DABS_PER_SECOND), 16); t.a.set(SET(DABS_PER_ACTUAL_RADIUS), 0); t.a.set(SET(DABS_PER_BASIC_RADIUS), 0); copy_settings(t.a, t.b); float mx = c.near(-4000, 4000, 64), my = c.near(-4000, 4000, -100); c.log("moved by (%g,%g)%s", mx, my, smudge ? ", smudging" : ""); auto color = [](double x, double y, float *q) { double u = x * 0.37 + y * 0.11; for (int i = 0; i < 4; i++) { double v = u * (i + 1) * 0.7 + i; q[i] = v - floor(v); } q[3] = 1; };
  t.sa.color = [&](const RecSurf::Pick &p, float *q) { color(p.x, p.y, q); }; t.sb.color = [&](const RecSurf::Pick &p, float *q) { color(p.x - mx, p.y - my, q); };
  Gesture g = gesture(c, 3 + c.below(20), 30, false, c.chance(1, 2), false); mypaint_brush_reset(t.a); mypaint_brush_reset(t.b); int n = 0; double snap = t.a.get(SET(SNAP_TO_PIXEL)); for (int i = 0; i < MYPAINT_BRUSH_INPUTS_COUNT; i++) if (mypaint_brush_get_mapping_n(t.a, SET(SNAP_TO_PIXEL), (MyPaintBrushInput)i)) snap = 1; float px = 0, py = 0; bool amb = false;
  for (size_t i = 0; i < g.ev.size(); i++) { Event e = g.ev[i], f; double ax = t.a.state(ST(DIRECTION_DX)), ay = t.a.state(ST(DIRECTION_DY)), sx = e.x - px, sy = e.y - py, l = hypot(ax, ay) * hypot(sx, sy); if (i && l > 0 && fabs(ax * sx + ay * sy) < 2e-3 * l) amb = true; px = e.x; py = e.y; if (amb) break; e.rot = 0.4; e.zoom = 1.5; f = e; f.x += mx; f.y += my; c.log("%s", str(e).c_str()); size_t na = t.sa.dabs.size(), nb = t.sb.dabs.size(); stroke(t.a, t.sa.iface(), e); stroke(t.b, t.sb.iface(), f);
    if (t.sa.dabs.size() - na != t.sb.dabs.size() - nb) c.fail("count", "event %zu gives %zu dab(s), %zu moved", i, t.sa.dabs.size() - na, t.sb.dabs.size() - nb);
    for (size_t k = 0; na + k < t.sa.dabs.size(); k++, n++) { const Dab &p = t.sa.dabs[na + k], &q = t.sb.dabs[nb + k]; double d = hypot(p.x - e.x, p.y - e.y), tol = snap > 0 ? 1.01 : 0.02 + 1e-3 * d; same_field(c, n, 0, q.x - mx, p.x, tol, "moving"); same_field(c, n, 1, q.y - my, p.y, tol, "moving");
      for (int j = 2; j < Dab::N; j++) { double a = p.v()[j], w = q.v()[j]; if (j == 11) { if (p.aspect > 1.001 && !(fabs(wrap(w - a, 180)) < 1)) c.fail("angle", "dab %d: angle %.9g, %.9g moved", n, a, w); } else same_field(c, n, j, w, a, (snap > 0 && j == 2 ? 0.51 : 4e-3 + 4e-3 * fabs(a)), "moving"); } }
  }
  size_t np = std::min(t.sa.picks.size(), t.sb.picks.size()); for (size_t i = 0; i < np; i++) { auto &p = t.sa.picks[i], &q = t.sb.picks[i]; if (q.x - mx != p.x || q.y - my != p.y || fabs(q.radius - p.radius) > 1e-3 * p.radius) c.fail("pick", "pick %zu at (%g,%g) radius %g, moved at (%g,%g) radius %g", i, p.x, p.y, p.radius, q.x, q.y, q.radius); } if (t.sa.picks.size() != t.sb.picks.size()) c.fail("pick", "%zu picks, %zu moved", t.sa.picks.size(), t.sb.picks.size());
  if (np) c.label("picks"); if (n >= 4) c.nontrivial();
}
FACET(mirror, 3000, 150000, "the mirrored gesture (x negated, tilt too), brushes without orientation (round dabs, no direction or ascension dynamics, no offsets but by speed and to the side of the stroke, whose side is swapped): dabs are mirrored; at any dab rate; non-trivial: >= 4 dabs") {
  Twin t; static const std::vector<int> in = {INP(PRESSURE), INP(SPEED1), INP(SPEED2), INP(RANDOM), INP(STROKE), INP(TILT_DECLINATION), INP(CUSTOM), INP(BARREL_ROTATION), INP(VIEWZOOM), INP(BRUSH_RADIUS), INP(TILT_DECLINATIONY), INP(GRIDMAP_Y)};
  smooth_brush(c, t.a, in, [](int s) { return !bound_to_canvas(s) && s != SET(OFFSET_ANGLE_VIEW) && s != SET(OFFSET_ANGLE_2_VIEW) && s != SET(OFFSET_ANGLE_2) && s != SET(OFFSET_ANGLE) && s != SET(ELLIPTICAL_DAB_ANGLE) && s != SET(OFFSET_ANGLE_ADJ); }, 10); bound_density(c, t.a); bool time = c.chance(1, 2); if (time) { t.a.set(SET(DABS_PER_SECOND), 16); t.a.set(SET(DABS_PER_ACTUAL_RADIUS), 0); t.a.set(SET(DABS_PER_BASIC_RADIUS), 0); } copy_settings(t.a, t.b); if (time && c.chance(1, 2)) { float o = c.real(-3, 3, 1), a = c.real(-180, 180, 0); t.a.set(SET(OFFSET_ANGLE), o); t.b.set(SET(OFFSET_ANGLE), -o); t.a.set(SET(OFFSET_ANGLE_ADJ), a); t.b.set(SET(OFFSET_ANGLE_ADJ), -a); c.log("offset to the side %g, %g", o, a); }
  bool side = t.a.get(SET(OFFSET_ANGLE)); Gesture g = gesture(c, 3 + c.below(20), 30, true, c.chance(1, 2)); mypaint_brush_reset(t.a); mypaint_brush_reset(t.b); int n = 0; bool moved = false; float px = 0, py = 0;
  for (size_t i = 0; i < g.ev.size(); i++) { Event e = g.ev[i], f = e; f.x = -e.x; f.xtilt = -e.xtilt; f.rot = -(e.rot = 0.5); c.log("%s", str(e).c_str()); bool m = moved; if (i) moved |= e.x != px || e.y != py; px = e.x; py = e.y; size_t na = t.sa.dabs.size(), nb = t.sb.dabs.size(); stroke(t.a, t.sa.iface(), e); f.rot = -e.rot; stroke(t.b, t.sb.iface(), f); if (t.sa.dabs.size() > 5000) throw Discard();
    if (t.sa.dabs.size() - na != t.sb.dabs.size() - nb) c.fail("count", "event %zu gives %zu dab(s), %zu mirrored", i, t.sa.dabs.size() - na, t.sb.dabs.size() - nb); double dirlen = hypot(t.a.state(ST(DIRECTION_ANGLE_DX)), t.a.state(ST(DIRECTION_ANGLE_DY))); if (side && (!m || dirlen < 0.02)) continue;
    for (size_t k = 0; na + k < t.sa.dabs.size(); k++, n++) { const Dab &p = t.sa.dabs[na + k], &q = t.sb.dabs[nb + k]; double tol = 0.01 + 1e-5 * (fabs(p.x) + fabs(p.y)) + (side ? 1e-3 * hypot(p.x - e.x, p.y - e.y) : 0); same_field(c, n, 0, -q.x, p.x, tol, "mirroring"); same_field(c, n, 1, q.y, p.y, tol, "mirroring"); for (int j = 2; j < Dab::N; j++) if (j != 11) same_field(c, n, j, q.v()[j], p.v()[j], 1e-3 + 1e-3 * fabs(p.v()[j]), "mirroring"); } }
  if (side) c.label("side offset"); if (n >= 4) c.nontrivial();
}
PBT_MAIN("C29", "tilt is given in canvas orientation, like the positions", "offsets by ascension and along the canvas axes, snapping, grid map, random displacement and the tilt components are bound to the canvas (excluded from the rotation facet)", "continuous dynamics, so that rounding of rotated coordinates cannot be amplified")
