// C23: smudging drags exactly the colours it picked up.
#include "brushgen.hpp"
#include "refmode.hpp"
using namespace pbt;
namespace {
// one smudge colour in real arithmetic; err: how far rounding may have moved it
struct Smudge {
  double c[3] = {0, 0, 0}, a = 0, prev[3] = {0, 0, 0}, pa = 0, recent = 0, err = 0;
  static void mix(const double *x, double xa, const double *y, double ya, double f, double paint, double *out, double &oa) {
    double g = 1 - f; oa = clamp01(f * xa + g * ya); double w = xa == 0 ? 0 : f * xa / (xa + g * ya), s[3] = {0, 0, 0}; if (paint > 0) wgm(x, y, w, s);
    for (int i = 0; i < 3; i++) out[i] = paint * s[i] + (1 - paint) * (x[i] * f + y[i] * g);
  }
};
double thr(double f, double l) { return std::min(1.0, pow(0.5 * f, l) + 1e-16); }
Event at(float x, float y, float p, int linear) { return Event{x, y, p, 0, 0, 1.0 / 16, 1, 0, 0, linear}; }
// the first event sets the position, the second one learns the dab rate
void start(Brush &b, RecSurf &s, const Event &e) { mypaint_brush_reset(b); stroke(b, s.iface(), e); stroke(b, s.iface(), e); }
// one dab per event, exactly at its position: 16 dabs per second, 16 events per second
void one_dab_per_event(Brush &b) {
  for (int i = 0; i < MYPAINT_BRUSH_INPUTS_COUNT; i++) mypaint_brush_set_mapping_n(b, MYPAINT_BRUSH_SETTING_OPAQUE_MULTIPLY, (MyPaintBrushInput)i, 0);
  b.set(SET(OPAQUE_MULTIPLY), 1); b.set(SET(OPAQUE), 1); b.set(SET(DABS_PER_ACTUAL_RADIUS), 0); b.set(SET(DABS_PER_BASIC_RADIUS), 0); b.set(SET(DABS_PER_SECOND), 16); b.set(SET(ANTI_ALIASING), 0);
}
}
FACET(model, 8000, 500000, "strokes with one dab per event, any smudge amount, length, length multiplier, radius, transparency limit and pigment setting (constant or following the pressure), with or without buckets, on canvases answering picks with any colours and transparency: where and when the canvas is sampled, which dabs are suppressed, and colour and target transparency of every dab against a double precision model; non-trivial: >= 3 dabs smudge with a colour picked earlier") {
  int buckets = c.chance(1, 2) ? 1 + c.below(5) : 0; Brush b(buckets); one_dab_per_event(b); RecSurf s; std::vector<Smudge> m(std::max(1, buckets));
  struct V { int set, mirror; double base, slope; }; bool dyn = c.chance(1, 2);
  V sm = {SET(SMUDGE), SET(LOCK_ALPHA), c.pick({1.0, 0.5, 0.25, (double)c.real(0, 1, 1)}), 0}, len = {SET(SMUDGE_LENGTH), SET(COLORIZE), c.pick({0.5, 0.0, 0.9, 1.0, (double)c.real(0, 1, 0.5)}), 0}, pig = {SET(PAINT_MODE), -1, c.pick({1.0, 0.0, 0.5, (double)c.real(0, 1, 1)}), 0}, bk = {SET(SMUDGE_BUCKET), SET(POSTERIZE), (double)c.near(0, 8, 0), 0};
  if (dyn) for (V *v : {&sm, &len, &pig, &bk}) if (c.chance(1, 2)) v->slope = v == &bk ? c.near(-6, 6, 2) : c.real(-1.5, 1.5, 0.5);
  double ll = c.chance(1, 2) ? 0 : c.pick({1.0, 3.0, 20.0, (double)c.real(0, 5, 1)}), rl = c.chance(1, 2) ? 0 : c.real(-1.6, 1.6, 0.7), lim = c.chance(1, 2) ? 0 : c.pick({0.5, -0.5, 1.0, -1.0, (double)c.real(-1, 1, 0.5)}), er = c.chance(1, 4) ? c.real(0, 1, 0.5) : 0, R = c.pick({1.0, 0.0, 3.0, 5.5, -1.0}), off = c.chance(1, 4) ? c.real(0, 3, 1) : 0, rr = c.chance(1, 4) ? c.real(0, 1, 0.2) : 0;
  for (V *v : {&sm, &len, &pig, &bk}) { b.set(v->set, v->base); v->base = b.get(v->set); if (v->mirror >= 0) b.set(v->mirror, v->base); if (v->slope) for (int k : {v->set, v->mirror}) if (k >= 0) b.curve(k, INP(PRESSURE), {{0, 0}, {1, (float)v->slope}}); }
  b.set(SET(SMUDGE_LENGTH_LOG), ll); b.set(SET(SMUDGE_RADIUS_LOG), rl); b.set(SET(SMUDGE_TRANSPARENCY), lim); b.set(SET(ERASER), er); b.set(SET(RADIUS_LOGARITHMIC), R); b.set(SET(OFFSET_BY_RANDOM), off); b.set(SET(RADIUS_BY_RANDOM), rr); ll = b.get(SET(SMUDGE_LENGTH_LOG)); rl = b.get(SET(SMUDGE_RADIUS_LOG)); lim = b.get(SET(SMUDGE_TRANSPARENCY)); er = b.get(SET(ERASER));
  double col[3]; { double h = c.real(0, 1, 0), S = c.real(0, 1, 1), v = c.real(0, 1, 1); b.set(SET(COLOR_H), h); b.set(SET(COLOR_S), S); b.set(SET(COLOR_V), v); }
  // the brush colour is what the brush paints without smudging
  { Brush q; one_dab_per_event(q); for (int k : {SET(COLOR_H), SET(COLOR_S), SET(COLOR_V)}) q.set(k, b.get(k)); RecSurf t; mypaint_brush_reset(q); for (int k = 0; k < 3; k++) stroke(q, t.iface(), at(0, 0, 0.5, 0)); if (t.dabs.size() != 1) c.discard(); for (int k = 0; k < 3; k++) col[k] = (&t.dabs[0].r)[k]; }
  c.log("buckets %d smudge %g%+g*p length %g%+g*p pigment %g%+g*p bucket %g%+g*p length log %g radius log %g limit %g eraser %g radius exp(%g) offset by random %g radius by random %g", buckets, sm.base, sm.slope, len.base, len.slope, pig.base, pig.slope, bk.base, bk.slope, ll, rl, lim, er, R, off, rr);
  // what the canvas answers
  float cur[4]; int pal = c.below(4); s.color = [&](const RecSurf::Pick &, float *o) { memcpy(o, cur, sizeof cur); };
  auto draw_color = [&] { for (int k = 0; k < 3; k++) cur[k] = c.chance(1, 3) ? c.below(2) : c.real(0, 1, 0.5); switch (pal) { case 0: cur[3] = 1; break; case 1: cur[3] = c.below(2); break; default: cur[3] = c.pick({0.0f, 0.005f, 0.0101f, 0.25f, 0.5f, 1.0f, (float)c.real(0, 1, 1)}); } };
  draw_color(); float x = c.near(-40, 40, 3) * 0.25f, y = c.near(-40, 40, 5) * 0.25f, p = 0.5; bool legacy = pig.base <= 0 && !pig.slope; bool sm_const = !sm.slope; int linear = c.below(2), smudged = 0;
  start(b, s, at(x, y, p, linear)); int n = 1 + c.below(25);
  for (int i = 0; i < n; i++) {
    if (c.chance(2, 3)) x += c.near(-12, 12, 4) * 0.25f; if (c.chance(1, 2)) y += c.near(-12, 12, 0) * 0.25f; if (c.chance(1, 3)) draw_color(); if (c.chance(1, 2)) p = c.near(0, 16, 8) / 16.0f;
    if (c.chance(1, 20)) { start(b, s, at(x, y, p, linear)); for (auto &q : m) q = Smudge(); c.log("reset"); continue; }
    size_t d0 = s.dabs.size(), p0 = s.picks.size(); c.log("event (%g,%g) pressure %g, canvas %g %g %g %g", x, y, p, cur[0], cur[1], cur[2], cur[3]); stroke(b, s.iface(), at(x, y, p, linear)); size_t nd = s.dabs.size() - d0, np = s.picks.size() - p0;
    if (nd > 1 || np > 1) c.fail("count", "%zu dabs and %zu picks in an event with one dab", nd, np);
    auto val = [&](const V &v) { return v.base + v.slope * p; }; const Dab *d = nd ? &s.dabs.back() : nullptr; double S = d ? d->lock_alpha : val(sm), L = d ? d->colorize : val(len), P = clamp01(val(pig)); if (d && fabs(d->paint - P) > 1e-5) c.fail("pigment", "pigment %.9g instead of %.9g", d->paint, P); if (d) P = d->paint;
    double B = d ? d->posterize : val(bk); if (buckets && fabs(B - floor(B) - 0.5) < 1e-6) c.discard(); Smudge &q = m[buckets ? std::min(std::max(0, (int)floor(B + 0.5)), buckets - 1) : 0];
    bool update = L < 1 && (S != 0 || !sm_const), suppressed = false; if (fabs(L - 1) < 1e-6 && L != 1) break;
    if (update) {
      double f = std::max(0.01, L), r = q.recent * f, t = thr(f, ll); if (r > 0 && fabs(r - t) < 1e-5 * t && t < 1) break; if (r > 0 && (r < 1e-30 || (fabs(r - 1) < 1e-6 && t >= 1))) break;
      bool sample = r < t; if (sample != (np == 1)) c.fail("sampling", "the canvas was %ssampled, recentness %.9g, limit %.9g", np ? "" : "not ", r, t);
      if (sample) {
        const RecSurf::Pick &k = s.picks.back(); if (r == 0) f = 0;
        if (d) { double ex = floor(d->x + 0.5), ey = floor(d->y + 0.5), er = std::min(1000.0, std::max(0.2, d->radius * exp(rl))); if (k.x != ex || k.y != ey) c.fail("where", "the colour was picked at (%.9g,%.9g) for a dab at (%.9g,%.9g)", k.x, k.y, d->x, d->y); if (fabs(k.radius - er) > 2e-5 * er) c.fail("where", "the colour was picked with radius %.9g instead of %.9g", k.radius, er); }
        if (legacy ? k.paint >= 0 : fabs(k.paint - P) > 1e-5 || k.paint < 0) c.fail("where", "the colour was picked with mode %.9g, the pigment setting is %.9g", k.paint, P);
        suppressed = (lim > 0 && cur[3] < lim) || (lim < 0 && cur[3] > -lim);
        if (!suppressed) { for (int k = 0; k < 3; k++) q.prev[k] = cur[k]; q.pa = cur[3]; q.recent = 1; }
      } else q.recent = r;
      if (suppressed != (nd == 0)) c.fail("limit", "a dab over alpha %g was %ssuppressed with the limit %g", cur[3], nd ? "not " : "", lim);
      if (suppressed) { c.label("suppressed"); continue; }
      if (legacy) { double g = (1 - f) * q.pa; for (int k = 0; k < 3; k++) q.c[k] = f * q.c[k] + g * q.prev[k]; q.a = clamp01(f * q.a + g); q.err = f * q.err + 1e-6; }
      else if (fabs(q.pa - 0.01) < 1e-6) break;
      else if (q.pa > 0.01) { double o[3]; Smudge::mix(q.c, q.a, q.prev, q.pa, f, P, o, q.a); memcpy(q.c, o, sizeof o); q.err = (f > 0 ? q.err * 3 : 0) + 3e-5; }
      else q.a = (q.a + q.pa) / 2;
      if (!sample && q.recent > 0) smudged++;
    } else if (np) c.fail("sampling", "the canvas was sampled by a brush that does not need it (smudge %g, length %g)", S, L);
    if (!d) c.fail("limit", "the dab was suppressed without a reason");
    double want[3] = {col[0], col[1], col[2]}, A = 1, tol = 1e-5;
    if (S > 0) {
      double f = std::min(1.0, S); A = clamp01(1 - f + f * q.a); if (A > 0 && A < 1e-6) break;
      if (A > 0) { if (legacy) { for (int k = 0; k < 3; k++) want[k] = (f * q.c[k] + (1 - f) * col[k]) / A; tol += q.err * 2 / A; } else { double oa; Smudge::mix(q.c, q.a, col, 1, f, P, want, oa); tol += q.err * 3 + 3e-5; } if (q.recent > 0) smudged++; } else want[0] = 1, want[1] = want[2] = 0;
    }
    if (tol > 0.05) break; A *= 1 - er;
    for (int k = 0; k < 3; k++) { c.stat(fabs((&d->r)[k] - want[k]) / tol); if (!(fabs((&d->r)[k] - want[k]) <= tol)) c.fail("colour", "event %d: component %d of the dab is %.7g instead of %.7g (smudge colour %.6g %.6g %.6g %.6g, tolerance %.2g)", i, k, (&d->r)[k], want[k], q.c[0], q.c[1], q.c[2], q.a, tol); }
    if (!(fabs(d->color_a - A) <= 1e-5 + (legacy ? q.err : 1e-5))) c.fail("alpha", "event %d: target alpha %.7g instead of %.7g", i, d->color_a, A);
  }
  if (smudged >= 3) c.nontrivial();
}
FACET(uniform, 400, 20000, "pure smudging (any length, radius, pigment setting, dab shape, opacity) over a uniformly coloured opaque canvas, on real tiles: the canvas keeps its colour within the rounding of the mode; non-trivial: >= 10 dabs of which some sampled the canvas") {
  Brush b(c.chance(1, 2) ? 3 : 0); one_dab_per_event(b); TileSurf t; t.direct = true; int px[3]; for (int &v : px) v = c.chance(1, 4) ? 32768 * c.below(2) : c.below(32769); t.fill = [&](int, int, uint16_t *p) { uniform_tile(p, px[0], px[1], px[2], 32768); };
  double pig = c.pick({0.0, 1.0, 0.5}), R = c.real(0, 3.2, 1.5); b.set(SET(SMUDGE), 1); b.set(SET(SMUDGE_LENGTH), c.pick({0.0, 0.5, 0.9, 0.1})); b.set(SET(SMUDGE_LENGTH_LOG), c.pick({0.0, 1.0, 4.0})); b.set(SET(SMUDGE_RADIUS_LOG), c.real(-1.6, 1, 0)); b.set(SET(PAINT_MODE), pig); b.set(SET(RADIUS_LOGARITHMIC), R); b.set(SET(OPAQUE), c.real(0, 1, 1)); b.set(SET(HARDNESS), c.real(0, 1, 0.8)); b.set(SET(COLOR_H), c.real(0, 1, 0)); b.set(SET(COLOR_S), 1); b.set(SET(COLOR_V), c.real(0, 1, 1)); if (c.chance(1, 3)) b.set(SET(SMUDGE_TRANSPARENCY), c.real(0, 1, 0.5)); if (c.chance(1, 4)) b.set(SET(DABS_PER_SECOND), 64);
  c.log("canvas %d %d %d pigment %g radius exp(%g) length %g log %g opaque %g hardness %g", px[0], px[1], px[2], pig, R, b.get(SET(SMUDGE_LENGTH)), b.get(SET(SMUDGE_LENGTH_LOG)), b.get(SET(OPAQUE)), b.get(SET(HARDNESS)));
  float x = c.real(-100, 100, 0), y = c.real(-100, 100, 0); mypaint_brush_reset(b); int n = 5 + c.below(25);
  for (int i = 0; i < n; i++) { t.begin(); Event e = at(x, y, 0.5, 0); if (i == 0) e.dtime = 0.01; stroke(b, t.iface(), e); t.end_(); c.log("(%g,%g)", x, y); x += c.real(-10, 10, 3); y += c.real(-10, 10, 0); }
  if (t.n_read > 0 && n >= 10 && t.n_write >= 10) c.nontrivial();
  // spectral modes: every dab may move the colour a little, and the next samples that
  double dabs = t.n_write ? n * (b.get(SET(DABS_PER_SECOND)) > 20 ? 4 : 1) : 0, tol = pig == 0 ? 32 + 3 * dabs : 32768 * 0.01 + dabs * 48; int worst = 0;
  for (auto &k : t.tiles) for (int i = 0; i < TS * TS; i++) { const uint16_t *q = &k.second[i * 4]; if (q[3] < 32768 - 64) c.fail("alpha", "smudging an opaque area made it transparent: alpha %d", q[3]); for (int j = 0; j < 3; j++) { int e = abs((int)q[j] - px[j]); worst = std::max(worst, e); if (e > tol) c.fail("colour", "smudging a uniform area moved channel %d from %d to %d", j, px[j], q[j]); } }
  c.stat(worst / tol);
}
FACET(limit, 400, 20000, "smudging with a transparency limit on real tiles whose uniform alpha does not meet it: nothing on the canvas changes however many dabs follow; and as soon as the pen reaches an area meeting the limit it paints; non-trivial: always") {
  c.nontrivial(); Brush b(c.chance(1, 2) ? 3 : 0); one_dab_per_event(b); TileSurf t; t.direct = true; double lim = c.real(0.1, 0.9, 0.5); bool neg = c.chance(1, 2); int a = (neg ? lim + (1 - lim) * c.real(0.2, 1, 0.5) : lim * c.real(0, 0.8, 0.5)) * 32768, good = neg ? 0 : 32768; int px = c.below(a + 1);
  t.fill = [&](int tx, int, uint16_t *p) { if (tx < 4) uniform_tile(p, px, px / 2, px / 3, a); else uniform_tile(p, good, good / 2, 0, good); };
  b.set(SET(SMUDGE), c.real(0.1, 1, 1)); b.set(SET(SMUDGE_LENGTH), c.pick({0.5, 0.0, 0.9})); b.set(SET(SMUDGE_LENGTH_LOG), c.pick({0.0, 1.0, 5.0})); b.set(SET(SMUDGE_TRANSPARENCY), neg ? -lim : lim); b.set(SET(PAINT_MODE), c.pick({0.0, 1.0})); b.set(SET(RADIUS_LOGARITHMIC), c.real(0.5, 2.5, 1.5)); c.log("limit %g alpha %d colour %d length %g log %g", neg ? -lim : lim, a, px, b.get(SET(SMUDGE_LENGTH)), b.get(SET(SMUDGE_LENGTH_LOG)));
  float x = c.real(-100, 150, 0), y = c.real(-100, 100, 0); mypaint_brush_reset(b); int n = 3 + c.below(20); for (int i = 0; i < n; i++) { t.begin(); Event e = at(x, y, 0.5, 0); if (i == 0) e.dtime = 0.01; stroke(b, t.iface(), e); t.end_(); x += c.real(-3, 3, 1); y += c.real(-5, 5, 0); }
  if (t.n_write) c.fail("limit", "%ld tiles were written by dabs over an area that does not meet the limit", t.n_write);
  float mid[4] = {0, 0, 0, 0}; for (int i = 0; i < 3; i++) { t.begin(); stroke(b, t.iface(), at(400 + i, 32, 0.5, 0)); t.end_(); } if (!t.n_write) c.fail("limit", "no dab was painted where the limit is met");
  // and what it paints is the colour found there, not what was suppressed before
  if (!neg && b.get(SET(SMUDGE)) == 1) for (auto &k : t.tiles) for (int i = 0; i < TS * TS; i++) { const uint16_t *q = &k.second[i * 4]; if (k.first.first >= 4 && (abs((int)q[0] - 32768) > 700 || abs((int)q[1] - 16384) > 700 || q[2] > 700 || q[3] < 32700)) c.fail("colour", "(32768,16384,0,32768) became (%d,%d,%d,%d) by pure smudging that entered it from a suppressed area", q[0], q[1], q[2], q[3]); }
}
PBT_MAIN("C23", "pigment mixing weights are the library's (share of the old colour f*A/(A+(1-f)*B)); colours are compared within 1e-5 (plain) and 3e-5 growing with the number of spectral mixes", "one dab per event exactly at its position: spacing and positions are decided by C15 and C20")
