// C05: every blend mode composites by its documented equation.
#include "refmode.hpp"
using namespace pbt;

// A dab with hardness 1 has the same strength (1-softness) all over, so a dab that covers tile (0,0)
// applies one parameter set to 4096 random pixels.
static Dab cover(Case &c) {
  Dab d = plain_dab(32, 32, 48);
  d.hardness = 1;
  if (c.chance(1, 2)) d.softness = c.edgy(0, 0.999, 0);
  return d;
}
static double strength(const Dab &d) { return floor((1.0 - (double)d.softness) * 32768 + 1e-3) / 32768; }

static void compare(Case &c, const std::vector<Dab> &dabs, int style, u64 seed) {
  TileSurf s; s.direct = true; s.c = &c;
  s.fill = [&](int x, int y, uint16_t *p) { random_tile(seed, x, y, p, style); };
  Tile before = s.tile(0, 0);
  s.begin(); for (auto &d : dabs) { c.log("%s", str(d).c_str()); put(s.iface(), d); } s.end_(); c.checkpoint();
  const Tile &after = s.tile(0, 0);
  bool alpha_fixed = true;
  for (auto &d : dabs) if (RefMode(d).normal > 0) alpha_fixed = false;
  long changed = 0; double worst = 0;
  for (int k = 0; k < TS * TS; k++) {
    const uint16_t *b = &before[k * 4], *a = &after[k * 4];
    changed += !!memcmp(a, b, 8);
    RefPx p; for (int i = 0; i < 4; i++) p.v[i] = b[i] / 32768.0;
    for (auto &d : dabs) {
      RefMode(d).apply(p, strength(d));
      if (p.ambiguous && &d != &dabs.back()) { p.err = 10; }   // a threshold was too close to call: give up on this pixel
    }
    if (alpha_fixed && a[3] != b[3]) c.fail("alpha", "pixel %d: alpha %d became %d in a mode that must not touch it", k, b[3], a[3]);
    for (int i = 0; i < 4; i++) {
      if (i == 3 && alpha_fixed) continue;
      double got = a[i] / 32768.0, e = fabs(got - p.v[i]), tol = i == 3 ? (6.0 * dabs.size() * 2) / 32768 : p.err + 1e-9;
      if (i < 3 && p.ambiguous && e > tol) {     // rounding to either step
        double lo = std::min(p.v[i], p.alt[i]) - tol, hi = std::max(p.v[i], p.alt[i]) + tol; double e2 = fabs(got - p.alt[i]);
        if (e2 <= tol || (p.wide && got >= lo && got <= hi)) continue;
      }
      if (e > tol) {
        c.log("pixel %d (%d,%d,%d,%d) -> (%d,%d,%d,%d), expected (%.2f,%.2f,%.2f,%.2f) +-%.2f", k, b[0], b[1], b[2], b[3], a[0], a[1], a[2], a[3], p.v[0] * 32768, p.v[1] * 32768, p.v[2] * 32768, p.v[3] * 32768, tol * 32768);
        c.fail(i == 3 ? "alpha" : "colour", "pixel (%d,%d,%d,%d) channel %d became %d, the mode's equation gives %.2f +- %.2f", b[0], b[1], b[2], b[3], i, a[i], p.v[i] * 32768, tol * 32768);
      }
      worst = std::max(worst, e / tol);
    }
  }
  c.stat(worst);
  if (changed > 100) c.nontrivial();
}
static int style_of(Case &c) { return c.below(4); }
static void rgb(Case &c, Dab &d) { d.r = gen_unit(c); d.g = gen_unit(c); d.b = gen_unit(c); if (c.chance(1, 8)) d.g = d.b = d.r; d.opaque = c.chance(1, 2) ? 1 : (float)c.edgy(0.0005, 1, 0.5); }

#define RULE(what) what ": one dab of uniform strength over 4096 random pixels (opaque / any alpha / nearly transparent / greys / black / white), each compared with the equation in real arithmetic; non-trivial: > 100 pixels changed"
FACET(normal, 2500, 120000, RULE("over")) { Dab d = cover(c); rgb(c, d); compare(c, {d}, style_of(c), c.below(1u << 30)); }
FACET(eraser, 2500, 120000, RULE("eraser target alpha < 1")) { Dab d = cover(c); rgb(c, d); d.color_a = c.chance(1, 4) ? 0 : (float)c.edgy(0, 0.999, 0.5); compare(c, {d}, style_of(c), c.below(1u << 30)); }
FACET(lock, 2500, 120000, RULE("lock alpha")) { Dab d = cover(c); rgb(c, d); d.lock_alpha = c.chance(1, 2) ? 1 : (float)c.edgy(0.001, 1, 0.5); if (c.chance(1, 4)) d.color_a = gen_unit(c); compare(c, {d}, style_of(c), c.below(1u << 30)); }
FACET(colorize, 2500, 120000, RULE("colorize")) { Dab d = cover(c); rgb(c, d); d.colorize = c.chance(1, 2) ? 1 : (float)c.edgy(0.001, 1, 0.5); compare(c, {d}, style_of(c), c.below(1u << 30)); }
FACET(posterize, 2500, 120000, RULE("posterize")) { Dab d = cover(c); rgb(c, d); d.posterize = c.chance(1, 2) ? 1 : (float)c.edgy(0.001, 1, 0.5); d.posterize_num = c.chance(1, 4) ? (float)c.edgy(-0.1, 2, 0.03) : (float)c.range(1, 20) / 100; compare(c, {d}, style_of(c), c.below(1u << 30)); }
FACET(spectral, 900, 60000, RULE("paint (spectral) mode")) { Dab d = cover(c); rgb(c, d); d.paint = c.chance(1, 2) ? 1 : (float)c.edgy(0.001, 1, 0.5); compare(c, {d}, style_of(c), c.below(1u << 30)); }
FACET(spectral_eraser, 900, 60000, RULE("paint mode with target alpha < 1")) { Dab d = cover(c); rgb(c, d); d.paint = c.chance(1, 2) ? 1 : (float)c.edgy(0.001, 1, 0.5); d.color_a = c.edgy(0, 0.999, 0.5); compare(c, {d}, style_of(c), c.below(1u << 30)); }
FACET(spectral_lock, 900, 60000, RULE("paint mode with lock alpha")) { Dab d = cover(c); rgb(c, d); d.paint = c.chance(1, 2) ? 1 : (float)c.edgy(0.001, 1, 0.5); d.lock_alpha = c.chance(1, 2) ? 1 : (float)c.edgy(0.001, 1, 0.5); compare(c, {d}, style_of(c), c.below(1u << 30)); }
FACET(mixed, 2500, 120000, RULE("several modes at fractional weights in one dab, without paint mode")) { Dab d = cover(c); gen_mode(c, d); d.paint = 0; if (d.opaque <= 0) d.opaque = 1; compare(c, {d}, style_of(c), c.below(1u << 30)); }
FACET(mixed_spectral, 900, 60000, RULE("several modes at fractional weights in one dab, with paint mode")) { Dab d = cover(c); gen_mode(c, d); if (d.opaque <= 0) d.opaque = 1; compare(c, {d}, style_of(c), c.below(1u << 30)); }
FACET(repeated, 1500, 60000, RULE("2..6 dabs of one mode in sequence")) {
  int mode = c.below(4), n = 2 + c.below(5); std::vector<Dab> v;
  for (int i = 0; i < n; i++) {
    Dab d = cover(c); rgb(c, d);
    if (mode == 1) d.color_a = gen_unit(c);
    if (mode == 2) d.lock_alpha = gen_unit(c);
    if (mode == 3) { d.lock_alpha = gen_unit(c); d.color_a = gen_unit(c); }
    v.push_back(d);
  }
  compare(c, v, style_of(c), c.below(1u << 30));
}
// shaped dabs: strength from the falloff reference
static void shaped_dab(Case &c, Dab d, double slope) {
  d.x = c.real(0, 64, 32); d.y = c.real(0, 64, 32);
  if (d.softness >= 1) d.softness = 0.5; if (d.opaque <= 0) d.opaque = 1;
  u64 seed = c.below(1u << 30); int style = style_of(c);
  TileSurf s; s.direct = true; s.c = &c; s.fill = [&](int x, int y, uint16_t *p) { random_tile(seed, x, y, p, style); };
  c.log("%s", str(d).c_str());
  Tile before = s.tile(0, 0); s.begin(); put(s.iface(), d); s.end_(); c.checkpoint();
  const Tile &after = s.tile(0, 0); RefDab rd(d); RefMode rm(d); int changed = 0, same = 0;
  for (int k = 0; k < TS * TS; k++) {
    const uint16_t *b = &before[k * 4], *a = &after[k * 4]; changed += !!memcmp(a, b, 8);
    Range m = rd.strength(k % TS, k / TS);
    if (m.hi <= 0) { same++; if (memcmp(a, b, 8)) c.fail("outside", "pixel %d,%d lies outside the dab but (%d,%d,%d,%d) became (%d,%d,%d,%d)", k % TS, k / TS, b[0], b[1], b[2], b[3], a[0], a[1], a[2], a[3]); continue; }
    RefPx p, q; for (int i = 0; i < 4; i++) p.v[i] = q.v[i] = b[i] / 32768.0;
    rm.apply(p, m.lo); rm.apply(q, m.hi); double w = (m.hi - m.lo) * slope, err = std::max(p.err, q.err);
    for (int i = 0; i < 4; i++) {
      double lo = std::min(p.v[i], q.v[i]), hi = std::max(p.v[i], q.v[i]), g = a[i] / 32768.0;
      if (i < 3) for (RefPx *r : {&p, &q}) if (r->ambiguous) { lo = std::min(lo, r->alt[i]); hi = std::max(hi, r->alt[i]); }
      lo -= err + w; hi += err + w;
      if (g < lo || g > hi) c.fail("shaped", "pixel %d,%d (%d,%d,%d,%d) channel %d became %d, expected %.2f..%.2f", k % TS, k / TS, b[0], b[1], b[2], b[3], i, a[i], lo * 32768, hi * 32768);
    }
  }
  if (changed > 20 && same > 20) c.nontrivial();
}
FACET(shaped, 1500, 80000, "one non-spectral dab of any shape and blend of modes over random pixels: each pixel between the equation at the lowest and highest admissible strength, pixels outside the dab unchanged; non-trivial: > 20 pixels changed and > 20 outside") { Dab d = gen_dab(c, 60); d.paint = 0; d.posterize = 0; shaped_dab(c, d, 1); }
FACET(shaped_posterize, 1500, 60000, "the same for the posterize mode, alone and blended with others") { Dab d = gen_dab(c, 40); d.paint = 0; d.colorize = 0; d.posterize = c.chance(1, 2) ? 1 : (float)c.edgy(0.01, 1, 0.5); d.posterize_num = c.range(1, 20) / 100.0; shaped_dab(c, d, 1); }
FACET(shaped_spectral, 600, 30000, "the same for the paint modes") { Dab d = gen_dab(c, 40); d.posterize = 0; d.colorize = 0; d.paint = c.chance(1, 2) ? 1 : (float)c.edgy(0.001, 1, 0.5); shaped_dab(c, d, 20); }

PBT_MAIN("C05", "fixed-point truncation of up to 6 units of 1/32768 per mode; spectral modes additionally 6e-4 for the fast pow approximation")
