// C11: picked colours describe the canvas under the pick.
#include "refdab.hpp"
using namespace pbt;

struct Pick { float x, y, r, paint; float col[4]; };
static float gen_where(Case &c) { switch (c.below(5)) { case 0: return c.real(-1e6, 1e6, 0); case 1: return c.near(-20, 20, 0) * 64; default: return gen_pos(c); } }
static Pick gen_pick(Case &c, double big) {
  Pick p; memset(&p, 0, sizeof p); p.x = gen_where(c); p.y = gen_where(c);
  switch (c.below(6)) { case 0: p.r = 5; break; case 1: p.r = c.real(0, 3, 1); break; case 2: p.r = c.pick({0.0f, 1.0f, 2.0f, 2.0000002f, 0.5f, -3.0f, 3.0f}); break; case 3: p.r = c.real(0, big, 10); break; default: p.r = c.real(0, 40, 10); }
  p.paint = c.pick({-1.0f, 0.0f, 1.0f, 0.5f, -0.5f, 0.01f, 0.99f});
  return p;
}
static void take(Case &c, TileSurf &s, Pick &p, unsigned seed) {
  for (int i = 0; i < 4; i++) p.col[i] = NAN;
  srand(seed); mypaint_surface_get_color(s.iface(), p.x, p.y, p.r, p.col, p.col + 1, p.col + 2, p.col + 3, p.paint);
  c.log("pick (%.9g,%.9g) radius %.9g paint %g -> %.7g %.7g %.7g alpha %.7g", p.x, p.y, p.r, p.paint, p.col[0], p.col[1], p.col[2], p.col[3]);
  s.balanced("pick"); c.checkpoint();
  for (int i = 0; i < 4; i++) if (!(p.col[i] >= 0 && p.col[i] <= 1)) c.fail("range", "channel %d of the picked colour is %g", i, p.col[i]);
  if (s.n_write) c.fail("write", "picking a colour requested %ld tiles for writing without pending dabs", s.n_write);
}
static double eff(const Pick &p) { return p.r < 1 ? 1 : p.r; }

FACET(uniform, 6000, 300000, "pick of any radius (0..1000), place (within +-1e6) and sampling mode on a uniformly coloured canvas of any colour and alpha: that colour and alpha; non-trivial: alpha > 0") {
  int a; switch (c.below(5)) { case 0: a = 32768; break; case 1: a = 32768; break; case 2: a = c.range(1, 20); break; case 3: a = 0; break; default: a = c.range(0, 32768); }
  int q[3]; for (int &k : q) switch (c.below(4)) { case 0: k = 0; break; case 1: k = a; break; default: k = c.range(0, a); }
  TileSurf s; s.c = &c; s.fill = [=](int, int, uint16_t *p) { uniform_tile(p, q[0], q[1], q[2], a); };
  c.log("canvas %d %d %d %d", q[0], q[1], q[2], a);
  Pick p = gen_pick(c, c.chance(1, 20) ? 1000 : 300); take(c, s, p, c.below(100));
  if (a > 0) c.nontrivial(); c.label(p.paint < 0 ? "legacy" : p.paint == 0 ? "additive" : "spectral");
  double al = a / 32768.0, ta = p.paint < 0 ? (3 + 10 / eff(p)) / 32768 : 3e-5;   // legacy sums lose up to one unit per pixel, small masks are thin
  if (fabs(p.col[3] - al) > ta) c.fail("alpha", "alpha %.7g on a canvas of alpha %.7g", p.col[3], al);
  if (!a) { if (p.col[3] != 0) c.fail("transparent", "alpha %g on a transparent canvas", p.col[3]); return; }
  double tc = p.paint < 0 ? 2 * ta / al : p.paint == 0 ? 5e-5 : 0.012 + 1.5e-4 * eff(p);
  for (int i = 0; i < 3; i++) { double w = q[i] / (double)a, d = fabs(p.col[i] - w); c.stat(p.paint > 0 ? d : 0); if (tc < 1 && d > tc) c.fail("colour", "channel %d is %.7g on a canvas of colour %.7g (alpha %.7g)", i, p.col[i], w, al); }
}
FACET(transparent, 1500, 60000, "picks on a fully transparent canvas, and next to painted tiles that the pick does not touch: alpha 0; non-trivial: always") {
  TileSurf s; s.c = &c; Pick p = gen_pick(c, 200); double e = eff(p) + 1.01; bool other = c.chance(1, 2);
  s.fill = [=](int x, int y, uint16_t *q) { if (!other) return; for (int j = 0; j < TS; j++) for (int i = 0; i < TS; i++) { double cx = x * 64.0 + i + 0.5 - p.x, cy = y * 64.0 + j + 0.5 - p.y; if (cx * cx + cy * cy > (e + 0.71) * (e + 0.71)) { uint16_t *u = q + (j * TS + i) * 4; u[0] = 9; u[1] = 32768; u[2] = 5; u[3] = 32768; } } };
  take(c, s, p, 1); c.nontrivial();
  if (p.col[3] != 0) c.fail("transparent", "alpha %.7g although everything within the pick radius is transparent", p.col[3]);
}
// general content: weighted means and ranges
FACET(mean, 5000, 250000, "picks on random canvases (random, opaque, translucent, edges, half-planes) where every pixel is sampled (legacy mode, or radius <= 2): alpha equals the mask-weighted mean, colours the alpha-weighted mean, of independently computed masks; non-trivial: pixels of different colours contribute") {
  TileSurf s; s.c = &c; u64 seed = c.below(1000); int style = c.below(5); Pick p = gen_pick(c, 90);
  if (fabs(p.x) > 5000 || fabs(p.y) > 5000) { p.x = fmod(p.x, 3000); p.y = fmod(p.y, 3000); }
  if (p.paint >= 0 && p.r > 2) p.r = fmod(p.r, 2); 
  int split = (int)floor(p.x) + c.near(-3, 3, 0);
  s.fill = [=](int x, int y, uint16_t *q) { random_tile(seed, x, y, q, style & 3); if (style == 4) for (int i = 0; i < TS * TS; i++) if (x * 64 + i % 64 < split) memset(q + i * 4, 0, 8); };
  take(c, s, p, 1);
  Dab d = plain_dab(p.x, p.y, eff(p)); d.hardness = 0.5; d.softness = 0.5; RefDab f(d);
  long x0, y0, x1, y1; f.bbox(x0, y0, x1, y1);
  double w = 0, wa = 0, wc[3] = {0, 0, 0}, dw = 0; long n = 0; double lo[4], hi[4]; for (int i = 0; i < 4; i++) { lo[i] = 2; hi[i] = -1; }
  for (long y = y0; y <= y1; y++) for (long x = x0; x <= x1; x++) {
    Range r = f.strength(x, y); if (r.hi <= 0) continue;
    const uint16_t *q = s.px(x, y); double m = (r.lo + r.hi) / 2, a = q[3] / 32768.0; dw += (r.hi - r.lo) / 2 + 1.0 / 32768; n++;
    w += m; wa += m * a; for (int i = 0; i < 3; i++) wc[i] += m * q[i] / 32768.0;
    lo[3] = std::min(lo[3], a); hi[3] = std::max(hi[3], a);
    if (q[3]) for (int i = 0; i < 3; i++) { double v = q[i] / (double)q[3]; lo[i] = std::min(lo[i], v); hi[i] = std::max(hi[i], v); }
  }
  if (hi[0] > lo[0]) c.nontrivial();
  double err = 2 * dw / w + (p.paint < 0 ? n / 32768.0 / w : 0) + 3e-5, A = wa / w;
  c.stat(fabs(p.col[3] - A) / err);
  if (fabs(p.col[3] - A) > err) c.fail("alpha", "alpha %.7g, the mask-weighted mean is %.7g (tolerance %.2g)", p.col[3], A, err);
  if (p.paint > 0 || p.col[3] == 0) return;
  for (int i = 0; i < 3; i++) { double v = wc[i] / wa, t = 2.2 * err / A; if (t < 0.5 && fabs(p.col[i] - v) > t) c.fail("mean", "channel %d is %.7g, the weighted mean is %.7g (tolerance %.2g)", i, p.col[i], v, t); }
}
FACET(convex, 5000, 250000, "picks of any radius and mode on random canvases: alpha lies within the range of alphas, and (legacy and additive sampling) each component within the range of straight colours, of the pixels under the pick; non-trivial: the range is not a single value") {
  TileSurf s; s.c = &c; u64 seed = c.below(1000); int style = c.below(3); Pick p = gen_pick(c, 120);
  if (fabs(p.x) > 5000 || fabs(p.y) > 5000) { p.x = fmod(p.x, 3000); p.y = fmod(p.y, 3000); }
  int base[4], var = 1 << c.below(15); for (int &k : base) k = c.range(0, 32768);
  s.fill = [=](int x, int y, uint16_t *q) { u64 h = seed * 77 + x * 131 + y * 31337; splitmix(h);
    for (int i = 0; i < TS * TS; i++) { u64 z = splitmix(h); int a = style == 0 ? 32768 : std::min<int>(32768, base[3] / 2 + z % var + 200); if (style == 2 && (z >> 60) == 3) a = 0; q[i * 4 + 3] = a; for (int k = 0; k < 3; k++) { double v = std::min(1.0, (base[k] + (double)((z >> (15 + 10 * k)) % var)) / 32768.0); q[i * 4 + k] = (uint16_t)(v * a); } } };
  take(c, s, p, c.below(1000));
  Dab d = plain_dab(p.x, p.y, eff(p)); d.hardness = 0.5; d.softness = 0.5; RefDab f(d);
  long x0, y0, x1, y1; f.bbox(x0, y0, x1, y1); double lo[4], hi[4]; for (int i = 0; i < 4; i++) { lo[i] = 2; hi[i] = -1; }
  double w = 0, wa = 0; long n = 0;
  for (long y = y0; y <= y1; y++) for (long x = x0; x <= x1; x++) {
    Range r = f.strength(x, y); if (r.hi <= 0) continue; const uint16_t *q = s.px(x, y); double a = q[3] / 32768.0; n++; w += r.hi; wa += r.hi * a;
    lo[3] = std::min(lo[3], a); hi[3] = std::max(hi[3], a);
    if (q[3]) for (int i = 0; i < 3; i++) { double v = q[i] / (double)q[3]; lo[i] = std::min(lo[i], v); hi[i] = std::max(hi[i], v); }
  }
  if (hi[3] <= 0) c.discard();
  double t = (p.paint < 0 ? 1.05 * n / 32768.0 / w : 0) + 3e-5;
  if (p.col[3] < lo[3] - t || p.col[3] > hi[3] + t) c.fail("alpha", "alpha %.7g outside the range %.7g..%.7g under the pick", p.col[3], lo[3], hi[3]);
  if (hi[0] > lo[0]) c.nontrivial();
  if (p.col[3] <= 0 || p.paint > 0) return;
  double tc = p.paint < 0 ? 2.2 * t / (wa / w) : 5e-5;
  for (int i = 0; i < 3; i++) if (p.col[i] < lo[i] - tc || p.col[i] > hi[i] + tc) c.fail("convex", "channel %d is %.7g, outside the range %.7g..%.7g of the colours under the pick", i, p.col[i], lo[i], hi[i]);
}
// two plain regions: the spectral mix of two equal colours is that colour, of two greys lies between them
FACET(spectral, 2500, 120000, "spectral sampling (paint > 0) of grey canvases of random brightness and alpha, any radius: grey in, grey out and between the darkest and brightest; non-trivial: pixels differ") {
  TileSurf s; s.c = &c; Pick p = gen_pick(c, 60); p.paint = c.pick({1.0f, 0.5f, 0.9f}); if (fabs(p.x) > 5000 || fabs(p.y) > 5000) { p.x = fmod(p.x, 3000); p.y = fmod(p.y, 3000); }
  u64 seed = c.below(1000); int lo = c.range(0, 32768), hi = c.range(lo, 32768), alo = c.chance(1, 2) ? 32768 : c.range(3000, 32768); if (hi > lo) c.nontrivial();
  s.fill = [=](int x, int y, uint16_t *q) { u64 h = seed * 77 + x * 131 + y * 31337; splitmix(h); for (int i = 0; i < TS * TS; i++) { u64 z = splitmix(h); int a = alo + (z >> 40) % (32768 - alo + 1); int v = (int)((lo + z % (hi - lo + 1)) / 32768.0 * a); q[i * 4] = q[i * 4 + 1] = q[i * 4 + 2] = v; q[i * 4 + 3] = a; } };
  take(c, s, p, c.below(1000));
  for (int i = 0; i < 3; i++) if (p.col[i] < lo / 32768.0 - 0.02 || p.col[i] > hi / 32768.0 + 0.02) c.fail("spectral", "channel %d is %.7g on greys %.7g..%.7g", i, p.col[i], lo / 32768.0, hi / 32768.0);
  if (p.col[3] < alo / 32768.0 - 1e-3) c.fail("alpha", "alpha %.7g below %.7g", p.col[3], alo / 32768.0);
  if (p.r > 2) return;
  // every pixel is sampled: the spectral part is the weighted geometric mean of the greys
  Dab d = plain_dab(p.x, p.y, eff(p)); d.hardness = 0.5; d.softness = 0.5; RefDab f(d); long x0, y0, x1, y1; f.bbox(x0, y0, x1, y1);
  double w = 0, lg = 0, ar = 0, e = 0.001;
  for (long y = y0; y <= y1; y++) for (long x = x0; x <= x1; x++) { Range r = f.strength(x, y); if (r.hi <= 0) continue; const uint16_t *q = s.px(x, y); double m = (r.lo + r.hi) / 2 * q[3], g = q[0] / (double)q[3]; w += m; lg += m * log(g * (1 - e) + e); ar += m * g; }
  double want = p.paint * (exp(lg / w) - e) / (1 - e) + (1 - p.paint) * ar / w;
  for (int i = 0; i < 3; i++) if (fabs(p.col[i] - want) > 0.03) c.fail("geometric", "channel %d is %.7g, the mean of the greys is %.7g", i, p.col[i], want);
}
FACET(alpha, 2500, 100000, "mypaint_surface_get_alpha on random canvases and on custom surfaces gives the alpha a colour pick at the same place gives, changes no pixel; non-trivial: alpha strictly between 0 and 1") {
  float x, y, r; { Pick p = gen_pick(c, 40); x = p.x; y = p.y; r = p.r; } if (fabs(x) > 5000 || fabs(y) > 5000) { x = fmod(x, 3000); y = fmod(y, 3000); }
  if (c.chance(1, 4)) { RecSurf s; float want = c.real(0, 1, 0.3); s.color = [&](const RecSurf::Pick &, float *q) { q[0] = 0.9; q[1] = 0.8; q[2] = 0.7; q[3] = want; }; float got = mypaint_surface_get_alpha(s.iface(), x, y, r); c.log("custom surface, alpha %g", want); if (want > 0 && want < 1) c.nontrivial();
    if (s.picks.size() != 1 || s.picks[0].x != x || s.picks[0].y != y || s.picks[0].radius != r) c.fail("asked", "the surface was not asked for exactly (%g,%g) radius %g", x, y, r); if (got != want) c.fail("alpha", "alpha is %g, the surface says %g", got, want); return; }
  TileSurf s; s.c = &c; u64 seed = c.below(1000); int style = c.below(4); s.fill = [=](int tx, int ty, uint16_t *q) { random_tile(seed, tx, ty, q, style); }; c.log("pick (%g,%g) radius %g", x, y, r);
  float q[4], best = 9; float a; srand(5); a = mypaint_surface_get_alpha(s.iface(), x, y, r); Canvas keep = s.tiles;
  for (float paint : {1.0f, 0.0f, -1.0f}) { srand(5); mypaint_surface_get_color(s.iface(), x, y, r, q, q + 1, q + 2, q + 3, paint); best = std::min(best, fabsf(q[3] - a)); } c.checkpoint();
  if (!(best <= 1e-6)) c.fail("alpha", "alpha is %.7g, no colour pick gives that (off by %.3g)", a, best); if (s.n_write) c.fail("changed", "asking for alpha wrote to the canvas"); if (a > 0 && a < 1) c.nontrivial(); c.stat(best / 1e-6);
}
// picks larger than 2 pixels look at a sample of the pixels only: a fair one
FACET(sampled, 250, 8000, "30 picks of one radius from 2 to 300 (additive and spectral sampling) scattered over a canvas whose alpha or brightness rises evenly in any direction: on average they give the value at the middle of the pick, up to the uncertainty of the documented number of samples, so no part of the pick is left out; non-trivial: the canvas varies by more than 4% over the pick") {
  double r = exp(c.real(0.7, 5.7, 3)), ang = c.real(0, 6.2832, 0); bool alpha = c.chance(1, 2); float paint = alpha ? c.pick({0.0f, 0.5f, 1.0f}) : 0; double span = c.real(0.05, 0.9, 0.6);
  double R = r + 70, g = span / (2 * R), gx = g * cos(ang), gy = g * sin(ang); double ox = c.near(-3, 3, 0) * 64.0 + c.real(0, 64, 32), oy = c.near(-3, 3, 0) * 64.0 + c.real(0, 64, 32); c.log("radius %g paint %g, %s rises by %g along %g rad through (%g,%g)", r, paint, alpha ? "alpha" : "brightness", span, ang, ox, oy);
  auto val = [=](double x, double y) { double v = 0.5 + gx * (x - ox) + gy * (y - oy); return v < 0 ? 0 : v > 1 ? 1 : v; };
  TileSurf s; s.c = &c; s.direct = true; s.fill = [=](int tx, int ty, uint16_t *p) { for (int i = 0; i < TS * TS; i++) { int v = (int)(val(tx * 64 + i % 64 + 0.5, ty * 64 + i / 64 + 0.5) * 32768 + 0.5); if (alpha) { p[i * 4] = p[i * 4 + 1] = v / 2; p[i * 4 + 2] = v; p[i * 4 + 3] = v; } else { p[i * 4] = p[i * 4 + 1] = p[i * 4 + 2] = v; p[i * 4 + 3] = 32768; } } };
  const int K = 30; double sum = 0, lo = 1e9, hi = -1e9; srand(c.below(1000));
  for (int k = 0; k < K; k++) { float x = ox + c.real(-60, 60, 0), y = oy + c.real(-60, 60, 0), q[4]; mypaint_surface_get_color(s.iface(), x, y, r, q, q + 1, q + 2, q + 3, paint); double d = ((alpha ? q[3] : q[0]) - val(x, y)) / (g * r); sum += d; lo = std::min(lo, d); hi = std::max(hi, d); }
  c.checkpoint(); double D = sum / K, n = r <= 2 ? 1e9 : std::max(3.0, M_PI * r * r / (7 * r)) , tol = 0.12 + 6 * 0.45 / sqrt(K * n); c.stat(fabs(D) / tol);
  if (g * r > 0.02) c.nontrivial();
  if (fabs(D) > tol) c.fail("sampled", "on average the picks are off the middle by %.3g of the radius (tolerance %.2g)", D, tol);
}
FACET(halves, 50, 2000, "30 picks of one radius from 30 to 250 scattered over a canvas on which one half of every tile (upper, lower, left or right) is opaque and the rest transparent: the picked alpha is about one half on average, give or take the bias of a fixed sampling pattern (0.38), so no part of the tiles is left out; non-trivial: always") {
  double r = c.real(30, 250, 60); int iv = (int)((float)r * 7); if ((iv + 8) % 64 < 16) r += 16 / 7.0; int kind = c.below(4); float paint = c.pick({0.0f, 0.5f, 1.0f}); c.nontrivial(); c.log("radius %g, pattern %d, paint %g", r, kind, paint);
  TileSurf s; s.c = &c; s.direct = true; s.fill = [=](int, int, uint16_t *p) { for (int i = 0; i < TS * TS; i++) { int x = i % 64 / 32, y = i / 64 / 32; int on = kind == 0 ? y : kind == 1 ? !y : kind == 2 ? x : kind == 3 ? !x : x ^ y; for (int k = 0; k < 4; k++) p[i * 4 + k] = on ? 32768 : 0; } };
  const int K = 30; double sum = 0; srand(c.below(1000)); for (int k = 0; k < K; k++) { float q[4]; mypaint_surface_get_color(s.iface(), c.real(-200, 200, 0), c.real(-200, 200, 0), r, q, q + 1, q + 2, q + 3, paint); sum += q[3]; }
  c.checkpoint(); double D = fabs(sum / K - 0.5); c.stat(D / 0.38); if (D > 0.38) c.fail("halves", "the picked alpha is %.3f on average", sum / K);
}
FACET(vast, 10, 600, "picks of radius 1000 to 20000 (half of them next to 65536/7 and twice that, where the interval between samples no longer fits 16 bits) on a uniform canvas of which only the tile in the middle and a few others can be provided: the pick comes back with that colour and alpha; non-trivial: always") {
  float r = c.chance(1, 2) ? (float)(65536.0 / 7 * c.range(1, 2) + c.pick({0.05, 0.1, 0.0, -0.1, 0.2, 0.5})) : (float)exp(c.real(6.9, 9.9, 0)); float paint = c.pick({-1.0f, 0.0f, 0.5f, 1.0f}); c.nontrivial(); c.label(r > 9362 ? "interval above 16 bits" : "interval fits");
  int a = c.range(3000, 32768), v = c.range(0, a); float x = c.real(-1000, 1000, 0), y = c.real(-1000, 1000, 0); int mx = (int)floor(x / 64), my = (int)floor(y / 64); long sel = c.range(3000, 20000); c.log("pick (%g,%g) radius %.9g paint %g on %d of alpha %d", x, y, r, paint, v, a);
  TileSurf s; s.c = &c; s.fill = [=](int, int, uint16_t *p) { uniform_tile(p, v, v, v, a); };
  s.unavailable = [=](const MyPaintTileRequest *q) { return !(q->tx == mx && q->ty == my) && ((long)q->tx * 7919 + (long)q->ty * 104729) % sel; };
  Pick p; memset(&p, 0, sizeof p); p.x = x; p.y = y; p.r = r; p.paint = paint; take(c, s, p, c.below(100));
  if (fabs(p.col[3] - a / 32768.0) > 1e-3) c.fail("alpha", "alpha %.7g on a canvas of alpha %.7g", p.col[3], a / 32768.0);
  for (int i = 0; i < 3; i++) { double d = fabs(p.col[i] - v / (double)a); if (d > (paint > 0 ? 0.05 : 3e-3)) c.fail("colour", "channel %d is %.7g on a canvas of colour %.7g", i, p.col[i], v / (double)a); }
}
PBT_MAIN("C11", "spectral averages use the library's fast approximate powers: tolerance 1.2% plus 0.015% per pixel of radius", "every pixel is sampled in legacy mode and for radius <= 2; otherwise a random subset (rand() seeded per case)")
