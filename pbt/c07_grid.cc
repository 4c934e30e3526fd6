// C07: the tile grid is invisible.
#include "refdab.hpp"
#include "brushgen.hpp"
using namespace pbt;

static long fdiv(long a, long b) { return a >= 0 ? a / b : -((-a + b - 1) / b); }
// canvas content that moves with the shift
static void shifted_fill(TileSurf &s, u64 seed, int style, long sx, long sy, int patch) {
  s.fill = [=](int tx, int ty, uint16_t *p) {
    static thread_local std::vector<uint16_t> a(TILE_WORDS), cache; static thread_local std::map<TIdx, Tile> memo; static thread_local u64 ms = ~0ull; static thread_local int mstyle = -1;
    if (ms != seed || mstyle != style || memo.size() > 200) { memo.clear(); ms = seed; mstyle = style; }
    for (int y = 0; y < TS; y++) for (int x = 0; x < TS; x++) {
      long ox = tx * 64L + x - sx, oy = ty * 64L + y - sy, qx = fdiv(ox, 64), qy = fdiv(oy, 64);
      Tile &t = memo[{(int)qx, (int)qy}]; if (t.empty()) { t.resize(TILE_WORDS); random_tile(seed, qx, qy, t.data(), style); }
      memcpy(p + (y * TS + x) * 4, &t[((oy - qy * 64) * TS + (ox - qx * 64)) * 4], 8);
    }
  };
}
static float grid(double v) { return (float)(floor(v * 16 + 0.5) / 16); }
static void compare(Case &c, TileSurf &a, TileSurf &b, long sx, long sy) {
  std::set<TIdx> seen;
  auto cmp = [&](long x, long y) {   // x,y in a's coordinates
    const uint16_t *p = a.px(x, y), *q = b.px(x + sx, y + sy);
    if (memcmp(p, q, 8)) c.fail("shift", "pixel (%ld,%ld) is (%d,%d,%d,%d); shifted by (%ld,%ld) it is (%d,%d,%d,%d)", x, y, p[0], p[1], p[2], p[3], sx, sy, q[0], q[1], q[2], q[3]);
  };
  auto wa = a.written, wb = b.written;
  for (auto &k : wa) for (int y = 0; y < TS; y++) for (int x = 0; x < TS; x++) cmp(k.first * 64L + x, k.second * 64L + y);
  for (auto &k : wb) for (int y = 0; y < TS; y++) for (int x = 0; x < TS; x++) cmp(k.first * 64L + x - sx, k.second * 64L + y - sy);
}
static long gen_shift(Case &c) {
  switch (c.below(5)) { case 0: return c.near(-3, 3, 0); case 1: return c.near(-70, 70, 1); case 2: return 64 * c.near(-20, 20, 1); case 3: return c.near(-1500, 1500, 1); default: return c.near(-130, 130, 32); }
}

FACET(dabs, 5000, 300000, "1..8 dabs of any shape and mode (positions on a 1/16 pixel grid so that shifting is exact) on random content, drawn at two places of the canvas whose content is shifted along; the canvases must be bit-identical after shifting back; non-trivial: the shift is not a multiple of the tile size and a tile changed") {
  u64 seed = c.below(1000); int style = c.below(4); long sx = gen_shift(c), sy = gen_shift(c);
  TileSurf a, b; a.c = b.c = &c; a.direct = b.direct = true; bool empty = c.chance(1, 2);
  if (!empty) { shifted_fill(a, seed, style, 0, 0, 0); shifted_fill(b, seed, style, sx, sy, 0); }
  c.log("shift (%ld,%ld)%s", sx, sy, empty ? " on transparent canvas" : "");
  a.begin(); b.begin(); int painted = 0;
  do {
    Dab d = gen_dab(c, 100); d.x = grid(d.x); d.y = grid(d.y);
    Dab e = d; e.x += sx; e.y += sy;
    c.log("%s", str(d).c_str());
    int r1 = put(a.iface(), d), r2 = put(b.iface(), e); painted += !!r1;
    if (!!r1 != !!r2) c.fail("result", "the dab was reported %d here and %d when shifted", r1, r2);
  } while (c.more(2));
  MyPaintRectangle ra[1] = {{0, 0, 0, 0}}, rb[1] = {{0, 0, 0, 0}}; MyPaintRectangles ia = {1, ra}, ib = {1, rb};
  a.end_(&ia); b.end_(&ib); c.checkpoint();
  if (painted && (sx % 64 || sy % 64)) c.nontrivial();
  compare(c, a, b, sx, sy);
  if (ia.num_rectangles != ib.num_rectangles) c.fail("rects", "%d dirty rectangles here, %d when shifted", ia.num_rectangles, ib.num_rectangles);
  if (painted && (ra[0].width != rb[0].width || ra[0].height != rb[0].height || ra[0].x + sx != rb[0].x || ra[0].y + sy != rb[0].y))
    if (abs(ra[0].x + (int)sx - rb[0].x) > 1 || abs(ra[0].y + (int)sy - rb[0].y) > 1 || abs(ra[0].width - rb[0].width) > 1 || abs(ra[0].height - rb[0].height) > 1)
      c.fail("rects", "dirty rectangle (%d,%d,%d,%d) became (%d,%d,%d,%d)", ra[0].x, ra[0].y, ra[0].width, ra[0].height, rb[0].x, rb[0].y, rb[0].width, rb[0].height);
}

FACET(big, 40, 1500, "1..3 dabs of a radius from 140 to 1000 and any shape and mode on a transparent canvas or one of random content, drawn at two places: the canvases are bit-identical after shifting back; non-trivial: the shift is not a multiple of the tile size and a tile changed") {
  u64 seed = c.below(1000); long sx = gen_shift(c), sy = gen_shift(c); bool empty = c.chance(3, 4); TileSurf a, b; a.c = b.c = &c; a.direct = b.direct = true; c.log("shift (%ld,%ld)%s", sx, sy, empty ? " on transparent canvas" : "");
  auto fill = [&](TileSurf &s, long X, long Y) { s.fill = [=](int tx, int ty, uint16_t *p) { for (int i = 0; i < TS * TS; i++) { long x = tx * 64L + i % 64 - X, y = ty * 64L + i / 64 - Y; u64 h = seed + (x >> 3) * 7919 + (y >> 3) * 104729; h = splitmix(h); p[i * 4 + 3] = h % 32769; for (int k = 0; k < 3; k++) p[i * 4 + k] = (h >> (16 + 8 * k) & 255) * p[i * 4 + 3] / 255; } }; };
  if (!empty) { fill(a, 0, 0); fill(b, sx, sy); } a.begin(); b.begin(); int painted = 0, n = 1 + c.below(3);
  while (n--) { Dab d = gen_dab(c, 100); d.radius = exp(c.real(log(140), log(1000), log(200))); d.x = grid(d.x); d.y = grid(d.y); Dab e = d; e.x += sx; e.y += sy; c.log("%s", str(d).c_str()); int r1 = put(a.iface(), d), r2 = put(b.iface(), e); painted += !!r1; if (!!r1 != !!r2) c.fail("result", "the dab was reported %d here and %d when shifted", r1, r2); }
  a.end_(); b.end_(); c.checkpoint(); if (painted && (sx % 64 || sy % 64)) c.nontrivial();
  // the pixels around every tile border of either canvas, and every seventh of the others
  auto cmp = [&](long x, long y) { const uint16_t *p = a.px(x, y), *q = b.px(x + sx, y + sy); if (memcmp(p, q, 8)) c.fail("shift", "pixel (%ld,%ld) is (%d,%d,%d,%d); shifted by (%ld,%ld) it is (%d,%d,%d,%d)", x, y, p[0], p[1], p[2], p[3], sx, sy, q[0], q[1], q[2], q[3]); };
  auto wa = a.written, wb = b.written;
  for (int w = 0; w < 2; w++) for (auto &k : w ? wb : wa) for (int y = 0; y < TS; y++) for (int x = 0; x < TS; x++) if (y == 0 || y == 63 || x == 0 || x == 63 || (x + y * 3) % 7 == 0) cmp(k.first * 64L + x - (w ? sx : 0), k.second * 64L + y - (w ? sy : 0));
}

// a dab straddling a tile corner against the same dab inside one tile
FACET(corner, 5000, 300000, "a dab of radius <= 30 placed around a tile corner and edge, compared pixel by pixel with the same dab well inside a single tile; non-trivial: the dab painted") {
  Dab d = gen_dab(c, 28); if (d.radius > 28) d.radius = 28; float fx = grid(c.real(0, 1, 0.5)), fy = grid(c.real(0, 1, 0.5));
  u64 seed = c.below(1000); int style = c.below(4);
  d.x = 32 + fx; d.y = 32 + fy;
  long sx = c.near(-34, 34, 32) + 64 * c.near(-3, 3, 0), sy = c.near(-34, 34, 32) + 64 * c.near(-3, 3, 0);
  TileSurf a, b; a.c = b.c = &c; a.direct = b.direct = true;
  shifted_fill(a, seed, style, 0, 0, 0); shifted_fill(b, seed, style, sx, sy, 0);
  Dab e = d; e.x += sx; e.y += sy; c.log("shift (%ld,%ld) %s", sx, sy, str(d).c_str());
  a.begin(); int r = put(a.iface(), d); a.end_(); b.begin(); put(b.iface(), e); b.end_(); c.checkpoint();
  if (r) c.nontrivial();
  compare(c, a, b, sx, sy);
}

FACET(pick, 5000, 250000, "colour picks (every radius for legacy sampling, radius <= 2 for the others) at two places of a canvas whose content is shifted along; same colour up to the rounding of per-tile sums; non-trivial: the pick is not a single tile in both places") {
  u64 seed = c.below(1000); int style = c.below(4); long sx = gen_shift(c), sy = gen_shift(c);
  TileSurf a, b; a.c = b.c = &c; a.direct = b.direct = true;
  shifted_fill(a, seed, style, 0, 0, 0); shifted_fill(b, seed, style, sx, sy, 0);
  float paint = c.pick({-1.0f, -1.0f, 0.0f, 0.5f, 1.0f}); float r = paint < 0 ? c.real(0.1, 80, 5) : c.real(0.1, 2, 1);
  float x = grid(gen_pos(c)), y = grid(gen_pos(c));
  float p[4], q[4]; c.log("pick (%g,%g) radius %g paint %g, shift (%ld,%ld)", x, y, r, paint, sx, sy);
  mypaint_surface_get_color(a.iface(), x, y, r, p, p + 1, p + 2, p + 3, paint);
  mypaint_surface_get_color(b.iface(), x + sx, y + sy, r, q, q + 1, q + 2, q + 3, paint);
  c.checkpoint();
  if (a.readtiles.size() > 1 || b.readtiles.size() > 1) c.nontrivial();
  // alpha may differ by summation order; straight colours by that over alpha (spectral: also by the per-tile conversion)
  double ta = 2e-5, tc = paint > 0 ? 6e-3 : (paint < 0 ? 2e-5 : 2e-5) / std::max(1e-4, (double)p[3]) ;
  if (p[3] < 0.002) tc = 1;
  for (int i = 0; i < 4; i++) if (!(fabs(p[i] - q[i]) <= (i == 3 ? ta : tc))) c.fail("pick", "channel %d: %.7g here, %.7g when shifted by (%ld,%ld)", i, p[i], q[i], sx, sy);
}

FACET(stroke, 1500, 80000, "strokes of random brushes without grid map and randomness (events on a 1/4 pixel grid) recorded at two places at most 256 pixels apart; same number of dabs, each shifted, same parameters up to rounding; non-trivial: >= 3 dabs") {
  Brush b1, b2; BrushOpts o; o.randoms = false; o.smudge = false; o.curves = false; o.rlo = 0.3; o.rhi = 3;
  o.allow = [](int s) { return s != SET(SNAP_TO_PIXEL) && s != SET(DIRECTION_FILTER) && s != SET(OFFSET_MULTIPLIER) && s != SET(SMUDGE_LENGTH); };
  auto save = [&](Brush &b) { for (int s = 0; s < MYPAINT_BRUSH_SETTINGS_COUNT; s++) b.set(s, b1.get(s)); };
  gen_brush(c, b1, o); save(b2);
  float sx = c.near(-256, 256, 64), sy = c.near(-256, 256, 64);
  RecSurf s1, s2; float x = 0, y = 0; c.log("shift (%g,%g)", sx, sy);
  Event e = {0, 0, 1, 0, 0, 10, 1, 0, 0, 0}; stroke(b1, s1.iface(), e); e.x += sx; e.y += sy; stroke(b2, s2.iface(), e);
  int n = 0;
  while (c.more(12) && n++ < 40) {
    x += 0.25f * c.near(-80, 80, 20); y += 0.25f * c.near(-80, 80, 0);
    Event e1 = {x, y, (float)c.range(1, 4) / 4, 0, 0, (double)c.range(1, 8) / 128, 1, 0, 0, 0}, e2 = e1; e2.x += sx; e2.y += sy;
    c.log("%s", str(e1).c_str());
    stroke(b1, s1.iface(), e1); stroke(b2, s2.iface(), e2);
  }
  size_t m = std::min(s1.dabs.size(), s2.dabs.size());
  if (m >= 3) c.nontrivial();
  if (s1.dabs.size() > s2.dabs.size() + 1 || s2.dabs.size() > s1.dabs.size() + 1) c.fail("count", "%zu dabs here, %zu when shifted", s1.dabs.size(), s2.dabs.size());
  for (size_t i = 0; i < m; i++) {
    // the phase of the dabs may slip by a rounding error: allow what one neighbouring dab differs by
    const Dab &p = s1.dabs[i], &q = s2.dabs[i], &u = s1.dabs[i ? i - 1 : 0], &v = s1.dabs[i + 1 < s1.dabs.size() ? i + 1 : i];
    auto step = [&](float k0, float k, float k1) { return std::max(fabs(k0 - k), fabs(k1 - k)); };
    double rel = 2e-3 * (1 + p.radius);
    if (fabs(p.x + sx - q.x) > rel + step(u.x, p.x, v.x) || fabs(p.y + sy - q.y) > rel + step(u.y, p.y, v.y)) c.fail("stroke", "dab %zu at (%.7g,%.7g), shifted stroke has it at (%.7g,%.7g)", i, p.x, p.y, q.x - sx, q.y - sy);
    if (fabs(p.radius - q.radius) > 1e-3 * p.radius + step(u.radius, p.radius, v.radius) || fabs(p.opaque - q.opaque) > 2e-3 + step(u.opaque, p.opaque, v.opaque) || fabs(p.hardness - q.hardness) > 2e-3 + step(u.hardness, p.hardness, v.hardness)) c.fail("stroke", "dab %zu differs: %s vs %s", i, str(p).c_str(), str(q).c_str());
  }
}

PBT_MAIN("C07", "positions on a 1/16 pixel grid within +-4000 so that shifting is exact in single precision")
