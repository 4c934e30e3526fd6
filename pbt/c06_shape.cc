// C06: the footprint of a dab.
#include "refdab.hpp"
using namespace pbt;

static void one_shape(Case &c, Dab d, bool huge = false) {
  TileSurf s; s.c = &c; long k1 = huge ? c.below(64) : 0, k2 = huge ? c.below(64) : 0;
  RefDab ref(d);
  c.log("%s", str(d).c_str());
  s.begin(); int ret = put(s.iface(), d); s.end_(); c.checkpoint();
  if (!ret) c.fail("result", "a visible dab was reported as not painting");
  long x0, y0, x1, y1; ref.bbox(x0, y0, x1, y1);
  double opq = std::min(1.0, std::max(0.0, (double)d.opaque));
  long painted = 0;
  for (long y = y0 - 2; y <= y1 + 2; y++) for (long x = x0 - 2; x <= x1 + 2; x++) {
    if (huge && (y & 63) && (y & 63) != 63 && (y & 63) != k1 && (x & 63) && (x & 63) != 63 && (x & 63) != k2) continue;
    bool inside = x >= x0 - 1 && x <= x1 + 1 && y >= y0 - 1 && y <= y1 + 1;
    long tx = x >= 0 ? x / TS : -((-x + TS - 1) / TS), ty = y >= 0 ? y / TS : -((-y + TS - 1) / TS);
    auto it = s.tiles.find({(int)tx, (int)ty});
    const uint16_t *p = it == s.tiles.end() ? nullptr : &it->second[((y - ty * TS) * TS + (x - tx * TS)) * 4];
    double got = p ? p[3] : 0;
    if (got) painted++;
    if (!inside) { if (got) c.fail("outside", "pixel (%ld,%ld) outside the dab's bounding square got alpha %g", x, y, got); continue; }
    Range e = ref.strength(x, y);
    double lo = e.lo * opq * 32768 - 2.5, hi = e.hi * opq * 32768 + 1.0;
    if (got < lo || got > hi) c.fail("strength", "pixel (%ld,%ld): alpha %g, the documented falloff gives %.3f..%.3f", x, y, got, e.lo * opq * 32768, e.hi * opq * 32768);
    if (got) {
      double dx = std::max(0.0, fabs(x + 0.5 - ref.x) - 0.5), dy = std::max(0.0, fabs(y + 0.5 - ref.y) - 0.5);
      if (hypot(dx, dy) > ref.r + 1.01) c.fail("outside", "pixel (%ld,%ld) at distance %g of a radius %g dab was painted", x, y, hypot(dx, dy), ref.r);
    }
  }
  // any other stored tile must be empty
  for (auto &t : s.tiles) {
    long ax = t.first.first * 64L, ay = t.first.second * 64L;
    if (ax + 63 < x0 - 1 || ax > x1 + 1 || ay + 63 < y0 - 1 || ay > y1 + 1) c.fail("outside", "tile (%d,%d) does not meet the dab but was requested", t.first.first, t.first.second);
  }
  if (painted > 4) c.nontrivial();
  c.label(ref.r < 3 ? (ref.asp > 1 ? "small ellipse" : "small round") : ref.asp > 1 ? "large ellipse" : "large round");
}

FACET(shape, 26000, 1500000, "one normal-mode dab on transparent canvas with any position/size/hardness/softness/aspect/angle/opacity; alpha of every pixel in and around its bounding square against the falloff evaluated in double precision; non-trivial: > 4 pixels painted") {
  Dab d = gen_dab(c, 140);
  d.lock_alpha = d.colorize = d.posterize = d.paint = 0; d.color_a = 1; d.r = d.g = d.b = 0.5;
  if (d.softness >= 1) d.softness = 0.75;
  if (d.opaque <= 0) d.opaque = 1;
  one_shape(c, d);
}

FACET(huge, 200, 5000, "the same for dabs of a radius from 140 to the largest that brushes use (1000), on the rows and columns along the tile borders and one more row and column of every tile; non-trivial as for shape") {
  Dab d = gen_dab(c, 140); d.radius = exp(c.real(log(140), log(1000), log(300)));
  d.lock_alpha = d.colorize = d.posterize = d.paint = 0; d.color_a = 1; d.r = d.g = d.b = 0.5; if (d.softness >= 1) d.softness = 0.75; if (d.opaque <= 0) d.opaque = 1;
  one_shape(c, d, true);
}

// strips: only a sliver of the dab lies on a tile
FACET(border, 14000, 600000, "dabs whose edge or whole body lies within a pixel of tile borders; non-trivial as for shape") {
  Dab d = gen_dab(c, 80);
  d.lock_alpha = d.colorize = d.posterize = d.paint = 0; d.color_a = 1; d.opaque = 1; d.r = d.g = d.b = 0.5;
  if (d.softness >= 1) d.softness = 0.25;
  float bx = 64 * (float)c.near(-2, 2, 0), by = 64 * (float)c.near(-2, 2, 0), e = (float)c.near(-20, 20, 0) / 8;
  int k = c.below(3), sg = c.chance(1, 2) ? -1 : 1;
  if (k != 1) d.x = bx + sg * (d.radius + e);
  if (k != 0) d.y = by + sg * (d.radius + (float)c.near(-20, 20, 0) / 8);
  one_shape(c, d);
}

FACET(invisible, 20000, 600000, "dabs with radius < 0.1, opacity <= 0, hardness <= 0 or softness >= 1, mixed with visible ones on a random canvas; invisible ones must return 0, request nothing, change nothing and report no dirty area; non-trivial: at least one visible and one invisible dab") {
  TileSurf s; s.c = &c; s.direct = true; u64 seed = c.below(1u << 30);
  s.fill = [&](int x, int y, uint16_t *p) { random_tile(seed, x, y, p, 1); };
  int vis = 0, inv = 0;
  while (c.more(4)) {
    Dab d = gen_dab(c, 60); bool invisible = c.chance(2, 3);
    if (d.opaque <= 0) d.opaque = 0.5; if (d.softness >= 1) d.softness = 0;
    if (invisible) switch (c.below(4)) {
      case 0: d.radius = c.pick({0.0f, 0.05f, 0.0999f, -1.0f, 1e-20f}); break;
      case 1: d.opaque = c.pick({0.0f, -0.5f, -1e9f}); break;
      case 2: d.hardness = c.pick({0.0f, -0.1f, -1e9f}); break;
      default: d.softness = c.pick({1.0f, 1.5f, 1e9f}); break;
    }
    c.log("%s %s", invisible ? "invisible" : "visible", str(d).c_str());
    Canvas before = s.tiles; s.written.clear(); s.readtiles.clear();
    MyPaintRectangle rects[8]; memset(rects, 0, sizeof rects); MyPaintRectangles roi = {8, rects};
    s.begin(); int r = put(s.iface(), d); s.end_(&roi); c.checkpoint();
    if (!!r != !invisible) c.fail("result", "%s dab was reported as %s", invisible ? "an invisible" : "a visible", r ? "painting" : "not painting");
    if (invisible) {
      inv++;
      if (!s.written.empty() || !s.readtiles.empty()) c.fail("touched", "an invisible dab requested tiles");
      if (s.tiles != before) c.fail("touched", "an invisible dab changed the canvas");
      for (int i = 0; i < roi.num_rectangles; i++) if (rects[i].width > 0 && rects[i].height > 0) c.fail("dirty", "an invisible dab reported a dirty rectangle");
    } else { vis++; if (s.written.empty()) c.fail("touched", "a visible dab requested no tile"); }
  }
  if (vis && inv) c.nontrivial();
}

PBT_MAIN("C06", "hardness in (0,1], |x|,|y| <= 2000; strengths compared with a tolerance of 2.5/32768 plus single-precision error of the distance")
