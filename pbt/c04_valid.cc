// C04: pixels always stay valid premultiplied colour.
#include "refdab.hpp"
#include "brushgen.hpp"
using namespace pbt;

static void check_tiles(Case &c, TileSurf &s, const std::set<TIdx> &which, const char *when) {
  for (auto &k : which) {
    const Tile &t = s.tiles[k];
    for (int i = 0; i < TS * TS; i++) {
      const uint16_t *p = &t[i * 4];
      if (p[3] > 32768 || p[0] > p[3] || p[1] > p[3] || p[2] > p[3])
        c.fail(p[3] > 32768 ? "alpha" : "channel", "%s: pixel (%d,%d) of tile (%d,%d) is (%d,%d,%d,%d)", when, i % TS, i / TS, k.first, k.second, p[0], p[1], p[2], p[3]);
    }
  }
}

FACET(single, 30000, 1500000, "one dab of any finite parameters (modes mixed, values beyond their range included) over random valid pixels; every pixel of every touched tile checked; non-trivial: canvas changed") {
  u64 seed = c.below(1u << 30); int style = c.below(4);
  TileSurf s; s.direct = true; s.c = &c; s.fill = [&](int x, int y, uint16_t *p) { random_tile(seed, x, y, p, style); };
  Dab d = gen_dab(c, 100, true);
  if (c.chance(1, 2)) { d.x = c.real(0, 64, 32); d.y = c.real(0, 64, 32); }
  if (c.chance(1, 3)) { d.hardness = 1; d.radius = 46; d.x = d.y = 32; }
  c.log("canvas style %d, %s", style, str(d).c_str());
  Tile b = s.tile(0, 0);
  s.begin(); put(s.iface(), d); s.end_(); c.checkpoint();
  if (s.tiles[{0, 0}] != b) c.nontrivial();
  check_tiles(c, s, s.written, "after one dab");
  c.label(d.paint > 0 ? "paint" : "plain");
}

// large dabs with very hard edges: the outer segment of the falloff cancels catastrophically there
FACET(edge, 1500, 60000, "white or coloured dabs, radius 20..300, hardness 1-10^-2..1-10^-7, on transparent and translucent canvas; non-trivial: always") {
  u64 seed = c.below(1u << 30); int style = c.below(4); bool empty = c.chance(1, 2);
  TileSurf s; s.direct = true; s.c = &c; if (!empty) s.fill = [&](int x, int y, uint16_t *p) { random_tile(seed, x, y, p, style); };
  Dab d = plain_dab(c.real(0, 64, 32), c.real(0, 64, 32), c.real(20, 300, 100));
  d.hardness = 1.0 - pow(10.0, -c.real(2, 7, 4)); d.r = 1; d.g = c.chance(1, 2) ? 1 : 0; d.b = gen_unit(c); d.aspect = gen_aspect(c); d.angle = gen_angle(c);
  if (c.chance(1, 2)) gen_mode(c, d); if (c.chance(1, 2)) d.opaque = 1;
  c.log("%s", str(d).c_str()); c.nontrivial();
  s.begin(); put(s.iface(), d); s.end_(); c.checkpoint();
  check_tiles(c, s, s.written, "after one dab");
}

FACET(sequence, 3000, 150000, "2..40 dabs of all modes over each other in several atomic sections; all touched tiles checked after each section; non-trivial: >= 2 dabs painted") {
  u64 seed = c.below(1u << 30); int style = c.below(4);
  TileSurf s; s.direct = true; s.c = &c; if (c.chance(2, 3)) s.fill = [&](int x, int y, uint16_t *p) { random_tile(seed, x, y, p, style); };
  int painted = 0;
  while (c.more(4)) {
    s.begin();
    while (c.more(5)) {
      Dab d = gen_dab(c, 60, true); d.x = c.real(-20, 84, 32); d.y = c.real(-20, 84, 32);
      c.log("%s", str(d).c_str()); painted += !!put(s.iface(), d);
    }
    s.end_(); c.checkpoint();
    check_tiles(c, s, s.written, "after a section");
  }
  if (painted >= 2) c.nontrivial();
}

FACET(stroke, 1200, 60000, "random brushes (smudge, eraser, colorize, posterize, paint mode, dynamics) stroking over random valid pixels; non-trivial: canvas changed") {
  u64 seed = c.below(1u << 30); int style = c.below(4);
  TileSurf s; s.direct = true; s.c = &c; s.fill = [&](int x, int y, uint16_t *p) { random_tile(seed, x, y, p, style); };
  Brush b; BrushOpts o; o.cheap = true; o.rhi = 3.2; gen_brush(c, b, o);
  if (c.chance(1, 2)) { b.set(SET(SMUDGE), c.real(0, 1, 1)); b.set(SET(SMUDGE_LENGTH), c.real(0, 1, 0.5)); if (c.chance(1, 2)) b.set(SET(PAINT_MODE), c.real(0, 1, 1)); }
  b.set(SET(OFFSET_BY_RANDOM), 0); b.set(SET(OFFSET_MULTIPLIER), 0); b.set(SET(OFFSET_X), 0); b.set(SET(OFFSET_Y), 0); b.set(SET(OFFSET_BY_SPEED), 0); b.set(SET(TRACKING_NOISE), 0);
  Pen pen(c, 32, 32);
  s.begin(); stroke(b, s.iface(), Event{32, 32, 0, 0, 0, 10, 1, 0, 0, 0});
  while (c.more(10)) {
    Event e = pen.next(c, 12); if (e.dtime > 0.2) e.dtime = 0.2; c.log("%s", str(e).c_str());
    stroke(b, s.iface(), e);
  }
  s.end_(); c.checkpoint();
  if (!s.written.empty()) c.nontrivial();
  check_tiles(c, s, s.written, "after a stroke");
}

PBT_MAIN("C04", "dab parameters are finite, |x|,|y| <= 2000, hardness >= 0.0001 or <= 0")
