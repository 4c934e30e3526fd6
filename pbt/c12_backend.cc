// C12: the tile backend protocol is honoured, also when tiles cannot be had.
#include "refdab.hpp"
#include "symm.hpp"
#include "brushgen.hpp"
using namespace pbt;

struct Area { long x0, y0, x1, y1; };
static Area around(double x, double y, double r, double slack) { double e = r + 1 + slack; return {(long)floor((x - e) / 64), (long)floor((y - e) / 64), (long)floor((x + e) / 64), (long)floor((y + e) / 64)}; }
static bool in(const Area &a, const TIdx &t) { return t.first >= a.x0 && t.first <= a.x1 && t.second >= a.y0 && t.second <= a.y1; }

FACET(protocol, 4000, 200000, "sections of dabs (with and without symmetry) and colour picks against a backend that hands out guarded private copies: pairing, one request at a time per tile, guard words, read-only buffers untouched, no access after the end, only tiles within a dab or pick requested, and each at most once per flush; non-trivial: a dab and a pick touched the same tile") {
  TileSurf s; s.c = &c; u64 seed = c.below(1000); int style = c.below(4); bool empty = c.chance(1, 2);
  if (!empty) s.fill = [=](int x, int y, uint16_t *p) { random_tile(seed, x, y, p, style); };
  SymmModel m; int both = 0;
  for (int k = 0, K = 1 + c.below(4); k < K; k++) {
    if (c.chance(1, 3)) { Symm y = gen_symm(c, 6, 100); apply(&s.t, y); m.set(y); c.log("%s", str(y).c_str()); }
    s.begin(); m.begin(); c.log("begin");
    if (s.n_start != s.n_end) c.fail("pairing", "begin_atomic left a request open");
    std::vector<Area> wr, dirty; 
    auto check_new = [&](const std::set<TIdx> &w0, const std::set<TIdx> &r0, const std::vector<Area> &wa, const std::vector<Area> &ra, long nw, long nr, const char *when) {
      for (auto &t : s.written) { bool ok = false; for (auto &a : wa) ok |= in(a, t); if (!ok) c.fail("stray", "%s: tile (%d,%d) was requested for writing although no pending dab reaches it", when, t.first, t.second); }
      for (auto &t : s.readtiles) { bool ok = false; for (auto &a : ra) ok |= in(a, t); if (!ok) c.fail("stray", "%s: tile (%d,%d) was requested for reading although it is outside the pick", when, t.first, t.second); }
      if (nw > (long)s.written.size()) c.fail("repeat", "%s: %ld write requests for %zu tiles", when, nw, s.written.size());
      if (nr > (long)s.readtiles.size()) c.fail("repeat", "%s: %ld read requests for %zu tiles", when, nr, s.readtiles.size());
    };
    int left = c.below(10);
    do {
      s.written.clear(); s.readtiles.clear(); long w = s.n_write, r = s.n_read;
      if (c.chance(1, 4)) {
        float x = gen_pos(c), y = gen_pos(c), rad = c.real(0, 60, 5), paint = c.pick({-1.0f, 0.0f, 1.0f}), q[4]; c.log("  pick (%g,%g) radius %g paint %g", x, y, rad, paint);
        mypaint_surface_get_color(s.iface(), x, y, rad, q, q + 1, q + 2, q + 3, paint); s.balanced("pick"); c.checkpoint();
        std::vector<Area> ra{around(x, y, rad < 1 ? 1 : rad, 0.01)}; 
        check_new({}, {}, wr, ra, s.n_write - w, s.n_read - r, "pick");
        for (auto &t : s.written) { if (!in(ra[0], t)) c.fail("stray", "pick flushed tile (%d,%d) outside its area", t.first, t.second); both++; }
      } else {
        Dab d = gen_dab(c, 90, true); c.log("  %s", str(d).c_str()); int res = put(s.iface(), d); c.checkpoint();
        if (s.n_write != w || s.n_read != r) c.fail("eager", "drawing a dab requested tiles before the section ended");
        if (res) for (auto &i : images(m.current, d.x, d.y, d.angle)) wr.push_back(around(i.x, i.y, d.radius, 0.05));
      }
    } while (left-- > 0);
    s.written.clear(); s.readtiles.clear(); long w = s.n_write, r = s.n_read;
    c.log("end"); s.end_(); s.balanced("end of section"); c.checkpoint();
    check_new({}, {}, wr, {}, s.n_write - w, s.n_read - r, "end of section");
    // a second end without new dabs flushes nothing
    if (c.chance(1, 3)) { w = s.n_write; s.begin(); m.begin(); s.end_(); if (s.n_write != w) c.fail("stray", "an empty section requested %ld tiles", s.n_write - w); }
  }
  if (both) c.nontrivial();
}

FACET(failure, 4000, 200000, "dabs and picks while the backend cannot supply some tiles (per tile, always or every k-th request, for reading, writing or both): every request is still ended, other tiles are bit-identical to painting with everything available, and afterwards covering dabs and further dabs give the same canvas everywhere; non-trivial: a write request failed and another tile was painted") {
  TileSurf a, b; a.c = b.c = &c; u64 seed = c.below(1000); int style = c.below(4); bool empty = c.chance(1, 2);
  if (!empty) a.fill = b.fill = [=](int x, int y, uint16_t *p) { random_tile(seed, x, y, p, style); };
  bool failing = true; u64 mask = c.below(1u << 16), key = c.below(1000); int mode = c.below(4), every = 1 + c.below(3); long cnt = 0; std::set<TIdx> failed;
  a.unavailable = [&](const MyPaintTileRequest *r) {
    if (!failing) return false; if (mode == 1 && r->readonly) return false; if (mode == 2 && !r->readonly) return false;
    u64 h = key * 977 + (u64)(uint32_t)r->tx * 31 + (uint32_t)r->ty; splitmix(h);
    if (!(mask >> (h & 15) & 1)) return false; if (cnt++ % every) return false;
    if (!r->readonly) failed.insert({r->tx, r->ty}); return true; };
  auto step = [&](bool picks, bool record) {
    if (picks && c.chance(1, 4)) {
      float x = c.real(-150, 250, 32), y = c.real(-150, 250, 32), rad = c.real(0, 60, 5), paint = c.pick({-1.0f, 0.0f, 1.0f}), q[4], p[4]; c.log("  pick (%g,%g) radius %g paint %g", x, y, rad, paint);
      srand(1); mypaint_surface_get_color(a.iface(), x, y, rad, q, q + 1, q + 2, q + 3, paint); a.balanced("pick"); c.checkpoint();
      for (int i = 0; i < 4; i++) if (!(q[i] >= 0 && q[i] <= 1)) c.fail("pick", "channel %d of the picked colour is %g", i, q[i]);
      srand(1); mypaint_surface_get_color(b.iface(), x, y, rad, p, p + 1, p + 2, p + 3, paint);
      return;
    }
    Dab d = gen_dab(c, 90); d.x = c.real(-150, 250, 32); d.y = c.real(-150, 250, 32); c.log("  %s", str(d).c_str());
    int r1 = put(a.iface(), d), r2 = put(b.iface(), d); if (!!r1 != !!r2) c.fail("result", "dab reported %d, %d with everything available", r1, r2);
  };
  auto compare = [&](bool all, const char *when) {
    std::set<TIdx> keys = a.written; keys.insert(b.written.begin(), b.written.end());
    for (auto &k : keys) if ((all || !failed.count(k)) && a.tile(k.first, k.second) != b.tile(k.first, k.second)) c.fail("tiles", "%s: tile (%d,%d)%s differs from painting with every tile available", when, k.first, k.second, failed.count(k) ? ", available again," : ", always available,");
  };
  for (int k = 0, K = 1 + c.below(3); k < K; k++) { a.begin(); b.begin(); c.log("begin (tiles failing)"); int left = c.below(8); do step(true, true); while (left-- > 0); a.end_(); b.end_(); a.balanced("end of section"); c.checkpoint(); }
  bool other = false; for (auto &t : b.written) if (!failed.count(t)) other = true;
  if (!failed.empty() && other) c.nontrivial();
  compare(false, "after the failures");
  failing = false; c.log("all tiles available, %zu had failed", failed.size());
  // the failed tiles get a defined content again, then everything goes on as usual
  a.begin(); b.begin();
  for (auto &t : failed) { Dab d = plain_dab(t.first * 64 + 32, t.second * 64 + 32, 48); d.hardness = 1; d.r = 1; put(a.iface(), d); put(b.iface(), d); }
  if (c.chance(1, 2)) { a.end_(); b.end_(); compare(true, "after covering"); a.begin(); b.begin(); }
  int left = c.below(5); do step(false, false); while (left-- > 0);
  a.end_(); b.end_(); a.balanced("end"); c.checkpoint(); compare(true, "later dabs");
}
FACET(pick, 2500, 120000, "picks on a uniform canvas some of whose tiles cannot be supplied: the colour of the others, or alpha 0 when none can; non-trivial: some but not all tiles failed") {
  int a = c.range(3000, 32768), q[3]; for (int &k : q) k = c.range(0, a);
  TileSurf s; s.c = &c; s.fill = [=](int, int, uint16_t *p) { uniform_tile(p, q[0], q[1], q[2], a); };
  u64 mask = c.below(1u << 16); long bad = 0; s.unavailable = [&](const MyPaintTileRequest *r) { bool f = mask >> ((r->tx & 3) + 4 * (r->ty & 3)) & 1; bad += f; return f; };
  float x = gen_pos(c), y = gen_pos(c), r = c.real(0, 100, 20), paint = c.pick({-1.0f, 0.0f, 0.5f, 1.0f}), o[4]; c.log("canvas %d %d %d %d mask %lx pick (%g,%g) radius %g paint %g", q[0], q[1], q[2], a, (long)mask, x, y, r, paint);
  mypaint_surface_get_color(s.iface(), x, y, r, o, o + 1, o + 2, o + 3, paint); s.balanced("pick"); c.checkpoint();
  if (bad && bad < s.n_read) c.nontrivial();
  if (s.n_end != s.n_start) c.fail("pairing", "%ld requests started, %ld ended", s.n_start, s.n_end);
  if (bad == s.n_read) { if (o[3] != 0) c.fail("pick", "no tile could be had, but alpha is %g", o[3]); return; }
  // the available tiles may be touched by the pick's corner only
  if (o[3] == 0) { Dab d = plain_dab(x, y, r < 1 ? 1 : r); d.hardness = 0.5; d.softness = 0.5; RefDab f(d); long x0, y0, x1, y1; f.bbox(x0, y0, x1, y1);
    for (long py = y0; py <= y1; py++) for (long px = x0; px <= x1; px++) if (f.strength(px, py).lo > 0.02) { int tx = (int)floor(px / 64.0), ty = (int)floor(py / 64.0); if (!(mask >> ((tx & 3) + 4 * (ty & 3)) & 1)) c.fail("pick", "alpha 0 although pixel (%ld,%ld) is available", px, py); } return; }
  double t = paint > 0 ? 0.03 : 5e-3; if (fabs(o[3] - a / 32768.0) > 0.04) c.fail("pick", "alpha %g on a canvas of alpha %g", o[3], a / 32768.0);
  for (int i = 0; i < 3; i++) if (fabs(o[i] - q[i] / (double)a) > t + 0.4 * (paint < 0)*0.2) c.fail("pick", "channel %d is %g on a canvas of %g", i, o[i], q[i] / (double)a);
}
FACET(brush, 400, 20000, "strokes of random brushes (with smudging) on a backend losing tiles at random: no crash, every request ended, and after the tiles are back a fresh dab paints; non-trivial: a request failed") {
  TileSurf s; s.c = &c; Brush b; BrushOpts o; o.cheap = true; o.rhi = 3; gen_brush(c, b, o); u64 h = c.below(1000); long bad = 0; bool failing = true;
  s.unavailable = [&](const MyPaintTileRequest *) { bool f = failing && splitmix(h) % 3 == 0; bad += f; return f; };
  Pen pen(c, 32, 32); int n = 3 + c.below(12);
  for (int i = 0; i < n; i++) { s.begin(); Event e = pen.next(c, 30); c.log("%s", str(e).c_str()); stroke(b, s.iface(), e); s.end_(); s.balanced("stroke"); c.checkpoint(); }
  if (bad) c.nontrivial(); failing = false;
  s.begin(); Dab d = plain_dab(32, 32, 48); d.hardness = 1; d.r = 1; put(s.iface(), d); s.end_(); c.checkpoint();
  Tile &t = s.tile(0, 0); for (int i = 0; i < TS * TS; i++) if (t[i * 4] != 32768 || t[i * 4 + 1] || t[i * 4 + 3] != 32768) c.fail("later", "pixel %d of tile (0,0) was not painted after the tile became available again", i);
}
PBT_MAIN("C12", "tiles that could not be supplied may keep their old content or get the lost dabs later")
