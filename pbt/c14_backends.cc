// C14: all tile backends produce the same picture.
#include "refdab.hpp"
#include "symm.hpp"
#include "brushgen.hpp"
#include <gegl.h>
extern "C" {
#include "mypaint-gegl-surface.h"
}
using namespace pbt;

// the same random operations on two surfaces
struct Twin {
  Case &c; MyPaintTiledSurface *a, *b; SymmModel m; int painted = 0, picks = 0; std::function<void()> before_pick, after_pick; double tol; bool in_section = false; double reach; float pick_tol;
  Twin(Case &c_, MyPaintTiledSurface *a_, MyPaintTiledSurface *b_, double r, double t = 0) : c(c_), a(a_), b(b_), tol(t), reach(r), pick_tol(t) {}
  void section() {
    if (c.chance(1, 4)) { Symm y = gen_symm(c, 5, reach); apply(a, y); apply(b, y); c.log("%s", str(y).c_str()); }
    mypaint_surface_begin_atomic(&a->parent); mypaint_surface_begin_atomic(&b->parent); c.log("begin");
    int left = c.below(6);
    do {
      if (c.chance(1, 4)) pick();
      else { Dab d = gen_dab(c, 100); d.x = place(); d.y = place(); if (d.radius > 60 && c.chance(2, 3)) d.radius = 20; if (c.chance(1, 60)) d.radius = c.real(100, 900, 150); if (tol > 0) { d.posterize = d.colorize = d.paint = 0; }
        c.log("  %s", str(d).c_str()); int r1 = put(&a->parent, d), r2 = put(&b->parent, d); painted += r1; if (!!r1 != !!r2) c.fail("result", "dab reported %d and %d", r1, r2); }
    } while (left-- > 0);
    if (c.chance(1, 6)) { Brush b1, b2; float rl = c.real(0.5, 2.5, 1), sm = c.chance(1, 2) ? 0.5 : 0; for (Brush *q : {&b1, &b2}) { q->set(SET(RADIUS_LOGARITHMIC), rl); q->set(SET(SMUDGE), tol > 0 ? 0 : sm); q->set(SET(OPAQUE), 0.8); q->set(SET(PAINT_MODE), 0); }
      float x = place(), y = place(); for (int i = 0; i < 6; i++) { Event e = {x, y, i ? 0.7f : 0, 0, 0, i ? 0.02 : 1.0, 1, 0, 0, 0}; stroke(b1, &a->parent, e); stroke(b2, &b->parent, e); x += c.real(-30, 30, 10); y += c.real(-30, 30, 10); painted++; } c.log("  stroke"); }
    MyPaintRectangle ra[12], rb[12]; MyPaintRectangles ia = {12, ra}, ib = {12, rb};
    mypaint_surface_end_atomic(&a->parent, &ia); mypaint_surface_end_atomic(&b->parent, &ib); c.log("end");
    if (ia.num_rectangles != ib.num_rectangles || memcmp(ra, rb, sizeof(MyPaintRectangle) * ia.num_rectangles)) c.fail("rects", "the dirty rectangles differ");
  }
  float place() { switch (c.below(4)) { case 0: return c.near(-2, 5, 0) * 64; case 1: return c.real(-reach, reach * 1.3, 32); default: return c.real(0, reach, 32); } }
  void pick() {
    float x = place(), y = place(), r = c.real(1, 60, 5), paint = c.pick({-1.0f, 0.0f, 1.0f}), p[4], q[4]; c.log("  pick (%g,%g) radius %g paint %g", x, y, r, paint); picks++;
    if (before_pick) before_pick();
    srand(7); mypaint_surface_get_color(&a->parent, x, y, r, p, p + 1, p + 2, p + 3, paint); if (after_pick) after_pick();
    srand(7); mypaint_surface_get_color(&b->parent, x, y, r, q, q + 1, q + 2, q + 3, paint);
    for (int i = 0; i < 4; i++) if (pick_tol == 0 ? p[i] != q[i] : (i == 3 ? fabs(p[i] - q[i]) > 2e-3 : false)) c.fail("pick", "channel %d is %.9g and %.9g", i, p[i], q[i]);
  }
};

FACET(fixed, 1500, 80000, "random sections (dabs of all modes, symmetry, strokes, picks) on fixed-size surfaces of 1..300 x 1..300 pixels against an unbounded surface that drops writes outside the tiles: tiles, picked colours and dirty rectangles bit-identical, also for dabs far outside; non-trivial: painted inside and outside") {
  int w = c.chance(1, 4) ? 64 * (1 + c.below(4)) : 1 + c.below(300), h = c.chance(1, 4) ? 64 * (1 + c.below(4)) : 1 + c.below(300); if (c.chance(1, 8)) { w = c.pick({1, 63, 64, 65, 128, 129}); h = c.pick({1, 63, 64, 65, 128, 129}); }
  c.log("%dx%d", w, h);
  MyPaintFixedTiledSurface *f = mypaint_fixed_tiled_surface_new(w, h); if (!f) c.fail("new", "no %dx%d surface", w, h);
  struct Guard { MyPaintSurface *s; ~Guard() { mypaint_surface_unref(s); } } guard{mypaint_fixed_tiled_surface_interface(f)};
  if (mypaint_fixed_tiled_surface_get_width(f) != w || mypaint_fixed_tiled_surface_get_height(f) != h) c.fail("size", "reported size %dx%d, created as %dx%d", mypaint_fixed_tiled_surface_get_width(f), mypaint_fixed_tiled_surface_get_height(f), w, h);
  MyPaintTiledSurface *t = (MyPaintTiledSurface *)mypaint_fixed_tiled_surface_interface(f);
  int nx = (w + 63) / 64, ny = (h + 63) / 64; auto inside = [=](int x, int y) { return x >= 0 && y >= 0 && x < nx && y < ny; };
  TileSurf ref; ref.c = &c; ref.fill = [=](int x, int y, uint16_t *p) { if (inside(x, y)) uniform_tile(p, 32768, 32768, 32768, 32768); }; ref.dropped = [=](int x, int y) { return !inside(x, y); };
  auto compare = [&](const char *when) {
    for (int x = -1; x <= nx; x++) for (int y = -1; y <= ny; y++) {
      MyPaintTileRequest q; mypaint_tile_request_init(&q, 0, x, y, TRUE); mypaint_tiled_surface_tile_request_start(t, &q);
      Tile &o = ref.tile(x, y); bool same = q.buffer && !memcmp(q.buffer, o.data(), TILE_WORDS * 2); int i = 0; if (q.buffer && !same) while (q.buffer[i] == o[i]) i++;
      int got = q.buffer ? q.buffer[i] : -1; mypaint_tiled_surface_tile_request_end(t, &q);
      if (!same) c.fail("pixels", "%s: tile (%d,%d) pixel (%d,%d) channel %d is %d instead of %d", when, x, y, i / 4 % 64, i / 256, i % 4, got, o[i]);
    } };
  compare("new surface");
  // and as get_color sees it
  { float q[4]; mypaint_surface_get_color(&t->parent, w / 2.0, h / 2.0, 1, q, q + 1, q + 2, q + 3, 0); if (w > 4 && h > 4) for (int i = 0; i < 4; i++) if (fabs(q[i] - 1) > 1e-4) c.fail("white", "channel %d of a new surface is %g", i, q[i]); }
  Twin tw(c, t, &ref.t, std::max(w, h) + 10.0); int k = 1 + c.below(3);
  for (int i = 0; i < k; i++) { tw.section(); c.checkpoint(); compare("after a section"); }
  bool in = false, out = false; for (auto &q : ref.written) (inside(q.first, q.second) ? in : out) = true;
  if (in && out) c.nontrivial();
}

static void gegl_once() { static bool done; if (!done) { done = true; g_setenv("GEGL_SWAP", "RAM", TRUE); gegl_init(nullptr, nullptr); } }
static const Babl *native() { return babl_format_new(babl_model("R'aG'aB'aA"), babl_type("u15"), babl_component("R'a"), babl_component("G'a"), babl_component("B'a"), babl_component("A"), NULL); }
static void read_tile(GeglBuffer *b, int x, int y, uint16_t *out) { GeglRectangle r = {x * 64, y * 64, 64, 64}; gegl_buffer_get(b, &r, 1.0, native(), out, GEGL_AUTO_ROWSTRIDE, GEGL_ABYSS_NONE); }
struct GeglSurf { MyPaintGeglTiledSurface *g; GeglSurf() { g = mypaint_gegl_tiled_surface_new(); } ~GeglSurf() { mypaint_surface_unref(mypaint_gegl_tiled_surface_interface(g)); } MyPaintTiledSurface *t() { return (MyPaintTiledSurface *)mypaint_gegl_tiled_surface_interface(g); } GeglBuffer *buf() { return mypaint_gegl_tiled_surface_get_buffer(g); } };
static void compare(Case &c, GeglBuffer *b, TileSurf &ref, const GeglRectangle &area, double tol, const char *when) {
  std::set<TIdx> keys = ref.written; for (int tx = (int)floor(area.x / 64.0) - 1; tx <= (int)floor((area.x + area.width) / 64.0) + 1; tx++) for (int ty = (int)floor(area.y / 64.0) - 1; ty <= (int)floor((area.y + area.height) / 64.0) + 1; ty++) keys.insert({tx, ty});
  std::vector<uint16_t> p(TILE_WORDS);
  for (auto &k : keys) { read_tile(b, k.first, k.second, p.data()); Tile &o = ref.tile(k.first, k.second);
    for (int i = 0; i < TILE_WORDS; i++) { if (tol > 0) c.stat(abs((int)p[i] - (int)o[i]) / (double)tol); if (abs((int)p[i] - (int)o[i]) > tol) c.fail("pixels", "%s: tile (%d,%d) pixel (%d,%d) channel %d is %d instead of %d", when, k.first, k.second, i / 4 % 64, i / 256, i % 4, p[i], o[i]); } }
  const GeglRectangle *e = gegl_buffer_get_extent(b);
  if (area.width > 0 && (e->x > area.x || e->y > area.y || e->x + e->width < area.x + area.width || e->y + e->height < area.y + area.height)) c.fail("extent", "%s: the buffer's extent (%d,%d %dx%d) no longer covers (%d,%d %dx%d)", when, e->x, e->y, e->width, e->height, area.x, area.y, area.width, area.height);
  GeglRectangle w = area; for (auto &k : ref.written) { GeglRectangle t = {k.first * 64, k.second * 64, 64, 64}; gegl_rectangle_bounding_box(&w, &w, &t); }
  if ((e->width > 0 || w.width > 0) && (e->x < w.x || e->y < w.y || e->x + e->width > w.x + w.width || e->y + e->height > w.y + w.height)) c.fail("extent", "%s: the buffer's extent grew to (%d,%d %dx%d), but nothing was painted outside (%d,%d %dx%d)", when, e->x, e->y, e->width, e->height, w.x, w.y, w.width, w.height);
  for (auto &k : ref.written) if (e->x > k.first * 64 || e->y > k.second * 64 || e->x + e->width < k.first * 64 + 64 || e->y + e->height < k.second * 64 + 64) c.fail("extent", "%s: the buffer's extent (%d,%d %dx%d) does not cover painted tile (%d,%d)", when, e->x, e->y, e->width, e->height, k.first, k.second);
}
FACET(gegl_own, 500, 25000, "random sections on a GEGL surface with its own buffer against the reference tile store: pixels, picked colours and dirty rectangles identical and the buffer's extent is that of the painted tiles; non-trivial: something was painted") {
  gegl_once(); GeglSurf g; TileSurf ref; ref.c = &c; ref.direct = true; Twin tw(c, g.t(), &ref.t, 200); GeglRectangle none = {0, 0, 0, 0};
  for (int i = 0, n = 1 + c.below(3); i < n; i++) { tw.section(); c.checkpoint(); compare(c, g.buf(), ref, none, 0, "after a section"); }
  if (tw.painted) c.nontrivial();
}
static void supplied(Case &c, bool nat) {
  gegl_once(); GeglSurf g; TileSurf ref; ref.c = &c; ref.direct = true;
  if (c.chance(1, 3)) { Dab d = plain_dab(20, 20, 10); mypaint_surface_begin_atomic(&g.t()->parent); put(&g.t()->parent, d); mypaint_surface_end_atomic(&g.t()->parent, nullptr); c.log("own buffer used first"); }
  bool aligned = c.chance(1, 2); GeglRectangle ext = aligned ? GeglRectangle{64 * (int)c.near(-3, 3, 0), 64 * (int)c.near(-3, 3, 0), 64 * (int)c.range(1, 4), 64 * (int)c.range(1, 4)} : GeglRectangle{(int)c.near(-150, 150, 0), (int)c.near(-150, 150, 0), (int)c.range(1, 250), (int)c.range(1, 250)};
  static const char *fmts[] = {"R'aG'aB'aA float", "R'aG'aB'aA double", "R'aG'aB'aA u16"}; int fi = nat ? -1 : c.below(4); int tw_ = nat ? 64 : c.pick({64, 128, 32, 100}), th_ = nat || c.chance(1, 2) ? tw_ : c.pick({64, 128, 32, 100});
  const Babl *fmt = fi < 0 || fi == 3 ? native() : babl_format(fmts[fi]); if (fi == 3 && tw_ == 64 && th_ == 64) (c.chance(1, 2) ? tw_ : th_) = 128;
  double tol = fi < 0 || fi == 3 ? 0 : fi == 2 ? 2 : 0;
  GeglBuffer *b = GEGL_BUFFER(g_object_new(GEGL_TYPE_BUFFER, "x", ext.x, "y", ext.y, "width", ext.width, "height", ext.height, "format", fmt, "tile-width", tw_, "tile-height", th_, NULL));
  c.log("buffer (%d,%d %dx%d) tiles of %dx%d, format %s", ext.x, ext.y, ext.width, ext.height, tw_, th_, fi < 0 || fi == 3 ? "u15" : fmts[fi]);
  u64 seed = c.below(1000); int style = c.below(4);
  { std::vector<uint16_t> p(TILE_WORDS); for (int tx = (int)floor(ext.x / 64.0); tx * 64 < ext.x + ext.width; tx++) for (int ty = (int)floor(ext.y / 64.0); ty * 64 < ext.y + ext.height; ty++) { random_tile(seed, tx, ty, p.data(), style); GeglRectangle t = {tx * 64, ty * 64, 64, 64}, r; if (!gegl_rectangle_intersect(&r, &t, &ext)) continue; gegl_buffer_set(b, &r, 0, native(), p.data() + ((r.y - t.y) * 64 + r.x - t.x) * 4, 64 * 8); } }
  ref.fill = [=](int x, int y, uint16_t *q) { random_tile(seed, x, y, q, style); for (int i = 0; i < TS * TS; i++) { int px = x * 64 + i % 64, py = y * 64 + i / 64; if (px < ext.x || py < ext.y || px >= ext.x + ext.width || py >= ext.y + ext.height) memset(q + i * 4, 0, 8); } };
  if (tol > 0) { ref.direct = true; auto f0 = ref.fill; ref.fill = [=](int x, int y, uint16_t *q) { f0(x, y, q); }; }
  mypaint_gegl_tiled_surface_set_buffer(g.g, b);
  if (g.buf() != b) c.fail("buffer", "the supplied buffer is not the surface's buffer");
  compare(c, b, ref, ext, tol, "buffer supplied");
  Twin tw(c, g.t(), &ref.t, 200, tol); int K = 1 + c.below(3);
  for (int i = 0; i < K; i++) { tw.section(); c.checkpoint(); compare(c, b, ref, ext, tol > 0 ? 2 + tw.painted : 0, "after a section"); }
  if (tw.painted) c.nontrivial();
  g_object_unref(b);
}
FACET(gegl_supplied, 500, 25000, "the same on a buffer supplied by the application (native layout, any extent, existing content): content preserved, pixels identical, the extent grows by what is painted and nothing else") { supplied(c, true); }
FACET(gegl_foreign, 400, 20000, "the same on supplied buffers of other pixel formats and tile sizes (exact for the formats that can hold 15 bit values, small tolerance for u16)") { supplied(c, false); }
FACET(gegl_pick, 400, 20000, "picking colours from supplied buffers of other pixel formats and tile sizes holding arbitrary floating point colours: the buffer stays bit-identical; non-trivial: always") {
  gegl_once(); GeglSurf g; GeglRectangle ext = {(int)c.near(-100, 100, 0), (int)c.near(-100, 100, 0), (int)c.range(1, 200), (int)c.range(1, 200)};
  static const char *fmts[] = {"R'aG'aB'aA float", "RaGaBaA float", "RGBA float", "R'G'B'A float", "R'G'B'A u8", "R'aG'aB'aA u16"}; const Babl *fmt = babl_format(fmts[c.below(6)]); int tw_ = c.pick({64, 128, 100}), th_ = c.chance(1, 2) ? tw_ : c.pick({64, 128, 32, 100});
  GeglBuffer *b = GEGL_BUFFER(g_object_new(GEGL_TYPE_BUFFER, "x", ext.x, "y", ext.y, "width", ext.width, "height", ext.height, "format", fmt, "tile-width", tw_, "tile-height", th_, NULL));
  c.log("buffer (%d,%d %dx%d) tiles of %dx%d, format %s", ext.x, ext.y, ext.width, ext.height, tw_, th_, babl_get_name(fmt));
  std::vector<float> f(ext.width * ext.height * 4); u64 h = c.below(1000); for (size_t i = 0; i < f.size(); i++) f[i] = splitmix(h) % 100003 / 100003.0f; gegl_buffer_set(b, &ext, 0, babl_format("R'G'B'A float"), f.data(), GEGL_AUTO_ROWSTRIDE);
  int bpp = babl_format_get_bytes_per_pixel(fmt); std::vector<uint8_t> u(ext.width * ext.height * bpp), v(u.size()); gegl_buffer_get(b, &ext, 1, fmt, u.data(), GEGL_AUTO_ROWSTRIDE, GEGL_ABYSS_NONE);
  mypaint_gegl_tiled_surface_set_buffer(g.g, b); MyPaintSurface *s = &g.t()->parent; c.nontrivial();
  do { float x = ext.x + c.real(0, ext.width, 1), y = ext.y + c.real(0, ext.height, 1), r = c.real(1, 50, 5), q[4]; float paint = c.pick({-1.0f, 0.0f, 1.0f}); c.log("pick (%g,%g) radius %g paint %g", x, y, r, paint); mypaint_surface_get_color(s, x, y, r, q, q + 1, q + 2, q + 3, paint); } while (c.more(2));
  gegl_buffer_get(b, &ext, 1, fmt, v.data(), GEGL_AUTO_ROWSTRIDE, GEGL_ABYSS_NONE); if (const GeglRectangle *e = gegl_buffer_get_extent(b)) if (!gegl_rectangle_equal(e, &ext)) c.fail("extent", "looking at colours changed the buffer's extent to (%d,%d %dx%d)", e->x, e->y, e->width, e->height);
  size_t i = 0; while (i < u.size() && u[i] == v[i]) i++;
  const GeglRectangle *e = gegl_buffer_get_extent(b); bool ext_same = gegl_rectangle_equal(e, &ext);
  g_object_unref(b);
  if (i < u.size()) c.fail("changed", "picking changed byte %zu of pixel (%zu,%zu) from %d to %d", i % bpp, i / bpp % ext.width, i / bpp / ext.width, u[i], v[i]);
  if (!ext_same) c.fail("changed", "picking changed the extent");
}
PBT_MAIN("C14", "foreign buffers: formats that can represent 15 bit premultiplied values exactly, or a tolerance", "GEGL runs single threaded per worker process")
