// C31: a saved picture shows the requested part of the surface.
#include "refdab.hpp"
#include <gegl.h>
extern "C" {
#include "mypaint-gegl-surface.h"
}
using namespace pbt;
static void gegl_once() { static bool done; if (!done) { done = true; g_setenv("GEGL_SWAP", "RAM", TRUE); gegl_init(nullptr, nullptr); } }
struct Surf { MyPaintGeglTiledSurface *g; Surf() { g = mypaint_gegl_tiled_surface_new(); } ~Surf() { mypaint_surface_unref(s()); } MyPaintSurface *s() { return mypaint_gegl_tiled_surface_interface(g); } GeglBuffer *buf() { return mypaint_gegl_tiled_surface_get_buffer(g); } };
static const Babl *native() { return babl_format_new(babl_model("R'aG'aB'aA"), babl_type("u15"), babl_component("R'a"), babl_component("G'a"), babl_component("B'a"), babl_component("A"), NULL); }
typedef std::vector<float> Px;
static Px read(GeglBuffer *b, const GeglRectangle &r) { Px p((size_t)r.width * r.height * 4); gegl_buffer_get(b, &r, 1, babl_format("R'G'B'A float"), p.data(), GEGL_AUTO_ROWSTRIDE, GEGL_ABYSS_NONE); return p; }
struct Png { int w = 0, h = 0; Px p; };
static Png load(Case &c, const char *path) {
  Png r; GeglBuffer *b = nullptr; GeglNode *g = gegl_node_new(), *l = gegl_node_new_child(g, "operation", "gegl:png-load", "path", path, NULL), *k = gegl_node_new_child(g, "operation", "gegl:buffer-sink", "buffer", &b, NULL);
  gegl_node_link(l, k); gegl_node_process(k); if (b) { GeglRectangle e = *gegl_buffer_get_extent(b); r.w = e.width; r.h = e.height; r.p = read(b, e); g_object_unref(b); } g_object_unref(g); return r;
}
static void run(Case &c, int source) {
  gegl_once(); Surf f; MyPaintSurface *s = f.s(); GeglBuffer *own = nullptr; char path[128];
  if (source) {
    static const char *fmts[] = {"", "R'aG'aB'aA float", "RGBA float", "R'G'B'A u8", "R'aG'aB'aA u16"}; int k = c.below(5), ts = k ? c.pick({64, 100, 128}) : 64; const Babl *fmt = k ? babl_format(fmts[k]) : native();
    GeglRectangle e = {(int)c.near(-100, 100, 0), (int)c.near(-100, 100, 0), (int)c.range(1, 150), (int)c.range(1, 150)};
    own = GEGL_BUFFER(g_object_new(GEGL_TYPE_BUFFER, "x", e.x, "y", e.y, "width", e.width, "height", e.height, "format", fmt, "tile-width", ts, "tile-height", ts, NULL));
    c.log("supplied buffer (%d,%d %dx%d), format %s", e.x, e.y, e.width, e.height, k ? fmts[k] : "u15"); Px p((size_t)e.width * e.height * 4); u64 h = c.below(1000); for (auto &v : p) v = (splitmix(h) >> 40) % 1001 / 1000.0f; gegl_buffer_set(own, &e, 0, babl_format("R'G'B'A float"), p.data(), GEGL_AUTO_ROWSTRIDE); mypaint_gegl_tiled_surface_set_buffer(f.g, own);
  }
  struct Drop { GeglBuffer *&b; ~Drop() { if (b) g_object_unref(b); } } drop{own};
  int n = 1 + c.below(4), areas = 0; bool inside = false;
  for (int i = 0; i < n; i++) {
    if (!i || c.chance(1, 2)) { mypaint_surface_begin_atomic(s); for (int k = c.below(6) + (source ? 0 : 1); k > 0; k--) { Dab d = gen_dab(c, 100); d.x = c.real(-80, 150, 30); d.y = c.real(-80, 150, 30); if (d.radius > 40) d.radius = 12; c.log("%s", str(d).c_str()); put(s, d); } mypaint_surface_end_atomic(s, nullptr); }
    GeglRectangle e = *gegl_buffer_get_extent(f.buf()); if (e.width < 1 || e.height < 1) { if (source) c.fail("extent", "the buffer lost its extent"); continue; }
    bool whole = c.chance(1, 3); int w = c.pick({-1, 0}), h = c.pick({-1, 0}); int x = e.x + c.near(-60, e.width + 20, 0), y = e.y + c.near(-60, e.height + 20, 0); if (!whole) { w = 1 + c.below(120); h = 1 + c.below(120); }
    GeglRectangle want = {x, y, w, h}; if (whole) want = e; if (!whole) areas++;
    Px before = read(f.buf(), want), all = read(f.buf(), e); guint refs = G_OBJECT(f.buf())->ref_count; GeglBuffer *b0 = f.buf();
    snprintf(path, sizeof path, c.pick({"save-%d.png", "a picture %d.png", "./save-%d-\xc3\xa4.png"}), (int)getpid()); unlink(path); bool over = c.chance(1, 3); if (over) { FILE *o = fopen(path, "w"); for (int k = 0; k < 9999; k++) fputs("not a picture ", o); fclose(o); }
    c.log("save (%d,%d %dx%d) of (%d,%d %dx%d) to %s%s", x, y, w, h, e.x, e.y, e.width, e.height, path, over ? " (overwriting)" : ""); mypaint_surface_save_png(s, path, x, y, w, h);
    if (access(path, R_OK)) c.fail("file", "no file was written"); Png p = load(c, path); unlink(path);
    if (p.w != want.width || p.h != want.height) c.fail("size", "the picture is %dx%d instead of %dx%d", p.w, p.h, want.width, want.height);
    for (size_t k = 0; k < p.p.size(); k += 4) { float a = before[k + 3]; double ta = 2.5 / 65535, tc = a > 1e-4 ? 2.5 / 65535 + 3e-6 / a : 2; inside |= a > 0.1;
      for (int q = 0; q < 4; q++) { double v = std::min(1.0f, std::max(0.0f, before[k + q])), d = fabs(p.p[k + q] - v), tol = q == 3 ? ta : tc; c.stat(d / tol); if (!(d <= tol)) c.fail("pixel", "pixel (%zu,%zu) channel %d of the picture is %.6f, on the surface it is %.6f (alpha %.6f)", k / 4 % p.w, k / 4 / p.w, q, p.p[k + q], before[k + q], a); } }
    GeglRectangle e2 = *gegl_buffer_get_extent(f.buf()); if (f.buf() != b0 || !gegl_rectangle_equal(&e, &e2)) c.fail("changed", "saving changed the buffer or its extent"); if (read(f.buf(), e) != all) c.fail("changed", "saving changed pixels of the surface");
    if (G_OBJECT(f.buf())->ref_count != refs) c.fail("refs", "saving changed the buffer's reference count from %u to %u", refs, G_OBJECT(f.buf())->ref_count);
  }
  if (areas && inside) c.nontrivial();
}
FACET(own, 400, 10000, "pictures painted on a surface with its own buffer, saved as a whole (size <= 0) or as any area (also beyond the painted part, over existing files), read back with an independent reader: size and every pixel are those of the requested area (transparent outside), the surface is unchanged, nothing keeps a reference; non-trivial: an area was saved and something visible is on it") { run(c, 0); }
FACET(supplied, 400, 10000, "the same on buffers supplied by the application, of several formats and tile sizes") { run(c, 1); }
FACET(without, 200, 5000, "surfaces without a picture writer (fixed-size, custom): saving does nothing, writes no file and leaves the surface as it was; non-trivial: always") {
  c.nontrivial(); char path[64]; snprintf(path, sizeof path, "none-%d.png", (int)getpid()); unlink(path); RecSurf r;
  // memory is not clean in a program that has been running for a while
  for (int k = 0; k < 8; k++) { void *m[4]; for (auto &q : m) { q = malloc(200 + 60 * k); memset(q, 0xA5, 200 + 60 * k); } for (auto &q : m) free(q); }
  static char raw[sizeof(MyPaintTiledSurface)]; memset(raw, 0xA5, sizeof raw); MyPaintTiledSurface *t = (MyPaintTiledSurface *)raw; mypaint_tiled_surface_init(t, [](MyPaintTiledSurface *, MyPaintTileRequest *q) { abort(); }, [](MyPaintTiledSurface *, MyPaintTileRequest *q) {});
  MyPaintFixedTiledSurface *f = mypaint_fixed_tiled_surface_new(1 + c.below(100), 1 + c.below(100));
  MyPaintSurface *s = c.pick({&t->parent, mypaint_fixed_tiled_surface_interface(f), r.iface()}); mypaint_surface_save_png(s, path, c.near(-5, 50, 0), 0, c.near(-1, 50, 10), 10); bool wrote = !access(path, F_OK); unlink(path); mypaint_tiled_surface_destroy(t); mypaint_surface_unref(mypaint_fixed_tiled_surface_interface(f));
  if (wrote) c.fail("file", "a surface without a writer wrote a file"); if (!r.dabs.empty()) c.fail("changed", "saving painted");
}
PBT_MAIN("C31", "GEGL's own png reader", "16 bit pictures: tolerance of 2.5/65535")
