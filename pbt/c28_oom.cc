// C28: running out of memory for bookkeeping degrades gracefully.
#include "refdab.hpp"
#include "symm.hpp"
#include <sanitizer/allocator_interface.h>
using namespace pbt;
namespace {
struct { bool armed = false; long n = 0, at = -1, len = 0, failed = 0; u64 mask = 0; bool use_mask = false; } F;
std::set<const volatile void *> *blocks; bool booking = false;
bool fails(const char *file) {
  if (!F.armed) return false;
  const char *b = strrchr(file, '/'); b = b ? b + 1 : file;
  if (!strcmp(b, "operationqueue.c") || !strcmp(b, "tilemap.c") || !strcmp(b, "fifo.c")) return false;   // the queue is not in scope
  long i = F.n++; bool f = F.use_mask ? (i < 64 && F.mask >> i & 1) : (i >= F.at && i < F.at + F.len); F.failed += f; return f;
}
void arm(Case &c, int span) { F = {}; F.armed = true; if (c.chance(1, 3)) { F.use_mask = true; F.mask = c.below(256); } else { F.at = c.below(span); F.len = c.pick({1, 2, 1000}); } }
void none() { F = {}; F.armed = true; }
long disarm() { F.armed = false; return F.failed; }
void on_malloc(const volatile void *p, size_t) { if (booking && p) { booking = false; blocks->insert(p); booking = true; } }
void on_free(const volatile void *p) { if (booking && p) { booking = false; blocks->erase(p); booking = true; } }
void book() { static bool in = false; if (!in) { in = true; blocks = new std::set<const volatile void *>; __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free); } booking = false; blocks->clear(); booking = true; }
long booked() { booking = false; return blocks->size(); }
}
extern "C" {
void *pbt_malloc(size_t n, const char *file) { return fails(file) ? nullptr : malloc(n); }
void *pbt_calloc(size_t m, size_t n, const char *file) { return fails(file) ? nullptr : calloc(m, n); }
void *pbt_realloc(void *p, size_t n, const char *file) { return fails(file) ? nullptr : realloc(p, n); }
}
static Dab odab(Case &c, double reach) {
  Dab d = plain_dab(0, 0, 5); d.radius = c.real(3.5, 14, 6); d.x = c.real(-reach, reach, 20); d.y = c.real(-reach, reach, 7); d.hardness = c.real(0.2, 0.7, 0.5);
  d.aspect = c.chance(1, 2) ? (float)c.real(1, 3, 2) : 1; d.angle = c.chance(1, 3) ? 0 : (float)c.real(-360, 360, 30); d.r = 1; d.g = 0.25; d.b = 0; d.opaque = c.real(0.2, 1, 1); return d;
}
static void compare(Case &c, TileSurf &a, TileSurf &b, double tol, const char *what) {
  std::set<TIdx> keys = a.written; keys.insert(b.written.begin(), b.written.end());
  for (auto &k : keys) { Tile &p = a.tile(k.first, k.second), &q = b.tile(k.first, k.second);
    for (int i = 0; i < TILE_WORDS; i++) if (fabs((double)p[i] - q[i]) > tol) c.fail("picture", "pixel (%d,%d) channel %d is %d, %s gives %d", k.first * 64 + i / 4 % TS, k.second * 64 + i / 4 / TS, i % 4, p[i], what, q[i]); }
}
static bool same(TileSurf &a, TileSurf &b, double tol) {
  std::set<TIdx> keys = a.written; keys.insert(b.written.begin(), b.written.end());
  for (auto &k : keys) { Tile &p = a.tile(k.first, k.second), &q = b.tile(k.first, k.second); for (int i = 0; i < TILE_WORDS; i++) if (fabs((double)p[i] - q[i]) > tol) return false; }
  return true;
}
// full: the mirrored picture; plain: only the dabs themselves. Every section starts from an empty canvas.
static void sections(Case &c, TileSurf &a, bool fixed_symm_fail, int maxlines, double reach, int n) {
  SymmModel m; int failures = 0, recovered = 0; bool last_failed = fixed_symm_fail; Symm prev;
  for (int k = 0; k < n; k++) {
    TileSurf full, plain; full.direct = plain.direct = true; a.tiles.clear(); a.written.clear();
    if (c.chance(2, 3)) { Symm y = gen_symm(c, maxlines, reach / 2); if (k && c.chance(1, 4)) y = m.current; else if (k && last_failed && c.chance(1, 3)) y = prev; else if (maxlines > 9 && c.chance(2, 3)) { y.active = true; y.type = MYPAINT_SYMMETRY_TYPE_ROTATIONAL + c.below(2); y.lines = std::min<long>(maxlines, 4 + 11 * k + c.below(14)); } apply(&a.t, y); m.set(y); c.log("%s", str(y).c_str()); }
    bool want = c.chance(2, 3); if (want) arm(c, 3); else none(); if (!last_failed) prev = m.current; a.begin(); m.begin(); long f = disarm(); c.log("begin, %ld allocation(s) failed", f); full.begin(); plain.begin();
    failures += f > 0; int drawn = 0; size_t mirrored = 0;
    for (int j = 1 + c.below(4); j > 0; j--) {
      if (c.chance(1, 10)) { Symm y = gen_symm(c, maxlines, reach / 2); y.active = c.chance(1, 2); apply(&a.t, y); m.set(y); c.log("  %s", str(y).c_str()); }
      Dab d = odab(c, reach); c.log("  %s", str(d).c_str()); int r = put(a.iface(), d); put(plain.iface(), d); int q = 0;
      auto im = images(m.current, d.x, d.y, d.angle); mirrored = std::max(mirrored, im.size()); for (auto &i : im) { Dab e = d; e.x = i.x; e.y = i.y; e.angle = fmod(i.angle, 360); q |= put(full.iface(), e); drawn++; }
      if (!!r != !!q) c.fail("result", "the dab reported %d", r);
    }
    int offered = c.chance(1, 2) ? 2 * maxlines + 8 : 1 + c.below(5); std::vector<MyPaintRectangle> buf(offered); MyPaintRectangles roi = {offered, buf.data()}; a.end_(&roi); full.end_(); plain.end_(); a.balanced("end"); c.checkpoint();
    double tol = 110 + 3 * drawn;
    if (!f) { compare(c, a, full, tol, last_failed ? "with memory available again, mirrored painting" : "mirrored painting"); if (last_failed && mirrored > 1) recovered++; }
    else if (!same(a, full, tol)) compare(c, a, plain, tol, "painting without mirrors (memory was short)");
    last_failed = f > 0;
    if (roi.num_rectangles > offered) c.fail("count", "%d rectangles, %d offered", roi.num_rectangles, offered);
    for (auto &t : a.written) { Tile &q = a.tile(t.first, t.second); for (int p = 0; p < TS * TS; p++) if (q[p * 4] | q[p * 4 + 1] | q[p * 4 + 2] | q[p * 4 + 3]) {
      long x = t.first * 64L + p % TS, y = t.second * 64L + p / TS; bool in = false; for (int i = 0; i < roi.num_rectangles && !in; i++) in = x >= buf[i].x && y >= buf[i].y && x < buf[i].x + buf[i].width && y < buf[i].y + buf[i].height;
      if (!in) c.fail("uncovered", "pixel (%ld,%ld) changed but lies in none of the %d reported rectangles (%ld allocations failed in this section)", x, y, roi.num_rectangles, f); } }
  }
  if (failures) c.label("failed"); if (recovered) { c.nontrivial(); c.label("recovered"); }
}
FACET(symmetry, 3000, 150000, "2..8 sections under changing symmetry (2..40 lines), allocations at section start failing at random: the picture is the fully mirrored one when nothing failed, else that or the unmirrored one; rectangles cover every change; non-trivial: mirrored painting resumed after a failure") {
  TileSurf a; a.direct = true; a.c = &c; sections(c, a, false, c.chance(1, 6) ? 9 : 70, 120, 2 + c.below(7));
}
FACET(lines, 500, 20000, "the same with up to 120 lines (240 images)") { TileSurf a; a.direct = true; a.c = &c; sections(c, a, false, 120, 80, 2 + c.below(4)); }
FACET(start, 2000, 60000, "allocations failing while a custom surface is initialised; then used as in facet symmetry") {
  struct Late : TileSurf {}; std::unique_ptr<TileSurf> a; arm(c, 3); a.reset(new TileSurf); long f = disarm(); c.log("initialised, %ld failed", f); a->direct = true; a->c = &c; sections(c, *a, f > 0, 9, 100, 1 + c.below(4)); if (f) c.nontrivial();
}
FACET(brush, 3000, 150000, "constructing a brush while any subset of its allocations fails: no brush and nothing left allocated, or (nothing failed) a working brush; non-trivial: something failed") {
  int k = c.chance(1, 2) ? 0 : c.near(-1, 300, 3); if (c.chance(1, 8)) none(); else arm(c, MYPAINT_BRUSH_SETTINGS_COUNT * 2 + 3);
  book(); MyPaintBrush *b = k ? mypaint_brush_new_with_buckets(k) : mypaint_brush_new(); long f = disarm(), left = booked(); c.log("%d buckets, allocations %ld.. (%ld) fail: %ld failed, %s", k, F.at, F.len, f, b ? "brush" : "no brush");
  if (!b) { if (!f) c.fail("new", "no brush although no allocation failed"); if (left) c.fail("leak", "%ld blocks left of a brush that could not be made", left); c.nontrivial(); return; }
  Brush h; (void)h; mypaint_brush_from_defaults(b); RecSurf s; mypaint_brush_reset(b); stroke(b, s.iface(), {10, 10, 0.5, 0, 0, 0.01, 1, 0, 0, 0}); for (int i = 0; i < 5; i++) stroke(b, s.iface(), {10.f + 5 * i, 10, 0.5, 0, 0, 0.05, 1, 0, 0, 0});
  if (k > 0 && !mypaint_brush_set_smudge_bucket_state(b, k - 1, 1, 1, 1, 1, 1, 1, 1, 1, 1)) c.fail("bucket", "bucket %d cannot be set", k - 1);
  if (s.dabs.empty()) c.fail("works", "the brush does not paint"); mypaint_brush_unref(b); if (f) c.nontrivial();
}
FACET(fixed, 3000, 100000, "constructing a fixed surface while allocations fail: no surface and nothing left, or a working one; non-trivial: something failed") {
  int w = 1 + c.below(300), h = 1 + c.below(200); if (c.chance(1, 8)) none(); else arm(c, 5);
  book(); MyPaintFixedTiledSurface *f = mypaint_fixed_tiled_surface_new(w, h); long n = disarm(), left = booked(); c.log("%dx%d: %ld failed, %s", w, h, n, f ? "surface" : "no surface"); if (n) c.nontrivial();
  if (!f) { if (!n) c.fail("new", "no surface although no allocation failed"); if (left) c.fail("leak", "%ld blocks left of a surface that could not be made", left); return; }
  MyPaintSurface *s = mypaint_fixed_tiled_surface_interface(f); mypaint_tiled_surface_set_symmetry_state((MyPaintTiledSurface *)f, true, w / 2.0, h / 2.0, 0, (MyPaintSymmetryType)c.below(5), 2 + c.below(12));
  bool again = c.chance(1, 2); if (again) arm(c, 3); mypaint_surface_begin_atomic(s); disarm(); Dab d = plain_dab(w / 2.0, h / 2.0, 8); d.r = 1; d.g = d.b = 0; if (!put(s, d)) c.fail("works", "no dab"); MyPaintRectangle r[8]; MyPaintRectangles roi = {8, r}; mypaint_surface_end_atomic(s, &roi); float q[4]; mypaint_surface_get_color(s, w / 2.0, h / 2.0, 2, q, q + 1, q + 2, q + 3, 0);
  if (!(q[0] > 0.5 && q[1] < 0.9)) c.fail("works", "the dab did not arrive: %g %g %g %g", q[0], q[1], q[2], q[3]); if (!roi.num_rectangles) c.fail("works", "no rectangles"); mypaint_surface_unref(s);
}
FACET(small, 3000, 50000, "mappings, rectangle copies and symmetry data with failing allocations: nothing is returned or the object works; nothing is left") {
  int n = 1 + c.below(30); book(); arm(c, 3); MyPaintMapping *m = mypaint_mapping_new(n); long f = disarm(); if (m) { if (c.chance(1, 2)) mypaint_mapping_set_base_value(m, 2); mypaint_mapping_free(m); } long left = booked(); if (!m && !f) c.fail("new", "no mapping"); if (left) c.fail("leak", "%ld blocks left of a mapping", left); if (f) c.nontrivial();
  { MyPaintRectangle r = {(int)c.range(-1000, 1000), (int)c.range(-1000, 1000), (int)c.below(500), (int)c.below(500)}; book(); arm(c, 2); MyPaintRectangle *q = mypaint_rectangle_copy(&r); f = disarm(); if (!q && !f) c.fail("new", "no copy of a rectangle"); if (q && memcmp(q, &r, sizeof r)) c.fail("works", "the copy of a rectangle differs"); free(q); left = booked(); if (left) c.fail("leak", "%ld blocks left of a rectangle", left); if (f) c.nontrivial(); c.checkpoint(); }
  book(); arm(c, 2); MyPaintSymmetryData d = mypaint_default_symmetry_data();
  for (int k = c.below(5); k > 0; k--) { mypaint_symmetry_set_pending(&d, true, 1, 2, 3, (MyPaintSymmetryType)c.below(5), c.near(0, 90, 4)); if (c.chance(1, 2)) arm(c, 2); else disarm(); mypaint_update_symmetry_state(&d); } disarm(); mypaint_symmetry_data_destroy(&d); left = booked(); if (left) c.fail("leak", "%ld blocks left of symmetry data", left);
}
PBT_MAIN("C28", "the operation queue's own allocations succeed", "an allocation failing at section start may suspend mirroring for that section; the json library's allocations succeed")
