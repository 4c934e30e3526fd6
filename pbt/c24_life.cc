// C24: objects have a clean life cycle.
#include "brushgen.hpp"
#include <sanitizer/allocator_interface.h>
#include <sanitizer/asan_interface.h>
#include <fstream>
#include <sstream>
using namespace pbt;
// Every block the library allocates is booked on the object that is being worked on.
namespace {
enum { SLOTS = 1 << 18 };
struct Slot { const volatile void *p; int owner; } slots[SLOTS];
int owner = 0; long live[64]; bool installed = false;
size_t at(const volatile void *p) { return ((uintptr_t)p >> 4) * 0x9E3779B97F4A7C15ull >> 46; }
const volatile void *const GONE = (void *)1;
void on_malloc(const volatile void *p, size_t) { if (!owner || !p) return; for (size_t i = at(p), k = 0; k < SLOTS; k++, i = (i + 1) % SLOTS) if (!slots[i].p || slots[i].p == GONE) { slots[i] = {p, owner}; live[owner]++; return; } }
void on_free(const volatile void *p) { if (!p) return; for (size_t i = at(p), k = 0; k < SLOTS; k++, i = (i + 1) % SLOTS) { if (!slots[i].p) return; if (slots[i].p == p) { slots[i].p = GONE; live[slots[i].owner]--; return; } } }
void track() { if (!installed) __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free); installed = true; memset(slots, 0, sizeof slots); memset(live, 0, sizeof live); owner = 0; }
struct In { int w; In(int o) : w(owner) { owner = o; } ~In() { owner = w; } };
// tile store without allocations of its own inside callbacks being booked
struct Obj { int kind = 0, id = 0, refs = 0; MyPaintBrush *b = nullptr; MyPaintSurface *s = nullptr; bool atomic = false; int destroyed = 0; void (*real)(MyPaintSurface *) = nullptr; };
struct Custom { MyPaintTiledSurface t; std::map<TIdx, Tile> *tiles; };
std::map<MyPaintSurface *, Obj *> where;
void destroyed(MyPaintSurface *s) { Obj *o; { In q(0); o = where.at(s); where.erase(s); o->destroyed++; } if (o->real) o->real(s); }
void cstart(MyPaintTiledSurface *ts, MyPaintTileRequest *r) { In q(0); Tile &t = (*((Custom *)ts)->tiles)[{r->tx, r->ty}]; if (t.empty()) t.resize(TILE_WORDS); r->buffer = t.data(); }
void cend(MyPaintTiledSurface *, MyPaintTileRequest *) {}
void cdestroy(MyPaintSurface *s) { Custom *q = (Custom *)s; mypaint_tiled_surface_destroy(&q->t); In z(0); delete q->tiles; free(q); }
const char *doc(Case &c) {
  In q(0); static std::vector<std::string> docs; static std::string hold;
  if (docs.empty()) { for (const char *f : {"impressionism.myb", "charcoal.myb", "modelling.myb", "bulk.myb"}) { std::ifstream i(std::string(BRUSH_DIR) + "/" + f); std::stringstream s; s << i.rdbuf(); if (i) docs.push_back(s.str()); }
    docs.push_back("{\"version\":3,\"settings\":{\"opaque\":{\"base_value\":0.7,\"inputs\":{\"pressure\":[[0,0],[1,0.5]],\"random\":[[0.0,0.1],[0.3,0.2],[1,1]]}},\"hardness\":{\"base_value\":0.3,\"inputs\":{}},\"smudge\":{\"base_value\":0.5}},\"group\":\"x\"}"); docs.push_back("{\"version\":2,\"settings\":{}}"); docs.push_back("[1,2,{\"a\":[]}]"); docs.push_back("{\"version\":3,\"settings\":{\"opaque\":{\"base_value\":1,\"inputs\":{\"nope\":[[0,0]],\"pressure\":[]}}}}"); docs.push_back(""); }
  hold = docs[c.below(docs.size())]; if (c.chance(1, 3)) { for (int k = c.below(4); k >= 0 && !hold.empty(); k--) switch (c.below(4)) { case 0: hold.resize(c.below(hold.size())); break; case 1: hold[c.below(hold.size())] = "{}[]\",:0x\n"[c.below(10)]; break; case 2: hold.erase(c.below(hold.size()), c.below(30)); break; default: hold.insert(c.below(hold.size()), hold.substr(c.below(hold.size()), c.below(60))); } } return hold.c_str();
}
}
#define LOG(...) do { In z_(0); c.log(__VA_ARGS__); } while (0)
FACET(history, 4000, 250000, "histories of creating, referencing, loading (valid, invalid, damaged brushes), painting with and releasing up to 6 brushes and surfaces (bundled and custom, in and out of atomic sections, with unflushed dabs, symmetry, colour picks), every reference dropped in the end: memory accesses are checked by AddressSanitizer, every block the library allocates is booked on its object and none survives it, destruction happens exactly with the last reference; non-trivial: >= 3 objects and a surface released with dabs pending or a failed load") {
  static bool warm = false; if (!warm) { warm = true; for (int i = 0; i < 8; i++) { Brush b(2); mypaint_brush_from_string(b, i % 2 ? "{\"version\":3,\"settings\":{\"opaque\":{\"base_value\":0.7,\"inputs\":{\"pressure\":[[0,0],[1,0.5]]}}}}" : "{ bad"); } printf("%s", ""); }
  track(); std::vector<std::unique_ptr<Obj>> obj, dead; int ids = 0; bool pending = false, failed = false; where.clear();
  auto release = [&](size_t i) {
    Obj &o = *obj[i]; LOG("unref %s %d (%d left)", o.kind ? "surface" : "brush", o.id, o.refs - 1); long before = live[o.id];
    { In q(o.id); if (o.kind) mypaint_surface_unref(o.s); else mypaint_brush_unref(o.b); } o.refs--;
    if (o.refs == 0) { if (live[o.id]) c.fail("leak", "%ld block(s) of %s %d are left after its last reference was dropped", live[o.id], o.kind ? "surface" : "brush", o.id); if (o.kind && o.destroyed != 1) c.fail("destroy", "surface %d was destroyed %d times with its last reference", o.id, o.destroyed); dead.push_back(std::move(obj[i])); obj.erase(obj.begin() + i); }
    else if (o.kind && o.destroyed) c.fail("destroy", "surface %d was destroyed with %d references left", o.id, o.refs); else if (live[o.id] != before) c.fail("destroy", "dropping a reference to %s %d changed its memory although %d are left", o.kind ? "surface" : "brush", o.id, o.refs);
  };
  auto pick = [&](int kind) -> Obj * { std::vector<Obj *> v; for (auto &o : obj) if (o->kind == kind) v.push_back(o.get()); return v.empty() ? nullptr : v[c.below(v.size())]; };
  int n = 5 + c.below(40);
  for (int i = 0; i < n; i++) {
    if (obj.size() < 2 || (obj.size() < 6 && ids < 40 && c.chance(1, 8))) {
      std::unique_ptr<Obj> o(new Obj); o->id = ++ids; o->refs = 1; o->kind = c.below(2); if (obj.size() == 1) o->kind = !obj[0]->kind; In q(o->id);
      if (!o->kind) { int k = c.chance(1, 2) ? 0 : c.near(-2, 300, 3); LOG("new brush %d with %d buckets", o->id, k); o->b = k ? mypaint_brush_new_with_buckets(k) : mypaint_brush_new(); if (!o->b) c.fail("new", "no brush"); }
      else if (c.chance(1, 2)) { int w = 1 + c.below(200), h = 1 + c.below(200); LOG("new fixed surface %d, %dx%d", o->id, w, h); MyPaintFixedTiledSurface *f = mypaint_fixed_tiled_surface_new(w, h); if (!f) c.fail("new", "no surface"); o->s = mypaint_fixed_tiled_surface_interface(f); }
      else { LOG("new custom surface %d", o->id); Custom *k; { In z(0); k = (Custom *)malloc(sizeof(Custom)); k->tiles = new std::map<TIdx, Tile>; } mypaint_tiled_surface_init(&k->t, cstart, cend); k->t.parent.destroy = cdestroy; o->s = &k->t.parent; }
      if (o->kind) { In z(0); o->real = o->s->destroy; o->s->destroy = destroyed; where[o->s] = o.get(); } In z(0); obj.push_back(std::move(o)); continue;
    }
    if (c.chance(1, 8)) { release(c.below(obj.size())); continue; }
    if (c.chance(1, 8)) { Obj &o = *obj[c.below(obj.size())]; LOG("ref %s %d", o.kind ? "surface" : "brush", o.id); if (o.kind) mypaint_surface_ref(o.s); else mypaint_brush_ref(o.b); o.refs++; continue; }
    Obj *b = pick(0), *s = pick(1);
    if (b && c.chance(1, 2)) {
      In q(b->id); switch (c.below(6)) {
        case 0: case 1: { const char *d = doc(c); LOG("load into brush %d: %.300s", b->id, d); bool r = mypaint_brush_from_string(b->b, d); failed |= !r; break; }
        case 2: LOG("defaults %d", b->id); mypaint_brush_from_defaults(b->b); break;
        case 3: { int st = c.below(MYPAINT_BRUSH_SETTINGS_COUNT), in = c.below(MYPAINT_BRUSH_INPUTS_COUNT), k = c.pick({0, 2, 5, 64}); LOG("curve of %d points on %s of %d", k, sname(st), b->id); mypaint_brush_set_mapping_n(b->b, (MyPaintBrushSetting)st, (MyPaintBrushInput)in, k); for (int p = 0; p < k; p++) mypaint_brush_set_mapping_point(b->b, (MyPaintBrushSetting)st, (MyPaintBrushInput)in, p, p, 0); break; }
        case 4: LOG("reset %d", b->id); mypaint_brush_reset(b->b); mypaint_brush_new_stroke(b->b); break;
        default: { int k = c.near(-1, 300, 0); LOG("bucket %d of %d", k, b->id); mypaint_brush_set_smudge_bucket_state(b->b, k, 1, 1, 1, 1, 1, 1, 1, 1, 1); }
      }
    } else if (s) {
      In q(s->id); MyPaintTiledSurface *t = (MyPaintTiledSurface *)s->s; float x = c.real(-100, 300, 30), y = c.real(-100, 300, 30);
      switch (c.below(7)) {
        case 0: LOG("begin %d", s->id); mypaint_surface_begin_atomic(s->s); s->atomic = true; break;
        case 1: { int k = c.near(-1, 40, 1); MyPaintRectangle rects[41]; MyPaintRectangles roi = {k, rects}; LOG("end %d with %d rectangles", s->id, k); mypaint_surface_end_atomic(s->s, k > 0 ? &roi : nullptr); s->atomic = false; break; }
        case 2: case 3: { Dab d = {x, y, (float)c.real(0.1, 60, 8), 1, 0.5, 0.2, 1, 0.8, 0, 1, (float)c.pick({1.0, 3.0}), 30, 0, 0, 0, 0.1, (float)c.below(2)}; LOG("surface %d %s", s->id, str(d).c_str()); if (!s->atomic && c.chance(1, 2)) mypaint_surface_begin_atomic(s->s), s->atomic = true; pending |= put(s->s, d) != 0; break; }
        case 4: { float p[4]; LOG("pick on %d", s->id); mypaint_surface_get_color(s->s, x, y, c.real(0.1, 50, 5), p, p + 1, p + 2, p + 3, c.pick({-1.0f, 0.0f, 1.0f})); break; }
        case 5: { int ty = c.below(5), l = c.near(-1, 40, 6); bool on = !c.chance(1, 4); LOG("symmetry of %d: type %d lines %d on %d", s->id, ty, l, on); mypaint_tiled_surface_set_symmetry_state(t, on, x, y, c.real(-180, 180, 0), (MyPaintSymmetryType)ty, l); break; }
        default: if (b) { float bx = x; mypaint_brush_set_base_value(b->b, MYPAINT_BRUSH_SETTING_RADIUS_LOGARITHMIC, 2); mypaint_brush_set_base_value(b->b, MYPAINT_BRUSH_SETTING_DABS_PER_ACTUAL_RADIUS, 2); for (int r : {SET(RADIUS_LOGARITHMIC), SET(DABS_PER_ACTUAL_RADIUS), SET(DABS_PER_BASIC_RADIUS), SET(DABS_PER_SECOND), SET(ELLIPTICAL_DAB_RATIO), SET(RADIUS_BY_RANDOM), SET(OFFSET_BY_RANDOM), SET(OFFSET_MULTIPLIER), SET(OFFSET_X), SET(OFFSET_Y), SET(OFFSET_BY_SPEED)}) { for (int in = 0; in < MYPAINT_BRUSH_INPUTS_COUNT; in++) mypaint_brush_set_mapping_n(b->b, (MyPaintBrushSetting)r, (MyPaintBrushInput)in, 0); if (r >= SET(RADIUS_BY_RANDOM) || r == SET(OFFSET_BY_SPEED)) mypaint_brush_set_base_value(b->b, (MyPaintBrushSetting)r, 0); } mypaint_brush_set_base_value(b->b, MYPAINT_BRUSH_SETTING_OFFSET_MULTIPLIER, 0); mypaint_brush_set_base_value(b->b, MYPAINT_BRUSH_SETTING_ELLIPTICAL_DAB_RATIO, 1); mypaint_brush_set_base_value(b->b, MYPAINT_BRUSH_SETTING_DABS_PER_BASIC_RADIUS, 0); mypaint_brush_set_base_value(b->b, MYPAINT_BRUSH_SETTING_DABS_PER_SECOND, 10);
          LOG("brush %d paints on %d at (%g,%g)", b->id, s->id, x, y); for (int k = 0; k < 4; k++) { stroke(b->b, s->s, Event{bx, y, 0.7f, 0, 0, 0.05, 1, 0, 0, 0}); bx += 12; } pending |= s->atomic; }
      }
    }
  }
  int objects = ids; while (!obj.empty()) release(c.below(obj.size())); for (int k = 1; k <= ids; k++) if (live[k]) c.fail("leak", "%ld block(s) booked on object %d are left in the end", live[k], k);
  if (objects >= 3 && (pending || failed)) c.nontrivial();
}
FACET(small, 3000, 100000, "helper objects: mappings with any number of inputs, rectangle copies, symmetry data, tile requests handed through the surface, the fixed surface's accessors: nothing is left allocated; non-trivial: always") {
  c.nontrivial(); track(); { In q(1);
    int n = 1 + c.below(30); MyPaintMapping *m = mypaint_mapping_new(n); for (int k = c.below(6); k > 0; k--) { int in = c.below(n), p = c.pick({0, 2, 3, 64}); mypaint_mapping_set_n(m, in, p); for (int j = 0; j < p; j++) mypaint_mapping_set_point(m, in, j, j, j); } std::vector<float> *d; { In z(0); d = new std::vector<float>(n, 0.5f); } mypaint_mapping_calculate(m, d->data()); { In z(0); delete d; } mypaint_mapping_free(m);
    if (live[1]) c.fail("leak", "%ld block(s) left of a mapping", live[1]);
    MyPaintRectangle r = {1, 2, 3, 4}, *k = mypaint_rectangle_copy(&r); if (!k || k == &r || memcmp(k, &r, sizeof r)) c.fail("copy", "rectangle copy differs"); free(k);
    MyPaintSymmetryData s = mypaint_default_symmetry_data(); for (int j = c.below(5); j > 0; j--) { mypaint_symmetry_set_pending(&s, true, 1, 2, 3, (MyPaintSymmetryType)c.below(5), c.near(0, 50, 4)); if (c.chance(1, 2)) mypaint_update_symmetry_state(&s); } mypaint_symmetry_data_destroy(&s);
    if (live[1]) c.fail("leak", "%ld block(s) left of symmetry data", live[1]);
    int w = 1 + c.below(300), h = 1 + c.below(300); MyPaintFixedTiledSurface *f = mypaint_fixed_tiled_surface_new(w, h); if (mypaint_fixed_tiled_surface_get_width(f) != w || mypaint_fixed_tiled_surface_get_height(f) != h) c.fail("size", "size %dx%d reported as %dx%d", w, h, mypaint_fixed_tiled_surface_get_width(f), mypaint_fixed_tiled_surface_get_height(f));
    for (int j = c.below(4); j > 0; j--) { MyPaintTileRequest q; mypaint_tile_request_init(&q, 0, c.near(-2, 6, 0), c.near(-2, 6, 0), c.below(2)); mypaint_tiled_surface_tile_request_start((MyPaintTiledSurface *)f, &q); if (q.buffer && !q.readonly) memset(q.buffer, 1, TILE_WORDS * 2); mypaint_tiled_surface_tile_request_end((MyPaintTiledSurface *)f, &q); }
    mypaint_surface_unref(mypaint_fixed_tiled_surface_interface(f)); }
  if (live[1]) c.fail("leak", "%ld block(s) left of a fixed surface", live[1]);
}
PBT_MAIN("C24", "releases never exceed references taken", "single-threaded use")
