// C30: the objects behave as boxed values (what language bindings, properties and signals rely on).
#include "surfaces.hpp"
#include <sanitizer/allocator_interface.h>
#include <gegl.h>
extern "C" {
#include "glib/mypaint-brush.h"
#include "mypaint-gegl-surface.h"
}
using namespace pbt;
namespace {
enum { SLOTS = 1 << 18 };
struct Slot { const volatile void *p; int owner; } slots[SLOTS];
int owner = 0; long live[64]; bool installed = false;
size_t at(const volatile void *p) { return ((uintptr_t)p >> 4) * 0x9E3779B97F4A7C15ull >> 46; }
const volatile void *const GONE = (void *)1;
void on_malloc(const volatile void *p, size_t) { if (!owner || !p) return; for (size_t i = at(p), k = 0; k < SLOTS; k++, i = (i + 1) % SLOTS) if (!slots[i].p || slots[i].p == GONE) { slots[i] = {p, owner}; live[owner]++; return; } }
void on_free(const volatile void *p) { if (!p) return; for (size_t i = at(p), k = 0; k < SLOTS; k++, i = (i + 1) % SLOTS) { if (!slots[i].p) return; if (slots[i].p == p) { slots[i].p = GONE; live[slots[i].owner]--; return; } } }
void track() { if (!installed) __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free); installed = true; memset(slots, 0, sizeof slots); memset(live, 0, sizeof live); owner = 0; }
struct In { int w; In(int o) : w(owner) { owner = o; } ~In() { owner = w; } };
enum Kind { BRUSH, FIXED, CUSTOM, GEGL, RECT, KINDS };
const char *kname(int k) { static const char *n[] = {"brush", "fixed surface", "custom surface", "GEGL surface", "rectangle"}; return n[k]; }
struct Ref { void *p = nullptr; bool in_value = false; GValue v = G_VALUE_INIT; MyPaintRectangle want; };
struct Obj { int kind, id; void *p; std::vector<std::unique_ptr<Ref>> refs; int destroyed = 0; void (*real)(MyPaintSurface *) = nullptr; float value = 0; int w = 0, h = 0; };
std::map<void *, Obj *> where;
void destroyed(MyPaintSurface *s) { Obj *o; { In q(0); o = where.at(s); where.erase(s); o->destroyed++; } if (o->real) o->real(s); }
struct Custom { MyPaintTiledSurface t; std::map<TIdx, Tile> *tiles; };
void cstart(MyPaintTiledSurface *ts, MyPaintTileRequest *r) { In q(0); Tile &t = (*((Custom *)ts)->tiles)[{r->tx, r->ty}]; if (t.empty()) t.resize(TILE_WORDS); r->buffer = t.data(); }
void cend(MyPaintTiledSurface *, MyPaintTileRequest *) {}
void cdestroy(MyPaintSurface *s) { Custom *q = (Custom *)s; mypaint_tiled_surface_destroy(&q->t); In z(0); delete q->tiles; free(q); }
void gegl_once() { static bool done; if (!done) { done = true; g_setenv("GEGL_SWAP", "RAM", TRUE); gegl_init(nullptr, nullptr); } }
// the types an object of a kind may be passed as
GType type_of(int kind, int i) { switch (kind) { case BRUSH: return mypaint_brush_get_type(); case RECT: return mypaint_rectangle_get_type(); case FIXED: return i % 2 ? mypaint_surface_get_type() : mypaint_fixed_tiled_surface_get_type(); case GEGL: return i % 2 ? mypaint_surface_get_type() : mypaint_gegl_tiled_surface_get_type(); default: return mypaint_surface_get_type(); } }
MyPaintSurface *surf(Obj &o) { return (MyPaintSurface *)o.p; }
bool is_surface(int k) { return k == FIXED || k == CUSTOM || k == GEGL; }
// what every holder of a reference relies on
void check(Case &c, Obj &o) {
  for (auto &r : o.refs) { void *p = r->in_value ? g_value_get_boxed(&r->v) : r->p;
    if (o.kind == RECT) { if (!p || memcmp(p, &r->want, sizeof r->want)) c.fail("rect", "a copy of rectangle %d no longer has its own value", o.id); }
    else if (p != o.p) c.fail("copy", "a copy of %s %d is not a reference to it (%s)", kname(o.kind), o.id, p ? "another pointer" : "NULL"); }
  for (size_t i = 0; o.kind == RECT && i < o.refs.size(); i++) for (size_t j = 0; j < i; j++) { void *p = o.refs[i]->in_value ? g_value_get_boxed(&o.refs[i]->v) : o.refs[i]->p, *q = o.refs[j]->in_value ? g_value_get_boxed(&o.refs[j]->v) : o.refs[j]->p; if (p == q) c.fail("rect", "two copies of rectangle %d share their memory", o.id); }
  if (o.destroyed) c.fail("destroy", "%s %d was destroyed with %zu references left", kname(o.kind), o.id, o.refs.size());
  if (o.kind == BRUSH && mypaint_brush_get_base_value((MyPaintBrush *)o.p, MYPAINT_BRUSH_SETTING_HARDNESS) != o.value) c.fail("value", "brush %d lost its settings", o.id);
  if (o.kind == FIXED && (mypaint_fixed_tiled_surface_get_width((MyPaintFixedTiledSurface *)o.p) != o.w || mypaint_fixed_tiled_surface_get_height((MyPaintFixedTiledSurface *)o.p) != o.h)) c.fail("value", "surface %d lost its size", o.id);
}
}
#define LOG(...) do { In z_(0); c.log(__VA_ARGS__); } while (0)
static void warm_up(bool gegl) {
  static bool warm; if (!warm) { warm = true; for (int k = 0; k < KINDS; k++) for (int i = 0; i < 2; i++) if (gegl || k != GEGL) { g_type_name(type_of(k, i)); GValue v = G_VALUE_INIT; g_value_init(&v, type_of(k, i)); g_value_unset(&v); }
    // whatever is set up once on first use is not booked on an object
    MyPaintSurface *s = mypaint_fixed_tiled_surface_interface(mypaint_fixed_tiled_surface_new(70, 70)); mypaint_surface_begin_atomic(s); put(s, Dab{30, 30, 8, 1, 0, 0, 1, 0.8, 0, 1, 1, 0, 0, 0, 0, 0, 0}); mypaint_surface_end_atomic(s, nullptr); mypaint_surface_unref(s);
    MyPaintRectangle m = {1, 2, 3, 4}; GValue v = G_VALUE_INIT, w = G_VALUE_INIT; g_value_init(&v, mypaint_rectangle_get_type()); g_value_init(&w, mypaint_rectangle_get_type()); g_value_set_boxed(&v, &m); g_value_copy(&v, &w); g_boxed_free(mypaint_rectangle_get_type(), g_value_dup_boxed(&v)); g_value_unset(&v); g_value_unset(&w); }
}
static void history(Case &c, bool gegl) {
  if (gegl) gegl_once(); warm_up(gegl);
  track(); where.clear(); std::vector<std::unique_ptr<Obj>> obj, dead; int ids = 0, copies = 0, values = 0;
  auto drop = [&](size_t oi, size_t ri, int how) {
    Obj &o = *obj[oi]; std::unique_ptr<Ref> r; { In z(0); r = std::move(o.refs[ri]); o.refs.erase(o.refs.begin() + ri); }
    { In q(o.id); if (r->in_value) { LOG("unset a value holding %s %d (%zu left)", kname(o.kind), o.id, o.refs.size()); g_value_unset(&r->v); }
      else if (how || o.kind == RECT) { LOG("g_boxed_free %s %d (%zu left)", kname(o.kind), o.id, o.refs.size()); g_boxed_free(type_of(o.kind, how), r->p); }
      else { LOG("unref %s %d (%zu left)", kname(o.kind), o.id, o.refs.size()); if (o.kind == BRUSH) mypaint_brush_unref((MyPaintBrush *)r->p); else mypaint_surface_unref((MyPaintSurface *)r->p); } }
    if (!o.refs.empty()) { check(c, o); return; }
    if (is_surface(o.kind) && o.destroyed != 1) c.fail("destroy", "%s %d was destroyed %d times with its last reference", kname(o.kind), o.id, o.destroyed);
    if (o.kind != GEGL && live[o.id]) c.fail("leak", "%ld block(s) of %s %d are left after its last reference was dropped", live[o.id], kname(o.kind), o.id);
    In z(0); dead.push_back(std::move(obj[oi])); obj.erase(obj.begin() + oi);
  };
  int n = 5 + c.below(50);
  for (int i = 0; i < n; i++) {
    if (obj.empty() || (obj.size() < 4 && ids < 30 && c.chance(1, 6))) {
      std::unique_ptr<Obj> o(new Obj); o->id = ++ids; o->kind = c.below(gegl ? KINDS : KINDS - 1); if (!gegl && o->kind == GEGL) o->kind = RECT; if (gegl && c.chance(1, 2)) o->kind = GEGL; std::unique_ptr<Ref> r(new Ref);
      { In q(o->id); switch (o->kind) {
        case BRUSH: o->p = mypaint_brush_new(); mypaint_brush_from_defaults((MyPaintBrush *)o->p); o->value = mypaint_brush_get_base_value((MyPaintBrush *)o->p, MYPAINT_BRUSH_SETTING_HARDNESS); break;
        case FIXED: o->w = 1 + c.below(150); o->h = 1 + c.below(150); o->p = mypaint_fixed_tiled_surface_interface(mypaint_fixed_tiled_surface_new(o->w, o->h)); break;
        case CUSTOM: { Custom *k; { In z(0); k = (Custom *)malloc(sizeof(Custom)); k->tiles = new std::map<TIdx, Tile>; } mypaint_tiled_surface_init(&k->t, cstart, cend); k->t.parent.destroy = cdestroy; o->p = k; break; }
        case GEGL: { In z(0); o->p = mypaint_gegl_tiled_surface_interface(mypaint_gegl_tiled_surface_new()); break; }
        default: { MyPaintRectangle m = {(int)c.near(-1000, 1000, 0), (int)c.near(-1000, 1000, 0), (int)c.below(500), (int)c.below(500)}; o->p = mypaint_rectangle_copy(&m); r->want = m; } } }
      LOG("new %s %d", kname(o->kind), o->id); if (is_surface(o->kind)) { o->real = surf(*o)->destroy; surf(*o)->destroy = destroyed; where[o->p] = o.get(); }
      r->p = o->p; o->refs.push_back(std::move(r)); obj.push_back(std::move(o)); continue;
    }
    size_t oi = c.below(obj.size()); Obj &o = *obj[oi]; size_t ri = c.below(o.refs.size()); Ref &src = *o.refs[ri]; void *p = src.in_value ? g_value_get_boxed(&src.v) : src.p;
    switch (c.below(9)) {
      case 0: case 1: { int t = c.below(2); LOG("g_boxed_copy %s %d as %s", kname(o.kind), o.id, g_type_name(type_of(o.kind, t))); std::unique_ptr<Ref> r(new Ref); { In q(o.id); r->p = g_boxed_copy(type_of(o.kind, t), p); } r->want = src.want; if (!r->p) c.fail("copy", "copying %s %d gave NULL", kname(o.kind), o.id); copies++; o.refs.push_back(std::move(r)); break; }
      case 2: { int t = c.below(2), how = c.below(3); std::unique_ptr<Ref> r(new Ref); r->in_value = true; r->want = src.want; g_value_init(&r->v, type_of(o.kind, t)); values++;
        In q(o.id); if (how == 0) { LOG("g_value_set_boxed %s %d", kname(o.kind), o.id); g_value_set_boxed(&r->v, p); } else if (how == 1 && o.kind != RECT) { LOG("ref and g_value_take_boxed %s %d", kname(o.kind), o.id); if (o.kind == BRUSH) mypaint_brush_ref((MyPaintBrush *)p); else mypaint_surface_ref((MyPaintSurface *)p); g_value_take_boxed(&r->v, p); } else { LOG("g_value_take_boxed of a copy of %s %d", kname(o.kind), o.id); g_value_take_boxed(&r->v, g_boxed_copy(type_of(o.kind, t), p)); }
        In z(0); o.refs.push_back(std::move(r)); break; }
      case 3: if (src.in_value) { std::unique_ptr<Ref> r(new Ref); r->want = src.want; In q(o.id); if (c.chance(1, 2)) { LOG("g_value_dup_boxed %s %d", kname(o.kind), o.id); r->p = g_value_dup_boxed(&src.v); } else { LOG("g_value_copy %s %d", kname(o.kind), o.id); r->in_value = true; g_value_init(&r->v, G_VALUE_TYPE(&src.v)); g_value_copy(&src.v, &r->v); } copies++; In z(0); o.refs.push_back(std::move(r)); } break;
      case 4: if (o.kind != RECT) { LOG("ref %s %d", kname(o.kind), o.id); if (o.kind == BRUSH) mypaint_brush_ref((MyPaintBrush *)p); else mypaint_surface_ref((MyPaintSurface *)p); std::unique_ptr<Ref> r(new Ref); r->p = o.p; o.refs.push_back(std::move(r)); } break;
      case 5: case 6: drop(oi, ri, c.below(3)); continue;
      default: if (o.kind == BRUSH) { In q(o.id); o.value = c.real(0, 1, 0.5); LOG("set brush %d to %g", o.id, o.value); mypaint_brush_set_base_value((MyPaintBrush *)p, MYPAINT_BRUSH_SETTING_HARDNESS, o.value); }
        else if (o.kind == RECT) { MyPaintRectangle *m = (MyPaintRectangle *)p; m->x = src.want.x = c.near(-99, 99, 0); m->width = src.want.width = c.below(99); LOG("change a copy of rectangle %d", o.id); }
        else { In q(o.kind == GEGL ? 0 : o.id); Dab d = {(float)c.below(150), (float)c.below(150), 8, 1, 0, 0, 1, 0.8, 0, 1, 1, 0, 0, 0, 0, 0, 0}; LOG("paint on %s %d", kname(o.kind), o.id); mypaint_surface_begin_atomic((MyPaintSurface *)p); put((MyPaintSurface *)p, d); mypaint_surface_end_atomic((MyPaintSurface *)p, nullptr); }
    }
    check(c, o);
  }
  while (!obj.empty()) { size_t oi = c.below(obj.size()), ri = c.below(obj[oi]->refs.size()); drop(oi, ri, c.below(3)); }
  if (copies >= 2 && values >= 1) c.nontrivial();
}
FACET(history, 3000, 100000, "histories of g_boxed_copy, GValue set/take/copy/dup, ref, unref, g_boxed_free and use on brushes, fixed and custom surfaces (as their own type and as MyPaintSurface) and rectangles: every copy of an object is another reference to it, every copy of a rectangle is independent, an object lives until exactly the last reference of any kind is dropped and leaves nothing behind; AddressSanitizer; non-trivial: >= 2 copies and a value") { history(c, false); }
FACET(gegl, 300, 10000, "the same histories with GEGL surfaces among them") { history(c, true); }
FACET(types, 200, 2000, "in any order of first use: the type functions return distinct boxed types with their documented names, the same on every call, and values of one type are told apart from the others; non-trivial: always") {
  c.nontrivial(); struct { GType (*f)(void); const char *name; } all[] = {{mypaint_brush_get_type, "MyPaintBrush"}, {mypaint_surface_get_type, "MyPaintSurface"}, {mypaint_fixed_tiled_surface_get_type, "MyPaintFixedTiledSurface"}, {mypaint_rectangle_get_type, "MyPaintRectangle"}, {mypaint_gegl_tiled_surface_get_type, "MyPaintGeglTiledSurface"}};
  std::map<int, GType> seen; for (int k = 3 + c.below(20); k > 0; k--) { int i = c.below(5); GType t = all[i].f(); LOG("type %s", all[i].name);
    if (!t || !g_type_name(t) || strcmp(g_type_name(t), all[i].name)) c.fail("name", "the type of %s is named %s", all[i].name, t && g_type_name(t) ? g_type_name(t) : "(none)");
    if (!G_TYPE_IS_BOXED(t)) c.fail("boxed", "%s is not a boxed type", all[i].name); if (seen.count(i) && seen[i] != t) c.fail("stable", "%s changed its type id", all[i].name);
    if (g_type_from_name(all[i].name) != t) c.fail("name", "%s is not found by its name", all[i].name); for (auto &o : seen) if (o.first != i && o.second == t) c.fail("distinct", "%s and %s have the same type", all[i].name, all[o.first].name); seen[i] = t;
    GValue v = G_VALUE_INIT; g_value_init(&v, t); if (g_value_get_boxed(&v)) c.fail("null", "an empty value of %s holds something", all[i].name);
    bool holds[] = {(bool)MYPAINT_VALUE_HOLDS_BRUSH(&v), (bool)MYPAINT_VALUE_HOLDS_SURFACE(&v), (bool)MYPAINT_VALUE_HOLDS_FIXED_TILED_SURFACE(&v), (bool)MYPAINT_VALUE_HOLDS_RECTANGLE(&v), (bool)MYPAINT_GEGL_VALUE_HOLDS_TILED_SURFACE(&v)};
    for (int j = 0; j < 5; j++) if (holds[j] != (i == j)) c.fail("holds", "a value of %s %s as %s", all[i].name, holds[j] ? "passes" : "fails", all[j].name); g_value_unset(&v); }
}
// thousands of references at a time
FACET(many, 60, 2000, "1 to 70000 references (ref and boxed copy mixed) to one brush or surface, dropped by unref and g_boxed_free in any mixture: alive and unchanged until exactly the last, then gone; non-trivial: more than 255 references") {
  warm_up(false); track(); where.clear(); Obj o; o.id = 1; o.kind = c.pick({BRUSH, FIXED, CUSTOM}); long n = c.chance(1, 2) ? c.pick({127, 128, 255, 256, 257, 32767, 32768, 65535, 65536}) + c.near(-2, 2, 0) : (long)exp(c.real(0, 11.1, 3)); u64 h = c.below(1 << 30); LOG("%ld references to a %s, choices %llu", n, kname(o.kind), (unsigned long long)h);
  { In q(1); switch (o.kind) {
    case BRUSH: o.p = mypaint_brush_new(); mypaint_brush_set_base_value((MyPaintBrush *)o.p, MYPAINT_BRUSH_SETTING_HARDNESS, o.value = 0.25f); break;
    case FIXED: o.w = 70; o.h = 3; o.p = mypaint_fixed_tiled_surface_interface(mypaint_fixed_tiled_surface_new(o.w, o.h)); break;
    default: { Custom *k; { In z(0); k = (Custom *)malloc(sizeof(Custom)); k->tiles = new std::map<TIdx, Tile>; } mypaint_tiled_surface_init(&k->t, cstart, cend); k->t.parent.destroy = cdestroy; o.p = k; } } }
  if (is_surface(o.kind)) { o.real = surf(o)->destroy; surf(o)->destroy = destroyed; where[o.p] = &o; }
  auto alive = [&](long left) { if (o.destroyed || (o.kind == BRUSH && !live[1])) c.fail("destroy", "the %s is gone with %ld references left", kname(o.kind), left); if (o.kind == BRUSH && mypaint_brush_get_base_value((MyPaintBrush *)o.p, MYPAINT_BRUSH_SETTING_HARDNESS) != o.value) c.fail("value", "the brush lost its settings"); if (o.kind == FIXED && mypaint_fixed_tiled_surface_get_width((MyPaintFixedTiledSurface *)o.p) != o.w) c.fail("value", "the surface lost its size"); };
  for (long i = 1; i < n; i++) { if (splitmix(h) % 3 == 0) { if (g_boxed_copy(type_of(o.kind, i), o.p) != o.p) c.fail("copy", "copy %ld is another pointer", i); } else if (o.kind == BRUSH) mypaint_brush_ref((MyPaintBrush *)o.p); else mypaint_surface_ref(surf(o)); }
  alive(n);
  for (long i = n; i > 0; i--) { if (i <= 300 || i % 97 == 0) alive(i); In q(1); if (splitmix(h) % 3 == 0) g_boxed_free(type_of(o.kind, i), o.p); else if (o.kind == BRUSH) mypaint_brush_unref((MyPaintBrush *)o.p); else mypaint_surface_unref(surf(o)); if (i > 1 && (o.destroyed || (o.kind == BRUSH && !live[1]))) c.fail("destroy", "the %s is gone with %ld references left", kname(o.kind), i - 1); }
  if (live[1] || (is_surface(o.kind) && o.destroyed != 1)) c.fail("leak", "%ld block(s) of the %s are left after its last reference, destroyed %d times", live[1], kname(o.kind), o.destroyed);
  if (n > 255) c.nontrivial();
}
// the reference a GEGL surface holds on its buffer
FACET(buffers, 300, 10000, "GEGL surfaces that are given buffers of any layout (new ones, the same again, one shared by two surfaces, none), painted on and destroyed: a surface holds one reference to its current buffer and none to any other, destroyed surfaces none; non-trivial: >= 2 buffers were set") {
  gegl_once(); owner = 0; std::vector<GeglBuffer *> app; std::vector<MyPaintGeglTiledSurface *> g; std::vector<int> cur; int sets = 0; std::vector<GeglBuffer *> own;   // own[i]: reference kept on a buffer that the surface made itself
  auto check = [&]() { for (size_t k = 0; k < app.size(); k++) { int want = 1; for (size_t i = 0; i < g.size(); i++) want += g[i] && cur[i] == (int)k; int have = G_OBJECT(app[k])->ref_count; if (have != want) c.fail("buffer", "buffer %zu has %d references besides the application's instead of %d", k, have - 1, want - 1); }
    for (size_t i = 0; i < own.size(); i++) if (own[i]) { int want = 1; for (size_t j = 0; j < g.size(); j++) want += g[j] && mypaint_gegl_tiled_surface_get_buffer(g[j]) == own[i]; int have = G_OBJECT(own[i])->ref_count; if (have != want) c.fail("buffer", "a buffer made by a surface has %d references besides the application's instead of %d", have - 1, want - 1); } };
  int n = 3 + c.below(25);
  for (int k = 0; k < n; k++) {
    if (g.empty() || (g.size() < 4 && c.chance(1, 6))) { g.push_back(mypaint_gegl_tiled_surface_new()); cur.push_back(-1); c.log("surface %zu", g.size() - 1); GeglBuffer *b = mypaint_gegl_tiled_surface_get_buffer(g.back()); g_object_ref(b); own.push_back(b); check(); continue; }
    size_t i = c.below(g.size()); if (!g[i]) continue;
    switch (c.below(5)) {
      case 0: case 1: { if (app.empty() || c.chance(1, 3)) { static const char *f[] = {"R'G'B'A float", "R'aG'aB'aA u16", "R'aG'aB'aA float"}; int ts = c.pick({64, 128, 32}), fi = c.below(4); const Babl *fmt = fi == 3 ? gegl_buffer_get_format(own[0]) : babl_format(f[fi]); app.push_back(GEGL_BUFFER(g_object_new(GEGL_TYPE_BUFFER, "x", 0, "y", 0, "width", 100, "height", 100, "format", fmt, "tile-width", ts, "tile-height", ts, NULL))); c.log("buffer %zu: format %d, tiles %d", app.size() - 1, fi, ts); }
        int b = c.below(app.size()); c.log("surface %zu gets buffer %d", i, b); mypaint_gegl_tiled_surface_set_buffer(g[i], app[b]); cur[i] = b; sets++; if (mypaint_gegl_tiled_surface_get_buffer(g[i]) != app[b]) c.fail("buffer", "the buffer set is not the surface's buffer"); break; }
      case 2: { c.log("surface %zu gets no buffer", i); mypaint_gegl_tiled_surface_set_buffer(g[i], NULL); cur[i] = -1; GeglBuffer *b = mypaint_gegl_tiled_surface_get_buffer(g[i]); if (!b || !GEGL_IS_BUFFER(b)) c.fail("buffer", "no buffer"); g_object_ref(b); own.push_back(b); break; }
      case 3: { MyPaintSurface *s = mypaint_gegl_tiled_surface_interface(g[i]); c.log("paint on surface %zu", i); mypaint_surface_begin_atomic(s); put(s, Dab{(float)c.below(150), (float)c.below(150), 8, 1, 0, 0, 1, 0.8, 0, 1, 1, 0, 0, 0, 0, 0, 0}); mypaint_surface_end_atomic(s, nullptr); break; }
      default: if (c.chance(1, 2)) { c.log("destroy surface %zu", i); mypaint_surface_unref(mypaint_gegl_tiled_surface_interface(g[i])); g[i] = nullptr; } else { c.log("another reference to surface %zu and back", i); MyPaintSurface *s = mypaint_gegl_tiled_surface_interface(g[i]); mypaint_surface_ref(s); check(); mypaint_surface_unref(s); }
    }
    check();
  }
  for (auto &s : g) if (s) { mypaint_surface_unref(mypaint_gegl_tiled_surface_interface(s)); s = nullptr; check(); }
  for (auto b : app) g_object_unref(b); for (auto b : own) g_object_unref(b);
  if (sets >= 2) c.nontrivial();
}
PBT_MAIN("C30", "GLib build of the library (MYPAINT_CONFIG_USE_GLIB)", "references are dropped at most once each", "memory of GEGL's own buffers is not booked")
