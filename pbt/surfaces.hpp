// Test surfaces: a recording surface (observes the brush) and a tile store (observes the compositor).
#pragma once
#include "engine.hpp"
#include <memory>
extern "C" {
#include "mypaint-brush.h"
#include "mypaint-brush-settings.h"
#include "mypaint-tiled-surface.h"
#include "mypaint-fixed-tiled-surface.h"
#include "mypaint-rectangle.h"
#include "mypaint-symmetry.h"
#include "mypaint-mapping.h"
}

namespace pbt {

struct Dab {
  float x, y, radius, r, g, b, opaque, hardness, softness, color_a, aspect, angle, lock_alpha, colorize, posterize, posterize_num, paint;
  const float *v() const { return &x; }
  enum { N = 17 };
};
inline const char *dab_field(int i) {
  static const char *n[] = {"x", "y", "radius", "r", "g", "b", "opaque", "hardness", "softness", "color_a", "aspect", "angle", "lock_alpha", "colorize", "posterize", "posterize_num", "paint"};
  return n[i];
}
inline std::string str(const Dab &d) {
  std::string s = "dab("; char b[64];
  for (int i = 0; i < Dab::N; i++) { snprintf(b, 64, "%s%s=%.9g", i ? " " : "", dab_field(i), d.v()[i]); s += b; }
  return s + ")";
}
inline bool same_bits(const Dab &a, const Dab &b) { return !memcmp(&a, &b, sizeof a); }
inline int put(MyPaintSurface *s, const Dab &d) {
  return mypaint_surface_draw_dab(s, d.x, d.y, d.radius, d.r, d.g, d.b, d.opaque, d.hardness, d.softness, d.color_a, d.aspect, d.angle, d.lock_alpha, d.colorize, d.posterize, d.posterize_num, d.paint);
}

// Records what the brush engine asks for; paints nothing.
struct RecSurf {
  MyPaintSurface s;
  struct Pick { float x, y, radius, paint; int before; };
  std::vector<Dab> dabs;
  std::vector<Pick> picks;
  std::function<void(const Pick &, float *)> color;   // fills rgba
  int draw_result = 1;
  std::function<int(const Dab &)> on_dab;
  long limit = 2000000;
  static int draw(MyPaintSurface *s, float x, float y, float radius, float r, float g, float b, float opaque, float hardness, float softness, float a, float aspect, float angle, float lock, float colorize, float post, float postn, float paint) {
    RecSurf *self = (RecSurf *)s;
    Dab d = {x, y, radius, r, g, b, opaque, hardness, softness, a, aspect, angle, lock, colorize, post, postn, paint};
    self->dabs.push_back(d);
    return self->on_dab ? self->on_dab(d) : self->draw_result;
  }
  static void pick(MyPaintSurface *s, float x, float y, float radius, float *r, float *g, float *b, float *a, float paint) {
    RecSurf *self = (RecSurf *)s;
    Pick p = {x, y, radius, paint, (int)self->dabs.size()};
    self->picks.push_back(p);
    float c[4] = {0.25f, 0.5f, 0.75f, 1.0f};
    if (self->color) self->color(p, c);
    *r = c[0]; *g = c[1]; *b = c[2]; *a = c[3];
  }
  RecSurf() { memset(&s, 0, sizeof s); mypaint_surface_init(&s); s.draw_dab = draw; s.get_color = pick; }
  MyPaintSurface *iface() { return &s; }
};

enum { TS = MYPAINT_TILE_SIZE, TILE_WORDS = TS * TS * 4 };
typedef std::pair<int, int> TIdx;
typedef std::vector<uint16_t> Tile;
typedef std::map<TIdx, Tile> Canvas;

// Tile store with optional protocol checking. Requests hand out a private copy with guard
// words; the copy is written back at the end of a writable request and then scribbled over.
struct TileSurf {
  MyPaintTiledSurface t;
  Canvas tiles;
  std::function<void(int, int, uint16_t *)> fill;     // initial content of a tile (default transparent)
  std::function<bool(const MyPaintTileRequest *)> unavailable;  // true: no buffer for this request
  std::function<bool(int, int)> dropped;               // writes to these tiles are thrown away
  Case *c = nullptr;                                   // protocol violations are flagged here
  bool direct = false;                                 // hand out the stored buffer itself (fast)
  long n_start = 0, n_end = 0, n_write = 0, n_read = 0;
  struct Open { MyPaintTileRequest *req; uint16_t *buf; bool ro; };
  std::map<TIdx, Open> open;
  std::set<TIdx> written, readtiles;
  bool destroyed = false;
  enum { GUARD = 64 };

  Tile &tile(int x, int y) {
    auto it = tiles.find({x, y});
    if (it == tiles.end()) {
      it = tiles.emplace(TIdx{x, y}, Tile(TILE_WORDS, 0)).first;
      if (fill) fill(x, y, it->second.data());
    }
    return it->second;
  }
  static void start(MyPaintTiledSurface *ts, MyPaintTileRequest *r) {
    TileSurf *self = (TileSurf *)ts;
    self->n_start++; (r->readonly ? self->n_read : self->n_write)++;
    TIdx k{r->tx, r->ty};
    if (self->c) {
      if (self->open.count(k)) self->c->flag("protocol", "tile (%d,%d) requested while an earlier request for it is still open", r->tx, r->ty);
      if (r->mipmap_level != 0) self->c->flag("protocol", "tile request with mipmap level %d", r->mipmap_level);
      if (r->buffer != nullptr) self->c->flag("protocol", "tile request starts with a stale buffer pointer");
    }
    r->context = (void *)((char *)self + r->tx + 7 * r->ty);
    (r->readonly ? self->readtiles : self->written).insert(k);
    if (self->unavailable && self->unavailable(r)) { r->buffer = nullptr; self->open[k] = {r, nullptr, (bool)r->readonly}; return; }
    Tile &t = self->tile(r->tx, r->ty);
    if (self->direct) { r->buffer = t.data(); self->open[k] = {r, nullptr, (bool)r->readonly}; return; }
    uint16_t *b = (uint16_t *)malloc((TILE_WORDS + 2 * GUARD) * 2);
    for (int i = 0; i < GUARD; i++) b[i] = b[GUARD + TILE_WORDS + i] = 0xA5C3;
    memcpy(b + GUARD, t.data(), TILE_WORDS * 2);
    r->buffer = b + GUARD;
    self->open[k] = {r, b, (bool)r->readonly};
  }
  static void end(MyPaintTiledSurface *ts, MyPaintTileRequest *r) {
    TileSurf *self = (TileSurf *)ts;
    self->n_end++;
    TIdx k{r->tx, r->ty};
    auto it = self->open.find(k);
    if (it == self->open.end()) { if (self->c) self->c->flag("protocol", "end of a tile request (%d,%d) that was not started", r->tx, r->ty); return; }
    uint16_t *b = it->second.buf;
    if (self->c && (r != it->second.req || r->context != (void *)((char *)self + r->tx + 7 * r->ty))) self->c->flag("protocol", "tile request (%d,%d) ended with another request or context than it was started with", r->tx, r->ty);
    if (b) {
      if (self->c) {
        if (r->buffer != b + GUARD) self->c->flag("protocol", "buffer pointer changed between start and end");
        for (int i = 0; i < GUARD; i++) if (b[i] != 0xA5C3 || b[GUARD + TILE_WORDS + i] != 0xA5C3) { self->c->flag("protocol", "write outside the tile buffer (%d,%d)", r->tx, r->ty); break; }
        if ((bool)r->readonly != it->second.ro) self->c->flag("protocol", "readonly changed during a request");
      }
      Tile &t = self->tile(r->tx, r->ty);
      if (it->second.ro) { if (self->c && memcmp(t.data(), b + GUARD, TILE_WORDS * 2)) self->c->flag("protocol", "read-only tile (%d,%d) was modified", r->tx, r->ty); }
      else if (!(self->dropped && self->dropped(r->tx, r->ty))) memcpy(t.data(), b + GUARD, TILE_WORDS * 2);
      memset(b, 0x5A, (TILE_WORDS + 2 * GUARD) * 2);
      free(b);
    }
    self->open.erase(it);
  }
  TileSurf() { mypaint_tiled_surface_init(&t, start, end); }
  TileSurf(const TileSurf &) = delete;
  ~TileSurf() { destroy(); }
  void destroy() { if (!destroyed) { destroyed = true; mypaint_tiled_surface_destroy(&t); for (auto &o : open) if (o.second.buf) free(o.second.buf); open.clear(); } }
  MyPaintSurface *iface() { return &t.parent; }
  void begin() { mypaint_surface_begin_atomic(iface()); }
  void end_(MyPaintRectangles *roi = nullptr) { mypaint_surface_end_atomic(iface(), roi); }
  void balanced(const char *when) {
    if (c && !open.empty()) c->flag("protocol", "%s: %zu tile request(s) never ended, e.g. (%d,%d)", when, open.size(), open.begin()->first.first, open.begin()->first.second);
  }
  const uint16_t *px(long x, long y) {  // canvas pixel (creates the tile)
    long tx = x >= 0 ? x / TS : -((-x + TS - 1) / TS), ty = y >= 0 ? y / TS : -((-y + TS - 1) / TS);
    Tile &q = tile(tx, ty);
    return &q[((y - ty * TS) * TS + (x - tx * TS)) * 4];
  }
};

// deterministic pseudo-random tile content of valid premultiplied pixels
inline void random_tile(u64 seed, int tx, int ty, uint16_t *p, int style) {
  u64 s = seed ^ ((u64)(uint32_t)tx << 32 | (uint32_t)ty) * 0x9E3779B97F4A7C15ull;
  splitmix(s);
  for (int i = 0; i < TS * TS; i++, p += 4) {
    u64 r = splitmix(s);
    uint32_t a, q[3];
    switch (style) {
      case 0: a = 32768; break;                                    // opaque
      case 1: a = r % 32769; break;                                // any alpha
      case 2: a = (r & 7) == 0 ? 0 : (r & 7) == 1 ? 32768 : (r & 7) == 2 ? 1 + (r >> 8) % 4 : (r >> 8) % 32769; break;  // edges
      default: a = (r & 3) ? (r >> 8) % 32769 : 32768 - (r >> 8) % 3; break;
    }
    for (int k = 0; k < 3; k++) {
      u64 z = splitmix(s);
      q[k] = (z & 7) == 0 ? 0 : (z & 7) == 1 ? a : (uint32_t)((z >> 8) % (a + 1));
    }
    if ((r >> 40) % 13 == 0) q[0] = q[1] = q[2] = (r >> 50) & 1 ? 0 : a;  // pure black / white
    if ((r >> 44) % 11 == 0) q[1] = q[2] = q[0];
    p[0] = q[0]; p[1] = q[1]; p[2] = q[2]; p[3] = a;
  }
}
inline void uniform_tile(uint16_t *p, int r, int g, int b, int a) { for (int i = 0; i < TS * TS; i++, p += 4) { p[0] = r; p[1] = g; p[2] = b; p[3] = a; } }

inline const char *sname(int i) { return mypaint_brush_setting_info((MyPaintBrushSetting)i)->cname; }
inline const char *iname(int i) { return mypaint_brush_input_info((MyPaintBrushInput)i)->cname; }
#define SET(name) MYPAINT_BRUSH_SETTING_##name
#define INP(name) MYPAINT_BRUSH_INPUT_##name
#define ST(name) MYPAINT_BRUSH_STATE_##name

struct Brush {   // RAII brush, starts as the default brush
  MyPaintBrush *b;
  Brush(int buckets = -1) { b = buckets < 0 ? mypaint_brush_new() : mypaint_brush_new_with_buckets(buckets); mypaint_brush_from_defaults(b); }
  Brush(const Brush &) = delete;
  ~Brush() { if (b) mypaint_brush_unref(b); }
  operator MyPaintBrush *() { return b; }
  void set(int id, float v) { mypaint_brush_set_base_value(b, (MyPaintBrushSetting)id, v); }
  float get(int id) { return mypaint_brush_get_base_value(b, (MyPaintBrushSetting)id); }
  float state(int id) { return mypaint_brush_get_state(b, (MyPaintBrushState)id); }
  void curve(int id, int input, const std::vector<std::pair<float, float>> &pts) {
    mypaint_brush_set_mapping_n(b, (MyPaintBrushSetting)id, (MyPaintBrushInput)input, (int)pts.size());
    for (size_t i = 0; i < pts.size(); i++) mypaint_brush_set_mapping_point(b, (MyPaintBrushSetting)id, (MyPaintBrushInput)input, i, pts[i].first, pts[i].second);
  }
};

struct Event { float x, y, pressure, xtilt, ytilt; double dtime; float zoom, rot, barrel; int linear; };
inline std::string str(const Event &e) {
  char b[256]; snprintf(b, 256, "event x=%.9g y=%.9g p=%.9g tilt=%.9g,%.9g dt=%.9g zoom=%.9g rot=%.9g barrel=%.9g lin=%d", e.x, e.y, e.pressure, e.xtilt, e.ytilt, e.dtime, e.zoom, e.rot, e.barrel, e.linear);
  return b;
}
inline int stroke(MyPaintBrush *b, MyPaintSurface *s, const Event &e) {
  return mypaint_brush_stroke_to(b, s, e.x, e.y, e.pressure, e.xtilt, e.ytilt, e.dtime, e.zoom, e.rot, e.barrel, e.linear);
}

}  // namespace pbt
