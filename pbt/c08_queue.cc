// C08: queued dabs are applied exactly once, in order, however drawing is batched.
#include "refdab.hpp"
using namespace pbt;

struct Op { bool pick; Dab d; float r, paint; float col[4]; int ret; unsigned seed; };
static Op gen_op(Case &c, int spread, double big) {
  Op o; memset(&o, 0, sizeof o);
  o.pick = c.chance(1, 4); o.seed = c.below(1000);
  o.d = gen_dab(c, big); if (o.d.paint > 0 && c.chance(1, 2)) o.d.paint = 0;
  switch (spread) {
    case 0: break;
    case 1: o.d.x = c.real(-64 * 40, 64 * 40, 0); o.d.y = c.real(-64 * 40, 64 * 40, 0); if (o.d.radius > 80) o.d.radius = 80; break;
    case 2: { o.d.x = c.near(-110, 110, 0) * 64 + 32; o.d.y = c.near(-3, 3, 0) * 64; if (o.d.radius > 30) o.d.radius = 30; break; }
    default: o.d.x = c.real(-20, 84, 32); o.d.y = c.real(-20, 84, 32); if (o.d.radius > 40) o.d.radius = 40;
  }
  o.r = c.real(0.5, 30, 3); o.paint = c.pick({-1.0f, -1.0f, 0.0f, 0.5f, 1.0f});
  return o;
}
static void exec(TileSurf &s, MyPaintSurface *f, Op &o) {
  if (!o.pick) { o.ret = put(f, o.d); return; }
  srand(o.seed); mypaint_surface_get_color(f, o.d.x, o.d.y, o.r, o.col, o.col + 1, o.col + 2, o.col + 3, o.paint);
}
static void compare(Case &c, TileSurf &a, TileSurf &b, const std::vector<Op> &u, const std::vector<Op> &v, const char *how) {
  for (size_t i = 0; i < u.size(); i++) {
    if (u[i].pick) { for (int k = 0; k < 4; k++) if (u[i].col[k] != v[i].col[k]) c.fail("pick", "%s: pick #%zu gives channel %d = %.8g instead of %.8g", how, i, k, v[i].col[k], u[i].col[k]); }
    else if (!!u[i].ret != !!v[i].ret) c.fail("result", "%s: dab #%zu reported %d instead of %d", how, i, v[i].ret, u[i].ret);
  }
  std::set<TIdx> keys = a.written; keys.insert(b.written.begin(), b.written.end());
  for (auto &k : keys) {
    Tile &p = a.tile(k.first, k.second), &q = b.tile(k.first, k.second);
    if (p != q) { int i = 0; while (p[i] == q[i]) i++; c.fail("canvas", "%s: tile (%d,%d) pixel (%d,%d) channel %d is %d instead of %d", how, k.first, k.second, i / 4 % TS, i / 4 / TS, i % 4, q[i], p[i]); }
  }
}
static void run(Case &c, int spread, double big, int avg) {
  u64 seed = c.below(1u << 30); bool empty = c.chance(1, 2); int style = c.below(4);
  auto fill = [=](int x, int y, uint16_t *p) { if (!empty) random_tile(seed, x, y, p, style); };
  std::vector<Op> ops; do ops.push_back(gen_op(c, spread, big)); while (c.more(avg) && ops.size() < 400);
  for (auto &o : ops) { if (o.pick) c.log("pick (%g,%g) r=%g paint=%g", o.d.x, o.d.y, o.r, o.paint); else c.log("%s", str(o.d).c_str()); }
  // reference: every operation on a surface object of its own, over a shared canvas
  std::vector<Op> ref = ops; TileSurf a; a.fill = fill; a.direct = true; a.c = &c;
  int dabs = 0, picks = 0;
  for (auto &o : ref) {
    MyPaintTiledSurface fresh; mypaint_tiled_surface_init(&fresh, [](MyPaintTiledSurface *, MyPaintTileRequest *) {}, [](MyPaintTiledSurface *, MyPaintTileRequest *) {});
    struct Fwd { MyPaintTiledSurface t; TileSurf *to; };
    mypaint_tiled_surface_destroy(&fresh);
    Fwd f; f.to = &a;
    mypaint_tiled_surface_init(&f.t, [](MyPaintTiledSurface *t, MyPaintTileRequest *r) { TileSurf::start(&((Fwd *)t)->to->t, r); }, [](MyPaintTiledSurface *t, MyPaintTileRequest *r) { TileSurf::end(&((Fwd *)t)->to->t, r); });
    mypaint_surface_begin_atomic(&f.t.parent); exec(a, &f.t.parent, o); mypaint_surface_end_atomic(&f.t.parent, nullptr);
    mypaint_tiled_surface_destroy(&f.t);
    o.pick ? picks++ : dabs++;
  }
  c.checkpoint();
  if (dabs >= 2) c.nontrivial();
  c.label(picks && dabs >= 2 ? "dabs and picks" : dabs >= 2 ? "dabs" : "trivial");
  // one section
  { std::vector<Op> v = ops; TileSurf b; b.fill = fill; b.direct = true; b.c = &c;
    b.begin(); for (auto &o : v) exec(b, b.iface(), o); b.end_(); b.balanced("one section"); c.checkpoint(); compare(c, a, b, ref, v, "all in one atomic section"); }
  // arbitrary division, on one surface object
  { std::vector<Op> v = ops; TileSurf b; b.fill = fill; b.direct = true; b.c = &c;
    b.begin(); std::string how = "sections";
    for (size_t i = 0; i < v.size(); i++) { exec(b, b.iface(), v[i]); if (c.chance(1, 3)) { b.end_(); b.begin(); if (how.size() < 60) how += " " + std::to_string(i); } }
    b.end_(); b.balanced("divided"); c.checkpoint(); compare(c, a, b, ref, v, (how + " end after those operations").c_str()); }
}

FACET(near, 3000, 150000, "2..40 dabs and picks around a few tiles, run one per fresh surface object (reference), all in one section, and in a random division; canvases bit-identical and picks equal; non-trivial: >= 2 dabs") { run(c, c.chance(1, 2) ? 0 : 3, 60, 8); }
FACET(far, 700, 40000, "the same with dabs scattered over 6400 x 6400 pixels, growing the queue repeatedly") { run(c, 1, 60, 12); }
FACET(line, 300, 15000, "the same with dabs along a 14000 pixel wide strip around the origin") { run(c, 2, 20, 10); }

// many tiles dirty at once, then dirtied again after a pick flushed some of them
FACET(flood, 60, 2500, "dabs of radius 100..700 around the origin that fill the whole tile queue (400 tiles and its doublings), interleaved with picks that flush tiles and dabs that dirty them again, against one fresh surface per operation; non-trivial: >= 300 tiles dirty in one section") {
  u64 seed = c.below(1u << 30); std::vector<Op> ops; double R = c.pick({640.0, 638.0, 650.0, 300.0, 700.0});
  int n = 2 + c.below(6);
  for (int i = 0; i < n; i++) {
    Op o; memset(&o, 0, sizeof o); o.seed = i; o.pick = i && c.chance(1, 2);
    o.d = plain_dab(0, 0, i == 0 ? R : c.real(5, 200, 20)); o.d.hardness = 0.9; o.d.aspect = 1; o.d.r = gen_unit(c);
    if (i == 0) { o.d.x = o.d.y = c.pick({0.0f, -0.5f, 1.0f}); o.d.opaque = 0.5; }
    else { o.d.x = c.real(-600, 600, 0); o.d.y = c.real(-600, 600, 0); }
    o.r = c.real(1, 100, 5); o.paint = -1; ops.push_back(o);
    if (o.pick) c.log("pick (%g,%g) r=%g", o.d.x, o.d.y, o.r); else c.log("%s", str(o.d).c_str());
  }
  TileSurf a, b; a.direct = b.direct = true; a.c = b.c = &c; std::vector<Op> u = ops, v = ops;
  for (auto &o : u) { TileSurf *pa = &a; struct Fwd { MyPaintTiledSurface t; TileSurf *to; } f; f.to = pa;
    mypaint_tiled_surface_init(&f.t, [](MyPaintTiledSurface *t, MyPaintTileRequest *r) { TileSurf::start(&((Fwd *)t)->to->t, r); }, [](MyPaintTiledSurface *t, MyPaintTileRequest *r) { TileSurf::end(&((Fwd *)t)->to->t, r); });
    mypaint_surface_begin_atomic(&f.t.parent); exec(a, &f.t.parent, o); mypaint_surface_end_atomic(&f.t.parent, nullptr); mypaint_tiled_surface_destroy(&f.t); }
  b.begin(); for (auto &o : v) exec(b, b.iface(), o); b.end_(); c.checkpoint();
  if (a.written.size() >= 300) c.nontrivial();
  compare(c, a, b, u, v, "all in one atomic section");
}

PBT_MAIN("C08", "|x|,|y| <= 8000 (the queue's memory grows with the square of the tile index)", "rand() is seeded alike before each pick that samples randomly")
