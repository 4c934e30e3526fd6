// C13: parallel rendering gives exactly the serial result.
#include "refdab.hpp"
#include "symm.hpp"
#include "brushgen.hpp"
#include <omp.h>
#include <atomic>
#include <mutex>
#include <sched.h>
using namespace pbt;

// a backend that allows concurrent requests
struct ParSurf {
  MyPaintTiledSurface t; std::mutex m; struct Slot { Tile data; std::atomic<int> open{0}; }; std::map<TIdx, std::unique_ptr<Slot>> tiles;
  std::function<void(int, int, uint16_t *)> fill; std::atomic<int> clash{0}, unbalanced{0}; std::atomic<long> starts{0}, ends{0}; int jitter = 0; std::atomic<unsigned> seq{0}; std::set<int> threads; std::atomic<int> inside{0}, most{0};
  Slot &slot(int x, int y) { std::lock_guard<std::mutex> g(m); auto &s = tiles[{x, y}]; if (!s) { s.reset(new Slot); s->data.assign(TILE_WORDS, 0); if (fill) fill(x, y, s->data.data()); } return *s; }
  void wait() { if (!jitter) return; unsigned k = seq++; unsigned h = k * 2654435761u ^ jitter * 40503u; h ^= h >> 13; for (unsigned i = 0; i < (h & 7) * 40; i++) __asm__ volatile("" ::: "memory"); if ((h & 0x30) == 0x30) sched_yield(); }
  static void start(MyPaintTiledSurface *ts, MyPaintTileRequest *r) {
    ParSurf *s = (ParSurf *)ts; s->wait(); s->starts++; int n = ++s->inside; int m = s->most; while (n > m && !s->most.compare_exchange_weak(m, n)) {}
    Slot &q = s->slot(r->tx, r->ty); if (q.open.fetch_add(1) != 0) s->clash++; r->buffer = q.data.data(); s->wait();
  }
  static void end(MyPaintTiledSurface *ts, MyPaintTileRequest *r) {
    ParSurf *s = (ParSurf *)ts; s->wait(); Slot &q = s->slot(r->tx, r->ty); if (q.open.fetch_sub(1) != 1) s->unbalanced++; s->ends++; --s->inside;
  }
  ParSurf(bool parallel) { mypaint_tiled_surface_init(&t, start, end); t.threadsafe_tile_requests = parallel; }
  ~ParSurf() { mypaint_tiled_surface_destroy(&t); }
  MyPaintSurface *iface() { return &t.parent; }
};
static void judge(Case &c, ParSurf &a, ParSurf &b, int threads, const char *when) {
  if (b.clash) c.fail("clash", "%s: a tile was requested while another request for it was open (%d threads)", when, threads);
  if (b.unbalanced || b.starts != b.ends) c.fail("pairing", "%s: %ld requests started, %ld ended", when, (long)b.starts, (long)b.ends);
  if (a.starts != b.starts) c.fail("requests", "%s: %ld tile requests in parallel, %ld in the serial run", when, (long)b.starts, (long)a.starts);
  for (auto &k : b.tiles) { ParSurf::Slot &q = a.slot(k.first.first, k.first.second); if (q.data != k.second->data) { int i = 0; while (q.data[i] == k.second->data[i]) i++; c.fail("canvas", "%s: tile (%d,%d) pixel (%d,%d) channel %d is %d with %d threads, %d in the serial run", when, k.first.first, k.first.second, i / 4 % TS, i / 4 / TS, i % 4, k.second->data[i], threads, q.data[i]); } }
}
static void rects(Case &c, const MyPaintRectangles &x, const MyPaintRectangles &y) {
  if (x.num_rectangles != y.num_rectangles || memcmp(x.rectangles, y.rectangles, x.num_rectangles * sizeof(MyPaintRectangle))) c.fail("rects", "dirty rectangles differ: %d vs %d", x.num_rectangles, y.num_rectangles);
}
static void picked(Case &c, const float *p, const float *q, int threads, float x, float y, float r, float paint) {
  if (memcmp(p, q, 16)) c.fail("pick", "picking at (%g,%g) radius %g paint %g gives (%.9g,%.9g,%.9g,%.9g) with %d threads, (%.9g,%.9g,%.9g,%.9g) serially", x, y, r, paint, q[0], q[1], q[2], q[3], threads, p[0], p[1], p[2], p[3]);
}

FACET(dabs, 1500, 60000, "sections of dabs (radius up to 300, with and without symmetry) and colour picks of all modes, serial and with 2..16 threads and perturbed scheduling: canvases, picked colours and dirty rectangles bit-identical; non-trivial: >= 4 tiles touched in one section and two requests were open at once") {
  u64 seed = c.below(1000); int style = c.below(4); bool empty = c.chance(1, 3); int threads = 2 + c.below(7); if (c.chance(1, 8)) threads = 16;
  auto fill = [=](int x, int y, uint16_t *p) { if (!empty) random_tile(seed, x, y, p, style); };
  ParSurf a(false), b(true); a.fill = b.fill = fill; b.jitter = c.below(50); c.log("%d threads, jitter %d", threads, b.jitter);
  bool many = false;
  for (int k = 0, K = 1 + c.below(3); k < K; k++) {
    if (c.chance(1, 3)) { Symm y = gen_symm(c, 6, 150); apply(&a.t, y); apply(&b.t, y); c.log("%s", str(y).c_str()); }
    omp_set_num_threads(1); mypaint_surface_begin_atomic(a.iface()); omp_set_num_threads(threads); mypaint_surface_begin_atomic(b.iface()); c.log("begin");
    int left = c.below(8);
    do {
      if (c.chance(1, 3)) {
        float x = gen_pos(c), y = gen_pos(c), r = c.real(1, 200, 70), paint = c.pick({-1.0f, -1.0f, 0.0f, 1.0f, 0.5f}), p[4], q[4]; unsigned sd = c.below(1000); c.log("  pick (%g,%g) radius %g paint %g", x, y, r, paint);
        omp_set_num_threads(1); srand(sd); mypaint_surface_get_color(a.iface(), x, y, r, p, p + 1, p + 2, p + 3, paint);
        omp_set_num_threads(threads); srand(sd); mypaint_surface_get_color(b.iface(), x, y, r, q, q + 1, q + 2, q + 3, paint);
        picked(c, p, q, threads, x, y, r, paint);
      } else { Dab d = gen_dab(c, 300); c.log("  %s", str(d).c_str()); int r1 = put(a.iface(), d), r2 = put(b.iface(), d); if (r1 != r2) c.fail("result", "dab reported %d and %d", r1, r2); }
    } while (left-- > 0);
    MyPaintRectangle ra[20], rb[20]; MyPaintRectangles ia = {20, ra}, ib = {20, rb}; long n = b.starts;
    omp_set_num_threads(1); mypaint_surface_end_atomic(a.iface(), &ia); omp_set_num_threads(threads); mypaint_surface_end_atomic(b.iface(), &ib);
    if (b.starts - n >= 4) many = true;
    judge(c, a, b, threads, "after the section"); rects(c, ia, ib);
  }
  if (many && b.most > 1) c.nontrivial(); c.label(b.most > 1 ? "really parallel" : "one at a time");
}
FACET(stroke, 250, 10000, "strokes of random brushes (with smudging and large radii) painted serially and in parallel: canvas, every brush state and end-of-stroke results bit-identical; non-trivial: two requests were open at once") {
  Brush b1, b2; BrushOpts o; o.cheap = true; o.rhi = 4.5; gen_brush(c, b1, o);
  for (int s = 0; s < MYPAINT_BRUSH_SETTINGS_COUNT; s++) { b2.set(s, b1.get(s)); for (int i = 0; i < MYPAINT_BRUSH_INPUTS_COUNT; i++) { int n = mypaint_brush_get_mapping_n(b1, (MyPaintBrushSetting)s, (MyPaintBrushInput)i); std::vector<std::pair<float, float>> p(n); for (int k = 0; k < n; k++) mypaint_brush_get_mapping_point(b1, (MyPaintBrushSetting)s, (MyPaintBrushInput)i, k, &p[k].first, &p[k].second); if (n) b2.curve(s, i, p); } }
  int threads = 2 + c.below(7); ParSurf a(false), b(true); b.jitter = c.below(50); u64 seed = c.below(1000); int style = c.below(4); a.fill = b.fill = [=](int x, int y, uint16_t *p) { random_tile(seed, x, y, p, style); };
  Pen pen(c, 32, 32); int n = 3 + c.below(10);
  for (int i = 0; i < n; i++) {
    Event e = pen.next(c, 60); c.log("%s", str(e).c_str()); unsigned sd = c.below(1000); MyPaintRectangle ra[4], rb[4]; MyPaintRectangles ia = {4, ra}, ib = {4, rb};
    omp_set_num_threads(1); srand(sd); mypaint_surface_begin_atomic(a.iface()); int r1 = stroke(b1, a.iface(), e); mypaint_surface_end_atomic(a.iface(), &ia);
    omp_set_num_threads(threads); srand(sd); mypaint_surface_begin_atomic(b.iface()); int r2 = stroke(b2, b.iface(), e); mypaint_surface_end_atomic(b.iface(), &ib);
    if (r1 != r2) c.fail("result", "stroke_to returned %d and %d", r1, r2);
    for (int s = 0; s < MYPAINT_BRUSH_STATES_COUNT; s++) { float u = b1.state(s), v = b2.state(s); if (memcmp(&u, &v, 4)) c.fail("state", "state %d is %.9g with %d threads, %.9g serially", s, v, threads, u); }
    judge(c, a, b, threads, "after the event"); rects(c, ia, ib);
  }
  if (b.most > 1) c.nontrivial();
}
PBT_MAIN("C13", "one process compares the surface with and without threadsafe_tile_requests in an OpenMP build", "schedules are those the OpenMP runtime takes under random delays in the backend", "rand() is seeded alike before each pick")
