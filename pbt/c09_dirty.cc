// C09: dirty rectangles cover every changed pixel and little else.
#include "refdab.hpp"
#include "symm.hpp"
using namespace pbt;

struct Box { long x0 = 1, y0 = 1, x1 = 0, y1 = 0; bool empty() const { return x1 < x0; }
  void add(long a, long b, long c, long d) { if (empty()) { x0 = a; y0 = b; x1 = c; y1 = d; } else { x0 = std::min(x0, a); y0 = std::min(y0, b); x1 = std::max(x1, c); y1 = std::max(y1, d); } } };
static bool big_dabs;
static Dab small_dab(Case &c, double reach) {
  Dab d = plain_dab(0, 0, 1);
  d.radius = c.chance(1, 8) ? (float)c.real(0.05, 0.5, 0.1) : c.chance(1, 6) ? (float)c.real(5, 60, 20) : (float)c.real(0.1, 9, 3);
  if (big_dabs && c.chance(1, 2)) d.radius = exp(c.real(log(60), log(500), log(100)));
  d.x = c.real(-reach, reach, 10); d.y = c.real(-reach, reach, 10); if (c.chance(1, 3)) { d.x = 64 * c.near(-3, 3, 0) + c.pick({0.0f, 1.0f, -1.0f, 0.5f}); }
  d.hardness = gen_hardness(c); d.aspect = c.chance(1, 3) ? gen_aspect(c) : 1; d.angle = gen_angle(c);
  gen_mode(c, d); if (c.chance(1, 8)) d.opaque = 0; if (c.chance(1, 12)) d.hardness = 0; if (c.chance(1, 12)) d.softness = 1;
  return d;
}
static void run(Case &c, int maxlines, double reach, int avgdabs, bool room, int sections) {
  TileSurf s; s.direct = true; s.c = &c; u64 seed = c.below(1000); int style = c.below(4); bool empty = c.chance(1, 2);
  if (!empty) s.fill = [=](int x, int y, uint16_t *p) { random_tile(seed, x, y, p, style); };
  SymmModel m; int changed_sections = 0; bool multi = false;
  for (int k = 0; k < sections; k++) {
    if (c.chance(3, 4)) { Symm y = gen_symm(c, maxlines, reach / 2); apply(&s.t, y); m.set(y); c.log("%s", str(y).c_str()); }
    c.log("begin"); s.begin(); m.begin(); s.written.clear(); Canvas before = s.tiles;
    std::vector<Box> img; Box hull; int painted = 0;
    int left = (int)c.below(2 * avgdabs);
    do {
      if (c.chance(1, 10)) {   // changed in the middle of a section
        Symm y = c.chance(1, 2) ? m.pending : gen_symm(c, maxlines, reach / 2); y.active = c.chance(1, 2); apply(&s.t, y); m.set(y); c.log("  %s", str(y).c_str());
      }
      Dab d = small_dab(c, reach); c.log("  %s", str(d).c_str());
      if (c.chance(1, 15)) { float q[4]; mypaint_surface_get_color(s.iface(), d.x, d.y, 5, q, q + 1, q + 2, q + 3, -1); c.log("  pick (%g,%g)", d.x, d.y); }
      int r = put(s.iface(), d); if (!r) continue;
      painted++;
      auto im = images(m.current, d.x, d.y, d.angle); if (img.size() < im.size()) img.resize(im.size());
      for (size_t i = 0; i < im.size(); i++) {
        double e = d.radius + 1.02; Box &b = img[i];
        b.add(floor(im[i].x - e), floor(im[i].y - e), floor(im[i].x + e), floor(im[i].y + e));
        hull.add(floor(im[i].x - e), floor(im[i].y - e), floor(im[i].x + e), floor(im[i].y + e));
      }
    } while (left-- > 0);
    int offered = room ? 2 * maxlines + 8 : c.chance(1, 3) ? 1 : 1 + (int)c.below(c.chance(1, 2) ? 4 : 2 * maxlines + 4);
    std::vector<MyPaintRectangle> buf(offered + 4); for (auto &r : buf) { r.x = -12345; r.y = 777777; r.width = 999; r.height = 31337; }
    if (c.chance(1, 4)) for (int i = 0; i < offered; i++) buf[i] = {0, 0, 0, 0};
    bool reuse = c.chance(1, 12);
    MyPaintRectangles roi = {offered, buf.data()};
    if (reuse) { s.end_(nullptr); c.log("end without rectangles"); }
    else { s.end_(&roi); c.log("end, %d offered, %d reported", offered, roi.num_rectangles); }
    s.balanced("end"); c.checkpoint();
    if (reuse) continue;
    if (roi.num_rectangles > offered || roi.num_rectangles < 0) c.fail("count", "%d rectangles reported, %d offered", roi.num_rectangles, offered);
    if (roi.rectangles != buf.data()) c.fail("count", "the caller's array was replaced");
    for (int i = offered; i < offered + 4; i++) if (buf[i].x != -12345 || buf[i].height != 31337) c.fail("overrun", "rectangle %d was written although %d were offered", i, offered);
    if (!painted && roi.num_rectangles) c.fail("nothing", "nothing was painted, yet %d rectangles are reported, first (%d,%d %dx%d)", roi.num_rectangles, buf[0].x, buf[0].y, buf[0].width, buf[0].height);
    long n = 0;
    for (auto &t : s.written) {
      const Tile &q = s.tile(t.first, t.second); auto it = before.find(t); Tile fresh; const Tile *o;
      if (it == before.end()) { fresh.assign(TILE_WORDS, 0); if (s.fill) s.fill(t.first, t.second, fresh.data()); o = &fresh; } else o = &it->second;
      if (q == *o) continue;
      for (int p = 0; p < TS * TS; p++) if (memcmp(&q[p * 4], &(*o)[p * 4], 8)) {
        long x = t.first * 64L + p % TS, y = t.second * 64L + p / TS; n++; bool in = false;
        for (int i = 0; i < roi.num_rectangles && !in; i++) in = x >= buf[i].x && y >= buf[i].y && x < buf[i].x + buf[i].width && y < buf[i].y + buf[i].height;
        if (!in) c.fail("uncovered", "pixel (%ld,%ld) changed but lies in none of the %d reported rectangles (%d offered, first (%d,%d %dx%d))", x, y, roi.num_rectangles, offered, buf[0].x, buf[0].y, buf[0].width, buf[0].height);
      }
    }
    if (n) changed_sections++; if (n && img.size() > 1) multi = true;
    for (int i = 0; i < roi.num_rectangles; i++) {
      const MyPaintRectangle &r = buf[i];
      if (r.width < 0 || r.height < 0) c.fail("shape", "rectangle %d has size %dx%d", i, r.width, r.height);
      if (r.width == 0 || r.height == 0) continue;
      auto inside = [&](const Box &b) { return r.x >= b.x0 && r.y >= b.y0 && r.x + r.width - 1 <= b.x1 && r.y + r.height - 1 <= b.y1; };
      if (!inside(hull)) c.fail("leak", "rectangle %d (%d,%d %dx%d) reaches beyond the dabs of this section (%ld,%ld..%ld,%ld)", i, r.x, r.y, r.width, r.height, hull.x0, hull.y0, hull.x1, hull.y1);
      if (offered >= (int)img.size()) {
        bool ok = false; for (auto &b : img) ok = ok || inside(b);
        if (!ok) c.fail("loose", "there is room for %d rectangles and %zu are needed, but rectangle %d (%d,%d %dx%d) is not within the bounds of the dabs of any one symmetry image", offered, img.size(), i, r.x, r.y, r.width, r.height);
      }
    }
  }
  if (changed_sections && multi) { c.nontrivial(); c.label("symmetric"); } else c.label("plain");
}
FACET(room, 4000, 200000, "1..4 sections of 1..8 dabs under changing symmetry (2..9 lines), room for every rectangle: pixel difference against the reported rectangles, and rectangles against independently computed bounds of each symmetry image; non-trivial: a mirrored dab changed pixels") { run(c, 9, 150, 4, true, 1 + c.below(4)); }
FACET(few, 4000, 200000, "the same with 1..22 rectangles offered") { run(c, 9, 150, 4, false, 1 + c.below(4)); }
FACET(big, 80, 3000, "as single and many, with dabs of a radius up to 500 and at most 4 images; non-trivial as there") { big_dabs = true; struct Off { ~Off() { big_dabs = false; } } off; run(c, 2, 400, 2, c.chance(1, 2), 1 + c.below(2)); }
FACET(many, 500, 25000, "2..120 lines (up to 240 images; the box array is reallocated), any number of rectangles offered") { run(c, c.chance(1, 2) ? 40 : 120, 90, 2, c.chance(1, 2), 1 + c.below(3)); }
FACET(single, 4000, 200000, "sections without symmetry; the rectangle must equal the hull of the dabs' bounding squares up to 1 pixel; non-trivial: >= 2 dabs") {
  TileSurf s; s.direct = true; s.c = &c; int n = 0;
  for (int k = 0, K = 1 + c.below(3); k < K; k++) {
    s.begin(); Box in, out; n = 0;
    while (c.more(3)) {
      Dab d = small_dab(c, 2000); c.log("%s", str(d).c_str()); if (!put(s.iface(), d)) continue; n++;
      in.add(ceil(d.x - d.radius) , ceil(d.y - d.radius), floor(d.x + d.radius) - 1, floor(d.y + d.radius) - 1);
      out.add(floor(d.x - d.radius - 1.001), floor(d.y - d.radius - 1.001), floor(d.x + d.radius + 1.001), floor(d.y + d.radius + 1.001));
    }
    MyPaintRectangle r[2] = {{5, 5, 5, 5}, {6, 6, 6, 6}}; MyPaintRectangles roi = {2, r}; s.end_(&roi); c.checkpoint();
    if (roi.num_rectangles != (n ? 1 : 0)) c.fail("count", "%d dabs without symmetry give %d rectangles", n, roi.num_rectangles);
    if (n && (r[0].x < out.x0 || r[0].y < out.y0 || r[0].x + r[0].width - 1 > out.x1 || r[0].y + r[0].height - 1 > out.y1)) c.fail("leak", "rectangle (%d,%d %dx%d) exceeds (%ld,%ld..%ld,%ld)", r[0].x, r[0].y, r[0].width, r[0].height, out.x0, out.y0, out.x1, out.y1);
    if (n >= 2) c.nontrivial();
  }
}
FACET(boxes, 3000, 100000, "the rectangle helpers applications use to merge what is reported: histories of adding points and rectangles to a rectangle that starts empty give exactly the bounding box; non-trivial: >= 3 additions") {
  MyPaintRectangle r = {(int)c.near(-99, 99, 0), (int)c.near(-99, 99, 0), 0, (int)c.below(3)}; bool any = c.chance(1, 3); long x0 = 0, y0 = 0, x1 = 0, y1 = 0; int n = 0;
  if (any) { r.width = 1 + c.below(300); r.height = 1 + c.below(300); x0 = r.x; y0 = r.y; x1 = r.x + r.width - 1; y1 = r.y + r.height - 1; }
  do {
    int R = c.pick({3, 100, 100000}); long x = c.near(-R, R, 0), y = c.near(-R, R, 0), w = 1, h = 1; n++;
    if (c.chance(1, 2)) { c.log("point (%ld,%ld)", x, y); mypaint_rectangle_expand_to_include_point(&r, x, y); }
    else { MyPaintRectangle o = {(int)x, (int)y, (int)(w = 1 + c.below(R)), (int)(h = 1 + c.below(R))}, o0 = o; c.log("rectangle (%ld,%ld %ldx%ld)", x, y, w, h); mypaint_rectangle_expand_to_include_rect(&r, &o); if (memcmp(&o, &o0, sizeof o)) c.fail("boxes", "the added rectangle changed"); }
    if (!any) { any = true; x0 = x; y0 = y; x1 = x + w - 1; y1 = y + h - 1; } else { x0 = std::min(x0, x); y0 = std::min(y0, y); x1 = std::max(x1, x + w - 1); y1 = std::max(y1, y + h - 1); }
    if (r.x != x0 || r.y != y0 || r.x + (long)r.width - 1 != x1 || r.y + (long)r.height - 1 != y1) c.fail("boxes", "the rectangle is (%d,%d %dx%d), the bounding box is (%ld,%ld %ldx%ld)", r.x, r.y, r.width, r.height, x0, y0, x1 - x0 + 1, y1 - y0 + 1);
  } while (c.more(8));
  if (n >= 3) c.nontrivial();
}
PBT_MAIN("C09", "at least one rectangle is offered", "tolerance of 0.02 px when bounding mirrored dabs, whose positions are computed in single precision by the library")
