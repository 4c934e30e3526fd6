// C10: symmetric painting equals painting every transformed dab.
#include "refdab.hpp"
#include "symm.hpp"
extern "C" {
#include "mypaint-matrix.h"
}
using namespace pbt;

static Dab sdab(Case &c, double reach) {
  Dab d = plain_dab(0, 0, 5); d.radius = c.real(3.5, 14, 6); d.x = c.real(-reach, reach, 20); d.y = c.real(-reach, reach, 7);
  d.hardness = c.real(0.2, 0.7, 0.5); d.aspect = c.chance(2, 3) ? (float)c.real(1, 3, 2) : 1; d.angle = c.chance(1, 4) ? 0 : (float)c.real(-360, 360, 30);
  d.r = 1; d.g = 0.25; d.b = 0; d.opaque = c.real(0.1, 1, 1); d.softness = c.chance(1, 4) ? (float)c.real(0, 0.6, 0) : 0;
  return d;
}
static void run(Case &c, int maxlines, double reach, int sections) {
  TileSurf a, b; a.direct = b.direct = true; a.c = b.c = &c;
  SymmModel m; size_t most = 1; long drawn = 0; double mass = 0; std::set<int> types;
  for (int k = 0; k < sections; k++) {
    if (c.chance(3, 4)) { Symm y = gen_symm(c, maxlines, reach / 2); apply(&a.t, y); m.set(y); c.log("%s", str(y).c_str());
      if (c.chance(1, 5)) { y = gen_symm(c, maxlines, reach / 2); apply(&a.t, y); m.set(y); c.log("%s", str(y).c_str()); } }
    c.log("begin"); a.begin(); m.begin(); b.begin();
    int left = c.below(4);
    do {
      if (c.chance(1, 8)) { Symm y = c.chance(1, 2) ? m.pending : gen_symm(c, maxlines, reach / 2); y.active = c.chance(1, 2); apply(&a.t, y); m.set(y); c.log("  %s", str(y).c_str()); }
      Dab d = sdab(c, reach); c.log("  %s", str(d).c_str());
      if (c.chance(1, 10)) d.opaque = 0;
      int ra = put(a.iface(), d);
      auto im = images(m.current, d.x, d.y, d.angle); int rb = 0;
      if (d.opaque > 0 && im.size() > 1) { most = std::max(most, im.size()); types.insert(m.current.type); }
      for (auto &i : im) { Dab e = d; e.x = i.x; e.y = i.y; e.angle = fmod(i.angle, 360); rb |= put(b.iface(), e); drawn++; }
      if (!!ra != !!rb) c.fail("result", "dab reported %d, its images %d", ra, rb);
    } while (left-- > 0);
    a.end_(); b.end_(); c.checkpoint();
  }
  for (int t : types) { static const char *n[] = {"vertical", "horizontal", "verthorz", "rotational", "snowflake"}; c.label(n[t]); }
  if (most > 1) c.nontrivial();
  std::set<TIdx> keys = a.written; keys.insert(b.written.begin(), b.written.end());
  double tol = 110 + 3 * drawn;
  for (auto &k : keys) {
    Tile &p = a.tile(k.first, k.second), &q = b.tile(k.first, k.second);
    for (int i = 0; i < TILE_WORDS; i++) { c.stat(fabs((double)p[i] - q[i]) / tol); if (fabs((double)p[i] - q[i]) > tol) c.fail("symmetry", "pixel (%d,%d) channel %d is %d, painting every image separately gives %d", k.first * 64 + i / 4 % TS, k.second * 64 + i / 4 / TS, i % 4, p[i], q[i]); }
  }
}
FACET(groups, 4000, 200000, "1..3 sections of 1..4 dabs under any of the five groups (2..8 lines, any centre and angle), with re-configuration between and inside sections, against a plain surface on which every image (computed in double precision) is drawn; pixels equal within 0.4%; non-trivial: a dab had images") { run(c, 8, 120, 1 + c.below(3)); }
FACET(many, 500, 25000, "the same with up to 60 lines") { run(c, 60, 90, 1 + c.below(2)); }
// exact: symmetry off equals the plain surface bit for bit, whatever was configured before
FACET(off, 3000, 150000, "symmetry configured, used and switched off (between or inside sections), then dabs of any kind: bit-identical to a surface that never had symmetry; non-trivial: symmetry had been used") {
  TileSurf a, b; a.direct = b.direct = true; a.c = b.c = &c; bool used = false;
  Symm y = gen_symm(c, 20, 100); y.active = true; c.log("%s", str(y).c_str()); apply(&a.t, y);
  a.begin(); if (c.chance(2, 3)) { Dab d = sdab(c, 60); c.log("%s", str(d).c_str()); put(a.iface(), d); used = true; }
  if (c.chance(1, 2)) { a.end_(); if (c.chance(1, 2)) y = gen_symm(c, 20, 100); y.active = false; apply(&a.t, y); c.log("%s", str(y).c_str()); a.begin(); }
  else { if (c.chance(1, 2)) y = gen_symm(c, 20, 100); y.active = false; apply(&a.t, y); c.log("%s (inside the section)", str(y).c_str()); float q[4]; mypaint_surface_get_color(a.iface(), 0, 0, 5, q, q + 1, q + 2, q + 3, -1); }
  // wipe what was painted so far
  a.end_(); a.tiles.clear(); a.begin(); b.begin();
  do { Dab d = gen_dab(c, 60); c.log("%s", str(d).c_str()); put(a.iface(), d); put(b.iface(), d); } while (c.more(3));
  MyPaintRectangle ra[8], rb[8]; MyPaintRectangles ia = {8, ra}, ib = {8, rb}; a.end_(&ia); b.end_(&ib); c.checkpoint();
  if (used) c.nontrivial();
  std::set<TIdx> keys; for (auto &k : a.tiles) keys.insert(k.first); for (auto &k : b.tiles) keys.insert(k.first);
  for (auto &k : keys) if (a.tile(k.first, k.second) != b.tile(k.first, k.second)) c.fail("off", "tile (%d,%d) differs from painting without symmetry", k.first, k.second);
  if (ia.num_rectangles != ib.num_rectangles || (ia.num_rectangles && memcmp(ra, rb, sizeof ra[0]))) c.fail("off", "dirty rectangles differ from painting without symmetry (%d vs %d)", ia.num_rectangles, ib.num_rectangles);
}
// strokes: symmetry never alters the stroke itself
FACET(first, 3000, 150000, "the plain dab is always among the images and is painted exactly: with images falling far outside a window, the window is bit-identical to plain painting; non-trivial: symmetry on") {
  TileSurf a, b; a.direct = b.direct = true; a.c = b.c = &c;
  Symm y; y.active = true; y.type = c.below(5); y.lines = 2 + c.below(9); double R = 3000; 
  y.angle = y.type == MYPAINT_SYMMETRY_TYPE_HORIZONTAL ? 0 : y.type == MYPAINT_SYMMETRY_TYPE_VERTICAL ? 0 : 0; 
  // the window lies around the origin; the centre is chosen so that no image returns to it
  double dir = (y.type == MYPAINT_SYMMETRY_TYPE_VERTICAL ? 0 : y.type == MYPAINT_SYMMETRY_TYPE_HORIZONTAL ? 90 : y.type == MYPAINT_SYMMETRY_TYPE_SNOWFLAKE ? 90.0 / y.lines : 45) * M_PI / 180;
  y.cx = -R * cos(dir); y.cy = R * sin(dir); apply(&a.t, y); c.log("%s", str(y).c_str());
  a.begin(); b.begin(); bool any = false;
  do { Dab d = gen_dab(c, 40); d.x = c.real(-60, 60, 0); d.y = c.real(-60, 60, 0); if (d.radius > 40) d.radius = 40; c.log("%s", str(d).c_str()); int ra = put(a.iface(), d), rb = put(b.iface(), d); if (!!ra != !!rb) c.fail("result", "dab reported %d with and %d without symmetry", ra, rb); any |= !!rb; } while (c.more(2));
  a.end_(); b.end_(); c.checkpoint(); if (any) c.nontrivial();
  for (int tx = -2; tx <= 1; tx++) for (int ty = -2; ty <= 1; ty++) if (a.tile(tx, ty) != b.tile(tx, ty)) c.fail("first", "tile (%d,%d) differs from plain painting although all images are far away", tx, ty);
  if (any) { long far = 0; for (auto &t : a.written) if (abs(t.first) > 6 || abs(t.second) > 6) far++; if (!far) c.fail("first", "no image was painted"); }
}
FACET(transforms, 3000, 100000, "the transforms symmetry is made of: chains of rotations, reflections and translations applied to points against double precision (each step acts on the result of the ones before), a chain followed by its inverse leads back, the source transform is not changed; non-trivial: >= 3 steps of >= 2 kinds") {
  struct D { double m[2][3]; } ref = {{{1, 0, 0}, {0, 1, 0}}}; MyPaintTransform t = mypaint_transform_unit(); int n = 1 + c.below(8), kinds = 0; struct Step { int k; float a, b; }; std::vector<Step> steps; double size = 1;
  auto step = [&](MyPaintTransform u, const Step &s) { switch (s.k) { case 0: return mypaint_transform_rotate_cw(u, s.a); case 1: return mypaint_transform_rotate_ccw(u, s.a); case 2: return mypaint_transform_reflect(u, s.a); default: return mypaint_transform_translate(u, s.a, s.b); } };
  for (int i = 0; i < n; i++) {
    Step s = {(int)c.below(4), 0, 0}; if (s.k == 3) { s.a = c.real(-300, 300, 10); s.b = c.real(-300, 300, 0); size += hypot(s.a, s.b); } else s.a = c.chance(1, 3) ? (float)(c.near(-8, 8, 1) * M_PI / 4) : (float)c.real(-7, 7, 1);
    c.log("%s %g %g", s.k == 0 ? "clockwise" : s.k == 1 ? "counter-clockwise" : s.k == 2 ? "reflect" : "translate", s.a, s.b); steps.push_back(s); kinds |= 1 << s.k; double a = s.a, f[2][3] = {{1, 0, 0}, {0, 1, 0}};
    // y points down: clockwise on the canvas turns x towards -y in these coordinates
    switch (s.k) { case 0: f[0][0] = f[1][1] = cos(a); f[0][1] = sin(a); f[1][0] = -sin(a); break; case 1: f[0][0] = f[1][1] = cos(a); f[0][1] = -sin(a); f[1][0] = sin(a); break; case 2: f[0][0] = cos(2 * a); f[1][1] = -cos(2 * a); f[0][1] = f[1][0] = sin(2 * a); break; default: f[0][2] = s.a; f[1][2] = s.b; }
    D o; for (int r = 0; r < 2; r++) for (int k = 0; k < 3; k++) o.m[r][k] = f[r][0] * ref.m[0][k] + f[r][1] * ref.m[1][k] + (k == 2 ? f[r][2] : 0); ref = o;
    MyPaintTransform before = t, u = step(t, s); if (memcmp(&before, &t, sizeof t)) c.fail("transform", "the source transform changed"); t = u;
  }
  auto check = [&](const MyPaintTransform &q, const D &d, const char *what) { for (int k = 0; k < 4; k++) { float x = c.real(-500, 500, k == 1), y = c.real(-500, 500, k == 2), ox, oy; mypaint_transform_point(&q, x, y, &ox, &oy); double wx = d.m[0][0] * x + d.m[0][1] * y + d.m[0][2], wy = d.m[1][0] * x + d.m[1][1] * y + d.m[1][2], tol = 1e-6 * (2 * n + 2) * (size + fabs(x) + fabs(y)); c.stat(hypot(ox - wx, oy - wy) / tol); if (hypot(ox - wx, oy - wy) > tol) c.fail("transform", "%s moves (%g,%g) to (%.7g,%.7g) instead of (%.7g,%.7g)", what, x, y, ox, oy, wx, wy); } };
  check(t, ref, "the chain"); for (int i = n - 1; i >= 0; i--) { Step s = steps[i]; if (s.k == 3) s.a = -s.a, s.b = -s.b; else if (s.k < 2) s.k = 1 - s.k; t = step(t, s); } check(t, D{{{1, 0, 0}, {0, 1, 0}}}, "the chain and its inverse");
  if (n >= 3 && (kinds & (kinds - 1))) c.nontrivial();
}
PBT_MAIN("C10", "positions of mirrored dabs are computed in single precision by the library: radius >= 3.5, hardness <= 0.7, aspect <= 3 and a 0.4% pixel tolerance in the facets that compare images")
