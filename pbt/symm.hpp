// Independent model of the symmetry groups, in double precision: the images of a dab.
#pragma once
#include "surfaces.hpp"
namespace pbt {
struct Symm { bool active = false; int type = MYPAINT_SYMMETRY_TYPE_VERTICAL; double cx = 0, cy = 0, angle = 0; int lines = 2; };
inline std::string str(const Symm &s) {
  static const char *n[] = {"vertical", "horizontal", "verthorz", "rotational", "snowflake"};
  char b[160]; snprintf(b, 160, "symmetry %s %s centre (%.9g,%.9g) angle %.9g lines %d", s.active ? "on" : "off", n[s.type], s.cx, s.cy, s.angle, s.lines); return b;
}
struct Img { double x, y, angle; };   // position and angle of a dab image
// positions are in y-down pixel coordinates, angles as the dab's own angle (direction (cos,sin) of its long axis)
inline Img reflect_(const Symm &s, const Img &i, double axis) {  // axis: angle of the mirror line as a direction (cos,sin)
  double a = axis * M_PI / 180, c = cos(2 * a), t = sin(2 * a), dx = i.x - s.cx, dy = i.y - s.cy;
  return {s.cx + c * dx + t * dy, s.cy + t * dx - c * dy, 2 * axis - i.angle};
}
inline Img rotate_(const Symm &s, const Img &i, double deg) {
  double a = deg * M_PI / 180, c = cos(a), t = sin(a), dx = i.x - s.cx, dy = i.y - s.cy;
  return {s.cx + c * dx - t * dy, s.cy + t * dx + c * dy, i.angle + deg};
}
// all images including the original
inline std::vector<Img> images(const Symm &s0, double x, double y, double angle) {
  Symm s = s0; s.lines = std::max(2, s.lines);
  Img o{x, y, angle}; std::vector<Img> r{o}; if (!s.active) return r;
  // symmetry angles turn counter-clockwise as seen on the (y-down) screen
  switch (s.type) {
    case MYPAINT_SYMMETRY_TYPE_VERTICAL: r.push_back(reflect_(s, o, -s.angle - 90)); break;
    case MYPAINT_SYMMETRY_TYPE_HORIZONTAL: r.push_back(reflect_(s, o, -s.angle)); break;
    case MYPAINT_SYMMETRY_TYPE_VERTHORZ: r.push_back(reflect_(s, o, -s.angle)); r.push_back(rotate_(s, o, 180)); r.push_back(reflect_(s, o, -s.angle - 90)); break;
    case MYPAINT_SYMMETRY_TYPE_ROTATIONAL: for (int k = 1; k < s.lines; k++) r.push_back(rotate_(s, o, -360.0 * k / s.lines)); break;
    case MYPAINT_SYMMETRY_TYPE_SNOWFLAKE:
      for (int k = 1; k < s.lines; k++) r.push_back(rotate_(s, o, -360.0 * k / s.lines));
      for (int k = 0; k < s.lines; k++) r.push_back(reflect_(s, o, -s.angle - 180.0 * k / s.lines)); break;
  }
  return r;
}
inline void apply(MyPaintTiledSurface *t, const Symm &s) { mypaint_tiled_surface_set_symmetry_state(t, s.active, s.cx, s.cy, s.angle, (MyPaintSymmetryType)s.type, s.lines); }
inline Symm gen_symm(Case &c, int maxlines, double reach) {
  Symm s; s.active = c.chance(5, 6); s.type = c.below(5);
  switch (c.below(4)) { case 0: break; case 1: s.cx = 32; s.cy = 32; break; default: s.cx = (float)c.real(-reach, reach, 10); s.cy = (float)c.real(-reach, reach, 10); }
  switch (c.below(4)) { case 0: break; case 1: s.angle = 45 * c.near(-4, 8, 1); break; default: s.angle = (float)c.real(-360, 360, 30); }
  s.lines = c.chance(1, 3) ? 2 + c.below(maxlines - 1) : 2 + c.below(std::min(7, maxlines - 1));
  if (c.chance(1, 20)) s.lines = c.pick({1, 0, -3});   // fewer than two lines mean two
  return s;
}
// what is in force: a change is pending until the next section starts, except for switching on and off
struct SymmModel {
  Symm current, pending;   // a new surface: off, vertical through the origin
  void set(const Symm &s) { pending = s; current.active = s.active; }
  void begin() { current = pending; }
};
}  // namespace pbt
