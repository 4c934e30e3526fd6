// Random brushes and event streams shared by several properties.
#pragma once
#include "surfaces.hpp"
namespace pbt {
inline const MyPaintBrushSettingInfo *sinfo(int s) { return mypaint_brush_setting_info((MyPaintBrushSetting)s); }
inline const MyPaintBrushInputInfo *iinfo(int i) { return mypaint_brush_input_info((MyPaintBrushInput)i); }

// settings whose value multiplies the number of dabs
inline bool density(int s) { return s == SET(DABS_PER_ACTUAL_RADIUS) || s == SET(DABS_PER_BASIC_RADIUS) || s == SET(DABS_PER_SECOND) || s == SET(RADIUS_LOGARITHMIC) || s == SET(RADIUS_BY_RANDOM); }
inline bool random_setting(int s) { return s == SET(RADIUS_BY_RANDOM) || s == SET(OFFSET_BY_RANDOM) || s == SET(TRACKING_NOISE); }

// a base value in the published range of a setting
inline float gen_value(Case &c, int s) {
  const MyPaintBrushSettingInfo *i = sinfo(s);
  switch (c.below(6)) {
    case 0: return i->def;
    case 1: return i->min;
    case 2: return i->max;
    default: return c.real(i->min, i->max, i->def);
  }
}
inline void bound_density(Case &c, Brush &b) {
  // keep the number of dabs per event manageable: a few hundred at most
  b.set(SET(DABS_PER_ACTUAL_RADIUS), c.real(0, 6, 2)); b.set(SET(DABS_PER_BASIC_RADIUS), c.chance(1, 3) ? (float)c.real(0, 4, 0) : 0); b.set(SET(DABS_PER_SECOND), c.chance(1, 4) ? (float)c.real(0, 80, 0) : 0);
}
// settings that only change how a dab looks, not where or how large it is
inline bool appearance(int s) {
  static const int l[] = {SET(OPAQUE), SET(OPAQUE_MULTIPLY), SET(OPAQUE_LINEARIZE), SET(HARDNESS), SET(SOFTNESS), SET(COLOR_H), SET(COLOR_S), SET(COLOR_V), SET(CHANGE_COLOR_H), SET(CHANGE_COLOR_L), SET(CHANGE_COLOR_HSL_S), SET(CHANGE_COLOR_V), SET(CHANGE_COLOR_HSV_S), SET(SMUDGE), SET(PAINT_MODE), SET(SMUDGE_TRANSPARENCY), SET(SMUDGE_LENGTH), SET(SMUDGE_LENGTH_LOG), SET(SMUDGE_BUCKET), SET(ERASER), SET(LOCK_ALPHA), SET(COLORIZE), SET(POSTERIZE), SET(POSTERIZE_NUM), SET(ELLIPTICAL_DAB_ANGLE), SET(CUSTOM_INPUT), SET(CUSTOM_INPUT_SLOWNESS), SET(STROKE_DURATION_LOGARITHMIC), SET(DIRECTION_FILTER)};
  for (int k : l) if (k == s) return true; return false;
}
struct BrushOpts { bool randoms = true, curves = true; double rlo = -2, rhi = 4; int avg = 8; std::function<bool(int)> allow; bool smudge = true; bool cheap = false; /* paints on a real canvas: no picks of hundreds of pixels */ };
// changes a random subset of settings away from the default brush
inline void gen_brush(Case &c, Brush &b, const BrushOpts &o) {
  b.set(SET(RADIUS_LOGARITHMIC), c.real(o.rlo, o.rhi, 1));
  bound_density(c, b);
  while (c.more(o.avg)) {
    int s = c.below(MYPAINT_BRUSH_SETTINGS_COUNT);
    if (density(s) || (!o.randoms && random_setting(s)) || (o.allow && !o.allow(s))) continue;
    if (!o.smudge && (s == SET(SMUDGE) || s == SET(SMUDGE_BUCKET))) continue;
    float v = gen_value(c, s); if (o.cheap && s == SET(SMUDGE_RADIUS_LOG)) v = std::min(v, 1.0f); b.set(s, v); c.log("set %s %.9g", sname(s), v);
    if (o.curves && !sinfo(s)->constant && !(o.cheap && s == SET(SMUDGE_RADIUS_LOG)) && c.chance(1, 3)) {
      int in = c.below(MYPAINT_BRUSH_INPUTS_COUNT); if (!o.randoms && in == INP(RANDOM)) continue;
      const MyPaintBrushInputInfo *ii = iinfo(in);
      float lo = ii->hard_min > -1e6 ? ii->hard_min : ii->soft_min, hi = ii->hard_max < 1e6 ? ii->hard_max : ii->soft_max;
      int n = 2 + c.below(3); std::vector<float> xs; for (int k = 0; k < n; k++) xs.push_back(c.real(lo, hi, lo)); std::sort(xs.begin(), xs.end());
      std::vector<std::pair<float, float>> p; double span = sinfo(s)->max - sinfo(s)->min;
      for (float x : xs) p.push_back({x, (float)(c.real(-1, 1, 0) * span)});
      b.curve(s, in, p);
      if (c.tracing) { std::string t; char q[64]; for (auto &k : p) { snprintf(q, 64, " (%.9g,%.9g)", k.first, k.second); t += q; } c.log("curve %s <- %s:%s", sname(s), iname(in), t.c_str()); }
    }
  }
}
// settings are changed away and back in any order: what is derived from them must follow every change
inline void resettle(Case &c, Brush &b) {
  for (int n = c.below(4); n > 0; n--) {
    int s = c.chance(1, 2) ? c.pick({(int)SET(SPEED1_GAMMA), (int)SET(SPEED2_GAMMA), (int)SET(RADIUS_LOGARITHMIC), (int)SET(PRESSURE_GAIN_LOG)}) : c.below(MYPAINT_BRUSH_SETTINGS_COUNT), t = c.below(MYPAINT_BRUSH_SETTINGS_COUNT);
    float k = b.get(s), v = gen_value(c, s); b.set(s, v); b.set(t, b.get(t)); b.set(s, k); c.log("set %s %.9g, %s again, %s back to %.9g", sname(s), v, sname(t), sname(s), k);
  }
}
inline void copy_settings(MyPaintBrush *from, MyPaintBrush *to) {
  for (int s = 0; s < MYPAINT_BRUSH_SETTINGS_COUNT; s++) {
    MyPaintBrushSetting S = (MyPaintBrushSetting)s; mypaint_brush_set_base_value(to, S, mypaint_brush_get_base_value(from, S));
    for (int i = 0; i < MYPAINT_BRUSH_INPUTS_COUNT; i++) { MyPaintBrushInput I = (MyPaintBrushInput)i; int n = mypaint_brush_get_mapping_n(from, S, I); mypaint_brush_set_mapping_n(to, S, I, n);
      for (int k = 0; k < n; k++) { float x, y; mypaint_brush_get_mapping_point(from, S, I, k, &x, &y); mypaint_brush_set_mapping_point(to, S, I, k, x, y); } }
  }
}
// a colour for a pick that depends on nothing but the pick
inline void pick_color(const RecSurf::Pick &p, float *c) {
  double u = p.x * 0.37 + p.y * 0.11 + p.radius * 0.05; for (int i = 0; i < 4; i++) { double v = u * (i + 1) * 0.7 + i; c[i] = v - floor(v); } if (((long)floor(u)) % 5 == 0) c[3] = 1; if (((long)floor(u)) % 7 == 0) c[3] = 0;
}
struct Pen {   // a wandering pen producing ordinary events
  float x, y, p = 0.5, xt = 0, yt = 0, zoom = 1, rot = 0, barrel = 0;
  bool tilt, view;
  Pen(Case &c, float x0, float y0) : x(x0), y(y0) { tilt = c.chance(1, 3); view = c.chance(1, 4); if (view) { zoom = c.pick({1.0f, 2.0f, 0.5f, 0.25f}); rot = c.near(-180, 180, 0); } if (tilt) barrel = c.real(-1, 1, 0); }
  Event next(Case &c, double step) {
    switch (c.below(6)) { case 0: break; case 1: x += step * 0.1 * c.near(-4, 4, 0); break; default: x += c.real(-step, step, step / 2); y += c.real(-step, step, step / 4); }
    switch (c.below(5)) { case 0: p = 0; break; case 1: p = 1; break; default: p = c.real(0, 1, 0.5); }
    if (tilt) { xt = c.real(-1, 1, 0); yt = c.real(-1, 1, 0); }
    double dt; switch (c.below(6)) { case 0: dt = 0; break; case 1: dt = c.real(0, 2, 0.5); break; default: dt = c.real(0.001, 0.05, 0.01); }
    return Event{x, y, p, xt, yt, dt, zoom, rot, barrel, (int)c.below(2)};
  }
};
}  // namespace pbt
