// C03: a setting = base value + sum of piecewise-linear curves.
#include "surfaces.hpp"
using namespace pbt;

struct Curve { std::vector<std::pair<float, float>> p; };

static double eval(const Curve &k, double x, double &mag) {
  if (k.p.empty()) return 0;
  // segment: the first one whose right end is >= x, otherwise the last one
  size_t s = 0;
  while (s + 2 < k.p.size() && x > k.p[s + 1].first) s++;
  double x0 = k.p[s].first, y0 = k.p[s].second, x1 = k.p[s + 1].first, y1 = k.p[s + 1].second;
  if (x0 == x1 || y0 == y1) { mag += fabs(y0); return y0; }
  mag += (fabs(y1 * (x - x0)) + fabs(y0 * (x1 - x))) / fabs(x1 - x0);
  return y0 + (y1 - y0) * ((x - x0) / (x1 - x0));
}

static float gen_x(Case &c) {
  switch (c.below(5)) {
    case 0: return (float)c.range(0, 4) / 4;
    case 1: return c.real(-2, 2, 0);
    case 2: return c.real(-200, 200, 0);
    case 3: return c.real(0, 1, 0);
    default: return (float)c.near(-8, 8, 0);
  }
}
static float gen_y(Case &c) {
  switch (c.below(4)) {
    case 0: return (float)c.near(-2, 2, 0);
    case 1: return c.real(-1, 1, 0);
    case 2: return c.real(-20, 20, 0);
    default: return c.real(-400, 400, 0);
  }
}
static int gen_n(Case &c) { int k = c.below(8); return k == 0 ? 0 : k < 6 ? 2 + c.below(4) : k == 6 ? 2 + c.below(63) : 64 - c.below(3); }
// n points with non-decreasing x and frequent duplicates in x or y
static std::vector<std::pair<float, float>> gen_points(Case &c, int n) {
  std::vector<float> xs(n);
  for (auto &x : xs) x = gen_x(c);
  for (int i = 1; i < n; i++) if (c.chance(1, 6)) xs[i] = xs[i - 1];
  std::sort(xs.begin(), xs.end());
  std::vector<std::pair<float, float>> p(n);
  for (int i = 0; i < n; i++) p[i] = {xs[i], i && c.chance(1, 5) ? p[i - 1].second : gen_y(c)};
  return p;
}
static std::string show(const Curve &k) {
  std::string s = "["; char b[64];
  for (auto &q : k.p) { snprintf(b, 64, "(%.9g,%.9g)", q.first, q.second); s += b; }
  return s + "]";
}

// The same edit history on a stand-alone mapping and on the model.
FACET(mapping, 60000, 2000000, "histories of set_base/set_n/set_point/calculate on a stand-alone mapping with 1..18 inputs, inputs aimed at knots, between knots and beyond both ends; non-trivial: at least one evaluation with >= 1 curve") {
  int N = 1 + c.below(18);
  MyPaintMapping *m = mypaint_mapping_new(N);
  struct Guard { MyPaintMapping *m; ~Guard() { mypaint_mapping_free(m); } } guard{m};
  std::vector<Curve> model(N);
  double base = 0;
  int evals = 0;
  while (c.more(12)) {
    switch (c.below(6)) {
      case 0: { float v = gen_y(c); base = v; mypaint_mapping_set_base_value(m, v); c.log("base=%.9g", v); break; }
      case 1: case 2: {   // (re)define a curve
        int i = c.below(N), n = gen_n(c);
        auto p = gen_points(c, n);
        mypaint_mapping_set_n(m, i, n);
        for (int k = 0; k < n; k++) mypaint_mapping_set_point(m, i, k, p[k].first, p[k].second);
        model[i].p = p; c.log("curve input %d: %s", i, show(model[i]).c_str());
        break;
      }
      case 3: {           // shrink, or move one point within its neighbours
        int i = c.below(N); auto &p = model[i].p; if (p.empty()) break;
        if (c.chance(1, 3) && p.size() > 2) { int n = c.chance(1, 3) ? 0 : 2 + c.below(p.size() - 1); p.resize(n); mypaint_mapping_set_n(m, i, n); c.log("input %d: n=%d", i, n); }
        else {
          int k = c.below(p.size()); float lo = k ? p[k - 1].first : p[k].first - 2, hi = k + 1 < (int)p.size() ? p[k + 1].first : p[k].first + 2;
          float x = c.real(lo, hi, lo); if (x < lo) x = lo; if (x > hi) x = hi;
          float y = gen_y(c); p[k] = {x, y}; mypaint_mapping_set_point(m, i, k, x, y); c.log("input %d point %d = (%.9g,%.9g)", i, k, x, y);
        }
        break;
      }
      default: {
        float data[32]; double expect = base, mag = fabs(base); bool any = false;
        for (int i = 0; i < N; i++) {
          auto &p = model[i].p; float x;
          switch (p.empty() ? 9 : (int)c.below(5)) {
            case 0: x = p[c.below(p.size())].first; break;                                   // exactly at a knot
            case 1: { int k = c.below(p.size() - 1); x = c.real(p[k].first, p[k + 1].first); break; }
            case 2: x = p[0].first - c.real(0, 3, 0.5); break;
            case 3: x = p.back().first + c.real(0, 3, 0.5); break;
            default: x = gen_x(c);
          }
          data[i] = x; any |= !p.empty();
          expect += eval(model[i], x, mag);
        }
        float got = mypaint_mapping_calculate(m, data);
        double tol = 3e-6 * mag + 1e-30;
        if (any) { evals++; c.nontrivial(); }
        if (!(fabs(got - expect) <= tol)) {
          std::string s; for (int i = 0; i < N; i++) { char b[64]; snprintf(b, 64, " in%d=%.9g", i, data[i]); s += b + show(model[i]); }
          c.fail("value", "calculate gave %.9g, expected %.9g (tolerance %.3g); base %.9g%s", got, expect, tol, base, s.c_str());
        }
        c.stat(mag > 0 ? fabs(got - expect) / tol : 0);
        if (N == 1) { float g1 = mypaint_mapping_calculate_single_input(m, data[0]); if (g1 != got) c.fail("single", "single-input evaluation %.9g differs from %.9g", g1, got); }
      }
    }
    // bookkeeping agrees after every step
    int used = 0;
    for (int i = 0; i < N; i++) {
      used += !model[i].p.empty();
      if (mypaint_mapping_get_n(m, i) != (int)model[i].p.size()) c.fail("get_n", "input %d: get_n %d, expected %zu", i, mypaint_mapping_get_n(m, i), model[i].p.size());
      for (size_t k = 0; k < model[i].p.size(); k++) {
        float x, y; mypaint_mapping_get_point(m, i, k, &x, &y);
        if (x != model[i].p[k].first || y != model[i].p[k].second) c.fail("get_point", "input %d point %zu: (%.9g,%.9g), expected (%.9g,%.9g)", i, k, x, y, model[i].p[k].first, model[i].p[k].second);
      }
    }
    if (mypaint_mapping_get_inputs_used_n(m) != used) c.fail("inputs_used", "inputs used %d, expected %d", mypaint_mapping_get_inputs_used_n(m), used);
    if (!!mypaint_mapping_is_constant(m) != (used == 0)) c.fail("is_constant", "is_constant %d with %d curves", mypaint_mapping_is_constant(m), used);
    if (mypaint_mapping_get_base_value(m) != (float)base) c.fail("base", "base value %.9g, expected %.9g", mypaint_mapping_get_base_value(m), base);
  }
  char l[32]; snprintf(l, 32, "evals:%s", evals == 0 ? "0" : evals < 4 ? "1-3" : "4+"); c.label(l);
}

// Through the brush: dabs carry base + curves of the current inputs, for every directly visible setting.
FACET(brush, 16000, 500000, "brush with random curves on dab-visible settings over inputs held constant (pressure, tilt, zoom, radius); each dab's parameter compared with the model; non-trivial: >= 1 dab drawn and >= 1 curve") {
  Brush b;
  for (int s = 0; s < MYPAINT_BRUSH_SETTINGS_COUNT; s++) for (int i = 0; i < MYPAINT_BRUSH_INPUTS_COUNT; i++) mypaint_brush_set_mapping_n(b, (MyPaintBrushSetting)s, (MyPaintBrushInput)i, 0);
  b.set(SET(OPAQUE), 1); b.set(SET(OPAQUE_MULTIPLY), 1); b.set(SET(OPAQUE_LINEARIZE), 0); b.set(SET(ANTI_ALIASING), 0);
  float rlog = c.real(-1, 3, 1); b.set(SET(RADIUS_LOGARITHMIC), rlog);
  b.set(SET(DABS_PER_ACTUAL_RADIUS), 2);
  struct Vis { int setting, field; double lo, hi; };
  static const Vis vis[] = {{SET(HARDNESS), 7, 0, 1}, {SET(SOFTNESS), 8, 0, 1}, {SET(LOCK_ALPHA), 12, -1e9, 1e9}, {SET(COLORIZE), 13, -1e9, 1e9}, {SET(POSTERIZE), 14, -1e9, 1e9}, {SET(POSTERIZE_NUM), 15, -1e9, 1e9}, {SET(PAINT_MODE), 16, 0, 1}, {SET(OPAQUE), 6, 0, 1}};
  static const int ins[] = {INP(PRESSURE), INP(TILT_DECLINATION), INP(TILT_DECLINATIONX), INP(TILT_DECLINATIONY), INP(BRUSH_RADIUS), INP(VIEWZOOM)};
  float p = c.real(0.01, 1, 0.5), xt = c.chance(1, 2) ? c.real(-1, 1, 0.25) : 0, yt = xt != 0 ? c.real(-1, 1, 0.25) : 0, zoom = c.pick({1.0f, 0.5f, 2.0f, 4.0f, 0.25f});
  double tdec = 90, tdx = 0, tdy = 0;
  if (xt != 0 || yt != 0) { tdec = 90 - hypot(xt, yt) * 60; tdx = xt * 60; tdy = yt * 60; }
  double val[6] = {p, tdec, tdx, tdy, rlog, log(zoom)};
  std::map<int, std::map<int, Curve>> curves; std::map<int, float> base;
  bool any = false;
  for (auto &v : vis) {
    float bv = c.real(-1, 1, v.setting == SET(OPAQUE) ? 1 : 0.5); base[v.setting] = bv; b.set(v.setting, bv);
    while (c.more(1)) {
      int k = c.below(6), n = 2 + c.below(4);
      std::vector<float> xs; for (int q = 0; q < n; q++) xs.push_back(c.chance(1, 3) ? (float)val[k] + c.near(-2, 2, 0) : (float)val[k] * (float)c.real(0.3, 2, 1) + (float)c.real(-2, 2, 0));
      std::sort(xs.begin(), xs.end());
      Curve cu; for (int q = 0; q < n; q++) cu.p.push_back({xs[q], (float)c.real(-1, 1, 0)});
      // keep it well conditioned: a knot right at a rounded input would make either side legitimate
      bool bad = false; for (size_t q = 1; q < cu.p.size(); q++) if (cu.p[q].first - cu.p[q - 1].first < 0.05) bad = true;
      if (bad) continue;
      b.curve(v.setting, ins[k], cu.p); curves[v.setting][k] = cu; any = true;
      c.log("%s <- %s %s", sname(v.setting), iname(ins[k]), show(cu).c_str());
    }
  }
  RecSurf s;
  Event e = {10, 10, p, xt, yt, 0.01, zoom, 0, 0, 0};
  c.log("%s", str(e).c_str());
  stroke(b, s.iface(), e); e.dtime = 0.01; stroke(b, s.iface(), e); stroke(b, s.iface(), e);
  s.dabs.clear();
  e.x += 6 * expf(rlog); e.dtime = 0.05; stroke(b, s.iface(), e);
  e.x += 6 * expf(rlog); stroke(b, s.iface(), e);
  if (any && !s.dabs.empty()) c.nontrivial();
  if (s.dabs.empty()) c.fail("nodabs", "a stroke of 12 radii at 2 dabs per radius painted nothing");
  for (auto &v : vis) {
    double expect = base[v.setting], mag = fabs(expect);
    for (auto &kv : curves[v.setting]) expect += eval(kv.second, val[kv.first], mag);
    if (v.lo == 0) expect = std::min(std::max(expect, v.lo), v.hi);
    for (auto &d : s.dabs) {
      double got = d.v()[v.field], tol = 2e-4 * mag + 1e-5 + 1e-3 * 0;
      if (!(fabs(got - expect) <= tol)) c.fail("dab", "%s reached the dab as %.9g, model says %.9g (tolerance %.2g)", sname(v.setting), got, expect, tol);
    }
    if (b.get(v.setting) != base[v.setting]) c.fail("basechanged", "%s base value changed by painting", sname(v.setting));
    int used = curves[v.setting].size();
    if (mypaint_brush_get_inputs_used_n(b, (MyPaintBrushSetting)v.setting) != used) c.fail("inputs_used", "%s inputs used %d, expected %d", sname(v.setting), mypaint_brush_get_inputs_used_n(b, (MyPaintBrushSetting)v.setting), used);
    if (!!mypaint_brush_is_constant(b, (MyPaintBrushSetting)v.setting) != !used) c.fail("is_constant", "%s is_constant wrong", sname(v.setting));
  }
}

PBT_MAIN("C03", "curve points are set in order, as the API requires", "float evaluation may round: tolerance 3e-6 of the magnitudes involved")
