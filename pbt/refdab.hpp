// Independent reference for the shape of a dab, with rounding tolerance: every strength is an
// interval [lo,hi] (fraction of full strength) that a correct implementation must land in.
#pragma once
#include "surfaces.hpp"
namespace pbt {

struct Range { double lo, hi; void join(const Range &o) { lo = std::min(lo, o.lo); hi = std::max(hi, o.hi); } };

struct RefDab {
  double x, y, r, h, s, asp, cs, sn, tol0;
  RefDab(const Dab &d) {
    x = d.x; y = d.y; r = d.radius;
    h = std::min(1.0, std::max(0.0, (double)d.hardness)); s = std::min(1.0, std::max(0.0, (double)d.softness));
    asp = std::max(1.0, (double)d.aspect);
    double a = (double)d.angle / 180 * M_PI; cs = cos(a); sn = sin(a);
    tol0 = 1e-6 + 2.5e-7 * fabs(a);
  }
  bool visible(const Dab &d) const { return d.radius >= 0.1f && d.opaque > 0 && d.hardness > 0 && d.softness < 1; }
  double opa1(double rr) const {
    if (rr > 1) return 0;
    double o = rr <= h ? 1 - rr * (1 / h - 1) : h / (1 - h) * (1 - rr);
    return std::min(1.0, std::max(0.0, o)) * (1 - s);
  }
  // strength for a squared normalised distance known up to +-t
  Range opa(double rr, double t) const {
    // float evaluation of the outer segment cancels near rr = 1 when the hardness is close to 1
    double slack = h < 1 ? 4e-7 * h / (1 - h) : 0;
    if (rr - t > 1) slack = 0;
    return {std::max(0.0, opa1(rr + t) - slack), std::min(1 - s, opa1(rr - t) + slack)};
  }
  double sq(double px, double py) const {  // squared length in the dab's frame, px,py relative to the centre
    double u = px * cs + py * sn, v = (py * cs - px * sn) * asp;
    return u * u + v * v;
  }
  double err(double px, double py) const { // error of sq() in single precision
    double l = fabs(px) + fabs(py) + 1e-3;
    double v = fabs(py * cs - px * sn) * asp, dv = l * asp * tol0 * 2, u = fabs(px * cs + py * sn), du = l * tol0 * 2;
    return 2 * (v * dv + u * du) + dv * dv + du * du;
  }
  Range strength(long px, long py) const {
    if (r >= 3) {
      double dx = px + 0.5 - x, dy = py + 0.5 - y, r2 = r * r;
      return opa(sq(dx, dy) / r2, err(dx, dy) / r2 + 3e-7);
    }
    return small(px, py);
  }
  // radius < 3: the strength at the point of the pixel nearest to the dab's axis, reduced by how much
  // further out the point one unit-area-disc radius away is ("visibility / (1 + delta)").
  Range small(long px, long py) const {
    double right = x - px, bottom = y - py, cx = right - 0.5, cy = bottom - 0.5, left = right - 1, top = bottom - 1, r2 = r * r;
    const double eps = 2e-6 * (1 + 3) + 3e-6 * 0;
    double nx, ny; Range res{2, -1};
    auto add = [&](const Range &q) { if (res.hi < res.lo) res = q; else res.join(q); };
    bool in = left < 0 && right > 0 && top < 0 && bottom > 0;
    bool edge = (fabs(left) < eps || fabs(right) < eps || fabs(top) < eps || fabs(bottom) < eps);
    double t = cx * cs + cy * sn;
    nx = std::min(std::max(cs * t, left), right); ny = std::min(std::max(sn * t, top), bottom);
    double nearsq = sq(nx, ny), nerr = err(nx, ny) + 2e-6;
    for (int branch = 0; branch < 2; branch++) {   // centre inside the pixel / not
      if (branch == 0 && !(in || (edge && left < eps && right > -eps && top < eps && bottom > -eps))) continue;
      if (branch == 1 && in && !edge) continue;
      double ax = branch ? nx : 0, ay = branch ? ny : 0, rn = branch ? nearsq / r2 : 0, tn = branch ? nerr / r2 + 3e-7 : 0;
      if (rn > 1 - tn) add(opa(rn, tn));
      if (rn > 1 + tn) continue;
      double side = (cx - cs) * sn - cs * (cy + sn);   // which side of the axis the pixel centre lies on
      for (int f = 0; f < 2; f++) {
        if (f == 0 && side >= eps * 4) continue;
        if (f == 1 && side < -eps * 4) continue;
        double k = (f == 0 ? -1 : 1) * sqrt(1 / M_PI), fx = ax + sn * k, fy = ay - cs * k;
        double farsq = sq(fx, fy), ferr = err(fx, fy) + 2e-6, rf = farsq / r2, tf = ferr / r2 + 3e-7;
        double border = r > 1 ? r - 1 : 0; border *= border / asp;
        if (farsq < border + ferr) add(opa((rf + rn) / 2, tn + tf));
        if (farsq >= border - ferr) {
          double d = 1 + rf - rn, vis = (1 - rn) / d;
          double tv = (tn + vis * (tf + tn)) / std::max(1e-6, d - tf - tn) + 1e-6;
          add(opa(1 - vis, tv));
        }
      }
    }
    return res;
  }
  void bbox(long &x0, long &y0, long &x1, long &y1) const {
    x0 = (long)floor(x - r - 1); y0 = (long)floor(y - r - 1); x1 = (long)floor(x + r + 1); y1 = (long)floor(y + r + 1);
  }
};

// ---- generators ----
inline float gen_pos(Case &c) {
  switch (c.below(8)) {
    case 0: return 32;
    case 1: return (float)c.range(0, 8) * 64 - 128;                       // exactly on a tile border
    case 2: return (float)c.near(-4, 4, 0) * 64 + (float)c.real(-1.5, 1.5, 0);
    case 3: return c.real(-40, 40, 0);                                    // around the origin
    case 4: return c.real(0, 64, 32);
    case 5: return (float)c.near(-300, 300, 32) + 0.5f * c.below(2);
    case 6: return c.real(-1500, 1500, 0);
    default: return c.real(-200, 200, 32);
  }
}
inline float gen_radius(Case &c, double big = 150) {
  switch (c.below(8)) {
    case 0: return 10;
    case 1: return c.real(0.1, 1, 0.5);
    case 2: return c.real(0.1, 3.2, 1);
    case 3: return c.pick({3.0f, 2.9999998f, 1.0f, 0.1f, 0.5f, 2.0f, 64.0f, 32.0f});
    case 4: return c.real(2.5, 8, 4);
    case 5: return c.real(8, 40, 20);
    case 6: return c.real(20, big, 50);
    default: return c.real(0.1, 20, 5);
  }
}
inline float gen_hardness(Case &c) {
  switch (c.below(7)) {
    case 0: return 1;
    case 1: return 0.5;
    case 2: return 1.0 - pow(10.0, -c.real(1, 7, 4));
    case 3: return pow(10.0, -c.real(0, 4, 1));
    case 4: return 0.8f;
    default: return c.real(0.001, 1, 0.5);
  }
}
inline float gen_aspect(Case &c) {
  switch (c.below(5)) { case 0: return 1; case 1: return c.real(1, 10, 2); case 2: return c.pick({1.0f, 10.0f, 0.5f, 0.0f, -3.0f, 1.0000001f}); case 3: return c.real(1, 2, 1.5); default: return 1; }
}
inline float gen_angle(Case &c) {
  switch (c.below(4)) { case 0: return 0; case 1: return c.near(-8, 8, 0) * 45; case 2: return c.real(-360, 360, 30); default: return c.real(-2000, 2000, 0); }
}
inline Dab plain_dab(float x, float y, float r) { Dab d; memset(&d, 0, sizeof d); d.x = x; d.y = y; d.radius = r; d.opaque = 1; d.hardness = 0.5; d.color_a = 1; d.aspect = 1; return d; }
// parameters of the composition only
inline float gen_unit(Case &c) { return c.edgy(0, 1, 0); }
inline void gen_mode(Case &c, Dab &d, bool wild = false) {
  d.r = gen_unit(c); d.g = gen_unit(c); d.b = gen_unit(c);
  switch (c.below(5)) { case 0: d.opaque = 1; break; case 1: d.opaque = c.real(0, 0.02, 0.01); break; default: d.opaque = c.edgy(0, 1, 0.5); }
  d.color_a = c.chance(1, 2) ? 1 - gen_unit(c) : 1;
  d.lock_alpha = d.colorize = d.posterize = d.paint = 0; d.posterize_num = 0.05;
  switch (c.below(6)) {
    case 0: break;
    case 1: d.lock_alpha = 1 - gen_unit(c); break;
    case 2: d.colorize = 1 - gen_unit(c); break;
    case 3: d.posterize = 1 - gen_unit(c); break;
    default: d.lock_alpha = gen_unit(c); d.colorize = gen_unit(c); d.posterize = gen_unit(c); break;
  }
  if (d.posterize > 0) d.posterize_num = c.edgy(0, 1.5, 0.05);
  if (c.chance(1, 3)) d.paint = 1 - gen_unit(c);
  if (wild) {
    float *f = &d.x; static const int which[] = {3, 4, 5, 6, 8, 9, 12, 13, 14, 15, 16};
    if (c.chance(1, 4)) f[which[c.below(11)]] = c.pick({-1.0f, 2.0f, 1e9f, -1e9f, 1e30f, -1e30f, 1.0000001f, 1e-30f, 1e-8f, 65536.0f});
  }
}
inline Dab gen_dab(Case &c, double big = 150, bool wild = false) {
  Dab d = plain_dab(0, 0, 1);
  d.x = gen_pos(c); d.y = gen_pos(c); d.radius = gen_radius(c, big);
  d.hardness = gen_hardness(c); d.softness = c.chance(1, 3) ? (float)gen_unit(c) : 0; d.aspect = gen_aspect(c); d.angle = gen_angle(c);
  gen_mode(c, d, wild);
  return d;
}
}  // namespace pbt
