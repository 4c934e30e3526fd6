// Reference compositing of one pixel in real arithmetic, following the documented equation of each
// mode, with an error bound for fixed-point truncation and the fast pow approximation.
#pragma once
#include "refdab.hpp"
namespace pbt {
// 10-band reflectances of the primaries and the conversion back (frozen copy of the definition)
static const double SPEC_T[3][10] = {{0.026595621243689,0.049779426257903,0.022449850859496,-0.218453689278271
,-0.256894883201278,0.445881722194840,0.772365886289756,0.194498761382537
,0.014038157587820,0.007687264480513}
,{-0.032601672674412,-0.061021043498478,-0.052490001018404
,0.206659098273522,0.572496335158169,0.317837248815438,-0.021216624031211
,-0.019387668756117,-0.001521339050858,-0.000835181622534}
,{0.339475473216284,0.635401374177222,0.771520797089589,0.113222640692379
,-0.055251113343776,-0.048222578468680,-0.012966666339586
,-0.001523814504223,-0.000094718948810,-0.000051604594741}};

static const double SPEC_R[10] = {0.009281362787953,0.009732627042016,0.011254252737167,0.015105578649573
,0.024797924177217,0.083622585502406,0.977865045723212,1.000000000000000
,0.999961046144372,0.999999992756822};

static const double SPEC_G[10] = {0.002854127435775,0.003917589679914,0.012132151699187,0.748259205918013
,1.000000000000000,0.865695937531795,0.037477469241101,0.022816789725717
,0.021747419446456,0.021384940572308};

static const double SPEC_B[10] = {0.537052150373386,0.546646402401469,0.575501819073983,0.258778829633924
,0.041709923751716,0.012662638828324,0.007485593127390,0.006766900622462
,0.006699764779016,0.006676219883241};
static const double SPEC_EPS = 0.001;
inline void to_spec(const double *rgb, double *s) {
  double q[3]; for (int i = 0; i < 3; i++) q[i] = rgb[i] * (1 - SPEC_EPS) + SPEC_EPS;
  for (int i = 0; i < 10; i++) s[i] = SPEC_R[i] * q[0] + SPEC_G[i] * q[1] + SPEC_B[i] * q[2];
}
inline void from_spec(const double *s, double *rgb) {
  for (int k = 0; k < 3; k++) {
    double t = 0; for (int i = 0; i < 10; i++) t += SPEC_T[k][i] * s[i];
    rgb[k] = std::min(1.0, std::max(0.0, (t - SPEC_EPS) / (1 - SPEC_EPS)));
  }
}
// weighted geometric mean: fa of colour a, the rest of colour b
inline void wgm(const double *a, const double *b, double fa, double *out) {
  double sa[10], sb[10], m[10]; to_spec(a, sa); to_spec(b, sb);
  for (int i = 0; i < 10; i++) m[i] = pow(sa[i], fa) * pow(sb[i], 1 - fa);
  from_spec(m, out);
}
inline double luma(const double *c) { return 0.2126 * c[0] + 0.7152 * c[1] + 0.0722 * c[2]; }
// hue and saturation of t with the luminance of b, clipped into gamut
inline void set_lum(const double *t, double l, double *out) {
  double d = l - luma(t); for (int i = 0; i < 3; i++) out[i] = t[i] + d;
  double L = luma(out), mn = std::min(out[0], std::min(out[1], out[2])), mx = std::max(out[0], std::max(out[1], out[2]));
  if (mn < 0 && L > mn) for (int i = 0; i < 3; i++) out[i] = L + (out[i] - L) * L / (L - mn);
  if (mx > 1 && mx > L) for (int i = 0; i < 3; i++) out[i] = L + (out[i] - L) * (1 - L) / (mx - L);
  for (int i = 0; i < 3; i++) out[i] = std::min(1.0, std::max(0.0, out[i]));
}

// One pixel as intervals would be unwieldy; value plus symmetric error in units of 1/32768.
struct RefPx { double v[4]; double err = 0; bool ambiguous = false, wide = false; double alt[3]; };   // premultiplied, 0..1

inline double clamp01(double v) { return v < 0 ? 0 : v > 1 ? 1 : v; }
struct RefMode {
  double c[3], ca, opaque, lock, colorize, posterize, paint; int num; double normal;
  RefMode(const Dab &d) {
    c[0] = clamp01(d.r); c[1] = clamp01(d.g); c[2] = clamp01(d.b); ca = clamp01(d.color_a);
    opaque = clamp01(d.opaque); lock = clamp01(d.lock_alpha); colorize = clamp01(d.colorize); posterize = clamp01(d.posterize); paint = clamp01(d.paint);
    double n = floor((double)d.posterize_num * 100.0 + 0.5); num = n < 1 ? 1 : n > 128 ? 128 : (int)n;
    normal = (1 - lock) * (1 - colorize) * (1 - posterize);
  }
  enum { U = 32768 };
  static double minop(double o) { return std::max(o, 150.0 / U); }
  // m: strength of the dab's mask at this pixel
  void apply(RefPx &p, double m) const {
    const double u = 1.0 / U;
    if (paint < 1 && normal > 0) {
      double a = m * normal * opaque * (1 - paint), A = p.v[3];
      for (int i = 0; i < 3; i++) p.v[i] = a * ca * c[i] + (1 - a) * p.v[i];
      p.v[3] = a * ca + (1 - a) * A; p.err = p.err * (1 - a) + 6 * u;
    }
    if (paint < 1 && lock > 0 && ca > 0) {
      double a = m * lock * opaque * (1 - colorize) * (1 - posterize) * (1 - paint), A = p.v[3];
      for (int i = 0; i < 3; i++) p.v[i] = a * A * c[i] + (1 - a) * p.v[i];
      p.err += 6 * u;
    }
    if (paint > 0 && normal > 0) {
      double o = normal * opaque * paint, A = p.v[3];
      if (ca == 1) o = minop(o);
      double a = m * o, out = a * ca + (1 - a) * A;
      if (A <= u / 2) { for (int i = 0; i < 3; i++) p.v[i] = a * ca * c[i] + (1 - a) * p.v[i]; p.v[3] = out; p.err += 6 * u; }
      else {
        double b[3], w[3]; for (int i = 0; i < 3; i++) b[i] = std::min(1.0, p.v[i] / A);
        double fa = a / (a + (1 - a) * A) * ca;
        wgm(c, b, fa, w);
        double sf = 1, x = A * 8 - 3; if (ca != 1) sf = clamp01(0.5 + x / (1 + fabs(x) * 1.65));
        double slope = ca != 1 ? 8 * 1.0 : 0;   // the share depends on the (uncertain) alpha
        for (int i = 0; i < 3; i++) p.v[i] = (1 - sf) * (a * ca * c[i] + (1 - a) * p.v[i]) + sf * w[i] * out;
        p.v[3] = out; p.err = p.err * (55 + slope) + 40 * u + 6e-4;
      }
    }
    if (paint > 0 && lock > 0 && ca > 0) {
      double a = m * minop(lock * opaque * (1 - colorize) * (1 - posterize) * paint), A = p.v[3];
      if (A > u / 2) {
        double b[3], w[3]; for (int i = 0; i < 3; i++) b[i] = std::min(1.0, p.v[i] / A);
        wgm(c, b, a, w);
        for (int i = 0; i < 3; i++) p.v[i] = w[i] * A;
        p.err = p.err * 55 + 40 * u + 6e-4;
      }
    }
    if (colorize > 0) {
      double a = m * colorize * opaque, A = p.v[3], s[3] = {0, 0, 0};
      if (A > u / 2) { double b[3]; for (int i = 0; i < 3; i++) b[i] = p.v[i] / A; set_lum(c, std::min(1.0, luma(b)), s); }
      for (int i = 0; i < 3; i++) p.v[i] = a * A * s[i] + (1 - a) * p.v[i];
      p.err = p.err * (1 + 14 * a) + 60 * u * a * A + 7 * u;
    }
    if (posterize > 0) {
      double a = m * posterize * opaque, A = p.v[3], q[3] = {0, 0, 0};
      bool two = false; double lo[3] = {0, 0, 0};
      if (A > u / 2) for (int i = 0; i < 3; i++) {
        double b = std::min(1.0, p.v[i] / A) * num, t = (p.err / A + 3e-7) * num + 1e-9;
        q[i] = floor(b + 0.5 + t) / num; lo[i] = floor(b + 0.5 - t) / num; if (q[i] != lo[i]) two = true; if (t > 0.1) p.wide = true;
      }
      for (int i = 0; i < 3; i++) { p.alt[i] = a * A * std::max(0.0, lo[i]) + (1 - a) * p.v[i]; p.v[i] = a * A * std::min(1.0, q[i]) + (1 - a) * p.v[i]; }
      p.ambiguous = two; p.err = p.err + 6 * u;
    }
  }
};
}  // namespace pbt
