// C22: smudge buckets are independent, readable, restorable and cleared.
#include "brushgen.hpp"
using namespace pbt;
namespace {
typedef std::array<float, 9> Bucket;
bool get(MyPaintBrush *b, int k, Bucket &o) { return mypaint_brush_get_smudge_bucket_state(b, k, &o[0], &o[1], &o[2], &o[3], &o[4], &o[5], &o[6], &o[7], &o[8]); }
bool put(MyPaintBrush *b, int k, const Bucket &v) { return mypaint_brush_set_smudge_bucket_state(b, k, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8]); }
std::vector<Bucket> all(Case &c, MyPaintBrush *b, int n) { std::vector<Bucket> v(n); for (int k = 0; k < n; k++) if (!get(b, k, v[k])) c.fail("access", "bucket %d of %d cannot be read", k, n); return v; }
bool same(const Bucket &a, const Bucket &b) { return !memcmp(&a, &b, sizeof a); }
struct Model { std::vector<Bucket> v; int lo = -1, hi = -1; Model(int n) : v(n, Bucket{}) {} void used(int k) { if (lo < 0 || k < lo) lo = k; hi = std::max(hi, k); } void clear() { for (auto &b : v) b = Bucket{}; lo = hi = -1; } };
void check(Case &c, MyPaintBrush *b, Model &m, const char *when) {
  auto now = all(c, b, m.v.size()); for (size_t k = 0; k < now.size(); k++) for (int i = 0; i < 9; i++) if (memcmp(&now[k][i], &m.v[k][i], 4) && !(now[k][i] == 0 && m.v[k][i] == 0)) c.fail("content", "%s: value %d of bucket %zu is %.9g instead of %.9g", when, i, k, now[k][i], m.v[k][i]);
  int lo = mypaint_brush_get_min_smudge_bucket_used(b), hi = mypaint_brush_get_max_smudge_bucket_used(b); if (lo != m.lo || hi != m.hi) c.fail("range", "%s: used range %d..%d instead of %d..%d", when, lo, hi, m.lo, m.hi);
}
float value(Case &c) { switch (c.below(8)) { case 0: return c.pick({0.0f, 1.0f, -1.0f, 1e-40f, 3e38f, -0.0f}); default: return c.real(-2, 2, 0.5); } }
}
FACET(api, 6000, 300000, "histories of bucket writes and reads at any index (inside, negative, beyond the capacity, extreme), resets and events on brushes with 0 to 300 buckets, against an array model: content of all buckets, results and used range after every operation; other states untouched; non-trivial: >= 2 buckets written and an index refused or a reset") {
  int n = c.chance(1, 8) ? 0 : c.chance(1, 3) ? 1 + c.below(300) : 1 + c.below(8); Brush b(n); Model m(n); RecSurf s; c.log("%d buckets", n); check(c, b, m, "new brush"); Event e = {10, 20, 0, 0, 0, 0.01, 1, 0, 0, 0}; stroke(b, s.iface(), e); check(c, b, m, "first event"); std::set<int> w; bool odd = false; std::vector<float> st; for (int k = 0; k < MYPAINT_BRUSH_STATES_COUNT; k++) st.push_back(b.state(k));
  do {
    int k = c.chance(1, 6) ? c.pick({-1, -2, -100, n, n + 1, n + 1000, (int)0x7fffffff, (int)0x80000000, -n}) : (int)c.below(n + 1) - (c.chance(1, 10) ? 1 : 0); bool in = k >= 0 && k < n;
    switch (c.below(5)) {
      case 0: case 1: case 2: { Bucket v; for (float &f : v) f = value(c); c.log("set %d", k); bool r = put(b, k, v); if (r != in) c.fail("result", "writing bucket %d of %d returned %d", k, n, r); if (in) { m.v[k] = v; m.used(k); w.insert(k); } else odd = true; break; }
      case 3: { Bucket v; v.fill(7.5f); c.log("get %d", k); bool r = get(b, k, v); if (r != in) c.fail("result", "reading bucket %d of %d returned %d", k, n, r); if (in && memcmp(&v, &m.v[k], sizeof v)) c.fail("content", "bucket %d reads back differently", k); if (!in) { odd = true; for (float f : v) if (f != 7.5f) c.fail("result", "refusing to read bucket %d wrote to the outputs", k); } break; }
      default: if (c.chance(1, 2)) { c.log("reset"); mypaint_brush_reset(b); if (c.chance(1, 2)) { check(c, b, m, "reset requested"); } stroke(b, s.iface(), e); m.clear(); odd |= w.size() > 0; } else if (c.chance(1, 3)) { c.log("pause"); Event p = e; p.dtime = 6; stroke(b, s.iface(), p); m.clear(); } else { c.log("event"); stroke(b, s.iface(), e); }
        st.clear(); for (int q = 0; q < MYPAINT_BRUSH_STATES_COUNT; q++) st.push_back(b.state(q));
    }
    check(c, b, m, "after this"); for (int q = 0; q < MYPAINT_BRUSH_STATES_COUNT; q++) { float u = b.state(q); if (memcmp(&u, &st[q], 4)) c.fail("states", "state %d changed with a bucket", q); }
  } while (c.more(12));
  if (w.size() >= 2 && odd) c.nontrivial();
}
FACET(painting, 4000, 200000, "strokes smudging with the bucket selected by a constant or by dynamics (pressure, direction, random, custom input): at every dab only the selected bucket has changed, a bucket written by the API is what the dab smudges with, the used range is exactly the span of the buckets written, resets clear everything; non-trivial: >= 2 buckets used by painting") {
  int n = c.chance(1, 4) ? 1 + c.below(260) : 1 + c.below(12); Brush b(n); RecSurf s; Model m(n); b.set(SET(SMUDGE), c.pick({1.0, 0.5})); b.set(SET(SMUDGE_LENGTH), c.pick({0.5, 0.0, 0.9})); b.set(SET(SMUDGE_LENGTH_LOG), c.pick({0.0, 2.0})); b.set(SET(PAINT_MODE), c.pick({0.0, 1.0})); b.set(SET(RADIUS_LOGARITHMIC), 1.5); s.color = pick_color; b.set(SET(CUSTOM_INPUT), c.real(-2, 2, 0));
  double base = c.near(0, std::min(255, n + 3), 0) + (c.chance(1, 3) ? c.real(-0.4, 0.4, 0) : 0); b.set(SET(SMUDGE_BUCKET), base); b.set(SET(POSTERIZE_NUM), base); b.set(SET(POSTERIZE_NUM), b.get(SET(SMUDGE_BUCKET))); c.log("%d buckets, base %g", n, base);
  for (int q = c.below(3); q > 0; q--) { int in = c.pick({(int)INP(PRESSURE), (int)INP(RANDOM), (int)INP(CUSTOM), (int)INP(DIRECTION)}); double k = c.near(-(n + 4), n + 4, n); double x1 = in == INP(DIRECTION) ? 180 : 1; std::vector<std::pair<float, float>> p = {{0, 0}, {(float)x1, (float)k}}; b.curve(SET(SMUDGE_BUCKET), in, p); b.curve(SET(POSTERIZE_NUM), in, p); c.log("curve from %s by %g", iname(in), k); }
  std::set<int> used; Event e = {0, 0, 0.5, 0, 0, 0.01, 1, 0, 0, 0}; mypaint_brush_reset(b); stroke(b, s.iface(), e); m.clear(); float ra = b.state(ST(SMUDGE_RA)), rr = b.state(ST(LAST_GETCOLOR_RECENTNESS));
  s.on_dab = [&](const Dab &d) {
    if (!(fabs(d.posterize_num) < 1e6)) return 1; int k = std::min(n - 1, std::max(0, (int)floorf(d.posterize_num + 0.5f))); if (fabs(fabs(d.posterize_num - truncf(d.posterize_num)) - 0.5) < 1e-3) { Bucket t; for (int q : {k - 1, k + 1}) if (q >= 0 && q < n && get(b, q, t) && !same(t, m.v[q])) k = q; }
    auto now = all(c, b, n); for (int q = 0; q < n; q++) if (q != k && !same(now[q], m.v[q])) c.flag("independent", "a dab with bucket %d (%.9g) changed bucket %d", k, d.posterize_num, q);
    if (!s.picks.empty() && s.picks.back().before == (int)s.dabs.size() - 1) { float o[4]; pick_color(s.picks.back(), o); if (memcmp(o, &now[k][4], 16)) c.flag("picked", "the picked colour did not go to bucket %d", k); }
    if (used.count(k) == 0 && m.v[k] == Bucket{} && (s.picks.empty() || s.picks.back().before != (int)s.dabs.size() - 1)) c.flag("fresh", "bucket %d was never used but the canvas was not sampled for it", k);
    m.v[k] = now[k]; m.used(k); used.insert(k); return 1;
  };
  Pen pen(c, 0, 0); int N = 1 + c.below(15);
  for (int i = 0; i < N; i++) {
    if (c.chance(1, 6)) { int k = c.below(n); Bucket v; for (float &f : v) f = c.real(0, 1, 0.5); put(b, k, v); m.v[k] = v; m.used(k); c.log("set bucket %d", k); }
    if (c.chance(1, 15)) { mypaint_brush_reset(b); e = pen.next(c, 10); e.dtime = 0.05; stroke(b, s.iface(), e); m.clear(); used.clear(); c.log("reset"); check(c, b, m, "after the reset"); continue; }
    e = pen.next(c, 15); if (e.dtime > 0.09) e.dtime = 0.05; c.log("%s", str(e).c_str()); stroke(b, s.iface(), e); c.checkpoint(); check(c, b, m, "after the event");
  }
  if (b.state(ST(SMUDGE_RA)) != ra || b.state(ST(LAST_GETCOLOR_RECENTNESS)) != rr) c.fail("states", "the states of the brush without buckets changed");
  if (used.size() >= 2) c.nontrivial();
}
FACET(restore, 3000, 150000, "a bucket written by the API determines the next dab exactly as if the colours had been picked up: writing the content of one bucket into another (or another brush) makes both paint the same dab; non-trivial: always") {
  c.nontrivial(); int n = 2 + c.below(10); Brush a(n), b(n); int i = c.below(n), j = c.below(n); Bucket v; for (float &f : v) f = c.real(0, 1, 0.5); if (c.chance(1, 4)) v[8] = 0;
  BrushOpts o; o.randoms = false; o.curves = false; o.rhi = 3; o.allow = appearance; gen_brush(c, a, o); a.set(SET(SMUDGE), c.real(0.1, 1, 1)); copy_settings(a, b); a.set(SET(SMUDGE_BUCKET), i); b.set(SET(SMUDGE_BUCKET), j); RecSurf sa, sb; sa.color = sb.color = pick_color; Event e = {3, 4, 0.5, 0, 0, 0.01, 1, 0, 0, 0};
  for (Brush *q : {&a, &b}) { RecSurf &s = q == &a ? sa : sb; mypaint_brush_reset(*q); stroke(*q, s.iface(), e); } for (int k = c.below(4); k > 0; k--) { Bucket w; for (float &f : w) f = c.real(0, 1, 0.2); int q = c.below(n); put(b, q, w); } Bucket w; put(a, i, v); get(a, i, w); put(b, j, w); c.log("bucket %d of one brush, %d of the other", i, j);
  for (int k = 0; k < 6; k++) { e.x += c.real(0, 10, 5); e.dtime = 0.05; c.log("%s", str(e).c_str()); stroke(a, sa.iface(), e); stroke(b, sb.iface(), e); }
  if (sa.dabs.size() != sb.dabs.size()) c.fail("restore", "%zu dabs with the original bucket, %zu with the restored one", sa.dabs.size(), sb.dabs.size());
  for (size_t k = 0; k < sa.dabs.size(); k++) if (!same_bits(sa.dabs[k], sb.dabs[k])) c.fail("restore", "%s with the original bucket, %s with the restored one", str(sa.dabs[k]).c_str(), str(sb.dabs[k]).c_str());
  Bucket x, y; get(a, i, x); get(b, j, y); if (!same(x, y)) c.fail("restore", "the buckets differ afterwards");
}
PBT_MAIN("C22", "a bucket counts as written when it is set by the API or selected by a dab that smudges")
