// C16: painting is deterministic and instances do not influence each other.
#include "alloc.hpp"
#include "brushgen.hpp"
#include "refdab.hpp"
using namespace pbt;

struct Script { std::vector<Event> ev; std::vector<int> act; };   // act: 1 reset, 2 new stroke before the event
static Script script(Case &c, int avg, double step) {
  Script s; Pen pen(c, c.real(-200, 200, 30), c.real(-200, 200, 40));
  do { Event e = pen.next(c, step); if (c.chance(1, 15)) e.dtime = 6; s.ev.push_back(e); s.act.push_back(c.chance(1, 15) ? 1 : c.chance(1, 15) ? 2 : 0); c.log("%s%s", s.act.back() == 1 ? "reset; " : s.act.back() == 2 ? "new stroke; " : "", str(e).c_str()); } while (c.more(avg) && s.ev.size() < 60);
  return s;
}
struct Run {
  std::vector<Dab> dabs; std::vector<RecSurf::Pick> picks; std::vector<int> ret; std::vector<float> states;
};
static void step(MyPaintBrush *b, RecSurf &s, const Script &sc, size_t i, Run &r) {
  if (sc.act[i] == 1) mypaint_brush_reset(b); if (sc.act[i] == 2) mypaint_brush_new_stroke(b);
  r.ret.push_back(stroke(b, s.iface(), sc.ev[i]));
  for (int k = 0; k < MYPAINT_BRUSH_STATES_COUNT; k++) r.states.push_back(mypaint_brush_get_state(b, (MyPaintBrushState)k));
}
static void compare(Case &c, const Run &a, const Run &b, const char *how) {
  size_t n = std::min(a.dabs.size(), b.dabs.size());
  for (size_t i = 0; i < n; i++) if (!same_bits(a.dabs[i], b.dabs[i])) c.fail("dabs", "%s: dab %zu is %s, was %s", how, i, str(b.dabs[i]).c_str(), str(a.dabs[i]).c_str());
  if (a.dabs.size() != b.dabs.size()) c.fail("dabs", "%s: %zu dabs, were %zu", how, b.dabs.size(), a.dabs.size());
  if (a.picks.size() != b.picks.size()) c.fail("picks", "%s: %zu picks, were %zu", how, b.picks.size(), a.picks.size());
  for (size_t i = 0; i < a.picks.size(); i++) if (memcmp(&a.picks[i], &b.picks[i], sizeof a.picks[i])) c.fail("picks", "%s: pick %zu differs", how, i);
  for (size_t i = 0; i < a.states.size(); i++) if (memcmp(&a.states[i], &b.states[i], 4)) c.fail("states", "%s: state %zu after event %zu is %.9g, was %.9g", how, i % MYPAINT_BRUSH_STATES_COUNT, i / MYPAINT_BRUSH_STATES_COUNT, b.states[i], a.states[i]);
  for (size_t i = 0; i < a.ret.size(); i++) if (!!a.ret[i] != !!b.ret[i]) c.fail("result", "%s: event %zu returned %d, was %d", how, i, b.ret[i], a.ret[i]);
}
static MyPaintBrush *make(MyPaintBrush *proto, int buckets) { MyPaintBrush *b = buckets ? mypaint_brush_new_with_buckets(buckets) : mypaint_brush_new(); copy_settings(proto, b); return b; }
struct Fill { Fill(int f) { A().fill = f; } ~Fill() { A().fill = -1; A().scribble = false; } };

FACET(memory, 2500, 120000, "a brush with any settings (randomness, smudging, buckets, dynamics on any input) and event history run three times, with fresh memory (heap and stack) filled with 0x00, 0xFF and a random byte: dabs, picks, states and return values bit-identical; non-trivial: >= 3 dabs and a random setting or input in use") {
  Brush proto; BrushOpts o; o.cheap = true; o.rhi = 3.5; gen_brush(c, proto, o); int buckets = c.chance(1, 2) ? 1 + c.below(20) : 0; if (c.chance(1, 3)) { int s = c.pick({SET(OFFSET_BY_RANDOM), SET(RADIUS_BY_RANDOM), SET(TRACKING_NOISE)}); proto.set(s, c.real(0, 1, 0.5)); c.log("random setting %s", sname(s)); }
  Script sc = script(c, 12, 25); Run r[3]; int fills[3] = {0, 0xFF, 1 + (int)c.below(254)};
  for (int k = 0; k < 3; k++) {
    MyPaintBrush *b; { Fill f(fills[k]); dirty_stack(fills[k]); b = make(proto, buckets); }
    RecSurf s; s.color = pick_color;
    for (size_t i = 0; i < sc.ev.size(); i++) { Fill f(fills[k]); dirty_stack(fills[k]); step(b, s, sc, i, r[k]); }
    mypaint_brush_unref(b); r[k].dabs = s.dabs; r[k].picks = s.picks;
  }
  bool rnd = false; for (int s : {SET(OFFSET_BY_RANDOM), SET(RADIUS_BY_RANDOM), SET(TRACKING_NOISE)}) rnd |= proto.get(s) != 0; for (int s = 0; s < MYPAINT_BRUSH_SETTINGS_COUNT; s++) rnd |= mypaint_brush_get_mapping_n(proto, (MyPaintBrushSetting)s, MYPAINT_BRUSH_INPUT_RANDOM) > 0;
  if (r[0].dabs.size() >= 3 && rnd) c.nontrivial();
  compare(c, r[0], r[1], "memory filled with 0xFF"); compare(c, r[0], r[2], "memory filled with another byte");
}
FACET(isolation, 2500, 120000, "the same history run alone, and interleaved with other brushes being created, painted with, reset and destroyed on other surfaces (and rand() being drawn from): bit-identical; non-trivial: >= 3 dabs and another brush painted in between") {
  Brush proto; BrushOpts o; o.cheap = true; o.rhi = 3.5; gen_brush(c, proto, o); Brush p2; gen_brush(c, p2, o); for (Brush *q : {&proto, &p2}) if (c.chance(1, 2)) { q->set(SET(OFFSET_BY_RANDOM), 0.5); q->set(SET(SMUDGE), 0.7); q->set(SET(PAINT_MODE), c.pick({0.0f, 0.5f, 1.0f})); }
  int bk = c.chance(1, 2) ? 8 : 0; Script sc = script(c, 10, 25), other = script(c, 10, 25); Run a, b, d; 
  { MyPaintBrush *x = make(proto, bk); RecSurf s; s.color = pick_color; for (size_t i = 0; i < sc.ev.size(); i++) step(x, s, sc, i, a); mypaint_brush_unref(x); a.dabs = s.dabs; a.picks = s.picks; }
  bool busy = false;
  { MyPaintBrush *y = c.chance(1, 2) ? make(p2, 8) : nullptr; MyPaintBrush *x = make(proto, bk); if (!y) y = make(p2, 0); RecSurf s, t; s.color = pick_color; t.color = [](const RecSurf::Pick &p, float *q) { q[0] = 1; q[1] = q[2] = 0; q[3] = 1; };
    size_t j = 0;
    for (size_t i = 0; i < sc.ev.size(); i++) {
      int k = c.below(4); while (k-- > 0) { if (j < other.ev.size()) { size_t n = t.dabs.size(); step(y, t, other, j++, d); busy |= t.dabs.size() > n; } else { mypaint_brush_unref(y); y = make(p2, 3); j = 0; } rand(); }
      step(x, s, sc, i, b);
    }
    mypaint_brush_unref(x); mypaint_brush_unref(y); b.dabs = s.dabs; b.picks = s.picks; }
  if (a.dabs.size() >= 3 && busy) c.nontrivial();
  compare(c, a, b, "with other brushes in between");
}
FACET(canvas, 500, 25000, "strokes on tiled surfaces run twice, the second time with differently filled memory and with another surface being painted in between: canvases and dirty rectangles bit-identical; non-trivial: a tile changed") {
  Brush proto; BrushOpts o; o.cheap = true; o.rhi = 3; o.avg = 16; o.allow = appearance; gen_brush(c, proto, o); if (c.chance(1, 2)) proto.set(SET(SMUDGE), 0.6); if (c.chance(1, 2)) { proto.set(SET(OFFSET_BY_RANDOM), c.real(0, 2, 0.5)); proto.set(SET(RADIUS_BY_RANDOM), c.real(0, 0.4, 0)); } Script sc = script(c, 8, 30); u64 seed = c.below(100); int style = c.below(4); unsigned sd = c.below(100);
  TileSurf s1, s2, s3; for (TileSurf *s : {&s1, &s2, &s3}) { s->direct = true; s->fill = [=](int x, int y, uint16_t *p) { random_tile(seed, x, y, p, style); }; }
  std::vector<MyPaintRectangle> r1, r2; Run a, b;
  auto go = [&](TileSurf &s, std::vector<MyPaintRectangle> &rects, int fill, bool disturb) {
    MyPaintBrush *x; { Fill f(fill); x = make(proto, 4); }
    for (size_t i = 0; i < sc.ev.size(); i++) {
      if (disturb) { s3.begin(); Dab d = plain_dab(20 + i, 30, 12); d.paint = 0.5; d.r = 1; put(s3.iface(), d); float q[4]; mypaint_surface_get_color(s3.iface(), 25, 30, 20, q, q + 1, q + 2, q + 3, 1); s3.end_(); }
      Fill f(fill); dirty_stack(fill); srand(sd + i); MyPaintRectangle r[4]; MyPaintRectangles roi = {4, r}; s.begin(); stroke(x, s.iface(), sc.ev[i]); s.end_(&roi); for (int k = 0; k < roi.num_rectangles; k++) rects.push_back(r[k]);
    }
    mypaint_brush_unref(x);
  };
  go(s1, r1, 0, false); go(s2, r2, 0x7F, true);
  if (!s1.written.empty()) c.nontrivial();
  if (r1.size() != r2.size() || (r1.size() && memcmp(r1.data(), r2.data(), r1.size() * sizeof r1[0]))) c.fail("rects", "dirty rectangles differ between two identical runs");
  for (auto &t : s1.tiles) if (t.second != s2.tile(t.first.first, t.first.second)) c.fail("canvas", "tile (%d,%d) differs between two identical runs", t.first.first, t.first.second);
}
PBT_MAIN("C16", "colour picks in pigment mode of areas with a radius above 2 sample pixels with the C library's rand(): rand() is seeded alike where such picks reach a real canvas")
