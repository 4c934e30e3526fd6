// Brush documents: an independent reading of a parsed document, and generators.
#pragma once
#include "brushgen.hpp"
#include <json-c/json.h>
#include <cfloat>
#include <fstream>
#include <sstream>
namespace pbt {
typedef std::vector<std::pair<float, float>> Points;
struct Settings { float base[MYPAINT_BRUSH_SETTINGS_COUNT]; Points pts[MYPAINT_BRUSH_SETTINGS_COUNT][MYPAINT_BRUSH_INPUTS_COUNT]; };
inline void read(MyPaintBrush *b, Settings &s) {
  for (int k = 0; k < MYPAINT_BRUSH_SETTINGS_COUNT; k++) { s.base[k] = mypaint_brush_get_base_value(b, (MyPaintBrushSetting)k);
    for (int i = 0; i < MYPAINT_BRUSH_INPUTS_COUNT; i++) { int n = mypaint_brush_get_mapping_n(b, (MyPaintBrushSetting)k, (MyPaintBrushInput)i); s.pts[k][i].clear(); for (int j = 0; j < n; j++) { float x, y; mypaint_brush_get_mapping_point(b, (MyPaintBrushSetting)k, (MyPaintBrushInput)i, j, &x, &y); s.pts[k][i].push_back({x, y}); } } }
}
inline bool same(const Points &a, const Points &b) { return a == b; }
inline std::string str(const Points &p) { std::string s; char q[64]; for (auto &k : p) { snprintf(q, 64, "(%.9g,%.9g)", k.first, k.second); s += q; } return s.empty() ? "none" : s; }
inline int setting_named(const char *n) { for (int i = 0; i < MYPAINT_BRUSH_SETTINGS_COUNT; i++) if (!strcmp(n, sname(i))) return i; return -1; }
inline int input_named(const char *n) { for (int i = 0; i < MYPAINT_BRUSH_INPUTS_COUNT; i++) if (!strcmp(n, iname(i))) return i; return -1; }
enum Verdict { NO, YES, OPEN };   // malformed, well-formed, not specified (scalars of another type where a number belongs)
inline Verdict number(json_object *o, float &v) {
  if (!o) return OPEN; auto t = json_object_get_type(o); if (t != json_type_int && t != json_type_double) return OPEN;
  double d = json_object_get_double(o); v = (float)d; return std::isfinite(d) && std::isfinite(v) ? YES : NO;
}
inline Verdict points(json_object *o, Points &p) {
  if (!o || json_object_get_type(o) != json_type_array) return NO; size_t n = json_object_array_length(o); if (n == 1 || n > 64) return NO; Verdict r = YES; p.clear();
  for (size_t i = 0; i < n; i++) { json_object *q = json_object_array_get_idx(o, i); if (!q || json_object_get_type(q) != json_type_array || json_object_array_length(q) < 2) return NO; float x = 0, y = 0; Verdict a = number(json_object_array_get_idx(q, 0), x), b = number(json_object_array_get_idx(q, 1), y); if (a == NO || b == NO) return NO; if (a == OPEN || b == OPEN) r = OPEN; if (r == YES && i && x < p.back().first) return NO; p.push_back({x, y}); }
  return r;
}
struct Entry { int id; Verdict ok; float base; std::map<int, Points> in; };
inline Entry entry(const char *name, json_object *o) {
  Entry e{setting_named(name), NO, 0, {}}; if (e.id < 0 || !o || json_object_get_type(o) != json_type_object) return e; json_object *v, *in;
  if (!json_object_object_get_ex(o, "base_value", &v) || !v) return e; Verdict r = number(v, e.base); if (r == NO) return e;
  if (!json_object_object_get_ex(o, "inputs", &in) || !in || json_object_get_type(in) != json_type_object) return e;
  json_object_object_foreach(in, key, val) { int i = input_named(key); Points p; if (i < 0) return e; Verdict q = points(val, p); if (q == NO) return e; if (q == OPEN) r = OPEN; e.in[i] = p; }
  e.ok = r; return e;
}
struct Doc { Verdict readable = NO; std::vector<Entry> entries; std::set<int> named; Verdict success() const { if (readable == NO) return NO; bool open = readable == OPEN, any = false, maybe = false; for (auto &e : entries) { any |= e.ok == YES; maybe |= e.ok == OPEN; } return any ? (open ? OPEN : YES) : maybe ? OPEN : NO; } };
inline Doc read_doc(json_object *root) {
  Doc d; if (!root || json_object_get_type(root) != json_type_object) return d; json_object *v, *s; if (!json_object_object_get_ex(root, "version", &v) || !v) return d;
  if (json_object_get_type(v) == json_type_int) { if (json_object_get_int64(v) != 3) return d; d.readable = YES; } else d.readable = OPEN;
  if (!json_object_object_get_ex(root, "settings", &s) || !s || json_object_get_type(s) != json_type_object) { d.readable = NO; return d; }
  json_object_object_foreach(s, key, val) { d.entries.push_back(entry(key, val)); if (d.entries.back().id >= 0) d.named.insert(d.entries.back().id); }
  return d;
}
inline const std::vector<std::string> &real_docs() {
  static std::vector<std::string> d; if (d.empty()) for (const char *f : {"bulk.myb", "charcoal.myb", "coarse_bulk_2.myb", "impressionism.myb", "modelling.myb", "bad/bad_setting_types_1.myb", "bad/some_unknown_inputs.myb", "bad/missing_settings.bad-myb"}) { std::ifstream i(std::string(BRUSH_DIR) + "/" + f); std::stringstream s; s << i.rdbuf(); if (i && !s.str().empty()) d.push_back(s.str()); }
  if (d.empty()) d.push_back("{\"version\":3,\"settings\":{\"opaque\":{\"base_value\":0.7,\"inputs\":{\"pressure\":[[0,0],[1,0.5]]}}}}"); return d;
}
// white space and comments between tokens, in the style of one document
struct Style { int kind; Case *c; std::string ws() { switch (kind) { case 0: return ""; case 1: return " "; case 2: return "\n\t"; default: switch (c->below(6)) { case 0: return " \r\n "; case 1: return "/* x */"; case 2: return "\t"; default: return ""; } } } };
inline std::string number_text(Case &c, double v) { char b[64]; switch (c.below(4)) { case 0: snprintf(b, 64, "%.9g", v); break; case 1: snprintf(b, 64, "%.17g", v); break; case 2: snprintf(b, 64, "%.8e", v); break; default: if (v == floor(v) && fabs(v) < 1e9) snprintf(b, 64, "%.0f", v); else snprintf(b, 64, "%.12f", v); } if (!strcmp(b, "-0")) return "-0.0"; return b; }
}  // namespace pbt
