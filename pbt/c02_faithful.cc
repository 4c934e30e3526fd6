// C02: a well-formed brush document is loaded faithfully.
#include "docgen.hpp"
using namespace pbt;
struct SettingDoc { int id; double base; std::vector<std::pair<int, std::vector<std::pair<double, double>>>> in; };
static void compare(Case &c, const Settings &m, MyPaintBrush *b, const char *when) {
  Settings s; read(b, s);
  for (int k = 0; k < MYPAINT_BRUSH_SETTINGS_COUNT; k++) { if (s.base[k] != m.base[k]) c.fail("base", "%s: base value of %s is %.9g, should be %.9g", when, sname(k), s.base[k], m.base[k]); int used = 0;
    for (int i = 0; i < MYPAINT_BRUSH_INPUTS_COUNT; i++) { used += !m.pts[k][i].empty(); if (!same(s.pts[k][i], m.pts[k][i])) c.fail("curve", "%s: %s of %s is %s, should be %s", when, iname(i), sname(k), str(s.pts[k][i]).c_str(), str(m.pts[k][i]).c_str()); }
    if (mypaint_brush_get_inputs_used_n(b, (MyPaintBrushSetting)k) != used) c.fail("used", "%s: %s uses %d inputs, reported %d", when, sname(k), used, mypaint_brush_get_inputs_used_n(b, (MyPaintBrushSetting)k)); }
}
static void defaults(Settings &m) { for (int k = 0; k < MYPAINT_BRUSH_SETTINGS_COUNT; k++) { m.base[k] = sinfo(k)->def; for (auto &p : m.pts[k]) p.clear(); } m.pts[SET(OPAQUE_MULTIPLY)][INP(PRESSURE)] = {{0, 0}, {1, 1}}; }
static double value(Case &c, double lo, double hi, double simple) { switch (c.below(8)) { case 0: return simple; case 1: return c.near(-1000, 1000, 0); case 2: return c.real(-1e6, 1e6, 1); case 3: return c.pick({0.1, -0.0, 1e-30, 3.4e37, 1 / 3.0, 16777217.0, 0.30000001192092896, 1e-45}); default: return c.real(lo, hi, simple); } }
static SettingDoc gen(Case &c, bool ranges) {
  SettingDoc d; d.id = c.below(MYPAINT_BRUSH_SETTINGS_COUNT); const MyPaintBrushSettingInfo *i = sinfo(d.id); d.base = ranges ? c.real(i->min, i->max, i->def) : value(c, i->min, i->max, i->def); std::set<int> seen;
  while (c.more(2)) { int in = c.below(MYPAINT_BRUSH_INPUTS_COUNT); if (!seen.insert(in).second) continue; int n = c.chance(1, 10) ? c.pick({63, 64, 33}) : c.pick({0, 2, 2, 3, 5, 8}); std::vector<std::pair<double, double>> p; double x = ranges ? c.real(-1, 1, 0) : value(c, -10, 10, 0);
    for (int k = 0; k < n; k++) { if (k && !c.chance(1, 5)) x += ranges ? c.real(0, 1, 0.5) : fabs(c.real(0, 100, 0.5)); p.push_back({x, ranges ? c.real(-0.5, 0.5, 0.2) : value(c, -10, 10, 1)}); } d.in.push_back({in, p}); }
  return d;
}
static std::string any(Case &c, int depth) { switch (c.below(8)) { case 0: return "\"te\\\"xt\\n\\u00e9\""; case 1: return "null"; case 2: return "1.5"; case 3: return "false"; case 4: return "[]"; case 5: return "{}"; case 6: return depth ? "[" + any(c, depth - 1) + ",3]" : "4"; default: return depth ? "{\"base_value\":" + any(c, depth - 1) + ",\"version\":2}" : "\"\""; } }
static void shuffle(Case &c, std::vector<std::string> &v) { for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[c.below(i)]); }
static std::string text(Case &c, const std::vector<SettingDoc> &docs, std::map<std::string, double> &num) {
  Style st{(int)c.below(4), &c}; auto W = [&] { return st.ws(); };
  auto join = [&](std::vector<std::string> v, bool mix) { if (mix) shuffle(c, v); std::string s; for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + W() + v[i]; return s + W(); };
  std::vector<std::string> set; bool mix = c.chance(1, 2);
  for (auto &d : docs) { std::vector<std::string> in; for (auto &p : d.in) { std::vector<std::string> q; for (auto &k : p.second) q.push_back("[" + W() + number_text(c, k.first) + W() + "," + W() + number_text(c, k.second) + (c.chance(1, 20) ? "," + any(c, 1) : "") + W() + "]"); in.push_back(std::string("\"") + iname(p.first) + "\"" + W() + ":" + W() + "[" + W() + join(q, false) + "]"); }
    std::vector<std::string> f = {"\"base_value\"" + W() + ":" + W() + number_text(c, d.base), "\"inputs\"" + W() + ":" + W() + "{" + join(in, mix) + "}"}; if (c.chance(1, 6)) f.push_back("\"x_extra\":" + any(c, 2)); set.push_back(std::string("\"") + sname(d.id) + "\"" + W() + ":" + W() + "{" + join(f, mix) + "}"); }
  while (c.chance(1, 5)) set.push_back("\"" + std::string(c.pick({"future_setting", "Opaque", "adapt_color_from_image", "opaque2", " "})) + "\":" + any(c, 2));
  std::vector<std::string> top = {"\"version\"" + W() + ":" + W() + "3", "\"settings\"" + W() + ":" + W() + "{" + join(set, mix) + "}"}; if (c.chance(1, 3)) top.push_back("\"comment\":" + any(c, 2)); if (c.chance(1, 3)) top.push_back("\"parent_brush_name\":\"a/b\""); if (c.chance(1, 4)) top.push_back("\"group\":" + any(c, 1)); (void)num;
  return W() + "{" + join(top, mix) + "}" + (c.chance(1, 4) ? "\n" : "");
}
// a number as the document states it, in single precision
static float as_read(double v, const std::string &) { return (float)v; }
static std::vector<SettingDoc> gen_docs(Case &c, bool ranges, int avg) { std::vector<SettingDoc> v; std::set<int> seen; do { SettingDoc d = gen(c, ranges); if (seen.insert(d.id).second) v.push_back(d); } while (c.more(avg)); return v; }
static void quantise(Case &c, std::vector<SettingDoc> &v) {   // every text form used represents these values exactly to single precision
  auto q = [](double x) { return (double)(float)x; }; for (auto &d : v) { d.base = q(d.base); for (auto &p : d.in) for (auto &k : p.second) { k.first = q(k.first); k.second = q(k.second); if (fabs(k.first) < 1e-3) k.first = 0; if (fabs(k.second) < 1e-3) k.second = 0; k.first = q(floor(k.first * 1024) / 1024); k.second = q(floor(k.second * 1024) / 1024); } if (fabs(d.base) < 1e-3) d.base = 0; d.base = q(floor(d.base * 4096) / 4096); }
}
static void expect(Settings &m, const std::vector<SettingDoc> &docs) { for (auto &d : docs) { m.base[d.id] = as_read(d.base, ""); for (auto &p : d.in) { Points q; for (auto &k : p.second) q.push_back({(float)k.first, (float)k.second}); m.pts[d.id][p.first] = q; } } }
FACET(history, 5000, 300000, "histories of loading well-formed documents (any settings, inputs, 0 or 2..64 points, any key order, white space, comments, number formats, extra fields, unknown settings, extra point entries), rejected documents, API edits and resets to defaults, against a model; non-trivial: >= 2 loads of >= 3 settings in all") {
  Brush b(0); Settings m; defaults(m); compare(c, m, b, "default brush"); int loads = 0, sets = 0; std::map<std::string, double> num;
  for (int k = 1 + c.below(6); k > 0; k--) switch (c.below(8)) {
    case 0: mypaint_brush_from_defaults(b); defaults(m); c.log("defaults"); compare(c, m, b, "after resetting to defaults"); break;
    case 1: { int s = c.below(MYPAINT_BRUSH_SETTINGS_COUNT), in = c.below(MYPAINT_BRUSH_INPUTS_COUNT), n = c.pick({0, 2, 3}); float v = c.real(-5, 5, 1); b.set(s, v); m.base[s] = v; Points p; for (int i = 0; i < n; i++) p.push_back({(float)i, (float)c.real(-1, 1, 0)}); b.curve(s, in, p); m.pts[s][in] = p; c.log("API: %s = %g, %s: %d points", sname(s), v, iname(in), n); compare(c, m, b, "after an edit"); break; }
    case 2: { static const char *bad[] = {"", "{", "[]", "3", "{\"version\":2,\"settings\":{\"opaque\":{\"base_value\":0.1,\"inputs\":{}}}}", "{\"settings\":{\"opaque\":{\"base_value\":0.1,\"inputs\":{}}}}", "{\"version\":3}", "{\"version\":3,\"settings\":{}}", "{\"version\":3,\"settings\":{\"nope\":{\"base_value\":1,\"inputs\":{}}}}", "{\"version\":3,\"settings\":[{\"opaque\":{\"base_value\":0.1,\"inputs\":{}}}]}", nullptr}; const char *t = bad[c.below(11)]; c.log("rejected: %s", t ? t : "NULL"); if (mypaint_brush_from_string(b, t)) c.fail("result", "accepted %s", t ? t : "NULL"); compare(c, m, b, "after a rejected document"); break; }
    default: { auto docs = gen_docs(c, false, 5); quantise(c, docs); std::string t = text(c, docs, num); c.log("load %.6000s", t.c_str()); if (!mypaint_brush_from_string(b, t.c_str())) c.fail("result", "a well-formed document was rejected"); expect(m, docs); compare(c, m, b, "after loading"); loads++; sets += docs.size(); }
  }
  mypaint_brush_from_defaults(b); defaults(m); compare(c, m, b, "after resetting to defaults in the end"); if (loads >= 2 && sets >= 3) c.nontrivial();
}
FACET(numbers, 4000, 200000, "base values and points of any magnitude and sign in many notations, compared with correctly rounded single precision; non-trivial: always") {
  c.nontrivial(); Brush b(0); char t1[80], t2[80], t3[80]; auto num = [&](char *o, double &v) { double m = c.real(-10, 10, 1); int e = c.near(-44, 37, 0); switch (c.below(7)) { case 0: snprintf(o, 80, "%.17g", m * pow(10, e)); break; case 1: snprintf(o, 80, "%.6gE%+d", m, e); break; case 2: snprintf(o, 80, "%.3ge%d", m, e); break; case 3: snprintf(o, 80, "%ld", (long)(m * 1e8) + (long)c.below(100)); break; case 4: snprintf(o, 80, "%.25f", m); break; case 5: snprintf(o, 80, "%.0f.50", floor(fabs(m * 1000))); break; default: snprintf(o, 80, "%.9g", (double)(float)(m * pow(10, e))); } v = strtod(o, nullptr); };
  double v[3]; num(t1, v[0]); num(t2, v[1]); num(t3, v[2]); int s = c.below(MYPAINT_BRUSH_SETTINGS_COUNT), i = c.below(MYPAINT_BRUSH_INPUTS_COUNT); std::string t = std::string("{\"version\":3,\"settings\":{\"") + sname(s) + "\":{\"base_value\":" + t1 + ",\"inputs\":{\"" + iname(i) + "\":[[-3e38," + t2 + "],[" + t3 + ",1]]}}}}"; c.log("%s", t.c_str());
  if (!mypaint_brush_from_string(b, t.c_str())) c.fail("result", "rejected"); float x, y, x1, y1; mypaint_brush_get_mapping_point(b, (MyPaintBrushSetting)s, (MyPaintBrushInput)i, 0, &x, &y); mypaint_brush_get_mapping_point(b, (MyPaintBrushSetting)s, (MyPaintBrushInput)i, 1, &x1, &y1);
  if (b.get(s) != (float)v[0] || y != (float)v[1] || x1 != (float)v[2]) c.fail("number", "%s %s %s read as %.9g %.9g %.9g", t1, t2, t3, b.get(s), y, x1);
}
FACET(twin, 2500, 120000, "a loaded brush and one built through the API paint exactly the same; non-trivial: >= 3 dabs and >= 2 settings") {
  auto docs = gen_docs(c, true, 8); docs.erase(std::remove_if(docs.begin(), docs.end(), [](const SettingDoc &d) { return density(d.id) || d.id == SET(ELLIPTICAL_DAB_RATIO); }), docs.end()); quantise(c, docs); { SettingDoc r{SET(DABS_PER_ACTUAL_RADIUS), 2, {}}; docs.push_back(r); r.id = SET(RADIUS_LOGARITHMIC); r.base = 1.5; docs.push_back(r); } std::map<std::string, double> num; std::string t = text(c, docs, num); c.log("%.6000s", t.c_str());
  Brush a(0), b(0); if (!mypaint_brush_from_string(a, t.c_str())) c.fail("result", "rejected"); for (auto &d : docs) { b.set(d.id, d.base); for (auto &p : d.in) { Points q; for (auto &k : p.second) q.push_back({(float)k.first, (float)k.second}); b.curve(d.id, p.first, q); } }
  RecSurf sa, sb; sa.color = sb.color = pick_color; Pen pen(c, 20, 20); mypaint_brush_reset(a); mypaint_brush_reset(b); for (int i = 0; i < 12; i++) { Event e = pen.next(c, 20); if (!i) e.dtime = 0.01; c.log("%s", str(e).c_str()); stroke(a, sa.iface(), e); stroke(b, sb.iface(), e); if (sa.dabs.size() > 5000) throw Discard(); }
  if (sa.dabs.size() != sb.dabs.size()) c.fail("dabs", "%zu dabs, %zu by the brush built through the API", sa.dabs.size(), sb.dabs.size()); for (size_t i = 0; i < sa.dabs.size(); i++) if (!same_bits(sa.dabs[i], sb.dabs[i])) c.fail("dabs", "dab %zu is %s, built through the API %s", i, str(sa.dabs[i]).c_str(), str(sb.dabs[i]).c_str()); if (sa.dabs.size() >= 3 && docs.size() > 3) c.nontrivial();
}
PBT_MAIN("C02", "C numeric locale or any other: the parser handles it", "unknown inputs make their setting ill-formed and are left to C01")
