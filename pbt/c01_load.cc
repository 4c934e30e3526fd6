// C01: loading any byte string as a brush is safe.
#include "docgen.hpp"
using namespace pbt;
static void structure(Case &c, MyPaintBrush *b, Settings &s) {
  read(b, s);
  for (int k = 0; k < MYPAINT_BRUSH_SETTINGS_COUNT; k++) { if (!std::isfinite(s.base[k])) c.fail("structure", "base value of %s is %g", sname(k), s.base[k]); int used = 0;
    for (int i = 0; i < MYPAINT_BRUSH_INPUTS_COUNT; i++) { const Points &p = s.pts[k][i]; used += !p.empty(); if (p.size() == 1 || p.size() > 64) c.fail("structure", "%zu points for %s of %s", p.size(), iname(i), sname(k)); for (size_t j = 0; j < p.size(); j++) if (!std::isfinite(p[j].first) || !std::isfinite(p[j].second) || (j && p[j].first < p[j - 1].first)) c.fail("structure", "points of %s of %s: %s", iname(i), sname(k), str(p).c_str()); }
    if (mypaint_brush_get_inputs_used_n(b, (MyPaintBrushSetting)k) != used || !mypaint_brush_is_constant(b, (MyPaintBrushSetting)k) != (used > 0)) c.fail("structure", "%s: %d inputs used, reported %d", sname(k), used, mypaint_brush_get_inputs_used_n(b, (MyPaintBrushSetting)k)); }
}
static void keep(Case &c, const Settings &a, const Settings &b, int k, const char *why) {
  if (memcmp(&a.base[k], &b.base[k], 4)) c.fail("untouched", "base value of %s went from %.9g to %.9g, but %s", sname(k), a.base[k], b.base[k], why);
  for (int i = 0; i < MYPAINT_BRUSH_INPUTS_COUNT; i++) if (!same(a.pts[k][i], b.pts[k][i])) c.fail("untouched", "%s of %s went from %s to %s, but %s", iname(i), sname(k), str(a.pts[k][i]).c_str(), str(b.pts[k][i]).c_str(), why);
}
// whatever was loaded can be painted with, once the values are brought into their published ranges and the number of dabs is bounded
static void paint(Case &c, MyPaintBrush *b) {
  Brush h(0); mypaint_brush_reset(b); copy_settings(b, h);
  for (int s = 0; s < MYPAINT_BRUSH_SETTINGS_COUNT; s++) { const MyPaintBrushSettingInfo *i = sinfo(s); float v = h.get(s); h.set(s, std::min(i->max, std::max(i->min, v))); if (density(s) || s == SET(ELLIPTICAL_DAB_RATIO)) for (int k = 0; k < MYPAINT_BRUSH_INPUTS_COUNT; k++) mypaint_brush_set_mapping_n(h, (MyPaintBrushSetting)s, (MyPaintBrushInput)k, 0); }
  h.set(SET(DABS_PER_ACTUAL_RADIUS), 2); h.set(SET(DABS_PER_BASIC_RADIUS), 0); h.set(SET(DABS_PER_SECOND), 20);
  RecSurf s; s.color = pick_color; mypaint_brush_reset(h); Event e = {10, 10, 0.5, 0.1, 0.2, 0.01, 1, 0, 0, 0}; for (int i = 0; i < 6; i++) { stroke(h, s.iface(), e); e.dtime = 0.05; e.x += 7; e.y += 3 * i; e.pressure = 0.2f * i; }
  for (auto &d : s.dabs) for (int k = 0; k < Dab::N; k++) if (!std::isfinite(d.v()[k])) c.fail("paint", "%s", str(d).c_str());
}
static Verdict load(Case &c, MyPaintBrush *b, const std::string &text) {
  Settings before, after; read(b, before); json_object *root = json_tokener_parse(text.c_str()); Doc d = read_doc(root); if (root) json_object_put(root);
  if (c.tracing) { std::string t; for (unsigned char ch : text.substr(0, 20000)) { if (ch < 32 || ch > 126) { char q[8]; snprintf(q, 8, "\\x%02x", ch); t += q; } else t += ch; } c.trace += "load: " + t + "\n"; }
  bool r = mypaint_brush_from_string(b, text.c_str()); structure(c, b, after); Verdict want = d.success();
  if (want != OPEN && r != (want == YES)) c.fail("result", "loading reported %d, but %s", r, want == YES ? "a setting was well-formed" : "no setting of a readable document was well-formed");
  for (int k = 0; k < MYPAINT_BRUSH_SETTINGS_COUNT; k++) if (d.readable == NO || !d.named.count(k)) keep(c, before, after, k, d.readable == NO ? "the document is not a version 3 brush" : "it is not mentioned");
  if (d.readable == YES) for (auto &e : d.entries) if (e.ok == YES) { if (after.base[e.id] != e.base) c.fail("value", "base value of %s is %.9g, the document says %.9g", sname(e.id), after.base[e.id], e.base); for (int i = 0; i < MYPAINT_BRUSH_INPUTS_COUNT; i++) { auto it = e.in.find(i); const Points &p = it == e.in.end() ? before.pts[e.id][i] : it->second; if (!same(p, after.pts[e.id][i])) c.fail("value", "%s of %s is %s, should be %s", iname(i), sname(e.id), str(after.pts[e.id][i]).c_str(), str(p).c_str()); } }
  c.checkpoint(); c.label(want == YES ? "success" : want == NO ? (d.readable == NO ? "no brush" : "no good setting") : "unspecified"); return want;
}
static void after(Case &c, MyPaintBrush *b) {
  paint(c, b); const char *good = "{\"version\":3,\"settings\":{\"opaque\":{\"base_value\":0.25,\"inputs\":{\"pressure\":[[0,0],[1,0.5]]}}}}"; Verdict v = load(c, b, good); (void)v;
}
static void damage(Case &c, std::string &t) {
  static const char *tok[] = {"{", "}", "[", "]", ",", ":", "\"", "\"version\":3", "\"settings\":", "\"inputs\":{}", "\"base_value\":", "[[0,0],[1,1]]", "[0,0]", "[]", "{}", "null", "true", "NaN", "Infinity", "-Infinity", "1e400", "-1e39", "99999999999999999999", "\\u0000", "\\ud800", "/*", "//", "1", "-", ".", "0x10", "'", "\"pressure\":[[0,0],[1,1]],", "\"opaque\":", "\xff\xfe", "\xc3", "\x01"};
  for (int k = 1 + c.below(1 + c.below(8)); k > 0; k--) {
    size_t n = t.size(), at = n ? c.below(n) : 0;
    switch (c.below(8)) {
      case 0: if (n) t.resize(at); break;
      case 1: if (n) t[at] = 1 + c.below(255); break;
      case 2: if (n) t.erase(at, 1 + c.below(40)); break;
      case 3: if (n) { std::string q = t.substr(c.below(n), 1 + c.below(200)); t.insert(at, q); } break;
      case 4: case 5: t.insert(at, tok[c.below(sizeof tok / sizeof *tok)]); break;
      case 6: { size_t p = t.find_first_of("0123456789", at); if (p != std::string::npos) { size_t q = p; while (q < t.size() && strchr("0123456789.eE+-", t[q])) q++; t.replace(p, q - p, tok[c.below(sizeof tok / sizeof *tok)]); } break; }
      default: { size_t p = t.find_first_of("[]{},:", at); if (p != std::string::npos) t[p] = "[]{},:"[c.below(6)]; }
    }
  }
}
FACET(bytes, 6000, 400000, "sequences of 1..3 byte strings made of random bytes and JSON tokens; non-trivial: >= 20 bytes") {
  Brush b(0); size_t most = 0;
  for (int k = 1 + c.below(3); k > 0; k--) { std::string t; int mode = c.below(3), n = c.below(c.chance(1, 6) ? 3000 : 120); static const char *w[] = {"{", "}", "[", "]", ",", ":", "\"version\"", "3", "\"settings\"", "\"opaque\"", "\"base_value\"", "\"inputs\"", "\"pressure\"", "[[0,0],[1,1]]", "0.5", "1", "null", "\"hardness\"", " ", "\"", "-1", "{\"version\":3,\"settings\":{", "\"opaque\":{\"base_value\":1,\"inputs\":{"};
    for (int i = 0; i < n; i++) if (mode == 0) t += (char)(1 + c.below(255)); else if (mode == 1) t += w[c.below(sizeof w / sizeof *w)]; else t += std::string(1 + c.below(4), "[{\":,"[c.below(5)]);
    most = std::max(most, t.size()); load(c, b, t); }
  after(c, b); if (most >= 20) c.nontrivial();
}
FACET(mutated, 5000, 400000, "sequences of 1..3 loads of real brushes damaged by truncation, byte changes, deletions, duplications, token insertion and number replacement; non-trivial: still readable as a version 3 brush, or a load that failed after one that succeeded") {
  Brush b(0); bool ok = false, nt = false; for (int k = 1 + c.below(3); k > 0; k--) { std::string t = real_docs()[c.below(real_docs().size())]; if (!c.chance(1, 10)) damage(c, t); Verdict v = load(c, b, t); nt |= v != NO || ok; ok |= v == YES; } after(c, b); if (nt) c.nontrivial();
}
// structurally valid JSON, wrong in content
static std::string junk(Case &c, int depth) {
  switch (c.below(14)) { case 0: return "null"; case 1: return "true"; case 2: return "\"3\""; case 3: return "3"; case 4: return "0.5"; case 5: return "-1e38"; case 6: return "1e39"; case 7: return "NaN"; case 8: return c.chance(1, 2) ? "Infinity" : "-Infinity"; case 9: return "9223372036854775808"; case 10: return "\"\\u0000x\""; 
    case 11: if (depth > 0) { std::string s = "["; for (int k = c.below(4); k > 0; k--) s += junk(c, depth - 1) + (k > 1 ? "," : ""); return s + "]"; } return "[]"; case 12: if (depth > 0) { std::string s = "{"; for (int k = c.below(3); k > 0; k--) s += "\"" + std::string(c.pick({"inputs", "base_value", "pressure", "x", ""})) + "\":" + junk(c, depth - 1) + (k > 1 ? "," : ""); return s + "}"; } return "{}";
    default: { std::string s; int n = 20 + c.below(60); for (int i = 0; i < n; i++) s += "["; for (int i = 0; i < n; i++) s += "]"; return s; } }
}
static std::string curve(Case &c) {
  if (c.chance(1, 10)) return junk(c, 3); int n = c.chance(1, 8) ? c.pick({1, 63, 64, 65, 66, 200}) : c.pick({0, 2, 2, 3, 4, 8}); if (c.chance(1, 15)) n = 1; double x = c.real(-10, 1, 0); std::string s = "["; bool wild = c.chance(1, 12);
  for (int i = 0; i < n; i++) { if (i) s += ","; if (c.chance(1, 60)) { s += junk(c, 2); continue; } x += c.chance(1, 4) ? 0 : c.chance(1, 20) ? -0.1 : c.real(0, 2, 0.5); std::string X = number_text(c, x), Y = number_text(c, c.real(-10, 10, 1)); if (wild && c.chance(1, 3)) (c.chance(1, 2) ? X : Y) = junk(c, 1); s += "[" + X + "," + Y; if (c.chance(1, 20)) s += "," + junk(c, 1); s += "]"; if (c.chance(1, 80)) s.resize(s.size() - 2), s += "]"; }
  return s + "]";
}
FACET(structured, 6000, 400000, "sequences of 1..4 syntactically valid documents with wrong types, counts, orders, nesting, numbers out of range, unknown names and missing fields at every level: result, values of well-formed settings, everything not mentioned, structure of all curves; non-trivial: a readable document with both good and bad settings") {
  Brush b(0); bool nt = false;
  for (int k = 1 + c.below(4); k > 0; k--) {
    std::string t = "{"; std::vector<std::string> f; int good = 0, bad = 0; Style st{(int)c.below(4), &c}; auto W = [&] { return st.ws(); };
    if (!c.chance(1, 15)) f.push_back("\"version\"" + W() + ":" + W() + (c.chance(1, 10) ? junk(c, 1) : c.chance(1, 15) ? c.pick({"2", "4", "3.0", "-3", "4294967299"}) : "3")); if (c.chance(1, 3)) f.push_back("\"" + std::string(c.pick({"comment", "group", "parent_brush_name", "description", "", "Version"})) + "\":" + junk(c, 3));
    if (!c.chance(1, 20)) {
      if (c.chance(1, 15)) f.push_back("\"settings\":" + junk(c, 3)); else { std::string s = "\"settings\"" + W() + ":" + W() + "{"; int n = c.below(8);
        for (int j = 0; j < n; j++) { if (j) s += W() + ","; s += W() + "\"" + (c.chance(1, 10) ? std::string(c.pick({"adapt_color_from_image", "nope", "", "opaque ", "OPAQUE"})) : sname(c.below(MYPAINT_BRUSH_SETTINGS_COUNT))) + "\"" + W() + ":" + W();
          if (c.chance(1, 12)) { s += junk(c, 3); continue; } std::vector<std::string> e; if (!c.chance(1, 15)) e.push_back("\"base_value\":" + W() + (c.chance(1, 8) ? junk(c, 2) : number_text(c, c.chance(1, 10) ? c.pick({1e38, -3.4e38, 1e-45, 1e300, -0.0, 16777217.0}) : c.real(-20, 20, 1)))); if (c.chance(1, 6)) e.push_back("\"extra\":" + junk(c, 2));
          if (!c.chance(1, 12)) { if (c.chance(1, 15)) e.push_back("\"inputs\":" + junk(c, 2)); else { std::string in = "\"inputs\":" + W() + "{"; int m = c.below(4); for (int q = 0; q < m; q++) in += std::string(q ? "," : "") + W() + "\"" + (c.chance(1, 12) ? std::string(c.pick({"nope", "", "Pressure", "speed"})) : iname(c.below(MYPAINT_BRUSH_INPUTS_COUNT))) + "\":" + curve(c); e.push_back(in + W() + "}"); } }
          if (c.chance(1, 2)) std::reverse(e.begin(), e.end()); s += "{"; for (size_t q = 0; q < e.size(); q++) s += (q ? "," : "") + W() + e[q]; s += W() + "}"; }
        f.push_back(s + "}"); } }
    if (c.chance(1, 2)) std::reverse(f.begin(), f.end()); for (size_t q = 0; q < f.size(); q++) t += (q ? "," : "") + W() + f[q]; t += W() + "}"; if (c.chance(1, 30)) t = junk(c, 4); if (c.chance(1, 20)) t += c.pick({"garbage", "}", " {\"version\":3}", "\n\n"});
    json_object *root = json_tokener_parse(t.c_str()); Doc d = read_doc(root); if (root) json_object_put(root); for (auto &e : d.entries) (e.ok == YES ? good : bad)++; nt |= d.readable == YES && good && bad; load(c, b, t);
  }
  after(c, b); if (nt) c.nontrivial();
}
PBT_MAIN("C01", "the json parser itself is trusted for syntax (it also parses the documents for the oracle)", "numbers written as strings, booleans or missing elements where a number belongs: accepting or rejecting is not specified, only structure is checked", "painting afterwards uses the loaded values clamped to their published ranges and a bounded dab rate")
