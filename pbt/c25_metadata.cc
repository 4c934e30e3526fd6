// C25: published metadata is consistent with the definition file.
#include "brushgen.hpp"
#include "enum_list.h"
#include <json.h>
#include <cfloat>
using namespace pbt;
namespace {
struct Defs {
  json_object *root, *settings, *inputs, *states; std::set<std::string> snames, inames;
  json_object *get(json_object *o, const char *k) { json_object *v = nullptr; json_object_object_get_ex(o, k, &v); return v; }
  Defs() { root = json_object_from_file(REPO_JSON); settings = get(root, "settings"); inputs = get(root, "inputs"); states = get(root, "states"); for (size_t i = 0; i < ns(); i++) snames.insert(text(setting(i), "internal_name")); for (size_t i = 0; i < ni(); i++) inames.insert(text(input(i), "id")); }
  size_t ns() { return json_object_array_length(settings); } size_t ni() { return json_object_array_length(inputs); } size_t nst() { return json_object_array_length(states); }
  json_object *setting(size_t i) { return json_object_array_get_idx(settings, i); } json_object *input(size_t i) { return json_object_array_get_idx(inputs, i); }
  std::string text(json_object *o, const char *k) { json_object *v = get(o, k); return v ? json_object_get_string(v) : ""; }
  float number(json_object *o, const char *k, float none) { json_object *v = get(o, k); return v ? (float)json_object_get_double(v) : none; }
};
Defs &D() { static Defs d; return d; }
std::string mangle(Case &c, std::string s) {
  for (int k = c.below(3); k >= 0; k--) switch (c.below(9)) {
    case 0: if (!s.empty()) s.erase(c.below(s.size()), 1); break;
    case 1: s.insert(s.begin() + c.below(s.size() + 1), "abcdefghijklmnopqrstuvwxyz_0129 \t\xc3\xff\n-"[c.below(38)]); break;
    case 2: if (!s.empty()) { char &q = s[c.below(s.size())]; q = q ^ 32; } break;
    case 3: s = s.substr(0, c.below(s.size() + 1)); break;
    case 4: s += c.pick({"_x", "_y", "x", "y", " ", "2", "_asc", "_view", "_log", "s"}); break;
    case 5: if (s.size() > 1) std::swap(s[c.below(s.size())], s[c.below(s.size())]); break;
    case 6: s = s.substr(c.below(s.size() + 1)); break;
    case 7: for (char &q : s) q = toupper(q); break;
    default: s = s + *std::next(D().snames.begin(), c.below(D().snames.size()));
  }
  for (char &q : s) if (!q) q = 'x'; return s;
}
std::string some_name(Case &c) { auto &S = c.chance(1, 2) ? D().snames : D().inames; return *std::next(S.begin(), c.below(S.size())); }
}
FACET(table, 8000, 20000, "every setting, input and state of the definition file (picked at random, all reached): position equals the public id and enum constant, name, display name, tooltip, constant flag, range, default and limits equal the file, default in range, names map to ids and back, counts agree; non-trivial: always") {
  c.nontrivial(); Defs &d = D(); if (d.ns() != MYPAINT_BRUSH_SETTINGS_COUNT || d.ni() != MYPAINT_BRUSH_INPUTS_COUNT || d.nst() != MYPAINT_BRUSH_STATES_COUNT) c.fail("count", "%d settings, %d inputs and %d states for %zu, %zu and %zu definitions", MYPAINT_BRUSH_SETTINGS_COUNT, MYPAINT_BRUSH_INPUTS_COUNT, MYPAINT_BRUSH_STATES_COUNT, d.ns(), d.ni(), d.nst());
  auto num = [&](const char *of, const char *what, float got, float want) { if (got != want) c.fail("number", "%s: %s is %.9g instead of %.9g", of, what, got, want); };
  auto str = [&](const char *of, const char *what, const char *got, const std::string &want) { if (!got || want != got) c.fail("text", "%s: %s is \"%s\" instead of \"%s\"", of, what, got ? got : "(null)", want.c_str()); };
  int i = c.below(d.ns()); { json_object *o = d.setting(i); std::string n = d.text(o, "internal_name"); c.log("setting %s", n.c_str()); const MyPaintBrushSettingInfo *s = sinfo(i); const char *N = n.c_str(); str(N, "name", s->cname, n); if (ENUM_SETTINGS[i].id != i || n != ENUM_SETTINGS[i].name) c.fail("id", "%s has id %d, its constant is %d", N, i, ENUM_SETTINGS[i].id);
    num(N, "minimum", s->min, d.number(o, "minimum", -FLT_MAX)); num(N, "maximum", s->max, d.number(o, "maximum", FLT_MAX)); num(N, "default", s->def, d.number(o, "default", 0)); if (!(s->min <= s->def && s->def <= s->max && s->min < s->max)) c.fail("range", "%s: default %g outside of %g..%g", N, s->def, s->min, s->max); if (!!s->constant != !!json_object_get_boolean(d.get(o, "constant"))) c.fail("constant", "%s: constant flag %d", N, s->constant);
    str(N, "display name", mypaint_brush_setting_info_get_name(s), d.text(o, "displayed_name")); str(N, "tooltip", mypaint_brush_setting_info_get_tooltip(s), d.text(o, "tooltip")); if (mypaint_brush_setting_from_cname(N) != i) c.fail("lookup", "%s maps to %d instead of %d", N, mypaint_brush_setting_from_cname(N), i); std::string copy = n + "!"; copy.pop_back(); if (mypaint_brush_setting_from_cname(copy.c_str()) != i) c.fail("lookup", "a copy of %s maps to another id", N); }
  i = c.below(d.ni()); { json_object *o = d.input(i); std::string n = d.text(o, "id"); c.log("input %s", n.c_str()); const MyPaintBrushInputInfo *s = iinfo(i); const char *N = n.c_str(); str(N, "name", s->cname, n); if (ENUM_INPUTS[i].id != i || n != ENUM_INPUTS[i].name) c.fail("id", "%s has id %d, its constant is %d", N, i, ENUM_INPUTS[i].id);
    num(N, "hard minimum", s->hard_min, d.number(o, "hard_minimum", -FLT_MAX)); num(N, "soft minimum", s->soft_min, d.number(o, "soft_minimum", -FLT_MAX)); num(N, "normal", s->normal, d.number(o, "normal", 0)); num(N, "soft maximum", s->soft_max, d.number(o, "soft_maximum", FLT_MAX)); num(N, "hard maximum", s->hard_max, d.number(o, "hard_maximum", FLT_MAX)); if (!(s->hard_min <= s->soft_min && s->soft_min <= s->normal && s->normal <= s->soft_max && s->soft_max <= s->hard_max)) c.fail("range", "%s: limits out of order", N);
    str(N, "display name", mypaint_brush_input_info_get_name(s), d.text(o, "displayed_name")); str(N, "tooltip", mypaint_brush_input_info_get_tooltip(s), d.text(o, "tooltip")); if (mypaint_brush_input_from_cname(N) != i) c.fail("lookup", "%s maps to %d instead of %d", N, mypaint_brush_input_from_cname(N), i); }
  i = c.below(d.nst()); if (ENUM_STATES[i].id != i || std::string(json_object_get_string(json_object_array_get_idx(d.states, i))) != ENUM_STATES[i].name) c.fail("id", "state %s has id %d instead of %d", ENUM_STATES[i].name, ENUM_STATES[i].id, i);
  if (d.snames.size() != d.ns() || d.inames.size() != d.ni()) c.fail("unique", "names are not unique");
}
FACET(names, 40000, 3000000, "arbitrary and mangled names (prefixes, extensions, case changes, swapped letters, names of the other kind): a name maps to a valid id exactly if it is the name of that id; non-trivial: the name is not a known one") {
  std::string s = c.chance(1, 8) ? std::string() : some_name(c); if (s.empty()) for (int k = c.below(20); k > 0; k--) s += (char)(1 + c.below(255)); if (c.chance(7, 8)) s = mangle(c, s); if (c.chance(1, 200)) s = std::string(5000, 'a') + s; c.log("name \"%.200s\"", s.c_str());
  bool ks = D().snames.count(s), ki = D().inames.count(s); int a = mypaint_brush_setting_from_cname(s.c_str()), b = mypaint_brush_input_from_cname(s.c_str()); if (!ks || !ki) c.nontrivial();
  if ((a >= 0 && a < MYPAINT_BRUSH_SETTINGS_COUNT) != ks || (ks && s != sname(a))) c.fail("lookup", "\"%.200s\" maps to setting %d", s.c_str(), a); if ((b >= 0 && b < MYPAINT_BRUSH_INPUTS_COUNT) != ki || (ki && s != iname(b))) c.fail("lookup", "\"%.200s\" maps to input %d", s.c_str(), b);
}
FACET(defaults, 3000, 150000, "a brush with any settings, dynamics and past reset to the defaults: base values equal the published defaults, no setting has dynamics but the documented pressure curve on opaque_multiply, all accessors agree; non-trivial: >= 3 settings differed") {
  Brush b; BrushOpts o; gen_brush(c, b, o); int diff = 0; for (int s = 0; s < MYPAINT_BRUSH_SETTINGS_COUNT; s++) diff += b.get(s) != sinfo(s)->def; if (c.chance(1, 2)) for (int k = 0; k < 5; k++) b.curve(c.below(MYPAINT_BRUSH_SETTINGS_COUNT), c.below(MYPAINT_BRUSH_INPUTS_COUNT), {{0, 1}, {1, 2}, {3, 4}}); if (diff >= 3) c.nontrivial();
  mypaint_brush_from_defaults(b);
  for (int s = 0; s < MYPAINT_BRUSH_SETTINGS_COUNT; s++) { MyPaintBrushSetting S = (MyPaintBrushSetting)s; if (b.get(s) != sinfo(s)->def) c.fail("base", "%s is %.9g instead of %.9g", sname(s), b.get(s), sinfo(s)->def); bool om = s == SET(OPAQUE_MULTIPLY); if (!!mypaint_brush_is_constant(b, S) == om) c.fail("dynamics", "%s reports constant %d", sname(s), mypaint_brush_is_constant(b, S)); if (mypaint_brush_get_inputs_used_n(b, S) != om) c.fail("dynamics", "%s uses %d inputs", sname(s), mypaint_brush_get_inputs_used_n(b, S));
    for (int i = 0; i < MYPAINT_BRUSH_INPUTS_COUNT; i++) { int n = mypaint_brush_get_mapping_n(b, S, (MyPaintBrushInput)i), want = om && i == INP(PRESSURE) ? 2 : 0; if (n != want) c.fail("dynamics", "%s has %d points for %s", sname(s), n, iname(i)); for (int k = 0; k < n; k++) { float x, y; mypaint_brush_get_mapping_point(b, S, (MyPaintBrushInput)i, k, &x, &y); if (x != k || y != k) c.fail("dynamics", "point %d of the pressure curve is (%g,%g)", k, x, y); } } }
}
PBT_MAIN("C25", "untranslated texts (no gettext in the test build)")
