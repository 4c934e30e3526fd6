// C26: the random generator.
#include "brushgen.hpp"
extern "C" {
#include "rng-double.h"
float rand_gauss(RngDouble *);
}
using namespace pbt;
namespace {
struct Rng { RngDouble *r; Rng(long s) : r(rng_double_new(s)) {} ~Rng() { rng_double_free(r); } double next() { return rng_double_next(r); } Rng(const Rng &) = delete; };
long seed(Case &c) { switch (c.below(4)) { case 0: return c.below(100); case 1: return c.pick({1000L, 0x3fffffffL, 0x20000000L, 0x1555555L, 0x2aaaaaaaL, 0x3ffffffeL}); default: return c.below(1 << 30); } }
void in_range(Case &c, double v, const char *what) { if (!(v >= 0 && v < 1)) c.fail("bounds", "%s yielded %.17g", what, v); }
}
FACET(streams, 20000, 1000000, "several generators with any seeds, read in any interleaving of single reads, block reads of other generators and re-seeding: each generator yields exactly the values of its seed read alone, all in [0,1), re-seeding restarts, different seeds give different sequences; non-trivial: >= 2 generators interleaved for > 20 values each") {
  int n = 1 + c.below(4); std::vector<std::unique_ptr<Rng>> g; std::vector<long> s; std::vector<std::vector<double>> ref(n); std::vector<size_t> pos(n, 0); size_t most = 0, least = 1e9; std::vector<size_t> total(n, 0);
  auto sequence = [&](long k) { Rng r(k); std::vector<double> v(260); for (double &d : v) in_range(c, d = r.next(), "a generator"); return v; };
  for (int i = 0; i < n; i++) { s.push_back(i && c.chance(1, 3) ? s[0] : i && c.chance(1, 3) ? s[0] ^ (1L << c.below(30)) : seed(c)); ref[i] = sequence(s[i]); g.emplace_back(new Rng(s[i])); c.log("generator %d seed %ld", i, s[i]); }
  for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) if ((s[i] == s[j]) != (ref[i] == ref[j])) c.fail("seeds", "seeds %ld and %ld give %s sequences", s[i], s[j], s[i] == s[j] ? "different" : "the same"); else if (s[i] != s[j]) { int eq = 0; for (int k = 0; k < 260; k++) eq += ref[i][k] == ref[j][k]; if (eq > 4) c.fail("seeds", "%d of 260 values of the seeds %ld and %ld coincide", eq, s[i], s[j]); }
  do {
    int i = c.below(n);
    if (c.chance(1, 12)) { if (c.chance(1, 2)) { s[i] = seed(c); ref[i] = sequence(s[i]); } rng_double_set_seed(g[i]->r, s[i]); pos[i] = 0; c.log("generator %d re-seeded with %ld", i, s[i]); continue; }
    if (c.chance(1, 20)) { Rng t(seed(c)); std::vector<double> b(10 + c.below(60)); rng_double_get_array(t.r, b.data(), b.size()); for (double d : b) in_range(c, d, "a block"); }
    for (int k = 1 + c.below(40); k > 0 && pos[i] < 260; k--) { double v = g[i]->next(); if (v != ref[i][pos[i]]) c.fail("replay", "value %zu of generator %d (seed %ld) is %.17g instead of %.17g", pos[i], i, s[i], v, ref[i][pos[i]]); pos[i]++; total[i]++; }
  } while (c.more(30));
  int busy = 0; for (size_t t : total) busy += t > 20; if (busy >= 2) c.nontrivial();
}
FACET(blocks, 10000, 500000, "block reads of any sizes >= 10 from any seed: concatenated blocks equal one long block, every value lies in [0,1) and is the sum modulo 1 of the values 10 and 7 earlier, and nothing is written beyond the block; single reads are an ordered selection of the block sequence; non-trivial: >= 3 blocks") {
  long s = seed(c); Rng a(s), b(s), d(s); int total = 0; std::vector<double> cat; int n = 1 + c.below(8); c.log("seed %ld", s);
  for (int i = 0; i < n; i++) { int k = 10 + c.below(c.chance(1, 4) ? 300 : 30); std::vector<double> v(k + 4, -7); rng_double_get_array(a.r, v.data(), k); c.log("block of %d", k); for (int j = k; j < k + 4; j++) if (v[j] != -7) c.fail("bounds", "a block of %d values wrote value %d", k, j); cat.insert(cat.end(), v.begin(), v.begin() + k); total += k; }
  std::vector<double> one(total + 600); rng_double_get_array(b.r, one.data(), one.size()); for (int i = 0; i < total; i++) { in_range(c, cat[i], "a block"); if (cat[i] != one[i]) c.fail("blocks", "value %d of consecutive blocks is %.17g, of one block %.17g", i, cat[i], one[i]); if (i >= 10) { double t = one[i - 10] + one[i - 7]; t -= t >= 1; if (one[i] != t) c.fail("recurrence", "value %d is %.17g instead of %.17g", i, one[i], t); } }
  if (n >= 3) c.nontrivial(); size_t p = 0; for (int i = 0; i < 100; i++) { double v = d.next(); while (p < one.size() && one[p] != v) p++; if (p == one.size()) { c.fail("single", "single read %d (%.17g) is not in the block sequence of seed %ld", i, v, s); } p++; }
}
FACET(statistics, 400, 12000, "60000 single reads and 20000 gaussian values from any seed, starting anywhere: mean, variance, 64 bin histogram, 16x16 histogram of consecutive pairs, serial correlations of lag 1..12, no value determined by two of its 40 predecessors; gaussian mean, variance, bounds and serial correlation; all within 6.5 standard errors; non-trivial: always") {
  c.nontrivial(); long s = seed(c); Rng r(s); for (int k = c.below(1000); k > 0; k--) r.next(); const int N = 60000; std::vector<double> v(N); double sum = 0, sq = 0; std::vector<int> h(64, 0), h2(256, 0); for (double &d : v) { d = r.next(); in_range(c, d, "a generator"); sum += d; sq += (d - 0.5) * (d - 0.5); h[(int)(d * 64)]++; } c.log("seed %ld", s);
  auto within = [&](const char *n, double z) { c.stat(fabs(z) / 6.5); if (!(fabs(z) < 6.5)) c.fail(n, "%s is %.3g standard errors off", n, z); };
  within("mean", (sum / N - 0.5) * sqrt(12.0 * N)); within("variance", (sq / N - 1.0 / 12) / sqrt((1.0 / 80 - 1.0 / 144) / N));
  double chi = 0; for (int k : h) chi += (k - N / 64.0) * (k - N / 64.0) / (N / 64.0); within("histogram", (chi - 63) / sqrt(2 * 63.0));
  for (int i = 0; i + 1 < N; i += 2) h2[(int)(v[i] * 16) * 16 + (int)(v[i + 1] * 16)]++; chi = 0; for (int k : h2) chi += (k - N / 512.0) * (k - N / 512.0) / (N / 512.0); within("pairs", (chi - 255) / sqrt(2 * 255.0));
  for (int lag = 1; lag <= 12; lag++) { double q = 0; for (int i = lag; i < N; i++) q += (v[i] - 0.5) * (v[i - lag] - 0.5); within("serial correlation", q * 12 / sqrt((double)(N - lag))); }
  int dep = 0; for (int i = 40; i < 400; i++) for (int a = 1; a <= 40; a++) for (int b = 1; b <= a; b++) { double t = v[i - a] + v[i - b]; t -= t >= 1; dep += t == v[i]; } if (dep > 2) c.fail("dependence", "%d of 360 values are the sum modulo 1 of two of the 40 values before", dep);
  const int G = 20000; double gs = 0, gq = 0, gc = 0, last = 0; for (int i = 0; i < G; i++) { double g = rand_gauss(r.r); if (!(fabs(g) <= 3.4641017)) c.fail("gauss bounds", "a gaussian value of %.9g", g); gs += g; gq += g * g; gc += g * last; last = g; }
  within("gaussian mean", gs / sqrt((double)G)); within("gaussian variance", (gq / G - 1) / sqrt(1.7 / G)); within("gaussian serial correlation", gc / sqrt((double)G));
}
FACET(brushes, 3000, 150000, "brushes with random offsets and radii, interleaved with other brushes: new brushes all start the same random sequence and continue it independently of each other, also over resets; the random input stays in [0,1) and changes only with dabs; non-trivial: >= 20 dabs from each of two brushes") {
  Brush a, b, o; RecSurf sa, sb, so; for (Brush *q : {&a, &b, &o}) { q->set(SET(OFFSET_BY_RANDOM), 1); q->set(SET(DABS_PER_SECOND), 50); for (int i = 0; i < MYPAINT_BRUSH_INPUTS_COUNT; i++) mypaint_brush_set_mapping_n(*q, MYPAINT_BRUSH_SETTING_OPAQUE_MULTIPLY, (MyPaintBrushInput)i, 0); q->set(SET(OPAQUE_MULTIPLY), 1); q->curve(SET(COLORIZE), INP(RANDOM), {{0, 0}, {1, 1}}); q->set(SET(COLORIZE), 0); q->set(SET(RADIUS_BY_RANDOM), 0.3); }
  int n = 2 + c.below(30); std::vector<Event> ev; Pen pen(c, 0, 0); for (int i = 0; i < n; i++) { Event e = pen.next(c, 20); if (e.dtime > 0.09 || e.dtime <= 0) e.dtime = 0.04; ev.push_back(e); }
  std::vector<bool> rs; for (int i = 0; i < n; i++) rs.push_back(c.chance(1, 10)); for (int i = 0; i < n; i++) { if (rs[i]) mypaint_brush_reset(a); stroke(a, sa.iface(), ev[i]); }
  for (int i = 0; i < n; i++) { while (c.chance(1, 3)) { Event e = {1, 2, 0.5, 0, 0, 0.05, 1, 0, 0, 0}; stroke(o, so.iface(), e); if (c.chance(1, 3)) { Brush t; stroke(t, so.iface(), e); } } if (rs[i]) mypaint_brush_reset(b); stroke(b, sb.iface(), ev[i]); }
  if (sa.dabs.size() != sb.dabs.size()) c.fail("isolated", "%zu dabs alone, %zu with others in between", sa.dabs.size(), sb.dabs.size());
  for (size_t i = 0; i < sa.dabs.size(); i++) { if (!same_bits(sa.dabs[i], sb.dabs[i])) c.fail("isolated", "dab %zu: %s alone, %s with others in between", i, str(sa.dabs[i]).c_str(), str(sb.dabs[i]).c_str()); in_range(c, sa.dabs[i].colorize, "the random input"); if (i && sa.dabs[i].colorize == sa.dabs[i - 1].colorize) c.fail("input", "the random input did not change between dabs"); }
  if (sa.dabs.size() >= 20) c.nontrivial();
}
PBT_MAIN("C26", "seeds are distinguished by their lower 30 bits", "statistics are judged at 6.5 standard errors over 60000 values; the third-order dependence inherent in a lagged Fibonacci generator is not")
