// A small property-based testing engine.
//
// A property is a function of a Case; every random decision it makes is drawn
// through Case::below(), so a case *is* its list of choices ("choice sequence").
// Shrinking edits that list (delete / zero / lower), so it can never produce an
// input the generator could not have made.  Cases run in forked workers: a crash,
// sanitizer report, failed assertion or hang in the library is a violation with a
// replay file, exactly like a failed oracle.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <functional>
#include <algorithm>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <time.h>

namespace pbt {

typedef uint64_t u64;
inline u64 splitmix(u64 &x) {
  u64 z = (x += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
inline u64 hash_str(const char *s, u64 h = 1469598103934665603ull) {
  for (; *s; s++) { h ^= (unsigned char)*s; h *= 1099511628211ull; }
  return h;
}
inline double now() {
  timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + 1e-9 * t.tv_nsec;
}

struct Fail { std::string key, msg; };
struct Discard {};

enum { MAX_CHOICES = 60000, MAX_LABELS = 96, MSG = 1 << 13, TRACE = 1 << 17, MAX_WORKERS = 64 };

// One per worker, in shared memory.
struct Shm {
  volatile long index;            // case being run (or -1)
  volatile int facet;
  volatile int status;            // see Status
  volatile int nchoices;
  u64 choices[MAX_CHOICES];
  char key[256];
  char msg[MSG];
  char trace[TRACE];
  long evaluations, discards, nontrivial;
  long facet_eval[32], facet_nontrivial[32], facet_known[32];
  char label[MAX_LABELS][48];
  long label_n[MAX_LABELS];
  char sample[6][6000];
  long stat_n; double stat_max; // worst margin seen, free use by a property
};
enum Status { RUNNING = 0, PASSED = 1, FAILED = 2, DISCARDED = 3, TIMEOUT = 4, DONE = 5, KNOWN = 6 };

struct Case {
  // choice source
  bool replaying = false;
  const std::vector<u64> *in = nullptr;
  size_t pos = 0;
  u64 rng = 0;
  Shm *shm = nullptr;
  u64 h = 0;
  // results
  bool is_nontrivial = false;
  bool tracing = false;
  bool flagged = false;
  Fail flag_;
  std::string trace;
  std::vector<std::string> labels_;
  bool thorough = false;

  u64 below(u64 n) {              // uniform in [0,n); 0 is the "simplest" value
    if (n <= 1) return 0;
    u64 v;
    if (replaying) {
      v = pos < in->size() ? (*in)[pos] : 0;
      if (v >= n) v %= n;
      pos++;
    } else {
      u64 r = splitmix(rng);
      v = (u64)(((__uint128_t)r * n) >> 64);
    }
    int k = shm->nchoices;
    if (k >= MAX_CHOICES) throw Discard();
    shm->choices[k] = v; shm->nchoices = k + 1;
    h = (h ^ v) * 0x100000001b3ull; h ^= h >> 29;
    return v;
  }
  long range(long lo, long hi) { return lo + (long)below((u64)(hi - lo + 1)); }  // simplest: lo
  // integer in [lo,hi] whose simplest value is `s`
  long near(long lo, long hi, long s) {
    long v = (long)below((u64)(hi - lo + 1));
    long r = s + v; if (r > hi) r = lo + (r - hi - 1); return r;
  }
  bool chance(int num, int den) { return below(den) >= (u64)(den - num); }        // simplest: false
  bool more(int avg) { return below(avg + 1) != 0; }                              // loop control
  // real in [lo,hi] on a grid of 2^16 steps; choice 0 = simple
  double real(double lo, double hi, double simple) {
    u64 v = below(65537 + 1);
    if (v == 0) return simple;
    return lo + (hi - lo) * (double)(v - 1) / 65536.0;
  }
  double real(double lo, double hi) { return real(lo, hi, lo); }
  // real with boundary values and a few interesting ones mixed in
  double edgy(double lo, double hi, double simple) {
    switch (below(8)) {
      case 0: return simple;
      case 1: return lo;
      case 2: return hi;
      case 3: return lo + (hi - lo) * (double)below(9) / 8.0;
      default: return real(lo, hi, simple);
    }
  }
  template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }
  template <class T> const T &pick(const std::vector<T> &l) { return l[below(l.size())]; }

  void nontrivial() { is_nontrivial = true; }
  void label(const char *l) { labels_.push_back(l); }
  void log(const char *fmt, ...) __attribute__((format(printf, 2, 3))) {
    if (!tracing || trace.size() > TRACE - 600) return;
    char b[2048]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    trace += b; trace += "\n";
    // keep it visible to the parent even if the next line crashes
    if (shm) { size_t n = std::min(trace.size(), (size_t)TRACE - 1); memcpy(shm->trace, trace.data(), n); shm->trace[n] = 0; }
  }
  [[noreturn]] void fail(const char *key, const char *fmt, ...) __attribute__((format(printf, 3, 4))) {
    char b[4096]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    throw Fail{key, b};
  }
  // usable from C callbacks: remember the first failure, raised by checkpoint()
  void flag(const char *key, const char *fmt, ...) __attribute__((format(printf, 3, 4))) {
    if (flagged) return;
    char b[4096]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    flagged = true; flag_ = Fail{key, b};
  }
  void checkpoint() { if (flagged) throw flag_; }
  [[noreturn]] void discard() { throw Discard(); }
  void stat(double v) { if (shm) { shm->stat_n++; if (v > shm->stat_max) shm->stat_max = v; } }
};

typedef void (*PropFn)(Case &);
struct Facet { const char *name; PropFn fn; long quick, thorough; const char *rule; };
struct Suite {
  const char *id = "?";
  const char *level = "exploration";
  std::vector<Facet> facets;
  std::vector<std::string> assumptions;
  double cpu_limit = 20;          // seconds of CPU per case before it counts as a hang
};
inline Suite &suite() { static Suite s; return s; }
struct AddFacet { AddFacet(const char *n, PropFn f, long q, long t, const char *rule) { suite().facets.push_back({n, f, q, t, rule}); } };
#define FACET(name, quick, thorough, rule)                                    \
  static void facet_##name(pbt::Case &c);                                     \
  static pbt::AddFacet add_##name(#name, facet_##name, quick, thorough, rule); \
  static void facet_##name(pbt::Case &c)

struct Known { std::string key, what; };
struct Opts {
  std::string tier = "quick", evidence, replays, replay, known;
  u64 seed = 1; int workers = 8; double deadline = 480, scale = 1; std::string only;
};

inline Shm *&cur_shm() { static Shm *s; return s; }
inline void on_timer(int) { if (cur_shm()) cur_shm()->status = TIMEOUT; _exit(77); }
inline void arm(double s) {
  itimerval it; memset(&it, 0, sizeof it);
  it.it_value.tv_sec = (long)s; it.it_value.tv_usec = (long)((s - (long)s) * 1e6);
  setitimer(ITIMER_VIRTUAL, &it, nullptr);
}

struct Runner {
  Opts o;
  std::vector<Known> known;
  double t0 = now();
  Shm *shm[MAX_WORKERS];
  volatile int *stop;

  bool is_known(const std::string &key) { for (auto &k : known) if (k.key == key) return true; return false; }

  u64 case_seed(int facet, long i) {
    u64 s = o.seed * 0x9E3779B97F4A7C15ull + hash_str(suite().id) * 31 + hash_str(suite().facets[facet].name) * 7 + (u64)i * 0xD1B54A32D192ED03ull;
    splitmix(s); return s;
  }

  // Runs one case in this process; returns Status
  int run_case(Case &c, int facet, Shm *s) {
    s->nchoices = 0; s->facet = facet; s->status = RUNNING; s->key[0] = s->msg[0] = s->trace[0] = 0;
    cur_shm() = s; c.shm = s; c.thorough = o.tier == "thorough";
    c.h = hash_str(suite().facets[facet].name);
    srand((unsigned)(case_seed(facet, 0) & 0x7fffffff));
    arm(suite().cpu_limit);
    int st;
    try { suite().facets[facet].fn(c); c.checkpoint(); st = PASSED; }
    catch (Fail &f) { st = report_fail(s, c.flagged ? c.flag_ : f); }
    catch (Discard &) { if (c.flagged) st = report_fail(s, c.flag_); else st = DISCARDED; }
    arm(0);
    s->status = st;
    return st;
  }
  int report_fail(Shm *s, const Fail &f) {
    snprintf(s->key, sizeof s->key, "%s", f.key.c_str());
    snprintf(s->msg, sizeof s->msg, "%s", f.msg.c_str());
    return is_known(f.key) ? KNOWN : FAILED;
  }

  static void quiet(const char *err) {
    int n = open("/dev/null", O_WRONLY); dup2(n, 1);
    if (err) { int e = open(err, O_WRONLY | O_CREAT | O_TRUNC, 0600); dup2(e, 2); close(e); } else dup2(n, 2);
    close(n);
  }

  void worker(int w, int W, const std::vector<long> &counts, const std::string &hashfile) {
    quiet(nullptr);
    signal(SIGVTALRM, on_timer);
    Shm *s = shm[w];
    std::unordered_set<u64> seen;
    // interleave facets so that a deadline cuts all of them alike
    long mx = 0; for (long n : counts) mx = std::max(mx, n);
    int F = counts.size();
    std::vector<double> next(F, 0);
    for (long i = w; i < mx && !*stop; i += W) {
      for (int f = 0; f < F && !*stop; f++) {
        if (i >= counts[f]) continue;
        if (now() - t0 > o.deadline) goto out;
        Case c; c.rng = case_seed(f, i);
        bool sample = (i < 6 * W && w < 6 && i / W == w % 6 && f == w % F);
        c.tracing = sample;
        s->index = i;
        int st = run_case(c, f, s);
        s->evaluations++; s->facet_eval[f]++;
        if (st == FAILED) { *stop = 1; goto out_keep; }
        if (st == KNOWN) s->facet_known[f]++;
        if (st == DISCARDED) { s->discards++; continue; }
        if (c.is_nontrivial && seen.insert(c.h).second) { s->nontrivial++; s->facet_nontrivial[f]++; }
        for (auto &l : c.labels_) {
          for (int k = 0; k < MAX_LABELS; k++) {
            if (!s->label[k][0]) snprintf(s->label[k], 48, "%s", l.c_str());
            if (!strncmp(s->label[k], l.c_str(), 47)) { s->label_n[k]++; break; }
          }
        }
        if (sample) snprintf(s->sample[w % 6], sizeof s->sample[0], "[%s #%ld] %s", suite().facets[f].name, i, c.trace.c_str());
      }
    }
  out:
    s->status = DONE; s->index = -1;
  out_keep:
    FILE *hf = fopen(hashfile.c_str(), "wb");
    if (hf) { std::vector<u64> v(seen.begin(), seen.end()); if (!v.empty()) fwrite(v.data(), 8, v.size(), hf); fclose(hf); }
    fflush(nullptr);
    _exit(0);
  }

  // Runs a list of choices in a child. Returns Status (crash => FAILED with key "crash...").
  int attempt(int facet, const std::vector<u64> &list, Shm *s, bool tracing, const char *errfile, long prefix_from = -1, long prefix_step = 0, long index = -1) {
    memset((void *)s->key, 0, sizeof s->key); s->msg[0] = 0; s->trace[0] = 0; s->status = RUNNING; s->nchoices = 0;
    pid_t p = fork();
    if (p == 0) {
      quiet(errfile);
      signal(SIGVTALRM, on_timer);
      if (prefix_from >= 0)
        for (long i = prefix_from; i < index; i += prefix_step)
          for (size_t f = 0; f < suite().facets.size(); f++) {
            if (only_skip(f) || i >= counts_[f]) continue;
            Case c; c.rng = case_seed(f, i); s->index = i; run_case(c, f, s);
          }
      if (prefix_from >= 0)
        for (int f = 0; f < facet; f++) { if (only_skip(f) || index >= counts_[f]) continue; Case c; c.rng = case_seed(f, index); run_case(c, f, s); }
      Case c; c.tracing = tracing;
      if (index >= 0 && list.empty()) { c.rng = case_seed(facet, index); }
      else { c.replaying = true; c.in = &list; }
      s->index = index;
      run_case(c, facet, s);
      _exit(0);
    }
    int ws = 0; while (waitpid(p, &ws, 0) < 0) {}
    if (WIFEXITED(ws) && WEXITSTATUS(ws) == 0) return s->status;
    if (s->status == TIMEOUT) { snprintf(s->key, sizeof s->key, "hang"); snprintf(s->msg, MSG, "no result after %.0f s of CPU time (hang)", suite().cpu_limit); return FAILED; }
    describe_death(ws, s);
    return FAILED;
  }
  static void describe_death(int ws, Shm *s) {
    if (WIFSIGNALED(ws)) snprintf(s->key, sizeof s->key, "crash"), snprintf(s->msg, MSG, "killed by signal %d (%s)", WTERMSIG(ws), strsignal(WTERMSIG(ws)));
    else snprintf(s->key, sizeof s->key, "crash"), snprintf(s->msg, MSG, "exited with status %d (sanitizer report or exit)", WEXITSTATUS(ws));
  }
  std::vector<long> counts_;
  bool only_skip(int f) { return !o.only.empty() && o.only != suite().facets[f].name; }

  std::vector<u64> consumed(Shm *s) { return std::vector<u64>(s->choices, s->choices + s->nchoices); }
  static bool smaller(const std::vector<u64> &a, const std::vector<u64> &b) { return a.size() != b.size() ? a.size() < b.size() : a < b; }

  std::vector<u64> shrink(int facet, std::vector<u64> best, Shm *s, const std::string &key0, double budget) {
    double end = now() + budget; long tries = 0;
    bool hang = key0 == "hang";
    auto ok = [&](const std::vector<u64> &cand) {
      if (now() > end || tries > (hang ? 12 : 6000)) return false;
      tries++;
      int st = attempt(facet, cand, s, false, nullptr);
      if (st != FAILED) return false;
      if ((std::string(s->key) == "crash") != (key0 == "crash")) return false;
      if (!hang && !strcmp(s->key, "hang")) return false;
      auto got = consumed(s);
      if (smaller(got, best)) { best = got; return true; }
      return false;
    };
    bool progress = true;
    while (progress && now() < end) {
      progress = false;
      for (size_t len = std::max<size_t>(1, best.size() / 2); len >= 1; len /= 2) {          // delete chunks
        for (size_t at = 0; at < best.size();) {
          std::vector<u64> c(best.begin(), best.begin() + at);
          if (at + len < best.size()) c.insert(c.end(), best.begin() + at + len, best.end());
          if (ok(c)) progress = true; else at += len;
        }
        if (now() > end) break;
      }
      for (size_t len = 32; len >= 1; len /= 2)                                            // zero chunks
        for (size_t at = 0; at < best.size(); at += len) {
          std::vector<u64> c = best; bool any = false;
          for (size_t k = at; k < std::min(best.size(), at + len); k++) { if (c[k]) any = true; c[k] = 0; }
          if (any && ok(c)) progress = true;
        }
      for (size_t at = 0; at < best.size() && now() < end; at++) {                           // lower values
        if (!best[at]) continue;
        for (u64 d = best[at]; d >= 1; d /= 2) {
          if (at >= best.size() || best[at] < d) continue;
          std::vector<u64> c = best; c[at] -= d;
          if (ok(c)) progress = true;
        }
      }
    }
    return best;
  }

  static std::string jesc(const std::string &s) {
    std::string r;
    for (unsigned char ch : s) {
      if (ch == '"' || ch == '\\') { r += '\\'; r += ch; }
      else if (ch == '\n') r += "\\n";
      else if (ch < 32 || ch >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", ch); r += b; }
      else r += ch;
    }
    return r;
  }
  static std::string slurp(const std::string &f, size_t max) {
    std::string r; FILE *fp = fopen(f.c_str(), "rb"); if (!fp) return r;
    char b[4096]; size_t n; while (r.size() < max && (n = fread(b, 1, sizeof b, fp))) r.append(b, n);
    fclose(fp); return r;
  }

  void load_known() {
    FILE *fp = o.known.empty() ? nullptr : fopen(o.known.c_str(), "r"); if (!fp) return;
    char line[4096];
    while (fgets(line, sizeof line, fp)) {
      std::string l(line); while (!l.empty() && (l.back() == '\n' || l.back() == '\r')) l.pop_back();
      std::string pre = std::string("known: property=") + suite().id + " key=";
      if (l.compare(0, pre.size(), pre)) continue;
      size_t sp = l.find(' ', pre.size()); if (sp == std::string::npos) continue;
      known.push_back({l.substr(pre.size(), sp - pre.size()), l.substr(sp + 1)});
    }
    fclose(fp);
  }

  int do_replay() {
    std::string t = slurp(o.replay, 4 << 20);
    auto line = [&](const char *k) { size_t p = t.find(k); if (p == std::string::npos) return std::string(); p += strlen(k); return t.substr(p, t.find('\n', p) - p); };
    std::string fname = line("facet="), tier = line("tier="), seed = line("seed="), pre = line("prefix="), cnt = line("index="), pf = line("prefix_cases=");
    if (!tier.empty()) o.tier = tier;
    if (!seed.empty()) o.seed = strtoull(seed.c_str(), 0, 10);
    int facet = -1; for (size_t i = 0; i < suite().facets.size(); i++) if (fname == suite().facets[i].name) facet = i;
    if (facet < 0) { fprintf(stderr, "unknown facet in replay file\n"); return 2; }
    std::vector<u64> list; { std::string c = line("choices="); const char *p = c.c_str(); char *e; while (*p) { u64 v = strtoull(p, &e, 10); if (e == p) break; list.push_back(v); p = e; } }
    counts_ = counts();
    std::string err = o.replay + ".stderr";
    long from = -1, step = 0, index = -1;
    if (!pre.empty()) sscanf(pre.c_str(), "%ld %ld %ld", &from, &step, &index);
    if (from >= 0) list.clear();
    int st = attempt(facet, list, shm[0], true, err.c_str(), from, step, index);
    printf("%s\n", shm[0]->trace);
    std::string e = slurp(err, 6000); unlink(err.c_str());
    if (!e.empty()) printf("--- stderr ---\n%s\n", e.c_str());
    if (st == FAILED || st == KNOWN) { printf("REPRODUCED (%s) %s\n", shm[0]->key, shm[0]->msg); return 1; }
    printf("did not reproduce (status %d)\n", st); return 0;
  }
  std::vector<long> counts() {
    std::vector<long> r;
    for (size_t f = 0; f < suite().facets.size(); f++) {
      long n = o.tier == "thorough" ? suite().facets[f].thorough : suite().facets[f].quick;
      r.push_back(only_skip(f) ? 0 : std::max(1L, (long)(n * o.scale)));
    }
    return r;
  }

  int main(int argc, char **argv) {
    for (int i = 1; i < argc; i++) {
      std::string a = argv[i]; auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
      if (a == "--tier") o.tier = val(); else if (a == "--seed") o.seed = strtoull(val().c_str(), 0, 10);
      else if (a == "--evidence") o.evidence = val(); else if (a == "--replays") o.replays = val();
      else if (a == "--workers") o.workers = atoi(val().c_str()); else if (a == "--deadline") o.deadline = atof(val().c_str());
      else if (a == "--scale") o.scale = atof(val().c_str()); else if (a == "--replay") o.replay = val();
      else if (a == "--known") o.known = val(); else if (a == "--only") o.only = val();
    }
    setvbuf(stdout, nullptr, _IOLBF, 0);
    int W = std::max(1, std::min(o.workers, (int)MAX_WORKERS));
    for (int w = 0; w <= W && w < MAX_WORKERS; w++) {
      shm[w] = (Shm *)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
      shm[w]->index = -1;
    }
    stop = (volatile int *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    load_known();
    if (!o.replay.empty()) return do_replay();
    counts_ = counts();
    char tmpd[] = "/tmp/pbt.XXXXXX"; if (!mkdtemp(tmpd)) { perror("mkdtemp"); return 2; }
    std::vector<pid_t> pid(W); std::vector<std::string> hf(W);
    for (int w = 0; w < W; w++) {
      hf[w] = std::string(tmpd) + "/h" + std::to_string(w);
      pid[w] = fork();
      if (pid[w] == 0) worker(w, W, counts_, hf[w]);
    }
    std::vector<int> ws(W, 0); int left = W;
    while (left) {
      int st; pid_t p = wait(&st); if (p < 0) break;
      for (int w = 0; w < W; w++) if (pid[w] == p) { ws[w] = st; left--; if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) *stop = 1; }
    }
    // collect
    int bad = -1; bool broken = false;
    for (int w = 0; w < W; w++) {
      bool died = !(WIFEXITED(ws[w]) && WEXITSTATUS(ws[w]) == 0);
      if (died && shm[w]->index < 0) { fprintf(stderr, "worker %d died outside a case\n", w); broken = true; }
      if ((died || shm[w]->status == FAILED) && shm[w]->index >= 0 && (bad < 0 || shm[w]->index < shm[bad]->index)) bad = w;
    }
    int violations = 0; std::string unrepro;
    if (bad >= 0) {
      Shm *s = shm[bad]; int facet = s->facet; long index = s->index;
      bool died = !(WIFEXITED(ws[bad]) && WEXITSTATUS(ws[bad]) == 0);
      if (died) { if (s->status == TIMEOUT) { snprintf(s->key, 256, "hang"); snprintf(s->msg, MSG, "no result after %.0f s of CPU (hang)", suite().cpu_limit); } else describe_death(ws[bad], s); }
      std::string key0 = s->key, msg0 = s->msg;
      fprintf(stderr, "failure in facet %s case %ld: (%s) %s\n", suite().facets[facet].name, index, key0.c_str(), msg0.c_str());
      std::vector<u64> list = consumed(s);
      Shm *t = shm[W < MAX_WORKERS ? W : 0];
      bool repro = false; long from = -1, step = 0;
      for (int k = 0; k < 3 && !repro; k++) if (attempt(facet, list, t, false, nullptr) == FAILED) repro = true;
      if (!repro) {          // needs state left behind by earlier cases of that worker?
        long n[] = {1, 3, 10, 100, 1000, 1000000000};
        for (long m : n) {
          long f = index - m * W; if (f < bad) f = bad; if (f > index) f = index;
          if (attempt(facet, {}, t, false, nullptr, f, W, index) == FAILED) { from = f; step = W; repro = true; break; }
          if (now() - t0 > o.deadline + 200) break;
        }
      }
      if (!repro) {
        unrepro = "(" + key0 + ") " + msg0;
        fprintf(stderr, "NOT REPRODUCED on replay; not reported as a violation\n");
      } else {
        if (from < 0) { key0 = t->key; list = shrink(facet, list, t, key0, key0 == "hang" ? 120 : 60); }
        mkdir(o.replays.c_str(), 0755);
        std::string rp = o.replays + "/" + suite().id + "-" + suite().facets[facet].name + ".replay";
        std::string err = rp + ".stderr";
        attempt(facet, from < 0 ? list : std::vector<u64>(), t, true, err.c_str(), from, step, from < 0 ? -1 : index);
        FILE *fp = fopen(rp.c_str(), "w");
        if (fp) {
          fprintf(fp, "property=%s\nfacet=%s\ntier=%s\nseed=%llu\n", suite().id, suite().facets[facet].name, o.tier.c_str(), (unsigned long long)o.seed);
          if (from >= 0) fprintf(fp, "prefix=%ld %ld %ld\n", from, step, index);
          fprintf(fp, "choices="); for (u64 v : list) fprintf(fp, "%llu ", (unsigned long long)v);
          fprintf(fp, "\nfailure=(%s) %s\n--- minimal case ---\n%s\n", t->key, t->msg, t->trace);
          std::string e = slurp(err, 8000); if (!e.empty()) fprintf(fp, "--- stderr ---\n%s\n", e.c_str());
          fclose(fp);
        }
        unlink(err.c_str());
        printf("%s", t->trace); printf("failure: (%s) %s\n", t->key, t->msg);
        printf("VIOLATION property=%s replay=%s\n", suite().id, rp.c_str());
        violations = 1;
      }
    }
    // evidence
    std::set<u64> uniq; long nt = 0;
    for (int w = 0; w < W; w++) { std::string d = slurp(hf[w], 1u << 30); for (size_t k = 0; k + 8 <= d.size(); k += 8) { u64 v; memcpy(&v, &d[k], 8); uniq.insert(v); } unlink(hf[w].c_str()); }
    rmdir(tmpd);
    nt = uniq.size();
    long ev = 0, disc = 0; std::map<std::string, long> labels; std::vector<std::string> samples; double smax = 0; long sn = 0;
    std::vector<long> fe(suite().facets.size()), fn(suite().facets.size()), fk(suite().facets.size());
    for (int w = 0; w < W; w++) {
      ev += shm[w]->evaluations; disc += shm[w]->discards; sn += shm[w]->stat_n; smax = std::max(smax, shm[w]->stat_max);
      for (size_t f = 0; f < fe.size(); f++) { fe[f] += shm[w]->facet_eval[f]; fn[f] += shm[w]->facet_nontrivial[f]; fk[f] += shm[w]->facet_known[f]; }
      for (int k = 0; k < MAX_LABELS && shm[w]->label[k][0]; k++) labels[shm[w]->label[k]] += shm[w]->label_n[k];
      for (int k = 0; k < 6; k++) if (shm[w]->sample[k][0]) samples.push_back(shm[w]->sample[k]);
    }
    if (samples.empty()) samples.push_back("(run ended before a sample was taken)");
    std::string rule; for (auto &f : suite().facets) { if (!rule.empty()) rule += " | "; rule += std::string(f.name) + ": " + f.rule; }
    if (!o.evidence.empty()) {
      std::string tmp = o.evidence + ".tmp"; FILE *fp = fopen(tmp.c_str(), "w");
      if (fp) {
        fprintf(fp, "{\n \"property\": \"%s\",\n \"tier\": \"%s\",\n \"seed\": %llu,\n \"level\": \"%s\",\n", suite().id, o.tier.c_str(), (unsigned long long)o.seed, suite().level);
        fprintf(fp, " \"coverage\": {\n  \"evaluations\": %ld,\n  \"distinct_nontrivial\": %ld,\n  \"discarded\": %ld,\n  \"rule\": \"%s\",\n", ev, nt, disc, jesc(rule).c_str());
        fprintf(fp, "  \"facets\": {"); for (size_t f = 0; f < fe.size(); f++) fprintf(fp, "%s\"%s\": {\"planned\": %ld, \"evaluations\": %ld, \"nontrivial\": %ld, \"known_finding_hits\": %ld}", f ? ", " : "", suite().facets[f].name, counts_[f], fe[f], fn[f], fk[f]);
        fprintf(fp, "},\n  \"labels\": {"); bool first = true; for (auto &l : labels) { fprintf(fp, "%s\"%s\": %ld", first ? "" : ", ", jesc(l.first).c_str(), l.second); first = false; }
        fprintf(fp, "},\n"); if (sn) fprintf(fp, "  \"oracle_margin\": {\"comparisons\": %ld, \"worst_fraction_of_tolerance\": %g},\n", sn, smax);
        if (!unrepro.empty()) fprintf(fp, "  \"unreproduced\": \"%s\",\n", jesc(unrepro).c_str());
        fprintf(fp, "  \"samples\": ["); for (size_t k = 0; k < samples.size(); k++) fprintf(fp, "%s\n   \"%s\"", k ? "," : "", jesc(samples[k]).c_str());
        fprintf(fp, "]\n },\n \"assumptions\": ["); for (size_t k = 0; k < suite().assumptions.size(); k++) fprintf(fp, "%s\"%s\"", k ? ", " : "", jesc(suite().assumptions[k]).c_str());
        fprintf(fp, "],\n \"wall_s\": %.1f,\n \"violations\": %d\n}\n", now() - t0, violations);
        fclose(fp); rename(tmp.c_str(), o.evidence.c_str());
      }
    }
    for (auto &k : known) printf("KNOWN-FINDING: property=%s %s\n", suite().id, k.what.c_str());
    printf("%s %s: %ld cases, %ld distinct non-trivial, %ld discarded, %.1f s%s", suite().id, o.tier.c_str(), ev, nt, disc, now() - t0, violations ? ", VIOLATION" : ", ok");
    if (sn) printf(" (worst margin %.3g of tolerance)", smax);
    printf("\n");
    if (!violations && (broken || ev == 0)) { fprintf(stderr, "check machinery error: no cases ran\n"); return 2; }
    return violations ? 1 : 0;
  }
};

}  // namespace pbt

#define PBT_MAIN(ID, ...)                                     \
  int main(int argc, char **argv) {                           \
    pbt::suite().id = ID;                                     \
    pbt::suite().assumptions = std::vector<std::string>{__VA_ARGS__}; \
    pbt::Runner *r = new pbt::Runner;                         \
    return r->main(argc, argv);                               \
  }
