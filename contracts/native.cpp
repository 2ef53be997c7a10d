// Native runtime of the contract language: executes a contract on the real code with concrete inputs.
//   native list
//   native run <contract> <trials> <seed> <seconds>     random small inputs; prints FAIL <what> and the inputs
//   native replay <contract> name=value ...             given inputs (missing ones: small defaults)
#include "vc.h"
#include <csetjmp>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <vector>
#include <string>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

namespace {
struct contract { const char* name; void (*fn)(); };
std::vector<contract>& all() { static std::vector<contract> v; return v; }

sigjmp_buf env;
enum { OK = 1, SKIP, FAIL, STOP };
char what[512];
struct in { std::string name; long v; };
typedef std::vector<long> tup;
typedef std::map<tup, long> mset;
// The state of this runtime lies apart from the other globals, which vc_readonly watches.
struct runtime {
  std::vector<in> drawn;
  std::map<std::string, std::vector<long>> given;
  std::map<std::string, size_t> used;
  bool have_given = false;
  uint64_t rng = 1;
  std::map<long, mset> traces, snap;
  bool abort_ok = false, abort_set = false;
  long regions = 0, total = 0;
  int checks = 0;
  struct bytes { const char* p; std::string was; };
  std::vector<bytes> constant;
};
runtime& rt = *new runtime;
#define drawn rt.drawn
#define given rt.given
#define used rt.used
#define have_given rt.have_given
#define rng rt.rng
#define traces rt.traces
#define snap rt.snap
#define abort_ok rt.abort_ok
#define abort_set rt.abort_set
#define regions rt.regions
#define total rt.total
#define checks rt.checks
extern "C" char __data_start, _end;
void written();

uint64_t rnd() {
  rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
  return rng * 2685821657736338717ULL >> 11;
}
[[noreturn]] void leave(int k) { siglongjmp(env, k); }
[[noreturn]] void fail(const char* msg, const char* arg = "") {
  snprintf(what, sizeof what, "%s%s", msg, arg);
  leave(FAIL);
}
int profile;
long pick(long lo, long hi) {
  // Small values first; the extremes occasionally.
  if (hi - lo <= 12) return lo + (long)(rnd() % (uint64_t)(hi - lo + 1));
  static const long hiw[] = {3, 5, 8, 13, 4, 6};
  static const long low[] = {0, 3, 6, 12, 1, 4};
  long a = -low[profile % 6], b = hiw[profile % 6];
  if (lo > b) { return lo + (long)(rnd() % 4); }
  if (hi < a) { return hi - (long)(rnd() % 4); }
  if (lo > a) a = lo;
  if (hi < b) b = hi;
  return a + (long)(rnd() % (uint64_t)(b - a + 1));
}
long draw(const std::string& n, long lo, long hi) {
  long v;
  auto g = given.find(n);
  if (have_given && g != given.end() && used[n] < g->second.size()) {
    v = g->second[used[n]++];
    if (v < lo) v = lo;
    if (v > hi) v = hi;
  } else v = pick(lo, hi);
  drawn.push_back({n, v});
  return v;
}
void onsig(int s) {
  if (s == SIGALRM) {
    snprintf(what, sizeof what, "does not terminate (time limit of one run)");
  } else {
    snprintf(what, sizeof what, "%s", s == SIGSEGV || s == SIGBUS ? "memory access other than through element operations" :
             s == SIGFPE ? "division by zero" : s == SIGABRT ? "abort" : "undefined behaviour (sanitizer trap: overflow, bad shift, null arithmetic or unreachable)");
  }
  siglongjmp(env, FAIL);
}
int run(void (*fn)(), double limit) {
  drawn.clear(); used.clear(); traces.clear(); snap.clear(); abort_ok = abort_set = false; regions = 0; total = 0; checks = 0; rt.constant.clear();
  what[0] = 0;
  itimerval tv{{0, 0}, {(time_t)limit, (suseconds_t)((limit - (time_t)limit) * 1e6)}};
  int r = sigsetjmp(env, 1);
  if (!r) {
    setitimer(ITIMER_REAL, &tv, nullptr);
    fn();
    r = OK;
  }
  itimerval z{};
  setitimer(ITIMER_REAL, &z, nullptr);
  return r;
}
void written() {
  for (auto& c : rt.constant) if (memcmp(c.p, c.was.data(), c.was.size())) fail("memory that other threads may read is written");
}
void print_inputs() {
  for (auto& i : drawn) printf("INPUT %s=%ld\n", i.name.c_str(), i.v);
}
void add(long tag, const tup& t, long c) {
  if ((total += 1) > 400000) leave(STOP);
  long& x = traces[tag][t];
  x += c;
  if (!x) traces[tag].erase(t);
}
const long RB = 1L << 44, RS = 1L << 38;
}

extern "C" {
void vc_register(const char* name, void (*fn)()) { all().push_back({name, fn}); }
long vc_range(const char* name, long lo, long hi) { return draw(name, lo, hi); }
long vc_rangei(const char* name, long i, long lo, long hi) { return draw(name + std::to_string(i), lo, hi); }
bool vc_bool(const char* name) { return draw(name, 0, 1); }
bool vc_any() { return draw("#any", 0, 1); }
void vc_requires(bool c) { if (!c) leave(SKIP); }
void vc_ensures(bool c, const char* name) { written(); checks++; if (!c) fail("postcondition: ", name); }
void vc_abort_if(bool c) { abort_ok = c; abort_set = true; snap = traces; }
void vc_mode(long) {}
void* vc_region(const char*) { regions++; return (void*)(RB + regions * RS + RS / 2); }
long vc_rid(const void* p) {
  if (!p) return -1;
  long a = (long)p;
  if (a >= RB + RS && a < RB + (regions + 2) * RS) return (a - RB) / RS;
  if (a < (1L << 24) && a > -(1L << 24)) return -1;
  return 1000;
}
long vc_off(const void* p) {
  long a = (long)p, r = vc_rid(p);
  return r == -1 || r == 1000 ? a : a - (RB + r * RS + RS / 2);
}
void vc_visit(long tag, long n, const long* v) { add(tag, tup(v, v + n), 1); }
void vc_touch1(long tag, const void* p) { add(tag, tup{vc_rid(p), vc_off(p)}, 1); }
void vc_touch2(long tag, const void* p, const void* q) { add(tag, tup{vc_rid(p), vc_off(p), vc_rid(q), vc_off(q)}, 1); }
void vc_box(long tag, long count, long arity, long nd, const long* base, const long* dims) {
  if (!count) return;
  for (long d = 0; d < nd; d++) if (dims[d * (1 + arity)] <= 0) return;
  std::vector<long> i(nd, 0);
  tup t(base, base + arity);
  for (;;) {
    add(tag, t, count);
    long d = 0;
    for (; d < nd; d++) {
      const long* D = dims + d * (1 + arity);
      for (long a = 0; a < arity; a++) t[a] += D[1 + a];
      if (++i[d] < D[0]) break;
      for (long a = 0; a < arity; a++) t[a] -= D[1 + a] * D[0];
      i[d] = 0;
    }
    if (d == nd) return;
  }
}
void vc_same(long a, long b, const char* name) {
  checks++;
  if (traces[a] != traces[b]) {
    std::string s = name;
    auto show = [&](const char* w, const mset& x, const mset& y) {
      for (auto& e : x) {
        auto it = y.find(e.first);
        if (it == y.end() || it->second != e.second) {
          s += w;
          for (long v : e.first) s += std::to_string(v) + ",";
          s += " x" + std::to_string(e.second) + (it == y.end() ? " (other side 0)" : " (other side " + std::to_string(it->second) + ")");
          break;
        }
      }
    };
    show("; first differing visit: ", traces[a], traces[b]);
    show("; first differing requirement: ", traces[b], traces[a]);
    fail("postcondition: ", s.c_str());
  }
}
void vc_reset(long tag) { traces.erase(tag); }
void vc_readonly(const void* p, long n) {
  written();
  if (!p) { rt.constant.clear(); return; }
  auto add = [](const char* q, size_t m) { rt.constant.push_back({q, std::string(q, m)}); };
  if (rt.constant.empty()) add(&__data_start, &_end - &__data_start);
  if (n) add((const char*)p, n);
}
void __assert_fail(const char* e, const char* file, unsigned line, const char*) noexcept {
  if (abort_ok) {
    auto a = traces, b = snap;
    for (auto it = a.begin(); it != a.end();) it = it->second.empty() ? a.erase(it) : std::next(it);
    for (auto it = b.begin(); it != b.end();) it = it->second.empty() ? b.erase(it) : std::next(it);
    if (a != b) fail("elements were touched before the assertion failed: ", e);
    leave(OK);
  }
  fail("assertion fails although the contract forbids it: ", e);
}
}

int main(int argc, char** argv) {
  stack_t ss{};
  ss.ss_sp = malloc(1 << 16); ss.ss_size = 1 << 16;
  sigaltstack(&ss, nullptr);
  struct sigaction sa{};
  sa.sa_handler = onsig; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGTRAP, SIGABRT, SIGALRM}) sigaction(s, &sa, nullptr);
  std::string cmd = argc > 1 ? argv[1] : "";
  if (cmd == "list") { for (auto& c : all()) puts(c.name); return 0; }
  if (argc < 3) return 2;
  void (*fn)() = nullptr;
  for (auto& c : all()) if (!strcmp(c.name, argv[2])) fn = c.fn;
  if (!fn) { printf("NOCONTRACT\n"); return 2; }
  if (cmd == "replay") {
    have_given = true;
    for (int i = 3; i < argc; i++) {
      char* e = strchr(argv[i], '=');
      if (e) given[std::string(argv[i], e)].push_back(atol(e + 1));
    }
    rng = 88172645463325252ULL;
    int r = run(fn, 3);
    // inputs that the run drew but that were not given vary between attempts
    for (int k = 0; k < 200 && (r == SKIP || r == OK); k++) { profile = k; rng = 88172645463325252ULL + k * 7919; r = run(fn, 3); if (r == FAIL) break; }
    printf("RESULT %s %s\n", r == FAIL ? "FAIL" : r == OK ? "OK" : r == SKIP ? "SKIP" : "STOP", what);
    print_inputs();
    return r == FAIL ? 1 : 0;
  }
  long trials = atol(argv[3]);
  uint64_t seed = strtoull(argv[4], nullptr, 10);
  double secs = atof(argv[5]);
  timespec t0, t1;
  clock_gettime(CLOCK_MONOTONIC, &t0);
  long done = 0, ok = 0;
  for (; done < trials; done++) {
    rng = (seed + 1) * 0x9E3779B97F4A7C15ULL + (uint64_t)done * 0xD1B54A32D192ED03ULL;
    if (!rng) rng = 1;
    rnd(); rnd();
    profile = (int)(rnd() % 6);
    int r = run(fn, 3);
    if (r == OK) ok++;
    if (r == FAIL) { printf("RESULT FAIL %s\n", what); print_inputs(); return 1; }
    if ((done & 63) == 0) {
      clock_gettime(CLOCK_MONOTONIC, &t1);
      if (t1.tv_sec - t0.tv_sec + (t1.tv_nsec - t0.tv_nsec) * 1e-9 > secs) break;
    }
  }
  printf("RESULT OK runs=%ld completed=%ld\n", done, ok);
  return 0;
}
