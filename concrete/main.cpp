// driver PROP --seconds S --seed N [--only CFG] [--hist H]
#include "support.hpp"
#include <cstdarg>
#include <ctime>
extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
namespace vt {
std::string g_want; const char* g_cfg = ""; unsigned long long g_hist; long g_step; char g_tag[8]; char g_desc[512];
long g_other, g_evals, g_checks; std::vector<std::string> g_log;
long g_alloc_fuse = -1, g_elem_fuse = -1, g_src_fuse = -1;
std::unordered_set<const void*> g_live; std::map<const char*, Block> g_blocks;
long g_elem_ops, g_by_alloc, g_constructs, g_destroys;
static std::map<std::string, long> others;
bool wanted(const char* tag) { return g_want == "ALL" || g_want == tag; }
static void report(const char* tag, const char* what) {
  std::printf("FAIL property=%s config=%s history=%llu step=%ld\nwhat: %s\nlast operation: [%s] %s\n", tag, g_cfg, g_hist, g_step, what, g_tag, g_desc);
  std::size_t n = g_log.size(), b = n > 60 ? n - 60 : 0;
  std::printf("trace (last %zu of %zu operations):\n", n - b, n);
  for (std::size_t i = b; i < n; ++i) std::printf("  %s\n", g_log[i].c_str());
  std::fflush(stdout);
}
void fail(const char* tag, const char* what) {
  if (wanted(tag)) { report(tag, what); _exit(1); }
  ++g_other; ++others[std::string(tag) + ": " + what];
  if (g_other > 400) { std::printf("OTHER too many failures of other properties, stopped\n"); for (auto& o : others) std::printf("OTHER %s x%ld\n", o.first.c_str(), o.second); std::fflush(stdout); _exit(3); }
  throw Abort();
}
static void died_hard() {
  static bool once = false; if (once) return; once = true;
  if (wanted(g_tag) || wanted("C09")) { report(wanted(g_tag) ? g_tag : "C09", "crash (see the sanitizer report)"); _exit(1); }
  std::printf("OTHER crash in [%s] %s (config %s history %llu)\n", g_tag, g_desc, g_cfg, g_hist); std::fflush(stdout); _exit(3);
}
static void on_sig(int s) {
  if (s == SIGVTALRM) {
    if (wanted(g_tag)) { report(g_tag, "operation did not return within the limit of CPU time"); _exit(1); }
    std::printf("OTHER hang in [%s] %s\n", g_tag, g_desc); std::fflush(stdout); _exit(3);
  }
  died_hard(); _exit(3);
}
extern bool g_slow;
void begin_op(const char* tag, const char* fmt, ...) {
  std::strncpy(g_tag, tag, 7); va_list a; va_start(a, fmt); std::vsnprintf(g_desc, sizeof g_desc, fmt, a); va_end(a);
  ++g_step; ++g_evals; g_log.push_back(std::string("[") + tag + "] " + g_desc);
  static unsigned n = 0;
  if ((++n & 63) == 0 || g_slow) { itimerval t{{0, 0}, {g_slow ? 200 : 20, 0}}; setitimer(ITIMER_VIRTUAL, &t, nullptr); }
}
void born(const void* p) { ++g_elem_ops; if (!g_live.insert(p).second) fail("C09", "element constructed over a live element"); }
void died(const void* p) { ++g_elem_ops; if (!g_live.erase(p)) { if (std::uncaught_exceptions() == 0) { if (wanted("C09")) fail("C09", "destroyed a slot that holds no live element"); ++others["C09: destroyed a slot that holds no live element"]; ++g_other; } } }
void used(const void* p, const char* w) {
  ++g_elem_ops;
  if (!g_live.count(p)) {
    static char b[64]; std::snprintf(b, sizeof b, "slot %s although it holds no live element", w);
    if (wanted("C09")) { report("C09", b); _exit(1); }
    ++others[std::string("C09: ") + b]; ++g_other;
  }
}
int block_id(const void* p) {
  auto it = g_blocks.upper_bound(static_cast<const char*>(p)); if (it == g_blocks.begin()) return -1; --it;
  return static_cast<const char*>(p) < it->first + it->second.bytes ? it->second.id : -1;
}
bool g_slow; static double g_end;
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
bool past_deadline() { return g_end && now() > g_end; }
std::vector<Cfg>& configs() { static std::vector<Cfg> c; return c; }
}
using namespace vt;
int main(int argc, char** argv) {
  if (argc < 2) return 2;
  std::string prop = argv[1], only; double secs = 10; unsigned long long seed = 1, hist = 0; bool one = false; int part = 0, parts = 1;
  for (int i = 2; i + 1 < argc; i += 2) {
    std::string a = argv[i];
    if (a == "--seconds") secs = atof(argv[i + 1]); else if (a == "--seed") seed = strtoull(argv[i + 1], 0, 10);
    else if (a == "--only") only = argv[i + 1]; else if (a == "--hist") { hist = strtoull(argv[i + 1], 0, 10); one = true; }
    else if (a == "--part") { part = atoi(argv[i + 1]); } else if (a == "--parts") parts = atoi(argv[i + 1]);
  }
  g_want = prop;
  if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(died_hard);
  std::signal(SIGVTALRM, on_sig); std::signal(SIGABRT, on_sig);
  auto& cs = configs();
  std::sort(cs.begin(), cs.end(), [](Cfg const& a, Cfg const& b) { return std::strcmp(a.name, b.name) < 0; });
  long hists = 0; std::map<std::string, long> per;
  std::time_t t0 = std::time(nullptr); struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); double start = ts.tv_sec + ts.tv_nsec * 1e-9;
  (void)t0; if (!one) g_end = start + secs;
  for (unsigned long long i = 0;; ++i) {
    bool any = false;
    for (std::size_t c = 0; c < cs.size(); ++c) {
      if (!only.empty() && only != cs[c].name) continue;
      if (!one && only.empty() && int(c % parts) != part && parts <= int(cs.size())) continue;
      unsigned long long h = one ? hist : seed * 1000003ull + i;
      clock_gettime(CLOCK_MONOTONIC, &ts); if (!one && ts.tv_sec + ts.tv_nsec * 1e-9 - start > secs) goto out;
      any = true; g_cfg = cs[c].name; g_hist = h; g_step = 0; g_log.clear(); g_slow = false; g_live.clear(); g_blocks.clear();
      g_alloc_fuse = g_elem_fuse = g_src_fuse = -1;
      try { cs[c].run(prop.c_str(), h, false); } catch (Abort const&) {}
      ++hists; ++per[cs[c].name];
    }
    if (one || !any) break;
  }
out:
  std::printf("DONE histories=%ld operations=%ld checks=%ld others=%ld\n", hists, g_evals, g_checks, g_other);
  for (auto& p : per) std::printf("CONFIG %s %ld\n", p.first.c_str(), p.second);
  for (auto& o : others) std::printf("OTHER %s x%ld\n", o.first.c_str(), o.second);
  return 0;
}
