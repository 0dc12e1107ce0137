#include <functional>
#include <utility>
#include <exception>
#include <thread>
#include <mutex>
#include <condition_variable>
#include "verif.h"

#include <fcntl.h>
#include <malloc.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <unistd.h>

#include <cstring>
#include <new>

#if defined(__has_feature)
#  if __has_feature(address_sanitizer)
#    define VF_ASAN 1
#  endif
#  if __has_feature(thread_sanitizer)
#    define VF_TSAN 1
#  endif
#endif
#ifdef VF_ASAN
#  include <sanitizer/lsan_interface.h>
#endif

namespace vf {
uint64_t g_seed = 1;
int g_shard = 0;
uint64_t g_case = 0;
unsigned char g_fill = 0xa5;
bool g_hop = false;

namespace {
struct hopper {
  std::mutex m;
  std::condition_variable cv;
  const std::function<void()> *job[2] = {nullptr, nullptr};
  std::exception_ptr ex;
  hopper() {
    for (int k = 0; k < 2; ++k)
      std::thread([this, k] {
        std::unique_lock<std::mutex> l(m);
        for (;;) {
          cv.wait(l, [&] { return job[k] != nullptr; });
          l.unlock();
          try {
            (*job[k])();
          } catch (...) {
            ex = std::current_exception();
          }
          l.lock();
          job[k] = nullptr;
          cv.notify_all();
        }
      }).detach();
  }
};
}  // namespace
void hop_run(const std::function<void()> &f) {
  static hopper &h = *new hopper();
  static uint64_t n = 0;
  unsigned k = (unsigned)(mix64(g_case, ++n) % 3);
  if (k == 2) return f();
  VF_COUNT("steps_on_other_threads");
  std::unique_lock<std::mutex> l(h.m);
  h.job[k] = &f;
  h.cv.notify_all();
  h.cv.wait(l, [&] { return h.job[k] == nullptr; });
  if (h.ex) std::rethrow_exception(std::exchange(h.ex, nullptr));
}
int g_tier = 0;
std::string g_mode;
bool g_verbose = false;
static status_page g_local_page;
status_page *g_status = &g_local_page;

static mode *g_modes = nullptr;
mode::mode(const char *n, mode_fn f) : name(n), fn(f), next(g_modes) { g_modes = this; }

static std::atomic<counter *> g_counters{nullptr};
counter::counter(const char *n) : name(n), v(0), next(nullptr) {
  counter *h = g_counters.load();
  do {
    next = h;
  } while (!g_counters.compare_exchange_weak(h, this));
}

static std::atomic<uint64_t> g_hash{0};
static bool g_nontrivial = false;
static std::string g_text;
static bool g_want_text = false;
static std::mutex g_text_lock;
static std::unordered_set<uint64_t> g_hashes;
static uint64_t g_nontrivial_cases = 0;
static uint64_t g_evals = 0;
static std::mutex g_hash_lock;

void tr(uint64_t v) {
  // commutes across threads only if the caller orders events itself; single threaded cases are order sensitive
  uint64_t h = g_hash.load(std::memory_order_relaxed);
  g_hash.store(mix64(h, v), std::memory_order_relaxed);
}
void nontrivial() { g_nontrivial = true; }
void distinct(uint64_t h) {
  std::lock_guard<std::mutex> g(g_hash_lock);
  if (g_hashes.size() < 400000) g_hashes.insert(h);
}
void note(const char *fmt, ...) {
  if (!g_want_text && !g_verbose) return;
  char buf[400];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof(buf), fmt, ap);
  va_end(ap);
  if (g_verbose) fprintf(stderr, "  | %s\n", buf);
  std::lock_guard<std::mutex> g(g_text_lock);
  if (g_text.size() < 900) {
    if (!g_text.empty()) g_text += "; ";
    g_text += buf;
  }
}

static std::atomic<int> g_failing{0};
void fail(const char *key, const char *file, int line, const char *fmt, ...) {
  if (g_failing.exchange(1)) {
    for (;;) pause();
  }
  static char buf[4096];
  va_list ap;
  va_start(ap, fmt);
  int n = snprintf(buf, sizeof(buf), "\nVF-FAIL key=%s case=%llu at=%s:%d ", key, (unsigned long long)g_case,
                   strrchr(file, '/') ? strrchr(file, '/') + 1 : file, line);
  n += vsnprintf(buf + n, sizeof(buf) - n - 2, fmt, ap);
  va_end(ap);
  if (n > (int)sizeof(buf) - 2) n = sizeof(buf) - 2;
  buf[n++] = '\n';
  ssize_t r = write(1, buf, n);
  (void)r;
  if (getenv("VF_ABORT")) abort();
  _exit(3);
}

static std::string json_escape(const std::string &s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += (char)c;
    } else if (c < 0x20) {
      o += ' ';
    } else {
      o += (char)c;
    }
  }
  return o;
}

static int run_main(int argc, char **argv) {
  uint64_t cases = 1, from = 0;
  int64_t only = -1;
  std::string hashes_file, status_file;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&]() -> const char * { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--seed") g_seed = strtoull(val(), nullptr, 10);
    else if (a == "--shard") g_shard = atoi(val());
    else if (a == "--cases") cases = strtoull(val(), nullptr, 10);
    else if (a == "--from") from = strtoull(val(), nullptr, 10);
    else if (a == "--case") only = strtoll(val(), nullptr, 10);
    else if (a == "--mode") g_mode = val();
    else if (a == "--tier") g_tier = std::string(val()) == "thorough";
    else if (a == "--hashes") hashes_file = val();
    else if (a == "--status") status_file = val();
    else if (a == "-v") g_verbose = true;
    else {
      fprintf(stderr, "unknown argument %s\n", a.c_str());
      return 2;
    }
  }
  prctl(PR_SET_PDEATHSIG, 9);
  struct rlimit rl = {0, 0};
  setrlimit(RLIMIT_CORE, &rl);
  if (!status_file.empty()) {
    int fd = open(status_file.c_str(), O_RDWR | O_CREAT, 0600);
    if (fd < 0 || ftruncate(fd, 4096) != 0) return 2;
    void *p = mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (p == MAP_FAILED) return 2;
    g_status = static_cast<status_page *>(p);
    close(fd);
  }
  mode *m = g_modes;
  while (m && g_mode != m->name) m = m->next;
  if (!m) {
    fprintf(stderr, "no mode '%s'\n", g_mode.c_str());
    return 2;
  }
  uint64_t mh = 1469598103934665603ULL;
  for (const char *c = m->name; *c; ++c) mh = (mh ^ (unsigned char)*c) * 1099511628211ULL;
  std::vector<std::string> samples;
  uint64_t leak_every = cases / 8 + 1;
  (void)leak_every;
  g_status->magic.store(0x5646);
  for (uint64_t i = only >= 0 ? (uint64_t)only : from; i < (only >= 0 ? (uint64_t)only + 1 : cases); ++i) {
    g_case = i;
    g_status->current_case.store(i);
    beat();
    g_hash.store(0x517cc1b727220a95ULL, std::memory_order_relaxed);
    g_nontrivial = false;
    g_text.clear();
    static const unsigned char fills[] = {0xa5, 0x00, 0xff, 0x01};
    g_fill = fills[mix64(mix64(g_seed, 0x66), mix64((uint64_t)g_shard, i)) & 3];
    g_hop = mix64(mix64(g_seed, 0x67), mix64((uint64_t)g_shard, i)) % 48 == 0;
    g_want_text = samples.size() < 2 && (i % 7 == 3 || only >= 0 || cases < 20);
    rng R(mix64(mix64(g_seed, mh), mix64((uint64_t)g_shard, i)));
    if (g_verbose) fprintf(stderr, "case %llu\n", (unsigned long long)i);
    m->fn(R);
    ++g_evals;
    g_status->done_cases.fetch_add(1);
    if (g_nontrivial) {
      ++g_nontrivial_cases;
      distinct(g_hash.load());
      if (g_want_text && !g_text.empty()) samples.push_back(g_text);
    }
#ifdef VF_ASAN
    if ((i + 1) % leak_every == 0) {
      if (__lsan_do_recoverable_leak_check())
        fail("leak", __FILE__, __LINE__, "LeakSanitizer: memory allocated up to this case was never released (see report)");
    }
#endif
  }
  delays_off();
#ifdef VF_ASAN
  if (__lsan_do_recoverable_leak_check())
    fail("leak", __FILE__, __LINE__, "LeakSanitizer: memory was never released (see report)");
#endif
  if (!hashes_file.empty()) {
    FILE *f = fopen(hashes_file.c_str(), "wb");
    if (!f) return 2;
    for (uint64_t h : g_hashes) fwrite(&h, 8, 1, f);
    fclose(f);
  }
  std::string out = "\nVF-RESULT {\"evals\":" + std::to_string(g_evals) +
                    ",\"nontrivial\":" + std::to_string(g_nontrivial_cases) + ",\"distinct\":" +
                    std::to_string(g_hashes.size()) + ",\"counters\":{";
  std::map<std::string, uint64_t> cs;
  for (counter *c = g_counters.load(); c; c = c->next) cs[c->name] += c->v.load();
  if (vf_switches) cs["switches_seen_by_wrapper"] = vf_switches;
  bool first = true;
  for (auto &kv : cs) {
    out += (first ? "\"" : ",\"") + json_escape(kv.first) + "\":" + std::to_string(kv.second);
    first = false;
  }
  out += "},\"samples\":[";
  for (size_t i = 0; i < samples.size(); ++i) out += (i ? ",\"" : "\"") + json_escape(samples[i]) + "\"";
  out += "]}\n";
  fputs(out.c_str(), stdout);
  fflush(stdout);
  return 0;
}
}  // namespace vf

#if defined(__clang__)
#  define VF_DISABLE __attribute__((disable_sanitizer_instrumentation))
#else
#  define VF_DISABLE
#endif
#if !defined(VF_ASAN) && !defined(VF_TSAN) && !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__)
// Fresh memory has a content which changes from case to case, and released memory is overwritten: nothing may depend on either.
void *operator new(std::size_t n) {
  void *p = malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  memset(p, vf::g_fill, n < 4096 ? n : 4096);
  return p;
}
void operator delete(void *p) noexcept {
  if (!p) return;
  size_t n = malloc_usable_size(p);
  memset(p, 0xdb, n < 4096 ? n : 4096);
  asm volatile("" : : "r"(p) : "memory");
  free(p);
}
void operator delete(void *p, std::size_t) noexcept { ::operator delete(p); }
#endif
#ifdef VF_NOWRAP
extern "C" {
void vf_stack_gone(void *, void *) {}
void (*vf_before_jump)(void *) = nullptr;
unsigned long long vf_switches = 0;
}
#endif

extern "C" VF_NOINSTR VF_DISABLE const char *__asan_default_options() {
  return "abort_on_error=0:exitcode=99:detect_stack_use_after_return=0:detect_leaks=1:leak_check_at_exit=0:"
         "allocator_may_return_null=1:handle_abort=1:allow_user_segv_handler=0:use_sigaltstack=1:"
         "max_allocation_size_mb=3000:quarantine_size_mb=64:malloc_context_size=12";
}
extern "C" VF_NOINSTR VF_DISABLE const char *__ubsan_default_options() { return "print_stacktrace=1:halt_on_error=1:exitcode=99"; }
extern "C" VF_NOINSTR VF_DISABLE const char *__lsan_default_options() { return "exitcode=99:print_suppressions=0"; }
extern "C" VF_NOINSTR VF_DISABLE const char *__tsan_default_options() {
  return "halt_on_error=1:exitcode=99:history_size=3:second_deadlock_stack=1:detect_deadlocks=0:report_signal_unsafe=0:"
         "handle_abort=1:use_sigaltstack=1:handle_segv=1";
}
extern "C" VF_NOINSTR VF_DISABLE const char *__tsan_default_suppressions() {
  // libstdc++.so's exception_ptr reference counting is not instrumented
  return "race:std::__exception_ptr\nrace:__cxa_\n";
}

int main(int argc, char **argv) { return vf::run_main(argc, argv); }
