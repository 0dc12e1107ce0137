// Harness runtime: seeded PRNG, case bookkeeping, oracle assertion, counters, tracked values.
// The monitor state is either per case (single threaded) or atomic.
#pragma once
#include <atomic>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>

#define VF_NOINSTR __attribute__((no_instrument_function))
#define VF_NOINLINE __attribute__((noinline))
#define VF_NOSAN __attribute__((no_sanitize("address", "undefined", "thread")))

namespace vf {

inline uint64_t mix64(uint64_t z) {
  z += 0x9e3779b97f4a7c15ULL;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
inline uint64_t mix64(uint64_t a, uint64_t b) { return mix64(mix64(a) ^ (b * 0x9e3779b97f4a7c15ULL + 0x1234567)); }

struct rng {
  uint64_t s;
  explicit rng(uint64_t seed = 1) : s(seed) {}
  uint64_t next() {
    s += 0x9e3779b97f4a7c15ULL;
    uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
  }
  // [0,n)
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int64_t range(int64_t a, int64_t b) { return a + static_cast<int64_t>(below(static_cast<uint64_t>(b - a + 1))); }
  bool chance(unsigned percent) { return below(100) < percent; }
  template <class T>
  T &pick(std::vector<T> &v) {
    return v[below(v.size())];
  }
  rng fork() { return rng(next()); }
};

// ---- run state -------------------------------------------------------------------------------
struct status_page {  // shared with check.py (mmap)
  std::atomic<uint64_t> magic;
  std::atomic<uint64_t> current_case;
  std::atomic<uint64_t> done_cases;
  std::atomic<uint64_t> heartbeat;
};

extern uint64_t g_seed;
extern int g_shard;
extern uint64_t g_case;
extern unsigned char g_fill;  // content of fresh memory
extern bool g_hop;             // steps of the current case are spread over threads
void hop_run(const std::function<void()> &f);
// run a step of the case: on this thread or (in some cases) on one of two others, this one waiting for its end
template <class F>
void hop(F &&f) {
  if (g_hop)
    hop_run(std::ref(f));
  else
    f();
}
extern int g_tier;  // 0 quick, 1 thorough
extern std::string g_mode;
extern bool g_verbose;
extern status_page *g_status;

[[noreturn]] void fail(const char *key, const char *file, int line, const char *fmt, ...)
    __attribute__((format(printf, 4, 5)));
// record an event into the hash of the current case
void tr(uint64_t v);
inline void tr(uint64_t a, uint64_t b) { tr(mix64(a, b)); }
void nontrivial();                    // the current case satisfied the non-triviality rule
void note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));  // text of the current case (samples, -v)
void distinct(uint64_t h);            // an additional distinct non-trivial observation (e.g. an interleaving)
inline void beat() { g_status->heartbeat.fetch_add(1, std::memory_order_relaxed); }

struct counter {
  const char *name;
  std::atomic<uint64_t> v;
  counter *next;
  explicit counter(const char *n);
};
#define VF_COUNT_N(name, n)                                     \
  do {                                                          \
    static ::vf::counter vf_c_{name};                           \
    vf_c_.v.fetch_add((n), std::memory_order_relaxed);          \
  } while (0)
#define VF_COUNT(name) VF_COUNT_N(name, 1)

#define VF_CHECK(cond, key, ...)                                                  \
  do {                                                                            \
    if (__builtin_expect(!(cond), 0)) ::vf::fail(key, __FILE__, __LINE__, __VA_ARGS__); \
  } while (0)
#define VF_EQ(a, b, key, what)                                                                            \
  do {                                                                                                    \
    long long vf_a_ = (long long)(a), vf_b_ = (long long)(b);                                             \
    if (__builtin_expect(vf_a_ != vf_b_, 0))                                                              \
      ::vf::fail(key, __FILE__, __LINE__, "%s: got %lld, expected %lld [%s == %s]", what, vf_a_, vf_b_, #a, #b); \
  } while (0)

// ---- modes -----------------------------------------------------------------------------------
using mode_fn = void (*)(rng &);
struct mode {
  const char *name;
  mode_fn fn;
  mode *next;
  mode(const char *n, mode_fn f);
};
#define VF_MODE(name)                         \
  static void vf_mode_##name(::vf::rng &R);   \
  static ::vf::mode vf_mode_reg_##name(#name, &vf_mode_##name); \
  static void vf_mode_##name([[maybe_unused]] ::vf::rng &R)

// ---- delays ----------------------------------------------------------------------------------
// Delay injection: seam in front of each context switch, and (builds with -finstrument-functions)
// at function entries and exits. Off unless armed for the case.
void delays_on(uint64_t seed, unsigned one_in);
void delays_off();
void spin_a_bit(uint64_t n);
void maybe_delay();

// An atomic of a monitor: relaxed throughout, so that watching does not order the threads that are watched (anything
// stronger would hide a missing ordering of the code under test from the race detector).
template <class T>
struct rlx {
  std::atomic<T> v;
  static constexpr std::memory_order R = std::memory_order_relaxed;
  rlx(T x = T()) : v(x) {}
  rlx(const rlx &) = delete;
  operator T() const { return v.load(R); }
  T operator=(T x) {
    v.store(x, R);
    return x;
  }
  T load(std::memory_order = R) const { return v.load(R); }
  void store(T x, std::memory_order = R) { v.store(x, R); }
  T exchange(T x, std::memory_order = R) { return v.exchange(x, R); }
  T fetch_add(T x, std::memory_order = R) { return v.fetch_add(x, R); }
  T fetch_sub(T x, std::memory_order = R) { return v.fetch_sub(x, R); }
  T operator++() { return v.fetch_add(1, R) + 1; }
  T operator++(int) { return v.fetch_add(1, R); }
  bool compare_exchange_strong(T &e, T x, std::memory_order = R) { return v.compare_exchange_strong(e, x, R, R); }
};

// ---- tracked values --------------------------------------------------------------------------
struct ledger {
  rlx<int64_t> live{0};
  rlx<uint64_t> made{0};
  void reset() {
    live = 0;
    made = 0;
  }
};

// A value whose every construction/destruction is accounted for; heap cell makes use after destruction visible to
// ASan, magic makes it visible in plain builds.
class tv {
 public:
  static constexpr uint32_t ALIVE = 0xa11fe001u;
  static constexpr uint32_t DEAD = 0xdeadd00du;

  tv() : tv(nullptr, 0) {}
  tv(ledger *l, uint64_t v) : magic_(ALIVE), led_(l), cell_(new uint64_t(v)), self_(this) { up(); }
  tv(const tv &o) : magic_(ALIVE), led_(o.led_), cell_(nullptr), self_(this) {
    o.check("copied from");
    cell_.reset(o.cell_ ? new uint64_t(*o.cell_) : nullptr);
    up();
  }
  tv(tv &&o) noexcept : magic_(ALIVE), led_(o.led_), cell_(nullptr), self_(this) {
    o.check("moved from");
    cell_ = std::move(o.cell_);
    up();
  }
  tv &operator=(const tv &o) {
    check("assigned to");
    o.check("assigned from");
    if (this != &o) cell_.reset(o.cell_ ? new uint64_t(*o.cell_) : nullptr);
    rebook(o.led_);
    return *this;
  }
  tv &operator=(tv &&o) noexcept {
    check("move-assigned to");
    o.check("move-assigned from");
    if (this != &o) cell_ = std::move(o.cell_);
    rebook(o.led_);
    return *this;
  }
  ~tv() {
    check("destroyed");
    magic_ = DEAD;
    if (led_) led_->live.fetch_sub(1);
  }
  bool has() const {
    check("read");
    return !!cell_;
  }
  uint64_t get() const {
    check("read");
    VF_CHECK(cell_, "value-empty", "value read after it was moved away");
    return *cell_;
  }
  void check(const char *op) const {
    VF_CHECK(magic_ == ALIVE, "value-dead", "value %p %s while not alive (magic %x)", (const void *)this, op, magic_);
    VF_CHECK(self_ == this, "value-relocated", "value %p %s was relocated bytewise from %p", (const void *)this, op,
             (const void *)self_);
  }
  bool operator==(const tv &o) const { return get() == o.get(); }

 private:
  void up() {
    if (led_) {
      led_->live.fetch_add(1);
      led_->made.fetch_add(1, std::memory_order_relaxed);
    }
  }
  void rebook(ledger *l) {
    if (l == led_) return;
    if (led_) led_->live.fetch_sub(1);
    led_ = l;
    if (led_) led_->live.fetch_add(1);
  }
  uint32_t magic_;
  ledger *led_;
  std::unique_ptr<uint64_t> cell_;
  const tv *self_;
};

void set_alloc_fail(int nth);

}  // namespace vf

// fiberwrap seam (no-ops in builds without the wrap)
extern "C" {
void vf_stack_gone(void *lo, void *hi);
extern void (*vf_before_jump)(void *to);
extern unsigned long long vf_switches;  // switches observed by the wrapper (relaxed)
}
