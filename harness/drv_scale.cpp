// Large numbers: the stackful part with hundreds or thousands of coroutines, stacks, switches, references, successors, tasks
// and timers, and with sizes beyond 32 bits. The other drivers explore many combinations of few objects; here the shapes are
// plain and the expected outcome of each is computed directly.
#include "lib.h"

#include <libcopp/utils/intrusive_ptr.h>
#include <libcopp/utils/spin_lock.h>
#include <libcotask/task.h>
#include <libcotask/task_manager.h>

#include <algorithm>
#include <numeric>
#include <set>
#include <thread>

namespace {
using u64 = uint64_t;
using co_t = copp::coroutine_context_container<vf::talloc>;
struct macro {
  using stack_allocator_type = vf::talloc;
  using coroutine_type = co_t;
  using value_type = int;
};
using task_t = cotask::task<macro>;
using task_p = task_t::ptr_type;
using mgr_t = cotask::task_manager<task_t>;
using id_t_ = task_t::id_type;

#if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__)
constexpr bool SAN = true;
#elif defined(__has_feature)
#  if __has_feature(address_sanitizer) || __has_feature(thread_sanitizer)
constexpr bool SAN = true;
#  else
constexpr bool SAN = false;
#  endif
#else
constexpr bool SAN = false;
#endif
constexpr size_t STACK = SAN ? 96 * 1024 : 64 * 1024;

// any magnitude up to max, with powers of two and their neighbours
size_t many(vf::rng &R, size_t max, size_t min = 1) {
  unsigned bits = 0;
  while ((size_t(1) << (bits + 1)) <= max) ++bits;
  size_t b = size_t(1) << R.below(bits + 1);
  size_t v = R.chance(25) ? b + R.below(3) - 1 : b + R.below(b);
  return std::max(min, std::min(v, max));
}
void *token(u64 salt, u64 i, u64 k) {
  u64 h = vf::mix64(salt, vf::mix64(i, k));
  if (h % 31 == 0) return nullptr;
  if (h % 31 == 1) return reinterpret_cast<void *>(~uintptr_t(0));
  return reinterpret_cast<void *>(static_cast<uintptr_t>(h));
}
std::vector<size_t> shuffled(vf::rng &R, size_t n) {
  std::vector<size_t> v(n);
  std::iota(v.begin(), v.end(), size_t(0));
  for (size_t i = n; i > 1; --i) std::swap(v[i - 1], v[R.below(i)]);
  return v;
}

// ---- C01
struct co_world {
  u64 salt;
  std::vector<co_t::ptr_type> c;
  std::vector<u64> rounds;
  u64 switches = 0;
  bool nest = false;
};
int co_body(co_world &w, size_t i, void *arg) {
  volatile u64 loc[16];
  for (u64 k = 0; k < 16; ++k) loc[k] = vf::mix64(w.salt, i * 16 + k);
  void *want = token(w.salt, i, 0);
  for (u64 r = 0;; ++r) {
    VF_CHECK(arg == want, "data", "coroutine %zu got %p instead of %p in round %llu", i, arg, want, (unsigned long long)r);
    VF_CHECK(copp::this_coroutine::get_coroutine() == w.c[i].get(), "current", "current coroutine inside coroutine %zu", i);
    if (w.nest && i + 1 < w.c.size()) {
      int rc = w.c[i + 1]->resume(token(w.salt, i + 1, r));
      VF_EQ(rc, 0, "drive", "resume of the next one");
      VF_CHECK(copp::this_coroutine::get_coroutine() == w.c[i].get(), "current", "current coroutine after a resume in %zu", i);
    }
    for (u64 k = 0; k < 16; ++k) VF_CHECK(loc[k] == vf::mix64(w.salt, i * 16 + k), "locals", "locals of coroutine %zu", i);
    if (r == w.rounds[i]) break;
    ++w.switches;
    arg = reinterpret_cast<void *>(uintptr_t(77));
    VF_EQ(w.c[i]->yield(&arg), 0, "yield", "result of yield");
    want = token(w.salt, i, r + 1);
  }
  return (int)(i * 7 + 3);
}
struct deep {
  u64 salt;
  uintptr_t low;  // how deep to go
  u64 frames = 0, yields = 0;
  __attribute__((noinline)) u64 go(u64 d) {
    volatile u64 a[24];
    for (u64 k = 0; k < 24; ++k) a[k] = vf::mix64(salt, d * 24 + k);
    ++frames;
    u64 sum = d;
    if (reinterpret_cast<uintptr_t>(&a[0]) > low) sum += go(d + 1);
    if ((vf::mix64(salt, d) & 1023) == 0 || reinterpret_cast<uintptr_t>(&a[0]) <= low) {
      ++yields;
      copp::this_coroutine::yield(nullptr);
    }
    for (u64 k = 0; k < 24; ++k) VF_CHECK(a[k] == vf::mix64(salt, d * 24 + k), "locals", "frame %llu", (unsigned long long)d);
    return sum;
  }
};
}  // namespace

VF_MODE(ctx) {
  auto book = std::make_shared<vf::stack_book>();
  vf::talloc al(book);
  if (R.chance(15)) {  // one coroutine, a large stack used nearly to its end
    deep d{R.next(), 0};
    size_t size = many(R, SAN ? 4u << 20 : 64u << 20, 128 * 1024);
    auto c = co_t::create([&](void *) {
      char here;
      auto it = book->live.begin();
      VF_CHECK(it->first < reinterpret_cast<uintptr_t>(&here) && reinterpret_cast<uintptr_t>(&here) < it->second.hi, "stack", "body outside of its stack");
      d.low = it->first + (reinterpret_cast<uintptr_t>(&here) - it->first) / 5 + 24 * 1024;
      u64 s = d.go(0);
      VF_CHECK(s == d.frames * (d.frames - 1) / 2, "locals", "sum over the frames");
      return 5;
    }, al, size);
    VF_CHECK(c, "create", "coroutine with a stack of %zu", size);
    u64 n = 0;
    do {
      VF_EQ(c->resume(), 0, "drive", "resume");
      ++n;
    } while (!c->is_finished());
    VF_EQ(n, d.yields + 1, "switches", "resumes");
    VF_EQ(c->get_ret_code(), 5, "ret", "value returned");
    vf::tr(d.frames, n);
    vf::nontrivial();
    VF_COUNT_N("scale_frames", d.frames);
    vf::note("%llu frames on a stack of %zu, %llu switches", (unsigned long long)d.frames, size, (unsigned long long)n);
    return;
  }
  co_world w;
  w.salt = R.next();
  w.nest = R.chance(50);
  size_t n = many(R, SAN ? 150 : 400);
  u64 total = many(R, SAN ? 4000 : 20000, n);
  for (size_t i = 0; i < n; ++i) {
    w.rounds.push_back(w.nest ? total / n : R.below(2 * total / n + 1));
    w.c.push_back(co_t::create([&w, i](void *p) { return co_body(w, i, p); }, al, STACK));
    VF_CHECK(w.c.back(), "create", "coroutine %zu", i);
  }
  VF_EQ(book->live_count(), n, "stacks", "stacks handed out");
  if (w.nest) {
    for (u64 r = 0; r <= total / n; ++r) VF_EQ(w.c[0]->resume(token(w.salt, 0, r)), 0, "drive", "resume of the outermost");
  } else {
    std::vector<u64> done(n, 0);
    std::vector<size_t> open = shuffled(R, n);
    while (!open.empty()) {
      size_t k = R.below(open.size()), i = open[k];
      VF_EQ(w.c[i]->resume(token(w.salt, i, done[i])), 0, "drive", "resume");
      VF_CHECK(!copp::this_coroutine::get_coroutine(), "current", "current coroutine outside of all");
      if (++done[i] > w.rounds[i]) {
        open[k] = open.back();
        open.pop_back();
      }
    }
  }
  for (size_t i = 0; i < n; ++i) {
    VF_CHECK(w.c[i]->is_finished(), "finish", "coroutine %zu has not finished", i);
    VF_EQ(w.c[i]->get_ret_code(), (int)(i * 7 + 3), "ret", "value returned");
    VF_EQ(w.c[i]->resume(), copp::COPP_EC_NOT_READY, "drive", "resume of a finished coroutine");
  }
  for (size_t i : shuffled(R, n)) w.c[i].reset();
  VF_EQ(book->live_count(), 0, "stacks", "stacks alive at the end");
  vf::tr(n, w.switches);
  if (w.switches > 100) vf::nontrivial();
  VF_COUNT_N("scale_switches", w.switches);
  vf::note("%zu %s coroutines, %llu yields", n, w.nest ? "nested" : "interleaved", (unsigned long long)w.switches);
}

#if VF_EPTR
// ---- C02
namespace {
struct thrown {
  u64 who;
  vf::tv v;
};
}  // namespace
VF_MODE(exc) {
  auto book = std::make_shared<vf::stack_book>();
  vf::talloc al(book);
  vf::ledger led;
  u64 salt = R.next();
  if (R.chance(50)) {
    // nested coroutines: the innermost throws, each of the others passes it on, replaces it or keeps it
    size_t n = many(R, SAN ? 150 : 400);
    std::vector<co_t::ptr_type> c(n);
    std::vector<int> how(n);
    u64 caught = 0, expect = 0;
    for (size_t i = 0; i < n; ++i) how[i] = R.chance(60) ? 0 : (int)R.below(3);
    // one which passes it on (0) ends with the exception if one arrives, 1 throws its own, 2 keeps it
    std::vector<bool> out(n);
    for (size_t k = n; k-- > 0;) out[k] = k + 1 == n ? true : how[k] == 1 ? true : how[k] == 0 ? out[k + 1] : false;
    for (size_t i = 0; i < n; ++i) {
      c[i] = co_t::create([&, i](void *) -> int {
        vf::tv local(&led, i);
        if (i + 1 == n) throw thrown{i, vf::tv(&led, salt + i)};
        u64 from = i + 1;
        while (from + 1 < n && how[from] == 0) ++from;  // whose exception it is if one arrives here
        bool arrives = out[i + 1];
        if (how[i] == 0) {
          int rc = c[i + 1]->start();
          VF_CHECK(!arrives && rc == 0, "exception-lost", "the exception of coroutine %zu did not arrive", i + 1);
          return (int)i;
        }
        std::exception_ptr e;
        int rc = c[i + 1]->start(e);
        VF_EQ(rc, 0, "drive", "start");
        VF_EQ(!!e, arrives, "exception-lost", "an exception arrived");
        if (e) try {
            std::rethrow_exception(e);
          } catch (const thrown &t) {
            VF_EQ(t.who, from, "exception-identity", "who threw it");
            VF_EQ(t.v.get(), salt + from, "exception-identity", "payload");
            ++caught;
          }
        if (how[i] == 1) throw thrown{i, vf::tv(&led, salt + i)};
        return (int)i;
      }, al, STACK);
    }
    for (size_t k = 0; k + 1 < n; ++k) expect += how[k] != 0 && out[k + 1];
    std::exception_ptr e;
    VF_EQ(c[0]->start(e), 0, "drive", "start");
    VF_EQ(!!e, out[0], "exception-lost", "an exception arrived outside");
    e = nullptr;
    VF_EQ(caught, expect, "exception-lost", "exceptions caught on the way");
    for (size_t i = 0; i < n; ++i) {
      VF_CHECK(c[i]->is_finished(), "finish", "coroutine %zu", i);
      std::exception_ptr again;
      VF_EQ(c[i]->resume(again), copp::COPP_EC_NOT_READY, "drive", "resume of a finished coroutine");
      VF_CHECK(!again, "exception-twice", "exception delivered again");
    }
    for (size_t i : shuffled(R, n)) c[i].reset();
    vf::tr(n, caught);
    vf::note("%zu nested coroutines, %llu exceptions caught on the way", n, (unsigned long long)caught);
    VF_COUNT_N("scale_exceptions", caught);
  } else {
    // a task and its successors, all of which throw: one call collects them in order
    size_t n = many(R, SAN ? 150 : 400);
    u64 ran = 0;
    std::vector<u64> who;
    task_p p = task_t::create([&](void *) -> int { throw thrown{0, vf::tv(&led, salt)}; }, al, STACK);
    for (size_t i = 1; i <= n; ++i) {
      bool t = R.chance(70);
      if (t) who.push_back(i);
      p->next(task_t::create([&, i, t](void *) -> int {
        ++ran;
        if (t) throw thrown{i, vf::tv(&led, salt + i)};
        return 0;
      }, al, STACK));
    }
    std::list<std::exception_ptr> es;
    VF_EQ(p->start(es, nullptr), 0, "drive", "start");
    VF_EQ(ran, n, "successor-lost", "successors run");
    VF_EQ(es.size(), who.size() + 1, "exception-lost", "exceptions collected");
    u64 k = 0;
    for (auto &e : es) {
      try {
        std::rethrow_exception(e);
      } catch (const thrown &t) {
        VF_EQ(t.who, k ? who[k - 1] : 0, "exception-identity", "who threw it");
        VF_EQ(t.v.get(), salt + t.who, "exception-identity", "payload");
      }
      ++k;
    }
    es.clear();
    VF_EQ(p->use_count(), 1, "task-leaked", "references to the task");
    p.reset();
    vf::tr(n, who.size());
    vf::note("%zu throwing successors", who.size());
    VF_COUNT_N("scale_exceptions", who.size());
  }
  VF_EQ(led.live.load(), 0, "leak", "locals and exceptions alive");
  VF_EQ(book->live_count(), 0, "stacks", "stacks alive at the end");
  vf::nontrivial();
}
#endif

// ---- C06: sizes of any magnitude, also beyond 32 bits
namespace {
template <class A>
void big_alloc(vf::rng &R, size_t guard) {
  A a;
  size_t max = SAN ? size_t(64) << 20 : size_t(6) << 30;
  struct st {
    copp::stack_context c;
    size_t asked;
    std::vector<std::pair<size_t, unsigned char>> marks;
  };
  std::vector<st> v(R.range(1, 4));
  size_t sum = 0;
  auto verify = [&](st &s) {
    unsigned char *lo = reinterpret_cast<unsigned char *>(s.c.sp) - s.c.size + guard;
    for (auto &m : s.marks) VF_EQ(lo[m.first], m.second, "stack-content", "byte of a stack");
  };
  for (auto &s : v) {
    s.asked = many(R, max);
    if (sum + s.asked > max) s.asked = many(R, 1u << 20);
    sum += s.asked;
    a.allocate(s.c, s.asked);
    VF_CHECK(s.c.sp, "alloc-failed", "a stack of %zu bytes", s.asked);
    size_t want = s.asked;
    if (!copp::stack_traits::is_unbounded()) want = std::min(want, copp::stack_traits::maximum_size());
    const size_t usable = s.c.size - guard;
    VF_CHECK(usable >= want, "stack-smaller-than-asked", "asked for %zu, got %zu", s.asked, s.c.size);
    VF_CHECK(s.c.size < std::max(want, copp::stack_traits::minimum_size()) + 4 * copp::stack_traits::page_size(), "stack-larger-than-asked", "asked for %zu, got %zu", s.asked, s.c.size);
    unsigned char *hi = reinterpret_cast<unsigned char *>(s.c.sp), *lo = hi - s.c.size;
    for (auto &o : v)
      if (&o != &s && o.c.sp) {
        unsigned char *ohi = reinterpret_cast<unsigned char *>(o.c.sp), *olo = ohi - o.c.size;
        VF_CHECK(ohi <= lo || hi <= olo, "stack-overlap", "two stacks overlap");
      }
    std::set<size_t> at;
    for (int k = 0; k < 12; ++k) at.insert(k == 0 ? 0 : k == 1 ? usable - 1 : R.chance(50) ? R.below(usable) : many(R, usable - 1));
    for (size_t x : at) {
      unsigned char b = (unsigned char)R.next();
      lo[guard + x] = b;
      s.marks.emplace_back(x, b);
    }
    VF_COUNT_N("scale_megabytes", s.c.size >> 20);
    vf::tr(s.c.size);
  }
  for (auto &s : v) verify(s);
  for (size_t i : shuffled(R, v.size())) {
    a.deallocate(v[i].c);
    v[i].c.sp = nullptr;
    for (auto &s : v)
      if (s.c.sp) verify(s);
  }
  if (sum > (size_t(1) << 32)) VF_COUNT("scale_beyond_32_bits");
  vf::note("%zu stacks, %zu MB", v.size(), sum >> 20);
  vf::nontrivial();
}
}  // namespace
VF_MODE(alloc) {
  if (R.chance(50))
    big_alloc<copp::allocator::stack_allocator_malloc>(R, 0);
  else
    big_alloc<copp::allocator::stack_allocator_posix>(R, copp::stack_traits::page_size());
}

// ---- C07
VF_MODE(pool) {
  using pool_t = copp::stack_pool<vf::talloc>;
  auto book = std::make_shared<vf::stack_book>();
  bool huge = !SAN && R.chance(10);  // sums beyond 32 bits
  size_t n = huge ? R.range(3, 12) : many(R, SAN ? 300 : 1500);
  auto pool = pool_t::create();
  pool->get_origin_allocator().book = book;
  pool->set_auto_gc(false);
  size_t S = huge ? size_t(512) << 20 : 48 * 1024 + 4096 * R.below(4);
  S = pool->set_stack_size(S);
  size_t O = pool->get_stack_size_offset(), T = S + O;
  int limit = (int)R.below(3);
  if (limit == 1) pool->set_max_stack_number(n);
  if (limit == 2) pool->set_max_stack_size(n * T);
  std::vector<copp::stack_context> s(n);
  size_t used = 0, kept = 0;
  auto counts = [&](const char *when) {
    auto &l = pool->get_limit();
    VF_CHECK(l.used_stack_number == used && l.free_stack_number == kept && l.used_stack_size == used * T && l.free_stack_size == kept * T, "pool-counts",
             "%s: %zu/%zu used, %zu/%zu free, expected %zu and %zu of %zu bytes", when, l.used_stack_number, l.used_stack_size, l.free_stack_number, l.free_stack_size, used, kept, T);
    VF_EQ(book->live_count(), used + kept, "pool-conservation", "stacks from the allocator");
  };
  for (size_t i = 0; i < n; ++i) {
    pool->allocate(s[i]);
    VF_CHECK(s[i].sp && s[i].size == T, "pool-refused", "stack %zu of %zu", i, n);
    ++used;
    counts("taken");
  }
  if (limit) {
    copp::stack_context x;
    pool->allocate(x);
    VF_CHECK(!x.sp, "pool-limit", "stack %zu handed out beyond the limit", n + 1);
    counts("refused");
  }
  std::set<void *> seen;
  for (auto &x : s) VF_CHECK(seen.insert(x.sp).second, "pool-two-users", "a stack handed out twice");
  auto order = shuffled(R, n);
  size_t back = R.below(n + 1);
  for (size_t k = 0; k < back; ++k) {
    pool->deallocate(s[order[k]]);
    --used;
    ++kept;
    counts("given back");
  }
  u64 made = book->allocated;
  size_t again = R.below(back + 1);
  for (size_t k = 0; k < again; ++k) {
    copp::stack_context x;
    pool->allocate(x);
    VF_CHECK(x.sp, "pool-refused", "a kept stack");
    s[order[k]] = x;
    ++used;
    --kept;
    counts("taken again");
  }
  VF_EQ(book->allocated, made, "pool-reuse", "stacks made although some were free");
  seen.clear();
  for (size_t k = 0; k < n; ++k)
    if (k < again || k >= back) VF_CHECK(seen.insert(s[order[k]].sp).second, "pool-two-users", "a stack handed out twice");
  // collection in steps, down to the minimum
  size_t min_n = R.below(kept + 2), once = many(R, kept + 1);
  pool->set_min_stack_number(min_n);
  pool->set_gc_once_number(once);
  for (int k = 0; k < 5; ++k) {
    // nothing while more are used than free or when at the minimum, otherwise down to half of the free ones
    size_t want = used >= kept || (min_n && used + kept <= min_n) ? 0 : std::min(kept - kept / 2, once);
    size_t got = pool->gc();
    VF_EQ(got, want, "pool-gc-count", "stacks collected");
    kept -= got;
    counts("collected");
  }
  for (size_t k = 0; k < n; ++k)
    if (k < again || k >= back) {
      pool->deallocate(s[order[k]]);
      --used;
      ++kept;
    }
  counts("all given back");
  if (R.chance(50)) {
    pool->clear();
    kept = 0;
    counts("cleared");
  }
  pool.reset();
  VF_EQ(book->live_count(), 0, "pool-conservation", "stacks alive after the pool");
  VF_COUNT_N("scale_pool_stacks", n);
  vf::tr(n, vf::mix64(back, again));
  vf::note("%zu stacks of %zu, %zu returned, %zu taken again", n, T, back, again);
  vf::nontrivial();
}

// ---- C10, C11: many yields, many references
VF_MODE(life) {
  auto book = std::make_shared<vf::stack_book>();
  vf::talloc al(book);
  vf::ledger led;
  size_t yields = many(R, SAN ? 3000 : 30000), drive = R.chance(40) ? yields + 1 : R.below(yields + 1), seen = 0;
  int done = 0, finished = 0, gone = 0, status = -1;
  bool obey = R.chance(20);
  struct act : cotask::impl::task_action_impl {
    std::function<int()> f;
    int *fin, *dead, *st;
    vf::tv v;
    bool armed = true;
    act(std::function<int()> x, int *a, int *b, int *c, vf::ledger *l) : f(std::move(x)), fin(a), dead(b), st(c), v(l, 7) {}
    act(act &&o) noexcept : f(std::move(o.f)), fin(o.fin), dead(o.dead), st(o.st), v(std::move(o.v)) { o.armed = false; }
    ~act() { *dead += armed; }
    int operator()(void *) override { return f(); }
    int on_finished(cotask::impl::task_impl &t) override {
      ++*fin;
      *st = t.get_status();
      return 0;
    }
  };
  task_p p = task_t::create(act([&]() -> int {
    auto *me = cotask::this_task::get<task_t>();
    for (size_t k = 0; k < yields; ++k) {
      ++seen;
      VF_EQ(me->yield(), 0, "yield", "result of yield");
      if (obey && me->is_exiting()) break;
    }
    ++done;
    return 42;
  }, &finished, &gone, &status, &led), al, STACK);
  size_t refs = many(R, 100000);
  std::vector<task_p> more(refs, p);
  VF_EQ(p->use_count(), refs + 1, "references", "use count");
  for (size_t k = 0; k < drive; ++k) {
    VF_EQ(k ? p->resume() : p->start(), 0, "drive", "result");
    VF_EQ(seen, std::min(k + 1, yields), "segments", "segments executed");
    VF_EQ(p->get_status(), k < yields ? cotask::EN_TS_WAITING : cotask::EN_TS_DONE, "status", "status");
  }
  int want = drive > yields ? cotask::EN_TS_DONE : 0;
  if (drive > yields) {
    VF_EQ(p->resume(), copp::COPP_EC_ALREADY_FINISHED, "drive", "resume of a finished task");
    VF_EQ(p->kill(), copp::COPP_EC_ALREADY_FINISHED, "drive", "kill of a finished task");
  } else if (R.chance(60)) {
    bool k = R.chance(50);
    VF_EQ(k ? p->kill() : p->cancel(), 0, "drive", "kill");
    want = k ? cotask::EN_TS_KILLED : cotask::EN_TS_CANCELED;
    VF_EQ(p->get_ret_code(), 42, "ret", "result");
  }
  if (want) {
    VF_CHECK(done == 1 && finished == 1 && status == want, "end", "ended %d, completions %d with status %d", done, finished, status);
    VF_EQ(p->get_status(), want, "status", "status");
    VF_EQ(gone, 0, "callable", "callable destroyed while the task lives");
  }
  for (size_t k = 0; k < refs; ++k) more[k].reset();
  VF_EQ(p->use_count(), 1, "references", "use count");
  VF_EQ(gone, 0, "callable", "callable destroyed while the task lives");
  p.reset();
  VF_EQ(gone, 1, "callable", "destructions of the callable");
  if (!want) {
    bool ran = drive > 0;
    VF_CHECK(done == ran && finished == ran && (!ran || status == cotask::EN_TS_TIMEOUT), "end", "dropped: ended %d, completions %d with status %d", done, finished, status);
  }
  if (done && !obey) VF_EQ(seen, yields, "segments", "segments executed");
  VF_EQ(led.live.load(), 0, "callable", "payloads alive");
  VF_EQ(book->live_count(), 0, "stacks", "stacks alive at the end");
  vf::tr(vf::mix64(yields, drive), refs);
  VF_COUNT_N("scale_segments", seen);
  vf::note("%zu yields, %zu driven, %zu references", yields, drive, refs);
  vf::nontrivial();
}

// ---- C12 (and C11): many successors, long chains, many waiting tasks
VF_MODE(chain) {
  auto book = std::make_shared<vf::stack_book>();
  vf::talloc al(book);
  vf::ledger led;
  u64 salt = R.next();
  size_t n = many(R, SAN ? 150 : 500);
  unsigned shape = (unsigned)R.below(3);
  std::vector<size_t> ran;
  int pred_done = 0;
  auto payload = std::make_shared<vf::tv>(&led, 1);
  task_p p = task_t::create([&, payload](void *) -> int {
    task_t::this_task()->yield(nullptr);
    pred_done = 1;
    return 1;
  }, al, STACK);
  if (shape == 0) {  // successors of one task, some of them already waiting
    std::vector<task_p> q;
    for (size_t i = 0; i < n; ++i) {
      bool wait = R.chance(30);
      q.push_back(task_t::create([&, payload, i, wait](void *d) -> int {
        if (wait) {
          d = nullptr;
          task_t::this_task()->yield(&d);
        }
        VF_CHECK(pred_done, "too-early", "successor %zu before the end", i);
        VF_CHECK(d == token(salt, i, 9), "data", "successor %zu", i);
        ran.push_back(i);
        return 0;
      }, al, STACK));
      if (wait) VF_EQ(q.back()->start(), 0, "drive", "start");
      VF_CHECK(p->next(q.back(), token(salt, i, 9)) == q.back(), "attach", "next() of %zu", i);
    }
    if (R.chance(50)) q.clear();
  } else if (shape == 1) {  // a chain
    task_p last = p;
    for (size_t i = 0; i < n; ++i) {
      auto f = [&, payload, i](void *d) -> int {
        VF_CHECK(pred_done && ran.size() == i, "too-early", "task %zu of the chain", i);
        VF_CHECK(d == token(salt, i, 9), "data", "task %zu of the chain", i);
        ran.push_back(i);
        return 0;
      };
      task_p q = last->next(task_t::create(std::move(f), al, STACK), token(salt, i, 9));
      VF_CHECK(q && q != last, "attach", "next() of %zu", i);
      last = q;
    }
  } else {  // waiting tasks, resumed for nothing now and then
    std::vector<task_p> q;
    for (size_t i = 0; i < n; ++i) {
      q.push_back(task_t::create([&, payload, i](void *) -> int {
        int rc = task_t::this_task()->await_task(p.get());
        VF_EQ(rc, 0, "await", "result of the wait");
        VF_CHECK(pred_done, "too-early", "waiter %zu", i);
        ran.push_back(i);
        return 0;
      }, al, STACK));
    }
    VF_EQ(p->start(), 0, "drive", "start");
    for (size_t i : shuffled(R, n)) VF_EQ(q[i]->start(), 0, "drive", "start of a waiting task");
    for (size_t k = 0; k < n / 2; ++k) VF_EQ(q[R.below(n)]->resume(), 0, "drive", "resume of a waiting task");
    VF_EQ(ran.size(), 0, "too-early", "waiting tasks continued");
    if (R.chance(50)) q.clear();
  }
  int how = (int)R.below(4);
  if (shape != 2) VF_EQ(p->start(), 0, "drive", "start");
  VF_EQ(ran.size(), 0, "too-early", "successors run before the end");
  if (how == 0)
    VF_EQ(p->resume(), 0, "drive", "resume");
  else if (how == 1)
    VF_EQ(p->kill(), 0, "drive", "kill");
  else if (how == 2)
    VF_EQ(p->cancel(), 0, "drive", "cancel");
  else if (shape == 2)
    VF_EQ(p->kill(cotask::EN_TS_TIMEOUT), 0, "drive", "kill");
  else
    p.reset();
  VF_EQ(ran.size(), n, "successor-lost", "successors run");
  if (shape != 2)
    for (size_t i = 0; i < n; ++i) VF_EQ(ran[i], i, "order", "order of the successors");
  p.reset();
  VF_EQ(payload.use_count(), 1, "callable", "callables alive");
  VF_EQ(book->live_count(), 0, "stacks", "stacks alive at the end");
  vf::tr(vf::mix64(n, shape), (u64)how);
  VF_COUNT_N("scale_successors", n);
  vf::note("%zu %s", n, shape == 0 ? "successors" : shape == 1 ? "tasks in a chain" : "waiting tasks");
  vf::nontrivial();
}

// ---- C13, C14, C15: many tasks and timers in one manager
VF_MODE(mgr) {
  auto book = std::make_shared<vf::stack_book>();
  vf::talloc al(book);
  size_t n = many(R, SAN ? 200 : 1500);
  struct T {
    task_p p;
    id_t_ id = 0;
    bool held = true, in = true, timed = false;
    __int128 at = 0;
    int ends = 0, status = -1, begun = 0;
  };
  constexpr int64_t G = 1000000000;
  std::vector<T> t(n);
  std::vector<size_t> fired;
  auto m = mgr_t::create();
  __int128 now = R.chance(30) ? 0 : (__int128)(1 + R.below(2000000000)) * G + (int64_t)R.below(G);
  if (now) VF_EQ(m->tick((int64_t)(now / G), (int)(now % G)), 0, "tick", "first tick");
  std::vector<__int128> dl;
  for (size_t k = many(R, 40); k; --k) {
    int64_t sec = R.chance(15) ? (int64_t)many(R, size_t(1) << 40) : (int64_t)R.below(300);
    int nsec = R.chance(40) ? 0 : R.chance(50) ? (int)R.below(3) : (int)(G - 1 - (int64_t)R.below(3));
    dl.push_back((__int128)sec * G + nsec);
  }
  struct act : cotask::impl::task_action_impl {
    T *x;
    std::vector<size_t> *fired;
    size_t i;
    act(T *y, std::vector<size_t> *f, size_t k) : x(y), fired(f), i(k) {}
    int operator()(void *) override {
      ++x->begun;
      auto *me = cotask::this_task::get<task_t>();
      while (!me->is_exiting()) me->yield();
      return 1;
    }
    int on_finished(cotask::impl::task_impl &z) override {
      ++x->ends;
      x->status = z.get_status();
      if (x->status == cotask::EN_TS_TIMEOUT) fired->push_back(i);
      return 0;
    }
  };
  size_t timers = 0, inside = 0;
  for (size_t i = 0; i < n; ++i) {
    T &x = t[i];
    x.p = task_t::create(act(&x, &fired, i), al, STACK);
    x.id = x.p->get_id();
    __int128 d = R.chance(30) ? 0 : dl[R.below(dl.size())];
    if (d)
      VF_EQ(m->add_task(x.p, (int64_t)(d / G), (int)(d % G)), 0, "add", "add_task");
    else
      VF_EQ(m->add_task(x.p), 0, "add", "add_task");
    if (d) {
      x.timed = true;
      x.at = now + d;
      ++timers;
    }
    ++inside;
    if (R.chance(40)) {
      x.held = false;
      x.p.reset();
    }
  }
  auto counts = [&](const char *when) {
    VF_CHECK(m->get_task_size() == inside && m->get_tick_checkpoint_size() == timers, "counts", "%s: %zu tasks and %zu timers, expected %zu and %zu", when,
             m->get_task_size(), m->get_tick_checkpoint_size(), inside, timers);
  };
  counts("added");
  auto left = [&](T &x, int st) {
    VF_CHECK(x.ends == 1 && x.status == st, "end", "ended %d times with status %d, expected %d", x.ends, x.status, st);
    x.in = false;
    --inside;
    if (x.timed) --timers;
  };
  for (size_t i : shuffled(R, n)) {
    T &x = t[i];
    auto f = m->find_task(x.id);
    VF_CHECK(f && f->get_id() == x.id && (!x.held || f == x.p), "find", "task %zu", i);
    f.reset();
    if (x.held && R.chance(20)) VF_EQ(m->add_task(x.p), copp::COPP_EC_ALREADY_EXIST, "add", "add_task again");
    if (R.chance(90)) VF_EQ(m->start(x.id), 0, "start", "start of a task");
    if (R.chance(20)) {
      __int128 d = R.chance(30) ? 0 : dl[R.below(dl.size())];
      VF_EQ(m->set_timeout(x.id, (int64_t)(d / G), (int)(d % G)), 0, "retime", "set_timeout");
      timers -= x.timed;
      x.timed = d != 0;
      timers += x.timed;
      x.at = now + d;
    }
  }
  counts("started");
  for (size_t i = 0; i < n; ++i) {
    T &x = t[i];
    if (R.chance(75)) continue;
    unsigned k = (unsigned)R.below(3);
    if (k == 0) {
      VF_EQ(m->kill(x.id), 0, "kill", "kill");
      left(x, cotask::EN_TS_KILLED);
    } else if (k == 1) {
      VF_EQ(m->cancel(x.id), 0, "cancel", "cancel");
      left(x, cotask::EN_TS_CANCELED);
    } else {
      VF_EQ(m->remove_task(x.id), 0, "remove", "remove_task");
      if (x.begun)
        left(x, cotask::EN_TS_KILLED);
      else {
        x.in = false;
        --inside;
        if (x.timed) --timers;
      }
    }
    VF_CHECK(!m->find_task(x.id), "find", "task %zu is still there", i);
    VF_EQ(m->kill(x.id), copp::COPP_EC_NOT_FOUND, "kill", "kill of a task not in the manager");
  }
  counts("some ended");
  // time passes
  bool first = now == 0;
  u64 total = 0;
  for (int step = 0; step < 12 && R.chance(93); ++step) {
    __int128 to;
    if (first)
      to = (__int128)(1 + R.below(2000000000)) * G + (int64_t)R.below(G);
    else if (R.chance(70) && timers) {
      std::vector<__int128> at;
      for (auto &x : t)
        if (x.in && x.timed) at.push_back(x.at);
      to = at[R.below(at.size())] + R.range(-1, 1);
    } else
      to = now + (__int128)many(R, size_t(1) << 40);
    if (to < now) to = now;
    if (!first && timers) {
      __int128 lo = 0;
      for (auto &x : t)
        if (x.in && x.timed && (!lo || x.at < lo)) lo = x.at;
      auto &cp = *m->get_checkpoints().begin();
      VF_CHECK((__int128)cp.expired_time.tv_sec * G + cp.expired_time.tv_nsec == lo, "earliest", "earliest deadline");
    }
    fired.clear();
    VF_EQ(m->tick((int64_t)(to / G), (int)(to % G)), 0, "tick", "tick");
    if (first) {
      for (auto &x : t)
        if (x.timed) x.at += to;
      first = false;
      VF_EQ(fired.size(), 0, "early", "timers which fired on the first tick");
    }
    now = to;
    size_t due = 0;
    for (size_t i = 0; i < n; ++i) {
      T &x = t[i];
      if (!x.in || !x.timed || x.at >= now) continue;
      ++due;
      if (x.begun || x.status == cotask::EN_TS_TIMEOUT) left(x, cotask::EN_TS_TIMEOUT);
      VF_CHECK(!m->find_task(x.id), "late", "task %zu did not time out", i);
      x.in = false;
    }
    VF_EQ(fired.size(), due, "early", "timers which fired");
    for (size_t k = 0; k + 1 < fired.size(); ++k) VF_CHECK(t[fired[k]].at <= t[fired[k + 1]].at, "order", "timers fired out of order");
    total += due;
    counts("ticked");
  }
  if (R.chance(50)) {
    size_t before = 0;
    for (auto &x : t) before += x.ends;
    m->reset();
    size_t after = 0;
    for (auto &x : t) after += x.ends;
    VF_CHECK(after >= before, "reset", "ends");
    inside = timers = 0;
    counts("reset");
    for (auto &x : t)
      if (x.in && x.begun) VF_CHECK(x.ends == 1 && x.status == cotask::EN_TS_KILLED, "reset", "ended %d times with status %d", x.ends, x.status);
  }
  m.reset();
  for (auto &x : t) {
    if (x.begun) VF_EQ(x.ends, 1, "end", "ends of a task");
    x.p.reset();
    VF_CHECK(x.ends <= 1, "end", "ended %d times", x.ends);
  }
  VF_EQ(book->live_count(), 0, "stacks", "stacks alive at the end");
  vf::tr(vf::mix64(n, total), (u64)dl.size());
  VF_COUNT_N("scale_tasks_in_manager", n);
  VF_COUNT_N("scale_timers_fired", total);
  vf::note("%zu tasks with %zu different deadlines, %llu fired", n, dl.size(), (unsigned long long)total);
  vf::nontrivial();
}

// ---- C16: many threads and many tasks
VF_MODE(mgrmt) {
  auto book = std::make_shared<vf::stack_book>();
  int nth = (int)R.range(4, 16), per = (int)many(R, SAN ? 16 : 60);
  auto m = mgr_t::create();
  m->tick(1);
  struct T {
    task_p p;
    id_t_ id = 0;
    int segs = 0;
    vf::rlx<int> ran{0}, ends{0}, status{-1};
    u64 plain = 0;
  };
  std::vector<std::unique_ptr<T>> t;
  for (int i = 0; i < nth * per; ++i) {
    t.push_back(std::make_unique<T>());
    T *x = t.back().get();
    x->segs = (int)R.range(1, 6);
    struct act : cotask::impl::task_action_impl {
      T *x;
      explicit act(T *y) : x(y) {}
      int operator()(void *) override {
        for (int k = 0; k < x->segs; ++k) {
          VF_EQ(x->ran.fetch_add(1), k, "segment-order", "segments so far");
          x->plain = vf::mix64(x->plain, (u64)k);
          if (k + 1 < x->segs) cotask::this_task::get<task_t>()->yield();
        }
        return 0;
      }
      int on_finished(cotask::impl::task_impl &z) override {
        x->status.store(z.get_status());
        VF_EQ(x->ends.fetch_add(1), 0, "ended-twice", "earlier ends");
        return 0;
      }
    };
    vf::talloc al(book);
    x->p = task_t::create(act(x), al, STACK);
    x->id = x->p->get_id();
  }
  if (R.chance(60)) vf::delays_on(R.next(), 200);
  std::atomic<int> g{0};
  std::vector<std::thread> th;
  for (int k = 0; k < nth; ++k)
    th.emplace_back([&, k, seed = R.next()] {
      vf::rng r(seed);
      g.fetch_add(1, std::memory_order_acq_rel);
      while (g.load(std::memory_order_acquire) < nth) std::this_thread::yield();
      for (int i = 0; i < per; ++i) VF_EQ(m->add_task(t[(size_t)(k * per + i)]->p, r.chance(50) ? 0 : 100000, 0), 0, "add", "add_task");
      for (int i = 0; i < per; ++i) {
        T &x = *t[(size_t)(k * per + i)];
        int rc = m->start(x.id);  // the others resume it as well
        VF_CHECK(rc == 0 || rc == copp::COPP_EC_NOT_FOUND || rc == copp::COPP_EC_IS_RUNNING || rc == copp::COPP_EC_ALREADY_FINISHED, "start", "start returned %d", rc);
        if (r.chance(20)) m->tick(2);
      }
      for (int i = 0; i < per * 4; ++i) {
        T &x = *t[(size_t)r.below(t.size())];
        int rc = m->resume(x.id);
        VF_CHECK(rc == 0 || rc == copp::COPP_EC_NOT_FOUND || rc == copp::COPP_EC_IS_RUNNING || rc == copp::COPP_EC_ALREADY_FINISHED || rc == copp::COPP_EC_NOT_READY, "resume", "resume returned %d", rc);
        if (r.chance(10)) m->find_task(x.id);
      }
      for (int i = 0; i < per; ++i) {
        T &x = *t[(size_t)(k * per + i)];
        if (r.chance(50))
          while (m->find_task(x.id)) {
            int rc = m->resume(x.id);
            if (rc == copp::COPP_EC_IS_RUNNING) std::this_thread::yield();
          }
        else if (int rc = m->kill(x.id))
          VF_CHECK(rc == copp::COPP_EC_NOT_FOUND || rc == copp::COPP_EC_ALREADY_FINISHED, "kill", "kill returned %d", rc);
      }
    });
  for (auto &x : th) x.join();
  vf::delays_off();
  VF_EQ(m->get_task_size(), 0, "counts", "tasks left");
  VF_EQ(m->get_tick_checkpoint_size(), 0, "counts", "timers left");
  size_t killed = 0;
  for (auto &x : t) {
    VF_EQ(x->ends.load(), 1, "lost", "ends of a task");
    int s = x->status.load();
    VF_CHECK(s == cotask::EN_TS_DONE || s == cotask::EN_TS_KILLED, "status", "status %d", s);
    VF_EQ(x->ran.load(), x->segs, "segments", "segments executed");
    killed += s == cotask::EN_TS_KILLED;
  }
  m.reset();
  size_t n = t.size();
  t.clear();
  VF_EQ(book->live_count(), 0, "stacks", "stacks alive at the end");
  vf::tr(vf::mix64((u64)nth, n), killed);
  VF_COUNT_N("scale_tasks_shared", n);
  vf::note("%d threads, %zu tasks, %zu killed", nth, n, killed);
  vf::nontrivial();
}

// ---- C23
namespace {
struct counted {
  std::atomic<size_t> refs{0};
  int *dead;
  explicit counted(int *d) : dead(d) {}
  ~counted() { ++*dead; }
  size_t use_count() const { return refs.load(); }
  friend void intrusive_ptr_add_ref(counted *p) { p->refs.fetch_add(1, std::memory_order_relaxed); }
  friend void intrusive_ptr_release(counted *p) {
    if (p->refs.fetch_sub(1, std::memory_order_acq_rel) == 1) delete p;
  }
};
}  // namespace
// ---- C05: many references of one coroutine; the stack goes back with the last of them
VF_MODE(refs) {
  auto book = std::make_shared<vf::stack_book>();
  vf::talloc al(book);
  vf::ledger led;
  using cont_t = copp::coroutine_context_container<vf::talloc>;
  int ran = 0;
  {
    vf::tv keep(&led, 5);
    auto p = cont_t::create([&ran, keep](void *) {
      ++ran;
      copp::this_coroutine::yield();
      ++ran;
      return (int)keep.get();
    }, al, STACK);
    size_t n = many(R, 150000);
    if (R.chance(20)) n = R.range(65000, 140000);
    std::vector<cont_t::ptr_type> v(n, p);
    VF_EQ(p->use_count(), n + 1, "references", "use count");
    VF_EQ(p->start(), 0, "start", "result");
    auto o = shuffled(R, n);
    for (size_t k = 0; k < n; ++k) {
      v[o[k]].reset();
      if (k % (n / 50 + 1) == 0) VF_EQ(book->live_count(), 1, "stacks", "stacks alive while referenced");
    }
    VF_EQ(book->live_count(), 1, "stacks", "stacks alive while referenced");
    VF_EQ(p->use_count(), 1, "references", "use count");
    if (R.chance(50)) {
      VF_EQ(p->resume(), 0, "resume", "result");
      VF_EQ(p->get_ret_code(), 5, "ret", "return value");
    } else {
      VF_EQ(ran, 1, "segments", "segments executed");
    }
    if (ran == 1) p->resume();
    vf::tr(n);
    VF_COUNT_N("scale_references", n);
    vf::note("%zu references", n);
  }
  VF_EQ(ran, 2, "segments", "segments executed");
  VF_EQ(book->live_count(), 0, "stacks", "stacks alive at the end");
  VF_EQ(led.live.load(), 0, "callable", "payloads alive");
  vf::nontrivial();
}

VF_MODE(ptr) {
  using P = copp::util::intrusive_ptr<counted>;
  int dead = 0;
  size_t n = many(R, 200000);
  std::vector<P> v;
  {
    P a(new counted(&dead));
    v.assign(n, a);
    VF_EQ(a->use_count(), n + 1, "references", "use count");
  }
  if (R.chance(50)) {
    int nth = (int)R.range(2, 8);
    std::vector<std::thread> th;
    for (int t = 0; t < nth; ++t)
      th.emplace_back([&, t] {
        std::vector<P> mine;
        for (size_t i = (size_t)t; i < n; i += (size_t)nth) mine.push_back(v[i]);
        for (size_t i = (size_t)t; i < n; i += (size_t)nth) v[i].reset();
        if (t != 0) return;
        for (size_t i = 0; i < n; i += (size_t)nth) v[i] = std::move(mine[i / (size_t)nth]);
      });
    for (auto &t : th) t.join();
    size_t alive = 0;
    for (auto &p : v) alive += !!p;
    VF_EQ(v[0]->use_count(), alive, "references", "use count");
    VF_EQ(dead, 0, "destroyed", "destructions while referenced");
    v.clear();
  } else {
    auto o = shuffled(R, n);
    for (size_t k = 0; k + 1 < n; ++k) v[o[k]].reset();
    VF_EQ(dead, 0, "destroyed", "destructions while referenced");
    VF_EQ(v[o[n - 1]]->use_count(), 1, "references", "use count");
    v.clear();
  }
  VF_EQ(dead, 1, "destroyed", "destructions");
  vf::tr(n);
  VF_COUNT_N("scale_references", n);
  vf::note("%zu references", n);
  vf::nontrivial();
}
