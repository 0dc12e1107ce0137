// Large numbers: the C++20 part with hundreds or thousands of waiters, coroutines, members, continuations, tasks and timers.
// The other drivers explore many combinations of few objects; here the shapes are plain and the expected outcome of each is
// computed directly.
#include "lib.h"

#include <libcopp/coroutine/algorithm.h>
#include <libcopp/coroutine/callable_promise.h>
#include <libcopp/coroutine/generator_promise.h>
#include <libcotask/task.h>
#include <libcotask/task_manager.h>
#include <libcotask/task_promise.h>

#include <algorithm>
#include <deque>
#include <numeric>
#include <set>

namespace {
using u64 = uint64_t;
using PS = copp::promise_status;
constexpr int SI(PS s) { return static_cast<int>(s); }
vf::ledger LV, LL, LP;  // values, locals, private data

#if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__)
constexpr bool SAN = true;
#elif defined(__has_feature)
#  if __has_feature(address_sanitizer) || __has_feature(thread_sanitizer)
constexpr bool SAN = true;
#  else
constexpr bool SAN = false;
#  endif
#else
constexpr bool SAN = false;
#endif

size_t many(vf::rng &R, size_t max, size_t min = 1) {
  unsigned bits = 0;
  while ((size_t(1) << (bits + 1)) <= max) ++bits;
  size_t b = size_t(1) << R.below(bits + 1);
  size_t v = R.chance(25) ? b + R.below(3) - 1 : b + R.below(b);
  return std::max(min, std::min(v, max));
}
std::vector<size_t> shuffled(vf::rng &R, size_t n) {
  std::vector<size_t> v(n);
  std::iota(v.begin(), v.end(), size_t(0));
  for (size_t i = n; i > 1; --i) std::swap(v[i - 1], v[R.below(i)]);
  return v;
}

struct rv {
  vf::tv v;
  int st;
  rv() : v(&LV, 0), st(99) {}
  explicit rv(PS s) : v(&LV, 0), st(100 + SI(s)) {}
  explicit rv(u64 x) : v(&LV, x), st(0) {}
};
struct pv {
  vf::tv v;
  pv() : v(&LP, 7) {}
  explicit pv(u64 x) : v(&LP, x) {}
};
using c_r = copp::callable_future<rv>;
using c_v = copp::callable_future<void>;
using c_i = copp::callable_future<int64_t>;
using g_r = copp::generator_future<rv>;
using t_r = cotask::task_future<rv, pv>;

struct gate {
  using G = copp::generator_future<int64_t>;
  G g;
  std::shared_ptr<G::context_type> ctx;
  gate() : g([](G::context_pointer_type) {}) { ctx = g.get_context(); }
  void open() { ctx->set_value(1); }
};

struct rec {  // what a waiter saw
  int begun = 0, cont = 0, ended = 0, gone = 0;
  int err = 0;
  u64 val = 0;
  int status = 0;
  int killed = 0;  // with that status
};
struct frame {
  rec *r;
  vf::tv local;
  frame(rec *x, u64 id) : r(x), local(&LL, id) {}
  ~frame() { ++r->gone; }
};
void take(rec &r, rv &v) {
  ++r.cont;
  r.err = v.st;
  r.val = v.v.has() ? v.v.get() : ~u64(0);
}
// a waiter that ended with the value, exactly once
void got_value(const rec &r, u64 v, size_t i) {
  VF_CHECK(r.cont == 1 && r.ended == 1, "waiter-lost", "waiter %zu continued %d times and ended %d times", i, r.cont, r.ended);
  VF_CHECK(r.err == 0 && r.val == v, "value", "waiter %zu got %llu (error %d), expected %llu", i, (unsigned long long)r.val, r.err, (unsigned long long)v);
}
void clean() {
  VF_EQ(LV.live.load(), 0, "leak", "values alive");
  VF_EQ(LL.live.load(), 0, "leak", "locals alive");
  VF_EQ(LP.live.load(), 0, "leak", "private data alive");
}

c_r source(gate *g, rec *r, u64 v) {
  frame f(r, v);
  ++r->begun;
  if (g) co_await g->g;
  PS now = co_yield c_r::yield_status();
  r->status = SI(now);
  ++r->ended;
  co_return rv(v);
}
template <class F>
c_v waiter(F *f, rec *r, u64 id, gate *later) {
  frame fr(r, id);
  ++r->begun;
  {
    rv v = co_await *f;
    take(*r, v);
  }
  PS now = co_yield c_v::yield_status();
  r->status = SI(now);
  if (later && !r->killed) co_await later->g;
  ++r->ended;
  VF_EQ(fr.local.get(), id, "local-changed", "local of a waiter");
}
// nested calls, each frame owning the next
c_i nest(gate *g, size_t depth, std::deque<rec> *rs) {
  rec &r = (*rs)[depth];
  frame f(&r, depth);
  ++r.begun;
  int64_t x;
  if (depth == 0)
    x = co_await g->g;
  else
    x = co_await nest(g, depth - 1, rs);
  ++r.cont;
  PS now = co_yield c_i::yield_status();
  r.status = SI(now);
  VF_EQ(f.local.get(), depth, "local-changed", "local of a nested call");
  ++r.ended;
  co_return x > 0 ? x + 1 : x;
}
c_i loop(std::deque<gate> *gs, std::vector<unsigned char> *kind, size_t n, size_t *at, rec *r) {
  frame f(r, n);
  ++r->begun;
  int64_t sum = 0;
  for (size_t k = 0; k < n; ++k) {
    *at = k;
    if ((*kind)[k] == 0) {
      sum += co_await (*gs)[k].g;
    } else if ((*kind)[k] == 1) {
      rec x;
      rv v = co_await source(nullptr, &x, k);
      VF_CHECK(v.st == 0 && v.v.get() == k, "value", "call %zu", k);
      ++sum;
    } else {
      rec x;
      rv v = co_await source(&(*gs)[k], &x, k);
      VF_CHECK(v.st == 0 && v.v.get() == k, "value", "call %zu", k);
      ++sum;
    }
    PS now = co_yield c_i::yield_status();
    VF_CHECK(now < PS::kDone, "status", "status %d in a loop", SI(now));
  }
  *at = n;
  ++r->ended;
  co_return sum;
}

// kills some of the waiters which still wait; they continue at once with an error and the status
template <class W>
size_t kill_some(vf::rng &R, std::vector<std::unique_ptr<W>> &w, std::deque<rec> &rs, unsigned percent) {
  size_t n = 0;
  for (size_t i = 0; i < w.size(); ++i) {
    if (!w[i] || !R.chance(percent)) continue;
    PS st = R.chance(50) ? PS::kKilled : R.chance(50) ? PS::kCancle : PS::kTimeout;
    rs[i].killed = SI(st);
    VF_EQ(w[i]->kill(st), true, "kill", "result of kill");
    VF_CHECK(rs[i].cont == 1 && rs[i].ended == 1 && rs[i].status == SI(st), "killed-waiter", "killed waiter %zu: continued %d, ended %d, status %d", i, rs[i].cont,
             rs[i].ended, rs[i].status);
    VF_CHECK(rs[i].err >= 100, "killed-waiter", "killed waiter %zu got %llu (%d)", i, (unsigned long long)rs[i].val, rs[i].err);
    if (R.chance(50)) w[i].reset();
    ++n;
  }
  return n;
}
template <class W>
size_t drop_some(vf::rng &R, std::vector<std::unique_ptr<W>> &w, std::deque<rec> &rs, unsigned percent) {
  size_t n = 0;
  for (size_t i = 0; i < w.size(); ++i) {
    if (!w[i] || rs[i].killed || !R.chance(percent)) continue;
    rs[i].killed = SI(PS::kKilled);
    w[i].reset();
    VF_CHECK(rs[i].ended == 1 && rs[i].gone == 1, "dropped-waiter", "dropped waiter %zu: ended %d, destroyed %d", i, rs[i].ended, rs[i].gone);
    ++n;
  }
  return n;
}
void over(std::deque<rec> &rs, u64 v) {
  for (size_t i = 0; i < rs.size(); ++i)
    if (!rs[i].killed)
      got_value(rs[i], v, i);
    else
      VF_CHECK(rs[i].cont == 1 && rs[i].ended == 1, "waiter-twice", "killed waiter %zu: continued %d, ended %d", i, rs[i].cont, rs[i].ended);
}
void none_yet(std::deque<rec> &rs) {
  for (size_t i = 0; i < rs.size(); ++i)
    if (!rs[i].killed) VF_CHECK(rs[i].begun == 1 && rs[i].cont == 0, "too-early", "waiter %zu: begun %d, continued %d", i, rs[i].begun, rs[i].cont);
}
void all_gone(std::deque<rec> &rs) {
  for (size_t i = 0; i < rs.size(); ++i) VF_EQ(rs[i].gone, rs[i].begun, "frames", "frames destroyed");
}
}  // namespace

// ---- C17: many waiters, deep nesting, many calls one after the other
VF_MODE(call) {
  unsigned shape = (unsigned)R.below(3);
  size_t n = 0;
  if (shape == 0) {
    n = many(R, SAN ? 300 : 3000);
    gate g;
    rec src;
    u64 v = 1000 + R.below(1000);
    auto c = std::make_unique<c_r>(source(&g, &src, v));
    std::deque<rec> rs(n);
    std::vector<std::unique_ptr<c_v>> w;
    for (size_t i = 0; i < n; ++i) w.emplace_back(new c_v(waiter(c.get(), &rs[i], i, nullptr)));
    none_yet(rs);
    VF_EQ(src.ended, 0, "too-early", "source ended");
    size_t k = R.below(n);
    unsigned how = (unsigned)R.below(5);
    if (how <= 1) {
      g.open();
      VF_EQ(src.status, SI(PS::kRunning), "status", "status of the source");
    } else if (how == 2) {
      VF_EQ(c->kill(PS::kTimeout), true, "kill", "result of kill");
      VF_EQ(src.status, SI(PS::kTimeout), "status", "status of the source");
    } else {  // a waiter ends: what it waits for ends, too
      rs[k].killed = 1;
      if (how == 3) {
        VF_EQ(w[k]->kill(PS::kCancle), true, "kill", "result of kill");
        VF_EQ(src.status, SI(PS::kCancle), "status", "status of the source");
        VF_EQ(rs[k].status, SI(PS::kCancle), "status", "status of the killed waiter");
      } else {
        w[k].reset();
        VF_EQ(src.status, SI(PS::kKilled), "status", "status of the source");
        VF_EQ(rs[k].status, SI(PS::kKilled), "status", "status of the dropped waiter");
      }
    }
    VF_EQ(src.ended, 1, "ended", "ends of the source");
    over(rs, v);
    for (size_t i : shuffled(R, n)) w[i].reset();
    c.reset();
    VF_EQ(src.gone, 1, "frames", "source destroyed");
    all_gone(rs);
    VF_COUNT_N("scale_waiters", n);
    vf::tr(vf::mix64(n, k), how);
    vf::note("%zu waiters, %s", n, how <= 1 ? "finished" : how == 2 ? "killed" : "one killed or dropped");
  } else if (shape == 1) {
    n = many(R, SAN ? 250 : 2500);
    gate g;
    std::deque<rec> rs(n + 1);
    auto c = std::make_unique<c_i>(nest(&g, n, &rs));
    none_yet(rs);
    unsigned how = (unsigned)R.below(3);
    if (how == 0) {
      g.open();
      for (size_t i = 0; i <= n; ++i) VF_CHECK(rs[i].cont == 1 && rs[i].ended == 1, "lost", "nested call %zu: continued %d, ended %d", i, rs[i].cont, rs[i].ended);
      rec r;
      auto read = [&]() -> c_v {
        int64_t x = co_await *c;
        VF_EQ(x, (int64_t)n + 2, "value", "result of the nested calls");
        ++r.cont;
      };
      c_v rd = read();
      VF_EQ(r.cont, 1, "waits-for-ready", "reads of a finished call");
    } else if (how == 1) {
      VF_EQ(c->kill(PS::kCancle), true, "kill", "result of kill");
      VF_EQ(rs[n].status, SI(PS::kCancle), "status", "status of the outermost call");
    }
    c.reset();
    for (size_t i = 0; i <= n; ++i) VF_CHECK(rs[i].cont == 1 && rs[i].ended == 1 && rs[i].gone == 1, "lost", "nested call %zu: continued %d, ended %d, gone %d", i,
                                             rs[i].cont, rs[i].ended, rs[i].gone);
    VF_COUNT_N("scale_nested_calls", n);
    vf::tr(vf::mix64(n, how), 2);
    vf::note("%zu nested calls, %s", n, how == 0 ? "finished" : how == 1 ? "killed" : "dropped");
  } else {
    n = many(R, SAN ? 2000 : 20000);
    std::deque<gate> gs(n);
    std::vector<unsigned char> kind(n);
    unsigned pure = (unsigned)R.below(5);
    for (auto &k : kind) k = pure < 3 ? (unsigned char)pure : (unsigned char)R.below(3);
    size_t at = 0;
    rec r;
    auto order = R.chance(50);
    if (order)
      for (size_t k = 0; k < n; ++k)
        if (R.chance(30)) gs[k].open();
    std::vector<unsigned char> open(n);
    for (size_t k = 0; k < n; ++k) open[k] = gs[k].ctx->is_ready();
    auto c = std::make_unique<c_i>(loop(&gs, &kind, n, &at, &r));
    for (size_t k = 0; k < n; ++k) {
      size_t want = k;
      while (want < n && (kind[want] == 1 || open[want])) ++want;
      VF_EQ(at, want, "progress", "position in the loop");
      k = want;
      if (k >= n) break;
      gs[k].open();
      open[k] = 1;
      --k;
      if (at >= n) break;
    }
    VF_EQ(at, n, "progress", "position in the loop");
    VF_EQ(r.ended, 1, "ended", "ends of the loop");
    VF_EQ(SI(c->get_status()), SI(PS::kDone), "status", "status of the loop");
    c.reset();
    VF_EQ(r.gone, 1, "frames", "loop destroyed");
    VF_COUNT_N("scale_calls_in_a_row", n);
    vf::tr(vf::mix64(n, pure), 3);
    vf::note("%zu awaits in a row", n);
  }
  clean();
  vf::nontrivial();
}

// ---- C18: many waiters of one generator, many generators, many rounds, many handles
VF_MODE(gen) {
  unsigned shape = (unsigned)R.below(3);
  size_t n = 0;
  u64 suspends = 0, resumes = 0;
  auto on_suspend = [&suspends](g_r::context_pointer_type c) {
    VF_CHECK(!!c, "hook", "no context in the suspend hook");
    ++suspends;
  };
  auto on_resume = [&resumes](const g_r::context_type &) {
    ++resumes;
  };
  if (shape == 0) {
    n = many(R, SAN ? 300 : 3000);
    auto g = std::make_unique<g_r>(on_suspend, on_resume);
    auto ctx = g->get_context();
    size_t copies = R.chance(10) ? R.range(65000, 140000) : many(R, 2000);
    std::vector<g_r> more;
    for (size_t k = 0; k < copies; ++k) more.push_back(static_cast<const g_r &>(*g));
    std::deque<rec> rs(n);
    std::vector<std::unique_ptr<c_v>> w;
    for (size_t i = 0; i < n; ++i) w.emplace_back(new c_v(waiter(R.chance(50) ? g.get() : &more[R.below(copies)], &rs[i], i, nullptr)));
    none_yet(rs);
    VF_EQ(suspends, n, "hook", "suspend hooks run");
    size_t k = 0;
    if (R.chance(60)) k += kill_some(R, w, rs, (unsigned)R.below(100));
    if (R.chance(60)) k += drop_some(R, w, rs, (unsigned)R.below(100));
    none_yet(rs);
    VF_EQ(ctx->is_ready(), false, "state", "ready");
    u64 v = R.below(100000);
    bool by_drop = R.chance(20);
    if (!by_drop) {
      ctx->set_value(rv(v));
      over(rs, v);
      VF_EQ(resumes, n, "hook", "resume hooks run");
      VF_EQ(ctx->is_ready(), true, "state", "ready");
    } else {
      g.reset();
      ctx.reset();
      size_t left = copies;
      for (size_t i : shuffled(R, copies)) {
        if (--left % (copies / 500 + 1) == 0) none_yet(rs);
        g_r x = std::move(more[i]);
      }
      for (size_t i = 0; i < n; ++i) {
        VF_CHECK(rs[i].cont == 1 && rs[i].ended == 1, "waiter-lost", "waiter %zu continued %d times and ended %d times", i, rs[i].cont, rs[i].ended);
        if (!rs[i].killed) VF_EQ(rs[i].err, 100 + SI(PS::kKilled), "value", "what a waiter of a dropped generator got");
      }
      VF_EQ(resumes, n, "hook", "resume hooks run");
    }
    for (size_t i : shuffled(R, n)) w[i].reset();
    all_gone(rs);
    g.reset();
    VF_COUNT_N("scale_waiters", n);
    vf::tr(vf::mix64(n, k), by_drop);
    vf::note("%zu waiters, %zu handles, %zu killed or dropped", n, copies, k);
  } else if (shape == 1) {
    n = many(R, SAN ? 300 : 3000);
    std::deque<std::unique_ptr<g_r>> gs;
    for (size_t i = 0; i < n; ++i) gs.emplace_back(new g_r(on_suspend, on_resume));
    std::vector<unsigned char> is(n, 0);
    rec r;
    size_t at = 0;
    auto body = [&]() -> c_v {
      frame f(&r, n);
      for (size_t i = 0; i < n; ++i) {
        at = i;
        rv v = co_await *gs[i];
        VF_CHECK(v.st == 0 && v.v.get() == i * 7 && is[i], "value", "value of generator %zu", i);
      }
      at = n;
      ++r.ended;
    };
    c_v c = body();
    size_t blocks = 0;
    auto order = R.chance(50) ? shuffled(R, n) : std::vector<size_t>();
    if (order.empty()) {
      order.resize(n);
      std::iota(order.begin(), order.end(), size_t(0));
    }
    size_t want = 0;
    for (size_t i : order) {
      VF_EQ(at, want, "progress", "position of the body");
      is[i] = 1;
      blocks += i == want;
      while (want < n && is[want]) ++want;
      gs[i]->get_context()->set_value(rv(i * 7));
    }
    VF_EQ(at, n, "progress", "position of the body");
    VF_EQ(suspends, blocks, "hook", "suspend hooks run");
    VF_EQ(r.ended, 1, "ended", "ends of the body");
    VF_COUNT_N("scale_generators", n);
    vf::tr(n, 7);
    vf::note("%zu generators", n);
  } else {
    n = many(R, SAN ? 3000 : 30000);
    g_r g(on_suspend, on_resume);
    auto ctx = g.get_context();
    u64 sum = 0, want = 0;
    size_t rounds = 0;
    bool stop = false;
    auto body = [&]() -> c_v {
      while (!stop) {
        rv v = co_await g;
        if (v.st) break;
        sum += v.v.get();
        ++rounds;
        ctx->reset_value();
      }
    };
    c_v c = body();
    for (size_t k = 0; k < n; ++k) {
      u64 v = R.below(1000);
      want += v;
      ctx->set_value(rv(v));
      VF_CHECK(rounds == k + 1 && sum == want, "rounds", "%zu rounds, sum %llu", rounds, (unsigned long long)sum);
    }
    VF_CHECK(suspends == n + 1 && resumes == n, "hook", "%llu suspend hooks and %llu resume hooks in %zu rounds", (unsigned long long)suspends, (unsigned long long)resumes, n);
    VF_EQ(c.kill(), true, "kill", "kill");
    VF_EQ(SI(c.get_status()), SI(PS::kKilled), "status", "status of the body");
    VF_COUNT_N("scale_rounds", n);
    vf::tr(n, 8);
    vf::note("%zu rounds", n);
  }
  clean();
  vf::nontrivial();
}

namespace {
t_r tbody(gate *g, rec *r, u64 v) {
  frame f(r, v);
  ++r->begun;
  co_await g->g;
  PS now = co_yield t_r::yield_status();
  r->status = SI(now);
  ++r->ended;
  co_return rv(v);
}
}  // namespace

// ---- C19: many waiters, continuations and handles of one task; many tasks
VF_MODE(ctask) {
  size_t n = many(R, SAN ? 200 : 2000);
  unsigned shape = (unsigned)R.below(3);
  gate g;
  rec src;
  u64 v = 1 + R.below(100000);
  auto t = std::make_unique<t_r>(tbody(&g, &src, v));
  VF_EQ(src.begun, 0, "too-early", "a task began before its start");
  size_t copies = R.chance(10) ? R.range(65000, 140000) : many(R, 3000);
  std::vector<t_r> more(copies, *t);
  u64 id = t->get_id();
  for (size_t k = 0; k < 5; ++k) VF_EQ(more[R.below(copies)].get_id(), id, "id", "id of a copy");
  std::deque<rec> rs(n);
  bool before = R.chance(50);
  if (!before) VF_EQ(t->start(), true, "start", "start");
  size_t k = 0;
  if (shape == 0) {  // waiters
    std::vector<std::unique_ptr<c_v>> w;
    for (size_t i = 0; i < n; ++i) w.emplace_back(new c_v(waiter(R.chance(50) ? t.get() : &more[R.below(copies)], &rs[i], i, nullptr)));
    none_yet(rs);
    if (R.chance(60)) k += kill_some(R, w, rs, (unsigned)R.below(100));
    if (R.chance(60)) k += drop_some(R, w, rs, (unsigned)R.below(100));
    if (before && src.begun == 0) VF_EQ(t->start(), true, "start", "start");
    none_yet(rs);
    VF_CHECK(src.begun == 1 && src.ended == 0, "progress", "the task began %d times and ended %d times", src.begun, src.ended);
    if (R.chance(75)) {
      g.open();
      VF_EQ(src.status, SI(PS::kRunning), "status", "status of the task");
    } else {
      VF_EQ(t->kill(PS::kCancle), true, "kill", "kill");
      VF_EQ(src.status, SI(PS::kCancle), "status", "status of the task");
    }
    VF_EQ(src.ended, 1, "ended", "ends of the task");
    over(rs, v);
    for (size_t i : shuffled(R, n)) w[i].reset();
    VF_COUNT_N("scale_waiters", n);
  } else if (shape == 1) {  // continuations
    std::vector<std::unique_ptr<c_r>> cs;
    std::vector<std::unique_ptr<t_r>> ts;
    for (size_t i = 0; i < n; ++i) {
      if (R.chance(50)) {
        cs.emplace_back(new c_r(t->then([&rs, i, id](auto &&c, auto &&x) -> rv {
          VF_EQ(c->get_id(), id, "then-context", "id of the task");
          ++rs[i].begun;
          take(rs[i], x);
          ++rs[i].ended;
          return rv(rs[i].val + i);
        })));
      } else {
        ts.emplace_back(new t_r(more[R.below(copies)].then(
            [&rs, i, id](auto &&c, auto &&x) -> rv {
              VF_EQ(c->get_id(), id, "then-context", "id of the task");
              ++rs[i].begun;
              take(rs[i], x);
              ++rs[i].ended;
              return rv(rs[i].val + i);
            },
            pv(i))));
      }
    }
    for (size_t i = 0; i < n; ++i) VF_EQ(rs[i].begun, 0, "too-early", "continuation begun");
    // handles of the first task go, the continuations keep it
    more.clear();
    if (before && !R.chance(50)) VF_EQ(t->start(), true, "start", "start");
    if (src.begun && R.chance(40)) t.reset();
    VF_EQ(src.gone, 0, "frames", "the task its continuations wait for is gone");
    g.open();
    if (t && src.begun == 0) VF_EQ(t->start(), true, "start", "start");
    VF_EQ(src.ended, 1, "ended", "ends of the task");
    for (auto &x : ts)
      if (x->get_status() == PS::kCreated) x->start();
    for (size_t i = 0; i < n; ++i) got_value(rs[i], v, i);
    for (auto &x : ts) VF_EQ(SI(x->get_status()), SI(PS::kDone), "status", "status of a continuation");
    for (auto &x : cs) VF_EQ(SI(x->get_status()), SI(PS::kDone), "status", "status of a continuation");
    VF_COUNT_N("scale_continuations", n);
    cs.clear();
    ts.clear();
  } else {  // a chain of tasks, each waiting for the one before
    std::vector<std::unique_ptr<t_r>> ts;
    auto next = [&](size_t i, t_r pred) -> t_r {
      rec *r = &rs[i];
      u64 me = i;
      auto make = [](t_r p, rec *rr, u64 who) -> t_r {
        frame f(rr, who);
        ++rr->begun;
        rv x = co_await p;
        take(*rr, x);
        ++rr->ended;
        co_return rv(rr->val + 1);
      };
      return make(std::move(pred), r, me);
    };
    if (before) VF_EQ(t->start(), true, "start", "start");
    for (size_t i = 0; i < n; ++i) {
      ts.emplace_back(new t_r(next(i, i ? *ts[i - 1] : *t)));
      VF_EQ(rs[i].begun, 0, "too-early", "a task began before its start");
    }
    for (size_t i : shuffled(R, n)) {
      bool was = rs[i].begun;
      VF_EQ(ts[i]->start(), !was, "start", "start of a task");
    }
    none_yet(rs);
    if (R.chance(50)) ts.erase(ts.begin(), ts.end() - 1);
    more.clear();
    t.reset();
    VF_EQ(src.ended, 0, "too-early", "ends of the first task");
    g.open();
    VF_EQ(src.ended, 1, "ended", "ends of the first task");
    for (size_t i = 0; i < n; ++i) got_value(rs[i], v + i, i);
    VF_COUNT_N("scale_tasks_in_a_chain", n);
  }
  more.clear();
  t.reset();
  VF_CHECK(src.begun == src.gone, "frames", "the task began %d times and was destroyed %d times", src.begun, src.gone);
  clean();
  vf::tr(vf::mix64(n, shape), k);
  vf::note("%zu %s", n, shape == 0 ? "waiters of a task" : shape == 1 ? "continuations" : "tasks in a chain");
  vf::nontrivial();
}

// ---- C20: many members
namespace {
template <class F>
void some_case(vf::rng &R, size_t n, std::vector<F *> mem, std::function<void(size_t)> ready, std::function<bool(size_t)> is) {
  using out_t = typename copp::some_ready<F>::type;
  out_t out;
  unsigned api = (unsigned)R.below(3);
  size_t want = api == 0 ? 1 : api == 1 ? n : R.chance(50) ? many(R, n) : n + R.below(3);
  size_t need = std::min(want, n), now = 0;
  for (size_t i = 0; i < n; ++i) now += is(i);
  std::vector<std::reference_wrapper<F>> v;
  std::vector<copp::gsl::not_null<F *>> q;
  for (auto *f : mem) {
    v.push_back(std::ref(*f));
    q.push_back(copp::gsl::make_not_null(f));
  }
  using c_s = copp::callable_future<PS>;
  auto make = [&](auto &set) -> c_s {
    if (api == 0) return copp::any(out, set);
    if (api == 1) return copp::all(out, set);
    return copp::some(out, want, set);
  };
  auto s = std::make_unique<c_s>(R.chance(50) ? make(v) : make(q));
  int cont = 0, st = -1;
  auto wait = [&]() -> c_v {
    PS x = co_await *s;
    ++cont;
    st = SI(x);
  };
  auto w = std::make_unique<c_v>(wait());
  auto ended = [&](size_t have) {
    VF_EQ(cont, 1, "some-lost", "continuations of the wait");
    VF_EQ(st, SI(PS::kDone), "some-status", "result of the wait");
    std::set<F *> g;
    for (auto &x : out) {
      F *f = x;
      VF_CHECK(g.insert(f).second, "some-output", "a member twice");
    }
    VF_EQ(g.size(), have, "some-output", "members reported");
    for (size_t i = 0; i < n; ++i) VF_EQ(g.count(mem[i]), is(i), "some-output", "member reported");
  };
  bool kill = R.chance(15), over = now >= need;
  size_t stop = R.below(n + 1);
  if (over) ended(now);
  for (size_t i : shuffled(R, n)) {
    if (is(i)) continue;
    if (!over) VF_EQ(cont, 0, "some-early", "continuations of the wait");
    if (kill && !over && stop-- == 0) {
      VF_EQ(s->kill(PS::kCancle), true, "kill", "kill");
      VF_CHECK(cont == 1, "some-lost", "killed wait: continuations %d", cont);
      over = true;
      VF_COUNT("scale_waits_killed");
    }
    ready(i);
    ++now;
    if (!over && now >= need) {
      over = true;
      ended(now);
    }
  }
  VF_EQ(cont, 1, "some-lost", "continuations of the wait");
  s.reset();
  w.reset();
  VF_COUNT_N("scale_members", n);
  vf::tr(vf::mix64(n, want), api);
}
}  // namespace
VF_MODE(some) {
  size_t n = many(R, SAN ? 120 : 800);
  unsigned pre = R.chance(50) ? (unsigned)R.below(100) : 0;
  unsigned kind = (unsigned)R.below(3);
  if (kind == 0) {
    std::deque<g_r> gs;
    std::vector<g_r *> mem;
    for (size_t i = 0; i < n; ++i) {
      gs.emplace_back([](g_r::context_pointer_type) {});
      mem.push_back(&gs.back());
      if (R.chance(pre)) gs[i].get_context()->set_value(rv(i));
    }
    some_case<g_r>(R, n, mem, [&](size_t i) { gs[i].get_context()->set_value(rv(i)); }, [&](size_t i) { return gs[i].is_ready(); });
  } else if (kind == 1) {
    std::deque<gate> g(n);
    std::deque<rec> rs(n);
    std::deque<c_r> cs;
    std::vector<c_r *> mem;
    for (size_t i = 0; i < n; ++i) {
      cs.push_back(source(&g[i], &rs[i], i));
      mem.push_back(&cs.back());
      if (R.chance(pre)) g[i].open();
    }
    some_case<c_r>(R, n, mem, [&](size_t i) { g[i].open(); }, [&](size_t i) { return rs[i].ended != 0; });
    cs.clear();
    all_gone(rs);
  } else {
    std::deque<gate> g(n);
    std::deque<rec> rs(n);
    std::deque<t_r> ts;
    std::vector<t_r *> mem;
    for (size_t i = 0; i < n; ++i) {
      ts.push_back(tbody(&g[i], &rs[i], i));
      mem.push_back(&ts.back());
      if (R.chance(pre)) g[i].open();
      if (R.chance(80)) ts[i].start();
    }
    std::vector<unsigned char> begun(n);
    some_case<t_r>(
        R, n, mem,
        [&](size_t i) {
          if (!rs[i].begun) ts[i].start();
          if (!rs[i].ended) g[i].open();
        },
        [&](size_t i) { return rs[i].ended != 0; });
    ts.clear();
    all_gone(rs);
  }
  clean();
  vf::note("%zu members", n);
  vf::nontrivial();
}

// ---- C21: many tasks and timers in one manager
VF_MODE(cmgr) {
  using mgr_t = cotask::task_manager<t_r>;
  size_t n = many(R, SAN ? 200 : 2000);
  constexpr int64_t G = 1000000000;
  struct T {
    std::unique_ptr<t_r> h;
    u64 id = 0;
    bool in = true, timed = false;
    __int128 at = 0;
    gate g;
    rec r;
  };
  std::deque<T> t(n);
  auto m = mgr_t::create();
  __int128 now = R.chance(30) ? 0 : (__int128)(1 + R.below(2000000000)) * G + (int64_t)R.below(G);
  if (now) VF_EQ(m->tick((int64_t)(now / G), (int)(now % G)), 0, "tick", "first tick");
  std::vector<int64_t> dl;
  for (size_t k = many(R, 40); k; --k) {
    int64_t sec = R.chance(15) ? (int64_t)many(R, size_t(1) << 30) : (int64_t)R.below(300);
    int64_t nsec = R.chance(40) ? 0 : R.chance(50) ? (int64_t)R.below(3) : G - 1 - (int64_t)R.below(3);
    dl.push_back(sec * G + nsec);
  }
  size_t inside = 0, timers = 0;
  for (size_t i = 0; i < n; ++i) {
    T &x = t[i];
    x.h = std::make_unique<t_r>(tbody(&x.g, &x.r, i));
    x.id = x.h->get_id();
    int64_t d = R.chance(30) ? 0 : dl[R.below(dl.size())];
    if (d)
      VF_EQ(m->add_task(*x.h, d / G, (int)(d % G)), 0, "add", "add_task");
    else
      VF_EQ(m->add_task(*x.h), 0, "add", "add_task");
    if (d) {
      x.timed = true;
      x.at = now + d;
      ++timers;
    }
    ++inside;
    if (R.chance(40)) x.h.reset();
  }
  auto counts = [&](const char *when) {
    VF_CHECK(m->get_task_size() == inside && m->get_tick_checkpoint_size() == timers, "counts", "%s: %zu tasks and %zu timers, expected %zu and %zu", when,
             m->get_task_size(), m->get_tick_checkpoint_size(), inside, timers);
  };
  auto left = [&](T &x, PS st, size_t i) {
    if (x.r.begun)
      VF_CHECK(x.r.begun == 1 && x.r.ended == 1 && x.r.status == SI(st), "end", "task %zu ended %d times with status %d, expected %d", i, x.r.ended, x.r.status, SI(st));
    x.in = false;
    --inside;
    timers -= x.timed;
  };
  counts("added");
  for (size_t i : shuffled(R, n)) {
    T &x = t[i];
    {
      auto *f = m->find_task(x.id);
      VF_CHECK(f, "find", "task %zu is not there", i);
      VF_EQ(f->get_id(), x.id, "find", "id of a task found");
      if (x.h && R.chance(20)) VF_EQ(m->add_task(*x.h), copp::COPP_EC_ALREADY_EXIST, "add", "add_task again");
    }
    if (R.chance(90)) {
      VF_EQ(m->start(x.id), 0, "start", "start of a task");
      VF_EQ(x.r.begun, 1, "start", "begun");
    }
    if (R.chance(20)) {
      int64_t d = R.chance(30) ? 0 : dl[R.below(dl.size())];
      VF_EQ(m->set_timeout(x.id, d / G, (int)(d % G)), 0, "retime", "set_timeout");
      timers -= x.timed;
      x.timed = d != 0;
      timers += x.timed;
      x.at = now + d;
    }
  }
  counts("started");
  for (size_t i = 0; i < n; ++i) {
    T &x = t[i];
    if (R.chance(70) || !x.r.begun) continue;
    unsigned k = (unsigned)R.below(4);
    if (k == 0) {
      VF_EQ(m->kill(x.id), 0, "kill", "kill");
      left(x, PS::kKilled, i);
    } else if (k == 1) {
      VF_EQ(m->cancel(x.id), 0, "cancel", "cancel");
      left(x, PS::kCancle, i);
    } else if (k == 2) {
      VF_EQ(m->remove_task(x.id), 0, "remove", "remove_task");
      left(x, PS::kKilled, i);
    } else {
      x.g.open();
      left(x, PS::kRunning, i);
    }
    VF_EQ(m->kill(x.id), copp::COPP_EC_NOT_FOUND, "kill", "kill of a task not in the manager");
  }
  counts("some ended");
  bool first = now == 0;
  u64 total = 0;
  for (int step = 0; step < 12 && R.chance(93); ++step) {
    __int128 to;
    if (first)
      to = (__int128)(1 + R.below(2000000000)) * G + (int64_t)R.below(G);
    else if (R.chance(70) && timers) {
      std::vector<__int128> at;
      for (auto &x : t)
        if (x.in && x.timed) at.push_back(x.at);
      to = at[R.below(at.size())] + R.range(-1, 1);
    } else
      to = now + (__int128)many(R, size_t(1) << 40);
    if (to < now) to = now;
    if (!first && timers) {
      __int128 lo = 0;
      for (auto &x : t)
        if (x.in && x.timed && (!lo || x.at < lo)) lo = x.at;
      auto cp = m->get_checkpoints().begin()->expired_time;
      VF_CHECK((__int128)cp.tv_sec * G + cp.tv_nsec == lo, "earliest", "earliest deadline");
    }
    VF_EQ(m->tick((int64_t)(to / G), (int)(to % G)), 0, "tick", "tick");
    if (first) {
      for (auto &x : t)
        if (x.timed) x.at += to;
      first = false;
    }
    now = to;
    for (size_t i = 0; i < n; ++i) {
      T &x = t[i];
      if (!x.in) continue;
      if (!x.timed || x.at >= now) {
        VF_EQ(x.r.ended, 0, "early", "ends of a task whose time has not come");
        continue;
      }
      ++total;
      left(x, PS::kTimeout, i);
    }
    counts("ticked");
  }
  if (R.chance(50)) {
    m->reset();
    inside = timers = 0;
    counts("reset");
    for (size_t i = 0; i < n; ++i)
      if (t[i].in && t[i].r.begun) VF_CHECK(t[i].r.ended == 1 && t[i].r.status == SI(PS::kKilled), "reset", "task %zu ended %d times with status %d", i, t[i].r.ended, t[i].r.status);
  }
  m.reset();
  for (size_t i = 0; i < n; ++i) {
    T &x = t[i];
    if (x.r.begun) VF_EQ(x.r.ended, 1, "end", "ends of a task");
    x.h.reset();
    VF_EQ(x.r.gone, x.r.begun, "frames", "frames destroyed");
    VF_CHECK(x.r.ended <= 1, "end", "ended %d times", x.r.ended);
  }
  clean();
  vf::tr(vf::mix64(n, total), (u64)dl.size());
  VF_COUNT_N("scale_tasks_in_manager", n);
  VF_COUNT_N("scale_timers_fired", total);
  vf::note("%zu tasks with %zu different deadlines, %llu fired", n, dl.size(), (unsigned long long)total);
  vf::nontrivial();
}

// ---- C24: many C++20 waiters of one stackful task, and one waiter of many tasks
namespace {
struct macro {
  using stack_allocator_type = vf::talloc;
  using coroutine_type = copp::coroutine_context_container<vf::talloc>;
  using value_type = int;
};
using s_t = cotask::task<macro>;
using s_p = s_t::ptr_type;
c_v swaiter(s_p p, rec *r, u64 id) {
  frame f(r, id);
  ++r->begun;
  int rc;
  if (id & 1)
    rc = co_await *p;
  else
    rc = co_await p;
  ++r->cont;
  r->err = rc;
  PS now = co_yield c_v::yield_status();
  r->status = SI(now);
  ++r->ended;
  VF_EQ(f.local.get(), id, "local-changed", "local of a waiter");
}
}  // namespace
VF_MODE(wait) {
  auto book = std::make_shared<vf::stack_book>();
  vf::talloc al(book);
  constexpr size_t STACK = 512 * 1024;
  size_t n = many(R, SAN ? 200 : 2000);
  unsigned how = (unsigned)R.below(5), k = 0;
  int ret = (int)R.below(1000);
  if (R.chance(70)) {
    std::deque<rec> rs(n);
    s_p p = s_t::create([&](void *) -> int {
      s_t::this_task()->yield(nullptr);
      return ret;
    }, al, STACK);
    bool early = R.chance(50);
    if (!early) VF_EQ(p->start(), 0, "drive", "start");
    std::vector<std::unique_ptr<c_v>> w;
    for (size_t i = 0; i < n; ++i) w.emplace_back(new c_v(swaiter(p, &rs[i], i)));
    none_yet(rs);
    auto ends = [&](size_t i, int st) {
      VF_CHECK(rs[i].cont == 1 && rs[i].ended == 1 && rs[i].err == copp::COPP_EC_TASK_IS_KILLED && rs[i].status == st, "killed-waiter",
               "killed waiter %zu: continued %d, ended %d, result %d, status %d", i, rs[i].cont, rs[i].ended, rs[i].err, rs[i].status);
      ++k;
    };
    unsigned percent = R.chance(60) ? (unsigned)R.below(100) : 0;
    for (size_t i : shuffled(R, n)) {
      if (!R.chance(percent)) continue;
      rs[i].killed = 1;
      if (R.chance(50)) {
        VF_EQ(w[i]->kill(PS::kTimeout), true, "kill", "kill");
        ends(i, SI(PS::kTimeout));
      } else {
        w[i].reset();
        ends(i, SI(PS::kKilled));
      }
    }
    if (early) VF_EQ(p->start(), 0, "drive", "start");
    none_yet(rs);
    int want = ret;
    if (how <= 1)
      VF_EQ(p->resume(), 0, "drive", "resume");
    else {
      want = copp::COPP_EC_TASK_IS_EXITING;
      VF_EQ(how == 2 ? p->kill() : how == 3 ? p->cancel() : p->kill(cotask::EN_TS_TIMEOUT), 0, "drive", "kill");
    }
    for (size_t i = 0; i < n; ++i) {
      VF_CHECK(rs[i].cont == 1 && rs[i].ended == 1, "waiter-lost", "waiter %zu continued %d times and ended %d times", i, rs[i].cont, rs[i].ended);
      if (!rs[i].killed) VF_EQ(rs[i].err, want, "value", "result of a wait");
    }
    w.clear();
    all_gone(rs);
    VF_EQ(p->use_count(), 1, "references", "use count");
    VF_COUNT_N("scale_waiters", n);
  } else {
    n = std::min<size_t>(n, SAN ? 100 : 400);
    std::vector<s_p> ps;
    for (size_t i = 0; i < n; ++i)
      ps.push_back(s_t::create([i](void *) -> int {
        if (i % 3) s_t::this_task()->yield(nullptr);
        return (int)i;
      }, al, STACK));
    size_t at = 0, done = 0;
    auto body = [&]() -> c_v {
      for (size_t i = 0; i < n; ++i) {
        at = i;
        int rc = co_await ps[i];
        VF_EQ(rc, (int)i, "value", "result of a wait");
      }
      at = n;
      ++done;
    };
    c_v c = body();
    std::vector<unsigned char> is(n, 0);
    auto o = shuffled(R, n);
    size_t want = 0;
    for (size_t i : o) {
      VF_EQ(ps[i]->start(), 0, "drive", "start");
      if (i % 3 == 0) {
        is[i] = 1;
        while (want < n && is[want]) ++want;
      }
      VF_EQ(at, want, "progress", "position of the waiter");
    }
    for (size_t i : shuffled(R, n)) {
      if (i % 3 == 0) continue;
      VF_EQ(ps[i]->resume(), 0, "drive", "resume");
      is[i] = 1;
      while (want < n && is[want]) ++want;
      VF_EQ(at, want, "progress", "position of the waiter");
    }
    VF_EQ(done, 1, "ended", "ends of the waiter");
    VF_COUNT_N("scale_tasks_awaited", n);
  }
  VF_EQ(book->live_count(), 0, "stacks", "stacks alive at the end");
  clean();
  vf::tr(vf::mix64(n, how), k);
  vf::note("%zu waiters or tasks", n);
  vf::nontrivial();
}
