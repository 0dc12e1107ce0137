// C24: C++20 coroutines that wait for stackful tasks.
// Stackful tasks with several segments, C++20 callables and tasks that wait for them (directly or through another callable);
// whoever runs starts, resumes, kills, cancels, times out, awaits and drops the others. Every co_await is observed by a
// probe: whether it suspended, when it continued, why, and with which result.
#include "lib.h"

#include <libcopp/coroutine/callable_promise.h>
#include <libcotask/task.h>
#include <libcotask/task_manager.h>
#include <libcotask/task_promise.h>

#include <algorithm>
#include <coroutine>
#include <deque>
#include <optional>

namespace {
using u64 = uint64_t;
using PS = copp::promise_status;
constexpr int SI(PS s) { return static_cast<int>(s); }
constexpr int IS_KILLED = copp::COPP_EC_TASK_IS_KILLED, IS_EXITING = copp::COPP_EC_TASK_IS_EXITING, NOT_INITED = copp::COPP_EC_NOT_INITED;

vf::ledger LL, LA;

struct macro {
  using stack_allocator_type = vf::talloc;
  using coroutine_type = copp::coroutine_context_container<vf::talloc>;
  using value_type = int;
};
using task_t = cotask::task<macro>;
using task_p = task_t::ptr_type;
using mgr_t = cotask::task_manager<task_t>;
using call_t = copp::callable_future<int>;
using ctask_t = cotask::task_future<int, void>;

struct world {
  struct S {  // stackful task
    int id = 0;
    u64 script = 0;
    int segs = 0, ret = 0;
    bool begun = false, ended = false, destroyed = false;
    int active = 0;
    bool killed = false;        // an end other than its own was accepted
    bool may_be_ended = false;  // by a tick, a manager that goes, or the drop of the last reference
  };
  struct W {  // C++20 waiter
    int id = 0;
    u64 script = 0;
    bool begun = false, ended = false, killed = false;
    int active = 0;
    W *child = nullptr;
    // the wait in progress
    S *s = nullptr;
    bool suspended = false;
    u64 waits = 0, conts = 0;
  };
  struct wh {
    W *w;
    std::unique_ptr<call_t> c;
    std::unique_ptr<ctask_t> t;
  };

  vf::rng &R;
  std::shared_ptr<vf::stack_book> book = std::make_shared<vf::stack_book>();
  std::deque<std::unique_ptr<S>> ss;
  std::vector<std::pair<S *, task_p>> slots;
  std::deque<std::unique_ptr<W>> ws;
  std::vector<std::unique_ptr<wh>> hs;
  mgr_t::ptr_type mgr;
  int64_t now = 1;
  int budget = 0, depth = 0, max_depth = 0;
  u64 events = 0;
  size_t stack_size;

  explicit world(vf::rng &r) : R(r), stack_size(512 * 1024) {}

  void ev(const char *what, u64 a, u64 b = 0) {
    ++events;
    vf::tr(vf::mix64(static_cast<u64>(what[0]) * 131 + static_cast<u64>(what[1]), a), b);
    if (vf::g_verbose) fprintf(stderr, "  %*s%s %llu %llu\n", depth * 2, "", what, (unsigned long long)a, (unsigned long long)b);
  }
  void in(int &active) {
    ++active;
    ++depth;
    max_depth = std::max(depth, max_depth);
    vf::beat();
  }
  void out(int &active) {
    --active;
    --depth;
  }

  // ---- stackful side
  struct token {  // what the action owns
    world *w;
    S *s;
    vf::tv v;
    token(world *ww, S *si) : w(ww), s(si), v(&LA, static_cast<u64>(si->id)) {}
    ~token() {
      VF_CHECK(v.get() == static_cast<u64>(s->id), "action-corrupt", "the action of task %d is damaged", s->id);
      VF_CHECK(!s->destroyed, "action-destroyed-twice", "task %d", s->id);
      VF_CHECK(!s->active, "action-destroyed-running", "task %d", s->id);
      s->destroyed = true;
      w->ev("gone", static_cast<u64>(s->id));
    }
  };
  int body(S *s) {
    VF_CHECK(!s->begun, "body-ran-twice", "the body of stackful task %d", s->id);
    s->begun = true;
    in(s->active);
    ev("begin", static_cast<u64>(s->id));
    {
      vf::tv local(&LL, static_cast<u64>(s->id));
      vf::rng r(s->script);
      auto *me = cotask::this_task::get<task_t>();
      for (int i = 0; i < s->segs; ++i) {
        act();
        if (r.chance(15) && me->is_exiting()) break;
        ev("yield", static_cast<u64>(s->id));
        out(s->active);
        me->yield();
        in(s->active);
        ev("again", static_cast<u64>(s->id));
        VF_CHECK(local.get() == static_cast<u64>(s->id), "stack-corrupt", "locals of task %d are damaged", s->id);
      }
      act();
    }
    VF_CHECK(!s->ended, "body-ended-twice", "task %d", s->id);
    s->ended = true;
    ev("end", static_cast<u64>(s->id));
    out(s->active);
    return s->ret;
  }
  void make_task() {
    ss.push_back(std::make_unique<S>());
    S *s = ss.back().get();
    s->id = static_cast<int>(ss.size()) - 1;
    s->script = R.next();
    s->segs = static_cast<int>(R.below(4));
    s->ret = R.chance(20) ? 0 : static_cast<int>(R.range(1, 1000));
    auto tk = std::make_shared<token>(this, s);
    vf::talloc al{book};
    task_p p = task_t::create([this, s, tk]() { return body(s); }, al, stack_size);
    VF_CHECK(p, "harness", "task creation");
    slots.emplace_back(s, p);
    ev("make", static_cast<u64>(s->id), static_cast<u64>(s->segs));
  }
  std::pair<S *, task_p> pick_task() {
    if (slots.empty()) return {nullptr, nullptr};
    return slots[R.below(slots.size())];
  }

  // ---- the waits
  template <class A>
  struct probe {
    world *w;
    W *me;
    S *s;
    task_t *raw;
    A a;
    bool ready = false, suspended = false;
    u64 at = 0;
    bool killed_before = false;
    bool await_ready() noexcept {
      bool exiting = !raw || raw->is_exiting();
      killed_before = me->killed;
      ++me->waits;
      bool r = a.await_ready();
      if (exiting) VF_CHECK(r, "suspended-for-ended", "waiter %d would wait for task %d, which has status %d", me->id, s ? s->id : -1, raw ? (int)raw->get_status() : -1);
      at = w->events;
      if (r)
        VF_CHECK(exiting, "did-not-wait", "waiter %d goes on although task %d is not over", me->id, s ? s->id : -1);
      return ready = r;
    }
    template <class PR>
    auto await_suspend(std::coroutine_handle<PR> h) {
      suspended = true;
      me->suspended = true;
      me->s = s;
      w->out(me->active);
      w->ev("wait", static_cast<u64>(me->id), static_cast<u64>(s ? s->id : 99));
      at = w->events;
      return a.await_suspend(h);  // nothing of this object may be used afterwards
    }
    int await_resume() {
      if (suspended) {
        VF_CHECK(me->suspended && me->s == s, "continued-twice", "waiter %d", me->id);
        me->suspended = false;
        me->s = nullptr;
        w->in(me->active);
      }
      ++me->conts;
      VF_EQ(me->conts, me->waits, "continued-twice", "continuations of a waiter");
      int st = raw ? static_cast<int>(raw->get_status()) : -1;
      size_t refs = raw ? raw->use_count() : 0;
      bool s_ended = s && s->ended;
      u64 e = w->events;
      w->ev("continue", static_cast<u64>(me->id), static_cast<u64>(st));
      int r = a.await_resume();
      VF_COUNT("continuations");
      if (suspended && (killed_before)) VF_CHECK(at == e, "killed-suspended", "killed waiter %d was suspended", me->id);
      if (!raw) {
        VF_EQ(r, NOT_INITED, "result-null", "result for no task");
        VF_COUNT("waits_for_nothing");
        return r;
      }
      if (st == cotask::EN_TS_DONE) {
        VF_CHECK(s_ended && !s->killed, "status", "task %d is done but ended=%d killed=%d", s->id, s_ended, s->killed);
        VF_EQ(r, s->ret, "result", "the task's result code");
        VF_COUNT("results_delivered");
      } else if (st > cotask::EN_TS_DONE) {
        // EN_TS_TIMEOUT: the last reference may have gone anywhere
        VF_CHECK(s->killed || s->may_be_ended || st == cotask::EN_TS_TIMEOUT, "status", "task %d has status %d and was not killed", s->id, st);
        VF_EQ(r, IS_EXITING, "result-killed-task", "result for a killed task");
        if (suspended && !me->killed)
          VF_CHECK(s_ended, "continued-early", "waiter %d continued while the killed task %d has not come to its end", me->id, s->id);
        VF_COUNT("killed_tasks_delivered");
      } else {
        VF_CHECK(me->killed || (refs == 0 && !s->begun), "continued-early",
                 "waiter %d continued, was not killed, and task %d has status %d and %zu references", me->id, s->id, st, refs);
        VF_EQ(r, IS_KILLED, "result-killed-waiter", "result for a killed waiter");
        if (me->killed)
          VF_COUNT("killed_waiters");
        else
          VF_COUNT("tasks_never_started");
      }
      if (suspended) VF_COUNT("waits_suspended");
      return r;
    }
  };
  template <class A>
  probe<A> watch(W *me, S *s, task_t *raw, A a) {
    return probe<A>{this, me, s, raw, a};
  }

  // what a killed coroutine waits for is killed with it
  static void kill_below(W *me) {
    if (me->killed)
      for (W *c = me->child; c; c = c->child) c->killed = true;
  }
  struct guard {
    world *w;
    W *me;
    vf::tv v;
    guard(world *ww, W *m) : w(ww), me(m), v(&LL, static_cast<u64>(m->id) + 5000) {
      VF_CHECK(!me->begun, "waiter-ran-twice", "waiter %d", me->id);
      me->begun = true;
      w->in(me->active);
      w->ev("w-begin", static_cast<u64>(me->id));
    }
    ~guard() {
      VF_CHECK(v.get() == static_cast<u64>(me->id) + 5000, "frame-corrupt", "locals of waiter %d are damaged", me->id);
      VF_CHECK(!me->ended, "waiter-ended-twice", "waiter %d", me->id);
      me->ended = true;
      w->ev("w-end", static_cast<u64>(me->id));
      w->out(me->active);
      VF_COUNT("waiters_ended");
    }
  };
  struct child_probe {
    world *w;
    W *me;
    call_t::awaitable_type a;
    bool suspended = false;
    bool await_ready() noexcept { return a.await_ready(); }
    template <class PR>
    auto await_suspend(std::coroutine_handle<PR> h) {
      suspended = true;
      w->out(me->active);
      kill_below(me);
      return a.await_suspend(h);
    }
    int await_resume() {
      if (suspended) w->in(me->active);
      w->ev("child-done", static_cast<u64>(me->id));
      kill_below(me);
      return a.await_resume();
    }
  };

#define VF_WAITER_BODY                                                                            \
  guard g(w, me);                                                                                 \
  vf::rng r(me->script);                                                                          \
  int n = static_cast<int>(r.below(4)), got = 0;                                                  \
  for (int i = 0; i < n; ++i) {                                                                   \
    w->act();                                                                                     \
    if (level < 2 && r.chance(20)) {                                                              \
      W *c = w->new_waiter();                                                                     \
      call_t f = run_callable(w, c, level + 1);                                                   \
      me->child = c;                                                                              \
      got = co_await child_probe{w, me, f.operator co_await()};                                   \
      w->act();                                                                                   \
      for (W *k = c; k; k = k->child) k->killed = k->killed || !f.is_ready();                     \
      me->child = nullptr;                                                                        \
      continue;                                                                                   \
    }                                                                                             \
    auto st = w->pick_task();                                                                     \
    switch (r.below(5)) {                                                                         \
      case 0: { /* keeps the task */                                                              \
        task_p keep = st.second;                                                                  \
        st.second.reset();                                                                        \
        got = co_await w->watch(me, st.first, keep.get(), operator co_await(keep));               \
        VF_CHECK(!keep || !st.first->destroyed, "destroyed-in-use", "task %d", st.first->id);     \
        break;                                                                                    \
      }                                                                                           \
      case 1: { /* only refers to it */                                                           \
        task_t *raw = st.second.get();                                                            \
        st.second.reset();                                                                        \
        if (!raw) break;                                                                          \
        got = co_await w->watch(me, st.first, raw, (*raw).operator co_await());                   \
        break;                                                                                    \
      }                                                                                           \
      case 2: {                                                                                   \
        task_t *raw = st.second.get();                                                            \
        auto aw = w->watch(me, st.first, raw, operator co_await(st.second));                      \
        st.second.reset();                                                                        \
        got = co_await aw;                                                                        \
        break;                                                                                    \
      }                                                                                           \
      case 3: {                                                                                   \
        if (r.chance(80)) break;                                                                  \
        task_p none;                                                                              \
        got = co_await w->watch(me, nullptr, nullptr, operator co_await(none));                   \
        break;                                                                                    \
      }                                                                                           \
      default: { /* without the probe */                                                          \
        task_p keep = st.second;                                                                  \
        st.second.reset();                                                                        \
        if (!keep) break;                                                                         \
        w->out(me->active);                                                                       \
        if (r.chance(50))                                                                         \
          got = co_await keep;                                                                    \
        else                                                                                      \
          got = co_await *keep;                                                                   \
        w->in(me->active);                                                                        \
        w->plain_result(me, st.first, keep, got);                                                 \
      }                                                                                           \
    }                                                                                             \
  }                                                                                               \
  w->act();                                                                                       \
  co_return got;

  void plain_result(W *me, S *s, const task_p &p, int r) {
    int st = static_cast<int>(p->get_status());
    if (st == cotask::EN_TS_DONE)
      VF_EQ(r, s->ret, "result", "the task's result code");
    else if (st > cotask::EN_TS_DONE)
      VF_EQ(r, IS_EXITING, "result-killed-task", "result for a killed task");
    else {
      VF_CHECK(me->killed, "continued-early", "waiter %d continued while task %d has status %d", me->id, s->id, st);
      VF_EQ(r, IS_KILLED, "result-killed-waiter", "result for a killed waiter");
    }
    VF_COUNT("continuations_unprobed");
  }
  static call_t run_callable(world *w, W *me, int level) { VF_WAITER_BODY }
  static ctask_t run_ctask(world *w, W *me) {
    constexpr int level = 0;
    VF_WAITER_BODY
  }
  W *new_waiter() {
    ws.push_back(std::make_unique<W>());
    W *x = ws.back().get();
    x->id = static_cast<int>(ws.size()) - 1;
    x->script = R.next();
    return x;
  }
  void make_waiter() {
    W *x = new_waiter();
    auto h = std::make_unique<wh>();
    h->w = x;
    ev("make-waiter", static_cast<u64>(x->id));
    if (R.chance(50)) {
      h->c = std::make_unique<call_t>(run_callable(this, x, 0));
      VF_CHECK(x->begun, "callable-not-run", "waiter %d", x->id);
    } else {
      h->t = std::make_unique<ctask_t>(run_ctask(this, x));
      if (R.chance(85)) h->t->start();
    }
    hs.push_back(std::move(h));
  }
  static bool busy(W *x) {
    for (; x; x = x->child)
      if (x->active) return true;
    return false;
  }
  void kill_waiter() {
    if (hs.empty()) return;
    wh *h = hs[R.below(hs.size())].get();
    W *x = h->w;
    if (x->ended || busy(x)) return;
    bool direct = x->suspended;
    PS st = R.chance(50) ? PS::kKilled : R.chance(50) ? PS::kCancle : PS::kTimeout;
    ev("kill-waiter", static_cast<u64>(x->id), static_cast<u64>(SI(st)));
    x->killed = true;
    u64 c = x->conts;
    if (h->c)
      h->c->kill(st);
    else {
      ctask_t copy = *h->t;
      copy.kill(st);
    }
    if (direct) VF_CHECK(x->conts > c, "kill-does-not-release", "waiter %d was killed and still waits", x->id);
    VF_COUNT("waiters_killed");
  }
  void drop_waiter(bool any = false) {
    if (hs.empty()) return;
    size_t i = R.below(hs.size());
    W *x = hs[i]->w;
    if (busy(x)) {
      VF_CHECK(!any, "harness", "busy at the end");
      return;
    }
    std::unique_ptr<wh> h = std::move(hs[i]);
    hs.erase(hs.begin() + static_cast<long>(i));
    ev("drop-waiter", static_cast<u64>(x->id), x->ended);
    if (!x->ended) {
      x->killed = true;
      VF_COUNT("waiters_dropped");
    }
    h.reset();
    VF_CHECK(x->ended, "dropped-not-ended", "waiter %d was destroyed and has not ended", x->id);
  }
  void drop_task() {
    if (slots.empty()) return;
    size_t i = R.below(slots.size());
    auto st = std::move(slots[i]);
    slots.erase(slots.begin() + static_cast<long>(i));
    S *s = st.first;
    ev("drop-task", static_cast<u64>(s->id), st.second->use_count());
    if (st.second->use_count() == 1 && st.second->get_status() > cotask::EN_TS_CREATED && st.second->get_status() < cotask::EN_TS_DONE) {
      s->killed = true;
      VF_COUNT("running_tasks_dropped");
    }
    st.second.reset();
  }
  void quiescent() {
    for (auto &x : ws)
      if (x->suspended && x->s) {
        VF_CHECK(!x->s->ended, "lost-wake", "waiter %d still waits for task %d, which ended", x->id, x->s->id);
        VF_CHECK(!x->s->destroyed, "lost-wake", "waiter %d still waits for task %d, which is destroyed", x->id, x->s->id);
      }
    VF_COUNT("quiescent_states");
  }
  void act() {
    if (depth > 9) return;
    int n = depth ? static_cast<int>(R.below(4)) : 1;
    for (int i = 0; i < n && budget > 0; ++i) {
      --budget;
      op();
      if (!depth) quiescent();
    }
  }
  void op() {
    u64 k = R.below(100);
    if (k < 12 && ss.size() < 6) {
      make_task();
    } else if (k < 30 && ws.size() < 10) {
      make_waiter();
    } else if (k < 55) {
      auto st = pick_task();
      if (!st.first) return;
      if (st.second->get_status() <= cotask::EN_TS_CREATED) {
        ev("start", static_cast<u64>(st.first->id));
        st.second->start();
      } else {
        ev("resume", static_cast<u64>(st.first->id));
        st.second->resume();
      }
    } else if (k < 64) {
      auto st = pick_task();
      if (!st.first) return;
      int before = static_cast<int>(st.second->get_status());
      u64 how = R.below(3);
      ev("kill", static_cast<u64>(st.first->id), how);
      if (before < cotask::EN_TS_DONE && !(how == 0 && before == cotask::EN_TS_RUNNING)) st.first->killed = true;
      int rc = how == 0 ? st.second->cancel() : st.second->kill(how == 1 ? cotask::EN_TS_KILLED : cotask::EN_TS_TIMEOUT, nullptr);
      (void)rc;
      VF_COUNT("tasks_killed");
    } else if (k < 72) {
      kill_waiter();
    } else if (k < 78) {
      drop_waiter();
    } else if (k < 86) {
      drop_task();
    } else if (k < 90) {
      if (slots.size() < 2) return;
      auto a = pick_task(), b = pick_task();
      if (a.first->id >= b.first->id) return;
      ev("next", static_cast<u64>(a.first->id), static_cast<u64>(b.first->id));
      a.second->next(b.second);
    } else if (k < 94) {
      if (!mgr) return;
      auto st = pick_task();
      if (!st.first) return;
      ev("manage", static_cast<u64>(st.first->id));
      if (R.chance(60))
        mgr->add_task(st.second, static_cast<time_t>(R.range(1, 6)), 0);
      else
        mgr->add_task(st.second);
    } else if (k < 97) {
      if (!mgr) return;
      if (depth) return;
      now += R.range(0, 4);
      ev("tick", static_cast<u64>(now));
      for (auto &s : ss)
        if (!s->ended) s->may_be_ended = true;
      mgr->tick(now, 0);
    } else {
      for (auto &h : hs)
        if (h->t && !h->w->begun && !h->w->killed) {
          ev("start-waiter", static_cast<u64>(h->w->id));
          ctask_t copy = *h->t;
          copy.start();
          break;
        }
    }
  }

  void run() {
    LL.reset();
    LA.reset();
    if (R.chance(40)) mgr = mgr_t::create();
    budget = static_cast<int>(R.range(8, 60));
    make_task();
    while (budget > 0) vf::hop([&] { act(); });
    // the end, in any order
    budget = static_cast<int>(R.below(12));
    bool waiters_first = R.chance(30), tasks_first = !waiters_first && R.chance(50);
    int rounds = 0;
    while (!hs.empty() || !slots.empty() || mgr) {
      VF_CHECK(++rounds < 1000, "harness", "teardown does not end");
      u64 k = R.below(3);
      if (waiters_first && !hs.empty()) k = 0;
      if (tasks_first && !slots.empty()) k = 1;
      if (k == 0)
        vf::hop([&] { drop_waiter(true); });
      else if (k == 1)
        vf::hop([&] { drop_task(); });
      else if (mgr && R.chance(40)) {
        ev("drop-manager", 0);
        for (auto &s : ss)
          if (!s->ended) s->may_be_ended = true;
        mgr.reset();
      }
      quiescent();
    }
    for (auto &x : ws) {
      VF_CHECK(!x->begun || x->ended, "waiter-never-ended", "waiter %d", x->id);
      VF_CHECK(!x->suspended, "lost-wake", "waiter %d still waits", x->id);
      VF_EQ(x->conts, x->waits, "lost-wake", "continuations of a waiter");
    }
    for (auto &s : ss) {
      VF_CHECK(s->destroyed, "task-leaked", "task %d is never destroyed", s->id);
      VF_CHECK(!s->begun || s->ended, "task-never-ended", "task %d", s->id);
    }
    VF_EQ(LL.live.load(), 0, "locals-leaked", "locals alive");
    VF_EQ(LA.live.load(), 0, "actions-leaked", "actions alive");
    VF_EQ(book->live_count(), 0, "stacks-leaked", "stacks alive");
    if (ws.size() >= 2 && ss.size() >= 1 && events >= 20) vf::nontrivial();
    if (max_depth >= 3) VF_COUNT("cases_nested_3_deep");
  }
};
}  // namespace

VF_MODE(await) {
  world w(R);
  w.run();
}
