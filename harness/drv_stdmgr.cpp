// C21: the manager of C++20 tasks.
// Several managers and tasks; bodies interpret random scripts that suspend and operate on the managers and tasks. A model
// of each manager (contained ids, deadlines, last tick) is kept from the calls and the ends of bodies alone; the container,
// the checkpoints and every return code are compared with it whenever a body continues and after every call.
#include "lib.h"

#include <libcopp/coroutine/callable_promise.h>
#include <libcopp/coroutine/generator_promise.h>
#include <libcotask/task_manager.h>
#include <libcotask/task_promise.h>

#include <algorithm>
#include <coroutine>
#include <deque>
#include <optional>

namespace {
using u64 = uint64_t;
using PS = copp::promise_status;
constexpr int SI(PS s) { return static_cast<int>(s); }
using ns_t = long long;
constexpr ns_t G = 1000000000LL;

vf::ledger LV, LL, LP;

struct rv {
  vf::tv v;
  rv() : v(&LV, 0) {}
  explicit rv(PS s) : v(&LV, 1000u + static_cast<u64>(SI(s))) {}
  explicit rv(u64 x) : v(&LV, x) {}
};
struct pv {
  vf::tv v;
  pv() : v(&LP, 7) {}
};

enum EC {
  OK = copp::COPP_EC_SUCCESS,
  RESET = copp::COPP_EC_IN_RESET,
  NOTFOUND = copp::COPP_EC_NOT_FOUND,
  EXIST = copp::COPP_EC_ALREADY_EXIST,
  OTHER = copp::COPP_EC_TASK_ALREADY_IN_ANOTHER_MANAGER,
  EXITING = copp::COPP_EC_TASK_IS_EXITING,
};

template <class V, class P>
struct world {
  using task_t = cotask::task_future<V, P>;
  using mgr_t = cotask::task_manager<task_t>;
  using id_t = typename task_t::id_type;
  using ctx_t = typename task_t::context_type;
  using gen_t = copp::generator_future<int>;

  struct T;
  struct sleeper {
    std::coroutine_handle<> h = nullptr;
    T *t = nullptr;
  };
  struct M;
  struct T {
    int id = 0;
    u64 script = 0;
    id_t tid = 0;
    std::weak_ptr<ctx_t> ctx;
    bool start_ok = false, started = false, ended = false;
    int active = 0;
    bool lib_wait = false;  // waits for a generator, a callable or a task
    bool sleeping = false;
    int last = SI(PS::kCreated);
    std::set<int> allowed;
    M *in = nullptr;
    std::optional<task_t> target;  // the task it waits for
    u64 value = 0;
    int steps = 0;
  };
  struct entry {
    T *t;
    bool timed = false;
    ns_t at = 0;
  };
  struct M {
    int id = 0;
    typename mgr_t::ptr_type p;
    std::map<id_t, entry> e;
    ns_t last = 0;
    bool ticking = false, resetting = false, dying = false;
    ns_t now = 0;
    int busy = 0;
    std::set<T *> timed_out;  // by the tick in progress
  };
  struct handle {
    T *t;
    task_t f;
  };

  vf::rng &R;
  std::deque<std::unique_ptr<T>> ts;
  std::vector<std::unique_ptr<M>> ms;
  std::vector<handle> hs;
  std::vector<handle> keeps;
  std::deque<std::unique_ptr<gen_t>> gens;
  std::shared_ptr<typename gen_t::context_type> gctx;
  std::vector<sleeper *> sleepers;
  int budget = 0, depth = 0, max_depth = 0;
  u64 events = 0, nested_events = 0;
  std::set<id_t> seen_ids;
  bool coarse = false;

  explicit world(vf::rng &r) : R(r) {}

  void ev(const char *what, u64 a, u64 b = 0) {
    ++events;
    if (depth >= 1) ++nested_events;
    vf::tr(vf::mix64(static_cast<u64>(what[0]) * 131 + static_cast<u64>(what[1]), a), b);
    if (vf::g_verbose) fprintf(stderr, "  %*s%s %llu %llu\n", depth * 2, "", what, (unsigned long long)a, (unsigned long long)b);
  }

  // ---- statuses
  void see(T *t) {
    auto c = t->ctx.lock();
    if (!c) return;
    int s = SI(c->get_status());
    if (s == SI(PS::kInvalid)) return;
    VF_CHECK(s >= t->last, "status-order", "task %d went from status %d back to %d", t->id, t->last, s);
    VF_CHECK(t->last < SI(PS::kDone) || s == t->last, "status-not-final", "task %d changed its final status %d to %d", t->id, t->last, s);
    if (s != t->last) {
      if (s == SI(PS::kTimeout) && t->in && t->in->ticking) {
        auto it = t->in->e.find(t->tid);
        if (it->second.timed && it->second.at < t->in->now) t->allowed.insert(s);
      }
      if (s >= SI(PS::kCancle))
        VF_CHECK(t->allowed.count(s), "status-without-cause", "task %d has status %d that nothing gave it", t->id, s);
      else if (s == SI(PS::kRunning))
        VF_CHECK(t->start_ok, "status-without-cause", "task %d runs and was not started", t->id);
    }
    t->last = s;
  }
  bool exiting(T *t) {
    see(t);
    return t->last >= SI(PS::kDone);
  }

  // ---- managers
  // what the tick or the end of a task in progress removed
  void sync(M *m) {
    if (m->ticking && !m->resetting) {
      for (auto it = m->e.begin(); it != m->e.end();) {
        if (it->second.timed && it->second.at < m->now && !m->p->find_task(it->first)) {
          T *t = it->second.t;
          see(t);
          if (t->last < SI(PS::kDone) || t->last == SI(PS::kTimeout)) t->allowed.insert(SI(PS::kTimeout));
          m->timed_out.insert(t);
          t->in = nullptr;
          it = m->e.erase(it);
          ev("timeout", static_cast<u64>(m->id), static_cast<u64>(t->id));
          VF_COUNT("timeouts");
        } else
          ++it;
      }
    }
  }
  void compare(M *m) {
    if (m->dying) return;
    sync(m);
    auto &c = m->p->get_container();
    VF_EQ(m->p->get_task_size(), m->e.size(), "manager-size", "tasks in the manager");
    VF_EQ(c.size(), m->e.size(), "manager-size", "tasks in the container");
    size_t timed = 0;
    for (auto &kv : m->e) {
      auto it = c.find(kv.first);
      VF_CHECK(it != c.end(), "manager-lost-task", "task %d is not in manager %d any more", kv.second.t->id, m->id);
      VF_CHECK(it->second.task_.get_id() == kv.first && it->second.task_.get_context() == kv.second.t->ctx.lock(), "manager-wrong-task",
               "another task under the id of task %d", kv.second.t->id);
      if (!m->resetting) {
        auto *f = m->p->find_task(kv.first);
        VF_CHECK(f && f->get_context() == kv.second.t->ctx.lock(), "find-task", "task %d is not found", kv.second.t->id);
      }
      timed += kv.second.timed;
    }
    VF_EQ(m->p->get_tick_checkpoint_size(), timed, "manager-checkpoints", "checkpoints");
    size_t n = 0;
    for (auto &cp : m->p->get_checkpoints()) {
      auto it = m->e.find(cp.task_id);
      VF_CHECK(it != m->e.end() && it->second.timed, "manager-checkpoints", "a checkpoint of a task that has none");
      VF_EQ(static_cast<ns_t>(cp.expired_time.tv_sec) * G + cp.expired_time.tv_nsec, it->second.at, "manager-checkpoints", "the deadline");
      VF_CHECK(cp.expired_time.tv_nsec >= 0 && cp.expired_time.tv_nsec < G, "manager-checkpoints", "the deadline has %d nanoseconds", cp.expired_time.tv_nsec);
      ++n;
    }
    VF_EQ(n, timed, "manager-checkpoints", "checkpoints");
    if (!m->ticking) {
      auto l = m->p->get_last_tick_time();
      VF_EQ(static_cast<ns_t>(l.tv_sec) * G + l.tv_nsec, m->last, "last-tick", "the last tick");
    }
    VF_COUNT("manager_states_compared");
  }
  void compare_all() {
    for (auto &m : ms)
      if (m) compare(m.get());
  }
  void leave(M *m, T *t) {  // the model's removal
    auto it = m->e.find(t->tid);
    VF_CHECK(it != m->e.end() && it->second.t == t, "harness", "leave");
    m->e.erase(it);
    t->in = nullptr;
  }

  // ---- bodies
  bool known_handle(T *t, task_t &out) {
    for (auto &h : hs)
      if (h.t == t) return out = h.f, true;
    for (auto &h : keeps)
      if (h.t == t) return out = h.f, true;
    for (auto &o : ts)
      if (o->target && o->target->get_context() == t->ctx.lock()) return out = *o->target, true;
    if (t->in && !t->in->dying && !t->in->resetting) {
      sync(t->in);
      if (t->in)
        if (auto *f = t->in->p->find_task(t->tid)) return out = *f, true;
    }
    return false;
  }
  void enter(T *t) {
    ++t->active;
    ++depth;
    max_depth = std::max(max_depth, depth);
    vf::beat();
    task_t f;
    if (known_handle(t, f)) keeps.push_back({t, std::move(f)});
    for (auto &m : ms)
      if (m) sync(m.get());
    see(t);
    if (!coarse) compare_all();
  }
  void leave_body(T *t) {
    --t->active;
    --depth;
  }

  struct guard {
    world *w;
    T *t;
    vf::tv local;
    guard(world *ww, T *tt) : w(ww), t(tt), local(&LL, static_cast<u64>(tt->id)) {
      VF_CHECK(!t->started, "body-ran-twice", "the body of task %d ran twice", t->id);
      for (auto &m : w->ms)
        if (m) w->sync(m.get());
      w->see(t);
      VF_CHECK(t->start_ok || w->may_be_dropped(t), "started-by-itself", "the body of task %d ran before anything started it", t->id);
      t->started = true;
      w->ev("body-begin", static_cast<u64>(t->id));
      w->enter(t);
    }
    guard(const guard &) = delete;
    ~guard() {
      t->target.reset();
      VF_CHECK(local.get() == static_cast<u64>(t->id), "frame-corrupt", "locals of task %d are damaged", t->id);
      VF_CHECK(!t->ended, "body-ran-twice", "the body of task %d ended twice", t->id);
      t->ended = true;
      for (auto &m : w->ms)
        if (m) w->sync(m.get());
      w->see(t);
      if (t->in) w->leave(t->in, t);
      w->leave_body(t);
      w->ev("body-end", static_cast<u64>(t->id), static_cast<u64>(t->last));
      VF_COUNT("bodies_ended");
    }
  };
  // dropped by its last handle: nothing we know of holds it, and it is killed
  bool may_be_dropped(T *t) {
    for (auto &h : hs)
      if (h.t == t) return false;
    for (auto &h : keeps)
      if (h.t == t) return false;
    auto c = t->ctx.lock();
    if (c && SI(c->get_status()) < SI(PS::kDone)) return false;
    return !t->in;
  }
  void note_drop(T *t) {  // it may be ended because its last handle goes
    if (t->last < SI(PS::kDone)) t->allowed.insert(SI(PS::kKilled));
  }

  struct sleep_aw {
    world *w;
    T *t;
    sleeper s;
    bool in_child;
    bool await_ready() const noexcept { return false; }
    template <class PR>
    void await_suspend(std::coroutine_handle<PR> h) {
      s.h = h;
      s.t = t;
      w->sleepers.push_back(&s);
      if (!in_child) t->sleeping = true;
      w->ev("sleep", static_cast<u64>(t->id));
      w->leave_body(t);
    }
    void await_resume() {
      auto it = std::find(w->sleepers.begin(), w->sleepers.end(), &s);
      VF_CHECK(it != w->sleepers.end(), "harness", "sleeper");
      w->sleepers.erase(it);
      if (!in_child) t->sleeping = false;
      w->ev("continue", static_cast<u64>(t->id));
      w->enter(t);
    }
  };
  // wraps a library awaitable to see when the body really suspends
  template <class A>
  struct probe {
    world *w;
    T *t;
    A a;
    bool in_child;
    bool suspended = false;
    bool await_ready() noexcept { return a.await_ready(); }
    template <class PR>
    auto await_suspend(std::coroutine_handle<PR> h) {
      w->ev("wait", static_cast<u64>(t->id));
      suspended = true;
      if (!in_child) t->lib_wait = true;
      w->leave_body(t);
      bool r = true;
      if constexpr (std::is_same<decltype(a.await_suspend(h)), void>::value)
        a.await_suspend(h);
      else
        r = a.await_suspend(h);
      if (!r) {  // refused: goes on at once
        suspended = false;
        if (!in_child) t->lib_wait = false;
        ++t->active;
        ++w->depth;
      }
      return r;
    }
    decltype(auto) await_resume() {
      if (suspended) {
        if (!in_child) t->lib_wait = false;
        w->ev("continue", static_cast<u64>(t->id));
        w->enter(t);
      }
      return a.await_resume();
    }
  };

  static copp::callable_future<int> child(world *w, T *t, u64 seed) {
    vf::rng r(seed);
    vf::tv local(&LL, 5);
    int n = static_cast<int>(r.range(0, 2));
    for (int i = 0; i < n; ++i) {
      PS now = co_yield copp::callable_future<int>::yield_status();
      if (now >= PS::kDone) break;
      if (r.chance(50)) {
        co_await sleep_aw{w, t, {}, true};
      } else {
        gen_t &g = w->a_gen();
        auto aw = g.operator co_await();
        probe<decltype(aw)> p{w, t, std::move(aw), true};
        co_await p;
      }
    }
    co_return n;
  }

  template <class X>
  static void finish_value(X &) {}

  void step_op(vf::rng &r, T *t) {
    if (budget > 0) op(r, t);
  }

  // one step; returns what to do: 0 nothing, 1 sleep, 2 generator, 3 child, 4 task
  int choose(vf::rng &r, T *t) {
    for (;;) {
      int k = static_cast<int>(r.below(16));
      if (k == 4) {
        std::vector<T *> c;
        for (auto &h : hs)
          if (h.t->id < t->id && h.t != t) c.push_back(h.t);
        if (c.empty()) continue;
        T *x = c[r.below(c.size())];
        for (auto &h : hs)
          if (h.t == x) {
            t->target = h.f;
            break;
          }
        return 4;
      }
      return k == 0 || k == 15 ? 0 : k <= 3 ? k : 5;
    }
  }

  gen_t &a_gen() {
    if (gens.empty() || !gctx) new_gen();
    return *gens.back();
  }
  void new_gen() {
    gens.push_back(std::make_unique<gen_t>([](typename gen_t::context_pointer_type) {}));
    gctx = gens.back()->get_context();
  }

#define BODY_LOOP                                                                                     \
  guard gd(w, t);                                                                                     \
  vf::rng r(t->script);                                                                               \
  {                                                                                                   \
    auto me = co_yield task_t::yield_task_id();                                                       \
    VF_EQ(me, t->tid, "task-id", "id seen by the task itself");                                       \
  }                                                                                                   \
  for (int i = 0; i < t->steps; ++i) {                                                                \
    PS now = co_yield task_t::yield_status();                                                         \
    w->see(t);                                                                                        \
    VF_EQ(SI(now), t->last, "status-seen", "status seen by the task itself");                         \
    int what = w->choose(r, t);                                                                       \
    if (now >= PS::kDone && r.chance(70)) break;                                                      \
    if (what == 1 && now < PS::kDone) {                                                               \
      co_await sleep_aw{w, t, {}, false};                                                             \
    } else if (what == 2) {                                                                           \
      auto aw = w->a_gen().operator co_await();                                                       \
      probe<decltype(aw)> p{w, t, std::move(aw), false};                                              \
      co_await p;                                                                                     \
    } else if (what == 3) {                                                                           \
      auto c = child(w, t, r.next());                                                                 \
      auto aw = c.operator co_await();                                                                \
      probe<decltype(aw)> p{w, t, std::move(aw), false};                                              \
      co_await p;                                                                                     \
    } else if (what == 4) {                                                                           \
      auto aw = t->target->operator co_await();                                                       \
      probe<decltype(aw)> p{w, t, std::move(aw), false};                                              \
      co_await p;                                                                                     \
      t->target.reset();                                                                              \
    } else if (what == 5) {                                                                           \
      w->step_op(r, t);                                                                               \
    }                                                                                                 \
  }

  struct body_void {
    static task_t run(world *w, T *t) {
      BODY_LOOP
      co_return;
    }
  };
  struct body_value {
    static task_t run(world *w, T *t) {
      BODY_LOOP
      co_return V(t->value);
    }
  };
#undef BODY_LOOP

  // ---- calls
  T *new_task(vf::rng &r) {
    ts.push_back(std::make_unique<T>());
    T *t = ts.back().get();
    t->id = static_cast<int>(ts.size());
    t->script = r.next();
    t->value = r.next() >> 1;
    t->steps = static_cast<int>(r.range(0, 10));
    task_t f = std::conditional_t<std::is_void<V>::value, body_void, body_value>::run(this, t);
    VF_CHECK(!t->started, "started-by-itself", "task %d ran when it was created", t->id);
    t->ctx = f.get_context();
    t->tid = f.get_id();
    VF_CHECK(seen_ids.insert(t->tid).second, "task-id", "task id given twice");
    see(t);
    hs.push_back({t, std::move(f)});
    ev("create", static_cast<u64>(t->id));
    VF_COUNT("tasks");
    return t;
  }
  M *some_mgr(vf::rng &r) {
    if (r.chance(30))
      for (auto &m : ms)
        if (m && !m->dying && (m->ticking || m->resetting)) return m.get();
    std::vector<M *> c;
    for (auto &m : ms)
      if (m && !m->dying) c.push_back(m.get());
    return c.empty() ? nullptr : c[r.below(c.size())];
  }
  id_t some_id(vf::rng &r, M *m) {
    if (!m->e.empty() && r.chance(75)) {
      auto it = m->e.begin();
      std::advance(it, static_cast<long>(r.below(m->e.size())));
      return it->first;
    }
    if (r.chance(5) || ts.empty()) return static_cast<id_t>(r.below(3));
    return ts[r.below(ts.size())]->tid;
  }
  T *in_mgr(M *m, id_t id) {
    auto it = m->e.find(id);
    return it == m->e.end() ? nullptr : it->second.t;
  }
  void timeout_of(vf::rng &r, time_t &s, int &n) {
    switch (r.below(5)) {
      case 0:
        s = 0;
        n = 0;
        break;
      case 1:
        s = 0;
        n = static_cast<int>(r.range(1, 3));
        break;
      case 2:
        s = r.range(0, 3);
        n = static_cast<int>(r.chance(50) ? G - 1 - static_cast<ns_t>(r.below(3)) : r.below(static_cast<u64>(G)));
        break;
      case 3:
        s = r.range(1, 4);
        n = 0;
        break;
      default:
        s = r.range(-1, 2);
        n = 0;
    }
  }
  void set_entry(M *m, entry &e, time_t s, int n) {
    e.timed = s > 0 || n > 0;
    e.at = m->last + static_cast<ns_t>(s) * G + n;
  }
  // the manager or its tick refers to its own last tick time, also while a tick goes on
  void release_keeps(size_t k) {
    while (keeps.size() > k) {
      handle h = std::move(keeps.back());
      keeps.pop_back();
      note_drop(h.t);
      // h goes here
    }
  }
  void must_be_ended(T *t, const char *by) {
    see(t);
    VF_CHECK(t->last >= SI(PS::kDone) || t->ctx.expired(), "not-ended", "task %d was not ended by %s (status %d)", t->id, by, t->last);
    VF_CHECK(t->ended || !t->lib_wait, "not-ended", "task %d was killed by %s and still waits", t->id, by);
  }

  void op(vf::rng &r, T *by) {
    if (depth > 8 || budget <= 0) return;
    --budget;
    vf::beat();
    const size_t k0 = keeps.size();
    do_op(r, by);
    release_keeps(k0);
    compare_all();
    quiet_check();
  }
  void quiet_check() {
    for (auto &t : ts) {
      see(t.get());
      if (t->active) continue;
      VF_CHECK(!(t->lib_wait && t->last >= SI(PS::kDone)) || t->ended, "not-ended", "task %d has status %d and still waits", t->id, t->last);
    }
  }
  void do_op(vf::rng &r, T *by) {
    unsigned k = static_cast<unsigned>(r.below(100));
    M *m = some_mgr(r);
    if (k < 8) {
      if (ts.size() < 24) new_task(r);
    } else if (k < 13) {
      if (!hs.empty() && hs.size() < 40) {
        handle h = hs[r.below(hs.size())];
        hs.push_back(h);
      }
    } else if (k < 19) {
      if (!hs.empty()) {
        size_t i = r.below(hs.size());
        handle h = std::move(hs[i]);
        hs.erase(hs.begin() + static_cast<long>(i));
        note_drop(h.t);
        ev("drop", static_cast<u64>(h.t->id));
      }
    } else if (k < 36) {  // add
      if (!m || hs.empty()) return;
      handle h = hs[r.below(hs.size())];
      T *t = h.t;
      int want = m->resetting ? RESET : exiting(t) ? EXITING : m->e.count(t->tid) ? EXIST : t->in ? OTHER : OK;
      int got;
      time_t s = 0;
      int n = 0;
      if (r.chance(20))
        got = m->p->add_task(h.f);
      else {
        timeout_of(r, s, n);
        got = m->p->add_task(h.f, s, n);
      }
      ev("add", static_cast<u64>(m->id * 1000 + t->id), static_cast<u64>(got + 5000));
      VF_EQ(got, want, "add-result", "add_task");
      if (got == OK) {
        entry e{t};
        set_entry(m, e, s, n);
        m->e[t->tid] = e;
        t->in = m;
        VF_COUNT("adds");
      }
      note_drop(t);
    } else if (k < 44) {  // set_timeout
      if (!m) return;
      id_t id = some_id(r, m);
      T *t = in_mgr(m, id);
      time_t s;
      int n;
      timeout_of(r, s, n);
      int got = m->p->set_timeout(id, s, n);
      ev("retime", static_cast<u64>(m->id * 1000 + (t ? t->id : 0)), static_cast<u64>(got + 5000));
      VF_EQ(got, m->resetting ? RESET : t ? OK : NOTFOUND, "set-timeout-result", "set_timeout");
      if (got == OK) {
        set_entry(m, m->e[id], s, n);
        VF_COUNT("retimes");
      }
    } else if (k < 50) {  // remove
      if (!m) return;
      id_t id = some_id(r, m);
      T *t = in_mgr(m, id);
      int want = m->resetting ? RESET : t ? OK : NOTFOUND;
      int how = static_cast<int>(r.below(3));
      task_t conf;
      if (how && !hs.empty()) {
        handle &h = hs[r.below(hs.size())];
        conf = h.f;
        if (t && r.chance(50))
          if (auto *f = m->p->find_task(id)) conf = *f;
        if (want == OK && conf.get_context() != t->ctx.lock()) want = NOTFOUND;
        if (how == 2 && m->resetting) how = 1;
      } else
        how = 0;
      bool kills = false;
      if (want == OK) {
        see(t);
        kills = t->last > SI(PS::kCreated) && t->last < SI(PS::kDone);
        if (kills) t->allowed.insert(SI(PS::kKilled));
        note_drop(t);
        leave(m, t);
      }
      ev("remove", static_cast<u64>(m->id * 1000 + (t ? t->id : 0)), static_cast<u64>(want + 5000));
      ++m->busy;
      int got = how == 0 ? m->p->remove_task(id) : how == 1 ? m->p->remove_task(id, conf) : m->p->remove_task(id, conf.get_context().get());
      --m->busy;
      VF_EQ(got, want, "remove-result", "remove_task");
      if (want == OK) {
        VF_COUNT("removes");
        if (kills && !t->active) must_be_ended(t, "remove_task");
      }
      // conf goes here
    } else if (k < 55) {  // find
      if (!m) return;
      id_t id = some_id(r, m);
      T *t = in_mgr(m, id);
      auto *f = m->p->find_task(id);
      VF_CHECK((f != nullptr) == (t && !m->resetting), "find-task", "find_task gave %p, task in the model: %d", (const void *)f, t ? t->id : 0);
      if (f) {
        VF_CHECK(f->get_context() == t->ctx.lock(), "find-task", "find_task gave another task than %d", t->id);
        if (hs.size() < 40 && r.chance(50)) hs.push_back({t, *f});
      }
    } else if (k < 66) {  // start
      if (!m) return;
      id_t id = some_id(r, m);
      T *t = in_mgr(m, id);
      int want = m->resetting ? RESET : t ? OK : NOTFOUND;
      bool was = false, runs = false;
      if (want == OK) {
        see(t);
        was = t->started;
        runs = t->last == SI(PS::kCreated);
        if (runs) t->start_ok = true;
        note_drop(t);
      }
      ev("start", static_cast<u64>(m->id * 1000 + (t ? t->id : 0)), static_cast<u64>(want + 5000));
      ++m->busy;
      // a task which already has its final status leaves the manager
      if (want == OK && !runs && t->last >= SI(PS::kDone)) leave(m, t);
      int got = m->p->start(id);
      --m->busy;
      VF_EQ(got, want, "start-result", "start");
      if (want == OK) {
        VF_CHECK(!runs || (t->started && !was), "start-does-nothing", "task %d was started and did not run", t->id);
        for (auto &x : ms)
          if (x) sync(x.get());
        see(t);
        if (runs && t->last >= SI(PS::kDone) && t->in == m) leave(m, t);
        VF_COUNT("starts");
      }
    } else if (k < 73) {  // cancel, kill
      if (!m) return;
      id_t id = some_id(r, m);
      T *t = in_mgr(m, id);
      int want = m->resetting ? RESET : t ? OK : NOTFOUND;
      static const PS sts[] = {PS::kCancle, PS::kKilled, PS::kTimeout};
      int how = static_cast<int>(r.below(3));
      PS st = how == 0 ? PS::kCancle : how == 1 ? PS::kKilled : sts[r.below(3)];
      bool fresh = false;
      if (want == OK) {
        see(t);
        fresh = t->last < SI(PS::kDone);
        if (fresh) t->allowed.insert(SI(st));
        note_drop(t);
        leave(m, t);
      }
      ev("kill", static_cast<u64>(m->id * 1000 + (t ? t->id : 0)), static_cast<u64>(SI(st)));
      ++m->busy;
      int got = how == 0 ? m->p->cancel(id) : how == 1 ? m->p->kill(id) : m->p->kill(id, st);
      --m->busy;
      VF_EQ(got, want, "kill-result", "cancel or kill");
      if (want == OK && fresh) {
        see(t);
        VF_CHECK(t->ctx.expired() || t->last == SI(st), "kill-status", "task %d was killed with %d and has status %d", t->id, SI(st), t->last);
        if (!t->active) must_be_ended(t, "kill");
        VF_COUNT("kills");
      }
    } else if (k < 84) {  // tick
      if (!m) return;
      do_tick(r, m);
    } else if (k < 85) {  // reset
      if (!m || r.chance(60)) return;
      do_reset(m, false);
    } else if (k < 86) {  // destroy
      if (!m || m->busy || m->ticking || m->resetting || r.chance(60)) return;
      do_reset(m, true);
      for (auto &x : ms)
        if (x.get() == m) x.reset();
      ms.erase(std::remove(ms.begin(), ms.end(), nullptr), ms.end());
      add_mgr();
    } else if (k < 90) {  // direct start and kill
      if (hs.empty()) return;
      handle h = hs[r.below(hs.size())];
      T *t = h.t;
      see(t);
      if (r.chance(60)) {
        bool want = t->last == SI(PS::kCreated);
        if (want) t->start_ok = true;
        ev("task-start", static_cast<u64>(t->id), want);
        bool got = h.f.start();
        VF_EQ(got, want, "start-result", "start of a task");
      } else {
        bool want = t->last < SI(PS::kDone);
        static const PS sts[] = {PS::kCancle, PS::kKilled, PS::kTimeout};
        PS st = sts[r.below(3)];
        if (want) t->allowed.insert(SI(st));
        bool force = t->sleeping && r.chance(50);
        ev("task-kill", static_cast<u64>(t->id), static_cast<u64>(SI(st)));
        bool got = h.f.kill(st, force);
        VF_EQ(got, want, "kill-result", "kill of a task");
        see(t);
        if (want) VF_CHECK(t->last == SI(st) || t->ctx.expired(), "kill-status", "task %d was killed with %d and has status %d", t->id, SI(st), t->last);
      }
      note_drop(t);
    } else if (k < 96) {  // wake
      if (sleepers.empty()) return;
      auto hd = sleepers[r.below(sleepers.size())]->h;
      hd.resume();
    } else {
      if (!gctx) return;
      auto c = gctx;
      gctx.reset();
      ev("gen-set", gens.size());
      c->set_value(1);
    }
    (void)by;
  }
  void do_tick(vf::rng &r, M *m) {
    ns_t now = m->last;
    std::vector<ns_t> at;
    for (auto &kv : m->e)
      if (kv.second.timed) at.push_back(kv.second.at);
    switch (r.below(6)) {
      case 0:
        now -= static_cast<ns_t>(r.below(2 * G));
        break;
      case 1:
        break;
      case 2:
        now += static_cast<ns_t>(r.below(3));
        break;
      case 3:
        if (!at.empty()) {
          now = at[r.below(at.size())] + r.range(-1, 1);
          break;
        }
        [[fallthrough]];
      case 4:
        now += static_cast<ns_t>(r.below(2 * G));
        break;
      default:
        now += static_cast<ns_t>(r.below(3)) * G;
    }
    if (now < 0) now = 0;
    if (m->last == 0 && r.chance(30)) now = G * 1700000000LL + static_cast<ns_t>(r.below(G));
    // mirrored from the documentation: nested ticks are ignored, time does not go back, the first tick sets the base
    int want = OK;
    bool first = false, real = false;
    if (m->ticking || now <= m->last)
      ;
    else if (m->resetting)
      want = RESET;
    else if (m->last == 0)
      first = true;
    else
      real = true;
    ev("tick", static_cast<u64>(m->id), static_cast<u64>(now));
    ns_t sec = now / G;
    int nsec = static_cast<int>(now % G);
    if (real) {
      m->ticking = true;
      m->now = now;
      m->timed_out.clear();
    }
    if (first) {
      for (auto &kv : m->e)
        if (kv.second.timed) kv.second.at += now;
      m->last = now;
    }
    ++m->busy;
    int got = nsec == 0 && r.chance(50) ? m->p->tick(sec) : m->p->tick(sec, nsec);
    --m->busy;
    VF_EQ(got, want, "tick-result", "tick");
    if (real) {
      sync(m);
      m->ticking = false;
      m->last = now;
      for (auto &kv : m->e)
        VF_CHECK(!kv.second.timed || kv.second.at >= now, "timeout-missed", "task %d is due at %lld and still there after the tick at %lld",
                 kv.second.t->id, kv.second.at, now);
      std::set<T *> x;
      x.swap(m->timed_out);
      for (T *t : x)
        if (!t->active && !t->in) must_be_ended(t, "tick");
      VF_COUNT("ticks");
    }
  }
  void do_reset(M *m, bool destroy) {
    ev(destroy ? "destroy" : "Reset", static_cast<u64>(m->id));
    if (m->resetting) {  // nested
      m->p->reset();
      return;
    }
    sync(m);
    std::vector<T *> all;
    for (auto &kv : m->e) {
      T *t = kv.second.t;
      see(t);
      if (t->last < SI(PS::kDone)) {
        t->allowed.insert(SI(PS::kKilled));
        all.push_back(t);
      }
      t->in = nullptr;
    }
    m->e.clear();
    if (!m->ticking) m->last = 0;
    m->resetting = true;
    ++m->busy;
    if (destroy) {
      m->dying = true;
      m->p.reset();
    } else
      m->p->reset();
    --m->busy;
    m->resetting = false;
    for (T *t : all)
      if (!t->active) must_be_ended(t, "reset");
    if (destroy)
      VF_COUNT("managers_destroyed");
    else
      VF_COUNT("resets");
  }
  void add_mgr() {
    ms.push_back(std::make_unique<M>());
    static int n = 0;
    ms.back()->id = ++n % 100;
    ms.back()->p = mgr_t::create();
  }

  void run() {
    LV.reset();
    LL.reset();
    LP.reset();
    coarse = R.chance(30);
    int nm = static_cast<int>(R.range(1, 3));
    for (int i = 0; i < nm; ++i) add_mgr();
    int nt = static_cast<int>(R.range(1, 6));
    for (int i = 0; i < nt; ++i) new_task(R);
    int ops = static_cast<int>(R.range(10, 80));
    for (int i = 0; i < ops; ++i) {
      budget = 25;
      vf::hop([&] { op(R, nullptr); });
    }
    budget = static_cast<int>(R.below(20));
    while (!ms.empty()) {
      size_t i = R.below(ms.size());
      M *m = ms[i].get();
      vf::hop([&] {
        do_reset(m, true);
        release_keeps(0);
      });
      for (auto &x : ms)
        if (x.get() == m) x.reset();
      ms.erase(std::remove(ms.begin(), ms.end(), nullptr), ms.end());
    }
    while (!hs.empty()) {
      handle h = std::move(hs.back());
      hs.pop_back();
      note_drop(h.t);
      {
        handle gone = std::move(h);
      }
      release_keeps(0);
    }
    budget = 0;
    gctx.reset();
    for (auto &t : ts) {
      VF_CHECK(t->started, "never-run", "task %d never ran", t->id);
      VF_CHECK(t->ended, "never-ended", "task %d never ended", t->id);
      VF_CHECK(t->ctx.expired(), "context-leaked", "the context of task %d is still alive", t->id);
    }
    gens.clear();
    VF_EQ(LV.live.load(), 0, "values-leaked", "values alive");
    VF_EQ(LL.live.load(), 0, "locals-leaked", "locals alive");
    VF_EQ(LP.live.load(), 0, "private-data-leaked", "private data alive");
    if (ts.size() >= 3 && events >= 20) vf::nontrivial();
    VF_COUNT_N("events_nested", nested_events);
    if (max_depth >= 3) VF_COUNT("cases_nested_3_deep");
  }
};
}  // namespace

VF_MODE(stdmgr) {
  switch (R.below(4)) {
    case 0: {
      world<int64_t, void> w(R);
      w.run();
      break;
    }
    case 1: {
      world<void, pv> w(R);
      w.run();
      break;
    }
    case 2: {
      world<rv, void> w(R);
      w.run();
      break;
    }
    default: {
      world<rv, pv> w(R);
      w.run();
    }
  }
}
