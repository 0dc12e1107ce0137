// C17-C20: C++20 callables, generators, tasks and some/any/all.
// A world of coroutines, each interpreting a random script (make children, await children, shared coroutines, generators,
// plain suspensions and waits for several, kill, drop, set, reset, destroy); every co_await goes through a probe that
// records when the coroutine really suspends and continues, and the continuation is checked against what the target did.
#include "lib.h"

#include <libcopp/coroutine/algorithm.h>
#include <libcopp/coroutine/callable_promise.h>
#include <libcopp/coroutine/generator_promise.h>
#include <libcotask/task_promise.h>

#include <algorithm>
#include <array>
#include <coroutine>
#include <deque>
#include <list>
#include <optional>
#include <variant>

namespace {
using u64 = uint64_t;
using copp::promise_status;
using PS = promise_status;

vf::ledger LV;  // values
vf::ledger LL;  // locals of coroutine bodies
vf::ledger LP;  // private data of tasks

constexpr int SI(PS s) { return static_cast<int>(s); }

// ---- values ----------------------------------------------------------------------------------
struct rv {  // copyable, remembers being moved from
  vf::tv v;
  int st;  // 0: a value; else the status it was made from (plus 100)
  rv() : v(&LV, 0), st(99) {}
  explicit rv(PS s) : v(&LV, 0), st(100 + SI(s)) {}
  explicit rv(u64 x) : v(&LV, x), st(0) {}
};
struct mv {  // move only
  vf::tv v;
  int st;
  mv() : v(&LV, 0), st(99) {}
  explicit mv(PS s) : v(&LV, 0), st(100 + SI(s)) {}
  explicit mv(u64 x) : v(&LV, x), st(0) {}
  mv(mv &&) = default;
  mv &operator=(mv &&) = default;
  mv(const mv &) = delete;
  mv &operator=(const mv &) = delete;
};
struct pv {  // private data
  vf::tv v;
  pv() : v(&LP, 7) {}
};

// what a co_await gave
struct got {
  enum kind_t { VALUE, EMPTY, ERROR, NONE } k = NONE;
  u64 v = 0;
  int st = -1;  // status of an error value
};
template <class T>
got read_tracked(const T &x) {
  got g;
  if (x.st >= 100) {
    g.k = got::ERROR;
    g.st = x.st - 100;
  } else if (x.st == 99) {
    g.k = got::ERROR;
    g.st = 99;
  } else if (!x.v.has()) {
    g.k = got::EMPTY;
  } else {
    g.k = got::VALUE;
    g.v = x.v.get();
  }
  return g;
}
got read_value(const rv &x) { return read_tracked(x); }
got read_value(const mv &x) { return read_tracked(x); }
got read_value(int64_t x) {
  got g;
  if (x < 0) {
    g.k = got::ERROR;
    g.st = x == -1 ? SI(PS::kCreated) : static_cast<int>(-x);
  } else {
    g.k = got::VALUE;
    g.v = static_cast<u64>(x);
  }
  return g;
}
template <class V>
V make_value(u64 x) {
  if constexpr (std::is_same_v<V, int64_t>)
    return static_cast<int64_t>(x);
  else
    return V(x);
}

// ---- the world -------------------------------------------------------------------------------
using c_rv = copp::callable_future<rv>;
using c_i = copp::callable_future<int64_t>;
using c_v = copp::callable_future<void>;
using c_m = copp::callable_future<mv>;
using t_rv = cotask::task_future<rv, pv>;
using t_i = cotask::task_future<int64_t, void>;
using t_v = cotask::task_future<void, pv>;
using c_s = copp::callable_future<PS>;
using fut_t = std::variant<c_rv, c_i, c_v, c_m, t_rv, t_i, t_v, c_s>;
template <class F>
struct is_task : std::false_type {};
template <class A, class B, class C>
struct is_task<cotask::task_future<A, B, C>> : std::true_type {};

using g_rv = copp::generator_future<rv>;
using g_i = copp::generator_future<int64_t>;
using g_v = copp::generator_future<void>;
template <class V>
using gfut = copp::generator_future<V>;

struct node;
struct gen_base;
struct world;
world *W = nullptr;

struct holder {
  node *n;
  fut_t f;
  int pins = 0;
  template <class F>
  holder(node *nn, F &&x) : n(nn), f(std::in_place_type<std::decay_t<F>>, std::forward<F>(x)) {}
};
using holder_ptr = std::unique_ptr<holder>;

enum kind_t { K_CALL, K_TASK, K_SOME, K_THEN };

struct node {
  int id = 0;
  kind_t kind = K_CALL;
  bool is_void = false, is_int = false, is_ps = false, move_only = false;
  unsigned depth = 0;
  u64 script = 0;
  bool started = false;       // the body began
  bool start_ok = false;      // something entitled it to begin
  bool active = false;        // on the C++ stack
  bool suspended = false;     // suspended at one of the library's awaits
  bool sleeping = false;      // suspended at a plain awaitable
  bool in_await = false;      // between its co_await and the continuation
  bool returned = false, ended = false;
  u64 ret = 0;
  int last_status = SI(PS::kCreated);
  std::set<int> causes;       // statuses it may legitimately get (kills, inherited)
  bool dropped = false;
  node *waits_node = nullptr;
  gen_base *waits_gen = nullptr;
  node *creating = nullptr;  // a child whose body runs for the first time
  std::set<node *> waiters;       // suspended on me
  std::set<node *> due;           // were suspended on me when I returned
  unsigned reads = 0;             // finished reads after return
  int readers = 0;                // in a co_await of me and not suspended
  std::vector<holder_ptr> *held = nullptr;  // children owned by the frame
  std::vector<node *> ref_edges;  // THEN: the task its frame keeps
  std::list<holder *> holders;    // living futures
  int frames_locals = 0;
  long refs = 0;  // expected future count (tasks)
  bool priv_known = false;
  // SOME
  std::vector<gen_base *> some_gens;
  std::vector<gen_base *> some_registered;
  std::vector<node *> some_nodes;
  std::vector<holder *> some_pins;
  size_t want = 0, members = 0;
  bool some_killed = false;
  bool some_exact_checked = false;
  std::shared_ptr<void> some_out;
  std::function<size_t(bool)> some_ready_now;     // how many members are ready (true: completed)
  std::function<void(bool)> some_out_check;  // true: nothing else happened since it ended
  u64 cotask_id = 0;
  std::coroutine_handle<> sleep_handle;
};

struct gen_base {
  int id = 0;
  bool is_void = false, is_int = false;
  bool ready = false, gone = false;
  u64 cur = 0;
  int cur_err = 0;
  u64 sets = 0, resets = 0;
  std::set<node *> waiters, due;
  unsigned reads = 0;
  bool hook_suspend = false, hook_resume = false;
  int suspend_action = 0;  // 0 none, 1 keep the context, 2 set at once, 3 drop all handles, 4 set another generator
  u64 suspends = 0, resumes = 0, model_suspends = 0, model_resumes = 0;
  int outstanding_some = 0;
  int pins = 0;
  bool some_used = false;
  const void *raw = nullptr;
  virtual ~gen_base() {}
  virtual void set(u64 v) = 0;
  virtual void reset() = 0;
  virtual void add_copy(vf::rng &R) = 0;
  virtual size_t handles() const = 0;
  virtual bool drop_one(vf::rng &R) = 0;
  virtual void drop_all() = 0;
  virtual void check_state() = 0;
  virtual bool sync() = 0;  // the library may hold the context a little longer than its last handle: note its end
  virtual bool has_future() const = 0;
};

struct world {
  vf::rng *R = nullptr;
  std::vector<std::unique_ptr<node>> nodes;
  std::vector<std::unique_ptr<gen_base>> gens;
  std::vector<holder_ptr> shared;     // futures owned by the outside
  std::vector<holder_ptr> graveyard;  // to be destroyed when nothing runs
  u64 next_val = 1000;
  int budget = 0;
  int n_active = 0;
  int max_active = 0;
  bool calm = false;  // no kills and no drops of unfinished coroutines happened
  node *creator = nullptr;  // the next node is its child
  int w_call = 10, w_task = 0, w_gen = 10, w_some = 0, w_sleep = 3;  // weights
  u64 vf_events = 0;
  void ev(u64 a, u64 b, u64 c = 0) {
    ++vf_events;
    vf::tr(a * 1000003 + b, c);
    static const char *nm[] = {"", "suspend(node,target)", "continue", "sleep", "gen-set", "gen-gone", "gen-reset", "drop-unfinished", "body-begin",
                               "body-end", "kill(node,status)", "start", "wake", "some-begin", "some-end", "gen-hook", "bury", "status"};
    if (vf::g_verbose) fprintf(stderr, "  %*s%s %llu %llu\n", n_active * 2, "", nm[a], (unsigned long long)b, (unsigned long long)c);
  }
  u64 value() { return next_val++; }
};

// everything that ending n may touch: what it waits for and what its frame owns
void closure(node *n, std::set<node *> &out) {
  if (!n || !out.insert(n).second) return;
  closure(n->creating, out);
  if (n->in_await && n->waits_node && !n->waits_node->ended) closure(n->waits_node, out);
  for (auto *m : n->ref_edges) closure(m, out);
  if (n->held)
    for (auto &h : *n->held)
      if (h) closure(h->n, out);
}
PS status_now(holder &h) {
  return std::visit([](auto &f) { return f.get_status(); }, h.f);
}
bool detached(node *w) {  // ended from outside, and left suspended until its own future is destroyed
  return w->suspended && (w->last_status >= SI(PS::kDone) || (!w->holders.empty() && status_now(*w->holders.front()) >= PS::kDone));
}
// also through the members a wait for several refers to: no cycles are built through these
void closure_members(node *n, std::set<node *> &out) {
  if (!n || !out.insert(n).second) return;
  closure_members(n->creating, out);
  if (n->in_await && n->waits_node) closure_members(n->waits_node, out);
  for (auto *m : n->ref_edges) closure_members(m, out);
  if (!n->ended)
    for (auto *m : n->some_nodes) closure_members(m, out);
  if (n->held)
    for (auto &h : *n->held)
      if (h) closure_members(h->n, out);
}
bool safe_to_end(node *n, bool self_active_ok) {
  std::set<node *> c;
  closure(n, c);
  // children are only awaited by the frame that holds them, so only n can have detached waiters that outlive it
  for (auto *w : n->waiters)
    if (n->kind != K_SOME && detached(w)) return false;
  for (auto *m : c) {
    if (m->active && !(m == n && self_active_ok)) return false;
    // ended but its waiters are still being continued
    if (W->n_active && m->ended && !m->waiters.empty()) return false;
    // something is about to read its result
    if (m->readers) return false;
  }
  return true;
}

void see_status(node *n, PS s) {
  int v = SI(s);
  if (v == SI(PS::kInvalid)) {
    VF_CHECK(n->kind == K_TASK || n->kind == K_THEN, "status-order", "node %d reports the invalid status", n->id);
    return;  // a task whose frame is gone
  }
  VF_CHECK(v >= n->last_status, "status-order", "node %d went from status %d back to %d", n->id, n->last_status, v);
  VF_CHECK(n->last_status < SI(PS::kDone) || v == n->last_status, "status-not-final", "node %d changed its final status %d to %d",
           n->id, n->last_status, v);
  if (v > SI(PS::kDone) && n->last_status != v && n->kind != K_SOME) {
    VF_CHECK(n->causes.count(v), "status-without-cause", "node %d has status %d that nothing gave it", n->id, v);
  }
  n->last_status = v;
}

// statuses travel down from a waiter to the coroutines it waits for; children of a frame that ends may be killed
void allow(node *n, int st, std::set<std::pair<node *, int>> &seen) {
  if (!n || !seen.insert({n, st}).second) return;
  n->causes.insert(st);
  if (n->in_await) allow(n->waits_node, st, seen);
  if (n->held)
    for (auto &h : *n->held)
      if (h) {
        allow(h->n, SI(PS::kKilled), seen);
        allow(h->n, st, seen);
      }
  for (auto *m : n->ref_edges) allow(m, SI(PS::kKilled), seen);
}
void allow(node *n, int st) {
  std::set<std::pair<node *, int>> seen;
  allow(n, st, seen);
}

void bury(holder_ptr h);
void some_finish(node *n, bool exact);
bool some_is_ready(node *n) { return !n->holders.empty() && std::get<c_s>(n->holders.front()->f).is_ready(); }

struct runner {  // the body is on the stack
  node *n;
  explicit runner(node *nn) : n(nn) {
    VF_CHECK(!n->active, "resumed-while-running", "node %d runs twice at once", n->id);
    n->active = true;
    if (++W->n_active > W->max_active) W->max_active = W->n_active;
  }
  ~runner() {
    n->active = false;
    --W->n_active;
  }
};
void go_active(node *n) {
  VF_CHECK(!n->active, "resumed-while-running", "node %d continues while it is running", n->id);
  n->active = true;
  if (++W->n_active > W->max_active) W->max_active = W->n_active;
}
void go_inactive(node *n) {
  n->active = false;
  --W->n_active;
}

struct await_info {
  node *tn = nullptr;
  gen_base *tg = nullptr;
  bool suspended = false, resumed = false;
  bool was_due = false;     // the target finished while this one waited
  unsigned reads_before = 0;
  u64 sets_at_suspend = 0, resets_at_suspend = 0;
  bool ready_before = false;
  int own_at_resume = 0;
};

template <class AW>
struct probe {
  AW aw;
  node *n;
  await_info *info;  // in the frame of the awaiting coroutine
  // not an aggregate: gcc 13 copies aggregate temporaries of co_await expressions bitwise
  template <class MAKE>
  probe(MAKE &&make, node *nn, await_info *in) : aw(make()), n(nn), info(in) {}
  probe(const probe &) = delete;
  ~probe() {}
  bool await_ready() {
    n->in_await = true;
    if (info->tn) ++info->tn->readers;
    n->waits_node = info->tn;
    n->waits_gen = info->tg;
    info->ready_before = info->tn ? info->tn->returned : (info->tg->ready);
    bool r = aw.await_ready();
    if (info->tn && info->tn->kind != K_SOME)
      VF_CHECK(!info->tn->returned || r, "suspends-on-finished", "node %d would suspend on node %d, which has returned", n->id,
               info->tn->id);
    if (info->tg && !info->tg->gone)
      VF_CHECK(r == info->tg->ready, "generator-ready", "generator %d reports ready=%d, expected %d", info->tg->id, r, info->tg->ready);
    return r;
  }
  template <class P>
  bool await_suspend(std::coroutine_handle<P> h) {
    const bool dead = h.promise().get_status() >= PS::kDone;
    node *nn = n;
    await_info *in = info;
    if (!dead) {
      nn->suspended = true;
      in->suspended = true;
      if (in->tn) {
        in->tn->waiters.insert(nn);
        --in->tn->readers;
      }
      if (in->tg) {
        in->tg->waiters.insert(nn);
        ++in->tg->model_suspends;
        in->sets_at_suspend = in->tg->sets;
        in->resets_at_suspend = in->tg->resets;
      }
      go_inactive(nn);
      W->ev(1, nn->id, in->tn ? in->tn->id : in->tg->id + 1000);
      VF_COUNT("suspensions");
    } else {
      VF_COUNT("awaits_by_killed_coroutines");
    }
    bool r;
    {
      r = aw.await_suspend(h);
    }
    if (dead) {
      VF_CHECK(!r, "killed-suspends", "node %d suspends again although it was ended", nn->id);
    } else {
      VF_CHECK(r, "await-not-suspended", "node %d did not suspend on an unfinished target", nn->id);
    }
    return r;
  }
  decltype(auto) await_resume() {
    VF_CHECK(!info->resumed, "continued-twice", "node %d continued twice from one await", n->id);
    if (info->tg) info->tg->sync();
    info->resumed = true;
    if (info->suspended) {
      n->suspended = false;
      go_active(n);
      if (info->tn) {
        ++info->tn->readers;
        info->was_due = info->tn->due.erase(n) > 0;
        info->tn->waiters.erase(n);
      }
      if (info->tg) {
        info->was_due = info->tg->due.erase(n) > 0;
        info->tg->waiters.erase(n);
        ++info->tg->model_resumes;
      }
      W->ev(2, n->id);
      VF_COUNT("continuations");
    }
    info->reads_before = info->tn ? info->tn->reads : info->tg->reads;
    return aw.await_resume();
  }
};
template <class MAKE>
probe(MAKE &&, node *, await_info *) -> probe<std::invoke_result_t<MAKE>>;

struct sleep_aw {
  node *n;
  bool await_ready() const noexcept { return false; }
  void await_suspend(std::coroutine_handle<> h) {
    n->sleeping = true;
    n->sleep_handle = h;
    go_inactive(n);
    W->ev(3, n->id);
    VF_COUNT("plain_suspensions");
  }
  void await_resume() {
    n->sleeping = false;
    n->sleep_handle = nullptr;
    go_active(n);
  }
};

void check_result(node *n, await_info &in, got g) {
  n->in_await = false;
  if (in.tn) --in.tn->readers;
  n->waits_node = nullptr;
  n->waits_gen = nullptr;
  const int own = n->last_status;  // refreshed by the caller just before
  if (in.tg) {
    gen_base *t = in.tg;
    ++t->reads;
    switch (g.k) {
      case got::NONE:
        VF_CHECK(t->ready || t->gone || own >= SI(PS::kDone) || t->resets != in.resets_at_suspend, "continued-early",
                 "node %d continued from generator %d that is not set", n->id, t->id);
        break;
      case got::VALUE:
        VF_CHECK(t->ready && !t->cur_err, "generator-value", "node %d read value %llu from generator %d which is not set", n->id,
                 (unsigned long long)g.v, t->id);
        VF_CHECK(g.v == t->cur, "generator-value", "node %d read %llu from generator %d, set to %llu", n->id,
                 (unsigned long long)g.v, t->id, (unsigned long long)t->cur);
        VF_COUNT("values_delivered");
        break;
      case got::EMPTY:
        VF_CHECK(t->ready, "generator-value", "node %d read a moved-from value from an unset generator", n->id);
        VF_CHECK(!in.was_due && t->reads > 1, "waiter-got-moved-value",
                 "node %d waited on generator %d when it was set and read a moved-from value", n->id, t->id);
        VF_COUNT("moved_from_reads");
        break;
      case got::ERROR:
        VF_COUNT("errors_delivered");
        if (t->gone && t->cur_err) {
          VF_CHECK(g.st == t->cur_err || g.st == own, "generator-error", "node %d got status %d from destroyed generator %d", n->id,
                   g.st, t->id);
          break;
        }
        VF_CHECK(!t->ready, "generator-error", "node %d got error status %d from generator %d which is set", n->id, g.st, t->id);
        if (t->resets != in.resets_at_suspend && in.suspended && own < SI(PS::kDone)) break;  // reset before it could read
        VF_CHECK(own >= SI(PS::kDone), "continued-early", "node %d continued from generator %d that is not set (status %d)", n->id,
                 t->id, g.st);
        VF_CHECK(g.st == (in.suspended ? own : SI(PS::kKilled)), "error-status", "node %d with status %d got error status %d", n->id,
                 own, g.st);
        break;
    }
    return;
  }
  node *t = in.tn;
  ++t->reads;
  int ts = t->last_status;
  if (!t->holders.empty()) {
    PS s = status_now(*t->holders.front());
    if (s > PS::kDone) t->causes.insert(own);  // inherited from this waiter
    if (s > PS::kDone && !in.suspended) t->causes.insert(SI(PS::kKilled));
    see_status(t, s);
    ts = t->last_status;
  }
  if (t->kind == K_SOME) {
    if (!t->ended) {
      VF_CHECK(t->dropped || some_is_ready(t), "some-continued-early", "node %d continued from the wait %d, which has not ended", n->id, t->id);
      if (!t->dropped) some_finish(t, in.suspended);
    }
    VF_CHECK(g.st == SI(PS::kDone) ? true : (t->some_killed || t->dropped) && t->causes.count(g.st), "some-status",
             "the wait %d gave status %d (killed: %d)", t->id, g.st, t->some_killed || t->dropped);
    if (g.st == SI(PS::kDone)) {
      VF_COUNT("waits_for_several_done");
    } else
      VF_COUNT("waits_for_several_killed");
    return;
  }
  switch (g.k) {
    case got::NONE:
      VF_CHECK(t->returned || own >= SI(PS::kDone) || ts >= SI(PS::kDone), "continued-early",
               "node %d continued from node %d which has not returned", n->id, t->id);
      break;
    case got::VALUE:
      VF_CHECK(t->returned, "value-before-return", "node %d read a value of node %d which has not returned", n->id, t->id);
      VF_CHECK(g.v == t->ret, "wrong-value", "node %d read %llu from node %d which returned %llu", n->id, (unsigned long long)g.v,
               t->id, (unsigned long long)t->ret);
      VF_COUNT("values_delivered");
      break;
    case got::EMPTY:
      VF_CHECK(t->returned, "value-before-return", "node %d read a moved-from value of unfinished node %d", n->id, t->id);
      VF_CHECK((t->move_only || !in.was_due || own >= SI(PS::kDone)) && t->reads > 1, "waiter-got-moved-value",
               "node %d waited for node %d when it returned and read a moved-from value (reads %u, due %d, status %d, move-only %d)", n->id, t->id, t->reads, in.was_due, own, t->move_only);
      VF_COUNT("moved_from_reads");
      break;
    case got::ERROR: {
      VF_COUNT("errors_delivered");
      VF_CHECK(!t->returned, "error-after-return", "node %d got error status %d from node %d which returned a value", n->id, g.st,
               t->id);
      VF_CHECK(own >= SI(PS::kDone) || ts >= SI(PS::kDone), "continued-early", "node %d continued from unfinished node %d (status %d)",
               n->id, t->id, g.st);
      if (t->kind == K_CALL) {
        VF_CHECK(g.st == ts || t->holders.empty(), "error-status", "node %d got error status %d, the callable %d has status %d", n->id, g.st, t->id, ts);
      } else {
        VF_CHECK(g.st == SI(PS::kKilled) || g.st == own || g.st == ts, "error-status",
                 "node %d (status %d) got error status %d, the task %d has status %d", n->id, own, g.st, t->id, ts);
      }
      break;
    }
  }
}

// ---- generators ------------------------------------------------------------------------------
template <class V>
struct gen : gen_base {
  using fut = gfut<V>;
  using ctx = typename fut::context_pointer_type;
  using ctx_t = typename fut::context_type;
  std::list<std::unique_ptr<fut>> futs;
  std::list<ctx> ctxs;
  std::weak_ptr<ctx_t> weak;

  template <class S, class Rs>
  void build(S &&s, Rs &&r) {
    futs.push_back(std::make_unique<fut>(std::forward<S>(s), std::forward<Rs>(r)));
  }
  std::function<void(ctx)> suspend_hook() {
    return [this, mark = vf::tv(&LL, 77)](ctx c) {
      struct intact {  // the function object lives until it returns
        const vf::tv &m;
        ~intact() { VF_CHECK(m.get() == 77, "hook-destroyed", "a suspend hook was destroyed while it ran"); }
      } check{mark};
      VF_CHECK(c.get() == raw, "hook-context", "the suspend hook of generator %d got another context", id);
      ++suspends;
      VF_COUNT("suspend_hooks");
      W->ev(15, id, suspend_action);
      int a = suspend_action;
      if (a == 1 && ctxs.size() < 4) ctxs.push_back(c);
      if (a == 2 && W->budget > 0) {
        --W->budget;
        mark_set(W->value(), 0);
        do_set(*c);
      }
      if (a == 4 && W->budget > 0) {
        --W->budget;
        size_t at = W->R->below(W->gens.size());
        gen_base *other = W->gens[at].get();
        if (other != this && !other->gone) other->set(W->value());
      }
      if (a == 3 && !pins) {
        ctxs.clear();
        futs.clear();
      }
      if (c.use_count() == 1 && !gone) mark_gone();
    };
  }
  std::function<void(const ctx_t &)> resume_hook() {
    return [this, mark = vf::tv(&LL, 78)](const ctx_t &c) {
      VF_CHECK(mark.get() == 78, "hook-destroyed", "a resume hook is destroyed");
      VF_CHECK(&c == raw, "hook-context", "the resume hook of generator %d got another context", id);
      ++resumes;
      VF_COUNT("resume_hooks");
    };
  }
  explicit gen(vf::rng &R) {
    is_void = std::is_void_v<V>;
    is_int = std::is_same_v<V, int64_t>;
    unsigned h = static_cast<unsigned>(R.below(8));
    hook_suspend = h != 0;
    hook_resume = h > 1;
    unsigned a = static_cast<unsigned>(R.below(14));
    suspend_action = a < 6 ? 0 : a < 9 ? 1 : a < 11 ? 2 : a < 12 ? 3 : 4;
    if (hook_suspend && hook_resume)
      build(suspend_hook(), resume_hook());
    else if (hook_suspend) {
      if (R.chance(50))
        build(suspend_hook(), nullptr);
      else
        futs.push_back(std::make_unique<fut>(suspend_hook()));
    } else
      futs.push_back(std::make_unique<fut>(nullptr));
    raw = futs.front()->get_context().get();
    weak = futs.front()->get_context();
  }
  void mark_set(u64 v, int err) {
    ready = true;
    cur = v;
    cur_err = err;
    ++sets;
    reads = 0;
    due = waiters;
    W->ev(4, id, sets);
    VF_COUNT("generator_sets");
  }
  void mark_gone() {
    if (!ready && !is_void) mark_set(0, SI(PS::kKilled));
    due = waiters;
    gone = true;
    W->ev(5, id);
    VF_COUNT("generators_destroyed");
  }
  void do_set(ctx_t &c) {
    if constexpr (std::is_void_v<V>)
      c.set_value();
    else
      c.set_value(make_value<V>(cur));
  }
  ctx lock() {
    return weak.lock();
  }
  void set(u64 v) override {
    // hold a reference half of the time only: setting through a context that the woken code releases
    ctx c = lock();
    if (!c) return;
    mark_set(v, 0);
    if (W->R->chance(50)) {
      ctx_t *p = c.get();
      c.reset();
      do_set(*p);
      return;
    }
    do_set(*c);
    drop_ref(c);
  }
  void drop_ref(ctx &c) {
    if (c && c.use_count() == 1 && !gone) mark_gone();
    c.reset();
  }
  void reset() override {
    ctx c = lock();
    if (!c) return;
    ready = false;
    cur_err = 0;
    ++resets;
    c->reset_value();
    W->ev(6, id);
    VF_COUNT("generator_resets");
    drop_ref(c);
  }
  void add_copy(vf::rng &R) override {
    if (futs.size() + ctxs.size() > 4) return;
    if (futs.empty()) return;
    switch (R.below(4)) {
      case 0:
        futs.push_back(std::make_unique<fut>(std::as_const(*futs.front())));
        break;
      case 1:
        if (!pins) {
          auto f = std::make_unique<fut>(std::move(*futs.front()));
          futs.pop_front();
          futs.push_back(std::move(f));
        }
        break;
      case 2:
        ctxs.push_back(futs.front()->get_context());
        break;
      default: {
        fut a(std::as_const(*futs.front()));
        fut b(std::move(a));
        a = b;
        b = std::move(a);
        futs.push_back(std::make_unique<fut>(std::as_const(b)));
      }
    }
  }
  size_t handles() const override { return futs.size() + ctxs.size(); }
  bool has_future() const override { return !futs.empty(); }
  bool drop_one(vf::rng &R) override {
    if (!handles() || gone) return false;
    if (!ctxs.empty() && (futs.empty() || R.chance(50))) {
      ctx c = std::move(ctxs.front());
      ctxs.pop_front();
      drop_ref(c);
      return true;
    }
    if (futs.empty() || pins) return false;
    auto f = std::move(futs.front());
    futs.pop_front();
    if (f->get_context().use_count() == 1 && !gone) mark_gone();
    f.reset();
    return true;
  }
  void drop_all() override {
    vf::rng r(1);
    while (handles() && drop_one(r)) {
    }
  }
  bool sync() override {
    if (!gone && weak.expired()) mark_gone();
    return gone;
  }
  void check_state() override {
    ctx c = lock();
    if (!c) {
      VF_CHECK(gone || !handles(), "generator-lost", "generator %d vanished", id);
      sync();
      return;
    }
    VF_CHECK(c->is_ready() == ready, "generator-state", "generator %d ready=%d, expected %d", id, c->is_ready(), ready);
    VF_CHECK(c->is_pending() == !ready, "generator-state", "generator %d pending=%d, ready=%d", id, c->is_pending(), ready);
    for (auto &f : futs) {
      VF_CHECK(f->is_ready() == ready && f->is_pending() == !ready, "generator-state", "future of generator %d disagrees", id);
      VF_EQ(SI(f->get_status()), SI(ready ? PS::kDone : PS::kRunning), "generator-state", "status of a generator");
    }
  }
};

// ---- holders ---------------------------------------------------------------------------------
holder_ptr new_holder(node *n, fut_t &&f) {
  auto h = std::visit([&](auto &&x) { return std::make_unique<holder>(n, std::move(x)); }, std::move(f));
  n->holders.push_back(h.get());
  if (n->kind == K_TASK) ++n->refs;
  return h;
}
bool is_last_holder(holder &h) { return h.n->holders.size() == 1; }

void destroy_now(holder_ptr h) {
  node *n = h->n;
  const bool last = is_last_holder(*h);
  bool kills = false;
  if (last && !n->ended && n->kind != K_SOME) {
    kills = n->kind != K_TASK;
    if (n->kind == K_TASK || n->kind == K_THEN) {
      size_t refs = std::visit(
          [](auto &f) -> size_t {
            if constexpr (is_task<std::decay_t<decltype(f)>>::value)
              return f.get_ref_future_count();
            else
              return 1;
          },
          h->f);
      kills = refs == 1;
    }
  }
  if (kills) {
    W->calm = false;
    n->dropped = true;
    n->start_ok = true;
    allow(n, SI(PS::kKilled));
    for (int c : n->causes) allow(n, c);
    W->ev(7, n->id);
    VF_COUNT("unfinished_dropped");
  }
  if (n->kind == K_SOME) {
    if (!n->ended && some_is_ready(n)) some_finish(n, false);
    if (!n->ended) {
      n->dropped = true;
      n->some_killed = true;
      allow(n, SI(PS::kKilled));
      W->ev(7, n->id);
      VF_COUNT("waits_for_several_dropped");
    }
  }
  n->holders.remove(h.get());
  if (n->kind == K_TASK) --n->refs;
  h.reset();
  if (n->kind == K_SOME && !n->ended) some_finish(n, false);
  if (kills) VF_CHECK(n->ended || n->kind == K_THEN, "drop-does-not-end", "node %d was dropped and did not run to its end", n->id);
}
// destroys a future, or keeps it until nothing runs if the coroutine must not be destroyed now
void bury(holder_ptr h) {
  if (!h) return;
  if (h->pins || !safe_to_end(h->n, false) || (h->n->kind == K_SOME && W->n_active)) {
    W->graveyard.push_back(std::move(h));
    return;
  }
  destroy_now(std::move(h));
}
struct frame_guard {  // declared first in every body: destroyed last
  node *n;
  std::vector<holder_ptr> held;
  vf::tv local;
  explicit frame_guard(node *nn) : n(nn), local(&LL, nn->id) {
    VF_CHECK(!n->started, "body-ran-twice", "the body of node %d ran twice", n->id);
    VF_CHECK(n->start_ok, "started-by-itself", "the body of node %d ran before anything started it", n->id);
    n->started = true;
    n->held = &held;
    ++n->frames_locals;
    go_active(n);
    W->ev(8, n->id);
    VF_COUNT("bodies_started");
  }
  frame_guard(const frame_guard &) = delete;
  ~frame_guard() {
    while (!held.empty()) {
      holder_ptr h = std::move(held.back());
      held.pop_back();
      bury(std::move(h));
    }
    n->held = nullptr;
    VF_CHECK(n->returned, "frame-destroyed-early", "the frame of node %d was destroyed before it returned", n->id);
    VF_CHECK(local.get() == (u64)n->id, "frame-corrupt", "locals of node %d are damaged", n->id);
    --n->frames_locals;
    n->ended = true;
    n->due = n->waiters;
    go_inactive(n);
    W->ev(9, n->id);
    VF_COUNT("bodies_ended");
  }
};

node *new_node(kind_t k, unsigned depth) {
  W->nodes.push_back(std::make_unique<node>());
  node *n = W->nodes.back().get();
  n->id = static_cast<int>(W->nodes.size());
  n->kind = k;
  n->depth = depth;
  n->script = W->R->next();
  if (W->creator) {
    W->creator->creating = n;
    W->creator = nullptr;
  }
  return n;
}

holder_ptr make_call(unsigned depth);
holder_ptr make_task(unsigned depth);
holder_ptr make_some(vf::rng &R, node *by);
void outside_op(vf::rng &R, node *by);
gen_base *new_gen(vf::rng &R);

holder *pick_future(vf::rng &R, node *by, bool want_task_or_call = true) {
  (void)want_task_or_call;
  std::vector<holder *> c;
  for (auto &h : W->shared)
    if (h) c.push_back(h.get());
  if (by && by->held)
    for (auto &h : *by->held)
      if (h) {
        c.push_back(h.get());
        c.push_back(h.get());
      }
  if (c.empty()) return nullptr;
  return c[R.below(c.size())];
}

// whoever starts or kills a task holds a reference during the call
holder_ptr another_reference(holder &h) {
  return std::visit(
      [&](auto &f) -> holder_ptr {
        if constexpr (is_task<std::decay_t<decltype(f)>>::value) {
          auto copy = f;
          return new_holder(h.n, std::move(copy));
        } else
          return nullptr;
      },
      h.f);
}

void do_kill(vf::rng &R, holder &h) {
  node *n = h.n;
  static const PS sts[] = {PS::kCancle, PS::kKilled, PS::kTimeout};
  PS st = sts[R.below(3)];
  bool force = !n->active && !n->in_await && R.chance(30);
  if (n->active ? false : !safe_to_end(n, false)) return;
  if (n->in_await && !n->suspended) return;  // inside its own continuation
  const PS before = status_now(h);
  if (before == PS::kInvalid) return;
  if (n->kind == K_SOME && !n->ended && some_is_ready(n)) some_finish(n, false);
  if (n->kind == K_SOME && W->n_active && !n->ended) return;
  see_status(n, before);
  const bool was_suspended = n->suspended, was_active = n->active;
  std::vector<node *> chain;  // callables it waits for
  for (node *x = n->suspended ? n->waits_node : nullptr; x && (x->kind == K_CALL); x = x->suspended ? x->waits_node : nullptr) {
    if (!x->holders.empty()) see_status(x, status_now(*x->holders.front()));
    if (x->returned || x->last_status >= SI(PS::kDone)) break;
    chain.push_back(x);
    if (x->active) break;
  }
  const bool expect = before < PS::kDone && !n->ended;
  if (expect) {
    W->calm = false;
    allow(n, SI(st));
    n->start_ok = n->start_ok || force;
  }
  W->ev(10, n->id, SI(st));
  bool ret;
  const bool cancel_api = R.chance(50);
  holder_ptr copy = another_reference(h);
  {
    ret = std::visit(
        [&](auto &f) {
          if constexpr (is_task<std::decay_t<decltype(f)>>::value) {
            if (st == PS::kCancle && cancel_api) return f.cancel(force);
            if (st == PS::kKilled && cancel_api) return f.kill(force);
          }
          return f.kill(st, force);
        },
        (copy ? *copy : h).f);
  }
  VF_CHECK(ret == expect, "kill-result", "kill of node %d (status %d) gave %d, expected %d", n->id, SI(before), ret, expect);
  if (!ret) {
    VF_COUNT("kills_refused");
    bury(std::move(copy));
    return;
  }
  VF_COUNT("kills");
  if (was_suspended && !was_active)
    VF_CHECK(n->ended || n->sleeping || n->kind == K_SOME || n->kind == K_THEN, "kill-does-not-end", "node %d was killed and did not run to its end", n->id);
  n->last_status = SI(st);
  if (n->kind == K_SOME) {
    VF_CHECK(some_is_ready(n), "kill-does-not-end", "the wait %d was killed and did not end", n->id);
    some_finish(n, false);
  }
  for (auto *x : chain) {
    if (x->holders.empty()) continue;
    PS s = status_now(*x->holders.front());
    VF_CHECK(s == st || x->returned, "kill-not-passed-on", "node %d was killed with %d, node %d it waits for has status %d", n->id, SI(st),
             x->id, SI(s));
    if (s >= PS::kDone) see_status(x, s);
    VF_COUNT("kills_passed_on");
  }
  bury(std::move(copy));
}

void do_start(holder &h) {
  node *n = h.n;
  holder_ptr copy = another_reference(h);
  if (!copy) return;
  std::visit(
      [&](auto &f) {
        if constexpr (is_task<std::decay_t<decltype(f)>>::value) {
          PS before = f.get_status();
          see_status(n, before);
          bool expect = before == PS::kCreated && !n->ended;
          if (expect) n->start_ok = true;
          W->ev(11, n->id, expect);
          bool was = n->started;
          bool r = f.start();
          VF_CHECK(r == expect, "start-result", "start of task %d (status %d) gave %d", n->id, SI(before), r);
          if (r)
            VF_CHECK(n->started && !was, "start-does-nothing", "task %d was started and did not run", n->id);
          else
            VF_CHECK(n->started == was, "start-refused-runs", "task %d ran although start was refused", n->id);
          VF_COUNT("task_starts");
        }
      },
      copy->f);
  bury(std::move(copy));
}

void copy_task(vf::rng &R, holder &h, std::vector<holder_ptr> &to) {
  if (h.n->kind != K_TASK || h.n->holders.size() > 4) return;
  std::visit(
      [&](auto &f) {
        using F = std::decay_t<decltype(f)>;
        if constexpr (is_task<F>::value) {
          F c(f);
          switch (R.below(4)) {
            case 0: {
              F d(std::move(c));
              VF_CHECK(!c && d, "task-handle", "moved-from task handle is still valid");
              c = d;
              break;
            }
            case 1: {
              F d;
              d = std::move(c);
              VF_CHECK(!c, "task-handle", "moved-from task handle is still valid");
              c.assign(d);
              c = c;
              break;
            }
            case 2: {
              F d = c;
              VF_CHECK(d == c && !(d != c), "task-handle", "copies of a task handle differ");
              d.reset();
              VF_CHECK(!d && d != c, "task-handle", "reset handle is still valid");
              break;
            }
            default:
              break;
          }
          VF_EQ(c.get_id(), f.get_id(), "task-handle", "id through a copied handle");
          to.push_back(new_holder(h.n, std::move(c)));
        }
      },
      h.f);
}

// an op done from outside (by==null) or from inside the body of `by`
void outside_op(vf::rng &R, node *by) {
  if (W->budget <= 0) return;
  --W->budget;
  vf::beat();
  unsigned op = static_cast<unsigned>(R.below(100));
  auto live_gen = [&]() -> gen_base * {
    std::vector<gen_base *> c;
    for (auto &g : W->gens)
      if (!g->gone) c.push_back(g.get());
    return c.empty() ? nullptr : c[R.below(c.size())];
  };
  if (op < 30) {
    if (auto *g = live_gen()) g->set(W->value());
  } else if (op < 35) {
    if (auto *g = live_gen())
      if (!g->outstanding_some) g->reset();
  } else if (op < 40) {
    if (auto *g = live_gen()) g->drop_one(R);
  } else if (op < 44) {
    if (auto *g = live_gen()) g->add_copy(R);
  } else if (op < 50) {
    if (W->gens.size() < 12) new_gen(R);
  } else if (op < 62) {
    std::vector<node *> c;
    for (auto &n : W->nodes)
      if (n->sleeping) c.push_back(n.get());
    if (!c.empty()) {
      node *n = c[R.below(c.size())];
      W->ev(12, n->id);
      auto hd = n->sleep_handle;
      hd.resume();
    }
  } else if (op < 72) {
    if (auto *h = pick_future(R, by)) do_kill(R, *h);
  } else if (op < 80) {
    auto &v = by && by->held && R.chance(50) ? *by->held : W->shared;
    if (!v.empty()) {
      size_t i = R.below(v.size());
      holder_ptr h = std::move(v[i]);
      v.erase(v.begin() + static_cast<long>(i));
      if (by && h && h->n == by) {
        W->graveyard.push_back(std::move(h));
      } else
        bury(std::move(h));
    }
  } else if (op < 90) {
    std::vector<holder *> c;
    for (auto &h : W->shared)
      if (h && h->n->kind == K_TASK) c.push_back(h.get());
    if (by && by->held)
      for (auto &h : *by->held)
        if (h && h->n->kind == K_TASK) c.push_back(h.get());
    if (!c.empty()) do_start(*c[R.below(c.size())]);
  } else if (op < 94) {
    if (auto *h = pick_future(R, by)) {
      std::vector<holder_ptr> tmp;
      copy_task(R, *h, tmp);
      for (auto &x : tmp) W->shared.push_back(std::move(x));
    }
  } else {
    unsigned depth = by ? by->depth + 1 : 0;
    if (W->shared.size() < 16 && depth < 6) {
      holder_ptr h;
      if (static_cast<int>(R.below(static_cast<u64>(W->w_call + W->w_task))) < W->w_call)
        h = make_call(depth);
      else
        h = make_task(depth);
      W->shared.push_back(std::move(h));
    }
  }
}

template <class V>
V finish(node *n) {
  u64 v = W->value();
  n->ret = v;
  n->returned = true;
  if constexpr (!std::is_void_v<V>) return make_value<V>(v);
}

#define AWAIT_VOID(expr)                                   \
  do {                                                     \
    co_await probe([&] { return expr; }, n, &info);                        \
    PS st_now = co_yield F::yield_status();                  \
    see_status(n, st_now);                                   \
    got gg;                                                \
    check_result(n, info, gg);                             \
  } while (0)
#define AWAIT_VALUE(expr)                                  \
  do {                                                     \
    auto val = co_await probe([&] { return expr; }, n, &info);             \
    PS st_now = co_yield F::yield_status();                  \
    see_status(n, st_now);                                   \
    check_result(n, info, read_value(val));                \
  } while (0)

// can `n` wait for `t` without building a cycle
bool may_wait(node *n, node *t, PS own) {
  if (n == t) return false;
  std::set<node *> c;
  closure_members(t, c);
  if (c.count(n)) return false;
  c.clear();
  closure(t, c);
  for (auto *m : c) {
    if (m->active && m != t && own >= PS::kDone) return false;
    if (m->active && own >= PS::kDone) return false;
  }
  // a callable or task that something active runs may be awaited by a live coroutine
  return true;
}

template <class F>
F body(node *n) {
  using V = typename F::value_type;
  frame_guard fg(n);
  vf::rng R(n->script);
  if constexpr (is_task<F>::value) {
    u64 tid = co_yield F::yield_task_id();
    VF_CHECK(n->cotask_id == 0 || tid == n->cotask_id, "task-id", "task %d sees id %llu inside, %llu outside", n->id,
             (unsigned long long)tid, (unsigned long long)n->cotask_id);
    if constexpr (!std::is_void_v<typename F::private_data_type>) {
      pv *p = co_yield F::yield_private_data();
      VF_CHECK(p != nullptr, "private-data", "no private data inside the task");
      VF_CHECK(p->v.get() == 7 || p->v.get() == (u64)n->id, "private-data", "private data of task %d is damaged", n->id);
      p->v = vf::tv(&LP, n->id);
    }
  }
  int steps = static_cast<int>(R.below(7));
  for (int i = 0; i < steps && W->budget > 0; ++i) {
    --W->budget;
    PS own = co_yield F::yield_status();
    see_status(n, own);
    unsigned op = static_cast<unsigned>(R.below(100));
    // 0 nothing, 1 await generator, 2 await future, 3 sleep, 4 child, 5 temporary generator, 6 op, 7 some
    int act;
    if (op < 28)
      act = 1;
    else if (op < 58)
      act = 2;
    else if (op < 58 + (unsigned)W->w_sleep)
      act = 3;
    else if (op < 75)
      act = 4;
    else if (op < 78)
      act = 5;
    else if (op < 78 + (unsigned)W->w_some)
      act = 7;
    else
      act = 6;
    holder *target = nullptr;
    gen_base *tg = nullptr;
    if (act == 1) {
      std::vector<gen_base *> c;
      for (auto &g : W->gens)
        if (!g->gone && g->has_future()) c.push_back(g.get());
      if (c.empty()) continue;
      tg = c[R.below(c.size())];
    } else if (act == 3) {
      if (own >= PS::kDone && R.chance(70)) continue;
      co_await sleep_aw{n};
      continue;
    } else if (act == 4) {
      if (n->depth >= 6) continue;
      holder_ptr h;
      W->creator = n;
      if (static_cast<int>(R.below(static_cast<u64>(W->w_call + W->w_task))) < W->w_call)
        h = make_call(n->depth + 1);
      else {
        h = make_task(n->depth + 1);
        if (R.chance(60)) do_start(*h);
      }
      // the child may have run code that killed this coroutine or awaits others: own status may have changed
      fg.held.push_back(std::move(h));
      n->creating = nullptr;
      if (R.chance(75)) {
        PS now = co_yield F::yield_status();
        own = now;
        see_status(n, own);
        target = fg.held.back().get();
      } else
        continue;
    } else if (act == 6) {
      outside_op(R, n);
      continue;
    } else if (act == 7) {
      W->creator = n;
      holder_ptr h = make_some(R, n);
      fg.held.push_back(std::move(h));
      n->creating = nullptr;
      if (R.chance(80))
        target = fg.held.back().get();
      else
        continue;
      PS now = co_yield F::yield_status();
      own = now;
      see_status(n, own);
    } else if (act == 2) {
      target = pick_future(R, n);
      if (!target) continue;
    }
    await_info info;
    if (tg) {
      info.tg = tg;
      if (auto *g = dynamic_cast<gen<rv> *>(tg)) {
        AWAIT_VALUE(g->futs.front()->operator co_await());
      } else if (auto *gi = dynamic_cast<gen<int64_t> *>(tg)) {
        AWAIT_VALUE(gi->futs.front()->operator co_await());
      } else if (auto *gv = dynamic_cast<gen<void> *>(tg)) {
        AWAIT_VOID(gv->futs.front()->operator co_await());
      }
      continue;
    }
    if (act == 5) {
      if (W->gens.size() > 14) continue;
      // a generator that lives in the full expression only; its context is kept by the suspend hook or nobody
      W->gens.push_back(std::make_unique<gen<rv>>(R));
      auto *g = static_cast<gen<rv> *>(W->gens.back().get());
      g->id = static_cast<int>(W->gens.size());
      info.tg = g;
      {
        std::unique_ptr<g_rv> mine = std::move(g->futs.front());
        g->futs.pop_front();
        if (own < PS::kDone && (!g->hook_suspend || g->suspend_action == 0 || g->suspend_action == 3)) g->ctxs.push_back(mine->get_context());
        AWAIT_VALUE(mine->operator co_await());
        if (mine->get_context().use_count() == 1 && !g->gone) g->mark_gone();
        mine.reset();
      }
      continue;
    }
    if (!target) continue;
    node *t = target->n;
    if (!may_wait(n, t, own)) continue;
    info.tn = t;
    if (own >= PS::kDone) {
      if (t->kind != K_TASK || true) {
        allow(t, SI(own));
        allow(t, SI(PS::kKilled));
      }
    }
    switch (target->f.index()) {
      case 0:
        AWAIT_VALUE(std::get<0>(target->f).operator co_await());
        break;
      case 1:
        AWAIT_VALUE(std::get<1>(target->f).operator co_await());
        break;
      case 2:
        AWAIT_VOID(std::get<2>(target->f).operator co_await());
        break;
      case 3:
        AWAIT_VALUE(std::get<3>(target->f).operator co_await());
        break;
      case 4:
        AWAIT_VALUE(std::get<4>(target->f).operator co_await());
        break;
      case 5:
        AWAIT_VALUE(std::get<5>(target->f).operator co_await());
        break;
      case 6:
        AWAIT_VOID(std::get<6>(target->f).operator co_await());
        break;
      case 7: {
        PS s = co_await probe([&] { return std::get<7>(target->f).operator co_await(); }, n, &info);
        PS st_now = co_yield F::yield_status();
        see_status(n, st_now);
        got g;
        g.st = SI(s);
        check_result(n, info, g);
        break;
      }
      default:
        break;
    }
  }
  if constexpr (std::is_void_v<V>) {
    finish<void>(n);
    co_return;
  } else {
    co_return finish<V>(n);
  }
}

holder_ptr make_call(unsigned depth) {
  node *n = new_node(K_CALL, depth);
  n->start_ok = true;
  switch (W->R->below(7)) {
    case 0:
    case 1:
    case 2:
      return new_holder(n, body<c_rv>(n));
    case 3:
      n->is_int = true;
      return new_holder(n, body<c_i>(n));
    case 4:
    case 5:
      n->is_void = true;
      return new_holder(n, body<c_v>(n));
    default:
      n->move_only = true;
      return new_holder(n, body<c_m>(n));
  }
}
holder_ptr make_task(unsigned depth) {
  node *n = new_node(K_TASK, depth);
  switch (W->R->below(4)) {
    case 0:
    case 1: {
      auto f = body<t_rv>(n);
      n->cotask_id = f.get_id();
      VF_CHECK(f.get_private_data() && f.get_private_data()->v.get() == 7, "private-data", "fresh private data");
      VF_EQ(SI(f.get_status()), SI(PS::kCreated), "task-created", "status of a new task");
      return new_holder(n, std::move(f));
    }
    case 2: {
      n->is_int = true;
      auto f = body<t_i>(n);
      n->cotask_id = f.get_id();
      return new_holder(n, std::move(f));
    }
    default: {
      n->is_void = true;
      auto f = body<t_v>(n);
      n->cotask_id = f.get_id();
      return new_holder(n, std::move(f));
    }
  }
}
gen_base *new_gen(vf::rng &R) {
  switch (R.below(5)) {
    case 0:
    case 1:
    case 2:
      W->gens.push_back(std::make_unique<gen<rv>>(R));
      break;
    case 3:
      W->gens.push_back(std::make_unique<gen<int64_t>>(R));
      break;
    default:
      W->gens.push_back(std::make_unique<gen<void>>(R));
  }
  W->gens.back()->id = static_cast<int>(W->gens.size());
  return W->gens.back().get();
}

// a wait for several ended (or its future is being destroyed)
void some_finish(node *n, bool exact) {
  n->ended = true;
  n->returned = true;
  if (!n->holders.empty()) {
    PS st = status_now(*n->holders.front());
    VF_CHECK(st >= PS::kDone, "some-status", "the wait %d ended with status %d", n->id, SI(st));
    if (st > PS::kDone) {
      VF_CHECK(n->causes.count(SI(st)), "status-without-cause", "the wait %d has status %d that nothing gave it", n->id, SI(st));
      n->some_killed = true;
    } else
      n->some_killed = false;
  }
  W->ev(14, n->id, n->some_killed);
  for (auto *g : n->some_registered) ++g->model_resumes;
  if (!n->dropped || n->some_out) n->some_out_check(exact && !n->some_killed);
  if (!n->some_killed) {
    VF_CHECK(n->some_ready_now(false) >= n->want, "some-ended-early", "the wait %d for %zu of %zu members ended when only %zu are ready", n->id,
             n->want, n->members, n->some_ready_now(false));
    VF_COUNT("waits_for_several_ended");
  }
  for (auto *h : n->some_pins) --h->pins;
  for (auto *g : n->some_gens) {
    --g->pins;
    --g->outstanding_some;
  }
}

alignas(16) char some_filler[64];  // its address stands for something an earlier wait reported
template <class F>
bool member_ready(F &f) {
  if constexpr (is_task<F>::value)
    return f.is_exiting();
  else
    return f.get_status() >= PS::kDone;
}

template <class F>
holder_ptr start_some(vf::rng &R, node *by, std::vector<F *> mem, std::vector<holder *> pins, std::vector<gen_base *> gens) {
  node *n = new_node(K_SOME, by->depth + 1);
  using out_t = typename copp::some_ready<F>::type;
  auto out = std::make_shared<out_t>();
  n->some_out = out;
  n->members = mem.size();
  size_t count;
  unsigned api = static_cast<unsigned>(R.below(4));
  if (api == 0)
    count = 1;
  else if (api == 1)
    count = mem.size();
  else
    count = R.chance(10) ? static_cast<size_t>(-1) - R.below(2) : R.below(mem.size() + 3);
  n->want = std::min(count, mem.size());
  n->some_pins = pins;
  n->some_gens = gens;
  std::set<F *> ready0;
  for (size_t i = 0; i < mem.size(); ++i)
    if (member_ready(*mem[i])) ready0.insert(mem[i]);
  for (auto *h : pins) {
    ++h->pins;
    n->some_nodes.push_back(h->n);
  }
  for (auto *g : gens) {
    ++g->pins;
    ++g->outstanding_some;
    g->some_used = true;
  }
  const bool at_once = ready0.size() >= count;
  if (!at_once)
    for (auto *g : gens)
      if (!g->ready) {
        n->some_registered.push_back(g);
        ++g->model_suspends;
      }
  n->some_ready_now = [n, mem, gens](bool completed) {
    size_t c = 0;
    if (!gens.empty()) {
      for (auto *g : gens) c += g->ready;
      return c;
    }
    for (size_t i = 0; i < mem.size(); ++i) c += completed ? n->some_nodes[i]->ended : n->some_nodes[i]->ended || member_ready(*mem[i]);
    return c;
  };
  n->some_out_check = [n, mem, out](bool exact) {
    std::set<F *> got;
    for (auto &x : *out) {
      F *f = x;
      VF_CHECK(std::find(mem.begin(), mem.end(), f) != mem.end(), "some-output", "the wait %d reported something that is not a member", n->id);
      VF_CHECK(got.insert(f).second, "some-output", "the wait %d reported a member twice", n->id);
      VF_CHECK(member_ready(*f), "some-output", "the wait %d reported a member that is not ready", n->id);
    }
    if (!n->some_killed)
      VF_CHECK(got.size() >= n->want, "some-output", "the wait %d for %zu of %zu reported %zu members", n->id, n->want, n->members, got.size());
    if (exact)
      for (auto *f : mem) {
        VF_CHECK(got.count(f) == member_ready(*f), "some-output", "the wait %d ended and left out a ready member", n->id);
        VF_COUNT("members_checked_exactly");
      }
  };
  if (R.chance(40))  // a reused output container
    for (u64 k = R.range(1, 6); k; --k) out->push_back(copp::gsl::make_not_null(mem.empty() ? reinterpret_cast<F *>(&some_filler) : mem[R.below(mem.size())]));
  W->ev(13, n->id, mem.size() * 100 + count % 100);
  VF_COUNT("waits_for_several");
  if (R.chance(15)) std::reverse(mem.begin(), mem.end());
  auto call = [&](auto &&set) -> c_s {
    if (api == 0) return copp::any(*out, set);
    if (api == 1) return copp::all(*out, set);
    return copp::some(*out, count, set);
  };
  auto begin = [&]() -> c_s {
    switch (R.below(3)) {
      case 0: {
        std::vector<copp::gsl::not_null<F *>> v;
        for (auto *f : mem) v.push_back(copp::gsl::make_not_null(f));
        return call(v);
      }
      case 1: {
        std::vector<std::reference_wrapper<F>> v;
        for (auto *f : mem) v.push_back(std::ref(*f));
        return call(v);
      }
      default: {
        std::vector<copp::gsl::not_null<F *>> v;
        for (auto *f : mem) v.push_back(copp::gsl::make_not_null(f));
        copp::gsl::span<copp::gsl::not_null<F *>> sp(v.data(), v.size());
        return call(sp);
      }
    }
  };
  c_s s = begin();
  holder_ptr h = new_holder(n, std::move(s));
  if (at_once || mem.empty()) {
    VF_CHECK(some_is_ready(n), "some-suspends-on-ready", "the wait %d needs %zu members, %zu were ready, and it waits", n->id, n->want, ready0.size());
    some_finish(n, false);
    std::set<F *> got;
    for (auto &x : *out) got.insert(static_cast<F *>(x));
    VF_CHECK(got == ready0, "some-output", "the wait %d reported %zu members, %zu were ready", n->id, got.size(), ready0.size());
    VF_COUNT("waits_for_several_at_once");
  } else if (some_is_ready(n))
    some_finish(n, false);
  return h;
}

template <class F>
holder_ptr some_of_nodes(vf::rng &R, node *by) {
  std::vector<F *> mem;
  std::vector<holder *> pins;
  std::set<node *> seen;
  size_t max = R.below(6);
  auto consider = [&](holder_ptr &h) {
    if (!h || mem.size() >= max) return;
    auto *f = std::get_if<F>(&h->f);
    if (!f || !seen.insert(h->n).second) return;
    std::set<node *> c;
    closure_members(h->n, c);
    if (c.count(by)) return;
    mem.push_back(f);
    pins.push_back(h.get());
  };
  if (by->held)
    for (auto &h : *by->held) consider(h);
  for (auto &h : W->shared) consider(h);
  return start_some<F>(R, by, mem, pins, {});
}
template <class V>
holder_ptr some_of_gens(vf::rng &R, node *by) {
  std::vector<gfut<V> *> mem;
  std::vector<gen_base *> gens;
  size_t max = R.below(6);
  for (auto &gp : W->gens) {
    if (gp->gone || !gp->has_future() || mem.size() >= max) continue;
    auto *g = dynamic_cast<gen<V> *>(gp.get());
    if (!g) continue;
    mem.push_back(g->futs.front().get());
    gens.push_back(gp.get());
  }
  return start_some<gfut<V>>(R, by, mem, {}, gens);
}
holder_ptr make_some(vf::rng &R, node *by) {
  switch (R.below(8)) {
    case 0:
      return some_of_nodes<c_rv>(R, by);
    case 1:
      return some_of_nodes<c_v>(R, by);
    case 2:
      return some_of_nodes<t_rv>(R, by);
    case 3:
      return some_of_nodes<t_v>(R, by);
    case 4:
      return some_of_gens<int64_t>(R, by);
    case 5:
      return some_of_gens<void>(R, by);
    default:
      return some_of_gens<rv>(R, by);
  }
}

// ---- checks when nothing runs ----------------------------------------------------------------
void quiesce_check() {
  VF_CHECK(W->n_active == 0, "harness", "something still runs");
  // the graveyard first: releasing one may free others
  for (int round = 0; round < 64 && !W->graveyard.empty(); ++round) {
    std::vector<holder_ptr> g;
    g.swap(W->graveyard);
    for (auto &h : g) bury(std::move(h));
    if (W->graveyard.size() >= g.size()) break;
  }
  for (auto &np : W->nodes) {
    node *n = np.get();
    if (!n->holders.empty()) see_status(n, status_now(*n->holders.front()));
    if (n->kind == K_TASK && !n->holders.empty()) {
      holder *h = n->holders.front();
      std::visit(
          [&](auto &f) {
            if constexpr (is_task<std::decay_t<decltype(f)>>::value) {
              if (!n->priv_known)
                VF_EQ(f.get_ref_future_count(), n->refs, "task-ref-count", "future count of a task");
              PS s = f.get_status();
              VF_CHECK(f.is_completed() == n->ended, "task-completed", "task %d completed=%d, ended=%d (status %d)", n->id, f.is_completed(),
                       n->ended, SI(s));
              VF_CHECK(f.is_exiting() == (s >= PS::kDone), "task-exiting", "task %d", n->id);
              VF_CHECK(f.is_canceled() == (s == PS::kCancle), "task-canceled", "task %d", n->id);
              VF_CHECK(f.is_faulted() == (s >= PS::kKilled), "task-faulted", "task %d", n->id);
              VF_CHECK(f.is_timeout() == (s >= PS::kTimeout), "task-timeout", "task %d", n->id);
            }
          },
          h->f);
    }
    if (n->kind == K_SOME && !n->ended) {
      VF_CHECK(!n->holders.empty(), "harness", "wait without a future");
      if (some_is_ready(n))
        some_finish(n, false);
      else
        VF_CHECK(n->some_ready_now(true) < n->want, "some-not-woken", "the wait %d needs %zu of %zu members, %zu have ended, and it still waits",
                 n->id, n->want, n->members, n->some_ready_now(true));
    }
    if (n->kind == K_CALL && !n->holders.empty()) {
      std::visit(
          [&](auto &f) {
            using FF = std::decay_t<decltype(f)>;
            if constexpr (!is_task<FF>::value) VF_CHECK(f.is_ready() == n->ended, "callable-ready", "callable %d ready=%d ended=%d", n->id, f.is_ready(), n->ended);
          },
          n->holders.front()->f);
    }
    if (n->ended) {
      VF_CHECK(n->waiters.empty() || [&] {
        for (auto *w : n->waiters)
          if (w->last_status < SI(PS::kDone)) return false;
        return true;
      }(), "lost-wakeup", "node %d returned and %zu coroutines still wait for it (first: %d)", n->id, n->waiters.size(),
               (*n->waiters.begin())->id);
      if (n->last_status <= SI(PS::kDone) && !n->holders.empty() && n->kind != K_TASK)
        VF_CHECK(status_now(*n->holders.front()) == PS::kDone, "done-status", "node %d returned with status %d", n->id, n->last_status);
    } else if (n->started && !n->sleeping && n->kind != K_SOME) {
      VF_CHECK(n->suspended, "stuck", "node %d is neither suspended nor ended", n->id);
    }
  }
  for (auto &gp : W->gens) {
    gp->check_state();
    if (gp->ready || gp->gone)
      VF_CHECK(gp->waiters.empty(), "lost-wakeup", "generator %d is %s and %zu coroutines still wait for it (first: %d)", gp->id,
               gp->gone ? "gone" : "set", gp->waiters.size(), (*gp->waiters.begin())->id);
    {
      if (gp->hook_suspend) VF_EQ(gp->suspends, gp->model_suspends, "suspend-hook", "suspend hook calls");
      // a wait for several may let go of a ready generator before it ends
      if (gp->hook_resume)
        VF_CHECK(gp->resumes >= gp->model_resumes && gp->resumes <= gp->model_resumes + (gp->ready ? static_cast<u64>(gp->outstanding_some) : 0),
                 "resume-hook", "%llu resume hook calls, expected %llu (%d waits for several go on)", (unsigned long long)gp->resumes,
                 (unsigned long long)gp->model_resumes, gp->outstanding_some);
    }
  }
}

void finish_world() {
  // let what can finish do so, then drop everything
  vf::rng &R = *W->R;
  for (int round = 0; round < 4; ++round) {
    W->budget = 40;
    for (size_t i = 0; i < W->gens.size(); ++i)
      if (!W->gens[i]->gone && !W->gens[i]->waiters.empty()) W->gens[i]->set(W->value());
    for (size_t i = 0; i < W->nodes.size(); ++i)
      if (W->nodes[i]->sleeping) {
        auto hd = W->nodes[i]->sleep_handle;
        hd.resume();
      }
    for (size_t i = 0; i < W->shared.size(); ++i)
      if (W->shared[i] && W->shared[i]->n->kind == K_TASK && R.chance(70)) do_start(*W->shared[i]);
    quiesce_check();
  }
  W->budget = static_cast<int>(R.below(30));
  int rounds_without_progress = 0;
  while (!W->shared.empty() || !W->graveyard.empty()) {
    if (!W->shared.empty()) {
      size_t i = R.below(W->shared.size());
      holder_ptr h = std::move(W->shared[i]);
      W->shared.erase(W->shared.begin() + static_cast<long>(i));
      vf::hop([&] { bury(std::move(h)); });
    }
    size_t before = W->graveyard.size();
    vf::hop([&] { quiesce_check(); });
    rounds_without_progress = W->shared.empty() && W->graveyard.size() == before && before ? rounds_without_progress + 1 : 0;
    if (rounds_without_progress > 20) {
      VF_CHECK(false, "harness", "cannot release %zu futures (first: node %d, pins %d)", before, W->graveyard[0]->n->id, W->graveyard[0]->pins);
    }
  }
  W->budget = 0;
  for (auto &g : W->gens) g->drop_all();
  quiesce_check();
  for (auto &n : W->nodes) {
    VF_CHECK(!n->started || n->ended, "never-ended", "the body of node %d never reached its end", n->id);
    if (n->kind == K_TASK || n->kind == K_CALL) VF_CHECK(n->started, "never-run", "node %d never ran", n->id);
    VF_EQ(n->frames_locals, 0, "locals-leaked", "frames alive");
  }
  for (auto &g : W->gens) {
    VF_CHECK(g->gone, "generator-leaked", "the context of generator %d is still alive (%zu handles, action %d, hooks %d%d)", g->id, g->handles(), g->suspend_action, g->hook_suspend, g->hook_resume);
    if (g->hook_suspend && g->hook_resume) VF_EQ(g->suspends, g->resumes, "hooks-unmatched", "suspend and resume hooks");
  }
}

void run_world(vf::rng &R, world &w) {
  W = &w;
  w.R = &R;
  LV.reset();
  LL.reset();
  LP.reset();
  w.calm = true;
  w.budget = static_cast<int>(R.range(20, 160));
  int ng = static_cast<int>(R.range(1, 5));
  for (int i = 0; i < ng; ++i) new_gen(R);
  int ops = static_cast<int>(R.range(8, 60));
  for (int i = 0; i < ops; ++i) {
    vf::hop([&] {
    if (R.chance(25) && w.shared.size() < 14) {
      if (static_cast<int>(R.below(static_cast<u64>(w.w_call + w.w_task))) < w.w_call)
        w.shared.push_back(make_call(0));
      else
        w.shared.push_back(make_task(0));
    } else {
      outside_op(R, nullptr);
      if (w.budget <= 0) w.budget = 1;
    }
    quiesce_check();
    });
  }
  finish_world();
  w.gens.clear();
  VF_EQ(LV.live.load(), 0, "values-leaked", "tracked values alive");
  VF_EQ(LL.live.load(), 0, "locals-leaked", "locals alive");
  VF_EQ(LP.live.load(), 0, "private-data-leaked", "private data alive");
  if (w.nodes.size() >= 4 && w.vf_events >= 20) vf::nontrivial();
  VF_COUNT_N("coroutines", w.nodes.size());
  if (w.max_active >= 4) VF_COUNT("cases_nested_4_deep");
  W = nullptr;
}
}  // namespace

VF_MODE(callable) {
  world w;
  w.w_sleep = static_cast<int>(R.below(10));
  run_world(R, w);
}
VF_MODE(gen) {
  world w;
  w.w_sleep = 2;
  run_world(R, w);
}
VF_MODE(task) {
  world w;
  w.w_call = 4;
  w.w_task = 10;
  w.w_sleep = static_cast<int>(R.below(8));
  run_world(R, w);
}
VF_MODE(some) {
  world w;
  w.w_call = 10;
  w.w_task = 6;
  w.w_some = 14;
  w.w_sleep = 6;
  run_world(R, w);
}
