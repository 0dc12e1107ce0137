// C19: continuations attached to C++20 tasks with then().
// A tree of one task and continuations on it (and on the continuations that are tasks); thenables of every kind of result,
// in the callable and both task forms; gates that hold bodies back are opened, coroutines killed and handles dropped in random
// order, also from inside a thenable.  When nothing runs, what ran is compared with what the facts entitle to run.
#include "lib.h"

#include <libcopp/coroutine/callable_promise.h>
#include <libcopp/coroutine/generator_promise.h>
#include <libcotask/task_promise.h>

#include <variant>

namespace {
using u64 = uint64_t;
using PS = copp::promise_status;
vf::ledger LV, LL, LP, LF;  // values, locals, private data, functors
constexpr int SI(PS s) { return static_cast<int>(s); }

struct rv {
  vf::tv v;
  int st;
  rv() : v(&LV, 0), st(99) {}
  explicit rv(PS s) : v(&LV, 0), st(100 + SI(s)) {}
  explicit rv(u64 x) : v(&LV, x), st(0) {}
};
struct pv {
  vf::tv v;
  pv() : v(&LP, 7) {}
  explicit pv(u64 x) : v(&LP, x) {}
};
struct got {
  enum kind_t { VALUE, EMPTY, ERROR, NOTHING } k = NOTHING;
  u64 v = 0;
  int st = 0;
};
template <class T>
got read_tracked(const T &x) {
  got g;
  if (x.st) {
    g.k = got::ERROR;
    g.st = x.st - 100;
  } else if (!x.v.has()) {
    g.k = got::EMPTY;
  } else {
    g.k = got::VALUE;
    g.v = x.v.get();
  }
  return g;
}
got read_value(const rv &x) { return read_tracked(x); }
got read_value(int64_t x) {
  got g;
  if (x < 0) {
    g.k = got::ERROR;
    g.st = static_cast<int>(-x);
  } else {
    g.k = got::VALUE;
    g.v = (u64)x;
  }
  return g;
}
got read_value() { return {}; }

using c_rv = copp::callable_future<rv>;
using c_v = copp::callable_future<void>;
using t_rp = cotask::task_future<rv, pv>;
using t_vp = cotask::task_future<void, pv>;
using t_r = cotask::task_future<rv, void>;
using t_v = cotask::task_future<void, void>;
using t_i = cotask::task_future<int64_t, pv>;
using fut_t = std::variant<c_rv, c_v, t_rp, t_vp, t_r, t_v, t_i>;
template <class F>
constexpr bool is_task_v = !std::is_same_v<F, c_rv> && !std::is_same_v<F, c_v>;
template <class F>
constexpr bool has_pd_v = std::is_same_v<F, t_rp> || std::is_same_v<F, t_vp> || std::is_same_v<F, t_i>;
template <class F>
constexpr bool is_void_v = std::is_same_v<F, c_v> || std::is_same_v<F, t_vp> || std::is_same_v<F, t_v>;

struct gate {
  copp::generator_future<int64_t> g;
  std::shared_ptr<copp::generator_future<int64_t>::context_type> ctx;
  bool open = false;
  gate() : g([](copp::generator_future<int64_t>::context_pointer_type) {}) { ctx = g.get_context(); }
};
// a coroutine with a body of ours: the root, or what a thenable returned
struct bodyrec {
  std::vector<std::unique_ptr<gate>> gates;
  bool started = false, ended = false, natural = false;
  u64 ret = 0;
  size_t at = 0;
  bool all_open() const {
    for (auto &g : gates)
      if (!g->open) return false;
    return true;
  }
  size_t reach() const {  // as far as it gets by itself
    size_t k = 0;
    while (k < gates.size() && gates[k]->open) ++k;
    return k;
  }
};
struct holder {
  fut_t f;
  template <class F>
  explicit holder(F &&x) : f(std::in_place_type<std::decay_t<F>>, std::forward<F>(x)) {}
};
struct node;
struct probe_t {
  node *n;
  bool resumed = false, began_waiting = false, dropped = false, immediate = false;
  std::unique_ptr<copp::callable_future<void>> f;
};
struct node {
  int id = 0;
  bool task = false, root = false, is_void = false, is_int = false;
  int kind = 0;  // what its thenable returns
  node *src = nullptr;
  std::vector<node *> kids;
  std::vector<std::unique_ptr<holder>> h;  // the user's handles
  bool started = false, forced = false;    // root
  int pins = 0;
  bool by_waiter = false;  // killed with its waiter: what it waited for ends, it continues when it is dropped
  int killed = 0;                          // the status it was killed with first
  bool dropped = false;                    // its last handle is gone
  bool attaching = false, final_at_attach = false;
  int invoked = 0;
  bool active = false;  // its thenable or body is on the C++ stack
  bool ended = false;   // it has its result
  got result;           // what it must deliver
  bool consumed = false;
  std::unique_ptr<bodyrec> body;  // of the root, or of what the thenable returned
  u64 pd = 0;
  u64 task_id = 0;
  std::vector<std::unique_ptr<probe_t>> probes;
};

struct world;
world *W = nullptr;

struct world {
  vf::rng &R;
  std::vector<std::unique_ptr<node>> ns;
  u64 next = 5000;
  int depth = 0, budget = 0;
  u64 events = 0;
  explicit world(vf::rng &r) : R(r) {}
  void ev(const char *what, u64 a, u64 b = 0) {
    ++events;
    vf::tr(vf::mix64((u64)what[0] * 131 + (u64)what[1] * 17 + (u64)what[2], a), b);
    if (vf::g_verbose) fprintf(stderr, "  %*s%s %llu %llu\n", depth * 2, "", what, (unsigned long long)a, (unsigned long long)b);
  }
};

struct running {
  bool &a;
  explicit running(bool &x, const char *what) : a(x) {
    VF_CHECK(!a, "ran-twice-at-once", "%s", what);
    a = true;
    ++W->depth;
  }
  ~running() {
    a = false;
    --W->depth;
  }
};

u64 step_value(node *n, const got &in) { return vf::mix64((u64)n->id * 77 + 5, in.k == got::VALUE ? in.v : 1) >> 8 & 0xffffffff; }

// the body of the root and of the coroutines that thenables return
template <class F>
F body(bodyrec *b, node *n) {
  VF_CHECK(!b->started, "body-run-twice", "node %d", n->id);
  b->started = true;
  W->ev("body-begins", (u64)n->id);
  vf::tv local(&LL, (u64)n->id);
  for (;;) {
    while (b->at < b->gates.size()) {
      (void)co_await b->gates[b->at]->g;
      ++b->at;
      W->ev("gate-passed", (u64)n->id, b->at);
    }
    break;
  }
  VF_EQ(local.get(), (u64)n->id, "frame-damaged", "local");
  b->natural = b->all_open();
  b->ended = true;
  n->ended = true;
  // a task that the continuation left before its end gives an error value
  n->result.k = n->kind == 4 && !b->natural ? got::ERROR : got::VALUE;
  n->result.v = b->ret;
  W->ev("body-ends", (u64)n->id, b->natural);
  if constexpr (is_void_v<F>)
    co_return;
  else if constexpr (std::is_same_v<F, t_i>)
    co_return (int64_t)b->ret;
  else
    co_return rv(b->ret);
}

void inner_action(node *self);
void attach(node *src, holder &h);
template <class C>
void attach_ctx(node *src, C ctx);

template <int K>
struct ret_of;
template <>
struct ret_of<0> { using type = rv; };
template <>
struct ret_of<1> { using type = void; };
template <>
struct ret_of<2> { using type = c_rv; };
template <>
struct ret_of<3> { using type = c_v; };
template <>
struct ret_of<4> { using type = t_r; };
template <>
struct ret_of<5> { using type = t_v; };

void source_read(node *n) {  // the last waiting reader may move the value out
  if (n->is_int) return;
  for (node *k : n->kids)
    if (!k->invoked && !k->attaching) return;
  for (auto &p : n->probes)
    if (!p->resumed) return;
  n->consumed = true;
}

template <int K>
struct fn {
  node *n;
  vf::tv payload;
  fn(node *x) : n(x), payload(&LF, (u64)x->id) {}
  template <class C, class... V>
  typename ret_of<K>::type operator()(C &&ctx, V &&...v) {
    using R = typename ret_of<K>::type;
    running run(n->active, "thenable");
    VF_EQ(n->invoked++, 0, "thenable-ran-twice", "earlier invocations");
    VF_EQ(payload.get(), (u64)n->id, "functor-damaged", "payload");
    node *s = n->src;
    got in = read_value(v...);
    W->ev("thenable", (u64)n->id, (u64)in.k);
    VF_CHECK(s->ended || n->killed || n->dropped || (n->attaching && n->final_at_attach), "thenable-early",
             "the thenable of node %d ran before node %d ended", n->id, s->id);
    // what it is given
    if (s->is_void) {
      VF_EQ(sizeof...(V), 0u, "thenable-value", "values given");
    } else if (s->ended && s->result.k == got::VALUE) {
      if (in.k == got::EMPTY)
        VF_CHECK(s->consumed, "thenable-value", "node %d got a moved-out value of node %d", n->id, s->id);
      else {
        VF_EQ((int)in.k, (int)got::VALUE, "thenable-value", "kind of value");
        VF_EQ(in.v, s->result.v, "thenable-value", "value of the task");
      }
      VF_COUNT("then_values");
    } else if (s->ended) {
      VF_CHECK(in.k == got::ERROR || s->consumed, "thenable-value", "node %d got kind %d of a failed task", n->id, (int)in.k);
    } else {
      VF_EQ((int)in.k, (int)got::ERROR, "thenable-value", "kind of value of an unfinished task");
      int want = n->killed ? n->killed : SI(PS::kKilled);
      VF_EQ(in.st, want, "thenable-value", "status of the error value");
      VF_COUNT("then_errors");
    }
    if (s->ended && !s->is_void) source_read(s);
    VF_CHECK(ctx, "thenable-context", "no context");
    VF_EQ(ctx->get_id(), s->task_id, "thenable-context", "id of the task");
    using ctx_t = typename std::decay_t<C>::element_type;
    if constexpr (!std::is_void_v<typename ctx_t::private_data_type>)
      VF_EQ(ctx->get_private_data().v.get(), s->pd, "thenable-context", "private data");
    if (W->budget > 0 && W->R.chance(25)) {
      if (W->R.chance(40))
        attach_ctx(s, std::decay_t<C>(ctx));
      else
        inner_action(n);
    }
    if (W->R.chance(30)) {
      auto mine = std::forward<C>(ctx);  // NOLINT: taking it over is allowed
    }
    if constexpr (K == 0) {
      u64 r = step_value(n, in);
      n->result.k = got::VALUE;
      n->result.v = r;
      n->ended = true;
      return rv(r);
    } else if constexpr (K == 1) {
      n->ended = true;
      return;
    } else {
      n->body = std::make_unique<bodyrec>();
      n->body->ret = step_value(n, in);
      unsigned g = (unsigned)W->R.below(3);
      for (unsigned i = 0; i < g; ++i) {
        n->body->gates.push_back(std::make_unique<gate>());
        if (W->R.chance(30)) {
          n->body->gates.back()->open = true;
          n->body->gates.back()->ctx->set_value(1);
        }
      }
      return body<R>(n->body.get(), n);
    }
  }
};

PS status_of(holder &h) {
  return std::visit([](auto &f) { return f.get_status(); }, h.f);
}

node *new_node() {
  W->ns.push_back(std::make_unique<node>());
  W->ns.back()->id = (int)W->ns.size();
  return W->ns.back().get();
}

template <class T, int K>
void attach_k(node *src, T &t) {
  node *n = new_node();
  --W->budget;
  n->src = src;
  n->kind = K;
  n->is_void = K & 1;
  n->attaching = true;
  n->final_at_attach = SI(t.get_status()) >= SI(PS::kDone);
  src->kids.push_back(n);
  fn<K> f(n);
  std::unique_ptr<holder> h;
  unsigned form = (unsigned)W->R.below(3);
  bool lv = W->R.chance(50);
  W->ev("attach", (u64)n->id, form * 10 + K);
  VF_COUNT("then_attached");
  if (form == 0) {
    if (lv)
      h = std::make_unique<holder>(t.then(f));
    else
      h = std::make_unique<holder>(t.then(fn<K>(n)));
  } else if (form == 1) {
    n->task = true;
    n->pd = W->next++;
    pv data(n->pd);
    if (lv) {
      h = std::make_unique<holder>(t.then(f, data));
      VF_EQ(data.v.get(), n->pd, "private-data", "the original of copied private data");
    } else {
      h = std::make_unique<holder>(t.then(fn<K>(n), pv(n->pd)));
    }
  } else {
    n->task = true;
    if (lv)
      h = std::make_unique<holder>(t.then(f, nullptr));
    else
      h = std::make_unique<holder>(t.then(fn<K>(n), nullptr));
  }
  n->attaching = false;
  std::visit(
      [&](auto &x) {
        if constexpr (is_task_v<std::decay_t<decltype(x)>>) n->task_id = x.get_id();
      },
      h->f);
  n->h.push_back(std::move(h));
}
template <class T>
void attach_t(node *src, T &t) {
  switch (W->R.below(6)) {
    case 0: return attach_k<T, 0>(src, t);
    case 1: return attach_k<T, 1>(src, t);
    case 2: return attach_k<T, 2>(src, t);
    case 3: return attach_k<T, 3>(src, t);
    case 4: return attach_k<T, 4>(src, t);
    default: return attach_k<T, 5>(src, t);
  }
}
void attach(node *src, holder &h) {
  std::visit(
      [&](auto &f) {
        if constexpr (is_task_v<std::decay_t<decltype(f)>>) attach_t(src, f);
      },
      h.f);
}
template <class C>
struct future_of;
template <class V, class PD, class E>
struct future_of<cotask::task_context<V, PD, E>> {
  using type = cotask::task_future<V, PD, E>;
};
template <class C>
void attach_ctx(node *src, C ctx) {
  using F = typename future_of<typename C::element_type>::type;
  F f(ctx);
  ctx.reset();
  W->ev("attach-inside", (u64)src->id);
  VF_COUNT("then_attached_inside");
  for (node *k = src; k && k->dropped; k = k->src) k->dropped = false;  // the new one keeps it
  attach_t(src, f);
}

// ---- probes
void probe_read(probe_t *p, got g) {
  node *n = p->n;
  p->resumed = true;
  W->ev("probe-reads", (u64)n->id, (u64)g.k);
  VF_CHECK(n->ended || p->dropped || p->immediate, "probe-early", "a coroutine waiting for node %d continued too early", n->id);
  if (n->is_void) return;
  if (n->ended) {
    if (g.k == got::EMPTY) {
      VF_CHECK(n->consumed, "probe-value", "moved-out value of node %d", n->id);
    } else if (!n->by_waiter || g.k != got::ERROR) {
      VF_EQ((int)g.k, (int)n->result.k, "probe-value", "kind of value");
      if (g.k == got::VALUE) VF_EQ(g.v, n->result.v, "probe-value", "value");
    }
    if (g.k == got::ERROR) {
      VF_CHECK(g.st == n->killed || g.st == SI(PS::kKilled), "probe-value", "error status %d", g.st);
    }
    source_read(n);
  } else {
    VF_EQ((int)g.k, (int)got::ERROR, "probe-value", "kind of value of an unfinished node");
    VF_EQ(g.st, SI(PS::kKilled), "probe-value", "status of the error value");
  }
}
template <class F>
copp::callable_future<void> probe_task(probe_t *p, F f) {
  p->began_waiting = true;
  if constexpr (is_void_v<F>) {
    co_await f;
    probe_read(p, got());
  } else {
    auto v = co_await f;
    probe_read(p, read_value(v));
  }
}
template <class F>
copp::callable_future<void> probe_call(probe_t *p, F *f) {
  p->began_waiting = true;
  if constexpr (is_void_v<F>) {
    co_await *f;
    probe_read(p, got());
  } else {
    auto v = co_await *f;
    probe_read(p, read_value(v));
  }
}

// ---- ending things
bool alive(node *n) {
  if (!n->h.empty()) return true;
  for (auto &p : n->probes)
    if (p->f) return true;
  for (node *k : n->kids)
    if (!k->dropped) return true;
  return false;
}
// n's last handle goes: which nodes does that drop?
void mark_dropped(node *n) {
  while (n && !n->dropped && !alive(n)) {
    n->dropped = true;
    n = n->src;
  }
}
void drop_handle(node *n, size_t i) {
  auto h = std::move(n->h[i]);
  n->h.erase(n->h.begin() + (long)i);
  W->ev("drop", (u64)n->id, n->h.size());
  mark_dropped(n);
  if (n->dropped && !n->ended) VF_COUNT("then_unfinished_dropped");
  h.reset();
}
void kill_node(node *n, PS st, bool force) {
  holder &h = *n->h.front();
  PS before = status_of(h);
  if (!n->killed && !n->ended && SI(before) < SI(PS::kDone)) {
    n->killed = SI(st);
    VF_COUNT("then_kills");
  }
  W->ev("kill", (u64)n->id, (u64)SI(st));
  bool ok = false;
  std::visit(
      [&](auto &f) {
        if constexpr (is_task_v<std::decay_t<decltype(f)>>)
          ok = f.kill(st, force);
        else
          ok = f.kill(st);
      },
      h.f);
  VF_EQ(ok, SI(before) < SI(PS::kDone), "kill-result", "kill");
}
bool pinned(node *n) {  // a callable that a probe refers to
  if (n->task) return false;
  for (auto &p : n->probes)
    if (p->f) return true;
  return false;
}
bool open_gate(node *n) {
  if (!n->body) return false;
  auto &b = *n->body;
  for (size_t k = 0; k < b.gates.size(); ++k)
    if (!b.gates[k]->open && W->R.chance(70)) {
      b.gates[k]->open = true;
      W->ev("open", (u64)n->id, k);
      b.gates[k]->ctx->set_value(1);
      return true;
    }
  return false;
}

void inner_action(node *self) {
  // siblings are not on the stack unless active; they hold the same source
  std::vector<node *> sib;
  for (node *k : self->src->kids)
    if (k != self && !k->active && !k->attaching && !k->dropped && !k->h.empty() && k->kids.empty() && k->probes.empty())
      sib.push_back(k);
  unsigned a = (unsigned)W->R.below(100);
  if (a < 35 && !sib.empty()) {
    node *k = sib[W->R.below(sib.size())];
    if (!k->ended) kill_node(k, W->R.chance(50) ? PS::kKilled : PS::kCancle, false);
    VF_COUNT("then_inner_kills");
  } else if (a < 70 && !sib.empty()) {
    node *k = sib[W->R.below(sib.size())];
    // a frame whose body is not on the stack
    drop_handle(k, W->R.below(k->h.size()));
    VF_COUNT("then_inner_drops");
  } else if (a < 85) {
    for (auto &x : W->ns)
      if (x.get() != self && !x->active && x->body && !x->body->ended && !x->attaching && !x->dropped && W->R.chance(50)) {
        open_gate(x.get());
        break;
      }
  } else {
    node *s = self->src;
    if (!s->h.empty() && !s->pins) {
      drop_handle(s, s->h.size() - 1);  // self keeps it
      VF_COUNT("then_inner_drops");
    }
  }
}

// ---- the checks when nothing runs
void check_node(node *n) {
  if (n->root) {
    auto &b = *n->body;
    VF_EQ(b.started, n->started || n->dropped || n->forced, "root-started", "body of the task");
    bool must_end = n->dropped || n->forced || (n->started && (b.all_open() || n->killed));
    VF_EQ(n->ended, must_end, "root-ended", "body of the task");
    if (n->started && !n->ended) VF_EQ(b.at, b.reach(), "root-progress", "gates passed");
  } else {
    node *s = n->src;
    bool must_run = s->ended || n->killed || n->dropped || n->final_at_attach;
    VF_EQ(n->invoked, must_run ? 1 : 0, "thenable-count", "invocations of a thenable");
    if (must_run && n->kind >= 2) {
      VF_CHECK(n->body && n->body->started, "thenable-not-started", "the coroutine of node %d's thenable was not run", n->id);
      bool must_end = n->dropped || n->killed || n->body->all_open();
      VF_EQ(n->body->ended, must_end, "thenable-ended", "coroutine of a thenable");
      if (!must_end) VF_EQ(n->body->at, n->body->reach(), "thenable-progress", "gates passed");
    }
  }
  if (!n->h.empty()) {
    PS st = status_of(*n->h.front());
    if ((n->task || n->root) && st == PS::kInvalid) {
      VF_CHECK(n->ended, "status", "an unfinished task %d has no status", n->id);
    } else {
      int want = n->killed ? n->killed : n->ended ? SI(PS::kDone) : n->root && !n->started ? SI(PS::kCreated) : SI(PS::kRunning);
      VF_EQ(SI(st), want, "status", "status of a node");
    }
    if (n->task && n->pd)
      std::visit(
          [&](auto &f) {
            if constexpr (has_pd_v<std::decay_t<decltype(f)>>) VF_EQ(f.get_private_data()->v.get(), n->pd, "private-data", "private data of a continuation");
          },
          n->h.front()->f);
  }
  for (auto &p : n->probes) VF_EQ(p->resumed, n->ended || p->dropped || p->immediate, "probe-continued", "coroutine awaiting a node");
}
void check_all() {
  for (auto &n : W->ns) check_node(n.get());
  VF_COUNT("then_quiet_states");
}

void add_probe(node *n) {
  if (n->h.empty()) return;
  if (!n->task && !n->root && !n->probes.empty()) return;
  n->probes.push_back(std::make_unique<probe_t>());
  auto *p = n->probes.back().get();
  p->n = n;
  p->immediate = SI(status_of(*n->h.front())) >= SI(PS::kDone);
  W->ev("probe", (u64)n->id);
  VF_COUNT("then_probes");
  std::visit(
      [&](auto &f) {
        using F = std::decay_t<decltype(f)>;
        if constexpr (is_task_v<F>)
          p->f = std::make_unique<copp::callable_future<void>>(probe_task<F>(p, f));
        else
          p->f = std::make_unique<copp::callable_future<void>>(probe_call<F>(p, &f));
      },
      n->h.front()->f);
}
void drop_probe(node *n, size_t i) {
  auto *p = n->probes[i].get();
  if (!p->f) return;
  W->ev("drop-probe", (u64)n->id);
  auto f = std::move(p->f);
  p->dropped = true;
  if (!p->resumed && !n->task && !n->root && !n->ended && !n->killed) {  // an awaited callable ends with its waiter
    n->killed = SI(PS::kKilled);
    n->by_waiter = true;
  }
  mark_dropped(n);
  f.reset();
  VF_CHECK(p->resumed, "probe-not-ended", "a dropped coroutine did not run to its end");
}

void run_case() {
  auto &R = W->R;
  W->budget = (int)R.range(2, 12);
  node *root = new_node();
  root->root = true;
  root->body = std::make_unique<bodyrec>();
  auto *b = root->body.get();
  b->ret = W->next++;
  unsigned ng = (unsigned)R.below(4);
  for (unsigned i = 0; i < ng; ++i) b->gates.push_back(std::make_unique<gate>());
  std::unique_ptr<holder> h;
  switch (R.below(5)) {
    case 0: h = std::make_unique<holder>(body<t_rp>(b, root)); break;
    case 1: h = std::make_unique<holder>(body<t_vp>(b, root)); root->is_void = true; break;
    case 2: h = std::make_unique<holder>(body<t_r>(b, root)); break;
    case 3: h = std::make_unique<holder>(body<t_v>(b, root)); root->is_void = true; break;
    default: h = std::make_unique<holder>(body<t_i>(b, root)); root->is_int = true; break;
  }
  std::visit(
      [&](auto &f) {
        using F = std::decay_t<decltype(f)>;
        if constexpr (is_task_v<F>) root->task_id = f.get_id();
        if constexpr (has_pd_v<F>) {
          root->pd = W->next++;
          *f.get_private_data() = pv(root->pd);
        }
      },
      h->f);
  root->h.push_back(std::move(h));
  int ops = (int)R.range(8, 40);
  for (int k = 0; k < ops; ++k) {
    node *n = W->ns[R.below(W->ns.size())].get();
    unsigned a = (unsigned)R.below(100);
    if (a < 30) {
      if (W->budget > 0 && !n->h.empty() && (n->root || n->task)) {
        ++n->pins;
        attach(n, *n->h.front());
        --n->pins;
      }
    } else if (a < 40) {
      if (!root->h.empty()) {
        bool ok = false;
        bool may = !root->started && !root->killed;
        if (may) root->started = true;
        W->ev("start", 1);
        std::visit(
            [&](auto &f) {
              if constexpr (is_task_v<std::decay_t<decltype(f)>>) ok = f.start();
            },
            root->h.front()->f);
        VF_EQ(ok, may, "start-result", "start of the task");
      }
    } else if (a < 65) {
      open_gate(n);
    } else if (a < 75) {
      add_probe(n);
    } else if (a < 81) {
      if (!n->probes.empty()) drop_probe(n, R.below(n->probes.size()));
    } else if (a < 86) {
      if (!n->h.empty() && (n->task || n->root)) {
        std::unique_ptr<holder> c;
        std::visit(
            [&](auto &f) {
              using F = std::decay_t<decltype(f)>;
              if constexpr (is_task_v<F>) c = std::make_unique<holder>(F(f));
            },
            n->h.front()->f);
        n->h.push_back(std::move(c));
      }
    } else if (a < 92) {
      if (!n->h.empty() && !pinned(n) && (n->h.size() > 1 || R.chance(50))) drop_handle(n, R.below(n->h.size()));
    } else if (a < 96) {
      static const PS ks[] = {PS::kKilled, PS::kCancle, PS::kTimeout};
      if (!n->h.empty()) {
        bool force = R.chance(30);
        if (n->root && force && !n->body->started && !n->killed) n->forced = true;
        kill_node(n, ks[R.below(3)], force);
      }
    }
    check_all();
  }
  // everything goes, in any order
  for (;;) {
    std::vector<std::pair<int, node *>> can;
    for (auto &n : W->ns) {
      if (!n->h.empty() && !pinned(n.get())) can.push_back({0, n.get()});
      for (auto &p : n->probes)
        if (p->f) can.push_back({1, n.get()});
    }
    if (can.empty()) break;
    auto [what, n] = can[R.below(can.size())];
    if (what == 0)
      drop_handle(n, R.below(n->h.size()));
    else
      for (size_t i = 0; i < n->probes.size(); ++i)
        if (n->probes[i]->f) {
          drop_probe(n, i);
          break;
        }
    check_all();
  }
  for (auto &n : W->ns) {
    VF_CHECK(n->dropped && n->ended, "not-ended", "node %d is unfinished at the end", n->id);
    if (!n->root) VF_EQ(n->invoked, 1, "thenable-count", "invocations at the end");
  }
  vf::note("%zu nodes, %llu events", W->ns.size(), (unsigned long long)W->events);
  if (W->ns.size() >= 3 && W->events >= 15) vf::nontrivial();
  for (auto &n : W->ns) n->body.reset();
  W->ns.clear();
  VF_EQ(LV.live.load(), 0, "values-leaked", "values alive");
  VF_EQ(LL.live.load(), 0, "locals-leaked", "locals alive");
  VF_EQ(LP.live.load(), 0, "private-data-leaked", "private data alive");
  VF_EQ(LF.live.load(), 0, "functors-leaked", "functors alive");
}
}  // namespace

VF_MODE(then) {
  world w(R);
  W = &w;
  run_case();
  W = nullptr;
}
