// C17, C18, C19: the handles of C++20 callables, generators and tasks.
// Handles in a table (and in the private data of tasks) are created, copied, moved, assigned over each other and dropped in
// random order, also from inside a body that ends because of it.  After every step the handles which really refer to an object
// are counted: an object nothing refers to has ended exactly once and is gone, every other one is untouched, and empty handles
// answer like empty handles.
#include "lib.h"

#include <libcopp/coroutine/callable_promise.h>
#include <libcopp/coroutine/generator_promise.h>
#include <libcotask/task_promise.h>

namespace {
using u64 = uint64_t;
using PS = copp::promise_status;
constexpr int SI(PS s) { return static_cast<int>(s); }
vf::ledger LV, LL, LP;  // values, locals, private data

struct rv {
  vf::tv v;
  int st;
  rv() : v(&LV, 0), st(99) {}
  explicit rv(PS s) : v(&LV, 0), st(100 + SI(s)) {}
  explicit rv(u64 x) : v(&LV, x), st(0) {}
};

using gate_t = copp::generator_future<int64_t>;
struct gate {
  gate_t g;
  std::shared_ptr<gate_t::context_type> ctx;
  bool open = false;
  gate() : g([](gate_t::context_pointer_type) {}) { ctx = g.get_context(); }
};

struct world;
struct obj {
  world *w = nullptr;
  int id = 0;
  u64 value = 0;
  const void *ident = nullptr;
  std::vector<std::unique_ptr<gate>> gates;
  bool started = false;
  int frames = 0, entered = 0, ended = 0, pd_live = 0;
  int killed = 0;      // status it was killed with first
  int end_status = 0;  // what the body saw at its end
  bool active = false;
  bool hook = false;  // works on the table when it ends
  bool set = false;   // generators: has a value
};
struct pdata;
using c_t = copp::callable_future<rv>;
using t_t = cotask::task_future<rv, pdata>;
using g_t = copp::generator_future<rv>;
struct pdata {
  obj *o = nullptr;
  vf::tv mark;
  std::unique_ptr<t_t> next;
  pdata() : mark(&LP, 1) {}
  explicit pdata(obj *x) : o(x), mark(&LP, 2) { ++o->pd_live; }
  pdata(const pdata &) = delete;
  pdata(pdata &&r) noexcept : o(r.o), mark(std::move(r.mark)), next(std::move(r.next)) { r.o = nullptr; }
  pdata &operator=(pdata &&r) noexcept {
    if (this == &r) return *this;
    if (o) --o->pd_live;
    o = r.o;
    r.o = nullptr;
    mark = std::move(r.mark);
    next = std::move(r.next);
    return *this;
  }
  ~pdata() {
    if (o) --o->pd_live;
  }
};

struct watcher {
  int id = 0;
  int target = -1;  // object, -1: an empty handle
  int resumed = 0;
  int st = 0;
  u64 v = 0;
  bool moved = false;
  std::unique_ptr<copp::callable_future<void>> f;
};

struct table_base {
  virtual ~table_base() {}
  virtual void from_inside(obj *o) = 0;
};
struct world {
  vf::rng R;
  std::vector<std::unique_ptr<obj>> objs;
  std::vector<std::unique_ptr<watcher>> ws;
  table_base *tab = nullptr;
  int depth = 0;
  int id_next = 1;
  u64 h = 0;
  int drops = 0;
  explicit world(vf::rng r) : R(r) {}
  void ev(u64 a, u64 b) {
    h = vf::mix64(h, vf::mix64(a, b));
    vf::tr(a, b);
  }
  obj *fresh() {
    objs.emplace_back(new obj());
    obj *o = objs.back().get();
    o->w = this;
    o->id = (int)objs.size() - 1;
    o->value = 1000 + (u64)o->id * 17;
    o->hook = R.chance(25);
    for (int n = (int)R.below(3); n > 0; --n) o->gates.emplace_back(new gate());
    return o;
  }
};

struct frame_guard {
  obj *o;
  vf::tv local;
  explicit frame_guard(obj *x) : o(x), local(&LL, (u64)x->id) { ++o->frames; }
  ~frame_guard() {
    VF_EQ(local.get(), (u64)o->id, "local-changed", "local of a coroutine");
    --o->frames;
  }
};
// between two suspensions the body is "active": it must not be asked to drop itself
void leave_inside(obj *o, PS now) {
  o->end_status = SI(now);
  ++o->ended;
  VF_EQ(o->ended, 1, "ended-twice", "ends of a body");
  if (o->hook && o->w->tab && o->w->depth < 4) {
    ++o->w->depth;
    o->w->tab->from_inside(o);
    --o->w->depth;
  }
}
c_t cbody(obj *o) {
  frame_guard fg(o);
  ++o->entered;
  o->active = true;
  for (size_t k = 0; k < o->gates.size(); ++k) {
    o->active = false;
    int64_t got = co_await o->gates[k]->g;
    o->active = true;
    if (got >= 0) VF_CHECK(o->gates[k]->open, "gate", "object %d passed a closed gate", o->id);
  }
  PS now = co_yield c_t::yield_status();
  leave_inside(o, now);
  o->active = false;
  co_return rv(o->value);
}
t_t tbody(obj *o) {
  frame_guard fg(o);
  ++o->entered;
  o->active = true;
  for (size_t k = 0; k < o->gates.size(); ++k) {
    o->active = false;
    int64_t got = co_await o->gates[k]->g;
    o->active = true;
    if (got >= 0) VF_CHECK(o->gates[k]->open, "gate", "object %d passed a closed gate", o->id);
  }
  PS now = co_yield t_t::yield_status();
  leave_inside(o, now);
  o->active = false;
  co_return rv(o->value);
}

// ---- what the three kinds differ in -------------------------------------------------------------
template <class F>
struct kind;
template <>
struct kind<c_t> {
  static constexpr bool copyable = false, task = false, gen = false;
  static c_t make(obj *o) {
    o->started = true;
    c_t f = cbody(o);
    o->ident = f.get_internal_handle().address();
    return f;
  }
  static const void *ident(const c_t &f) { return f.get_internal_handle().address(); }
  static void check_empty(c_t &f) {
    VF_EQ(SI(f.get_status()), SI(PS::kInvalid), "empty-handle", "status of an empty callable");
    VF_CHECK(f.is_ready(), "empty-handle", "an empty callable is not ready");
    VF_CHECK(!f.kill(), "empty-handle", "killing an empty callable succeeds");
  }
  static void check_live(c_t &f, obj *o) {
    int want = o->killed ? o->killed : o->ended ? SI(PS::kDone) : SI(PS::kRunning);
    VF_EQ(SI(f.get_status()), want, "handle-status", "status");
    VF_EQ(f.is_ready(), o->ended == 1, "handle-status", "is_ready");
  }
};
template <>
struct kind<t_t> {
  static constexpr bool copyable = true, task = true, gen = false;
  static t_t make(obj *o) {
    t_t f = tbody(o);
    *f.get_private_data() = pdata(o);
    o->ident = f.get_context().get();
    return f;
  }
  static const void *ident(const t_t &f) { return f.get_context().get(); }
  static void check_empty(t_t &f) {
    VF_CHECK(!f.valid() && !f, "empty-handle", "an empty task handle is valid");
    VF_EQ(SI(f.get_status()), SI(PS::kInvalid), "empty-handle", "status of an empty task handle");
    VF_EQ(f.get_id(), 0, "empty-handle", "id of an empty task handle");
    VF_EQ(f.get_ref_future_count(), 0, "empty-handle", "references of an empty task handle");
    VF_CHECK(!f.get_private_data(), "empty-handle", "an empty task handle has private data");
    VF_CHECK(!f.start() && !f.kill() && !f.cancel(true), "empty-handle", "operating an empty task handle succeeds");
    VF_CHECK(f.is_exiting() && f.is_completed() && !f.is_canceled() && !f.is_faulted() && !f.is_timeout(), "empty-handle",
             "predicates of an empty task handle");
  }
  static void check_live(t_t &f, obj *o) {
    // a finished task may have lost its promise already
    int got = SI(f.get_status());
    int want = o->killed ? o->killed : o->ended ? SI(PS::kDone) : o->started ? SI(PS::kRunning) : SI(PS::kCreated);
    if (!(o->ended && got == SI(PS::kInvalid))) VF_EQ(got, want, "handle-status", "status");
    VF_EQ(f.is_completed(), o->ended == 1, "handle-status", "is_completed");
    VF_CHECK(f.get_private_data() && f.get_private_data()->o == o, "private-data", "private data of task %d", o->id);
    VF_CHECK(f.get_id() != 0, "task-id", "id zero");
  }
};
template <>
struct kind<g_t> {
  static constexpr bool copyable = true, task = false, gen = true;
  static g_t make(obj *o) {
    o->started = true;
    g_t f([](g_t::context_pointer_type) {});
    o->ident = f.get_context().get();
    return f;
  }
  static const void *ident(const g_t &f) { return f.get_context().get(); }
  static void check_empty(g_t &f) {
    VF_EQ(SI(f.get_status()), SI(PS::kInvalid), "empty-handle", "status of an empty generator");
    VF_CHECK(!f.is_ready() && !f.is_pending(), "empty-handle", "an empty generator is ready or pending");
  }
  static void check_live(g_t &f, obj *o) {
    VF_EQ(SI(f.get_status()), o->set ? SI(PS::kDone) : SI(PS::kRunning), "handle-status", "status");
    VF_EQ(f.is_ready(), o->set, "handle-status", "is_ready");
    VF_EQ(f.is_pending(), !o->set, "handle-status", "is_pending");
  }
};

template <class F>
copp::callable_future<void> watch(watcher *w, F &f) {
  rv r = co_await f;
  ++w->resumed;
  w->st = r.st;
  if (!r.st) {
    if (r.v.has())
      w->v = r.v.get();
    else
      w->moved = true;
  }
  co_return;
}

template <class F>
struct table : table_base {
  using K = kind<F>;
  world &w;
  std::vector<std::unique_ptr<F>> slot;
  explicit table(world &x) : w(x) {}
  ~table() override { w.tab = nullptr; }

  obj *who(const F &f) {
    const void *p = K::ident(f);
    if (!p) return nullptr;
    for (size_t i = w.objs.size(); i-- > 0;) {
      if (w.objs[i]->ident == p) return w.objs[i].get();
    }
    vf::fail("handle-unknown", __FILE__, __LINE__, "a handle refers to something that was never created");
  }
  size_t pick() { return w.R.below(slot.size()); }
  F fresh() {
    obj *o = w.fresh();
    return K::make(o);
  }
  // objects whose handles may be dropped right now
  bool may_touch(const F &f) {
    obj *o = who(f);
    if (!o) return true;
    if (o->active) return false;
    if constexpr (K::task) {
      // dropping it may drop what its private data refers to
      for (const F *n = &f; n && n->valid();) {
        pdata *d = const_cast<F *>(n)->get_private_data();
        if (d->o && d->o->active) return false;
        n = d->next.get();
      }
    }
    return true;
  }
  void assign_fresh(size_t a) {
    if (!may_touch(*slot[a])) return;
    F f = fresh();
    if (!may_touch(*slot[a])) return;  // its body ended at once and worked on the table
    w.ev(1, a);
    if (w.R.chance(50))
      *slot[a] = std::move(f);
    else if constexpr (K::copyable)
      *slot[a] = f;
    else
      *slot[a] = std::move(f);
    VF_COUNT("assigned_over");
  }
  void move_assign(size_t a, size_t b) {
    if (!may_touch(*slot[a])) return;
    w.ev(2, vf::mix64(a, b));
    obj *to = who(*slot[a]), *from = who(*slot[b]);
    if (to == from) VF_COUNT(a == b ? "self_moved" : "moved_over_same");
    *slot[a] = std::move(*slot[b]);
    (void)to;
    VF_COUNT("move_assigned");
  }
  void copy_assign(size_t a, size_t b) {
    if constexpr (K::copyable) {
      if (!may_touch(*slot[a])) return;
      w.ev(3, vf::mix64(a, b));
      const F &src = *slot[b];
      *slot[a] = src;
      VF_COUNT("copy_assigned");
    } else {
      move_assign(a, b);
    }
  }
  void swap_slots(size_t a, size_t b) {
    w.ev(4, vf::mix64(a, b));
    obj *x = who(*slot[a]), *y = who(*slot[b]);
    using std::swap;
    if (a != b) {
      swap(*slot[a], *slot[b]);
      VF_CHECK(who(*slot[a]) == y && who(*slot[b]) == x, "swap", "swapping two handles did not exchange them");
    }
    VF_COUNT("swapped");
  }
  void drop(size_t a) {
    if (!may_touch(*slot[a])) return;
    w.ev(5, a);
    if constexpr (K::copyable) {
      if (w.R.chance(50)) {
        F gone(std::move(*slot[a]));
        VF_CHECK(!K::ident(*slot[a]), "moved-from", "a handle moved from is not empty");
        VF_COUNT("dropped");
        return;
      }
      if constexpr (K::task) {
        slot[a]->reset();
        VF_COUNT("dropped");
        return;
      }
    }
    F gone(std::move(*slot[a]));
    VF_CHECK(!K::ident(*slot[a]), "moved-from", "a handle moved from is not empty");
    VF_COUNT("dropped");
  }
  void copy_construct(size_t a) {
    if constexpr (K::copyable) {
      w.ev(6, a);
      const F &src = *slot[a];
      F c(src);
      VF_CHECK(K::ident(c) == K::ident(*slot[a]), "copy", "a copy refers to something else");
      VF_COUNT("copy_constructed");
    } else {
      w.ev(6, a);
      const void *p = K::ident(*slot[a]);
      F c(std::move(*slot[a]));
      VF_CHECK(K::ident(c) == p && !K::ident(*slot[a]), "moved-from", "move construction");
      *slot[a] = std::move(c);
      VF_CHECK(K::ident(*slot[a]) == p, "moved-from", "moving back");
      VF_COUNT("copy_constructed");
    }
  }
  void from_inside(obj *) override {
    VF_COUNT("table_changed_by_an_ending_body");
    size_t a = pick(), b = pick();
    switch (w.R.below(6)) {
      case 0:
      case 1: assign_fresh(a); break;
      case 2: move_assign(a, b); break;
      case 3: copy_assign(a, b); break;
      case 4: drop(a); break;
      default: swap_slots(a, b); break;
    }
  }

  void step() {
    size_t a = pick(), b = pick();
    switch (w.R.below(14)) {
      case 0:
      case 1: assign_fresh(a); break;
      case 2: move_assign(a, w.R.chance(15) ? a : b); break;
      case 3: copy_assign(a, w.R.chance(15) ? a : b); break;
      case 4: swap_slots(a, b); break;
      case 5: drop(a); break;
      case 6: copy_construct(a); break;
      case 7:
      case 8: {  // something the coroutine waits for happens
        obj *o = who(*slot[a]);
        if (!o) break;
        w.ev(7, o->id);
        if constexpr (K::gen) {
          if (!o->set) {
            o->set = true;
            auto ctx = slot[a]->get_context();
            ctx->set_value(rv(o->value));
          }
        } else {
          if constexpr (K::task) {
            if (!o->started && !o->killed && w.R.chance(70)) {
              F keep(*slot[a]);
              o->started = true;
              VF_CHECK(keep.start(), "start", "starting a created task");
              break;
            }
          }
          for (auto &g : o->gates)
            if (!g->open) {
              g->open = true;
              auto ctx = g->ctx;
              ctx->set_value(1);
              break;
            }
        }
        break;
      }
      case 9:
        if constexpr (!K::gen) {
          obj *o = who(*slot[a]);
          if (!o) break;
          w.ev(8, o->id);
          PS st = w.R.chance(50) ? PS::kKilled : w.R.chance(50) ? PS::kCancle : PS::kTimeout;
          bool can = !o->killed && !o->ended;
          if (can) o->killed = SI(st);
          bool ok;
          if constexpr (K::copyable) {
            F keep(*slot[a]);
            ok = keep.kill(st);
          } else {
            // the body may work on the table, the callable itself stays where it is
            std::unique_ptr<F> mine(new F(std::move(*slot[a])));
            ok = mine->kill(st);
            F back(std::move(*mine));
            *slot[a] = std::move(back);
          }
          VF_EQ(ok, can, "kill-result", "kill");
          VF_COUNT("killed");
        }
        break;
      case 10: {  // somebody waits, also for an empty handle
        obj *o = who(*slot[a]);
        if constexpr (!K::copyable) {
          if (o) {
            bool already = false;
            for (auto &x : w.ws) already = already || x->target == o->id;
            if (already) break;
          }
        }
        w.ws.emplace_back(new watcher());
        watcher *x = w.ws.back().get();
        x->id = (int)w.ws.size() - 1;
        x->target = o ? o->id : -1;
        w.ev(9, vf::mix64(x->id, x->target + 1));
        x->f.reset(new copp::callable_future<void>(watch<F>(x, *slot[a])));
        if (!o) {
          VF_EQ(x->resumed, 1, "empty-handle", "waiting for an empty handle returns");
          VF_EQ(x->st, 100 + SI(PS::kInvalid), "empty-handle", "waiting for an empty handle gives the error value");
          VF_COUNT("empty_handles_awaited");
        }
        break;
      }
      case 11:
        if constexpr (K::task) {  // lists of tasks through their private data
          obj *x = who(*slot[a]), *y = who(*slot[b]);
          if (!x || !y || x->id >= y->id) break;
          w.ev(10, vf::mix64(x->id, y->id));
          pdata *d = slot[a]->get_private_data();
          if (d->next && !may_touch(*d->next)) break;
          std::unique_ptr<t_t> n(new t_t(*slot[b]));
          d->next.swap(n);
          n.reset();
          VF_COUNT("linked");
        }
        break;
      case 12:
        if constexpr (K::task) {  // go on to the next one of a list: the source belongs to what is released
          if (!slot[a]->valid() || !may_touch(*slot[a])) break;
          pdata *d = slot[a]->get_private_data();
          if (!d->next) break;
          w.ev(11, a);
          obj *to = who(*d->next);
          bool hooks = false;
          for (auto &q : w.objs) hooks = hooks || q->hook;
          if (w.R.chance(50))
            *slot[a] = *d->next;
          else
            *slot[a] = std::move(*d->next);
          if (!hooks) VF_CHECK(who(*slot[a]) == to, "assign", "assigned handle refers to something else");
          VF_COUNT("advanced");
        }
        break;
      default:
        // equality
        if constexpr (K::task) {
          VF_EQ(*slot[a] == *slot[b], who(*slot[a]) == who(*slot[b]), "equality", "equality of handles");
          VF_EQ(*slot[a] != *slot[b], who(*slot[a]) != who(*slot[b]), "equality", "inequality of handles");
        }
        break;
    }
  }

  std::vector<int> count() {
    std::vector<int> refs(w.objs.size(), 0);
    std::vector<const F *> todo;
    for (auto &s : slot)
      if (K::ident(*s)) todo.push_back(s.get());
    while (!todo.empty()) {
      const F *f = todo.back();
      todo.pop_back();
      obj *o = who(*f);
      if (++refs[o->id] > 1) continue;
      if constexpr (K::task) {
        pdata *d = const_cast<F *>(f)->get_private_data();
        if (d->next && d->next->valid()) todo.push_back(d->next.get());
      }
    }
    return refs;
  }
  void check() {
    for (auto &s : slot)
      if (!K::ident(*s)) {
        K::check_empty(*s);
        VF_COUNT("empty_handles_checked");
      }
    std::vector<int> refs = count();
    for (auto &p : w.objs) {
      obj *o = p.get();
      int n = refs[o->id];
      if (!n) {
        if constexpr (!K::gen) {
          VF_CHECK(o->ended == 1 && o->entered == 1, "dropped-not-ended", "object %d: nothing refers to it, entered %d, ended %d",
                   o->id, o->entered, o->ended);
          VF_EQ(o->frames, 0, "dropped-not-destroyed", "frame of an object nothing refers to");
          VF_EQ(o->pd_live, 0, "dropped-not-destroyed", "private data of a task nothing refers to");
          if (!o->killed) {
            // it ended by itself before, or it was ended because it was dropped
            bool self = o->started;
            for (auto &g : o->gates) self = self && g->open;
            VF_EQ(o->end_status, self ? SI(PS::kRunning) : SI(PS::kKilled), "end-status", "status a body saw at its end");
          }
        }
        if (o->ident) {
          o->ident = nullptr;
          ++w.drops;
          VF_COUNT("objects_gone");
        }
        continue;
      }
      VF_CHECK(o->ident, "handle-unknown", "object %d came back", o->id);
      if constexpr (!K::gen) {
        bool self = o->started;
        for (auto &g : o->gates) self = self && g->open;
        // a killed task that was not started stays as it is
        bool end = (o->started && (self || o->killed));
        VF_EQ(o->ended, end ? 1 : 0, "handle-ended", "ends of an object that is referred to");
        VF_EQ(o->entered, o->started ? 1 : 0, "handle-ended", "body entered");
      }
      if (K::task) VF_EQ(o->pd_live, 1, "private-data", "private data objects of a task");
    }
    for (auto &s : slot) {
      obj *o = who(*s);
      if (!o) continue;
      K::check_live(*s, o);
      if constexpr (K::task) VF_EQ(s->get_ref_future_count(), refs[o->id], "reference-count", "handles of a task");
      if constexpr (!K::copyable) VF_EQ(refs[o->id], 1, "reference-count", "handles of a callable");
    }
    for (auto &x : w.ws) {
      if (x->target < 0) continue;
      obj *o = w.objs[x->target].get();
      bool done = K::gen ? o->set || !refs[o->id] : o->ended == 1 || !refs[o->id] || (o->killed && !o->started && x->resumed);
      VF_EQ(x->resumed, done ? 1 : 0, "waiter", "times a waiting coroutine continued");
      if (x->resumed && !x->st && !x->moved) VF_EQ(x->v, o->value, "waiter-value", "value a waiting coroutine received");
      if (x->resumed && x->st) {
        VF_CHECK(K::gen ? !o->set : (o->killed || o->end_status != SI(PS::kRunning)), "waiter-value",
                 "a waiting coroutine received an error from object %d", o->id);
      }
    }
  }
};

template <class F>
void run(vf::rng &R) {
  LV.reset();
  LL.reset();
  LP.reset();
  {
    world w(R.fork());
    {
      table<F> t(w);
      int n = (int)R.range(2, 5);
      for (int i = 0; i < n; ++i) t.slot.emplace_back(new F(t.fresh()));
      w.tab = &t;
      t.check();
      int steps = (int)R.range(5, 60);
      for (int k = 0; k < steps; ++k) {
        vf::hop([&] {
          t.step();
          t.check();
        });
      }
      w.tab = nullptr;
      while (!t.slot.empty()) {
        size_t i = t.pick();
        std::unique_ptr<F> s;
        s.swap(t.slot[i]);
        t.slot.erase(t.slot.begin() + (long)i);
        vf::hop([&] { s.reset(); });
        t.check();
      }
    }
    for (auto &x : w.ws) VF_EQ(x->resumed, 1, "waiter", "times a waiting coroutine continued");
    w.ws.clear();
    if (w.drops >= 2) vf::nontrivial();
  }
  VF_EQ(LV.live.load(), 0, "value-ledger", "values alive at the end");
  VF_EQ(LL.live.load(), 0, "local-ledger", "locals alive at the end");
  VF_EQ(LP.live.load(), 0, "private-data-ledger", "private data alive at the end");
}
}  // namespace

VF_MODE(callable) { run<c_t>(R); }
VF_MODE(task) { run<t_t>(R); }
VF_MODE(generator) { run<g_t>(R); }
