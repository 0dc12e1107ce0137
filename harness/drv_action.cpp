// C05/C10/C11/C12: the ways a program hands a callable to a stackful task (functors of every signature, std::function, function
// pointers, member functions, action objects) through create/create_with/next/then, against a reference interpreter.
// Every root operation is first interpreted by a model which yields the exact history; the library has to produce it.
#include "lib.h"

#include <libcotask/task.h>

#include <algorithm>

namespace {
using u64 = uint64_t;
struct world;
world *W = nullptr;

// allocator with an owner; a true move leaves the source unusable
struct own_alloc {
  int owner = -1;
  std::shared_ptr<vf::stack_book> book;
  copp::allocator::stack_allocator_malloc base;
  own_alloc();
  own_alloc(int o, std::shared_ptr<vf::stack_book> b) : owner(o), book(std::move(b)) {}
  own_alloc(const own_alloc &o) : owner(o.owner), book(o.book) {}
  own_alloc(own_alloc &&o) noexcept : owner(o.owner), book(std::move(o.book)) { o.owner = -2; }
  own_alloc &operator=(const own_alloc &o) {
    owner = o.owner;
    book = o.book;
    return *this;
  }
  void allocate(copp::stack_context &ctx, size_t size) noexcept;
  void deallocate(copp::stack_context &ctx) noexcept;
};
struct macro {
  using stack_allocator_type = own_alloc;
  using coroutine_type = copp::coroutine_context_container<own_alloc>;
  using value_type = int;
};
using task_t = cotask::task<macro>;
using task_p = task_t::ptr_type;

enum { ST_INVALID, ST_CREATED, ST_RUNNING, ST_WAITING, ST_DONE, ST_CANCELED, ST_KILLED, ST_TIMEOUT };

enum kind {
  K_INT_A, K_INT_AC, K_VOID_A, K_VOID_AC, K_INT_0, K_INT_0C, K_VOID_0, K_VOID_0C, K_LONG_A, K_BIG, K_ALIGN, K_LAMBDA, K_LAMBDA_MUT,
  K_LVALUE, K_CLVALUE, K_STDFN, K_MOVEONLY, K_NOEXC, K_ACTION, K_ACTION_LV,
  K_FN_INT, K_FN_VOID, K_FN_LONG, K_FN_BOOL, K_FN_UNSIGNED, K_FN_SHORT, K_FN_DOUBLE, K_FN_PTR,
  K_MEM_INT, K_MEM_VOID, K_MEM_CONST, K_N
};
const char *kname[] = {"int(void*)", "int(void*)const", "void(void*)", "void(void*)const", "int()", "int()const", "void()", "void()const",
                       "long(void*)", "big", "aligned", "lambda", "lambda-mutable", "lvalue", "const-lvalue", "std::function",
                       "move-only", "noexcept", "action", "action-lvalue", "int fn", "void fn", "long fn", "bool fn", "unsigned fn",
                       "short fn", "double fn", "void* fn", "int member", "void member", "const member"};
bool no_arg(int k) { return k >= K_INT_0 && k <= K_VOID_0C; }
bool is_fn(int k) { return k >= K_FN_INT && k <= K_FN_PTR; }
bool is_mem(int k) { return k >= K_MEM_INT; }
bool owns(int k) { return k < K_FN_INT; }
bool copies(int k) { return k == K_LVALUE || k == K_CLVALUE || k == K_ACTION_LV || k == K_STDFN; }
bool is_action(int k) { return k == K_ACTION || k == K_ACTION_LV; }

enum form { F_CREATE, F_CREATE_WITH, F_NEXT, F_NEXTPTR, F_THEN, F_THENPTR, F_N };
const char *fname[] = {"create", "create_with", "next", "next(ptr)", "then", "then(ptr)"};

struct step {
  int k = 0;  // 0 yield, 1 attach to itself, 2 kill itself, 3 query
  int child = -1;
  int n = 1;
};
struct node {
  int id = 0, kind = 0, form = 0, slot = 0;
  bool with_alloc = true, keep = true, give_data = true;
  int owner = 0;
  size_t ss = 0, ps = 0;
  u64 data = 0;  // handed over when attached
  int ret = 0;
  std::vector<step> body;
  int fail = 0;      // 1 the allocator refuses, 2 private size too big, 3 the callable throws while it is copied
  // real side
  std::atomic<int> live{0};
  bool created = false;
  int throw_in = -1;  // copies until the exception
  task_t *raw = nullptr;
  const void *at = nullptr;
};

enum evk { E_ENTER, E_BACK, E_ATT, E_OP, E_END, E_CB, E_DEAD, E_FREE, E_RELEASED, E_RC, E_ST };
const char *evname[] = {"enter", "continued", "attached", "op", "left", "on_finished", "callable-destroyed", "stack-released",
                        "reference-dropped", "result", "status"};
struct ev {
  int k;
  int64_t a, b, c;
  bool operator==(const ev &o) const { return k == o.k && a == o.a && b == o.b && c == o.c; }
};

struct world {
  std::vector<std::unique_ptr<node>> n;
  std::vector<task_p> held;
  std::shared_ptr<vf::stack_book> book = std::make_shared<vf::stack_book>();
  vf::ledger led;
  std::vector<ev> want;
  size_t pos = 0;
  std::map<uintptr_t, size_t> asked;  // lowest address of a stack -> size asked for
  bool failing = false;  // a creation is made to fail: the stack it gives back is checked by the book

  static std::string show(const ev &e) {
    char b[160];
    snprintf(b, sizeof b, "%s(%lld,%lld,%lld)", evname[e.k], (long long)e.a, (long long)e.b, (long long)e.c);
    return b;
  }
  void got(int k, int64_t a = 0, int64_t b = 0, int64_t c = 0) {
    ev e{k, a, b, c};
    if (vf::g_verbose) fprintf(stderr, "  [%zu] %s\n", pos, show(e).c_str());
    if (pos >= want.size() || !(want[pos] == e)) {
      std::string hist;
      for (size_t i = pos > 12 ? pos - 12 : 0; i < pos; ++i) hist += show(want[i]) + "; ";
      char key[64];
      snprintf(key, sizeof key, "act-%s-vs-%s", evname[e.k], pos < want.size() ? evname[want[pos].k] : "none");
      vf::fail(key, __FILE__, __LINE__, "event %zu: got %s, expected %s; before it: %s", pos, show(e).c_str(),
               pos < want.size() ? show(want[pos]).c_str() : "nothing", hist.c_str());
    }
    ++pos;
    VF_COUNT("events_compared");
  }
};

own_alloc::own_alloc() : book(W->book) {}
void own_alloc::allocate(copp::stack_context &ctx, size_t size) noexcept {
  VF_CHECK(book, "alloc-moved-from", "allocator used after it was moved away (owner %d)", owner);
  if (book->should_fail()) {
    ctx.sp = nullptr;
    ctx.size = 0;
    return;
  }
  base.allocate(ctx, size);
  if (ctx.sp) {
    book->on_alloc(ctx, book.get(), size);
    W->asked[reinterpret_cast<uintptr_t>(ctx.sp) - ctx.size] = size;
  }
}
void own_alloc::deallocate(copp::stack_context &ctx) noexcept {
  VF_CHECK(book, "alloc-moved-from", "stack returned to an allocator that was moved away (owner %d)", owner);
  book->on_free(ctx, book.get());
  W->asked.erase(reinterpret_cast<uintptr_t>(ctx.sp) - ctx.size);
  base.deallocate(ctx);
  if (!W->failing) W->got(E_FREE, owner);
}

// ---- the body of every task
task_p attach(task_t *pred, node &c);
int64_t p2i(const void *p) { return static_cast<int64_t>(reinterpret_cast<intptr_t>(p)); }
void *i2p(u64 v) { return reinterpret_cast<void *>(static_cast<uintptr_t>(v)); }

struct range {
  const char *what;
  uintptr_t lo, hi;
};

void check_place(node &n, task_t *me, const void *self, size_t selfsz) {
  // the callable, the task, the context and the private buffer share the task's stack region and nothing else
  std::vector<range> r;
  auto add = [&](const char *w, const void *p, size_t s) {
    if (s) r.push_back({w, reinterpret_cast<uintptr_t>(p), reinterpret_cast<uintptr_t>(p) + s});
  };
  char here = 0;
  if (self) add("callable", self, selfsz);
  add("task", me, sizeof(*me));
  add("context", me->get_coroutine_context().get(), sizeof(task_t::coroutine_type));
  add("private buffer", me->get_private_buffer(), me->get_private_buffer_size());
  add("frame", &here, 1);
  std::lock_guard<std::mutex> g(W->book->mu);
  auto it = W->book->live.upper_bound(r[0].lo);
  VF_CHECK(it != W->book->live.begin(), "act-place", "%s of task %d is outside of its stack region", r[0].what, n.id);
  --it;
  for (auto &x : r)
    VF_CHECK(it->first <= x.lo && x.hi <= it->second.hi, "act-place", "%s [%zx,%zx) of task %d is outside of its stack region [%zx,%zx)",
             x.what, (size_t)x.lo, (size_t)x.hi, n.id, (size_t)it->first, (size_t)it->second.hi);
  std::sort(r.begin(), r.end(), [](const range &a, const range &b) { return a.lo < b.lo; });
  for (size_t i = 1; i < r.size(); ++i)
    VF_CHECK(r[i - 1].hi <= r[i].lo, "act-overlap", "%s [%zx,%zx) and %s [%zx,%zx) of task %d overlap", r[i - 1].what, (size_t)r[i - 1].lo,
             (size_t)r[i - 1].hi, r[i].what, (size_t)r[i].lo, (size_t)r[i].hi, n.id);
  VF_COUNT("layouts_checked");
}

void run_body(node &n, void *arg, const void *self, size_t selfsz, const std::function<void()> &intact) {
  task_t *me = task_t::this_task();
  VF_CHECK(me, "act-this-task", "task %d runs without a current task", n.id);
  VF_CHECK(n.raw == nullptr || n.raw == me, "act-this-task", "task %d runs as %p, was created as %p", n.id, (void *)me, (void *)n.raw);
  n.raw = me;
  W->got(E_ENTER, n.id, p2i(arg), me->get_status());
  check_place(n, me, self, selfsz);
  unsigned char *pb = static_cast<unsigned char *>(me->get_private_buffer());
  size_t pn = me->get_private_buffer_size();
  memset(pb, 0x40 + n.id, pn);
  unsigned char frame[96];
  memset(frame, 0x80 + n.id, sizeof frame);
  auto ok = [&] {
    for (size_t i = 0; i < pn; ++i)
      VF_CHECK(pb[i] == 0x40 + n.id, "act-private-changed", "byte %zu of task %d's private buffer changed to %x", i, n.id, pb[i]);
    for (unsigned char c : frame) VF_CHECK(c == (unsigned char)(0x80 + n.id), "act-frame-changed", "task %d's frame changed", n.id);
    VF_CHECK(task_t::this_task() == me, "act-this-task", "current task is not task %d inside of it", n.id);
    intact();
  };
  for (auto &s : n.body) switch (s.k) {
      case 0:
        for (int i = 0; i < s.n; ++i) {
          void *d = &d;
          int rc = me->yield(&d);
          W->got(E_BACK, n.id, p2i(d), rc);
          ok();
        }
        break;
      case 1: {
        node &c = *W->n[s.child];
        task_p r = attach(me, c);
        W->got(E_ATT, n.id, c.id, r.get() == me ? 0 : 1);
        if (c.keep && r.get() != me) W->held[c.id] = r;
        r.reset();
        W->got(E_RELEASED, n.id);
        ok();
        break;
      }
      case 2:
        W->got(E_OP, n.id, 2, me->kill(cotask::EN_TS_KILLED, i2p(900 + n.id)));
        break;
      default:
        W->got(E_ST, n.id, me->get_status(), (me->is_exiting() ? 1 : 0) | (me->is_completed() ? 2 : 0));
    }
  ok();
  W->got(E_END, n.id);
}

// ---- callables
struct boom {};
struct carrier {  // accounted copy of a callable
  node *n;
  vf::tv mark;
  const carrier *me;
  static void up(node *n) { n->live.fetch_add(1); }
  static void down(node *n) {
    if (n->live.fetch_sub(1) == 1 && n->created) W->got(E_DEAD, n->id);
  }
  explicit carrier(node *p) : n(p), mark(&W->led, p->id), me(this) { up(n); }
  carrier(const carrier &o) : n(o.n), mark(o.mark), me(this) {
    if (n->throw_in >= 0 && n->throw_in-- == 0) throw boom{};
    up(n);
  }
  carrier(carrier &&o) : n(o.n), mark(o.mark), me(this) {
    if (n->throw_in >= 0 && n->throw_in-- == 0) throw boom{};
    up(n);
  }
  carrier &operator=(const carrier &) = delete;
  ~carrier() {
    VF_CHECK(me == this, "value-relocated", "callable of task %d was relocated bytewise", n->id);
    down(n);
  }
  void intact() const {
    VF_CHECK(me == this && mark.get() == (u64)n->id, "act-callable-changed", "callable of task %d changed", n->id);
  }
};
template <class S>
void go(S *s, size_t sz, const carrier &c, void *arg) {
  VF_CHECK(reinterpret_cast<uintptr_t>(s) % alignof(S) == 0, "act-misaligned", "callable of task %d at %p, alignment %zu", c.n->id, (void *)s,
           alignof(S));
  VF_CHECK(c.n->live.load() == 1 || c.n->raw == nullptr, "act-copies", "%d copies of the callable of task %d", c.n->live.load(), c.n->id);
  run_body(*c.n, arg, s, sz, [&] { c.intact(); });
}
#define SIMPLE(NAME, R, ARGS, CV, PASS, RET)     \
  struct NAME {                                  \
    carrier c;                                   \
    explicit NAME(node *n) : c(n) {}             \
    R operator() ARGS CV {                       \
      go(this, sizeof(*this), c, PASS);          \
      RET;                                       \
    }                                            \
  };
#define NOTHING
SIMPLE(f_int_a, int, (void *p), NOTHING, p, return c.n->ret)
SIMPLE(f_int_ac, int, (void *p), const, p, return c.n->ret)
SIMPLE(f_void_a, void, (void *p), NOTHING, p, return)
SIMPLE(f_void_ac, void, (void *p), const, p, return)
SIMPLE(f_int_0, int, (), NOTHING, nullptr, return c.n->ret)
SIMPLE(f_int_0c, int, (), const, nullptr, return c.n->ret)
SIMPLE(f_void_0, void, (), NOTHING, nullptr, return)
SIMPLE(f_void_0c, void, (), const, nullptr, return)
SIMPLE(f_long_a, long, (void *p), NOTHING, p, return c.n->ret)
SIMPLE(f_noexc, int, (void *p), noexcept, p, return c.n->ret)

struct f_big {
  carrier c;
  unsigned char pad[3000];
  explicit f_big(node *n) : c(n) { memset(pad, n->id + 1, sizeof pad); }
  int operator()(void *p) {
    run_body(*c.n, p, this, sizeof(*this), [&] {
      c.intact();
      for (auto b : pad) VF_CHECK(b == c.n->id + 1, "act-callable-changed", "payload of task %d changed", c.n->id);
    });
    return c.n->ret;
  }
};
struct alignas(16) f_align {
  carrier c;
  alignas(16) unsigned char pad[48];
  explicit f_align(node *n) : c(n) { memset(pad, n->id + 1, sizeof pad); }
  int operator()(void *p) {
    go(this, sizeof(*this), c, p);
    return c.n->ret;
  }
};
struct f_moveonly {
  std::unique_ptr<carrier> c;
  explicit f_moveonly(node *n) : c(new carrier(n)) {}
  f_moveonly(f_moveonly &&) = default;
  int operator()(void *p) {
    run_body(*c->n, p, this, sizeof(*this), [&] { c->intact(); });
    return c->n->ret;
  }
};
struct f_heap {  // lives where std::function puts it
  carrier c;
  explicit f_heap(node *n) : c(n) {}
  int operator()(void *p) {
    run_body(*c.n, p, nullptr, 0, [&] { c.intact(); });
    return c.n->ret;
  }
};
struct f_action : public cotask::impl::task_action_impl {
  carrier c;
  explicit f_action(node *n) : c(n) {}
  f_action(const f_action &o) : cotask::impl::task_action_impl(), c(o.c) {}
  f_action(f_action &&o) : cotask::impl::task_action_impl(), c(std::move(o.c)) {}
  int operator()(void *p) override {
    go(this, sizeof(*this), c, p);
    return c.n->ret;
  }
  int on_finished(cotask::impl::task_impl &t) override {
    VF_CHECK(&t == c.n->raw, "act-on-finished", "on_finished of task %d got another task", c.n->id);
    VF_CHECK(t.get_raw_action() == this, "act-raw-action", "raw action of task %d is not its action", c.n->id);
    W->got(E_CB, c.n->id, t.get_status(), t.get_ret_code());
    return 0;
  }
};
struct inst {  // instance of the member functions
  node *n = nullptr;
  int run_int(void *p) {
    run_body(*n, p, nullptr, 0, [&] {});
    return n->ret;
  }
  void run_void(void *p) { run_body(*n, p, nullptr, 0, [&] {}); }
  int run_const(void *p) const {
    run_body(*n, p, nullptr, 0, [&] {});
    return n->ret;
  }
};
constexpr int SLOTS = 14;
node *g_slot[SLOTS];
inst g_inst[SLOTS];
template <class R, int S>
R fn(void *p) {
  node &n = *g_slot[S];
  run_body(n, p, nullptr, 0, [&] {});
  if constexpr (std::is_same<R, void>::value)
    return;
  else if constexpr (std::is_same<R, void *>::value)
    return i2p(n.ret);
  else
    return static_cast<R>(n.ret);
}
template <class R, int... I>
constexpr std::array<R (*)(void *), sizeof...(I)> fn_table(std::integer_sequence<int, I...>) {
  return {{&fn<R, I>...}};
}
template <class R>
R (*fn_of(int s))(void *) {
  static constexpr auto t = fn_table<R>(std::make_integer_sequence<int, SLOTS>());
  return t[s];
}

// ---- the expected results
int expect_ret(const node &n) {
  switch (n.kind) {
    case K_VOID_A: case K_VOID_AC: case K_VOID_0: case K_VOID_0C: case K_FN_VOID: return 0;
    case K_FN_BOOL: return n.ret ? 1 : 0;
    case K_FN_SHORT: return static_cast<short>(n.ret);
    case K_LONG_A: case K_FN_DOUBLE: case K_FN_PTR: return -12345;  // not specified
    default: return is_mem(n.kind) ? -12345 : n.ret;
  }
}

// ---- the callable of a node, handed to `f` the way the node's kind says
template <class F>
task_p with_callable(node &n, F &&f) {
  switch (n.kind) {
    case K_INT_A: return f(f_int_a(&n));
    case K_INT_AC: return f(f_int_ac(&n));
    case K_VOID_A: return f(f_void_a(&n));
    case K_VOID_AC: return f(f_void_ac(&n));
    case K_INT_0: return f(f_int_0(&n));
    case K_INT_0C: return f(f_int_0c(&n));
    case K_VOID_0: return f(f_void_0(&n));
    case K_VOID_0C: return f(f_void_0c(&n));
    case K_LONG_A: return f(f_long_a(&n));
    case K_BIG: return f(f_big(&n));
    case K_ALIGN: return f(f_align(&n));
    case K_LAMBDA: {
      carrier c(&n);
      auto l = [c](void *p) -> int {
        run_body(*c.n, p, &c, sizeof c, [&] { c.intact(); });
        return c.n->ret;
      };
      return f(std::move(l));
    }
    case K_LAMBDA_MUT: {
      carrier c(&n);
      return f([c, calls = 0](void *p) mutable -> int {
        VF_CHECK(calls++ == 0, "act-called-twice", "callable of task %d called again", c.n->id);
        run_body(*c.n, p, &c, sizeof c, [&] { c.intact(); });
        return c.n->ret;
      });
    }
    case K_LVALUE: {
      f_int_a x(&n);
      task_p r = f(x);
      x.c.intact();
      return r;
    }
    case K_CLVALUE: {
      const f_int_ac x(&n);
      task_p r = f(x);
      x.c.intact();
      return r;
    }
    case K_STDFN: {
      std::function<int(void *)> x{f_heap(&n)};
      task_p r = f(x);
      VF_CHECK(!!x, "act-lvalue-moved", "the program's std::function was emptied");
      return r;
    }
    case K_MOVEONLY: return f(f_moveonly(&n));
    case K_NOEXC: return f(f_noexc(&n));
    case K_ACTION: return f(f_action(&n));
    case K_ACTION_LV: {
      f_action x(&n);
      task_p r = f(x);
      x.c.intact();
      return r;
    }
    case K_FN_INT: return f(fn_of<int>(n.slot));
    case K_FN_VOID: return f(fn_of<void>(n.slot));
    case K_FN_LONG: return f(fn_of<long>(n.slot));
    case K_FN_BOOL: return f(fn_of<bool>(n.slot));
    case K_FN_UNSIGNED: return f(fn_of<unsigned>(n.slot));
    case K_FN_SHORT: return f(fn_of<short>(n.slot));
    case K_FN_DOUBLE: return f(fn_of<double>(n.slot));
    case K_FN_PTR: return f(fn_of<void *>(n.slot));
    case K_MEM_INT: return f(&inst::run_int, &g_inst[n.slot]);
    case K_MEM_VOID: return f(&inst::run_void, &g_inst[n.slot]);
    default: return f(&inst::run_const, &g_inst[n.slot]);
  }
}

task_p make(node &n) {
  own_alloc a(n.owner, W->book);
  if (n.form == F_CREATE_WITH) {
    switch (n.kind) {
      case K_ACTION: return task_t::create_with<f_action>(a, n.ss, n.ps, &n);
      case K_BIG: return task_t::create_with<f_big>(a, n.ss, n.ps, &n);
      default: return task_t::create_with<f_int_a>(a, n.ss, n.ps, &n);
    }
  }
  return with_callable(n, [&](auto &&...c) -> task_p {
    if (!n.with_alloc) return task_t::create(std::forward<decltype(c)>(c)..., n.ss, n.ps);
    return task_t::create(std::forward<decltype(c)>(c)..., a, n.ss, n.ps);
  });
}

size_t asked_for(task_t *t) {
  auto it = W->asked.upper_bound(reinterpret_cast<uintptr_t>(t));
  VF_CHECK(it != W->asked.begin(), "act-place", "task outside of every stack");
  return (--it)->second;
}
void settle(node &n, task_t *t) {
  n.raw = t;
  n.created = true;
  if (owns(n.kind)) {
    bool over = t->is_completed();
    VF_CHECK(n.live.load() == 1, "act-copies", "%d copies of the callable of task %d live after its creation (%s)", n.live.load(), n.id,
             over ? "finished" : "not begun");
  }
}

// attach a new task (or fail to); returns what the library returned
task_p attach_raw(task_t *pred, node &c) {
  switch (c.form) {
    case F_NEXT: {
      own_alloc a(c.owner, W->book);
      return with_callable(c, [&](auto &&...x) -> task_p {
        if (!c.with_alloc) {
          if (!c.give_data) return pred->next(std::forward<decltype(x)>(x)...);
          return pred->next(std::forward<decltype(x)>(x)..., i2p(c.data), c.ss, c.ps);
        }
        return pred->next(std::forward<decltype(x)>(x)..., a, i2p(c.data), c.ss, c.ps);
      });
    }
    case F_THEN:
      return with_callable(c, [&](auto &&x, auto &&...more) -> task_p {
        if constexpr (sizeof...(more) == 0) {
          if (!c.give_data) return pred->then(std::forward<decltype(x)>(x));
          return pred->then(std::forward<decltype(x)>(x), i2p(c.data));
        } else {
          return task_p();
        }
      });
    default: {
      task_p p = make(c);
      if (p) {
        VF_CHECK(p->get_status() == ST_CREATED && p->use_count() == 1, "act-fresh", "new task %d: status %d, %zu references", c.id,
                 (int)p->get_status(), p->use_count());
        c.raw = p.get();
        c.created = true;
      }
      if (!c.give_data) return c.form == F_NEXTPTR ? pred->next(p) : pred->then(p);
      return c.form == F_NEXTPTR ? pred->next(p, i2p(c.data)) : pred->then(p, i2p(c.data));
    }
  }
}
task_p attach(task_t *pred, node &c) {
  if (c.fail == 1) W->book->fail_after = 0;
  if (c.fail == 3) c.throw_in = 0;
  W->failing = c.fail != 0;
  size_t live = W->book->live_count();
  size_t pred_ps = pred->get_private_buffer_size();
  size_t asked = asked_for(pred);
  int pred_owner = pred->get_coroutine_context()->get_allocator().owner;
  task_p r;
  bool threw = false;
  try {
    r = attach_raw(pred, c);
  } catch (const boom &) {
    threw = true;
    r = task_p(pred);
  }
  VF_CHECK(threw == (c.fail == 3), "act-throw", "task %d: the copy threw %d, the program saw %d", c.id, c.fail == 3, threw);
  W->book->fail_after = -1;
  W->failing = false;
  c.throw_in = -1;
  VF_CHECK(r, "act-null", "attaching task %d gave no task", c.id);
  if (c.fail) {
    VF_CHECK(r.get() == pred, "act-failed-attach", "attaching task %d failed, but did not give the task itself", c.id);
    VF_CHECK(c.live.load() == 0, "act-copies", "%d copies of the callable of task %d are left after the failure", c.live.load(), c.id);
    VF_EQ(W->book->live_count(), live, "act-stack-left", "stacks after the failed creation");
    VF_COUNT("failed_attaches");
    return r;
  }
  VF_CHECK(r.get() != pred, "act-attach", "attaching task %d gave the task itself", c.id);
  settle(c, r.get());
  size_t ps = c.form == F_THEN ? pred_ps : (c.form == F_NEXT && !c.with_alloc && !c.give_data ? 0 : c.ps);
  VF_CHECK(r->get_private_buffer_size() >= ps, "act-private-size", "private buffer of task %d: %zu bytes, expected %zu", c.id,
           r->get_private_buffer_size(), ps);
  if (c.form == F_THEN) {
    VF_EQ(r->get_coroutine_context()->get_allocator().owner, pred_owner, "act-then-allocator", "allocator of a then() task");
    VF_EQ(asked_for(r.get()), asked, "act-then-stack", "stack size of a then() task");
    VF_COUNT("then_inherited");
  }
  return r;
}

// ================================================================= model
struct model {
  world &w;
  struct mt {
    int st = ST_CREATED, co = 0;
    size_t pc = 0;
    int left = 0;
    int rc = 0;
    bool held = false;
    int owner = -1;
    u64 finish = 0;
    std::vector<std::pair<int, u64>> nexts;
    bool ever = false;
  };
  std::vector<mt> t;
  explicit model(world &x) : w(x), t(x.n.size()) {}
  void emit(int k, int64_t a = 0, int64_t b = 0, int64_t c = 0) { w.want.push_back(ev{k, a, b, c}); }
  void release(int i) {
    if (--t[i].rc == 0) destroy(i);
  }
  void destroy(int i) {
    if (t[i].st > ST_CREATED && t[i].st < ST_DONE) {
      t[i].rc = 1;
      kill(i, ST_TIMEOUT, 0);
      if (--t[i].rc > 0) return;
    }
    if (owns(w.n[i]->kind)) emit(E_DEAD, i);
    if (t[i].st <= ST_CREATED) active_next(i);
    emit(E_FREE, t[i].owner);
  }
  void active_next(int i) {
    auto l = std::move(t[i].nexts);
    t[i].nexts.clear();
    for (auto &x : l) start(x.first, x.second);
    for (auto &x : l) release(x.first);
  }
  void notify(int i, u64 d) {
    while (t[i].co != 3) run(i, d);
    if (is_action(w.n[i]->kind)) emit(E_CB, i, t[i].st, expect_ret(*w.n[i]));
    active_next(i);
  }
  int start(int i, u64 d) {
    if (t[i].st >= ST_DONE) return copp::COPP_EC_ALREADY_FINISHED;
    if (t[i].st == ST_RUNNING) return copp::COPP_EC_IS_RUNNING;
    t[i].st = ST_RUNNING;
    run(i, d);
    if (t[i].co == 3) {
      if (t[i].st == ST_RUNNING) t[i].st = ST_DONE;
      notify(i, d);
    } else if (t[i].st >= ST_DONE) {
      notify(i, t[i].finish);
    } else {
      t[i].st = ST_WAITING;
    }
    return 0;
  }
  int cancel(int i, u64 d) {
    if (t[i].st >= ST_DONE) return copp::COPP_EC_ALREADY_FINISHED;
    if (t[i].st == ST_RUNNING) return copp::COPP_EC_IS_RUNNING;
    t[i].st = ST_CANCELED;
    notify(i, d);
    return 0;
  }
  int kill(int i, int s, u64 d) {
    if (t[i].st >= ST_DONE) return copp::COPP_EC_ALREADY_FINISHED;
    int from = t[i].st;
    t[i].st = s;
    if (from != ST_RUNNING)
      notify(i, d);
    else
      t[i].finish = d;
    return 0;
  }
  void attach(int pred, int c) {
    node &n = *w.n[c];
    if (n.fail) return;
    t[c].ever = true;
    t[c].owner = n.form == F_THEN ? t[pred].owner : (n.with_alloc ? n.owner : -1);
    t[c].rc = 1;
    u64 d = n.give_data ? n.data : (n.form == F_NEXT && n.with_alloc ? n.data : 0);
    if (t[pred].st < ST_DONE && t[pred].co != 3) {
      t[pred].nexts.emplace_back(c, d);
      ++t[c].rc;
    } else {
      start(c, d);
    }
  }
  void run(int i, u64 d) {
    node &n = *w.n[i];
    if (t[i].co == 0)
      emit(E_ENTER, i, no_arg(n.kind) ? 0 : (int64_t)d, t[i].st);
    else
      emit(E_BACK, i, (int64_t)d, 0);
    t[i].co = 1;
    while (true) {
      if (t[i].left > 0) {
        --t[i].left;
        t[i].co = 2;
        return;
      }
      if (t[i].pc >= n.body.size()) break;
      step s = n.body[t[i].pc++];
      switch (s.k) {
        case 0: t[i].left = s.n; break;
        case 1:
          attach(i, s.child);
          emit(E_ATT, i, s.child, w.n[s.child]->fail ? 0 : 1);
          if (!w.n[s.child]->fail) {
            if (w.n[s.child]->keep)
              t[s.child].held = true;
            else
              release(s.child);
          }
          emit(E_RELEASED, i);
          break;
        case 2: emit(E_OP, i, 2, kill(i, ST_KILLED, 900 + i)); break;
        default: emit(E_ST, i, t[i].st, t[i].st >= ST_DONE ? 1 : 0);
      }
    }
    emit(E_END, i);
    t[i].co = 3;
  }
};

}  // namespace

VF_MODE(act) {
  int total = (int)R.range(2, SLOTS);
  world w;
  W = &w;
  w.book->expects_requested_size = true;
  for (int i = 0; i < total; ++i) {
    w.n.emplace_back(new node);
    node &n = *w.n.back();
    n.id = i;
    n.slot = i;
    g_slot[i] = &n;
    g_inst[i].n = &n;
    n.kind = (int)R.below(K_N);
    n.owner = i;
    n.with_alloc = R.chance(85);
    n.keep = R.chance(70);
    n.give_data = R.chance(85);
    n.data = 1000 + (u64)i;
    n.ret = (int)R.range(-5, 70000);
    if (R.chance(10)) n.ret = -2147483647 + (int)R.below(3);
    n.ss = 32768 + 4096 * R.below(12) + 8 * R.below(20);
    if (!n.with_alloc && R.chance(20)) n.ss = 0;
    n.ps = R.chance(50) ? 0 : R.below(2000);
  }
  std::vector<char> used(total, 0);
  std::vector<int> free_ids;
  // bodies; a body may only attach tasks with greater numbers, each task is attached at most once
  for (int i = 0; i < total; ++i) {
    int len = (int)R.below(4);
    for (int j = 0; j < len; ++j) {
      step s;
      unsigned x = (unsigned)R.below(100);
      if (x < 60) {
        s.k = 0;
        s.n = R.chance(85) ? (int)R.range(1, 4) : (int)R.range(1, 300);
      } else if (x < 78 && i + 1 < total) {
        s.k = 1;
        int c = (int)R.range(i + 1, total - 1);
        if (used[c]) continue;
        used[c] = 1;
        s.child = c;
      } else if (x < 84) {
        s.k = 2;
      } else {
        s.k = 3;
      }
      w.n[i]->body.push_back(s);
    }
  }
  auto prepare_attach = [&](node &n, bool may_fail) {
    static const int forms[] = {F_NEXT, F_NEXT, F_NEXT, F_NEXTPTR, F_THEN, F_THEN, F_THEN, F_THENPTR};
    n.form = forms[R.below(8)];
    if (n.form == F_THEN && is_mem(n.kind)) n.form = F_NEXT;
    if (n.form == F_NEXT && n.with_alloc) n.give_data = true;
    if (may_fail && R.chance(10)) {
      n.fail = (int)R.range(1, 3);
      if (n.fail == 3 && !copies(n.kind)) n.fail = 1;
      if (n.fail == 2 && (n.form == F_THEN || (n.form == F_NEXT && !n.with_alloc && !n.give_data))) n.fail = 1;
      if (n.fail == 2) n.ps = (n.ss ? n.ss : 400000) + R.below(100);
    }
  };
  for (int i = 0; i < total; ++i) {
    if (used[i]) {
      prepare_attach(*w.n[i], true);
      vf::tr(1, (u64)w.n[i]->form * 64 + w.n[i]->kind);
    } else {
      free_ids.push_back(i);
    }
  }
  w.held.resize(total);
  model m(w);
  auto agree = [&](const char *what) {
    VF_CHECK(w.pos == w.want.size(), "act-missing", "after %s: expected %s did not happen", what, world::show(w.want[w.pos]).c_str());
  };
  size_t next_free = 0;
  int ops = (int)R.range(4, 40);
  u64 stamp = 5000;
  for (int o = 0; o < ops || next_free < free_ids.size(); ++o) {
    std::vector<int> held;
    for (int i = 0; i < total; ++i)
      if (m.t[i].held) held.push_back(i);
    if (next_free < free_ids.size() && (held.empty() || R.chance(35) || o >= ops)) {
      node &n = *w.n[free_ids[next_free++]];
      if (!held.empty() && R.chance(50)) {
        prepare_attach(n, true);
        int pred = R.pick(held);
        if (vf::g_verbose) fprintf(stderr, "root: %d %s %s%s -> %d fail %d\n", pred, fname[n.form], kname[n.kind], n.with_alloc ? "+alloc" : "", n.id, n.fail);
        m.attach(pred, n.id);
        if (!n.fail) m.t[n.id].held = true;
        task_p pp = w.held[pred];
        bool was_over = pp->is_exiting();
        w.held[n.id] = attach(pp.get(), n);
        if (n.fail) w.held[n.id].reset();
        agree("attach");
        vf::tr(2, (u64)n.form * 64 + n.kind);
        if (was_over) VF_COUNT("attached_after_the_end");
        VF_COUNT("attached");
      } else {
        n.form = (n.kind == K_ACTION || n.kind == K_BIG || n.kind == K_INT_A) && R.chance(50) ? F_CREATE_WITH : F_CREATE;
        if (n.form == F_CREATE_WITH) n.with_alloc = true;
        n.fail = R.chance(6) ? (int)R.range(1, 3) : 0;
        if (n.fail == 3 && (!copies(n.kind) && n.kind != K_INT_A && n.kind != K_BIG && n.kind != K_ACTION)) n.fail = 1;
        if (n.fail == 2) n.ps = (n.ss ? n.ss : 400000) + R.below(100);
        if (vf::g_verbose) fprintf(stderr, "root: %s %s%s -> %d fail %d\n", fname[n.form], kname[n.kind], n.with_alloc ? "+alloc" : "", n.id, n.fail);
        size_t live = w.book->live_count();
        if (n.fail == 1) w.book->fail_after = 0;
        if (n.fail == 3) n.throw_in = 0;
        w.failing = n.fail != 0;
        task_p p;
        bool threw = false;
        try {
          p = make(n);
        } catch (const boom &) {
          threw = true;
        }
        w.book->fail_after = -1;
        w.failing = false;
        n.throw_in = -1;
        VF_CHECK(threw == (n.fail == 3), "act-throw", "task %d: the copy threw %d, the program saw %d", n.id, n.fail == 3, threw);
        VF_CHECK(!p == (n.fail != 0), "act-create", "task %d: failure %d, created %d", n.id, n.fail, !!p);
        if (n.fail) {
          VF_EQ(w.book->live_count(), live, "act-stack-left", "stacks after the failed creation");
          VF_CHECK(n.live.load() == 0, "act-copies", "%d copies of the callable of task %d are left", n.live.load(), n.id);
          VF_COUNT("failed_creations");
        } else {
          VF_CHECK(p->get_status() == ST_CREATED && p->use_count() == 1 && !p->is_exiting() && !p->is_completed(), "act-fresh",
                   "new task %d: status %d, %zu references", n.id, (int)p->get_status(), p->use_count());
          settle(n, p.get());
          VF_CHECK(p->get_private_buffer_size() >= n.ps, "act-private-size", "private buffer of task %d: %zu bytes, asked for %zu", n.id,
                   p->get_private_buffer_size(), n.ps);
          m.t[n.id].rc = 1;
          m.t[n.id].held = true;
          m.t[n.id].owner = n.with_alloc ? n.owner : -1;
          w.held[n.id] = std::move(p);
          VF_COUNT("created");
        }
        agree("create");
        vf::tr(3, (u64)n.form * 64 + n.kind);
      }
      continue;
    }
    if (held.empty()) {
      if (next_free >= free_ids.size()) break;
      continue;
    }
    int i = R.pick(held);
    unsigned x = (unsigned)R.below(100);
    u64 d = R.chance(10) ? 0 : ++stamp;
    task_p p = w.held[i];
    size_t before = w.want.size();
    ++m.t[i].rc;
    int want = 0, got = 0;
    if (vf::g_verbose) fprintf(stderr, "root: op %u on %d (status %d)\n", x, i, (int)p->get_status());
    if (x < 35) {
      want = m.start(i, d);
      got = p->start(i2p(d));
      vf::tr(10, i);
    } else if (x < 68) {
      int n = R.chance(30) ? (int)R.range(1, 300) : 1;
      for (int k = 0; k < n; ++k) {
        want = m.start(i, d + k);
        got = p->resume(i2p(d + k));
        if (want != got || want != 0) break;
      }
      stamp += n;
      vf::tr(11, i);
    } else if (x < 76) {
      int s = R.chance(50) ? ST_KILLED : ST_TIMEOUT;
      want = m.kill(i, s, d);
      got = p->kill(static_cast<cotask::EN_TASK_STATUS>(s), i2p(d));
      vf::tr(12, i);
    } else if (x < 80) {
      want = m.cancel(i, d);
      got = p->cancel(i2p(d));
      vf::tr(13, i);
    } else if (x < 92) {
      m.t[i].held = false;
      m.release(i);
      w.held[i].reset();
      vf::tr(14, i);
    } else {
      VF_EQ(p->get_status(), m.t[i].st, "act-status", "status");
      VF_EQ(p->is_completed(), m.t[i].co == 3, "act-completed", "is_completed");
      int e = expect_ret(*w.n[i]);
      if (m.t[i].co == 3 && e != -12345) {
        VF_EQ(p->get_ret_code(), e, "act-ret-code", kname[w.n[i]->kind]);
        VF_COUNT("results_compared");
      }
    }
    VF_EQ(got, want, "act-code", "result of an operation on a task");
    if (m.t[i].co == 3) {
      int e = expect_ret(*w.n[i]);
      if (e != -12345) {
        VF_EQ(p->get_ret_code(), e, "act-ret-code", kname[w.n[i]->kind]);
        VF_COUNT("results_compared");
      }
    }
    VF_EQ(p->get_status(), m.t[i].st, "act-status", "status");
    VF_EQ(p->use_count(), m.t[i].rc, "act-references", "references of a task");
    m.release(i);
    p.reset();
    agree("operation");
    if (w.want.size() > before) vf::nontrivial();
    vf::beat();
  }
  for (int round = 0; round < total; ++round)  // bodies which end only now may still leave tasks to the program
    for (int i = 0; i < total; ++i) {
      if (!m.t[i].held) continue;
      m.t[i].held = false;
      m.release(i);
      w.held[i].reset();
      agree("last drop");
    }
  for (auto &n : w.n) VF_EQ(n->live.load(), 0, "act-copies", "copies of a callable left at the end");
  VF_EQ(w.led.live.load(), 0, "act-copies", "parts of callables left at the end");
  VF_EQ(w.book->live_count(), 0, "act-stack-left", "stacks left at the end");
  vf::note("%d tasks, %d ops, %zu events", total, ops, w.want.size());
  W = nullptr;
}
