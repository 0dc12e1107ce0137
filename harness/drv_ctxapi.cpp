// C04: API state machine of coroutine contexts; C05: memory layout and ownership of contexts and tasks.
#include "lib.h"

#include <libcotask/task.h>

#include <thread>

using copp::coroutine_context;
namespace {
using container = copp::coroutine_context_container<vf::talloc>;
constexpr size_t K = 1024;

// ---- C04 ---------------------------------------------------------------------------------------
struct raw_co : copp::coroutine_context {
  raw_co() {}
};

enum { UNINIT, NORUNNER, READY, RUNNING, DONE };
struct item {
  int idx;
  coroutine_context *ctx = nullptr;
  container::ptr_type owner;
  raw_co *raw = nullptr;
  unsigned char *raw_mem = nullptr;
  int state = UNINIT;
  int flags = 0;
  int ret = 0;
  int will_return = 0;
  size_t priv = 0;
  std::vector<unsigned char> shadow;  // private area
  std::weak_ptr<int> runner;          // the callable it was given
  void *expect = nullptr;
};
struct world {
  vf::rng R;
  std::vector<std::unique_ptr<item>> items;
  std::vector<int> chain;
  std::shared_ptr<vf::stack_book> book = std::make_shared<vf::stack_book>();
  int steps = 0;
  size_t expect_live = 0;
  uint64_t h = 0;
  int refused = 0, depth = 0;
  explicit world(vf::rng r) : R(r) {}
  int self() const { return chain.empty() ? -1 : chain.back(); }
};

void op(world &w);

void check_all(world &w, const char *after) {
  for (auto &up : w.items) {
    item &c = *up;
    VF_CHECK(c.ctx->is_finished() == (c.state == DONE), "api-finished", "after %s: coroutine %d reports finished=%d in state %d",
             after, c.idx, c.ctx->is_finished(), c.state);
    VF_CHECK(c.ctx->check_flags(1) == (c.state == DONE), "api-flags", "after %s: finished flag of %d wrong", after, c.idx);
    for (int b = 8; b < 31; ++b)
      VF_CHECK(c.ctx->check_flags(1 << b) == !!(c.flags & (1 << b)), "api-flags", "after %s: flag %d of %d is %d", after, b, c.idx,
               c.ctx->check_flags(1 << b));
    VF_EQ(c.ctx->get_ret_code(), c.ret, "api-retcode", "reported result of a coroutine");
    VF_EQ(!!c.ctx->get_runner(), c.state != NORUNNER && !(c.state == UNINIT && !c.ctx->get_runner()), "api-runner",
          "coroutine has a runner");
    if (c.state == READY || c.state == RUNNING)
      VF_CHECK(!c.runner.expired(), "api-runner", "after %s: the callable of coroutine %d is gone", after, c.idx);
    VF_EQ(c.ctx->get_private_buffer_size(), c.priv, "api-private", "private area size");
    if (c.priv)
      VF_CHECK(memcmp(c.ctx->get_private_buffer(), c.shadow.data(), c.shadow.size()) == 0, "api-private",
               "after %s: private area of %d changed", after, c.idx);
  }
  VF_EQ(w.book->live_count(), w.expect_live, "api-stacks", "stacks held");
  coroutine_context *cur = copp::this_coroutine::get_coroutine();
  VF_CHECK(cur == (w.chain.empty() ? nullptr : w.items[w.chain.back()]->ctx), "api-current", "after %s: wrong current coroutine",
           after);
}

int body(world &w, int i, void *arg) {
  {
    item &c = *w.items[i];
    VF_CHECK(arg == c.expect, "api-argument", "body of %d got %p, expected %p", i, arg, c.expect);
    check_all(w, "start");
  }
  int n = (int)w.R.below(5);
  for (int k = 0; k < n; ++k) {
    op(w);
    if (w.R.chance(55)) {
      item &c = *w.items[i];
      VF_EQ(w.self(), i, "api-current", "running coroutine");
      w.chain.pop_back();
      c.state = READY;
      int how = (int)w.R.below(3);
      void *got = &c;
      int rc = how == 0 ? copp::this_coroutine::yield(&got) : how == 1 ? c.ctx->yield(&got) : c.ctx->yield();
      item &d = *w.items[i];
      VF_EQ(rc, copp::COPP_EC_SUCCESS, "api-yield", "yield of a running coroutine");
      if (how != 2) VF_CHECK(got == d.expect, "api-argument", "yield of %d handed out %p, expected %p", i, got, d.expect);
      VF_COUNT("api_yields");
      check_all(w, "yield");
    }
  }
  return w.items[i]->will_return;
}

void drive(world &w, int j) {
  item &c = *w.items[j];
  int before = c.state;
  int want = before == UNINIT || before == NORUNNER ? (int)copp::COPP_EC_NOT_INITED
             : before == READY                      ? (int)copp::COPP_EC_SUCCESS
             : before == RUNNING                    ? (int)copp::COPP_EC_IS_RUNNING
                                                    : (int)copp::COPP_EC_NOT_READY;
  void *p = reinterpret_cast<void *>(w.R.next());
  if (before == READY) {
    c.expect = p;
    c.state = RUNNING;
    w.chain.push_back(j);
    if ((int)w.chain.size() > w.depth) w.depth = (int)w.chain.size();
  }
  size_t lvl = w.chain.size();
  std::exception_ptr ep;
  int rc;
  switch (w.R.below(VF_EPTR ? 4 : 2)) {
    case 0: rc = c.ctx->start(p); break;
    case 1: rc = c.ctx->resume(p); break;
#if VF_EPTR
    case 2: rc = c.ctx->start(ep, p); break;
    default: rc = c.ctx->resume(ep, p); break;
#else
    default: rc = c.ctx->resume(p); break;
#endif
  }
  VF_CHECK(!ep, "api-exception", "an exception appeared from nowhere");
  VF_EQ(rc, want, "api-start", "start/resume result");
  item &d = *w.items[j];
  if (before == READY) {
    if (w.chain.size() == lvl) {  // body returned (a yield pops by itself)
      VF_CHECK(w.chain.back() == j && d.state == RUNNING, "api-control", "control came back from somewhere else");
      w.chain.pop_back();
      d.state = DONE;
      d.ret = d.will_return;
      VF_COUNT("api_finished");
    } else {
      VF_CHECK(w.chain.size() == lvl - 1 && d.state == READY, "api-control", "control came back from somewhere else");
    }
  } else {
    ++w.refused;
    VF_COUNT("api_refused_start");
  }
}

std::function<int(void *)> make_runner(world &w, int idx, std::weak_ptr<int> &mark) {
  auto token = std::make_shared<int>(idx);  // lives as long as a copy of this callable does
  mark = token;
  return [&w, idx, token](void *p) {
    VF_CHECK(!(w.items[idx]->runner.owner_before(token) || token.owner_before(w.items[idx]->runner)), "api-runner",
             "coroutine %d runs a callable other than the one it accepted", idx);
    return body(w, idx, p);
  };
}

void fill(world &w, item &c) {
  c.priv = c.ctx->get_private_buffer_size();
  c.shadow.resize(c.priv);
  for (auto &b : c.shadow) b = (unsigned char)w.R.next();
  if (c.priv) memcpy(c.ctx->get_private_buffer(), c.shadow.data(), c.priv);
}

size_t odd_size(vf::rng &R, size_t around) {
  switch (R.below(9)) {
    case 0: return 0;
    case 1: return 8 * R.below(64);
    case 2: return R.below(2000);
    case 3: return around + R.below(130) - 65;
    case 4: return around * 2;
    case 5: return SIZE_MAX - R.below(200);
    case 6: return SIZE_MAX / 2 + R.below(64);
    case 7: return (SIZE_MAX - around) + R.below(300) - 150;
    default: return 16 * R.below(400);
  }
}

void create_container(world &w) {
  int idx = (int)w.items.size();
  size_t stack = 64 * K + 16 * w.R.below(4 * K), priv = 16 * w.R.below(64), ext = w.R.below(300);
  bool bad = w.R.chance(50), empty = w.R.chance(25), alloc_fail = false;
  vf::talloc a(w.book);
  if (bad) {
    switch (w.R.below(6)) {
      case 0: priv = odd_size(w.R, stack); break;
      case 1: ext = odd_size(w.R, stack); break;
      case 2:
        priv = odd_size(w.R, stack);
        ext = odd_size(w.R, stack);
        break;
      case 3: stack = 1 + w.R.below(2000); priv = w.R.below(3000); break;
      case 4:
        alloc_fail = true;
        w.book->fail_after = 0;
        break;
      default:  // sum of the two wraps around
        priv = SIZE_MAX / 2 + 1 + 16 * w.R.below(8);
        ext = SIZE_MAX / 2 + 1 + 16 * w.R.below(8);
        break;
    }
  }
  using u128 = unsigned __int128;
  auto up = [](u128 v, unsigned m) { return (v + m - 1) / m * m; };
  u128 need = up(ext, 16) + up(sizeof(container), 16) + up(priv, 16);
  // the malloc allocator gives at least the minimum and at most the maximum stack size
  size_t real = std::max(stack, copp::stack_traits::minimum_size());
  real = std::min(real, copp::stack_traits::maximum_size());
  bool must_fail = alloc_fail || need >= real;
  u128 padded = up(ext, 64) + up(sizeof(container), 64) + up(priv, 64);
  bool may_fail = padded >= stack || padded >= real;  // judged on the requested or on the obtained size, with padding
  std::weak_ptr<int> fl;
  auto runner = empty ? std::function<int(void *)>() : make_runner(w, idx, fl);
  size_t live = w.book->live_count();
  container::ptr_type p = container::create(std::move(runner), a, stack, priv, ext);
  w.book->fail_after = -1;
  vf::note("create stack=%zu priv=%zu ext=%zu -> %s", stack, priv, ext, p ? "ok" : "refused");
  if (!p) {
    VF_CHECK(must_fail || may_fail, "api-create", "container creation refused for stack=%zu priv=%zu ext=%zu", stack, priv, ext);
    VF_EQ(w.book->live_count(), live, "api-create-leak", "stacks held after a refused creation");
    ++w.refused;
    VF_COUNT("api_refused_create");
    return;
  }
  VF_CHECK(!must_fail, "api-create", "container creation accepted for stack=%zu priv=%zu ext=%zu", stack, priv, ext);
  VF_CHECK(p->get_private_buffer_size() >= priv, "api-create", "private area %zu smaller than the requested %zu",
           p->get_private_buffer_size(), priv);
  ++w.expect_live;
  auto it = std::make_unique<item>();
  it->idx = idx;
  it->ctx = p.get();
  it->owner = p;
  it->state = empty ? NORUNNER : READY;
  it->runner = fl;
  it->will_return = (int)w.R.next();
  fill(w, *it);
  if (real - (size_t)padded < 48 * K || padded >= real) it->state = -1;  // too little stack left to run this harness on it
  if (it->state == -1) {
    VF_COUNT("api_created_tiny");
    it->owner.reset();
    --w.expect_live;
    return;
  }
  w.items.push_back(std::move(it));
  VF_COUNT("api_created");
}

void create_raw(world &w) {
  int idx = (int)w.items.size();
  size_t stack = 64 * K + 64 * w.R.below(512);
  unsigned char *mem = static_cast<unsigned char *>(aligned_alloc(64, stack));
  copp::stack_context sc;
  sc.sp = mem + stack;
  sc.size = stack;
  size_t priv = 16 * w.R.below(64), obj = copp::coroutine_context::align_address_size(sizeof(raw_co)) + 16 * w.R.below(4);
  unsigned char *place = mem + stack - priv - obj;
  raw_co *p = new (place) raw_co();
  // attempts with broken arguments first: each must be refused and leave the object unusable but intact
  int tries = (int)w.R.below(4);
  std::weak_ptr<int> fl;
  for (int t = 0; t < tries; ++t) {
    size_t bpriv = priv, bobj = obj;
    copp::stack_context bs = sc;
    coroutine_context *bp = p;
    switch (w.R.below(9)) {
      case 0: bp = nullptr; break;
      case 1: bpriv = priv + 1 + w.R.below(7); break;
      case 2: bobj = obj + 1 + w.R.below(7); break;
      case 3: bs.sp = nullptr; break;
      case 4: bs.size = coroutine_context::align_stack_size(priv + obj) - 64 * w.R.below(3); break;
      case 5: bobj = 8 * w.R.below(sizeof(coroutine_context) / 8); break;
      case 6: bs.sp = reinterpret_cast<unsigned char *>(p) - 64 * w.R.below(2); break;  // object at or above the stack top
      case 7: bpriv = priv + obj; break;                                                // object inside the private area
      default:                                                                          // object outside the reserved region
        bs.sp = static_cast<unsigned char *>(sc.sp) + coroutine_context::align_stack_size(priv + obj) + 64;
        bs.size = sc.size + 64;
        break;
    }
    if (w.R.chance(20)) {  // huge sizes whose sum wraps
      bp = p;
      bs = sc;
      bpriv = SIZE_MAX - 7 - 8 * w.R.below(40);
      bobj = obj + 8 * w.R.below(60);
    }
    auto r = make_runner(w, idx, fl);
    int rc = coroutine_context::create(bp, std::move(r), bs, bobj, bpriv);
    VF_EQ(rc, copp::COPP_EC_ARGS_ERROR, "api-raw-create", "create with impossible arguments");
    VF_CHECK(r, "api-raw-create", "a refused create consumed the runner");
    VF_CHECK(!p->get_runner() && !p->is_finished() && p->get_private_buffer_size() == 0, "api-raw-create",
             "a refused create changed the object");
    ++w.refused;
    VF_COUNT("api_refused_raw_create");
  }
  auto it = std::make_unique<item>();
  it->idx = idx;
  it->ctx = p;
  it->raw = p;
  it->raw_mem = mem;
  it->will_return = (int)w.R.next();
  if (w.R.chance(20)) {
    it->state = UNINIT;
    vf_stack_gone(mem, mem);  // nothing ran on it
  } else {
    bool empty = w.R.chance(30);
    auto r = empty ? std::function<int(void *)>() : make_runner(w, idx, fl);
    int rc = coroutine_context::create(p, std::move(r), sc, obj, priv);
    VF_EQ(rc, copp::COPP_EC_SUCCESS, "api-raw-create", "create with valid arguments");
    VF_CHECK(p->get_private_buffer() == mem + stack - priv, "api-raw-create", "private area misplaced");
    it->state = empty ? NORUNNER : READY;
    it->runner = fl;
    fill(w, *it);
  }
  w.items.push_back(std::move(it));
  VF_COUNT("api_created_raw");
}

void op(world &w) {
  if (w.steps <= 0) return;
  --w.steps;
  const char *what = "?";
  unsigned o = (unsigned)w.R.below(100);
  w.h = vf::mix64(w.h, o);
  int j = w.items.empty() ? -1 : (int)w.R.below(w.items.size());
  if (j < 0 || (o < 8 && w.items.size() < 8)) {
    if (w.R.chance(50))
      create_container(w);
    else
      create_raw(w);
    what = "create";
  } else if (o < 50) {
    w.h = vf::mix64(w.h, j);
    drive(w, j);
    what = "drive";
  } else if (o < 62) {
    item &c = *w.items[j];
    if (c.state == RUNNING) return;
    int want = c.state == UNINIT || c.state == NORUNNER ? (int)copp::COPP_EC_NOT_INITED
               : c.state == READY                       ? (int)copp::COPP_EC_NOT_RUNNING
                                                        : (int)copp::COPP_EC_ALREADY_EXIST;
    void *out = &w, *keep = out;
    int rc = w.R.chance(50) ? c.ctx->yield(&out) : c.ctx->yield();
    VF_EQ(rc, want, "api-yield", "yield of a coroutine that does not run");
    VF_CHECK(out == keep, "api-yield", "a refused yield wrote its output");
    ++w.refused;
    VF_COUNT("api_refused_yield");
    what = "yield";
  } else if (o < 68) {
    if (w.chain.empty()) {
      void *out = &w;
      VF_EQ(copp::this_coroutine::yield(&out), copp::COPP_EC_NOT_RUNNING, "api-yield", "yield outside any coroutine");
      VF_CHECK(out == &w, "api-yield", "a refused yield wrote its output");
      ++w.refused;
    }
    what = "this-yield";
  } else if (o < 84) {
    item &c = *w.items[j];
    int m = w.R.chance(40) ? (int)(w.R.next() & 0x7fffffff) : (int)(1u << w.R.below(31));
    if (w.R.chance(50)) m &= ~0xff;
    bool set = w.R.chance(60);
    bool ok = set ? c.ctx->set_flags(m) : c.ctx->unset_flags(m);
    VF_EQ(ok, (m & 0xff) == 0, "api-flags", "flag change accepted");
    if (ok) c.flags = set ? c.flags | m : c.flags & ~m;
    if (!ok) ++w.refused;
    VF_COUNT("api_flag_changes");
    what = "flags";
  } else {
    item &c = *w.items[j];
    if (c.state == UNINIT) return;  // a runner may be given before create; kept out of the model
    bool empty = w.R.chance(30);
    std::weak_ptr<int> fl;
    std::function<int(void *)> r = empty ? std::function<int(void *)>() : make_runner(w, c.idx, fl);
    int rc = c.ctx->set_runner(std::move(r));
    int want = empty ? (int)copp::COPP_EC_ARGS_ERROR : c.state == NORUNNER ? (int)copp::COPP_EC_SUCCESS : (int)copp::COPP_EC_ALREADY_INITED;
    VF_EQ(rc, want, "api-set-runner", "set_runner result");
    if (rc == 0) {
      c.state = READY;
      c.runner = fl;
    } else {
      r = nullptr;
      VF_CHECK(fl.expired(), "api-runner", "a callable that was refused is kept by coroutine %d", c.idx);
      ++w.refused;
    }
    VF_COUNT("api_set_runner");
    what = "set_runner";
  }
  check_all(w, what);
}

VF_MODE(api) {
  world w(R.fork());
  w.steps = 20 + (int)R.below(60);
  create_container(w);
  create_raw(w);
  while (w.steps > 0) {
    op(w);
    VF_CHECK(w.chain.empty(), "api-control", "chain not empty at the root");
  }
  for (size_t i = 0; i < w.items.size(); ++i) {
    item &c = *w.items[i];
    for (int guard = 0; c.state == READY; ++guard) {
      VF_CHECK(guard < 100, "api-progress", "coroutine does not finish");
      drive(w, (int)i);
    }
    if (c.state == DONE) drive(w, (int)i);
  }
  check_all(w, "end");
  for (auto &up : w.items) {
    if (up->owner) {
      up->owner.reset();
      --w.expect_live;
      VF_EQ(w.book->live_count(), w.expect_live, "api-stacks", "stacks held after a release");
    } else {
      up->raw->~raw_co();
      vf_stack_gone(up->raw_mem, up->raw_mem + 256 * K);
      free(up->raw_mem);
    }
  }
  vf::tr(w.h);
  if (w.refused >= 4 && w.depth >= 2) vf::nontrivial();
  vf::note("api: %zu coroutines, %d refused calls, depth %d", w.items.size(), w.refused, w.depth);
}

// ---- C05 ---------------------------------------------------------------------------------------
struct region {
  const char *what;
  uintptr_t lo, hi;
};
void check_regions(vf::stack_book &book, std::vector<region> rs, const char *who) {
  for (auto &r : rs)
    VF_CHECK(r.lo == r.hi || book.contains(reinterpret_cast<void *>(r.lo), r.hi - r.lo), "layout-outside",
             "%s: %s [%zx,%zx) not inside a stack from the allocator", who, r.what, (size_t)r.lo, (size_t)r.hi);
  for (size_t i = 0; i < rs.size(); ++i)
    for (size_t j = i + 1; j < rs.size(); ++j)
      VF_CHECK(rs[i].hi <= rs[j].lo || rs[j].hi <= rs[i].lo || rs[i].lo == rs[i].hi || rs[j].lo == rs[j].hi, "layout-overlap",
               "%s: %s [%zx,%zx) overlaps %s [%zx,%zx)", who, rs[i].what, (size_t)rs[i].lo, (size_t)rs[i].hi, rs[j].what,
               (size_t)rs[j].lo, (size_t)rs[j].hi);
  VF_COUNT_N("regions_checked", rs.size());
}

// fills `bytes` of stack and checks the pattern on the way back
VF_NOINLINE uint64_t deep(size_t bytes, uint64_t seed, uintptr_t &lowest, const std::function<void()> &mid) {
  volatile unsigned char buf[512];
  uintptr_t here = reinterpret_cast<uintptr_t>(__builtin_frame_address(0)) - sizeof(buf);
  if (here < lowest) lowest = here;
  for (size_t i = 0; i < sizeof(buf); ++i) buf[i] = (unsigned char)(seed * 31 + i);
  uint64_t r = 1;
  if (bytes > 3 * sizeof(buf))
    r += deep(bytes - 2 * sizeof(buf), vf::mix64(seed), lowest, mid);
  else
    mid();
  for (size_t i = 0; i < sizeof(buf); ++i)
    VF_CHECK(buf[i] == (unsigned char)(seed * 31 + i), "layout-stack-clobbered", "a stack frame changed");
  return r;
}

struct callable {
  vf::tv payload;
  std::function<int(void *, callable &)> fn;
  unsigned char pad[1];
  callable(vf::ledger *l, uint64_t v, std::function<int(void *, callable &)> f) : payload(l, v), fn(std::move(f)) {}
  int operator()(void *p) { return fn(p, *this); }
};
template <size_t N, size_t A>
struct alignas(A) big_callable : callable {
  unsigned char fat[N];
  big_callable(vf::ledger *l, uint64_t v, std::function<int(void *, callable &)> f) : callable(l, v, std::move(f)) { memset(fat, (int)v, N); }
  int operator()(void *p) {
    for (size_t i = 0; i < N; ++i) VF_CHECK(fat[i] == (unsigned char)payload.get(), "layout-callable-clobbered", "callable changed");
    int r = fn(p, *this);
    for (size_t i = 0; i < N; ++i) VF_CHECK(fat[i] == (unsigned char)payload.get(), "layout-callable-clobbered", "callable changed");
    return r;
  }
};

struct priv_area {
  unsigned char *p = nullptr;
  size_t n = 0;
  uint64_t seed = 0;
  void fill(void *q, size_t len, uint64_t s) {
    p = static_cast<unsigned char *>(q);
    n = len;
    seed = s;
    for (size_t i = 0; i < n; ++i) p[i] = (unsigned char)(vf::mix64(seed) >> (i % 8 * 8)) ^ (unsigned char)i;
  }
  void check(const char *when) {
    for (size_t i = 0; i < n; ++i)
      VF_CHECK(p[i] == ((unsigned char)(vf::mix64(seed) >> (i % 8 * 8)) ^ (unsigned char)i), "layout-private-clobbered",
               "byte %zu of the private area changed (%s)", i, when);
    VF_COUNT_N("private_bytes_checked", n);
  }
};

template <class C>
void drop_some(vf::rng &R, std::vector<C> &refs, bool threads) {
  while (!refs.empty()) {
    size_t k = R.below(refs.size());
    std::swap(refs[k], refs.back());
    if (threads && R.chance(30)) {
      std::thread t([r = std::move(refs.back())]() mutable { r.reset(); });
      refs.pop_back();
      t.join();
    } else if (R.chance(30)) {
      C copy(refs.back());
      refs.pop_back();
      C moved(std::move(copy));
      moved.reset();
    } else {
      refs.pop_back();
    }
  }
}

template <class Alloc>
void layout_context(vf::rng &R) {
  using cont = copp::coroutine_context_container<Alloc>;
  auto book = std::make_shared<vf::stack_book>();
  vf::ledger led;
  int n = 1 + (int)R.below(3);
  struct one {
    typename cont::ptr_type p;
    priv_area pa;
    bool started = false, done = false;
    size_t usable = 0;
    uintptr_t low = UINTPTR_MAX;
  };
  std::vector<std::unique_ptr<one>> v;
  size_t expect_live = 0;
  for (int i = 0; i < n; ++i) {
    size_t stack = R.chance(10) ? 0 : 48 * K + R.below(80 * K);
    size_t priv = R.chance(20) ? 0 : R.chance(50) ? R.below(300) : R.below(12 * K);
    size_t ext = R.chance(40) ? 0 : R.below(3000);
    Alloc a(book);
    bool fail = R.chance(10);
    if (fail) book->fail_after = 0;
    auto o = std::make_unique<one>();
    one *op = o.get();
    auto token = std::make_shared<vf::tv>(&led, R.next());
    bool with_dead = R.chance(50);
    std::function<int(void *)> f = [op, token, with_dead](void *) -> int {
      int rounds = 3;
      for (int r = 0; r < rounds; ++r) {
        std::function<void()> mid = [op, r] {
          op->pa.check("deep in the stack");
          if (r < 2) copp::this_coroutine::yield();
          op->pa.check("after a yield deep in the stack");
        };
        size_t room = op->usable > 40 * K ? op->usable - 38 * K : 1 * K;
        if (room > 60 * K) room = 60 * K;
        deep(r == 0 ? room : room / 2, op->pa.seed + r, op->low, mid);
        VF_CHECK(token->has(), "layout-capture", "captured value gone");
      }
      return with_dead ? 7 : 9;
    };
    auto p = cont::create(std::move(f), a, stack, priv, ext);
    if (fail) {
      VF_CHECK(!p, "layout-failed-create", "created without a stack");
      book->fail_after = -1;
      f = nullptr;
      token.reset();
      VF_EQ(book->live_count(), expect_live, "layout-leak", "stacks held after a failed creation");
      VF_COUNT("failed_creations");
      continue;
    }
    VF_CHECK(p, "layout-create", "creation refused: stack %zu priv %zu ext %zu", stack, priv, ext);
    ++expect_live;
    o->p = p;
    uintptr_t sp = 0;
    size_t size = 0;
    {
      std::lock_guard<std::mutex> g(book->mu);
      uintptr_t at = reinterpret_cast<uintptr_t>(p.get());
      auto it = book->live.upper_bound(at);
      VF_CHECK(it != book->live.begin(), "layout-outside", "coroutine object outside every stack");
      --it;
      sp = it->second.hi;
      size = it->second.size;
    }
    uintptr_t obj = reinterpret_cast<uintptr_t>(p.get()), pb = reinterpret_cast<uintptr_t>(p->get_private_buffer());
    size_t pn = p->get_private_buffer_size();
    VF_CHECK(pn >= priv, "layout-private-size", "private area has %zu bytes, asked for %zu", pn, priv);
    VF_CHECK(pb % alignof(std::max_align_t) == 0 && obj % alignof(cont) == 0, "layout-align", "private area %zx or object %zx misaligned",
             (size_t)pb, (size_t)obj);
    uintptr_t extlo = obj - copp::coroutine_context::align_address_size(ext);
    check_regions(*book, {{"private area", pb, pb + pn}, {"coroutine object", obj, obj + sizeof(cont)}, {"object extension", extlo, obj}}, "context");
    if (ext) memset(reinterpret_cast<void *>(extlo), 0x5e, ext);
    o->pa.fill(p->get_private_buffer(), pn, R.next());
    size_t used = sp - extlo;
    o->usable = size > used + 256 ? size - used - 256 : 0;
    v.push_back(std::move(o));
  }
  // run in random interleaving
  for (int k = 0; k < 12 && !v.empty(); ++k) {
    one &o = *v[R.below(v.size())];
    if (o.usable < 42 * K || o.done) continue;
    int rc = o.p->resume();
    VF_EQ(rc, 0, "layout-run", "resume");
    o.started = true;
    if (o.p->is_finished()) o.done = true;
    o.pa.check("after a segment");
    VF_CHECK(o.low == UINTPTR_MAX || book->contains(reinterpret_cast<void *>(o.low), 16), "layout-stack-outside",
             "a frame lies outside the stack");
    VF_COUNT("segments_run");
  }
  for (auto &o : v)
    while (o->started && !o->p->is_finished()) o->p->resume();
  for (auto &o : v) {
    std::vector<typename cont::ptr_type> refs;
    size_t n2 = 1 + R.below(4);
    for (size_t i = 0; i < n2; ++i) refs.push_back(o->p);
    VF_EQ(o->p->use_count(), n2 + 1, "layout-use-count", "use count");
    o->pa.check("before release");
    VF_EQ(book->live_count(), expect_live, "layout-early-release", "stacks held while references exist");
    o->p.reset();
    drop_some(R, refs, true);
    --expect_live;
    VF_EQ(book->live_count(), expect_live, "layout-release", "stacks held after the last reference went");
  }
  VF_EQ(led.live.load(), 0, "layout-capture-leak", "captured values still alive");
  vf::tr((uint64_t)n, v.size());
  vf::tr(R.s);
  if (!v.empty()) vf::nontrivial();
  vf::note("contexts: %zu on a ledger allocator, %llu stacks", v.size(), (unsigned long long)book->allocated);
}

VF_MODE(layout) {
  if (R.chance(40))
    layout_context<vf::talloc>(R);
  else if (R.chance(60))
    layout_context<vf::talloc_guard>(R);
  else
    layout_context<vf::talloc_posix>(R);
}

// pool gives stacks of its own size whatever the request: creation must still stay inside
VF_MODE(poolfit) {
  using pool_t = copp::stack_pool<vf::talloc_guard>;
  struct pool_macro {
    using stack_allocator_type = copp::allocator::stack_allocator_pool<pool_t>;
    using coroutine_type = copp::coroutine_context_container<stack_allocator_type>;
    using value_type = int;
  };
  using cont = pool_macro::coroutine_type;
  using task_t = cotask::task<pool_macro>;
  auto pool = pool_t::create();
  auto book = std::make_shared<vf::stack_book>();
  pool->get_origin_allocator().book = book;
  pool->set_stack_size(48 * K + 16 * R.below(2048));
  size_t real = pool->get_stack_size();
  for (int k = 0; k < 6; ++k) {
    copp::allocator::stack_allocator_pool<pool_t> a(pool);
    size_t ask = R.chance(50) ? 0 : R.below(400 * K);
    size_t priv = R.chance(30) ? R.below(600) : real - 3 * K + R.below(6 * K);
    if (R.chance(30)) priv = R.below(300 * K);
    if (R.chance(30)) priv = real - sizeof(cont) - R.below(700) - (R.chance(50) ? sizeof(task_t) + 96 : 0);  // next to nothing left
    size_t eff = ask ? ask : copp::stack_traits::default_size();
    bool as_task = R.chance(40);
    size_t used_before = pool->get_limit().used_stack_number;
    auto judge = [&](bool ok, size_t need_min, size_t need_max) {
      if (ok) {
        VF_CHECK(need_min < std::max(real, copp::stack_traits::minimum_size()) + 4096, "poolfit-accepted",
                 "creation accepted: pool stacks of %zu, private area %zu", real, priv);
      } else {
        VF_CHECK(need_max >= std::min(real, eff), "poolfit-refused", "creation refused: pool stacks of %zu (asked %zu), private area %zu", real,
                 eff, priv);
        VF_EQ(pool->get_limit().used_stack_number, used_before, "poolfit-leak", "stacks in use after a refused creation");
        VF_COUNT("pool_creations_refused");
      }
    };
    if (!as_task) {
      auto p = cont::create(std::function<int(void *)>([](void *) { return 0; }), a, ask, priv);
      judge(!!p, priv + sizeof(cont), priv + sizeof(cont) + 1280);
      if (p) {
        uintptr_t obj = reinterpret_cast<uintptr_t>(p.get()), pb = reinterpret_cast<uintptr_t>(p->get_private_buffer());
        check_regions(*book, {{"private area", pb, pb + p->get_private_buffer_size()}, {"coroutine object", obj, obj + sizeof(cont)}}, "pool context");
        memset(p->get_private_buffer(), 0x33, p->get_private_buffer_size());
        VF_COUNT("pool_creations");
      }
    } else {
      auto t = task_t::create([](void *) { return 0; }, a, ask, priv);
      judge(!!t, priv + sizeof(cont) + sizeof(task_t), priv + sizeof(cont) + sizeof(task_t) + 1536);
      if (t) {
        uintptr_t obj = reinterpret_cast<uintptr_t>(t.get()), pb = reinterpret_cast<uintptr_t>(t->get_private_buffer());
        check_regions(*book, {{"private area", pb, pb + t->get_private_buffer_size()}, {"task object", obj, obj + sizeof(task_t)}}, "pool task");
        memset(t->get_private_buffer(), 0x33, t->get_private_buffer_size());
        VF_COUNT("pool_creations");
      }
    }
    vf::tr(ask, priv);
    VF_EQ(pool->get_limit().used_stack_number, used_before, "poolfit-release", "stacks in use after release");
  }
  vf::nontrivial();
}

struct tmacro {
  using stack_allocator_type = vf::talloc;
  using coroutine_type = copp::coroutine_context_container<vf::talloc>;
  using value_type = int;
};
using vtask = cotask::task<tmacro>;

template <class Fn>
void one_task(vf::rng &R, std::shared_ptr<vf::stack_book> &book, vf::ledger &led, size_t &expect_live) {
  size_t stack = R.chance(10) ? 0 : 52 * K + R.below(60 * K);
  size_t priv = R.chance(20) ? 0 : R.chance(50) ? R.below(300) : R.below(10 * K);
  bool fail = R.chance(10), impossible = R.chance(12), huge = R.chance(8);
  if (impossible) {
    stack = 100 + R.below(8 * K);
    priv = stack + R.below(100);
  }
  if (huge) {
    priv = SIZE_MAX - R.below(3000);
    if (R.chance(30)) priv = SIZE_MAX / 2 + R.below(3000);
  }
  vf::talloc a(book);
  if (fail) book->fail_after = 0;
  priv_area pa;
  uintptr_t low = UINTPTR_MAX;
  size_t usable = 0;
  uint64_t val = R.next();
  int phase = 0;
  int64_t base = led.live.load();
  bool runit = R.chance(80);
  {
    Fn fn(&led, val, [&](void *, callable &self) -> int {
      VF_CHECK(reinterpret_cast<uintptr_t>(&self) % alignof(Fn) == 0, "layout-align", "callable misaligned");
      VF_EQ(self.payload.get(), val, "layout-callable", "callable payload");
      for (int r = 0; r < 2; ++r) {
        std::function<void()> mid = [&] {
          pa.check("deep in a task");
          vtask::this_task()->yield();
          VF_EQ(self.payload.get(), val, "layout-callable", "callable payload");
          pa.check("deep in a task after a yield");
        };
        size_t room = usable > 42 * K ? usable - 40 * K : 1 * K;
        deep(room, val + r, low, mid);
      }
      ++phase;
      return 3;
    });
    auto t = R.chance(50) ? vtask::create(fn, a, stack, priv) : vtask::create(std::move(fn), a, stack, priv);
    book->fail_after = -1;
    if (fail || impossible || huge) {
      VF_CHECK(!t, "layout-task-create", "task created although impossible (stack %zu priv %zu fail %d)", stack, priv, fail);
      VF_EQ(book->live_count(), expect_live, "layout-leak", "stacks held after a failed creation");
      VF_COUNT("failed_creations");
      return;
    }
    VF_CHECK(t, "layout-task-create", "task creation refused: stack %zu priv %zu", stack, priv);
    ++expect_live;
    using cont = tmacro::coroutine_type;
    cont *co = t->get_coroutine_context().get();
    uintptr_t obj = reinterpret_cast<uintptr_t>(co), to = reinterpret_cast<uintptr_t>(t.get()),
              act = reinterpret_cast<uintptr_t>(t->get_raw_action()), pb = reinterpret_cast<uintptr_t>(t->get_private_buffer());
    size_t pn = t->get_private_buffer_size();
    VF_CHECK(pn >= priv, "layout-private-size", "task private area has %zu bytes, asked for %zu", pn, priv);
    VF_CHECK(to % alignof(vtask) == 0 && obj % alignof(cont) == 0 && pb % 8 == 0, "layout-align", "task parts misaligned");
    check_regions(*book,
                  {{"private area", pb, pb + pn},
                   {"task pointer", pb - sizeof(void *), pb},
                   {"coroutine object", obj, obj + sizeof(cont)},
                   {"callable", act, act + sizeof(cotask::task_action_functor<Fn>)},
                   {"task object", to, to + sizeof(vtask)}},
                  "task");
    {
      std::lock_guard<std::mutex> g(book->mu);
      auto it = book->live.upper_bound(to);
      --it;
      usable = to - it->first;
    }
    pa.fill(t->get_private_buffer(), pn, val);
    std::vector<vtask::ptr_type> refs(1 + R.below(3), t);
    std::vector<cont::ptr_type> crefs(R.below(2), t->get_coroutine_context());
    if (runit && usable > 44 * K) {
      t->start();
      pa.check("after the first segment");
      int k = 0;
      while (!t->is_completed()) {
        t->resume();
        VF_CHECK(++k < 10, "layout-run", "task does not finish");
      }
      VF_EQ(phase, 1, "layout-run", "body runs");
      VF_EQ(t->get_ret_code(), 3, "layout-run", "result");
      VF_CHECK(low == UINTPTR_MAX || book->contains(reinterpret_cast<void *>(low), 16), "layout-stack-outside", "a frame lies outside the stack");
      VF_COUNT("tasks_run");
    }
    pa.check("before release");
    VF_EQ(t->use_count(), refs.size() + 1, "layout-use-count", "use count");
    t.reset();
    VF_EQ(book->live_count(), expect_live, "layout-early-release", "stacks held while references exist");
    drop_some(R, refs, true);
    if (!crefs.empty()) VF_EQ(book->live_count(), expect_live, "layout-early-release", "stacks held while the context is referenced");
    drop_some(R, crefs, true);
    --expect_live;
    VF_EQ(book->live_count(), expect_live, "layout-release", "stacks held after the last reference went");
  }
  VF_EQ(led.live.load(), base, "layout-capture-leak", "callable values alive after release");
  VF_COUNT("tasks_created");
}

VF_MODE(tasks) {
  auto book = std::make_shared<vf::stack_book>();
  vf::ledger led;
  size_t live = 0;
  int n = 1 + (int)R.below(3);
  for (int i = 0; i < n; ++i) {
    int k = (int)R.below(5);
    vf::tr((uint64_t)k, R.s);
    switch (k) {
      case 0: one_task<callable>(R, book, led, live); break;
      case 1: one_task<big_callable<1, 8>>(R, book, led, live); break;
      case 2: one_task<big_callable<37, 8>>(R, book, led, live); break;
      case 3: one_task<big_callable<4097, 16>>(R, book, led, live); break;
      default: one_task<big_callable<200, 16>>(R, book, led, live); break;
    }
  }
  VF_EQ(led.live.load(), 0, "layout-capture-leak", "callable values alive at the end");
  if (n >= 2) vf::nontrivial();
}

// references dropped from several threads at once: exactly one destruction
VF_MODE(dropmt) {
  auto book = std::make_shared<vf::stack_book>();
  vf::ledger led;
  bool as_task = R.chance(60);
  int nth = 2 + (int)R.below(3);
  std::vector<std::thread> ths;
  std::atomic<int> go{0};
  vf::delays_on(R.next(), 8);
  auto spawn = [&](auto ptr) {
    for (int i = 0; i < nth; ++i)
      ths.emplace_back([&go, nth, p = ptr, s = R.next()]() mutable {
        vf::rng r(s);
        std::vector<decltype(p)> v;
        for (int k = 0; k < 4; ++k) v.push_back(p);
        p.reset();
        go.fetch_add(1);
        while (go.load() < nth) {
        }
        while (!v.empty()) {
          if (r.chance(30)) {
            auto c = v.back();
            c.swap(v[0]);
          }
          v.pop_back();
        }
      });
  };
  {
    vf::talloc a(book);
    auto token = std::make_shared<vf::tv>(&led, 5);
    if (as_task) {
      auto t = vtask::create([token](void *) { return 1; }, a, 64 * K, 64);
      if (R.chance(50)) t->start();
      spawn(t);
      if (R.chance(50)) t.reset();
    } else {
      auto t = container::create([token](void *) { return 1; }, a, 64 * K, 64);
      if (R.chance(50)) t->start();
      spawn(t);
      if (R.chance(50)) t.reset();
    }
  }
  for (auto &t : ths) t.join();
  vf::delays_off();
  VF_EQ(book->live_count(), 0, "layout-release", "stacks held after every reference went");
  VF_EQ(book->released, 1, "layout-release", "stack releases");
  VF_EQ(led.live.load(), 0, "layout-capture-leak", "captures alive");
  vf::tr((uint64_t)nth, as_task);
  vf::tr(R.s);
  vf::nontrivial();
  VF_COUNT("concurrent_drops");
}
}  // namespace
