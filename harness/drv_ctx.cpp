// C01, C02: random programs over raw coroutine contexts, judged online by a shadow model of the driving chain.
#include "lib.h"

#include <condition_variable>
#include <stdexcept>
#include <thread>

using copp::coroutine_context;
namespace ec = copp;

extern "C" void vf_regprobe(void (*fn)(void *), void *arg, const uint64_t *pat, uint64_t *out);
__asm__(
    ".text\n.globl vf_regprobe\n.type vf_regprobe,@function\nvf_regprobe:\n.cfi_startproc\n"
    "push %rbx\n.cfi_adjust_cfa_offset 8\npush %rbp\n.cfi_adjust_cfa_offset 8\npush %r12\n.cfi_adjust_cfa_offset 8\n"
    "push %r13\n.cfi_adjust_cfa_offset 8\npush %r14\n.cfi_adjust_cfa_offset 8\npush %r15\n.cfi_adjust_cfa_offset 8\n"
    "sub $24,%rsp\n.cfi_adjust_cfa_offset 24\n"
    "mov %rdi,%rax\nmov %rcx,(%rsp)\nmov %rsi,%rdi\n"
    "mov (%rdx),%rbx\nmov 8(%rdx),%rbp\nmov 16(%rdx),%r12\nmov 24(%rdx),%r13\nmov 32(%rdx),%r14\nmov 40(%rdx),%r15\n"
    "mov %rsp,8(%rsp)\n"
    "call *%rax\n"
    "mov (%rsp),%rcx\n"
    "mov %rbx,(%rcx)\nmov %rbp,8(%rcx)\nmov %r12,16(%rcx)\nmov %r13,24(%rcx)\nmov %r14,32(%rcx)\nmov %r15,40(%rcx)\n"
    "mov 8(%rsp),%rax\nsub %rsp,%rax\nmov %rax,48(%rcx)\n"
    "add $24,%rsp\n.cfi_adjust_cfa_offset -24\n"
    "pop %r15\n.cfi_adjust_cfa_offset -8\npop %r14\n.cfi_adjust_cfa_offset -8\npop %r13\n.cfi_adjust_cfa_offset -8\n"
    "pop %r12\n.cfi_adjust_cfa_offset -8\npop %rbp\n.cfi_adjust_cfa_offset -8\npop %rbx\n.cfi_adjust_cfa_offset -8\nret\n"
    ".cfi_endproc\n.size vf_regprobe,.-vf_regprobe\n");

namespace {
// floating point control words: kept per coroutine by builds without LIBCOPP_FCONTEXT_USE_TSX (build "ctrl")
struct fpctl {
  uint16_t cw = 0;
  uint32_t mx = 0;
  static constexpr uint32_t kMxControl = 0xffc0;
  void get() {
    uint32_t m;
    __asm__ volatile("fnstcw %0" : "=m"(cw));
    __asm__ volatile("stmxcsr %0" : "=m"(m));
    mx = m & kMxControl;
  }
  void set() const {
    uint32_t m = mx;
    __asm__ volatile("fldcw %0" ::"m"(cw));
    __asm__ volatile("ldmxcsr %0" ::"m"(m));
  }
  void scramble(vf::rng &R) {
    cw = (uint16_t)((cw & ~0xf00u) | (R.below(4) << 10) | (R.chance(50) ? 0x300 : R.chance(50) ? 0x200 : 0));
    mx = (mx & ~0xe040u) | (uint32_t)(R.below(4) << 13) | (R.chance(30) ? 0x8000u : 0) | (R.chance(30) ? 0x40u : 0);
  }
};
#ifdef VF_CTRL
constexpr bool kCtrl = true;
#else
constexpr bool kCtrl = false;
#endif
// around one switch: random words before, the same ones after, the original ones restored
struct fpprobe {
  fpctl saved, mine;
  explicit fpprobe(vf::rng &R) {
    if (!kCtrl) return;
    saved.get();
    mine = saved;
    if (R.chance(60)) mine.scramble(R);
    mine.set();
  }
  void check(const char *what) {
    if (!kCtrl) return;
    fpctl now;
    now.get();
    saved.set();
    VF_CHECK(now.cw == mine.cw && now.mx == mine.mx, "control-word-changed",
             "%s: x87 control word %x became %x, mxcsr control bits %x became %x", what, mine.cw, now.cw, mine.mx, now.mx);
    VF_COUNT("control_word_probes");
  }
};

struct ex_base {
  uint64_t id;
  explicit ex_base(uint64_t i) : id(i) {}
  virtual ~ex_base() {}
};
struct ex_derived : ex_base {
  uint64_t twice;
  explicit ex_derived(uint64_t i) : ex_base(i), twice(i * 2 + 1) {}
};
struct ex_std : std::runtime_error {
  uint64_t id;
  explicit ex_std(uint64_t i) : std::runtime_error("ex" + std::to_string(i)), id(i) {}
};

enum { ST_NEW, ST_READY, ST_ACTIVE, ST_DONE };

struct world;
struct co {
  world *w = nullptr;
  int idx = -1;
  coroutine_context *ctx = nullptr;
  std::function<void()> drop;
  int state = ST_NEW;
  void *expect_in = nullptr;  // pointer given to the pending start/resume
  int ret = 0;
  int budget = 0;       // stack bytes the body may use for frames
  uint64_t segments = 0;
  int guards = 0;
  std::vector<int> tries;  // shadow stack of try frames (ids)
  fpctl ctl;  // control words when the coroutine was created
  uint64_t pending_exc = 0;  // exception escaping the body, not yet handed to the driver
  int exc_type = 0;
};

struct world {
  vf::rng R;
  bool exc;
  std::vector<co> cs;
  std::vector<int> chain;  // coroutines being driven, innermost last
  int steps;
  uint64_t next_exc = 1;
  int next_try = 1;
  int depth_max = 0;
  uint64_t h = 0;
  int shadow_last = -1;  // coroutine that gave control back last
  bool shadow_last_done = false;
  int nsw = 0, nexc = 0;
  explicit world(vf::rng r, bool e) : R(r), exc(e), steps(0) {}
  int cur() const { return chain.empty() ? -1 : chain.back(); }
  void ev(uint64_t a, uint64_t b) { h = vf::mix64(h, vf::mix64(a, b)); }
};

void check_current(world &w, const char *where) {
  coroutine_context *want = w.chain.empty() ? nullptr : w.cs[w.chain.back()].ctx;
  coroutine_context *got = copp::this_coroutine::get_coroutine();
  VF_CHECK(got == want, "current-coroutine", "%s: current coroutine is %p, expected %p (chain depth %zu)", where, (void *)got,
           (void *)want, w.chain.size());
}

void run_frame(world &w, int self, int depth, int budget);

// drive coroutine j from the code currently running (self or -1); returns exception id received (0: none)
void drive(world &w, int self, int j) {
  co &c = w.cs[j];
  void *ptr = w.R.chance(20) ? nullptr : reinterpret_cast<void *>(w.R.next());
  bool dflt = ptr == nullptr && w.R.chance(50);
  c.expect_in = ptr;
  c.state = ST_ACTIVE;
  w.chain.push_back(j);
  if ((int)w.chain.size() > w.depth_max) w.depth_max = (int)w.chain.size();
  w.ev(1, vf::mix64(self + 1, j));
  int how = (int)w.R.below(VF_EPTR ? 4 : 2);
  int rc = 0;
  std::exception_ptr ep;
  uint64_t got = 0;
  int got_type = 0;
  ++w.nsw;
  auto examine = [&](bool via_throw) {
    (void)via_throw;
    try {
      if (via_throw)
        throw;
      else
        std::rethrow_exception(ep);
    } catch (ex_derived &e) {
      got = e.id;
      got_type = 1;
      VF_CHECK(e.twice == e.id * 2 + 1, "exception-content", "exception object damaged");
    } catch (ex_base &e) {
      got = e.id;
      got_type = 0;
    } catch (ex_std &e) {
      got = e.id;
      got_type = 2;
      VF_CHECK("ex" + std::to_string(e.id) == e.what(), "exception-content", "exception text damaged");
    } catch (uint64_t v) {
      got = v;
      got_type = 3;
    } catch (...) {
      vf::fail("exception-unknown", __FILE__, __LINE__, "an exception nobody threw arrived");
    }
  };
  fpprobe fp(w.R);
  if (how < 2) {
    try {
      if (dflt)
        rc = how == 0 ? c.ctx->start() : c.ctx->resume();
      else
        rc = how == 0 ? c.ctx->start(ptr) : c.ctx->resume(ptr);
    } catch (...) {
      examine(true);
    }
  } else {
    // the argument may hold something already
#if VF_EPTR
    rc = how == 2 ? c.ctx->start(ep, ptr) : c.ctx->resume(ep, ptr);
#endif
    if (ep) examine(false);
  }
  fp.check("drive");
  VF_CHECK(w.shadow_last == j, "returned-from-wrong", "call driving %d returned although %d gave control back last", j,
           w.shadow_last);
  VF_CHECK(w.cur() == self, "returned-to-wrong", "control returned to %d, expected %d", self, w.cur());
  if (rc != 0 || got == 0) VF_EQ(rc, ec::COPP_EC_SUCCESS, "drive-result", "start/resume of a ready coroutine");
  check_current(w, "after drive");
  VF_CHECK(got == c.pending_exc, "exception-delivery", "driver of %d received exception %llu, escaping one was %llu", j,
           (unsigned long long)got, (unsigned long long)c.pending_exc);
  if (got) {
    VF_EQ(got_type, c.exc_type, "exception-type", "type of the delivered exception");
    c.pending_exc = 0;
    ++w.nexc;
    VF_COUNT("exceptions_delivered_to_driver");
  }
  VF_CHECK(c.ctx->is_finished() == (c.state == ST_DONE), "finished-flag", "coroutine %d is_finished %d, model %d", j,
           (int)c.ctx->is_finished(), c.state == ST_DONE);
  if (c.state == ST_DONE) {
    if (!got) VF_EQ(c.ctx->get_ret_code(), c.ret, "return-code", "value returned by the body");
    VF_EQ(c.guards, 0, "frames-not-unwound", "guards alive in a finished coroutine");
  }
  w.ev(2, vf::mix64(j, c.state));
}

void after_switch_in(world &w, int self, void *got, bool have, const char *what) {
  co &c = w.cs[self];
  VF_CHECK(w.cur() == self, "resumed-wrong", "%s: code of coroutine %d continues, expected %d", what, self, w.cur());
  if (have)
    VF_CHECK(got == c.expect_in, "data-pointer", "%s: coroutine %d received %p, given %p", what, self, got, c.expect_in);
  check_current(w, what);
  ++c.segments;
}

void give_back(world &w, int self, bool done) {
  co &c = w.cs[self];
  c.state = done ? ST_DONE : ST_READY;
  w.shadow_last = self;
  w.shadow_last_done = done;
  w.chain.pop_back();
  ++w.nsw;
}

struct yield_arg {
  world *w;
  int self;
};
void do_yield(void *p) {
  yield_arg *a = static_cast<yield_arg *>(p);
  world &w = *a->w;
  co &c = w.cs[a->self];
  int how = (int)w.R.below(4);
  void *got = &w;
  w.ev(3, a->self);
  fpprobe fp(w.R);
  give_back(w, a->self, false);
  int rc;
  switch (how) {
    case 0: rc = c.ctx->yield(&got); break;
    case 1: rc = copp::this_coroutine::yield(&got); break;
    case 2: rc = c.ctx->yield(); break;
    default: rc = copp::this_coroutine::yield(); break;
  }
  fp.check("yield");
  VF_EQ(rc, ec::COPP_EC_SUCCESS, "yield-result", "yield of the running coroutine");
  after_switch_in(w, a->self, got, how < 2, "after yield");
  VF_COUNT("yields_returned");
}

struct scope_guard {
  co &c;
  explicit scope_guard(co &x) : c(x) { ++c.guards; }
  ~scope_guard() { --c.guards; }
};

template <size_t N>
VF_NOINLINE void canary_frame(world &w, int self, int depth, int budget) {
  scope_guard g(w.cs[self]);
  volatile uint64_t can[N];
  uint64_t seed = w.R.next();
  for (size_t i = 0; i < N; ++i) can[i] = vf::mix64(seed, i);
  volatile double d = (double)(seed >> 12) / 3.0;
  double dd = d;
  run_frame(w, self, depth + 1, budget);
  for (size_t i = 0; i < N; ++i)
    VF_CHECK(can[i] == vf::mix64(seed, i), "local-changed", "local array word %zu of %zu at depth %d changed", i, N, depth);
  VF_CHECK(d == dd && d == (double)(seed >> 12) / 3.0, "local-changed", "floating point local changed");
  VF_COUNT("canary_frames_verified");
}

[[noreturn]] VF_NOINLINE void throw_one(world &w, co &c) {
  uint64_t id = w.next_exc++;
  int t = (int)w.R.below(4);
  c.pending_exc = id;
  c.exc_type = t;
  w.ev(5, vf::mix64(id, t));
  VF_COUNT("exceptions_thrown");
  switch (t) {
    case 0: throw ex_base(id);
    case 1: throw ex_derived(id);
    case 2: throw ex_std(id);
    default: throw uint64_t(id);
  }
}

void run_frame(world &w, int self, int depth, int budget) {
  co &c = w.cs[self];
  int n = (int)w.R.range(1, 5);
  for (int k = 0; k < n && w.steps > 0; ++k) {
    --w.steps;
    uint64_t r = w.R.below(100);
    check_current(w, "in body");
    if (r < 32) {
      yield_arg a{&w, self};
      if (w.R.chance(50)) {
        uint64_t pat[6], out[7];
        for (auto &x : pat) x = w.R.next();
        vf_regprobe(&do_yield, &a, pat, out);
        for (int i = 0; i < 6; ++i)
          VF_CHECK(out[i] == pat[i], "register-changed", "callee-saved register %d: %llx became %llx over a yield", i,
                   (unsigned long long)pat[i], (unsigned long long)out[i]);
        VF_CHECK(out[6] == 0, "stack-pointer-changed", "stack pointer moved by %lld over a yield", (long long)out[6]);
        VF_COUNT("register_probes");
      } else {
        do_yield(&a);
      }
    } else if (r < 55) {
      std::vector<int> *cand = new std::vector<int>();
      for (size_t j = 0; j < w.cs.size(); ++j)
        if (w.cs[j].state == ST_NEW || w.cs[j].state == ST_READY) cand->push_back((int)j);
      int j = cand->empty() ? -1 : (*cand)[w.R.below(cand->size())];
      delete cand;
      if (j >= 0) {
        if (w.R.chance(30)) {
          struct da {
            world *w;
            int self, j;
          } a{&w, self, j};
          uint64_t pat[6], out[7];
          for (auto &x : pat) x = w.R.next();
          vf_regprobe([](void *p) { da *q = static_cast<da *>(p); drive(*q->w, q->self, q->j); }, &a, pat, out);
          for (int i = 0; i < 6; ++i)
            VF_CHECK(out[i] == pat[i], "register-changed", "callee-saved register %d: %llx became %llx over a drive", i,
                     (unsigned long long)pat[i], (unsigned long long)out[i]);
          VF_COUNT("register_probes");
        } else {
          drive(w, self, j);
        }
      }
    } else if (r < 78) {
      size_t want = w.R.below(3);
      size_t need[3] = {16, 96, 400};
      int cost = (int)(need[want] * 8) + 1200;
      if (budget > cost) {
        bool tr = w.exc && w.R.chance(40);
        auto rec = [&]() {
          if (want == 0)
            canary_frame<16>(w, self, depth, budget - cost);
          else if (want == 1)
            canary_frame<96>(w, self, depth, budget - cost);
          else
            canary_frame<400>(w, self, depth, budget - cost);
        };
        if (tr) {
          int tid = w.next_try++;
          c.tries.push_back(tid);
          size_t sz = c.tries.size();
          uint64_t got = 0;
          int gt = 0;
          int g0 = c.guards;
          try {
            rec();
          } catch (ex_derived &e) {
            got = e.id;
            gt = 1;
          } catch (ex_base &e) {
            got = e.id;
            gt = 0;
          } catch (ex_std &e) {
            got = e.id;
            gt = 2;
          } catch (uint64_t v) {
            got = v;
            gt = 3;
          }
          VF_CHECK(w.cur() == self, "caught-in-wrong", "exception surfaced in coroutine %d while %d runs", self, w.cur());
          VF_EQ(c.guards, g0, "frames-not-unwound", "guards after a try block");
          VF_CHECK(c.tries.size() >= sz && c.tries[sz - 1] == tid, "caught-in-wrong-frame", "exception caught by a frame that is not the innermost");
          c.tries.resize(sz - 1);
          VF_CHECK(got == c.pending_exc, "exception-delivery", "try block got exception %llu, thrown one was %llu",
                   (unsigned long long)got, (unsigned long long)c.pending_exc);
          if (got) {
            VF_EQ(gt, c.exc_type, "exception-type", "type of the caught exception");
            c.pending_exc = 0;
            VF_COUNT("exceptions_caught_inside");
            w.ev(6, got);
          }
        } else {
          rec();
        }
      }
    } else if (r < 86) {
      // refused operations must not disturb the run
      size_t j = w.R.below(w.cs.size());
      co &o = w.cs[j];
      if (o.state == ST_ACTIVE)
        VF_EQ(o.ctx->resume(nullptr), ec::COPP_EC_IS_RUNNING, "busy-result", "resume of a running coroutine");
      else if (o.state == ST_DONE)
        VF_EQ(o.ctx->start(nullptr), ec::COPP_EC_NOT_READY, "finished-result", "start of a finished coroutine");
      check_current(w, "after refused call");
    } else if (r < 92) {
      if (w.exc) throw_one(w, c);
    } else {
      return;
    }
  }
}

VF_NOINLINE int body(world *w, int self, void *arg) {
  VF_CHECK((reinterpret_cast<uintptr_t>(__builtin_frame_address(0)) & 15) == 0, "stack-misaligned",
           "frame of the coroutine body is at %p", __builtin_frame_address(0));
  co &c = w->cs[self];
  if (kCtrl) {
    fpctl now;
    now.get();
    VF_CHECK(now.cw == c.ctl.cw && now.mx == c.ctl.mx, "control-word-changed",
             "entry: x87 control word %x, mxcsr control bits %x; the coroutine was created with %x and %x", now.cw, now.mx,
             c.ctl.cw, c.ctl.mx);
  }
  after_switch_in(*w, self, arg, true, "entry");
  VF_COUNT("bodies_entered");
  try {
    scope_guard g(c);
    run_frame(*w, self, 0, c.budget);
    // a body must yield control while the case still has steps, so that many are suspended at once
  } catch (...) {
    VF_CHECK(w->cur() == self, "caught-in-wrong", "exception left coroutine %d while %d runs", self, w->cur());
    c.tries.clear();
    w->ev(7, self);
    give_back(*w, self, true);
    throw;
  }
  c.ret = (int)w->R.next();
  w->ev(4, vf::mix64(self, (uint64_t)(uint32_t)c.ret));
  give_back(*w, self, true);
  return c.ret;
}

using pool_t = copp::stack_pool<copp::allocator::stack_allocator_malloc>;
template <class A>
void make_co(world &w, int i, A &&alloc, size_t stack, size_t priv) {
  using C = copp::coroutine_context_container<std::decay_t<A>>;
  world *pw = &w;
  fpctl before;
  if (kCtrl) {
    before.get();
    w.cs[i].ctl = before;
    if (w.R.chance(50)) w.cs[i].ctl.scramble(w.R);
    w.cs[i].ctl.set();
  }
  typename C::ptr_type p = C::create([pw, i](void *a) { return body(pw, i, a); }, alloc, stack, priv);
  if (kCtrl) before.set();
  VF_CHECK(p, "create-failed", "creating a coroutine with a stack of %zu failed", stack);
  w.cs[i].ctx = p.get();
  w.cs[i].drop = [p]() mutable { p.reset(); };
}

void build(world &w, const std::shared_ptr<pool_t> &pool) {
  int n = (int)w.R.range(1, 8);
  w.steps = (int)w.R.range(5, 220);
  w.cs.resize(n);
  for (int i = 0; i < n; ++i) {
    size_t stack = (size_t)65536 << w.R.below(3);
    size_t priv = w.R.below(3) ? w.R.below(512) : 0;
    w.cs[i].w = &w;
    w.cs[i].idx = i;
    switch (w.R.below(3)) {
      case 0: make_co(w, i, copp::allocator::stack_allocator_malloc(), stack, priv); break;
      case 1: make_co(w, i, copp::allocator::stack_allocator_posix(), stack, priv); break;
      default:
        stack = pool->get_stack_size();
        make_co(w, i, copp::allocator::stack_allocator_pool<pool_t>(pool), stack, priv);
        break;
    }
    w.cs[i].budget = (int)(stack / 5);
    if (w.R.chance(20)) w.cs[i].budget = (int)(stack / 3);
  }
}

void finish(world &w) {
  for (auto &c : w.cs) {
    VF_CHECK(c.pending_exc == 0, "exception-lost", "an escaped exception was not delivered");
    VF_CHECK(c.state != ST_ACTIVE, "chain-broken", "a coroutine is still marked active at the end");
    c.drop();
  }
  VF_CHECK(w.chain.empty(), "chain-broken", "control came back to the thread with coroutines active");
}

int pick_ready(world &w) {
  std::vector<int> cand;
  for (size_t j = 0; j < w.cs.size(); ++j)
    if (w.cs[j].state == ST_NEW || w.cs[j].state == ST_READY) cand.push_back((int)j);
  return cand.empty() ? -1 : cand[w.R.below(cand.size())];
}

// ---- worker threads that execute closures one at a time (migration) ----------------------------------
struct worker {
  std::mutex mu;
  std::condition_variable cv;
  std::function<void()> job;
  bool done = true, quit = false;
  std::thread th;
  worker() : th([this] { loop(); }) {}
  void loop() {
    std::unique_lock<std::mutex> g(mu);
    for (;;) {
      cv.wait(g, [this] { return quit || job; });
      if (quit) return;
      job();
      job = nullptr;
      done = true;
      cv.notify_all();
    }
  }
  void run(std::function<void()> f) {
    std::unique_lock<std::mutex> g(mu);
    done = false;
    job = std::move(f);
    cv.notify_all();
    cv.wait(g, [this] { return done; });
  }
  ~worker() {
    {
      std::lock_guard<std::mutex> g(mu);
      quit = true;
      cv.notify_all();
    }
    th.join();
  }
};

void run_world(world &w, std::vector<std::unique_ptr<worker>> *ws, const std::shared_ptr<pool_t> &pool) {
  build(w, pool);
  int guard = 0;
  while (guard++ < 600) {
    int j = pick_ready(w);
    if (j < 0) break;
    if (w.steps <= 0 && w.R.chance(15)) break;  // leave some suspended
    if (ws && w.R.chance(70)) {
      size_t k = w.R.below(ws->size());
      w.ev(9, k);
      (*ws)[k]->run([&] { drive(w, -1, j); });
      VF_COUNT("drives_on_another_thread");
    } else {
      drive(w, -1, j);
    }
    check_current(w, "in root");
  }
  VF_COUNT_N("switches_modelled", w.nsw);
  finish(w);
}

void one_case(vf::rng &R, bool exc, bool mig) {
  auto pool = pool_t::create();
  pool->set_stack_size(131072);
  world w(R.fork(), exc);
  if (mig) {
    std::vector<std::unique_ptr<worker>> ws;
    int n = (int)R.range(1, 3);
    for (int i = 0; i < n; ++i) ws.emplace_back(new worker());
    run_world(w, &ws, pool);
  } else {
    run_world(w, nullptr, pool);
  }
  vf::tr(w.h);
  if (w.nsw >= 6 && w.depth_max >= 2 && (!exc || w.nexc > 0)) vf::nontrivial();
  vf::note("%zu coroutines, %d switches, deepest chain %d, %d exceptions to drivers", w.cs.size(), w.nsw, w.depth_max, w.nexc);
}
}  // namespace

VF_MODE(prog) { one_case(R, false, false); }
VF_MODE(exc) { one_case(R, true, false); }
VF_MODE(mig) { one_case(R, false, true); }
VF_MODE(migexc) { one_case(R, true, true); }

// several threads run their own worlds at the same time, sharing one pool
static void par_case(vf::rng &R, bool exc) {
  auto pool = pool_t::create();
  pool->set_stack_size(131072);
  int n = (int)R.range(2, 4);
  std::vector<std::unique_ptr<world>> ws;
  for (int i = 0; i < n; ++i) ws.emplace_back(new world(R.fork(), exc));
  std::vector<std::thread> th;
  for (auto &w : ws) th.emplace_back([&w, &pool] { run_world(*w, nullptr, pool); });
  for (auto &t : th) t.join();
  int sw = 0;
  for (auto &w : ws) {
    vf::tr(w->h);
    sw += w->nsw;
  }
  if (sw > 10) vf::nontrivial();
  vf::note("%d threads, %d switches", n, sw);
}
VF_MODE(par) { par_case(R, false); }
VF_MODE(parexc) { par_case(R, true); }
