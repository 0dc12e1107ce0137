// C06 stack allocators, C07 stack pool (model based), C08 stack pool shared by threads.
#include "lib.h"

#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <unistd.h>

#include <algorithm>
#include <list>
#include <thread>

using copp::stack_context;
using copp::stack_traits;

namespace {
using uc = unsigned char;

// can one byte be read / written at p? asks the kernel, takes no fault
int g_pipe[2] = {-1, -1};
bool probe_read(const void *p) {
  if (g_pipe[0] < 0 && pipe2(g_pipe, O_NONBLOCK) != 0) vf::fail("harness", __FILE__, __LINE__, "pipe");
  long r = syscall(SYS_write, g_pipe[1], p, 1ul);
  if (r == 1) {
    char c;
    long k = syscall(SYS_read, g_pipe[0], &c, 1ul);
    (void)k;
    return true;
  }
  return false;
}
bool probe_write(void *p) {
  if (!probe_read(p)) return false;
  long r = syscall(SYS_write, g_pipe[1], p, 1ul);
  (void)r;
  r = syscall(SYS_read, g_pipe[0], p, 1ul);
  if (r == 1) return true;
  char c;
  r = syscall(SYS_read, g_pipe[0], &c, 1ul);
  return false;
}
bool is_mapped(void *p) {
  unsigned char v;
  void *a = reinterpret_cast<void *>(reinterpret_cast<uintptr_t>(p) & ~(uintptr_t)4095);
  return mincore(a, 1, &v) == 0;
}

struct region {
  stack_context ctx;
  uc *lo, *hi;   // usable bytes
  uint64_t pat;
  int kind;
  size_t asked;
};
uc pat_at(uint64_t pat, size_t off) { return (uc)(vf::mix64(pat, off >> 3) >> ((off & 7) * 8)); }
template <class F>
void each_checked(region &r, F &&f) {
  size_t n = (size_t)(r.hi - r.lo);
  if (n <= (300u << 10)) {
    for (size_t i = 0; i < n; i += 61) f(i);
    for (size_t i = 0; i < 64 && i < n; ++i) f(i), f(n - 1 - i);
  } else {
    for (size_t i = 0; i < 64; ++i) f(i), f(n - 1 - i);
    size_t step = n / 500;
    for (size_t i = 0; i < n; i += step) f(i);
  }
}
void fill(region &r) {
  size_t n = (size_t)(r.hi - r.lo);
  if (n <= (300u << 10)) memset(r.lo, 0x5a, n);  // the whole of it must be writable
  each_checked(r, [&](size_t i) { r.lo[i] = pat_at(r.pat, i); });
}
void verify(region &r, const char *when) {
  each_checked(r, [&](size_t i) {
    VF_CHECK(r.lo[i] == pat_at(r.pat, i), "stack-content-changed", "%s: byte %zu of %zu of a live stack changed", when, i,
             (size_t)(r.hi - r.lo));
  });
}

size_t pick_size(vf::rng &R, bool huge_ok) {
  size_t pg = 4096, mn = stack_traits::minimum_size();
  switch (R.below(huge_ok ? 12 : 9)) {
    case 0: return 0;
    case 1: return R.below(mn + 2);
    case 2: return mn + (size_t)R.range(-1, 1);
    case 3: return pg * (1 + R.below(40)) + (size_t)R.range(-1, 1);
    case 4: return stack_traits::default_size();
    case 5:
    case 6: return R.below(200000);
    case 7: return pg * (1 + R.below(64));
    case 8: return (size_t)1 << (11 + R.below(9));
    case 9: return ~(size_t)0 - R.below(3 * pg);
    case 10: return ((size_t)1 << (40 + R.below(23))) + R.below(5000);
    default: return stack_traits::is_unbounded() ? ((size_t)8 << 20) : stack_traits::maximum_size() + (size_t)R.range(-5000, 5000);
  }
}

void allocators_case(vf::rng &R) {
  copp::allocator::stack_allocator_malloc am;
  copp::allocator::stack_allocator_posix ap;
  std::vector<region> live;
  int nops = (int)R.range(4, 40);
  int got = 0, refused = 0;
  for (int k = 0; k < nops; ++k) {
    if (!live.empty() && R.chance(10)) {
      // the description of a live stack is copied and moved around: it always says the same, and what was moved from
      // describes nothing any more (else the stack could be given back twice)
      region &r = live[R.below(live.size())];
      void *sp = r.ctx.sp;
      size_t sz = r.ctx.size;
      stack_context c(r.ctx), a;
      VF_CHECK(c.sp == sp && c.size == sz && r.ctx.sp == sp && r.ctx.size == sz, "stack-context-copy", "a copied stack context differs");
      if (R.chance(50)) a.sp = &a, a.size = 77;
      if (R.chance(50)) {
        a = c;
        VF_CHECK(a.sp == sp && a.size == sz && c.sp == sp && c.size == sz, "stack-context-copy", "an assigned stack context differs");
      } else {
        a = std::move(c);
        VF_CHECK(a.sp == sp && a.size == sz, "stack-context-move", "a moved stack context differs");
        VF_CHECK(c.sp == nullptr && c.size == 0, "stack-context-move", "a stack context still describes the stack it was moved from");
      }
      stack_context m(std::move(a));
      VF_CHECK(m.sp == sp && m.size == sz, "stack-context-move", "a moved stack context differs");
      VF_CHECK(a.sp == nullptr && a.size == 0, "stack-context-move", "a stack context still describes the stack it was moved from");
      r.ctx.reset();
      VF_CHECK(r.ctx.sp == nullptr && r.ctx.size == 0, "stack-context-reset", "a reset stack context still describes a stack");
      r.ctx = std::move(m);
      VF_COUNT("stack_contexts_moved");
      vf::tr(78, sz);
      continue;
    }
    if (live.empty() || R.chance(60)) {
      region r;
      r.kind = (int)R.below(2);
      r.asked = pick_size(R, true);
      r.pat = R.next();
      if (R.chance(30)) {
        r.ctx.sp = &r;  // stale content must not matter
        r.ctx.size = 12345;
      }
      if (r.kind == 0)
        am.allocate(r.ctx, r.asked);
      else
        ap.allocate(r.ctx, r.asked);
      vf::tr(r.kind, r.asked);
      if (r.ctx.sp == nullptr) {
        VF_CHECK(r.asked > ((size_t)1 << 31), "alloc-refused", "allocator kind %d refused a request of %zu bytes", r.kind, r.asked);
        ++refused;
        VF_COUNT("allocations_refused");
        continue;
      }
      ++got;
      VF_COUNT("allocations_made");
      size_t want = std::min(std::max(r.asked, stack_traits::minimum_size()), stack_traits::maximum_size());
      size_t guardsz = r.kind == 1 ? stack_traits::page_size() : 0;
      VF_CHECK(r.ctx.size > guardsz && r.ctx.size - guardsz >= want, "stack-smaller-than-asked",
               "kind %d: asked %zu (clamped %zu), usable %zu", r.kind, r.asked, want, r.ctx.size - guardsz);
      VF_CHECK(r.ctx.size % stack_traits::page_size() == 0, "stack-not-rounded", "size %zu is no multiple of the page", r.ctx.size);
      VF_CHECK(r.ctx.size - guardsz < want + 2 * stack_traits::page_size(), "stack-oversized", "asked %zu, got %zu", want, r.ctx.size);
      VF_CHECK(((uintptr_t)r.ctx.sp & 15) == 0, "stack-misaligned", "top of stack %p", r.ctx.sp);
      uc *base = static_cast<uc *>(r.ctx.sp) - r.ctx.size;
      r.lo = base + guardsz;
      r.hi = static_cast<uc *>(r.ctx.sp);
      for (auto &o : live) {
        uc *ob = static_cast<uc *>(o.ctx.sp) - o.ctx.size;
        VF_CHECK(base >= (uc *)o.ctx.sp || (uc *)r.ctx.sp <= ob, "stack-overlap", "two live stacks overlap");
      }
      if (r.kind == 1) {
        VF_CHECK(((uintptr_t)base & (stack_traits::page_size() - 1)) == 0, "stack-misaligned", "mapping at %p", (void *)base);
        VF_CHECK(!probe_read(base) && !probe_read(r.lo - 1), "guard-missing", "the page below a protected stack is accessible");
        VF_CHECK(probe_write(r.lo) && probe_write(r.hi - 1), "stack-not-writable", "protected stack is not writable");
        VF_COUNT("guard_pages_probed");
      }
      fill(r);
      live.push_back(r);
    } else {
      size_t i = R.below(live.size());
      region r = live[i];
      live.erase(live.begin() + (long)i);
      verify(r, "before release");
      if (r.kind == 0) {
        copp::allocator::stack_allocator_malloc other(am);
        if (R.chance(50))
          am.deallocate(r.ctx);
        else
          other.deallocate(r.ctx);
      } else {
        ap.deallocate(r.ctx);
        VF_CHECK(!is_mapped(r.lo) && !is_mapped(r.hi - 1) && !is_mapped(r.lo - 1), "stack-not-returned", "stack still mapped after release");
      }
      vf::tr(77, i);
      for (auto &o : live) verify(o, "after the release of another stack");
      VF_COUNT("releases");
    }
  }
  for (auto &r : live) {
    verify(r, "at the end");
    if (r.kind == 0)
      am.deallocate(r.ctx);
    else
      ap.deallocate(r.ctx);
  }
  if (got >= 2) vf::nontrivial();
  vf::note("%d stacks allocated, %d refused", got, refused);
}

// ---- caller supplied buffers --------------------------------------------------------------------
struct mem_slot {
  std::unique_ptr<copp::allocator::stack_allocator_memory> a;
  int buf = -1;   // buffer index it controls
  bool used = false;
  stack_context ctx;
};
void memory_case(vf::rng &R) {
  struct buffer {
    std::unique_ptr<uc[]> raw;
    uc *p;
    size_t size, slack;
    bool attached = false;
  };
  std::vector<buffer> bufs;
  int nb = (int)R.range(1, 4);
  const size_t RZ = 16384;
  for (int i = 0; i < nb; ++i) {
    buffer b;
    b.size = R.chance(50) ? 4096 * (1 + R.below(40)) : 1 + R.below(160000);
#ifndef NDEBUG
    // the release of a stack below the minimum is refused by an assertion
    if (b.size < stack_traits::minimum_size() + 4096) b.size = stack_traits::minimum_size() + 4096 + b.size % 9000;
#endif
    b.raw.reset(new uc[b.size + 2 * RZ + 64]);
    b.slack = R.chance(50) ? 0 : R.below(64);
    uintptr_t q = (reinterpret_cast<uintptr_t>(b.raw.get()) + RZ + 15) & ~(uintptr_t)15;
    if (b.slack && R.chance(50)) b.slack = (b.slack & ~(size_t)15);
    b.p = reinterpret_cast<uc *>(q) + b.slack;
    memset(b.raw.get(), 0xc7, b.size + 2 * RZ + 64);
    bufs.push_back(std::move(b));
  }
  auto check_redzones = [&]() {
    for (auto &b : bufs) {
      for (uc *c = b.raw.get(); c < b.p; ++c) VF_CHECK(*c == 0xc7, "buffer-underflow", "byte %td below the buffer changed", b.p - c);
      for (uc *c = b.p + b.size; c < b.raw.get() + b.size + 2 * RZ + 64; ++c)
        VF_CHECK(*c == 0xc7, "buffer-overflow", "byte %td beyond the buffer changed", c - (b.p + b.size));
    }
  };
  std::vector<mem_slot> slots(1 + R.below(4));
  for (auto &s : slots) s.a.reset(new copp::allocator::stack_allocator_memory());
  int nops = (int)R.range(6, 50), hands = 0;
  for (int k = 0; k < nops; ++k) {
    size_t i = R.below(slots.size()), j = R.below(slots.size());
    mem_slot &s = slots[i], &t = slots[j];
    unsigned op = (unsigned)R.below(100);
    vf::tr(op, vf::mix64(i, j));
    if (op < 15) {
      // attach a buffer nobody controls
      if (s.used || s.buf >= 0) continue;
      for (size_t b = 0; b < bufs.size(); ++b)
        if (!bufs[b].attached) {
          if (R.chance(50))
            s.a->attach(bufs[b].p, bufs[b].size);
          else
            s.a.reset(new copp::allocator::stack_allocator_memory(bufs[b].p, bufs[b].size));
          s.buf = (int)b;
          bufs[b].attached = true;
          break;
        }
    } else if (op < 50) {
      stack_context c;
      size_t ask = pick_size(R, true);
      s.a->allocate(c, ask);
      if (s.buf < 0 || s.used) {
        VF_CHECK(c.sp == nullptr, "buffer-reused", "an allocator that is %s handed out memory", s.used ? "in use" : "empty");
        VF_COUNT("refusals_expected");
        continue;
      }
      buffer &b = bufs[(size_t)s.buf];
      if (c.sp == nullptr) {
        VF_CHECK(b.size < stack_traits::page_size(), "alloc-refused", "buffer of %zu refused a request of %zu", b.size, ask);
        VF_COUNT("refusals_small_buffer");
        continue;
      }
      uc *lo = static_cast<uc *>(c.sp) - c.size;
      VF_CHECK(lo >= b.p && static_cast<uc *>(c.sp) <= b.p + b.size, "buffer-bounds",
               "stack [%td,%td) handed out of a buffer of %zu bytes (asked %zu)", lo - b.p, (uc *)c.sp - b.p, b.size, ask);
      size_t want = std::min(std::max(ask, stack_traits::minimum_size()), b.size / stack_traits::page_size() * stack_traits::page_size());
      VF_CHECK(c.size >= want, "stack-smaller-than-asked", "asked %zu of a buffer of %zu, got %zu", ask, b.size, c.size);
      memset(lo, 0x33 + (int)i, c.size);
      s.used = true;
      s.ctx = c;
      ++hands;
      VF_COUNT("buffers_handed_out");
    } else if (op < 70) {
      if (!s.used) continue;
      uc *lo = static_cast<uc *>(s.ctx.sp) - s.ctx.size;
      uc v = lo[0];
      for (size_t q = 0; q < s.ctx.size; q += 97) VF_CHECK(lo[q] == v, "stack-content-changed", "content of a live buffer stack changed");
      s.a->deallocate(s.ctx);
      s.used = false;
    } else if (op < 80) {
      // copy or move construct a new owner; a buffer in use stays where it is
      std::unique_ptr<copp::allocator::stack_allocator_memory> n;
      if (i == j || t.used || t.buf >= 0) continue;
      if (R.chance(50))
        n.reset(new copp::allocator::stack_allocator_memory(*s.a));
      else
        n.reset(new copp::allocator::stack_allocator_memory(std::move(*s.a)));
      t.a = std::move(n);
      if (!s.used) std::swap(t.buf, s.buf);
    } else if (op < 88) {
      if (i == j || t.used) continue;
      if (R.chance(50))
        *t.a = *s.a;
      else
        *t.a = std::move(*s.a);
      if (!s.used) std::swap(t.buf, s.buf);
    } else if (op < 94) {
      if (i == j) continue;
      s.a->swap(*t.a);
      std::swap(s.buf, t.buf);
      std::swap(s.used, t.used);
      std::swap(s.ctx, t.ctx);
    } else {
      check_redzones();
    }
  }
  check_redzones();
  for (auto &s : slots)
    if (s.used) s.a->deallocate(s.ctx);
  if (hands >= 2) vf::nontrivial();
  vf::note("%zu allocators over %d buffers, %d hand-outs", slots.size(), nb, hands);
}

// ---- C07: pool against a model ----------------------------------------------------------------------
template <class Base>
void pool_case(vf::rng &R, size_t extra) {
  using A = vf::track_alloc<Base>;
  using pool_t = copp::stack_pool<A>;
  auto book = std::make_shared<vf::stack_book>();
  auto pool = pool_t::create();
  pool->get_origin_allocator().book = book;
  // model
  size_t S = stack_traits::default_size(), O = 0;
  size_t used_n = 0, used_s = 0, free_n = 0, free_s = 0;
  size_t max_n = 0, max_s = 0, min_n = 0, min_s = 0, once = 0;
  bool agc = true;
  VF_CHECK(pool->get_stack_size() == S && pool->is_auto_gc(), "pool-config", "initial configuration");
  std::vector<region> used;
  std::set<uc *> free_set;  // bases kept by the pool (known to us when they were released)
  int nops = (int)R.range(10, 120);
  int reuse = 0, gcs = 0;
  auto model_gc = [&]() -> size_t {
    if (used_s >= free_s && used_n >= free_n) return 0;
    if (min_s || min_n) {
      bool a = min_s == 0 || used_s + free_s <= min_s;
      bool b = min_n == 0 || used_n + free_n <= min_n;
      if (a && b) return 0;
    }
    size_t keep_s = free_s / 2, keep_n = free_n / 2, n = 0;
    while (free_s > keep_s || free_n > keep_n) {
      --free_n;
      free_s -= S + O;
      ++n;
      if (once && n == once) break;
    }
    ++gcs;
    return n;
  };
  auto sync = [&](const char *op) {
    auto &l = pool->get_limit();
    VF_CHECK(l.used_stack_number == used_n && l.used_stack_size == used_s && l.free_stack_number == free_n && l.free_stack_size == free_s,
             "pool-counters", "after %s: pool says used %zu/%zu free %zu/%zu, model used %zu/%zu free %zu/%zu", op, l.used_stack_number,
             l.used_stack_size, l.free_stack_number, l.free_stack_size, used_n, used_s, free_n, free_s);
    VF_CHECK(book->live_count() == used_n + free_n, "pool-conservation",
             "after %s: %zu stacks taken from the allocator, %zu handed out and %zu kept", op, book->live_count(), used_n, free_n);
    VF_CHECK(pool->get_stack_size() == S, "pool-config", "stack size");
  };
  for (int k = 0; k < nops; ++k) {
    unsigned op = (unsigned)R.below(100);
    vf::tr(op);
    if (op < 42) {
      bool fail = R.chance(6);
      book->fail_after = fail ? 0 : -1;
      region r;
      r.pat = R.next();
      uint64_t before = book->allocated;
      pool->allocate(r.ctx);
      book->fail_after = -1;
      bool limited = (max_n && used_n >= max_n) || (max_s && used_s + S > max_s);
      if (limited) {
        VF_CHECK(r.ctx.sp == nullptr, "pool-limit-exceeded", "stack handed out with used %zu/%zu at limits %zu/%zu", used_n, used_s, max_n, max_s);
        VF_CHECK(book->allocated == before, "pool-limit-exceeded", "stack taken from the allocator at the limit");
        VF_COUNT("pool_refused_at_limit");
      } else if (free_n > 0) {
        VF_CHECK(r.ctx.sp != nullptr, "pool-refused", "pool refused although %zu stacks are free", free_n);
        VF_CHECK(book->allocated == before, "pool-no-reuse", "new stack made although %zu are free", free_n);
        --free_n;
        free_s -= S + O;
        ++reuse;
        VF_COUNT("pool_reused");
      } else if (fail) {
        VF_CHECK(r.ctx.sp == nullptr, "pool-invented", "stack handed out although the allocator failed");
        VF_COUNT("pool_origin_failed");
      } else {
        VF_CHECK(r.ctx.sp != nullptr, "pool-refused", "pool refused below its limits (used %zu/%zu, limits %zu/%zu)", used_n, used_s, max_n, max_s);
        VF_CHECK(book->allocated == before + 1, "pool-conservation", "%llu stacks taken for one request", (unsigned long long)(book->allocated - before));
        O = stack_traits::round_to_page_size(S) + extra - S;
      }
      if (r.ctx.sp) {
        VF_CHECK(r.ctx.size == S + O && r.ctx.size == stack_traits::round_to_page_size(S) + extra, "pool-wrong-size", "stack of %zu handed out, configured %zu + %zu", r.ctx.size, S, O);
        r.hi = static_cast<uc *>(r.ctx.sp);
        r.lo = r.hi - r.ctx.size + extra;
        for (auto &u : used) VF_CHECK(u.ctx.sp != r.ctx.sp, "pool-double-handout", "stack %p handed to a second user", r.ctx.sp);
        VF_CHECK(book->contains(r.hi - r.ctx.size, r.ctx.size), "pool-stale-stack", "stack %p is not live in the allocator", r.ctx.sp);
        r.lo[0] = 1;
        fill(r);
        used.push_back(r);
        ++used_n;
        used_s += r.ctx.size;
        VF_COUNT("pool_handed_out");
      }
      sync("allocate");
    } else if (op < 72) {
      if (used.empty()) continue;
      size_t i = R.below(used.size());
      region r = used[i];
      used.erase(used.begin() + (long)i);
      verify(r, "before release to the pool");
      used_n -= 1;
      used_s -= r.ctx.size;
      uint64_t rel = book->released;
      size_t keep = r.ctx.size == S + O;
      if (keep) {
        ++free_n;
        free_s += r.ctx.size;
      }
      pool->deallocate(r.ctx);
      size_t n = agc ? model_gc() : 0;
      VF_CHECK(book->released - rel == n + (keep ? 0 : 1), "pool-conservation", "release gave %llu stacks back, expected %zu",
               (unsigned long long)(book->released - rel), n + (keep ? 0 : 1));
      sync("deallocate");
      if (R.chance(20))
        for (auto &u : used) verify(u, "after a release");
    } else if (op < 77) {
      size_t got = pool->gc();
      size_t want = model_gc();
      VF_CHECK(got == want, "pool-gc-count", "gc collected %zu, expected %zu", got, want);
      sync("gc");
    } else if (op < 79) {
      pool->clear();
      free_n = free_s = 0;
      sync("clear");
    } else if (op < 84) {
      size_t sz = R.chance(10) ? stack_traits::minimum_size() + R.below(3) - 1 : R.chance(30) ? R.below(9000) : 4096 * (1 + R.below(40)) + (R.chance(30) ? R.below(4096) : 0);
      size_t want = sz <= stack_traits::minimum_size() ? stack_traits::minimum_size() : stack_traits::round_to_page_size(sz);
      size_t got = pool->set_stack_size(sz);
      VF_CHECK(got == want, "pool-config", "set_stack_size(%zu) gave %zu", sz, got);
      if (want != S) free_n = free_s = 0;
      S = want;
      sync("set_stack_size");
      VF_COUNT("pool_size_changes");
    } else if (op < 88) {
      max_n = R.chance(30) ? 0 : R.below(12);
      pool->set_max_stack_number(max_n);
      VF_CHECK(pool->get_max_stack_number() == max_n, "pool-config", "max number");
    } else if (op < 91) {
      max_s = R.chance(40) ? 0 : R.chance(40) ? used_s + S * R.below(3) + R.below(3) - (S && R.chance(80)) : R.below(S * 10);
      pool->set_max_stack_size(max_s);
      VF_CHECK(pool->get_max_stack_size() == max_s, "pool-config", "max size");
    } else if (op < 93) {
      min_n = R.chance(40) ? 0 : R.below(12);
      pool->set_min_stack_number(min_n);
      VF_CHECK(pool->get_min_stack_number() == min_n, "pool-config", "min number");
    } else if (op < 95) {
      min_s = R.chance(40) ? 0 : R.chance(40) ? used_s + free_s + S * R.below(2) + R.below(3) - (used_s + free_s > 0) : R.below(S * 10);
      pool->set_min_stack_size(min_s);
      VF_CHECK(pool->get_min_stack_size() == min_s, "pool-config", "min size");
    } else if (op < 97) {
      agc = R.chance(60);
      pool->set_auto_gc(agc);
      VF_CHECK(pool->is_auto_gc() == agc, "pool-config", "auto gc");
    } else {
      once = R.chance(40) ? 0 : R.below(5);
      pool->set_gc_once_number(once);
      VF_CHECK(pool->get_gc_once_number() == once, "pool-config", "gc once");
    }
  }
  for (auto &u : used) verify(u, "at the end");
  size_t total = used.size();
  if (R.chance(50)) {
    for (auto &u : used) pool->deallocate(u.ctx);
    total = 0;
    used.clear();
  }
  pool.reset();
  VF_CHECK(book->live_count() == total, "pool-destroy-leak", "%zu stacks not returned by the destroyed pool", book->live_count() - total);
  A a(book);
  for (auto &u : used) a.deallocate(u.ctx);
  if (reuse > 0) vf::nontrivial();
  vf::note("%d operations, %d reuses, %d collections, %zu outstanding at the end", nops, reuse, gcs, total);
}

// ---- C08 ------------------------------------------------------------------------------------------------
struct hands_t {
  struct shard {
    std::mutex mu;
    std::set<void *> in;
  } sh[16];
  std::atomic<int64_t> count{0};
  std::atomic<size_t> max_number{0};
  std::atomic<uint64_t> total{0};
  shard &of(void *p) { return sh[(reinterpret_cast<uintptr_t>(p) >> 12) & 15]; }
};
hands_t *g_hands = nullptr;

template <class Pool>
struct pool_user_alloc {
  copp::allocator::stack_allocator_pool<Pool> a;
  pool_user_alloc() {}
  explicit pool_user_alloc(const std::shared_ptr<Pool> &p) : a(p) {}
  void allocate(stack_context &ctx, size_t n) noexcept {
    a.allocate(ctx, n);
    if (!ctx.sp) return;
    hands_t &h = *g_hands;
    int64_t c = h.count.fetch_add(1) + 1;
    size_t mx = h.max_number.load();
    VF_CHECK(!mx || c <= (int64_t)mx, "pool-limit-exceeded", "%lld stacks in use, maximum %zu", (long long)c, mx);
    h.total.fetch_add(1, std::memory_order_relaxed);
    auto &s = h.of(ctx.sp);
    std::lock_guard<std::mutex> g(s.mu);
    VF_CHECK(s.in.insert(ctx.sp).second, "pool-double-handout", "stack %p is in the hands of two users", ctx.sp);
  }
  void deallocate(stack_context &ctx) noexcept {
    hands_t &h = *g_hands;
    {
      auto &s = h.of(ctx.sp);
      std::lock_guard<std::mutex> g(s.mu);
      VF_CHECK(s.in.erase(ctx.sp) == 1, "stack-double-release", "stack %p released by someone who does not hold it", ctx.sp);
    }
    h.count.fetch_sub(1);
    a.deallocate(ctx);
  }
};

void pool_mt_case(vf::rng &R, unsigned delay) {
  using A = vf::talloc;
  using pool_t = copp::stack_pool<A>;
  using C = copp::coroutine_context_container<pool_user_alloc<pool_t>>;
  auto book = std::make_shared<vf::stack_book>();
  auto pool = pool_t::create();
  pool->get_origin_allocator().book = book;
  pool->set_stack_size(65536);
  hands_t hands;
  g_hands = &hands;
  int nt = (int)R.range(2, 5);
  if (R.chance(60)) {
    size_t mx = 1 + R.below((size_t)nt * 3);
    pool->set_max_stack_number(mx);
    hands.max_number = mx;
  }
  if (R.chance(30)) {
    size_t mx = 1 + R.below((size_t)nt * 3);
    pool->set_max_stack_size(mx * 65536 + R.below(65536));
    if (!hands.max_number || mx < hands.max_number) hands.max_number = mx;
  }
  if (R.chance(40)) pool->set_min_stack_number(R.below(8));
  if (R.chance(30)) pool->set_gc_once_number(1 + R.below(3));
  if (R.chance(25)) pool->set_auto_gc(false);
  if (delay) vf::delays_on(R.next(), delay);
  struct mailbox {
    std::mutex mu;
    std::vector<C::ptr_type> v;
  } box;
  std::atomic<uint64_t> created{0}, refused{0}, passed{0}, cleared{0};
  bool clears = R.chance(50);
  std::vector<std::thread> th;
  int iters = (int)R.range(20, 80);
  for (int t = 0; t < nt; ++t) {
    th.emplace_back([&, t, seed = R.next()] {
      vf::rng r(seed);
      std::vector<C::ptr_type> mine;
      for (int k = 0; k < iters; ++k) {
        unsigned op = (unsigned)r.below(100);
        if (op < 45 && mine.size() < 4) {
          pool_user_alloc<pool_t> al(pool);
          uint64_t tag = r.next();
          C::ptr_type p = C::create(
              [tag](void *) {
                volatile uint64_t a[256];
                for (int i = 0; i < 256; ++i) a[i] = vf::mix64(tag, (uint64_t)i);
                copp::this_coroutine::yield();
                for (int i = 0; i < 256; ++i)
                  VF_CHECK(a[i] == vf::mix64(tag, (uint64_t)i), "stack-content-changed", "stack of a suspended coroutine was written by someone else");
                return 7;
              },
              al);
          if (!p) {
            refused.fetch_add(1, std::memory_order_relaxed);
            continue;
          }
          created.fetch_add(1, std::memory_order_relaxed);
          VF_EQ(p->start(), 0, "drive-result", "start");
          mine.push_back(p);
        } else if (op < 60 && !mine.empty()) {
          size_t i = r.below(mine.size());
          if (!mine[i]->is_finished()) VF_EQ(mine[i]->resume(), 0, "drive-result", "resume");
          VF_CHECK(mine[i]->is_finished() && mine[i]->get_ret_code() == 7, "return-code", "coroutine on a pooled stack");
        } else if (op < 80 && !mine.empty()) {
          size_t i = r.below(mine.size());
          mine.erase(mine.begin() + (long)i);
        } else if (op < 88 && !mine.empty()) {
          std::lock_guard<std::mutex> g(box.mu);
          box.v.push_back(std::move(mine.back()));
          mine.pop_back();
        } else if (op < 96) {
          C::ptr_type p;
          {
            std::lock_guard<std::mutex> g(box.mu);
            if (!box.v.empty()) {
              p = std::move(box.v.back());
              box.v.pop_back();
            }
          }
          if (p) {
            passed.fetch_add(1, std::memory_order_relaxed);
            if (mine.size() < 4) mine.push_back(std::move(p));
          }
        } else if (clears && r.chance(50)) {
          pool->clear();
          cleared.fetch_add(1, std::memory_order_relaxed);
        } else {
          pool->gc();
        }
      }
      (void)t;
    });
  }
  for (auto &t : th) t.join();
  vf::delays_off();
  // quiescent: only the mailbox holds coroutines
  auto l = pool->get_limit();
  VF_EQ(l.used_stack_number, box.v.size(), "pool-counters", "used number when quiescent");
  VF_EQ(l.used_stack_size, box.v.size() * 65536, "pool-counters", "used size when quiescent");
  VF_EQ(l.free_stack_size, l.free_stack_number * 65536, "pool-counters", "free size when quiescent");
  VF_EQ(book->live_count(), l.used_stack_number + l.free_stack_number, "pool-conservation", "stacks alive when quiescent");
  box.v.clear();
  l = pool->get_limit();
  VF_EQ(l.used_stack_number, 0, "pool-counters", "used number at the end");
  VF_EQ(l.used_stack_size, 0, "pool-counters", "used size at the end");
  VF_EQ(book->live_count(), l.free_stack_number, "pool-conservation", "stacks alive at the end");
  // the kept ones can all be handed out again, each once
  {
    pool->set_max_stack_number(0);
    pool->set_max_stack_size(0);
    std::set<void *> seen;
    std::vector<stack_context> cs(l.free_stack_number);
    uint64_t before = book->allocated;
    for (auto &c : cs) {
      pool->allocate(c);
      VF_CHECK(c.sp && seen.insert(c.sp).second, "pool-double-handout", "free list holds a stack twice");
    }
    VF_EQ(book->allocated, before, "pool-no-reuse", "allocations while free stacks remain");
    pool->set_auto_gc(false);
    for (auto &c : cs) pool->deallocate(c);
  }
  pool.reset();
  VF_EQ(book->live_count(), 0, "pool-destroy-leak", "stacks after the pool is gone");
  VF_COUNT_N("mt_coroutines_created", created.load());
  VF_COUNT_N("mt_refused_at_limit", refused.load());
  VF_COUNT_N("mt_passed_between_threads", passed.load());
  VF_COUNT_N("mt_clears", cleared.load());
  vf::tr(created.load(), vf::mix64(refused.load(), passed.load()));
  if (created.load() > 5) vf::nontrivial();
  vf::note("%d threads, %llu coroutines created, %llu refused, %llu passed between threads", nt, (unsigned long long)created.load(),
           (unsigned long long)refused.load(), (unsigned long long)passed.load());
  g_hands = nullptr;
}
}  // namespace

VF_MODE(alloc) { allocators_case(R); }
VF_MODE(rlim) {
  static bool once = [] {
    struct rlimit l;
    getrlimit(RLIMIT_STACK, &l);
    l.rlim_max = (size_t)1234567;
    if (l.rlim_cur > l.rlim_max) l.rlim_cur = l.rlim_max;
    return setrlimit(RLIMIT_STACK, &l) == 0;
  }();
  VF_CHECK(once, "harness", "setrlimit");
  VF_CHECK(!stack_traits::is_unbounded() && stack_traits::maximum_size() == 1234567, "traits", "maximum follows the limit");
  allocators_case(R);
}
VF_MODE(mem) { memory_case(R); }
VF_MODE(pool) {
  if (R.chance(70))
    pool_case<copp::allocator::stack_allocator_malloc>(R, 0);
  else
    pool_case<copp::allocator::stack_allocator_posix>(R, stack_traits::page_size());
}
VF_MODE(poolmt) { pool_mt_case(R, R.chance(70) ? 20 : 3); }
