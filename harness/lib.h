// common includes of libcopp for the drivers
#pragma once
#include <libcopp/utils/config/libcopp_build_features.h>

#include <libcopp/coroutine/coroutine_context_container.h>
#include <libcopp/stack/allocator/stack_allocator_malloc.h>
#include <libcopp/stack/allocator/stack_allocator_memory.h>
#include <libcopp/stack/allocator/stack_allocator_pool.h>
#include <libcopp/stack/allocator/stack_allocator_posix.h>
#include <libcopp/stack/stack_pool.h>
#include <libcopp/stack/stack_traits.h>

#include <libcopp/utils/errno.h>

#include "verif.h"

// 0 in the build which leaves exceptions alone (flavor "bare")
#if defined(LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR) && LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR
#  define VF_EPTR 1
#else
#  define VF_EPTR 0
#endif

namespace vf {
// Ledger of stacks handed out by a tracking allocator. Thread safe.
struct stack_book {
  struct item {
    uintptr_t hi;
    size_t size;
    const void *owner;
    uint64_t serial;
  };
  std::mutex mu;
  std::map<uintptr_t, item> live;  // by lowest address
  uint64_t allocated = 0, released = 0, refused = 0;
  int fail_after = -1;  // <0: never fail; n: the (n+1)th allocation from now fails
  bool fail_sticky = false;
  bool expects_requested_size = true;

  void on_alloc(copp::stack_context &ctx, const void *owner, size_t asked) {
    std::lock_guard<std::mutex> g(mu);
    uintptr_t hi = reinterpret_cast<uintptr_t>(ctx.sp), lo = hi - ctx.size;
    VF_CHECK(!expects_requested_size || ctx.size >= asked, "stack-smaller-than-asked",
             "allocator handed out %zu bytes for a request of %zu", ctx.size, asked);
    auto it = live.lower_bound(lo);
    VF_CHECK(it == live.end() || it->first >= hi, "stack-overlap", "stack [%zx,%zx) overlaps a live one [%zx,%zx)", (size_t)lo,
             (size_t)hi, (size_t)it->first, (size_t)it->second.hi);
    if (it != live.begin()) {
      --it;
      VF_CHECK(it->second.hi <= lo, "stack-overlap", "stack [%zx,%zx) overlaps a live one [%zx,%zx)", (size_t)lo, (size_t)hi,
               (size_t)it->first, (size_t)it->second.hi);
    }
    live[lo] = item{hi, ctx.size, owner, ++allocated};
  }
  void on_free(copp::stack_context &ctx, const void *owner) {
    uintptr_t hi = reinterpret_cast<uintptr_t>(ctx.sp), lo = hi - ctx.size;
    {
      std::lock_guard<std::mutex> g(mu);
      auto it = live.find(lo);
      VF_CHECK(it != live.end(), "stack-double-release", "stack [%zx,%zx) released while not handed out", (size_t)lo, (size_t)hi);
      VF_CHECK(it->second.hi == hi && it->second.size == ctx.size, "stack-release-mangled",
               "stack [%zx,%zx) size %zu released as [%zx,%zx) size %zu", (size_t)it->first, (size_t)it->second.hi,
               it->second.size, (size_t)lo, (size_t)hi, ctx.size);
      VF_CHECK(it->second.owner == owner, "stack-wrong-allocator", "stack released to allocator %p, came from %p", owner,
               it->second.owner);
      live.erase(it);
      ++released;
    }
    vf_stack_gone(reinterpret_cast<void *>(lo), reinterpret_cast<void *>(hi));
  }
  size_t live_count() {
    std::lock_guard<std::mutex> g(mu);
    return live.size();
  }
  bool should_fail() {
    std::lock_guard<std::mutex> g(mu);
    if (fail_after < 0) return false;
    if (fail_after == 0) {
      if (!fail_sticky) fail_after = -1;
      ++refused;
      return true;
    }
    --fail_after;
    return false;
  }
  bool contains(const void *p, size_t n) {
    std::lock_guard<std::mutex> g(mu);
    uintptr_t a = reinterpret_cast<uintptr_t>(p);
    auto it = live.upper_bound(a);
    if (it == live.begin()) return false;
    --it;
    return it->first <= a && a + n <= it->second.hi;
  }
};

// Allocator with an identity (the book), wrapping a real allocator of the library.
template <class Base>
struct track_alloc {
  std::shared_ptr<stack_book> book;
  Base base;
  track_alloc() {}
  explicit track_alloc(const std::shared_ptr<stack_book> &b) : book(b) {}
  track_alloc(const track_alloc &o) : book(o.book), base(o.base) {}
  track_alloc(track_alloc &&o) noexcept : book(o.book), base(std::move(o.base)) {}
  track_alloc &operator=(const track_alloc &o) {
    book = o.book;
    return *this;
  }
  void allocate(copp::stack_context &ctx, std::size_t size) noexcept {
    if (!book) {
      default_book()->expects_requested_size = true;
      book = default_book();
    }
    if (book->should_fail()) {
      ctx.sp = nullptr;  // what the library's allocators set; the size is theirs to leave as it is
      static std::atomic<unsigned> how{0};
      switch (how.fetch_add(1, std::memory_order_relaxed) % 3) {
        case 0: ctx.size = 0; break;
        case 1: ctx.size = size; break;
        default: break;
      }
      return;
    }
    base.allocate(ctx, size);
    if (!ctx.sp) return;
    book->on_alloc(ctx, book.get(), size);
    size_t n = ctx.size < 8192 ? ctx.size : 8192;
    memset(static_cast<char *>(ctx.sp) - n, g_fill, n);  // nothing may depend on what is in there
  }
  void deallocate(copp::stack_context &ctx) noexcept {
    VF_CHECK(book, "stack-wrong-allocator", "released to an allocator that never allocated");
    book->on_free(ctx, book.get());
    base.deallocate(ctx);
  }
  static std::shared_ptr<stack_book> &default_book() {
    static std::shared_ptr<stack_book> b = std::make_shared<stack_book>();
    return b;
  }
};
using talloc = track_alloc<copp::allocator::stack_allocator_malloc>;
using talloc_posix = track_alloc<copp::allocator::stack_allocator_posix>;

// Allocator of our own: memory around the stack holds a pattern, looked at when the stack comes back
struct guarded_malloc {
  static constexpr size_t guard = 2048;
  void allocate(copp::stack_context &ctx, std::size_t size) noexcept {
    size = (size + 15) & ~size_t(15);
    unsigned char *m = static_cast<unsigned char *>(::malloc(size + 2 * guard));
    memset(m, 0x6b, guard);
    memset(m + guard + size, 0x6b, guard);
    ctx.sp = m + guard + size;
    ctx.size = size;
  }
  void deallocate(copp::stack_context &ctx) noexcept {
    unsigned char *top = static_cast<unsigned char *>(ctx.sp), *m = top - ctx.size - guard;
    for (size_t i = 0; i < guard; ++i) {
      VF_CHECK(m[guard - 1 - i] == 0x6b, "stack-neighbour-below", "byte %zu below a stack of %zu bytes was written", i + 1, ctx.size);
      VF_CHECK(top[i] == 0x6b, "stack-neighbour-above", "byte %zu above a stack of %zu bytes was written", i, ctx.size);
    }
    ::free(m);
    VF_COUNT("stack_neighbours_checked");
  }
};
using talloc_guard = track_alloc<guarded_malloc>;
}  // namespace vf
