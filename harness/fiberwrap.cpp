// Link-time wrapper (-Wl,--wrap) around the two assembler entry points of libcopp. Compiled without sanitizers.
// It tells ASan/TSan about stack switches and offers a seam (vf_before_jump) for injected delays.
#include <pthread.h>
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

#ifndef VF_WRAP_ASAN
#  define VF_WRAP_ASAN 0
#endif
#ifndef VF_WRAP_TSAN
#  define VF_WRAP_TSAN 0
#endif

extern "C" {
typedef void *fctx_t;
struct transfer {
  fctx_t fctx;
  void *data;
};
transfer __real_copp_jump_fcontext_v2(fctx_t to, void *vp);
fctx_t __real_copp_make_fcontext_v2(void *sp, size_t size, void (*fn)(transfer));

#if VF_WRAP_ASAN
void __sanitizer_start_switch_fiber(void **fake_stack_save, const void *bottom, size_t size);
void __sanitizer_finish_switch_fiber(void *fake_stack_save, const void **bottom_old, size_t *size_old);
void __asan_unpoison_memory_region(void const volatile *addr, size_t size);
#endif
#if VF_WRAP_TSAN
void *__tsan_get_current_fiber(void);
void *__tsan_create_fiber(unsigned flags);
void __tsan_destroy_fiber(void *fiber);
void __tsan_switch_to_fiber(void *fiber, unsigned flags);
#endif

void (*vf_before_jump)(void *to) = nullptr;
unsigned long long vf_switches = 0;
}

namespace {
struct rec {
  uintptr_t lo, hi;
  void (*fn)(transfer);
  void *fiber;
  int is_thread;
};
constexpr size_t CAP = 1 << 17;
rec g_recs[CAP];  // sorted by lo
size_t g_n = 0;

// plain loops: memmove would be seen by the sanitizers' interceptors
void shift(size_t dst, size_t src, size_t n) {
  if (dst < src) {
    for (size_t i = 0; i < n; ++i) {
      g_recs[dst + i] = g_recs[src + i];
      __asm__ __volatile__("" ::: "memory");
    }
  } else {
    for (size_t i = n; i-- > 0;) {
      g_recs[dst + i] = g_recs[src + i];
      __asm__ __volatile__("" ::: "memory");
    }
  }
}
char g_lock = 0;

struct guard {
  guard() {
    int spins = 0;
    while (__atomic_test_and_set(&g_lock, __ATOMIC_ACQUIRE)) {
      if (++spins > 100) {
        spins = 0;
        usleep(1);
      }
    }
  }
  ~guard() { __atomic_clear(&g_lock, __ATOMIC_RELEASE); }
};

[[noreturn]] void die(const char *m) {
  ssize_t r = write(2, m, strlen(m));
  (void)r;
  r = write(1, "\nVF-HARNESS fiberwrap\n", 22);
  _exit(2);
}

size_t lower(uintptr_t a) {  // first index with hi > a
  size_t l = 0, r = g_n;
  while (l < r) {
    size_t m = (l + r) / 2;
    if (g_recs[m].hi > a)
      r = m;
    else
      l = m + 1;
  }
  return l;
}

// removes overlapping records, returns fibers to destroy in out (destroyed after unlock)
size_t remove_range(uintptr_t lo, uintptr_t hi, void **out, size_t cap) {
  size_t n = 0;
  size_t i = lower(lo);
  size_t j = i;
  while (j < g_n && g_recs[j].lo < hi) {
    if (g_recs[j].fiber && !g_recs[j].is_thread) {
      if (n < cap) out[n++] = g_recs[j].fiber;
    }
    ++j;
  }
  if (j > i) {
    shift(i, j, g_n - j);
    g_n -= j - i;
  }
  return n;
}
void insert(const rec &r) {
  if (g_n == CAP) die("fiberwrap: too many stacks\n");
  size_t i = lower(r.lo);
  shift(i + 1, i, g_n - i);
  g_recs[i] = r;
  ++g_n;
}
bool find(uintptr_t a, rec &out) {
  size_t i = lower(a);
  if (i < g_n && g_recs[i].lo <= a) {
    out = g_recs[i];
    return true;
  }
  return false;
}

__thread int tl_registered = 0;
pthread_key_t g_key;
pthread_once_t g_key_once = PTHREAD_ONCE_INIT;
struct range {
  uintptr_t lo, hi;
};

void drop(uintptr_t lo, uintptr_t hi) {
  void *fibers[64];
  size_t n;
  {
    guard g;
    n = remove_range(lo, hi, fibers, 64);
  }
#if VF_WRAP_TSAN
  for (size_t i = 0; i < n; ++i) __tsan_destroy_fiber(fibers[i]);
#endif
  (void)n;
}
void thread_end(void *p) {
  range *r = static_cast<range *>(p);
  drop(r->lo, r->hi);
  free(r);
}
void make_key() { pthread_key_create(&g_key, &thread_end); }

__attribute__((noinline)) void ensure_thread() {
  if (__builtin_expect(tl_registered, 1)) return;
  tl_registered = 1;
  pthread_attr_t at;
  void *addr = nullptr;
  size_t sz = 0;
  if (pthread_getattr_np(pthread_self(), &at) != 0) die("fiberwrap: getattr\n");
  pthread_attr_getstack(&at, &addr, &sz);
  pthread_attr_destroy(&at);
  rec r;
  r.lo = reinterpret_cast<uintptr_t>(addr);
  r.hi = r.lo + sz;
  r.fn = nullptr;
  r.is_thread = 1;
  r.fiber = nullptr;
#if VF_WRAP_TSAN
  r.fiber = __tsan_get_current_fiber();
#endif
  drop(r.lo, r.hi);
  {
    guard g;
    insert(r);
  }
  pthread_once(&g_key_once, make_key);
  range *k = static_cast<range *>(malloc(sizeof(range)));
  k->lo = r.lo;
  k->hi = r.hi;
  pthread_setspecific(g_key, k);
}

void trampoline(transfer t) {
#if VF_WRAP_ASAN
  __sanitizer_finish_switch_fiber(nullptr, nullptr, nullptr);
#endif
  rec r;
  bool ok;
  {
    guard g;
    ok = find(reinterpret_cast<uintptr_t>(__builtin_frame_address(0)), r);
  }
  if (!ok || !r.fn) die("fiberwrap: started on an unknown stack\n");
  r.fn(t);
}
}  // namespace

extern "C" {
__attribute__((visibility("default"))) void vf_stack_gone(void *lo, void *hi) {
  drop(reinterpret_cast<uintptr_t>(lo), reinterpret_cast<uintptr_t>(hi));
}

fctx_t __wrap_copp_make_fcontext_v2(void *sp, size_t size, void (*fn)(transfer)) {
  rec r;
  r.hi = reinterpret_cast<uintptr_t>(sp);
  r.lo = r.hi - size;
  r.fn = fn;
  r.is_thread = 0;
  r.fiber = nullptr;
  drop(r.lo, r.hi);
#if VF_WRAP_TSAN
  r.fiber = __tsan_create_fiber(0);
#endif
  {
    guard g;
    insert(r);
  }
#if VF_WRAP_ASAN
  __asan_unpoison_memory_region(reinterpret_cast<void *>(r.lo), size);
#endif
  return __real_copp_make_fcontext_v2(sp, size, &trampoline);
}

transfer __wrap_copp_jump_fcontext_v2(fctx_t to, void *vp) {
  ensure_thread();
  void (*hook)(void *) = __atomic_load_n(&vf_before_jump, __ATOMIC_RELAXED);
  if (hook) hook(to);
  __atomic_fetch_add(&vf_switches, 1, __ATOMIC_RELAXED);
  rec r;
  bool ok;
  {
    guard g;
    ok = find(reinterpret_cast<uintptr_t>(to), r);
  }
  if (!ok) {
    // jumping to something that is no known stack: let it happen, the process is about to show why
    static const char m[] = "\nVF-FAIL key=jump-to-unknown-stack case=0 switch to a context that lies on no live stack\n";
    ssize_t w = write(1, m, sizeof(m) - 1);
    (void)w;
    _exit(3);
  }
#if VF_WRAP_ASAN
  if (*reinterpret_cast<unsigned char *>((reinterpret_cast<uintptr_t>(to) >> 3) + 0x7fff8000ULL) == 0xfd) {
    static const char m[] = "\nVF-FAIL key=jump-to-freed-stack case=0 switch to a context whose stack was freed\n";
    ssize_t w = write(1, m, sizeof(m) - 1);
    (void)w;
    _exit(3);
  }
  void *fake = nullptr;
  __sanitizer_start_switch_fiber(&fake, reinterpret_cast<void *>(r.lo), r.hi - r.lo);
#endif
#if VF_WRAP_TSAN
  __tsan_switch_to_fiber(r.fiber, 0);
#endif
  transfer ret = __real_copp_jump_fcontext_v2(to, vp);
#if VF_WRAP_ASAN
  __sanitizer_finish_switch_fiber(fake, nullptr, nullptr);
#endif
  return ret;
}
}
