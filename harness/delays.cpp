// Delay injection. Compiled without sanitizers and without -finstrument-functions.
#include <stdint.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

extern "C" void (*vf_before_jump)(void *to);

namespace {
uint64_t g_seed = 0;
unsigned g_one_in = 0;
__thread uint64_t tl_state = 0;
__thread uint64_t tl_epoch = 0;

uint64_t mix(uint64_t z) {
  z += 0x9e3779b97f4a7c15ULL;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
__attribute__((noinline)) uint64_t next_delay() {
  uint64_t seed = __atomic_load_n(&g_seed, __ATOMIC_RELAXED);
  if (tl_epoch != seed || tl_state == 0) {
    tl_epoch = seed;
    tl_state = mix(seed ^ mix((uint64_t)(uintptr_t)&tl_state)) | 1;
  }
  uint64_t x = tl_state;
  x ^= x << 13;
  x ^= x >> 7;
  x ^= x << 17;
  tl_state = x;
  return x;
}
void delay_now(uint64_t x) {
  unsigned k = (x >> 40) & 15;
  if (k < 6) {
    for (uint64_t i = 0, n = 20 + ((x >> 44) & 255); i < n; ++i) __asm__ __volatile__("pause" ::: "memory");
  } else if (k < 12) {
    syscall(SYS_sched_yield);
  } else if (k < 15) {
    for (int i = 0; i < 4; ++i) syscall(SYS_sched_yield);
  } else {
    struct timespec ts = {0, 20000 + (long)((x >> 44) & 65535)};
    syscall(SYS_nanosleep, &ts, nullptr);
  }
}
}  // namespace

namespace vf {
void maybe_delay() {
  unsigned one_in = __atomic_load_n(&g_one_in, __ATOMIC_RELAXED);
  if (__builtin_expect(one_in == 0, 1)) return;
  uint64_t x = next_delay();
  if ((x >> 8) % one_in) return;
  delay_now(x);
}
static void jump_delay(void *) {
  unsigned one_in = __atomic_load_n(&g_one_in, __ATOMIC_RELAXED);
  if (one_in == 0) return;
  uint64_t x = next_delay();
  // switches are rarer than calls: delay at them more often
  if ((x >> 8) % (one_in / 4 + 1)) return;
  delay_now(x);
}
void delays_on(uint64_t seed, unsigned one_in) {
  __atomic_store_n(&g_seed, seed | 1, __ATOMIC_RELAXED);
  __atomic_store_n(&g_one_in, one_in, __ATOMIC_RELAXED);
  __atomic_store_n(&vf_before_jump, one_in ? &jump_delay : nullptr, __ATOMIC_RELAXED);
}
void delays_off() {
  __atomic_store_n(&g_one_in, 0u, __ATOMIC_RELAXED);
  __atomic_store_n(&vf_before_jump, nullptr, __ATOMIC_RELAXED);
}
void spin_a_bit(uint64_t n) {
  for (uint64_t i = 0; i < n; ++i) __asm__ __volatile__("pause" ::: "memory");
}
}  // namespace vf

extern "C" {
void __cyg_profile_func_enter(void *, void *) { vf::maybe_delay(); }
void __cyg_profile_func_exit(void *, void *) { vf::maybe_delay(); }
}
