// C09: ids of stackful and C++20 tasks are unique and never zero.
#include "lib.h"

#include <libcopp/utils/uint64_id_allocator.h>
#include <libcotask/task.h>
#include <libcotask/task_promise.h>

#include <thread>

// In the uninstrumented build the allocator's clock is the harness's: it stands still for a while and then steps.
#if defined(VF_NOWRAP)
#  include <ctime>
#  include <time.h>
namespace {
std::atomic<uint64_t> fake_now{0};     // 0: the real clock
std::atomic<uint64_t> fake_left{0};    // readings until the next step
std::atomic<uint64_t> fake_patience{1};
}  // namespace
extern "C" time_t time(time_t *out) noexcept {
  time_t r;
  uint64_t n = fake_now.load(std::memory_order_relaxed);
  if (n) {
    if (fake_left.fetch_sub(1, std::memory_order_relaxed) == 1) {
      fake_left.store(fake_patience.load(std::memory_order_relaxed), std::memory_order_relaxed);
      fake_now.fetch_add(1, std::memory_order_relaxed);
    }
    r = (time_t)n;
  } else {
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    r = ts.tv_sec;
  }
  if (out) *out = r;
  return r;
}
#endif

namespace {
using u64 = uint64_t;
using alloc_id = copp::util::uint64_id_allocator;

void gate(std::atomic<int> &a, int n) {
  a.fetch_add(1, std::memory_order_acq_rel);
  for (int i = 0; a.load(std::memory_order_acquire) < n; ++i)
    if (i > 200) std::this_thread::yield();
}

// Atomic hash set of ids (open addressing), used by bursts which are too big to sort.
struct id_set {
  std::vector<std::atomic<u64>> slots;
  u64 mask;
  explicit id_set(size_t bits) : slots(size_t(1) << bits), mask((u64(1) << bits) - 1) {
    for (auto &s : slots) s.store(0, std::memory_order_relaxed);
  }
  void add(u64 id) {
    VF_CHECK(id != 0, "id-zero", "an id is zero");
    u64 h = id * 0x9e3779b97f4a7c15ULL;
    for (u64 i = (h >> 20) & mask, n = 0;; i = (i + 1) & mask, ++n) {
      u64 c = slots[i].load(std::memory_order_relaxed);
      if (c == 0 && slots[i].compare_exchange_strong(c, id, std::memory_order_relaxed)) return;
      VF_CHECK(c != id, "id-duplicate", "id %llx was given out twice", (unsigned long long)id);
      VF_CHECK(n <= mask, "harness", "id set is full");
    }
  }
};

struct task_macro {
  using stack_allocator_type = vf::talloc;
  using coroutine_type = copp::coroutine_context_container<vf::talloc>;
  using value_type = int;
};
using task_t = cotask::task<task_macro>;
using cxx_task = cotask::task_future<int, int>;
using cxx_task_void = cotask::task_future<void, void>;

cxx_task make_cxx(u64 *inside) {
  *inside = co_yield cxx_task::yield_task_id();
  co_return 3;
}
cxx_task_void make_cxx_void(u64 *inside) {
  *inside = co_yield cxx_task_void::yield_task_id();
  co_return;
}
}  // namespace

// raw allocator calls from a changing set of threads
VF_MODE(threads) {
  int rounds = (int)R.range(1, 3);
  std::vector<u64> all;
  std::mutex mu;
  vf::delays_on(R.next(), (unsigned)R.range(2, 40));
  for (int r = 0; r < rounds; ++r) {
    int n = (int)R.range(2, 6);
    std::atomic<int> g{0};
    std::vector<std::thread> th;
    for (int t = 0; t < n; ++t) {
      u64 cnt = R.chance(30) ? R.below(5) : R.below(400);
      bool twice = R.chance(30);
      th.emplace_back([&, cnt, twice] {
        gate(g, n);
        std::vector<u64> mine;
        for (u64 i = 0; i < cnt; ++i) {
          u64 id = alloc_id::allocate();
          mine.push_back(id);
          if (twice && i % 3 == 0) alloc_id::deallocate(id);
        }
        std::lock_guard<std::mutex> l(mu);
        all.insert(all.end(), mine.begin(), mine.end());
      });
    }
    for (auto &t : th) t.join();
  }
  for (int i = 0; i < 40; ++i) all.push_back(alloc_id::allocate());
  vf::delays_off();
  static std::unordered_set<u64> ever;  // across the cases of the process
  for (u64 id : all) {
    VF_CHECK(id != 0, "id-zero", "an id is zero");
    VF_CHECK(ever.insert(id).second, "id-duplicate", "id %llx was given out twice", (unsigned long long)id);
    vf::tr(id & 1023);
  }
  VF_COUNT_N("ids_allocated", all.size());
  if (all.size() > 100) vf::nontrivial();
  if (ever.size() > 3000000) ever.clear();
}

// task objects created, run, moved and dropped on many threads
VF_MODE(tasks) {
  int n = (int)R.range(2, 6);
  std::vector<u64> all;
  std::mutex mu;
  std::atomic<int> g{0};
  std::vector<std::thread> th;
  vf::delays_on(R.next(), (unsigned)R.range(2, 40));
  for (int t = 0; t < n; ++t) {
    u64 seed = R.next();
    th.emplace_back([&, seed] {
      vf::rng r(seed);
      auto book = std::make_shared<vf::stack_book>();
      std::vector<std::pair<u64, task_t::ptr_type>> keep;
      std::vector<std::pair<u64, cxx_task>> keepc;
      std::vector<u64> mine;
      gate(g, n);
      int k = (int)r.range(5, 60);
      for (int i = 0; i < k; ++i) {
        switch (r.below(4)) {
          case 0: {
            vf::talloc al(book);
            u64 inside = 0;
            auto p = task_t::create([&inside]() {
              inside = task_t::this_task()->get_id();
              task_t::this_task()->yield();
              VF_CHECK(inside == task_t::this_task()->get_id(), "id-changed", "id of a task changed while it ran");
              return 1;
            }, al, 64 * 1024);
            VF_CHECK(p, "create-failed", "task");
            u64 id = p->get_id();
            if (r.chance(70)) {
              p->start();
              VF_CHECK(inside == id, "id-changed", "id seen by the body %llx, by the handle %llx", (unsigned long long)inside, (unsigned long long)id);
              VF_CHECK(p->get_id() == id, "id-changed", "id after start");
              if (r.chance(50)) p->resume(); else p->kill(cotask::EN_TS_KILLED);
            }
            VF_CHECK(p->get_id() == id, "id-changed", "id after its end");
            mine.push_back(id);
            if (p->is_exiting() && r.chance(40)) keep.emplace_back(id, p);
            else if (!p->is_exiting() && inside) p->kill(cotask::EN_TS_KILLED);
            break;
          }
          case 1: {
            u64 inside = 0;
            cxx_task a = make_cxx(&inside);
            u64 id = a.get_id();
            mine.push_back(id);
            cxx_task b = a;
            VF_CHECK(b.get_id() == id, "id-changed", "id of a copied handle");
            cxx_task c = std::move(a);
            VF_CHECK(c.get_id() == id, "id-changed", "id of a moved handle");
            VF_CHECK(a.get_id() == 0, "id-changed", "id of an empty handle");
            if (r.chance(70)) {
              c.start();
              VF_CHECK(inside == id && c.get_id() == id, "id-changed", "id inside and after a C++20 task");
            } else {
              b.kill(true);
              VF_CHECK(inside == id && b.get_id() == id, "id-changed", "id inside a killed C++20 task");
            }
            if (r.chance(40)) keepc.emplace_back(id, std::move(b));
            break;
          }
          case 2: {
            u64 inside = 0;
            cxx_task_void a = make_cxx_void(&inside);
            u64 id = a.get_id();
            mine.push_back(id);
            a.start();
            VF_CHECK(inside == id && a.get_id() == id, "id-changed", "id inside and after a C++20 task");
            break;
          }
          default: {
            std::vector<std::shared_ptr<u64>> in;
            std::vector<cxx_task> v;
            for (int j = 0; j < 3; ++j) {
              in.push_back(std::make_shared<u64>(0));
              v.push_back(make_cxx(in.back().get()));
              mine.push_back(v.back().get_id());
            }
            std::swap(v[0], v[2]);
            for (int j = 0; j < 3; ++j)
              VF_CHECK(v[(size_t)j].get_id() == mine[mine.size() - 1 - (size_t)j], "id-changed", "id of a swapped handle");
            break;
          }
        }
      }
      for (auto &p : keep) VF_CHECK(p.second->get_id() == p.first, "id-changed", "id of a kept task");
      for (auto &p : keepc) VF_CHECK(p.second.get_id() == p.first, "id-changed", "id of a kept C++20 task");
      std::lock_guard<std::mutex> l(mu);
      all.insert(all.end(), mine.begin(), mine.end());
    });
  }
  for (auto &t : th) t.join();
  vf::delays_off();
  static std::unordered_set<u64> ever;
  for (u64 id : all) {
    VF_CHECK(id != 0, "id-zero", "an id is zero");
    VF_CHECK(ever.insert(id).second, "id-duplicate", "id %llx was given out twice", (unsigned long long)id);
  }
  vf::tr(all.size());
  VF_COUNT_N("task_ids_seen", all.size());
  if (all.size() > 20) vf::nontrivial();
}

// More ids than fit into one second of the allocator: all threads meet at the end of the sequence and wait for the clock.
VF_MODE(burst) {
#if defined(VF_NOWRAP)
  fake_patience.store(R.range(1, 400));
  fake_left.store(R.range(1, 400));
  static u64 clock_base = 1700000000;  // the clock never goes back
  clock_base = std::max(clock_base, fake_now.load()) + R.below(3) * R.below(1000000);
  fake_now.store(clock_base);
#endif
  int n = (int)R.range(3, 8);
  // 2^24 groups of 32 ids; the sampled part of each run of ids goes into a set
  u64 total = (u64(1) << 29) + (u64(1) << R.range(20, 27));
  std::atomic<u64> left{total};
  std::atomic<int> g{0};
  // one bit per id of the first second; of later ones the ids close to the start of the sequence and one in 64 others
  id_set set(25);
  std::vector<std::thread> th;
  std::vector<std::atomic<u64>> bits(u64(1) << 23);  // 2^29 bits for the first second
  u64 first = 0;
  for (int i = 0; i < 64; ++i) first = alloc_id::allocate();  // past what this thread had cached
  std::atomic<u64> whole{0};
  for (int t = 0; t < n; ++t) {
    th.emplace_back([&] {
      gate(g, n);
      u64 counted = 0, inwhole = 0, tick = 0;
      while (true) {
        u64 take = 4096;
        u64 have = left.load(std::memory_order_relaxed);
        do {
          if (have == 0) goto done;
          take = have < 4096 ? have : 4096;
        } while (!left.compare_exchange_weak(have, have - take, std::memory_order_relaxed));
        for (u64 i = 0; i < take; ++i) {
          u64 id = alloc_id::allocate();
          VF_CHECK(id != 0, "id-zero", "an id is zero");
          u64 sec = id >> 29, seq = id & ((u64(1) << 29) - 1);
          u64 f = first >> 29;
          if (sec == f) {
            u64 b = u64(1) << (seq & 63);
            u64 old = bits[seq >> 6].fetch_or(b, std::memory_order_relaxed);
            VF_CHECK(!(old & b), "id-duplicate", "id %llx was given out twice", (unsigned long long)id);
            ++inwhole;
          } else if (seq < (u64(1) << 22) || (seq & 63) == 5) {
            set.add(id);
            ++counted;
          }
        }
        if (((++tick) & 63) == 0) vf::beat();
      }
    done:
      whole.fetch_add(inwhole);
      VF_COUNT_N("ids_after_the_sequence_ended", counted);
    });
  }
  for (auto &t : th) t.join();
  VF_COUNT_N("ids_allocated", total);
  VF_COUNT_N("ids_before_the_sequence_ended", whole.load());
  VF_COUNT("sequence_ends_passed");
  vf::tr(whole.load());
  vf::nontrivial();
}
