// C22: future, poller and result objects against an optional-like model.
#include "lib.h"

#include <libcopp/future/future.h>

namespace {
using u64 = uint64_t;
namespace F = copp::future;

vf::ledger L;

// trivially copyable values of every size around the inline-storage limits
template <size_t N>
struct pod {
  unsigned char b[N];
};
template <size_t N>
bool operator==(const pod<N> &l, const pod<N> &r) {
  return 0 == memcmp(l.b, r.b, N);
}
struct alignas(32) aligned_pod {
  u64 v[2];
};
// larger than anything stored inline, with an alignment new has to be told about
struct alignas(256) wide {
  u64 v[64];
};
// the same, not trivially copyable
struct alignas(128) wide_tv {
  vf::tv v;
  const void *self;
  wide_tv() : v(&L, 0), self(this) {}
  explicit wide_tv(u64 x) : v(&L, x), self(this) {}
  wide_tv(u64 x, u64 y) : v(&L, x ^ y), self(this) {}
  wide_tv(wide_tv &&o) : v(std::move(o.v)), self(this) {}
  wide_tv(const wide_tv &o) : v(o.v), self(this) {}
  wide_tv &operator=(wide_tv &&o) {
    v = std::move(o.v);
    return *this;
  }
  wide_tv &operator=(const wide_tv &o) {
    v = o.v;
    return *this;
  }
};
// trivially copyable, but its constructor leaves a mark
struct marked {
  u64 v = 77;
  u64 w = 88;
};
struct move_only {
  vf::tv v;
  move_only() : v(&L, 0) {}
  explicit move_only(u64 x) : v(&L, x) {}
  move_only(u64 x, u64 y) : v(&L, x ^ y) {}
  move_only(move_only &&) = default;
  move_only &operator=(move_only &&) = default;
  move_only(const move_only &) = delete;
};
struct copy_only {
  vf::tv v;
  copy_only() : v(&L, 0) {}
  explicit copy_only(u64 x) : v(&L, x) {}
  copy_only(const copy_only &o) : v(o.v) {}
  copy_only &operator=(const copy_only &o) {
    v = o.v;
    return *this;
  }
};
struct base_obj {
  vf::tv v;
  explicit base_obj(u64 x) : v(&L, x) {}
  base_obj(u64 x, u64 y) : v(&L, x ^ y) {}
  virtual ~base_obj() {}
  virtual u64 get() const { return v.get(); }
};
struct pad_base {
  virtual ~pad_base() {}
  u64 pad = 5;
};
struct derived_obj : public pad_base, public base_obj {
  vf::tv w;
  explicit derived_obj(u64 x) : base_obj(x ^ 0x55), w(&L, 0x55) {}
  u64 get() const override { return v.get() ^ w.get(); }
};

// how to make and read each kind of value
template <class T>
struct kind;
template <size_t N>
struct kind<pod<N>> {
  static constexpr bool ledger = false;
  static pod<N> make(u64 x) {
    pod<N> p;
    for (size_t i = 0; i < N; ++i) p.b[i] = (unsigned char)(vf::mix64(x, i) | 1);
    return p;
  }
  static bool is(const pod<N> &p, u64 x) { return p == make(x); }
  static constexpr u64 mask = ~u64(0);
};
template <>
struct kind<char> {
  static constexpr bool ledger = false;
  static char make(u64 x) { return (char)x; }
  static bool is(char p, u64 x) { return p == (char)x; }
};
template <>
struct kind<u64> {
  static constexpr bool ledger = false;
  static u64 make(u64 x) { return x; }
  static bool is(u64 p, u64 x) { return p == x; }
};
template <>
struct kind<u64 *> {
  static constexpr bool ledger = false;
  static u64 *make(u64 x) { return (u64 *)(uintptr_t)x; }
  static bool is(u64 *p, u64 x) { return p == make(x); }
};
template <>
struct kind<aligned_pod> {
  static constexpr bool ledger = false;
  static aligned_pod make(u64 x) { return aligned_pod{{x, ~x}}; }
  static bool is(const aligned_pod &p, u64 x) { return p.v[0] == x && p.v[1] == ~x && ((uintptr_t)&p & 31) == 0; }
};
template <>
struct kind<wide> {
  static constexpr bool ledger = false;
  static wide make(u64 x) {
    wide w;
    for (u64 i = 0; i < 64; ++i) w.v[i] = x * (i + 1);
    return w;
  }
  static bool is(const wide &p, u64 x) {
    for (u64 i = 0; i < 64; ++i)
      if (p.v[i] != x * (i + 1)) return false;
    return ((uintptr_t)&p & 255) == 0;
  }
};
template <>
struct kind<wide_tv> {
  static constexpr bool ledger = true;
  static wide_tv make(u64 x) { return wide_tv(x); }
  static bool is(const wide_tv &p, u64 x) { return p.v.get() == x && p.self == &p && ((uintptr_t)&p & 127) == 0; }
};
template <>
struct kind<marked> {
  static constexpr bool ledger = false;
  static marked make(u64 x) {
    marked m;
    m.v = x;
    m.w = ~x;
    return m;
  }
  static bool is(const marked &p, u64 x) { return p.v == x && p.w == ~x; }
};
template <>
struct kind<vf::tv> {
  static constexpr bool ledger = true;
  static vf::tv make(u64 x) { return vf::tv(&L, x); }
  static bool is(const vf::tv &p, u64 x) { return p.has() && p.get() == x; }
};
template <>
struct kind<move_only> {
  static constexpr bool ledger = true;
  static move_only make(u64 x) { return move_only(x); }
  static bool is(const move_only &p, u64 x) { return p.v.has() && p.v.get() == x; }
};
template <>
struct kind<copy_only> {
  static constexpr bool ledger = true;
  static copy_only make(u64 x) { return copy_only(x); }
  static bool is(const copy_only &p, u64 x) { return p.v.has() && p.v.get() == x; }
};
template <>
struct kind<std::string> {
  static constexpr bool ledger = false;
  static std::string make(u64 x) { return std::string((size_t)(x % 60), (char)('a' + x % 26)) + std::to_string(x); }
  static bool is(const std::string &p, u64 x) { return p == make(x); }
};
template <>
struct kind<std::shared_ptr<u64>> {
  static constexpr bool ledger = false;
  static std::shared_ptr<u64> make(u64 x) { return std::make_shared<u64>(x); }
  static bool is(const std::shared_ptr<u64> &p, u64 x) { return p && *p == x && p.use_count() == 1; }
};
template <>
struct kind<std::unique_ptr<u64>> {
  static constexpr bool ledger = false;
  static std::unique_ptr<u64> make(u64 x) { return std::unique_ptr<u64>(new u64(x)); }
  static bool is(const std::unique_ptr<u64> &p, u64 x) { return p && *p == x; }
};
template <>
struct kind<base_obj> {
  static constexpr bool ledger = true;
  static bool is(const base_obj &p, u64 x) { return p.get() == x; }
};

struct slot_model {
  bool ready = false;
  u64 v = 0;
  bool multi = false;  // holds a derived object (two ledger entries)
};

template <class P>
void inside(const P *holder, const void *p, bool small, const char *what) {
  uintptr_t a = (uintptr_t)p, b = (uintptr_t)holder;
  bool in = a >= b && a < b + sizeof(P);
  if (small)
    VF_CHECK(in, "data-elsewhere", "%s: the pointer handed out lies outside of the holder which stores its value inline", what);
  else
    VF_CHECK(!in, "data-elsewhere", "%s: the pointer to an owned object lies inside its holder", what);
}

// ---- pollers and futures of one type ----------------------------------------------------------
enum { CAP_COPY = 1, CAP_MOVE = 2, CAP_UNIQUE = 4, CAP_ARGS = 8, CAP_VOID = 16, CAP_POLY = 32, CAP_SHARED = 64 };

template <class T, class P, int CAPS>
struct bench {
  using poller_t = F::poller<T, P>;
  using future_t = F::future<T, P>;
  static constexpr int NP = 4, NF = 2;

  struct pslot {
    alignas(256) unsigned char mem[sizeof(poller_t)];
    poller_t *p = nullptr;
    slot_model m;
  };
  pslot ps[NP];
  std::unique_ptr<future_t> fs[NF];
  slot_model fm[NF];

  static bool small() { return std::is_same<typename poller_t::ptr_type, std::unique_ptr<T, F::small_object_optimize_storage_deleter<T>>>::value; }

  void check_one(bool ready, bool pending, const void *data, const void *cdata, const slot_model &m, const char *what) {
    VF_EQ(ready, m.ready, "ready-wrong", what);
    VF_EQ(pending, !m.ready, "ready-wrong", what);
    VF_EQ(data != nullptr, m.ready, "data-wrong", what);
    VF_CHECK(data == cdata, "data-wrong", "%s: const and mutable access disagree", what);
  }
  void check() {
    int64_t live = 0;
    for (auto &s : ps) {
      if (!s.p) continue;
      const poller_t &c = *s.p;
      check_one(c.is_ready(), c.is_pending(), s.p->data(), c.data(), s.m, "poller");
      if (s.m.ready) {
        if constexpr ((CAPS & CAP_VOID) == 0) {
          inside(s.p, s.p->data(), small(), "poller");
          VF_CHECK(kind<T>::is(*c.data(), s.m.v), "value-wrong", "poller holds another value than the one put in");
        }
        VF_CHECK((const void *)s.p->raw_ptr().get() == (const void *)s.p->data(), "data-wrong", "raw_ptr and data disagree");
        live += s.m.multi ? 2 : 1;
      }
    }
    for (int i = 0; i < NF; ++i) {
      const future_t &c = *fs[i];
      check_one(c.is_ready(), c.is_pending(), fs[i]->data(), c.data(), fm[i], "future");
      if (fm[i].ready) {
        if constexpr ((CAPS & CAP_VOID) == 0) {
          inside(fs[i].get(), fs[i]->data(), small(), "future");
          VF_CHECK(kind<T>::is(*c.data(), fm[i].v), "value-wrong", "future holds another value than the one put in");
        }
        live += fm[i].multi ? 2 : 1;
      }
    }
    if constexpr ((CAPS & CAP_VOID) == 0) {
      if constexpr (kind<T>::ledger) VF_EQ(L.live.load(), live, "values-alive", "values alive");
    }
  }

  template <class DST, class PUT>
  void put(vf::rng &R, slot_model &m, DST &&, PUT &&assign) {
    u64 x = R.next();
    VF_COUNT("values_put");
    if constexpr ((CAPS & CAP_VOID) != 0) {
      bool on = R.chance(80);
      assign(on);
      m.ready = on;
    } else {
      std::vector<int> how;
      if (CAPS & CAP_COPY) how.push_back(0);
      if (CAPS & CAP_MOVE) how.push_back(1);
      if (CAPS & CAP_UNIQUE) how.push_back(2), how.push_back(3);
      if (CAPS & CAP_POLY) how.push_back(4);
      if (CAPS & CAP_SHARED) how.push_back(5);
      m.multi = false;
      switch (R.pick(how)) {
        case 0:
          if constexpr (CAPS & CAP_COPY) {
            T v = kind<T>::make(x);
            const T &cv = v;
            assign(cv);
            VF_CHECK(kind<T>::is(v, x), "source-changed", "putting a copy changed the original");
          }
          break;
        case 1:
          if constexpr (CAPS & CAP_MOVE) assign(kind<T>::make(x));
          break;
        case 2:
          if constexpr (CAPS & CAP_UNIQUE) {
            std::unique_ptr<T> u(new T(kind<T>::make(x)));
            assign(std::move(u));
            VF_CHECK(!u, "source-kept", "the pointer put in still owns its object");
          }
          break;
        case 3:
          if constexpr (CAPS & CAP_UNIQUE) {
            std::unique_ptr<T> u;
            assign(std::move(u));
            m.ready = false;
            return;
          }
          break;
        case 4:
          if constexpr (CAPS & CAP_POLY) {
            if (R.chance(60)) {
              std::unique_ptr<derived_obj> u(new derived_obj(x));
              assign(std::move(u));
              VF_CHECK(!u, "source-kept", "the pointer put in still owns its object");
              m.multi = true;
            } else {
              std::unique_ptr<T> u(new T(x));
              assign(std::move(u));
            }
          }
          break;
        case 5:
          if constexpr (CAPS & CAP_SHARED) {
            std::shared_ptr<T> u = std::make_shared<T>(kind<T>::make(x));
            assign(std::move(u));
          }
          break;
      }
      m.ready = true;
      m.v = x;
    }
  }

  void drop(int i) {
    if (ps[i].p) ps[i].p->~poller_t();
    ps[i].p = nullptr;
    memset(ps[i].mem, 0xdb, sizeof(ps[i].mem));
    ps[i].m = slot_model();
  }

  void run(vf::rng &R) {
    L.reset();
    for (int i = 0; i < NP; ++i) {
      memset(ps[i].mem, 0xdb, sizeof(ps[i].mem));
      if (R.chance(70)) ps[i].p = new (ps[i].mem) poller_t();
    }
    for (auto &f : fs) f.reset(new future_t());
    check();
    int n = (int)R.range(6, 40);
    int moved = 0, puts = 0;
    for (int k = 0; k < n; ++k) {
      int i = (int)R.below(NP), j = (int)R.below(NP), f = (int)R.below(NF);
      int op = (int)R.below(14);
      vf::tr((u64)op, (u64)(i * 16 + j));
      switch (op) {
        case 0:
        case 1:  // assign into a poller
          if (!ps[i].p) break;
          put(R, ps[i].m, *ps[i].p, [&](auto &&v) { *ps[i].p = std::forward<decltype(v)>(v); });
          ++puts;
          break;
        case 2:  // construct a poller with a value
          drop(i);
          put(R, ps[i].m, 0, [&](auto &&v) { ps[i].p = new (ps[i].mem) poller_t(std::forward<decltype(v)>(v)); });
          ++puts;
          break;
        case 3:
        case 4:  // put into a future
          put(R, fm[f], *fs[f], [&](auto &&v) { fs[f]->reset_data(std::forward<decltype(v)>(v)); });
          ++puts;
          break;
        case 5:  // move construct
          if (i == j || !ps[j].p) break;
          drop(i);
          ps[i].p = new (ps[i].mem) poller_t(std::move(*ps[j].p));
          ps[i].m = ps[j].m;
          ps[j].m = slot_model();
          ++moved;
          break;
        case 6:  // move assign
          if (i == j || !ps[j].p || !ps[i].p) break;
          *ps[i].p = std::move(*ps[j].p);
          ps[i].m = ps[j].m;
          ps[j].m = slot_model();
          ++moved;
          break;
        case 7:  // swap
          if (!ps[j].p || !ps[i].p) break;
          if (R.chance(50))
            ps[i].p->swap(*ps[j].p);
          else
            swap(*ps[i].p, *ps[j].p);
          std::swap(ps[i].m, ps[j].m);
          ++moved;
          break;
        case 8:
          if (!ps[i].p) break;
          ps[i].p->reset();
          ps[i].m = slot_model();
          break;
        case 9:
          fs[f]->reset_data();
          fm[f] = slot_model();
          break;
        case 10:  // out of and into a future
          if (!ps[i].p) break;
          if (R.chance(50)) {
            fs[f]->reset_data(std::move(*ps[i].p));
            fm[f] = ps[i].m;
            ps[i].m = slot_model();
          } else if (R.chance(50)) {
            *ps[i].p = std::move(fs[f]->poll_data());
            ps[i].m = fm[f];
            fm[f] = slot_model();
          } else {
            ps[i].p->swap(fs[f]->poll_data());
            std::swap(ps[i].m, fm[f]);
          }
          ++moved;
          break;
        case 11:  // swap two futures' data
          fs[0]->poll_data().swap(fs[1]->poll_data());
          std::swap(fm[0], fm[1]);
          break;
        case 12:
          drop(i);
          if (R.chance(60)) ps[i].p = new (ps[i].mem) poller_t();
          break;
        case 13:  // replace a future
          fs[f].reset(new future_t());
          fm[f] = slot_model();
          break;
      }
      check();
    }
    for (int i = 0; i < NP; ++i) drop(i);
    for (auto &f : fs) f.reset();
    VF_EQ(L.live.load(), 0, "values-alive", "values alive after all holders are gone");
    VF_COUNT_N("moves_and_swaps", moved);
    if (puts > 1 && moved > 0) vf::nontrivial();
  }
};

template <class T, int CAPS, class P = typename F::poll_storage_ptr_selector<T>::type>
void go(vf::rng &R) {
  bench<T, P, CAPS> b;
  b.run(R);
}
constexpr int POD = CAP_COPY | CAP_MOVE | CAP_UNIQUE;

// ---- results ----------------------------------------------------------------------------------
template <class TOK, class TERR>
struct rbench {
  using res = F::result_type<TOK, TERR>;
  static constexpr bool trivial = F::default_compact_storage<TOK>::value && F::default_compact_storage<TERR>::value;
  struct rm {
    int mode = 2;  // 0 success 1 error 2 none
    u64 v = 0;
  };
  static constexpr int N = 4;
  struct slot {
    alignas(256) unsigned char mem[sizeof(res)];
    res *p = nullptr;
    rm m;
  };
  slot ss[N];
  using store = typename res::storage_type;  // the object itself or a unique_ptr
  using box = F::poller<res>;
  box boxes[2];
  rm bm[2];

  void look(const res &c, res &r, const rm &m, const char *what) {
    VF_EQ(c.is_success(), m.mode == 0, "result-mode", what);
    VF_EQ(c.is_error(), m.mode == 1, "result-mode", what);
    VF_EQ(c.get_success() != nullptr, m.mode == 0, "result-mode", what);
    VF_EQ(c.get_error() != nullptr, m.mode == 1, "result-mode", what);
    VF_CHECK((const void *)c.get_success() == (const void *)r.get_success() && (const void *)c.get_error() == (const void *)r.get_error(), "data-wrong", "const and mutable access disagree");
    if (m.mode == 0) {
      VF_CHECK(kind<TOK>::is(*c.get_success(), m.v), "value-wrong", "%s: success value is another one than put in", what);
      inside(&c, c.get_success(), F::default_compact_storage<TOK>::value, what);
    }
    if (m.mode == 1) {
      VF_CHECK(kind<TERR>::is(*c.get_error(), m.v), "value-wrong", "%s: error value is another one than put in", what);
      inside(&c, c.get_error(), F::default_compact_storage<TERR>::value, what);
    }
  }
  void check() {
    int64_t live = 0;
    auto count = [&](const rm &m) {
      if (m.mode == 0 && kind<TOK>::ledger) ++live;
      if (m.mode == 1 && kind<TERR>::ledger) ++live;
    };
    for (auto &s : ss)
      if (s.p) {
        look(*s.p, *s.p, s.m, "result");
        count(s.m);
      }
    for (int i = 0; i < 2; ++i) {
      VF_EQ(boxes[i].is_ready(), bm[i].mode != 2, "ready-wrong", "poller of a result");
      if (boxes[i].is_ready()) {
        look(*boxes[i].data(), *boxes[i].data(), bm[i], "result in a poller");
        count(bm[i]);
      }
    }
    VF_EQ(L.live.load(), live, "values-alive", "values alive");
  }
  void drop(int i) {
    if (ss[i].p) ss[i].p->~res();
    ss[i].p = nullptr;
    memset(ss[i].mem, 0xdb, sizeof(ss[i].mem));
    ss[i].m = rm();
  }
  void run(vf::rng &R) {
    L.reset();
    for (int i = 0; i < N; ++i) drop(i);
    int n = (int)R.range(6, 40), moved = 0, puts = 0;
    for (int k = 0; k < n; ++k) {
      int i = (int)R.below(N), j = (int)R.below(N), b = (int)R.below(2);
      int op = (int)R.below(9);
      u64 x = R.next();
      vf::tr((u64)op, (u64)(i * 16 + j));
      switch (op) {
        case 0:
        case 1:
          drop(i);
          if (op == 0)
            ss[i].p = new (ss[i].mem) res(res::create_success(kind<TOK>::make(x)));
          else
            ss[i].p = new (ss[i].mem) res(res::create_error(kind<TERR>::make(x)));
          ss[i].m = rm{op, x};
          ++puts;
          break;
        case 2:  // assign a fresh one
          if (!ss[i].p) break;
          if (x & 1)
            *ss[i].p = res::create_success(kind<TOK>::make(x));
          else
            *ss[i].p = res::create_error(kind<TERR>::make(x));
          ss[i].m = rm{(x & 1) ? 0 : 1, x};
          ++puts;
          break;
        case 3:  // move construct
          if (i == j || !ss[j].p) break;
          drop(i);
          ss[i].p = new (ss[i].mem) res(std::move(*ss[j].p));
          ss[i].m = ss[j].m;
          if (!trivial) ss[j].m = rm();
          ++moved;
          break;
        case 4:  // move assign
          if (i == j || !ss[j].p || !ss[i].p) break;
          *ss[i].p = std::move(*ss[j].p);
          ss[i].m = ss[j].m;
          if (!trivial) ss[j].m = rm();
          ++moved;
          break;
        case 5:  // swap
          if (!ss[j].p || !ss[i].p) break;
          swap(*ss[i].p, *ss[j].p);
          std::swap(ss[i].m, ss[j].m);
          ++moved;
          break;
        case 6:
          if (x & 1)
            boxes[b] = res::make_success(kind<TOK>::make(x));
          else
            boxes[b] = res::make_error(kind<TERR>::make(x));
          bm[b] = rm{(x & 1) ? 0 : 1, x};
          ++puts;
          break;
        case 7:
          if (x & 1)
            boxes[0].swap(boxes[1]), std::swap(bm[0], bm[1]);
          else {
            boxes[0] = std::move(boxes[1]);
            bm[0] = bm[1];
            bm[1] = rm();
          }
          ++moved;
          break;
        case 8:
          if (x & 1)
            drop(i);
          else {
            boxes[b].reset();
            bm[b] = rm();
          }
          break;
      }
      check();
    }
    for (int i = 0; i < N; ++i) drop(i);
    for (auto &p : boxes) p.reset();
    VF_EQ(L.live.load(), 0, "values-alive", "values alive after all holders are gone");
    VF_COUNT_N("results_made", puts);
    VF_COUNT_N("moves_and_swaps", moved);
    if (puts > 1 && moved > 0) vf::nontrivial();
  }
};
template <class A, class B>
void rgo(vf::rng &R) {
  rbench<A, B> b;
  b.run(R);
}
}  // namespace

VF_MODE(value) {
  using fn = void (*)(vf::rng &);
  static const fn all[] = {
      &go<char, POD>, &go<u64, POD>, &go<u64 *, POD & ~CAP_UNIQUE>, &go<pod<1>, POD>, &go<pod<3>, POD>, &go<pod<8>, POD>, &go<pod<16>, POD>, &go<pod<24>, POD>,
      &go<pod<31>, POD>, &go<pod<32>, POD>, &go<pod<33>, POD>, &go<pod<40>, POD>, &go<pod<64>, POD>, &go<pod<200>, POD>, &go<pod<5000>, POD>, &go<wide, POD>, &go<wide_tv, POD>, &go<aligned_pod, POD>, &go<marked, POD>,
      &go<vf::tv, POD>, &go<vf::tv, POD>, &go<move_only, CAP_MOVE | CAP_UNIQUE>, &go<copy_only, CAP_COPY | CAP_UNIQUE>, &go<std::string, POD>,
      &go<std::shared_ptr<u64>, CAP_MOVE>, &go<std::unique_ptr<u64>, CAP_MOVE>, &go<void, CAP_VOID>, &go<base_obj, CAP_POLY>,
      &go<vf::tv, CAP_COPY | CAP_MOVE | CAP_SHARED, std::shared_ptr<vf::tv>>,
  };
  size_t w = R.below(sizeof(all) / sizeof(all[0]));
  vf::tr(w);
  all[w](R);
}
VF_MODE(result) {
  using fn = void (*)(vf::rng &);
  static const fn all[] = {
      &rgo<u64, char>, &rgo<char, u64>, &rgo<pod<32>, char>, &rgo<pod<3>, pod<24>>, &rgo<pod<24>, pod<32>>, &rgo<u64, u64>, &rgo<pod<32>, pod<33>>,
      &rgo<pod<40>, u64>, &rgo<vf::tv, char>, &rgo<u64, vf::tv>, &rgo<vf::tv, vf::tv>, &rgo<vf::tv, copy_only>, &rgo<move_only, pod<8>>, &rgo<move_only, move_only>,
      &rgo<std::string, u64>, &rgo<pod<64>, std::string>, &rgo<aligned_pod, pod<5000>>, &rgo<wide, wide_tv>, &rgo<wide_tv, u64>,
  };
  size_t w = R.below(sizeof(all) / sizeof(all[0]));
  vf::tr(w + 100);
  all[w](R);
}
