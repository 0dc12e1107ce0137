// C23: intrusive pointer, spin lock, lock guards and the integer atomics beneath them.
#include <libcopp/utils/atomic_int_type.h>
#include <libcopp/utils/intrusive_ptr.h>
#include <libcopp/utils/lock_holder.h>
#include <libcopp/utils/spin_lock.h>

#include <barrier>
#include <thread>

#include "verif.h"

namespace U = LIBCOPP_COPP_NAMESPACE_ID::util;
namespace L = LIBCOPP_COPP_NAMESPACE_ID::util::lock;

namespace {

// ---- objects ---------------------------------------------------------------------------------
struct book {  // what happened to each object
  std::atomic<int> state{0};  // 0 unused, 1 alive, 2 destroyed
};
constexpr uint32_t MAGIC = 0x600d0b1e;

class obase;
void intrusive_ptr_add_ref(obase *p);
void intrusive_ptr_release(obase *p);
class obase {
 public:
  explicit obase(book *b, uint64_t id) : b_(b), id_(id) {
    LIBCOPP_UTIL_INTRUSIVE_PTR_REF_MEMBER_INIT();
    b_->state.store(1, std::memory_order_relaxed);
  }
  virtual ~obase() {
    VF_CHECK(magic_ == MAGIC, "object-destroyed-twice", "object %llu destroyed while not alive", (unsigned long long)id_);
    uint64_t s = 0;
    for (auto &p : mark_) s += p;  // read what every former owner wrote
    sum_ = s;
    magic_ = 0xdead;
    int was = b_->state.exchange(2, std::memory_order_relaxed);
    VF_EQ(was, 1, "object-destroyed-twice", "state at destruction");
    VF_EQ(s, marks_expected_ ? marks_expected_->load(std::memory_order_relaxed) : s, "owner-write-lost", "writes of owners seen by the destructor");
  }
  void check(uint64_t id) const {
    VF_CHECK(magic_ == MAGIC, "object-dead", "object %llu used after its end", (unsigned long long)id);
    VF_EQ(id_, id, "object-wrong", "object id");
  }
  uint32_t magic_ = MAGIC;
  book *b_;
  uint64_t id_;
  uint64_t mark_[8] = {};  // plain, one cell per thread
  uint64_t sum_ = 0;
  std::atomic<uint64_t> *marks_expected_ = nullptr;
  U::intrusive_ptr<obase> next_;  // objects may own each other (only later ones: no cycles)
  LIBCOPP_UTIL_INTRUSIVE_PTR_REF_MEMBER_DECL(obase)
};
LIBCOPP_UTIL_INTRUSIVE_PTR_REF_FN_DEFI(obase)

struct other {
  virtual ~other() {}
  uint64_t pad[3] = {1, 2, 3};
};
class oderived : public other, public obase {
 public:
  using obase::obase;
  ~oderived() override { VF_EQ(pad[2], 3, "object-dead", "second base"); }
};
class oleaf final : public oderived {
 public:
  oleaf(book *b, uint64_t id) : oderived(b, id), extra_(new uint64_t(id)) {}
  ~oleaf() override { VF_EQ(*extra_, id_, "object-dead", "leaf field"); }
  std::unique_ptr<uint64_t> extra_;
};

using pb = U::intrusive_ptr<obase>;
using pd = U::intrusive_ptr<oderived>;
using pl = U::intrusive_ptr<oleaf>;
using pcb = U::intrusive_ptr<const obase>;
using pcd = U::intrusive_ptr<const oderived>;

// const objects: the count is taken on the object itself
void intrusive_ptr_add_ref(const obase *p) { intrusive_ptr_add_ref(const_cast<obase *>(p)); }
void intrusive_ptr_release(const obase *p) { intrusive_ptr_release(const_cast<obase *>(p)); }

struct ptr_world {
  vf::rng &R;
  static constexpr int NO = 40, NS = 4;
  std::vector<std::unique_ptr<book>> books;
  std::vector<obase *> objs;   // by id
  std::vector<int> kindof;     // 0 obase 1 oderived 2 oleaf
  std::vector<int> raw;        // references held by hand
  std::vector<int> next;       // object owned by this one or -1
  template <class P>
  struct slot {
    alignas(64) unsigned char mem[sizeof(P)];
    P *p = nullptr;
    int m = -1;  // id or -1
  };
  slot<pb> sb[NS];
  slot<pd> sd[NS];
  slot<pl> sl[NS];
  slot<pcb> sc[NS];
  slot<pcd> se[NS];
  int moves = 0, ops = 0, ends = 0;
  explicit ptr_world(vf::rng &r) : R(r) {}

  int mk(int kind) {
    int id = (int)objs.size();
    books.emplace_back(new book);
    obase *o = nullptr;
    if (kind == 0) o = new obase(books.back().get(), (uint64_t)id);
    if (kind == 1) o = new oderived(books.back().get(), (uint64_t)id);
    if (kind == 2) o = new oleaf(books.back().get(), (uint64_t)id);
    objs.push_back(o);
    kindof.push_back(kind);
    raw.push_back(0);
    next.push_back(-1);
    VF_COUNT("objects_made");
    return id;
  }
  obase *B(int id) { return id < 0 ? nullptr : objs[(size_t)id]; }
  oderived *D(int id) { return id < 0 ? nullptr : static_cast<oderived *>(objs[(size_t)id]); }
  oleaf *LF(int id) { return id < 0 ? nullptr : static_cast<oleaf *>(objs[(size_t)id]); }
  template <class P>
  typename P::element_type *as(int id) {
    if (id < 0) return nullptr;
    if constexpr (std::is_same_v<P, pb> || std::is_same_v<P, pcb>)
      return B(id);
    else if constexpr (std::is_same_v<P, pd> || std::is_same_v<P, pcd>)
      return D(id);
    else
      return LF(id);
  }
  template <class P>
  static constexpr int need() {
    if constexpr (std::is_same_v<P, pb> || std::is_same_v<P, pcb>)
      return 0;
    else if constexpr (std::is_same_v<P, pd> || std::is_same_v<P, pcd>)
      return 1;
    else
      return 2;
  }
  template <class F>
  void each(F &&f) {
    for (auto &s : sb) f(s);
    for (auto &s : sd) f(s);
    for (auto &s : sl) f(s);
    for (auto &s : sc) f(s);
    for (auto &s : se) f(s);
  }
  void check() {
    std::vector<int> refs(raw);
    each([&](auto &s) {
      if (s.p && s.m >= 0) ++refs[(size_t)s.m];
    });
    each([&](auto &s) {
      using P = std::decay_t<decltype(*s.p)>;
      if (!s.p) return;
      const P &p = *s.p;
      VF_CHECK((const void *)p.get() == (const void *)as<P>(s.m), "pointer-wrong", "pointer refers to %p instead of object %d", (const void *)p.get(), s.m);
      VF_EQ((bool)p, s.m >= 0, "pointer-wrong", "pointer tests true");
      VF_EQ(!p, s.m < 0, "pointer-wrong", "operator!");
      VF_EQ(p == nullptr, s.m < 0, "pointer-wrong", "comparison with null");
      VF_EQ(nullptr == p, s.m < 0, "pointer-wrong", "comparison with null");
      if (s.m >= 0) {
        p->check((uint64_t)s.m);
        (*p).check((uint64_t)s.m);
        VF_CHECK(get_pointer(p) == p.get(), "pointer-wrong", "get_pointer");
      }
    });
    // an object owns only later ones: one pass in order of age settles who is alive
    for (size_t i = 0; i < objs.size(); ++i) {
      if (refs[i] == 0)
        next[i] = -1;
      else if (next[i] >= 0)
        ++refs[(size_t)next[i]];
      int st = books[i]->state.load();
      VF_EQ(st, refs[i] > 0 ? 1 : 2, "object-life", "object state (1 alive, 2 destroyed)");
      if (st == 1) VF_CHECK(objs[i]->next_.get() == B(next[i]), "pointer-wrong", "pointer inside an object refers to another object");
      if (st == 1) VF_EQ(objs[i]->use_count(), refs[i], "use-count", "use count");
    }
  }
  // pick an object which may be held by P: an existing one with a reference, a new one, or none
  template <class P>
  int some() {
    if (R.chance(15)) return -1;
    if (R.chance(35) && objs.size() < NO) return mk((int)R.range(need<P>(), 2));
    for (int t = 0; t < 8 && !objs.empty(); ++t) {
      int id = (int)R.below(objs.size());
      if (kindof[(size_t)id] >= need<P>() && books[(size_t)id]->state.load() == 1) return id;
    }
    if (objs.size() < NO) return mk((int)R.range(need<P>(), 2));
    return -1;
  }
  template <class P>
  slot<P> *arr() {
    if constexpr (std::is_same_v<P, pb>) return sb;
    if constexpr (std::is_same_v<P, pd>) return sd;
    if constexpr (std::is_same_v<P, pl>) return sl;
    if constexpr (std::is_same_v<P, pcb>) return sc;
    if constexpr (std::is_same_v<P, pcd>) return se;
  }
  // a live slot of a random type convertible to P; f(slot)
  template <class P, class Q, class F>
  bool from1(int &k, F &&f) {
    if constexpr (std::is_convertible_v<typename Q::element_type *, typename P::element_type *>) {
      if (k-- == 0) {
        auto &s = arr<Q>()[R.below(NS)];
        if (s.p) f(s);
        return true;
      }
    }
    return false;
  }
  template <class P, class F>
  void from(F &&f) {
    int k = (int)R.below(5);
    (void)(from1<P, pb>(k, f) || from1<P, pd>(k, f) || from1<P, pl>(k, f) || from1<P, pcb>(k, f) || from1<P, pcd>(k, f));
  }
  template <class P>
  void op() {
    slot<P> &s = arr<P>()[R.below(NS)];
    ++ops;
    if (!s.p) {
      switch (R.below(6)) {
        case 0:
          s.p = new (s.mem) P();
          s.m = -1;
          break;
        case 1: {
          int id = some<P>();
          s.p = new (s.mem) P(as<P>(id));
          s.m = id;
          break;
        }
        case 2: {  // adopt a reference held by hand
          int id = some<P>();
          if (id >= 0 && raw[(size_t)id] == 0) {
            intrusive_ptr_add_ref(B(id));
            ++raw[(size_t)id];
          }
          s.p = new (s.mem) P(as<P>(id), false);
          s.m = id;
          if (id >= 0) --raw[(size_t)id];
          break;
        }
        case 3:
          from<P>([&](auto &q) {
            s.p = new (s.mem) P(*q.p);
            s.m = q.m;
            VF_COUNT("pointer_copies");
          });
          break;
        case 4:
          from<P>([&](auto &q) {
            s.p = new (s.mem) P(std::move(*q.p));
            s.m = q.m;
            q.m = -1;
            ++moves;
            VF_COUNT("pointer_moves");
          });
          break;
        case 5: {  // casts
          VF_COUNT("pointer_casts");
          auto &q = sb[R.below(NS)];
          if (!q.p) break;
          if constexpr (std::is_same_v<P, pd>) {
            if (q.m < 0 || kindof[(size_t)q.m] >= 1) {
              s.p = new (s.mem) P(U::static_pointer_cast<oderived>(*q.p));
              s.m = q.m;
            }
          } else if constexpr (std::is_same_v<P, pl>) {
#if defined(LIBCOPP_MACRO_ENABLE_RTTI) && LIBCOPP_MACRO_ENABLE_RTTI
            s.p = new (s.mem) P(U::dynamic_pointer_cast<oleaf>(*q.p));
            s.m = q.m >= 0 && kindof[(size_t)q.m] == 2 ? q.m : -1;
#endif
          } else if constexpr (std::is_same_v<P, pb>) {
            auto &c = sc[R.below(NS)];
            if (c.p) {
              s.p = new (s.mem) P(U::const_pointer_cast<obase>(*c.p));
              s.m = c.m;
            }
          }
          break;
        }
      }
      return;
    }
    P &p = *s.p;
    switch (R.below(16)) {
      case 13: {  // one object owns another
        if (s.m < 0) break;
        auto &q = sb[R.below(NS)];
        if (!q.p || q.m <= s.m) break;
        obase *o = objs[(size_t)s.m];
        next[(size_t)s.m] = q.m;
        if (R.chance(50)) {
          o->next_ = *q.p;
        } else {
          o->next_ = std::move(*q.p);
          q.m = -1;
        }
        VF_COUNT("objects_owning");
        break;
      }
      case 14:
      case 15:
        if constexpr (std::is_same_v<P, pb> || std::is_same_v<P, pcb>) {  // walk down the chain
          if (s.m < 0) break;
          obase *o = objs[(size_t)s.m];
          int id = s.m, to = next[(size_t)id];
          VF_COUNT("chain_walks");
          switch (R.below(5)) {
            case 0:
            case 1:
              if constexpr (std::is_same_v<P, pb>)
                p = std::move(o->next_);
              else
                p = P(std::move(o->next_));
              next[(size_t)id] = -1;
              s.m = to;
              break;
            case 2:
              p = o->next_;
              s.m = to;
              break;
            case 3:
              p.reset(o->next_.get());
              s.m = to;
              break;
            case 4:
              o->next_.reset();
              next[(size_t)id] = -1;
              break;
          }
        }
        break;
      case 0:
        p.~P();
        s.p = nullptr;
        s.m = -1;
        break;
      case 1:
        p.reset();
        s.m = -1;
        break;
      case 2: {
        int id = some<P>();
        p.reset(as<P>(id));
        s.m = id;
        break;
      }
      case 3: {
        int id = some<P>();
        bool add = R.chance(50);
        if (!add && id >= 0) {
          if (raw[(size_t)id] == 0) {
            intrusive_ptr_add_ref(B(id));
            ++raw[(size_t)id];
          }
          --raw[(size_t)id];
        }
        p.reset(as<P>(id), add);
        s.m = id;
        break;
      }
      case 4:  // reset to itself
        p.reset(p.get());
        break;
      case 5:
        from<P>([&](auto &q) {
          p = *q.p;  // may be the same object or the very same pointer
          s.m = q.m;
          VF_COUNT("pointer_copies");
        });
        break;
      case 6:
        from<P>([&](auto &q) {
          if constexpr (std::is_same_v<std::decay_t<decltype(*q.p)>, P>) {
            int id = q.m;
            p = std::move(*q.p);
            if ((void *)&q != (void *)&s) q.m = -1;
            s.m = id;
            ++moves;
          } else {
            int id = q.m;
            P tmp(std::move(*q.p));
            q.m = -1;
            p = std::move(tmp);
            VF_CHECK(tmp.get() == nullptr, "pointer-wrong", "moved-from pointer still refers to an object");
            s.m = id;
            ++moves;
          }
          VF_COUNT("pointer_moves");
        });
        break;
      case 7: {
        auto &q = arr<P>()[R.below(NS)];
        if (!q.p) break;
        if (R.chance(50))
          p.swap(*q.p);
        else
          swap(p, *q.p);
        std::swap(s.m, q.m);
        VF_COUNT("pointer_swaps");
        break;
      }
      case 8: {
        auto *r = p.detach();
        VF_CHECK((const void *)r == (const void *)as<P>(s.m), "pointer-wrong", "detach returned another pointer");
        if (s.m >= 0) ++raw[(size_t)s.m];
        s.m = -1;
        VF_COUNT("pointer_detached");
        break;
      }
      case 9:
        if constexpr (!std::is_const_v<typename P::element_type>) {
          if (objs.size() < NO) {
            int id = mk((int)R.range(need<P>(), 2));
            std::unique_ptr<typename P::element_type> u(as<P>(id));
            p = std::move(u);
            VF_CHECK(!u, "pointer-wrong", "unique_ptr kept the object");
            s.m = id;
          }
        }
        break;
      case 10: {  // give back a reference held by hand
        for (size_t i = 0; i < raw.size(); ++i)
          if (raw[i] > 0) {
            --raw[i];
            intrusive_ptr_release(objs[i]);
            break;
          }
        break;
      }
      case 11: {  // comparisons
        auto &q = arr<P>()[R.below(NS)];
        if (!q.p) break;
        auto *a = p.get();
        auto *b = q.p->get();
        std::less<const void *> lt;
        VF_EQ(p == *q.p, a == b, "compare", "==");
        VF_EQ(p != *q.p, a != b, "compare", "!=");
        VF_EQ(p < *q.p, lt(a, b), "compare", "<");
        VF_EQ(p > *q.p, lt(b, a), "compare", ">");
        VF_EQ(p <= *q.p, !lt(b, a), "compare", "<=");
        VF_EQ(p >= *q.p, !lt(a, b), "compare", ">=");
        VF_EQ(p == b, a == b, "compare", "== raw");
        VF_EQ(b == p, a == b, "compare", "raw ==");
        VF_COUNT("pointer_compares");
        break;
      }
      case 12: {  // by value through a call
        auto f = [](P x) { return x; };
        P y = f(p);
        VF_CHECK(y.get() == p.get(), "pointer-wrong", "returned another pointer");
        if (s.m >= 0) {
          int want = raw[(size_t)s.m] + 1;
          for (size_t i = 0; i < objs.size(); ++i) want += books[i]->state.load() == 1 && next[i] == s.m;
          each([&](auto &t) { want += t.p && t.m == s.m; });
          VF_EQ(y->use_count(), want, "use-count", "use count with one more pointer");
        }
        break;
      }
    }
  }
  void run(int n) {
    for (int i = 0; i < n; ++i) {
      switch (R.below(5)) {
        case 0: op<pb>(); break;
        case 1: op<pd>(); break;
        case 2: op<pl>(); break;
        case 3: op<pcb>(); break;
        case 4: op<pcd>(); break;
      }
      settle();
      check();
      uint64_t h = 0;
      each([&](auto &s) { h = vf::mix64(h, (uint64_t)(s.p ? s.m + 2 : 0)); });
      vf::tr(h);
    }
    each([&](auto &s) {
      using P = std::decay_t<decltype(*s.p)>;
      if (s.p) s.p->~P();
      s.p = nullptr;
      s.m = -1;
    });
    for (size_t i = 0; i < raw.size(); ++i)
      while (raw[i] > 0) {
        --raw[i];
        intrusive_ptr_release(objs[i]);
      }
    settle();
    check();
    for (auto &b : books) VF_EQ(b->state.load(), 2, "object-leaked", "object state at the end");
    VF_COUNT_N("pointer_ops", (uint64_t)ops);
    if (moves > 1 && objs.size() > 2) vf::nontrivial();
  }
  // objects created in an op which nothing took: take a reference and drop it
  void settle() {
    for (size_t i = 0; i < objs.size(); ++i) {
      if (books[i]->state.load() != 1) continue;
      int refs = raw[i];
      for (size_t j = 0; j < i; ++j) refs += next[j] == (int)i;
      each([&](auto &s) { refs += s.p && s.m == (int)i; });
      if (refs == 0 && objs[i]->use_count() == 0) {
        pb tmp(objs[i]);
      }
    }
  }
};
}  // namespace

VF_MODE(ptr) {
  ptr_world w(R);
  w.run((int)R.range(8, 60));
}

// ---- the pointer from many threads ---------------------------------------------------------------
VF_MODE(ptrmt) {
  int nt = (int)R.range(2, 5), no = (int)R.range(1, 4), rounds = (int)R.range(1, 3);
  std::vector<book> books((size_t)no);
  std::vector<std::atomic<uint64_t>> marks((size_t)no);
  for (auto &m : marks) m = 0;
  struct shared {
    L::spin_lock lk;
    pb p;
    int id = -1;
  };
  std::vector<shared> box(3);
  std::vector<pb> init;
  for (int i = 0; i < no; ++i) {
    obase *o = i & 1 ? new oleaf(&books[(size_t)i], (uint64_t)i) : new obase(&books[(size_t)i], (uint64_t)i);
    o->marks_expected_ = &marks[(size_t)i];
    init.emplace_back(o);
  }
  box[0].p = init[0];
  box[0].id = 0;
  std::vector<uint64_t> seeds;
  for (int t = 0; t < nt; ++t) seeds.push_back(R.next());
  if (R.chance(70)) vf::delays_on(R.next(), (unsigned)R.range(3, 40));
  std::barrier<> bar(nt);
  // what each thread holds at the end of a round, to compare use counts while nothing runs
  std::vector<std::vector<int>> held((size_t)nt, std::vector<int>((size_t)no, 0));
  std::vector<std::thread> th;
  bool drop_main = R.chance(50);
  std::atomic<uint64_t> trace{0};
  std::vector<std::vector<pb>> start((size_t)nt);
  for (int t = 0; t < nt; ++t)
    for (int i = 0; i < no; ++i)
      if (R.chance(70)) start[(size_t)t].push_back(init[(size_t)i]);
  if (drop_main) init.clear();
  for (int t = 0; t < nt; ++t)
    th.emplace_back([&, t] {
      vf::rng r(seeds[(size_t)t]);
      std::vector<pb> mine = std::move(start[(size_t)t]);
      start[(size_t)t].clear();
      auto touch = [&](pb &p) {  // a plain write per owner: only this thread writes this cell
        if (!p) return;
        p->check(p->id_);
        ++p->mark_[t];
        marks[p->id_].fetch_add(1, std::memory_order_relaxed);
      };
      for (int rd = 0; rd < rounds; ++rd) {
        bar.arrive_and_wait();
        int n = (int)r.range(5, 40);
        for (int k = 0; k < n; ++k) {
          VF_COUNT("mt_pointer_ops");
          switch (r.below(6)) {
            case 0:
              if (!mine.empty()) {
                pb c(r.pick(mine));
                touch(c);
                mine.push_back(c);
              }
              break;
            case 1:
              if (!mine.empty()) {
                size_t i = r.below(mine.size());
                touch(mine[i]);
                mine.erase(mine.begin() + (long)i);
              }
              break;
            case 2: {  // publish
              auto &b = box[r.below(3)];
              if (mine.empty()) break;
              pb c(r.pick(mine));
              touch(c);
              int id = c ? (int)c->id_ : -1;
              L::lock_holder<L::spin_lock> g(b.lk);
              b.p.swap(c);
              b.id = id;
              break;
            }
            case 3: {  // take a copy
              auto &b = box[r.below(3)];
              pb c;
              {
                L::lock_holder<L::spin_lock> g(b.lk);
                c = b.p;
                VF_CHECK((c ? (int)c->id_ : -1) == b.id, "pointer-wrong", "box holds another object");
              }
              touch(c);
              if (c) mine.push_back(std::move(c));
              break;
            }
            case 4: {  // take away
              auto &b = box[r.below(3)];
              pb c;
              {
                L::lock_holder<L::spin_lock> g(b.lk);
                c = std::move(b.p);
                b.id = -1;
              }
              touch(c);
              if (r.chance(50) && c) mine.push_back(c);
              break;
            }
            case 5:
              if (mine.size() > 1) {
                size_t a = r.below(mine.size()), b = r.below(mine.size());
                mine[a].swap(mine[b]);
                if (r.chance(30)) mine[a] = mine[b];
              }
              break;
          }
          if (mine.size() > 12) mine.resize(6);
        }
        for (auto &h : held[(size_t)t]) h = 0;
        for (auto &p : mine)
          if (p) ++held[(size_t)t][p->id_];
        bar.arrive_and_wait();
        if (t == 0) {
          for (int i = 0; i < no; ++i) {
            int want = drop_main ? 0 : 1;
            for (auto &h : held) want += h[(size_t)i];
            obase *o = nullptr;
            for (auto &b : box)
              if (b.p && (int)b.p->id_ == i) ++want, o = b.p.get();
            for (auto &p : mine)
              if (p && (int)p->id_ == i) o = p.get();
            if (!drop_main) o = init[(size_t)i].get();
            VF_EQ(books[(size_t)i].state.load(), want ? 1 : 2, "object-life", "object state when quiescent");
            if (o) VF_EQ(o->use_count(), want, "use-count", "use count when quiescent");
            trace.store(vf::mix64(trace.load(), (uint64_t)want));
            VF_COUNT("quiescent_counts");
          }
        }
        bar.arrive_and_wait();
      }
      for (auto &p : mine) touch(p);
    });
  for (auto &x : th) x.join();
  vf::delays_off();
  init.clear();
  for (auto &b : box) b.p.reset();
  for (auto &b : books) VF_EQ(b.state.load(), 2, "object-leaked", "object state at the end");
  vf::tr(trace.load());
  vf::nontrivial();
}

// ---- spin lock -------------------------------------------------------------------------------
VF_MODE(lock) {
  int nt = (int)R.range(2, 6), nl = (int)R.range(1, 2), n = (int)R.range(20, 120);
  struct cell {
    L::spin_lock lk;
    uint64_t value = 0;  // plain, written only under the lock
    int owner = -1;
    std::atomic<uint64_t> expect{0};
    std::atomic<int> inside{0};
  };
  std::vector<cell> cs((size_t)nl);
  for (auto &c : cs) {
    VF_CHECK(!c.lk.is_locked(), "lock-state", "a new lock is locked");
    VF_CHECK(c.lk.try_lock(), "lock-state", "try_lock on a free lock failed");
    VF_CHECK(c.lk.is_locked(), "lock-state", "is_locked of a held lock");
    VF_CHECK(!c.lk.try_lock(), "lock-excl", "try_lock on a held lock succeeded");
    VF_CHECK(c.lk.is_locked(), "lock-state", "a failed try_lock released the lock");
    VF_CHECK(c.lk.try_unlock(), "lock-state", "try_unlock of a held lock");
    VF_CHECK(!c.lk.try_unlock(), "lock-state", "try_unlock of a free lock");
    c.lk.lock();
    VF_CHECK(c.lk.is_locked(), "lock-state", "is_locked of a held lock");
    c.lk.unlock();
    VF_CHECK(!c.lk.is_locked(), "lock-state", "is_locked of a free lock");
  }
  std::vector<uint64_t> seeds;
  for (int t = 0; t < nt; ++t) seeds.push_back(R.next());
  vf::delays_on(R.next(), (unsigned)R.range(3, 60));
  std::barrier<> bar(nt);
  std::atomic<uint64_t> handed{0};
  std::vector<std::thread> th;
  for (int t = 0; t < nt; ++t)
    th.emplace_back([&, t] {
      vf::rng r(seeds[(size_t)t]);
      bar.arrive_and_wait();
      auto body = [&](cell &c) {
        int in = c.inside.fetch_add(1, std::memory_order_relaxed);
        VF_EQ(in, 0, "lock-excl", "holders already inside");
        if (c.owner != t) handed.fetch_add(1, std::memory_order_relaxed);
        c.owner = t;
        VF_EQ(c.value, c.expect.load(std::memory_order_relaxed), "lock-visible", "value written by the last holder");
        uint64_t v = c.value;
        if (r.chance(30)) vf::maybe_delay();
        if (r.chance(10)) VF_CHECK(!c.lk.try_lock(), "lock-excl", "try_lock while holding succeeded");
        c.value = v + 1;
        c.expect.store(v + 1, std::memory_order_relaxed);
        VF_EQ(c.owner, t, "lock-excl", "owner changed inside");
        VF_CHECK(c.lk.is_locked(), "lock-state", "is_locked while holding");  // not earlier: reading the lock orders things by itself
        c.inside.fetch_sub(1, std::memory_order_relaxed);
        VF_COUNT("sections");
      };
      for (int k = 0; k < n; ++k) {
        cell &c = cs[r.below(cs.size())];
        switch (r.below(6)) {
          case 0:
          case 1:
            c.lk.lock();
            body(c);
            c.lk.unlock();
            break;
          case 2:
            if (c.lk.try_lock()) {
              body(c);
              c.lk.unlock();
              VF_COUNT("try_lock_ok");
            } else
              VF_COUNT("try_lock_refused");
            break;
          case 3: {
            L::lock_holder<L::spin_lock> g(c.lk);
            VF_CHECK(g.is_available(), "guard-state", "guard of a blocking lock is empty");
            L::lock_holder<L::spin_lock> g2(std::move(g));
            VF_CHECK(!g.is_available() && g2.is_available(), "guard-state", "guard after move");
            body(c);
            break;
          }
          case 4: {
            L::lock_holder<L::spin_lock, L::detail::default_try_lock_action<L::spin_lock>> g(c.lk);
            if (g.is_available()) {
              body(c);
              VF_COUNT("try_lock_ok");
            } else
              VF_COUNT("try_lock_refused");
            break;
          }
          case 5: {
            L::lock_holder<L::spin_lock, L::detail::default_lock_action<L::spin_lock>, L::detail::default_try_unlock_action<L::spin_lock>> g(c.lk);
            body(c);
            if (r.chance(50)) {
              g.reset();
              VF_CHECK(!g.is_available(), "guard-state", "guard after reset");
            }
            break;
          }
        }
      }
    });
  for (auto &x : th) x.join();
  vf::delays_off();
  uint64_t sum = 0;
  for (auto &c : cs) {
    VF_CHECK(!c.lk.is_locked(), "lock-state", "locked when nobody holds it");
    sum += c.value;
  }
  VF_COUNT_N("lock_handovers", handed.load());
  vf::tr(sum, handed.load());
  if (handed.load() > 3) vf::nontrivial();
}

// ---- guards ----------------------------------------------------------------------------------
namespace {
struct clock_ {  // every call is counted; releasing what is not held fails at once
  int held = 0, rheld = 0, wheld = 0;
  bool refuse = false;
  bool exclusive = true;
  uint64_t acquired = 0, released = 0;
  void lock() {
    ++held;
    ++acquired;
  }
  bool try_lock() {
    if (refuse) return false;
    lock();
    return true;
  }
  void unlock() {
    VF_CHECK(held > 0, "guard-double-release", "guard released a lock which it does not hold");
    --held;
    ++released;
  }
  bool try_unlock() {
    VF_CHECK(held > 0, "guard-double-release", "guard released a lock which it does not hold");
    unlock();
    return true;
  }
  void read_lock() { ++rheld; ++acquired; }
  void read_unlock() {
    VF_CHECK(rheld > 0, "guard-double-release", "guard released a read lock which it does not hold");
    --rheld;
    ++released;
  }
  void write_lock() { ++wheld; ++acquired; }
  void write_unlock() {
    VF_CHECK(wheld > 0, "guard-double-release", "guard released a write lock which it does not hold");
    --wheld;
    ++released;
  }
};
template <class G, class LK>
void guard_run(vf::rng &R, int kind /*0 lock 1 read 2 write*/, bool tries) {
  constexpr int NL = 3, NG = 4;
  constexpr bool counting = std::is_same_v<LK, clock_>;
  LK lk[NL];
  struct slot {
    alignas(64) unsigned char mem[sizeof(G)];
    G *g = nullptr;
    int m = -1;
  } gs[NG];
  int n = (int)R.range(6, 40), moves = 0;
  auto check = [&] {
    int cnt[NL] = {};
    for (auto &s : gs)
      if (s.g) {
        VF_EQ(s.g->is_available(), s.m >= 0, "guard-state", "is_available");
        if (s.m >= 0) ++cnt[s.m];
      }
    for (int i = 0; i < NL; ++i) {
      if constexpr (counting) {
        VF_EQ(kind == 0 ? lk[i].held : kind == 1 ? lk[i].rheld : lk[i].wheld, cnt[i], "guard-holds", "locks held");
        VF_EQ(lk[i].acquired - lk[i].released, cnt[i], "guard-holds", "locks held");
      } else
        VF_EQ(lk[i].is_locked(), cnt[i], "guard-holds", "lock held");
    }
  };
  for (int k = 0; k < n; ++k) {
    slot &s = gs[R.below(NG)];
    if (!s.g) {
      if (R.chance(70)) {
        int i = (int)R.below(NL);
        bool busy = false;
        if constexpr (counting)
          lk[i].refuse = tries && R.chance(40), busy = lk[i].refuse;
        else
          busy = lk[i].is_locked();
        if (!counting && busy && !tries) continue;  // would wait forever
        s.g = new (s.mem) G(lk[i]);
        s.m = busy ? -1 : i;
        VF_COUNT("guards_made");
      } else {
        slot &q = gs[R.below(NG)];
        if (!q.g || &q == &s) continue;
        s.g = new (s.mem) G(std::move(*q.g));
        s.m = q.m;
        q.m = -1;
        ++moves;
        VF_COUNT("guard_moves");
      }
    } else
      switch (R.below(3)) {
        case 0:
          s.g->~G();
          s.g = nullptr;
          s.m = -1;
          break;
        case 1:
          s.g->reset();
          s.m = -1;
          break;
        case 2: {
          slot &q = gs[R.below(NG)];
          if (!q.g) break;
          *s.g = std::move(*q.g);
          if (&q != &s) {
            s.m = q.m;
            q.m = -1;
          }
          ++moves;
          VF_COUNT("guard_assigns");
          break;
        }
      }
    check();
    vf::tr((uint64_t)(s.m + 2), (uint64_t)(&s - gs));
  }
  for (auto &s : gs) {
    if (s.g) s.g->~G();
    s.g = nullptr;
    s.m = -1;
  }
  check();
  if (moves > 0) vf::nontrivial();
}
}  // namespace

VF_MODE(guard) {
  using namespace L::detail;
  using sl = L::spin_lock;
  int k = (int)R.below(7);
  vf::tr((uint64_t)k);
  switch (k) {
    case 0: guard_run<L::lock_holder<clock_>, clock_>(R, 0, false); break;
    case 1: guard_run<L::lock_holder<clock_, default_try_lock_action<clock_>>, clock_>(R, 0, true); break;
    case 2: guard_run<L::lock_holder<clock_, default_try_lock_action<clock_>, default_try_unlock_action<clock_>>, clock_>(R, 0, true); break;
    case 3: guard_run<L::read_lock_holder<clock_>, clock_>(R, 1, false); break;
    case 4: guard_run<L::write_lock_holder<clock_>, clock_>(R, 2, false); break;
    case 5: guard_run<L::lock_holder<sl>, sl>(R, 0, false); break;
    case 6: guard_run<L::lock_holder<sl, default_try_lock_action<sl>, default_try_unlock_action<sl>>, sl>(R, 0, true); break;
  }
}

// ---- integer atomics ---------------------------------------------------------------------------
namespace {
template <class A, class T>
void atom_run(vf::rng &R) {
  T m = (T)R.next();
  A a(m);
  {
    A z;
    VF_EQ(z.load(), 0, "atomic-value", "value of a default constructed atomic");
  }
  auto ord = [&] {
    switch (R.below(3)) {
      case 0: return L::memory_order_relaxed;
      case 1: return L::memory_order_seq_cst;
    }
    return L::memory_order_acq_rel;
  };
  int n = (int)R.range(6, 40);
  for (int k = 0; k < n; ++k) {
    T x = R.chance(30) ? m : R.chance(50) ? (T)R.below(8) : (T)R.next();
    T old = m;
    switch (R.below(13)) {
      case 0: a.store(x, R.chance(50) ? L::memory_order_release : L::memory_order_relaxed); m = x; break;
      case 1: VF_CHECK((T)(a = x) == x, "atomic-value", "assignment"); m = x; break;
      case 2: VF_CHECK(a.exchange(x, ord()) == old, "atomic-value", "exchange"); m = x; break;
      case 3: {
        T e = R.chance(50) ? m : x;
        bool hit = e == m;
        bool got = R.chance(50) ? a.compare_exchange_strong(e, x, L::memory_order_acq_rel, L::memory_order_acquire) : a.compare_exchange_strong(e, x);
        VF_EQ(got, hit, "atomic-value", "compare_exchange_strong");
        VF_CHECK(e == old, "atomic-value", "expected value after compare_exchange");
        if (got) m = x;
        break;
      }
      case 4: {
        T e = R.chance(50) ? m : x;
        bool same = e == m;
        T e0 = e;
        bool got = R.chance(50) ? a.compare_exchange_weak(e, x, L::memory_order_acq_rel, L::memory_order_acquire) : a.compare_exchange_weak(e, x);
        VF_CHECK(!got || same, "atomic-value", "compare_exchange_weak succeeded on another value");
        VF_CHECK(got ? e == e0 : e == old, "atomic-value", "expected value after compare_exchange");
        if (got) m = x;
        break;
      }
      case 5: VF_CHECK(a.fetch_add(x, ord()) == old, "atomic-value", "fetch_add"); m = (T)(m + x); break;
      case 6: VF_CHECK(a.fetch_sub(x, ord()) == old, "atomic-value", "fetch_sub"); m = (T)(m - x); break;
      case 7: VF_CHECK(a.fetch_and(x, ord()) == old, "atomic-value", "fetch_and"); m = (T)(m & x); break;
      case 8: VF_CHECK(a.fetch_or(x, ord()) == old, "atomic-value", "fetch_or"); m = (T)(m | x); break;
      case 9: VF_CHECK(a.fetch_xor(x, ord()) == old, "atomic-value", "fetch_xor"); m = (T)(m ^ x); break;
      case 10: m = (T)(m + 1); VF_CHECK(++a == m, "atomic-value", "++a"); break;
      case 11: m = (T)(m + 1); VF_CHECK(a++ == old, "atomic-value", "a++"); break;
      case 12:
        m = (T)(m - 1);
        if (R.chance(50))
          VF_CHECK(--a == m, "atomic-value", "--a");
        else
          VF_CHECK(a-- == old, "atomic-value", "a--");
        break;
    }
    VF_CHECK(a.load() == m && a.load(L::memory_order_relaxed) == m && (T)a == m, "atomic-value", "value after the operation");
    vf::tr((uint64_t)m);
    VF_COUNT("atomic_ops");
  }
  vf::nontrivial();
}
}  // namespace
VF_MODE(atom) {
  using namespace L;
  switch (R.below(8)) {
    case 0: atom_run<atomic_int_type<uint32_t>, uint32_t>(R); break;
    case 1: atom_run<atomic_int_type<uint64_t>, uint64_t>(R); break;
    case 2: atom_run<atomic_int_type<size_t>, size_t>(R); break;
    case 3: atom_run<atomic_int_type<uint8_t>, uint8_t>(R); break;
    case 4: atom_run<atomic_int_type<uint16_t>, uint16_t>(R); break;
    case 5: atom_run<atomic_int_type<unsafe_int_type<uint32_t>>, uint32_t>(R); break;
    case 6: atom_run<atomic_int_type<unsafe_int_type<uint64_t>>, uint64_t>(R); break;
    case 7: atom_run<atomic_int_type<unsafe_int_type<uint16_t>>, uint16_t>(R); break;
  }
}
