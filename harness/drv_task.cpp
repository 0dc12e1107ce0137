// C02 (tasks), C10-C15: stackful tasks and their manager against a reference interpreter.
// A random script (ops of the root, of every task body and of every completion callback) is first interpreted by a model,
// which yields the exact event trace; then the real library runs the same script and every event is compared.
#include "lib.h"

#include <libcotask/task.h>
#include <libcotask/task_manager.h>

#include <deque>
#include <exception>

namespace {
constexpr size_t K = 1024;
struct world;
world *W = nullptr;  // the case being run

// allocator with an owner; a true move leaves the source unusable
struct ev_alloc {
  int owner = -1;
  std::shared_ptr<vf::stack_book> book;
  copp::allocator::stack_allocator_malloc base;
  ev_alloc() {}
  ev_alloc(int o, std::shared_ptr<vf::stack_book> b) : owner(o), book(std::move(b)) {}
  ev_alloc(const ev_alloc &o) : owner(o.owner), book(o.book) {}
  ev_alloc(ev_alloc &&o) noexcept : owner(o.owner), book(std::move(o.book)) { o.owner = -2; }
  ev_alloc &operator=(const ev_alloc &o) {
    owner = o.owner;
    book = o.book;
    return *this;
  }
  void allocate(copp::stack_context &ctx, size_t size) noexcept {
    VF_CHECK(book, "alloc-moved-from", "allocator used after it was moved away (owner %d)", owner);
    base.allocate(ctx, size);
    if (ctx.sp) book->on_alloc(ctx, book.get(), size);
  }
  void deallocate(copp::stack_context &ctx) noexcept;
};
struct macro {
  using stack_allocator_type = ev_alloc;
  using coroutine_type = copp::coroutine_context_container<ev_alloc>;
  using value_type = int;
};
using task_t = cotask::task<macro>;
using task_p = task_t::ptr_type;
using mgr_t = cotask::task_manager<task_t>;
using mgr_p = mgr_t::ptr_type;
using u64 = uint64_t;

enum opk {
  START, RESUME, CANCEL, KILL, NEXT, THEN, AWAIT, YIELD, DROP, THROW, QUERY, SELFKEEP, AWAIT_BAD,
  MADD, MSTART, MRESUME, MCANCEL, MKILL, MREMOVE, MTIMEOUT, MTICK, MRESET, MDROP, MQUERY, UNPIN
};
const char *opname[] = {"start", "resume", "cancel", "kill", "next", "then", "await", "yield", "drop", "throw", "query", "selfkeep",
                        "await_bad", "m.add", "m.start", "m.resume", "m.cancel", "m.kill", "m.remove", "m.timeout", "m.tick",
                        "m.reset", "m.drop", "m.query", "unpin"};
struct op_t {
  int k = 0, a = 0, b = 0, m = 0, v = 0;
  u64 d = 0;
  int64_t sec = 0;
  int nsec = 0;
  bool collect = false, catchit = true;
};
struct script {
  std::vector<op_t> body, cb;
  int ret = 0;
  bool mem_alloc = false;
};

enum evk {
  E_OP, E_EXC, E_BODY, E_BACK, E_YIELD, E_END, E_UNWIND, E_CB, E_FREE_CALL, E_FREE_STACK, E_THROW, E_NOTHROW, E_DROP, E_KEEPDROP,
  E_STATUS, E_PRED, E_RET, E_RC, E_CUR, E_MSIZE, E_MTIMERS, E_MNEXT, E_MFIND, E_MTIME, E_MADD_DEADLINE, E_DONE
};
const char *evname[] = {"op", "exception", "body-start", "body-continued", "body-yields", "body-end", "body-unwound", "callback",
                        "callable-destroyed", "stack-released", "throw", "no-throw", "drop", "drop-skipped", "status", "predicates",
                        "result", "use-count", "current-task", "manager-size", "manager-timers", "manager-deadline", "manager-find",
                        "manager-time", "deadline", "end"};
struct ev {
  int k;
  int64_t a, b, c;
  bool operator==(const ev &o) const { return k == o.k && a == o.a && b == o.b && c == o.c; }
};

enum { ST_INVALID, ST_CREATED, ST_RUNNING, ST_WAITING, ST_DONE, ST_CANCELED, ST_KILLED, ST_TIMEOUT };
constexpr int EC_OK = 0;

struct world {
  int n = 0, total = 0, nm = 0;
  std::vector<script> sc;
  std::vector<op_t> root;
  std::vector<u64> ids;
  std::shared_ptr<vf::stack_book> book = std::make_shared<vf::stack_book>();
  vf::ledger led;
  // real side
  std::vector<task_p> slot, pin;
  std::vector<mgr_p> mgr;
  std::vector<size_t> stack_of;  // stack size asked for
  // trace
  std::vector<ev> want;
  size_t pos = 0;
  bool mute = false;
  std::string key_prefix;
  int cur_ctx = -1;
  uint64_t unique = 1;

  std::string show(const ev &e) const {
    char b[200];
    snprintf(b, sizeof b, "%s(%lld,%lld,%lld)%s%s", evname[e.k], (long long)e.a, (long long)e.b, (long long)e.c,
             e.k == E_OP ? " " : "", e.k == E_OP ? opname[e.b] : "");
    return b;
  }
  void got(int k, int64_t a = 0, int64_t b = 0, int64_t c = 0) {
    if (mute) return;
    ev e{k, a, b, c};
    static uint64_t dummy = 0;
    (void)dummy;
    if (vf::g_verbose) fprintf(stderr, "  [%zu] %s\n", pos, show(e).c_str());
    if (pos >= want.size())
      vf::fail("trace-extra", __FILE__, __LINE__, "event %zu: got %s after the expected end of the history", pos, show(e).c_str());
    if (!(want[pos] == e)) {
      std::string hist;
      for (size_t i = pos > 14 ? pos - 14 : 0; i < pos; ++i) hist += show(want[i]) + "; ";
      char key[64];
      snprintf(key, sizeof key, "trace-%s-vs-%s", evname[e.k], evname[want[pos].k]);
      vf::fail(key, __FILE__, __LINE__, "event %zu: got %s, expected %s; before it: %s", pos, show(e).c_str(),
               show(want[pos]).c_str(), hist.c_str());
    }
    ++pos;
    vf::beat();
    VF_COUNT("events_compared");
  }
  const ev &peek() const {
    static ev none{E_DONE, -1, -1, -1};
    return pos < want.size() ? want[pos] : none;
  }
};

void ev_alloc::deallocate(copp::stack_context &ctx) noexcept {
  VF_CHECK(book, "alloc-moved-from", "stack returned to an allocator that was moved away (owner %d)", owner);
  book->on_free(ctx, book.get());
  base.deallocate(ctx);
  W->got(E_FREE_STACK, owner);
}

// ================================================================= model
struct model {
  world &w;
  std::vector<ev> out;
  struct mt {
    int st = ST_CREATED, co = 0;  // co: 0 not begun, 1 active, 2 suspended, 3 over
    size_t pc = 0;
    int rc = 0;
    bool exists = false, slot = false, pinned = false;
    std::vector<std::pair<int, u64>> nexts;
    int mgr = -1;
    u64 finish = 0;
    int ret = 0;
    int aw = -1;  // awaiting
    int owner = -1;
  };
  struct mm {
    std::unordered_map<u64, int> tasks;  // same history of insertions as the real one: same order of visits
    std::map<u64, std::pair<int64_t, u64>> node;  // id -> (deadline in ns, id)
    std::set<std::pair<__int128, u64>> timers;
    std::map<u64, __int128> tnode;
    __int128 last = 0;
    bool in_tick = false, in_reset = false, slot = true, alive = true;
    int rc = 1;
  };
  std::vector<mt> t;
  std::vector<mm> m;
  std::vector<int> chain;
  int destroying = 0;
  int maxdepth = 0, kinds = 0;
  using excs = std::vector<u64>;

  explicit model(world &ww) : w(ww) {}
  void emit(int k, int64_t a = 0, int64_t b = 0, int64_t c = 0) { out.push_back(ev{k, a, b, c}); }
  bool exiting(int i) const { return t[i].st >= ST_DONE; }

  void release(int i) {
    if (--t[i].rc == 0) destroy(i);
  }
  void destroy(int i) {
    ++destroying;
    if (t[i].st > ST_CREATED && t[i].st < ST_DONE) {
      t[i].rc = 1;
      excs e;
      kill(i, ST_TIMEOUT, 0, e);
      if (--t[i].rc > 0) {
        --destroying;
        return;
      }
    }
    emit(E_FREE_CALL, i);
    if (t[i].st <= ST_CREATED) {
      excs e;
      active_next(i, e);
    }
    emit(E_FREE_STACK, t[i].owner);
    t[i].exists = false;
    --destroying;
  }
  void active_next(int i, excs &e) {
    auto list = std::move(t[i].nexts);
    t[i].nexts.clear();
    for (auto &x : list) start(x.first, x.second, e);
    int mg = t[i].mgr;  // one of them may have taken the manager down
    t[i].mgr = -1;
    if (mg >= 0) {
      excs none;
      mremove(mg, i, true, none);
    }
    for (auto &x : list) release(x.first);
  }
  void notify(int i, u64 d, excs &e) {
    while (t[i].co != 3) {
      u64 x = 0;
      run(i, d, x);
      if (x) e.push_back(x);
    }
    emit(E_CB, i, t[i].st, t[i].ret);
    u64 x = ops(w.sc[i].cb, i, true);
    if (x) e.push_back(x);
    active_next(i, e);
  }
  int start(int i, u64 d, excs &e) {
    if (t[i].st >= ST_DONE) return copp::COPP_EC_ALREADY_FINISHED;
    if (t[i].st == ST_RUNNING) return copp::COPP_EC_IS_RUNNING;
    t[i].st = ST_RUNNING;
    u64 x = 0;
    run(i, d, x);
    if (x) e.push_back(x);
    if (t[i].co == 3) {
      if (t[i].st == ST_RUNNING) t[i].st = ST_DONE;
      notify(i, d, e);
    } else if (t[i].st >= ST_DONE) {
      notify(i, t[i].finish, e);
    } else {
      t[i].st = ST_WAITING;
    }
    return EC_OK;
  }
  int cancel(int i, u64 d, excs &e) {
    if (t[i].st >= ST_DONE) return copp::COPP_EC_ALREADY_FINISHED;
    if (t[i].st == ST_RUNNING) return copp::COPP_EC_IS_RUNNING;
    t[i].st = ST_CANCELED;
    notify(i, d, e);
    return EC_OK;
  }
  int kill(int i, int s, u64 d, excs &e) {
    if (t[i].st >= ST_DONE) return copp::COPP_EC_ALREADY_FINISHED;
    int from = t[i].st;
    t[i].st = s;
    if (from != ST_RUNNING)
      notify(i, d, e);
    else
      t[i].finish = d;
    return EC_OK;
  }
  // one segment of the body
  void run(int i, u64 d, u64 &exc) {
    mt *p = &t[i];
    chain.push_back(i);
    if ((int)chain.size() > maxdepth) maxdepth = (int)chain.size();
    script &s = w.sc[i];
    bool first = p->co == 0;
    p->co = 1;
    if (first) {
      emit(E_BODY, i, (int64_t)d, t[i].st);
      emit(E_CUR, i);
    } else if (p->aw < 0) {
      emit(E_BACK, i, (int64_t)d, t[i].st);
      emit(E_CUR, i);
    }
    while (true) {
      if (t[i].aw >= 0) {
        int j = t[i].aw, code;
        if (exiting(j) || t[j].co == 3)
          code = EC_OK;
        else if (exiting(i))
          code = copp::COPP_EC_TASK_IS_EXITING;
        else {
          t[i].co = 2;
          chain.pop_back();
          return;
        }
        t[i].aw = -1;
        release(j);
        emit(E_OP, i, AWAIT, code);
        release(j);
        continue;
      }
      if (t[i].pc >= s.body.size()) break;
      const op_t &o = s.body[t[i].pc++];
      if (o.k == YIELD) {
        emit(E_YIELD, i);
        t[i].co = 2;
        chain.pop_back();
        return;
      }
      if (o.k == AWAIT) {
        int j = o.a;
        if (!t[j].slot) continue;
        int code;
        if (j == i)
          code = copp::COPP_EC_TASK_CAN_NOT_WAIT_SELF;
        else if (exiting(j) || t[j].co == 3 || exiting(i))
          code = copp::COPP_EC_TASK_IS_EXITING;
        else if (j > i)
          continue;
        else {
          for (int q : {i, j})
            if (!t[q].pinned) {
              t[q].pinned = true;
              ++t[q].rc;
              w_pins.push_back(q);
            }
          emit(E_OP, i, AWAIT, 12345);
          t[j].rc += 2;
          t[j].nexts.emplace_back(i, 0);
          ++t[i].rc;
          t[i].aw = j;
          continue;
        }
        emit(E_OP, i, AWAIT, code);
        continue;
      }
      u64 x = step(o, i, false);
      if (x) {
        emit(E_UNWIND, i);
        t[i].co = 3;
        chain.pop_back();
        exc = x;
        return;
      }
    }
    emit(E_END, i);
    emit(E_UNWIND, i);
    t[i].ret = s.ret;
    t[i].co = 3;
    chain.pop_back();
  }
  std::vector<int> w_pins;

  u64 ops(const std::vector<op_t> &v, int ctx, bool cb) {
    for (auto &o : v) {
      u64 x = step(o, ctx, cb);
      if (x) return x;
    }
    return 0;
  }
  // result of a plain/collecting call: returns an exception id when it propagates
  u64 settle(const op_t &o, int ctx, int code, excs &e, bool noexcs = false) {
    (void)noexcs;
    if (o.collect && !noexcs) {
      for (u64 x : e) emit(E_EXC, ctx, (int64_t)x);
      emit(E_OP, ctx, o.k, code);
      return 0;
    }
    if (!e.empty()) {
      if (o.catchit || ctx < 0) {
        emit(E_EXC, ctx, (int64_t)e[0]);
        return 0;
      }
      return e[0];
    }
    emit(E_OP, ctx, o.k, code);
    return 0;
  }
  // ---- managers
  void unbind(int g, int i) {
    if (t[i].mgr == g) t[i].mgr = -1;
  }
  void untimer(int g, u64 id) {
    auto it = m[g].tnode.find(id);
    if (it != m[g].tnode.end()) {
      m[g].timers.erase({it->second, id});
      m[g].tnode.erase(it);
    }
  }
  void settimer(int g, u64 id, int64_t sec, int nsec) {
    untimer(g, id);
    if (sec <= 0 && nsec <= 0) return;
    __int128 d = m[g].last + (__int128)sec * 1000000000 + nsec;
    m[g].timers.insert({d, id});
    m[g].tnode[id] = d;
  }
  int madd(int g, int i, int64_t sec, int nsec) {
    mm &q = m[g];
    if (q.in_reset) return copp::COPP_EC_IN_RESET;
    if (exiting(i)) return copp::COPP_EC_TASK_IS_EXITING;
    if (q.tasks.count(w.ids[i])) return copp::COPP_EC_ALREADY_EXIST;
    if (t[i].mgr >= 0) return copp::COPP_EC_TASK_ALREADY_IN_ANOTHER_MANAGER;
    t[i].mgr = g;
    q.tasks.insert({w.ids[i], i});
    ++t[i].rc;
    settimer(g, w.ids[i], sec, nsec);
    return EC_OK;
  }
  bool take(int g, u64 id, int &i) {
    auto it = m[g].tasks.find(id);
    if (it == m[g].tasks.end()) return false;
    i = it->second;
    untimer(g, id);
    m[g].tasks.erase(it);
    return true;
  }
  int mremove(int g, int i, bool confirm, excs &e) {
    (void)confirm;
    if (m[g].in_reset) return copp::COPP_EC_IN_RESET;
    int j;
    if (!take(g, w.ids[i], j)) return copp::COPP_EC_NOT_FOUND;
    unbind(g, j);
    int code = EC_OK;
    if (t[j].st > ST_CREATED && t[j].st < ST_DONE) code = kill(j, ST_KILLED, 0, e);
    release(j);
    return code;
  }
  int mstart(int g, int i, u64 d, excs &e) {
    if (m[g].in_reset) return copp::COPP_EC_IN_RESET;
    if (!m[g].tasks.count(w.ids[i])) return copp::COPP_EC_NOT_FOUND;
    ++t[i].rc;
    int code = start(i, d, e);
    if (exiting(i)) {
      excs none;
      mremove(g, i, false, none);
    }
    release(i);
    return code;
  }
  int mcancel(int g, int i, u64 d, excs &e) {
    if (m[g].in_reset) return copp::COPP_EC_IN_RESET;
    auto it = m[g].tasks.find(w.ids[i]);
    if (it == m[g].tasks.end()) return copp::COPP_EC_NOT_FOUND;
    ++t[i].rc;
    int code = cancel(i, d, e);
    if (exiting(i)) {
      excs none;
      mremove(g, i, false, none);
    }
    release(i);
    return code;
  }
  int mkill(int g, int i, int s, u64 d, excs &e) {
    if (m[g].in_reset) return copp::COPP_EC_IN_RESET;
    int j;
    if (!take(g, w.ids[i], j)) return copp::COPP_EC_NOT_FOUND;
    unbind(g, j);
    int code = kill(j, s, d, e);
    release(j);
    return code;
  }
  int mtick(int g, int64_t sec, int nsec, excs &e) {
    mm *q = &m[g];
    __int128 now = (__int128)sec * 1000000000 + nsec;
    if (now <= q->last) return EC_OK;
    if (q->in_tick) return EC_OK;
    if (q->in_reset) return copp::COPP_EC_IN_RESET;
    if (q->last == 0) {
      std::set<std::pair<__int128, u64>> nt;
      for (auto &x : q->timers) {
        nt.insert({x.first + now, x.second});
        q->tnode[x.second] = x.first + now;
      }
      q->timers.swap(nt);
      q->last = now;
      return EC_OK;
    }
    q->in_tick = true;
    while (!m[g].timers.empty()) {
      auto top = *m[g].timers.begin();
      if (now <= top.first) break;
      int j;
      if (!take(g, top.second, j)) abort();
      unbind(g, j);
      if (!exiting(j)) kill(j, ST_TIMEOUT, 0, e);
      release(j);
    }
    m[g].last = now;
    m[g].in_tick = false;
    return EC_OK;
  }
  void mreset(int g, excs &e) {
    if (m[g].in_reset) return;
    m[g].in_reset = true;
    std::vector<int> all;
    for (auto &x : m[g].tasks) all.push_back(x.second);
    for (int j : all) unbind(g, j);
    m[g].tasks.clear();
    m[g].timers.clear();
    m[g].tnode.clear();
    if (!m[g].in_tick) m[g].last = 0;
    for (int j : all)
      if (!exiting(j)) kill(j, ST_KILLED, 0, e);
    for (int j : all) release(j);
    m[g].in_reset = false;
  }
  void mrelease(int g) {
    if (--m[g].rc == 0) {
      ++destroying;
      excs e;
      mreset(g, e);
      m[g].alive = false;
      --destroying;
    }
  }

  u64 step(const op_t &o, int ctx, bool cb) {
    int a = o.a;
    bool have = o.k >= MADD ? true : (a >= 0 && a < (int)t.size() && (t[a].slot || t[a].pinned));
    ++kinds;
    switch (o.k) {
      case START:
      case RESUME:
      case CANCEL:
      case KILL: {
        if (!have) return 0;
        ++t[a].rc;
        excs e;
        int code = o.k == CANCEL ? cancel(a, o.d, e) : o.k == KILL ? kill(a, o.v, o.d, e) : start(a, o.d, e);
        u64 x = settle(o, ctx, code, e);
        release(a);
        return x;
      }
      case NEXT: {
        int b = o.b;
        if (!have || !t[b].slot) return 0;
        if (b <= a && b != a) return 0;
        if (a == b) {
          emit(E_OP, ctx, NEXT, 2);
          return 0;
        }
        ++t[a].rc;
        ++t[b].rc;
        excs e;
        attach(a, b, o.d, e);
        u64 x = 0;
        if (!e.empty()) {
          if (o.catchit || ctx < 0)
            emit(E_EXC, ctx, (int64_t)e[0]);
          else
            x = e[0];
        } else {
          emit(E_OP, ctx, NEXT, 1);
        }
        release(b);
        release(a);
        return x;
      }
      case THEN: {
        int b = o.b;
        if (!have) return 0;
        ++t[a].rc;
        t[b].exists = true;
        t[b].rc = 1;
        t[b].owner = t[a].owner;
        excs e;
        attach(a, b, o.d, e);
        u64 x = 0;
        if (!e.empty()) {
          release(b);
          if (o.catchit || ctx < 0)
            emit(E_EXC, ctx, (int64_t)e[0]);
          else
            x = e[0];
        } else {
          emit(E_OP, ctx, THEN, 1);
          if (o.v && !t[b].slot)
            t[b].slot = true;
          else
            release(b);
        }
        release(a);
        return x;
      }
      case AWAIT_BAD: {  // awaiting outside the awaiting task's own body
        int b = o.b;
        if (!have || !t[b].slot || a == b) return 0;
        if (!chain.empty() && chain.back() == a) return 0;
        if (o.v == 1) {
          emit(E_OP, ctx, AWAIT_BAD, copp::COPP_EC_ARGS_ERROR);
          return 0;
        }
        int code = exiting(b) || t[b].co == 3 || exiting(a) ? (int)copp::COPP_EC_TASK_IS_EXITING : (int)copp::COPP_EC_TASK_NOT_IN_ACTION;
        emit(E_OP, ctx, AWAIT_BAD, code);
        return 0;
      }
      case DROP: {
        if (a < 0 || a >= (int)t.size() || !t[a].slot) return 0;
        if (t[a].rc == 1 && t[a].co == 1) {
          emit(E_KEEPDROP, a);
          return 0;
        }
        emit(E_DROP, a);
        t[a].slot = false;
        release(a);
        return 0;
      }
      case UNPIN: {
        if (a < 0 || a >= (int)t.size() || !t[a].pinned) return 0;
        emit(E_DROP, a, 1);
        t[a].pinned = false;
        release(a);
        return 0;
      }
      case THROW:
        if (destroying) {
          emit(E_NOTHROW, ctx);
          return 0;
        }
        emit(E_THROW, ctx, (int64_t)o.d);
        return o.d;
      case SELFKEEP: {
        if (ctx < 0 || cb) return 0;
        emit(E_OP, ctx, SELFKEEP, 0);
        ++t[ctx].rc;
        if (!t[ctx].slot && o.v)
          t[ctx].slot = true;
        else
          release(ctx);
        return 0;
      }
      case QUERY: {
        if (!have) return 0;
        emit(E_STATUS, a, t[a].st);
        int p = (t[a].st == ST_CANCELED) | (t[a].co == 3) << 1 | (t[a].st >= ST_KILLED) << 2 | (t[a].st == ST_TIMEOUT) << 3 | exiting(a) << 4;
        emit(E_PRED, a, p);
        emit(E_RET, a, t[a].ret);
        if (ctx < 0) emit(E_RC, a, t[a].rc);
        emit(E_CUR, chain.empty() ? -1 : chain.back());
        return 0;
      }
      default: break;
    }
    // managers
    int g = o.m;
    if (!m[g].slot) return 0;
    if (o.k == MDROP) {
      emit(E_OP, ctx, MDROP, g);
      m[g].slot = false;
      mrelease(g);
      return 0;
    }
    ++m[g].rc;
    u64 x = 0;
    excs e;
    switch (o.k) {
      case MADD: {
        if (!t[a].slot && !t[a].pinned) break;
        ++t[a].rc;
        int code = madd(g, a, o.sec, o.nsec);
        emit(E_OP, ctx, MADD, code);
        release(a);
        break;
      }
      case MSTART:
      case MRESUME: x = settle(o, ctx, mstart(g, a, o.d, e), e); break;
      case MCANCEL: x = settle(o, ctx, mcancel(g, a, o.d, e), e); break;
      case MKILL: x = settle(o, ctx, mkill(g, a, o.v, o.d, e), e); break;
      case MREMOVE: {
        if (o.v == 2) {  // confirmation pointer of another task
          int b = o.b;
          if (!t[b].slot || b == a) break;
          int code = m[g].in_reset ? (int)copp::COPP_EC_IN_RESET : (int)copp::COPP_EC_NOT_FOUND;
          emit(E_OP, ctx, MREMOVE, code);
          break;
        }
        if (o.v == 1 && !t[a].slot) break;
        if (o.v == 1) ++t[a].rc;
        int code = mremove(g, a, false, e);
        x = settle(o, ctx, code, e, true);
        if (o.v == 1) release(a);
        break;
      }
      case MTIMEOUT: {
        int code = EC_OK;
        if (m[g].in_reset)
          code = copp::COPP_EC_IN_RESET;
        else if (!m[g].tasks.count(w.ids[a]))
          code = copp::COPP_EC_NOT_FOUND;
        else
          settimer(g, w.ids[a], o.sec, o.nsec);
        emit(E_OP, ctx, MTIMEOUT, code);
        break;
      }
      case MTICK: x = settle(o, ctx, mtick(g, o.sec, o.nsec, e), e, true); break;
      case MRESET:
        mreset(g, e);
        x = settle(o, ctx, EC_OK, e, true);
        break;
      case MQUERY: {
        emit(E_MSIZE, g, (int64_t)m[g].tasks.size());
        emit(E_MTIMERS, g, (int64_t)m[g].timers.size());
        for (auto &y : m[g].timers) {
          emit(E_MNEXT, m[g].tasks.at(y.second), (int64_t)(y.first / 1000000000), (int64_t)(y.first % 1000000000));
        }
        for (int i = 0; i < w.n; ++i) emit(E_MFIND, g, i, !m[g].in_reset && m[g].tasks.count(w.ids[i]));
        if (!m[g].in_tick) emit(E_MTIME, g, (int64_t)(m[g].last / 1000000000), (int64_t)(m[g].last % 1000000000));
        break;
      }
      default: break;
    }
    mrelease(g);
    return x;
  }
  void attach(int a, int b, u64 d, excs &e) {
    if (exiting(a) || t[a].co == 3) {
      if (t[b].st == ST_CREATED || t[b].st == ST_WAITING) start(b, d, e);
    } else {
      t[a].nexts.emplace_back(b, d);
      ++t[b].rc;
    }
  }

  bool all() {
    t.resize(w.total);
    for (int i = 0; i < w.n; ++i) {
      t[i].exists = t[i].slot = true;
      t[i].rc = 1;
      t[i].owner = i;
    }
    m.resize(w.nm);
    for (auto &o : w.root) step(o, -1, false);
    // end of the case: finish everything, let go of everything
    for (int round = 0; round < 5; ++round) {  // a body may take hold of its task again
      for (int i = 0; i < w.total; ++i) {
        op_t o;
        o.k = KILL;
        o.a = i;
        o.v = ST_KILLED;
        o.collect = VF_EPTR;
        step(o, -1, false);
      }
      // tasks created by then() may have been started just now
      for (int pass = w.n; round == 0 && pass < w.total; ++pass)
        for (int i = w.n; i < w.total; ++i) {
          op_t o;
          o.k = KILL;
          o.a = i;
          o.v = ST_KILLED;
          o.collect = VF_EPTR;
          step(o, -1, false);
        }
      for (int i = 0; i < w.total; ++i) {
        op_t o;
        o.a = i;
        o.k = QUERY;
        step(o, -1, false);
        o.k = UNPIN;
        step(o, -1, false);
        o.k = DROP;
        step(o, -1, false);
      }
    }
    for (int g = 0; g < w.nm; ++g) {
      op_t o;
      o.m = g;
      o.k = MDROP;
      step(o, -1, false);
    }
    emit(E_DONE);
    for (int i = 0; i < w.total; ++i)
      if (t[i].exists) {
        if (vf::g_verbose) fprintf(stderr, "model: task %d still exists, rc %d st %d\n", i, t[i].rc, t[i].st);
        return false;  // references in a circle
      }
    return true;
  }
};

// ================================================================= real
struct thrown {
  u64 id;
  vf::tv *guard;
  explicit thrown(u64 i) : id(i), guard(nullptr) {}
};
u64 exc_id(const std::exception_ptr &p) {
  try {
    std::rethrow_exception(p);
  } catch (thrown &x) {
    return x.id;
  } catch (...) {
    return 0;
  }
}

void real_ops(const std::vector<op_t> &v, int ctx, bool cb);

struct unwound {
  int i;
  ~unwound() { W->got(E_UNWIND, i); }
};

void real_step(const op_t &o, int ctx, bool cb);
int cur_task_index();

struct action : cotask::impl::task_action_impl {
  int idx;
  bool armed = true;
  vf::tv payload;
  explicit action(int i) : idx(i), payload(&W->led, (u64)i * 77 + 5) {}
  action(action &&o) noexcept : idx(o.idx), payload(std::move(o.payload)) {
    armed = o.armed;
    o.armed = false;
  }
  ~action() {
    if (armed) {
      VF_EQ(payload.get(), (u64)idx * 77 + 5, "callable-damaged", "callable payload at destruction");
      W->got(E_FREE_CALL, idx);
    }
  }
  int operator()(void *arg) override {
    world &w = *W;
    int i = idx;
    auto self = task_t::this_task();
    w.got(E_BODY, i, (int64_t)(uintptr_t)arg, self ? (int64_t)self->get_status() : -1);
    w.got(E_CUR, cur_task_index());
    VF_EQ(payload.get(), (u64)idx * 77 + 5, "callable-damaged", "callable payload in the body");
    unwound u{i};
    auto local = std::make_unique<vf::tv>(&w.led, (u64)i);
    for (auto &o : w.sc[i].body) {
      if (o.k == YIELD) {
        w.got(E_YIELD, i);
        void *back = &w;
        int rc = task_t::this_task()->yield(&back);
        VF_EQ(rc, 0, "yield-code", "yield inside a body");
        w.got(E_BACK, i, (int64_t)(uintptr_t)back, (int64_t)task_t::this_task()->get_status());
        w.got(E_CUR, cur_task_index());
        VF_COUNT("task_yields");
      } else if (o.k == AWAIT) {
        if (!w.slot[o.a]) continue;
        auto self2 = task_t::this_task();
        task_p keep = w.slot[o.a];
        if (o.a > i && !(keep->is_exiting() || keep->is_completed() || self2->is_exiting())) continue;
        const ev &e = w.peek();
        if (e.k == E_OP && e.b == AWAIT && e.c == 12345) {
          for (int q : {i, o.a})
            if (!w.pin[q]) w.pin[q] = q == i ? task_p(self2) : keep;
          w.got(E_OP, i, AWAIT, 12345);
        }
        int rc = self2->await_task(keep);
        w.got(E_OP, i, AWAIT, rc);
        VF_COUNT("awaits");
      } else {
        real_step(o, i, false);
      }
      VF_EQ(payload.get(), (u64)idx * 77 + 5, "callable-damaged", "callable payload in the body");
      VF_EQ(local->get(), (u64)i, "local-damaged", "local of the body");
    }
    w.got(E_END, i);
    return w.sc[i].ret;
  }
  int on_finished(cotask::impl::task_impl &t) override {
    world &w = *W;
    VF_EQ(payload.get(), (u64)idx * 77 + 5, "callable-damaged", "callable payload in the completion callback");
    w.got(E_CB, idx, t.get_status(), t.get_ret_code());
    VF_CHECK(t.is_completed(), "callback-early", "completion callback of a task that is not completed");
    VF_COUNT("callbacks");
    real_ops(w.sc[idx].cb, idx, true);
    return 0;
  }
};

int cur_task_index() {
  auto p = task_t::this_task();
  if (!p) return -1;
  auto a = dynamic_cast<action *>(p->get_raw_action());
  VF_CHECK(a && p->get_coroutine_context().get() == copp::this_coroutine::get_coroutine(), "current-task", "current task and current coroutine disagree");
  return a->idx;
}

template <class Fn>
void settle(const op_t &o, int ctx, Fn fn) {  // plain call
  if (o.catchit || ctx < 0) {
    u64 id = 0;
    int rc = 0;
    try {
      rc = fn();
    } catch (thrown &t) {
      id = t.id;
    }
    if (id)
      W->got(E_EXC, ctx, (int64_t)id);
    else
      W->got(E_OP, ctx, o.k, rc);
  } else {
    int rc = fn();
    W->got(E_OP, ctx, o.k, rc);
  }
}
template <class Fn>
void settle_collect(const op_t &o, int ctx, Fn fn) {
  std::list<std::exception_ptr> e;
#if VF_EPTR
  int rc = fn(e);
#else
  (void)fn;
  int rc = 0;
  vf::fail("collect", __FILE__, __LINE__, "this build cannot collect exceptions");
#endif
  for (auto &p : e) {
    u64 id = exc_id(p);
    VF_CHECK(id, "exception-unknown", "an exception nobody threw was handed out");
    W->got(E_EXC, ctx, (int64_t)id);
    VF_COUNT("exceptions_collected");
  }
  W->got(E_OP, ctx, o.k, rc);
}

void real_step(const op_t &o, int ctx, bool cb) {
  world &w = *W;
  int a = o.a;
  void *d = reinterpret_cast<void *>(o.d);
  auto ref = [&w](int i) { return w.slot[i] ? w.slot[i] : w.pin[i]; };
  switch (o.k) {
    case START: {
      task_p t = ref(a);
      if (!t) return;
      if (o.collect)
        settle_collect(o, ctx, [&](auto &e) { return t->start(e, d); });
      else
        settle(o, ctx, [&] { return d || o.v ? t->start(d) : t->start(); });
      return;
    }
    case RESUME: {
      task_p t = ref(a);
      if (!t) return;
      if (o.collect)
        settle_collect(o, ctx, [&](auto &e) { return t->resume(e, d); });
      else
        settle(o, ctx, [&] { return d || o.v ? t->resume(d) : t->resume(); });
      return;
    }
    case CANCEL: {
      task_p t = ref(a);
      if (!t) return;
      if (o.collect)
        settle_collect(o, ctx, [&](auto &e) { return t->cancel(e, d); });
      else
        settle(o, ctx, [&] { return d ? t->cancel(d) : t->cancel(); });
      return;
    }
    case KILL: {
      task_p t = ref(a);
      if (!t) return;
      auto s = static_cast<cotask::EN_TASK_STATUS>(o.v);
      if (o.collect)
        settle_collect(o, ctx, [&](auto &e) { return t->kill(e, s, d); });
      else
        settle(o, ctx, [&] { return s == cotask::EN_TS_KILLED && !d ? t->kill() : s == cotask::EN_TS_KILLED && (o.d & 8) ? t->kill(d) : t->kill(s, d); });
      return;
    }
    case NEXT: {
      if (a < 0 || !(w.slot[a] || w.pin[a]) || !w.slot[o.b]) return;
      if (o.b < a) return;
      if (o.b == a) {
        task_p t = w.slot[a];
        task_p r = t->next(t, d);
        w.got(E_OP, ctx, NEXT, r == t ? 2 : 3);
        return;
      }
      task_p t = ref(a);
      task_p b = w.slot[o.b];
      task_p r;
      settle(o, ctx, [&] {
        r = (o.v & 1) ? t->next(b, d) : t->then(b, d);
        return r == b ? 1 : r == t ? 2 : 3;
      });
      r.reset();
      b.reset();
      VF_COUNT("tasks_chained");
      return;
    }
    case THEN: {
      task_p t = ref(a);
      if (!t) return;
      task_p r;
      bool ok = false;
      {
        action act(o.b);
        act.armed = true;
        size_t priv = t->get_private_buffer_size();
        settle(o, ctx, [&] {
          r = t->then(std::move(act), d);
          ok = true;
          return 1;
        });
        if (ok) {
          VF_CHECK(r && r != t, "then-result", "then(functor) did not return the new task");
          VF_CHECK(r->get_private_buffer_size() >= priv, "then-private", "private area of the chained task: %zu, of its predecessor %zu",
                   r->get_private_buffer_size(), priv);
          VF_CHECK(r->get_coroutine_context()->get_allocator().owner == t->get_coroutine_context()->get_allocator().owner, "then-allocator",
                   "chained functor got another allocator");
          size_t need = w.stack_of[t->get_coroutine_context()->get_allocator().owner];
          {
            std::lock_guard<std::mutex> g(w.book->mu);
            auto it = w.book->live.upper_bound(reinterpret_cast<uintptr_t>(r.get()));
            --it;
            VF_CHECK(it->second.size >= need, "then-stack", "stack of the chained task: %zu, asked for %zu", it->second.size, need);
          }
        }
      }
      if (ok && o.v) w.slot[o.b] = r;
      r.reset();
      VF_COUNT("tasks_chained");
      return;
    }
    case AWAIT_BAD: {
      if (a < 0 || !(w.slot[a] || w.pin[a]) || !w.slot[o.b] || a == o.b) return;
      task_p t = ref(a);
      if (task_t::this_task() == t.get()) return;
      int rc = o.v == 1 ? t->await_task(task_p()) : t->await_task(w.slot[o.b]);
      w.got(E_OP, ctx, AWAIT_BAD, rc);
      return;
    }
    case DROP: {
      if (a < 0 || !w.slot[a]) return;
      if (w.peek().k == E_KEEPDROP) {
        w.got(E_KEEPDROP, a);
        return;
      }
      w.got(E_DROP, a);
      task_p x;
      x.swap(w.slot[a]);
      x.reset();
      VF_COUNT("drops");
      return;
    }
    case UNPIN: {
      if (!w.pin[a]) return;
      w.got(E_DROP, a, 1);
      task_p x;
      x.swap(w.pin[a]);
      x.reset();
      return;
    }
    case THROW:
      if (w.peek().k == E_NOTHROW) {
        w.got(E_NOTHROW, ctx);
        return;
      }
      w.got(E_THROW, ctx, (int64_t)o.d);
      VF_COUNT("throws");
      throw thrown(o.d);
    case SELFKEEP: {
      if (ctx < 0 || cb) return;
      task_p s(task_t::this_task());
      w.got(E_OP, ctx, SELFKEEP, 0);
      if (!w.slot[ctx] && o.v) w.slot[ctx] = s;
      return;
    }
    case QUERY: {
      if (a < 0 || !(w.slot[a] || w.pin[a])) return;
      task_t *t = ref(a).get();
      w.got(E_STATUS, a, t->get_status());
      w.got(E_PRED, a,
            (int)t->is_canceled() | (int)t->is_completed() << 1 | (int)t->is_faulted() << 2 | (int)t->is_timeout() << 3 | (int)t->is_exiting() << 4);
      w.got(E_RET, a, t->get_ret_code());
      if (a < w.n) VF_EQ(t->get_id(), w.ids[a], "id-changed", "task id");
      if (ctx < 0) w.got(E_RC, a, (int64_t)t->use_count());
      w.got(E_CUR, cur_task_index());
      return;
    }
    default: break;
  }
  int g = o.m;
  if (!w.mgr[g]) return;
  if (o.k == MDROP) {
    w.got(E_OP, ctx, MDROP, g);
    mgr_p x;
    x.swap(w.mgr[g]);
    x.reset();
    VF_COUNT("managers_destroyed");
    return;
  }
  mgr_p m = w.mgr[g];
  u64 id = o.k == MTICK || o.k == MRESET || o.k == MQUERY ? 0 : w.ids[a];
  switch (o.k) {
    case MADD: {
      task_p t = ref(a);
      if (!t) return;
      int rc = o.sec == 0 && o.nsec == 0 && o.v ? m->add_task(t) : m->add_task(t, (time_t)o.sec, o.nsec);
      w.got(E_OP, ctx, MADD, rc);
      VF_COUNT("manager_adds");
      return;
    }
    case MSTART:
      if (o.collect)
        settle_collect(o, ctx, [&](auto &e) { return m->start(id, e, d); });
      else
        settle(o, ctx, [&] { return m->start(id, d); });
      return;
    case MRESUME:
      if (o.collect)
        settle_collect(o, ctx, [&](auto &e) { return m->resume(id, e, d); });
      else
        settle(o, ctx, [&] { return m->resume(id, d); });
      return;
    case MCANCEL:
      if (o.collect)
        settle_collect(o, ctx, [&](auto &e) { return m->cancel(id, e, d); });
      else
        settle(o, ctx, [&] { return m->cancel(id, d); });
      return;
    case MKILL: {
      auto s = static_cast<cotask::EN_TASK_STATUS>(o.v);
      if (o.collect)
        settle_collect(o, ctx, [&](auto &e) { return m->kill(id, e, s, d); });
      else
        settle(o, ctx, [&] { return s == cotask::EN_TS_KILLED && (o.d & 8) ? m->kill(id, d) : m->kill(id, s, d); });
      return;
    }
    case MREMOVE: {
      if (o.v == 2) {
        if (!w.slot[o.b] || o.b == a) return;
        settle(o, ctx, [&] { return m->remove_task(id, w.slot[o.b]); });
        return;
      }
      task_p t;
      if (o.v == 1) {
        t = w.slot[a];
        if (!t) return;
      }
      settle(o, ctx, [&] { return o.v == 1 ? m->remove_task(id, t) : m->remove_task(id); });
      return;
    }
    case MTIMEOUT: w.got(E_OP, ctx, MTIMEOUT, m->set_timeout(id, (time_t)o.sec, o.nsec)); return;
    case MTICK:
      settle(o, ctx, [&] { return m->tick((time_t)o.sec, o.nsec); });
      VF_COUNT("ticks");
      return;
    case MRESET:
      settle(o, ctx, [&] {
        m->reset();
        return 0;
      });
      VF_COUNT("resets");
      return;
    case MQUERY: {
      w.got(E_MSIZE, g, (int64_t)m->get_task_size());
      w.got(E_MTIMERS, g, (int64_t)m->get_tick_checkpoint_size());
      VF_EQ(m->get_container().size(), m->get_task_size(), "manager-container", "container size");
      std::map<u64, int> idx;
      for (int i = 0; i < w.n; ++i) idx[w.ids[i]] = i;
      for (auto &c : m->get_checkpoints()) {
        w.got(E_MNEXT, idx.count(c.task_id) ? idx[c.task_id] : -1, (int64_t)c.expired_time.tv_sec + c.expired_time.tv_nsec / 1000000000,
              c.expired_time.tv_nsec % 1000000000);
      }
      for (int i = 0; i < w.n; ++i) {
        task_p f = m->find_task(w.ids[i]);
        VF_CHECK(!f || f->get_id() == w.ids[i], "manager-find", "lookup returned another task");
        w.got(E_MFIND, g, i, !!f);
      }
      if (w.peek().k == E_MTIME) {
        auto tt = m->get_last_tick_time();
        w.got(E_MTIME, g, tt.tv_sec, tt.tv_nsec);
      }
      return;
    }
    default: return;
  }
}
void real_ops(const std::vector<op_t> &v, int ctx, bool cb) {
  for (auto &o : v) real_step(o, ctx, cb);
}

// ================================================================= generator
struct profile {
  int lo_tasks, hi_tasks, then_tasks, managers;
  int root_lo, root_hi;
  int throws;  // percent weight
  std::vector<std::pair<int, int>> w;  // op kind -> weight
};

struct gen {
  world &w;
  vf::rng &R;
  const profile &p;
  int total_w = 0;
  int next_then;
  u64 uniq = 1;
  std::vector<__int128> clock;
  gen(world &ww, vf::rng &r, const profile &pp) : w(ww), R(r), p(pp) {
    for (auto &x : p.w) total_w += x.second;
    next_then = 0;
    clock.resize(3, 0);
  }
  int any() { return (int)R.below(w.n) ; }
  int any_all() { return R.chance(80) || w.total == w.n ? any() : w.n + (int)R.below(w.total - w.n); }
  u64 data() { return R.chance(25) ? 0 : (uniq++ << 4) | (R.below(2) << 3); }
  void span(op_t &o) {  // a timeout
    switch (R.below(8)) {
      case 0:
        o.sec = 0;
        o.nsec = 0;
        break;
      case 1:
        o.sec = 0;
        o.nsec = (int)R.below(1000000000);
        break;
      case 2:
        o.sec = 0;
        o.nsec = 1 + (int)R.below(3);
        break;
      case 3:
        o.sec = (int64_t)R.below(4);
        o.nsec = 999999999 - (int)R.below(3);
        break;
      case 4:
        o.sec = 1 + (int64_t)R.below(3);
        o.nsec = 0;
        break;
      case 5:
        o.sec = (int64_t)R.below(3);
        o.nsec = 500000000;
        break;
      case 6:
        o.sec = 1000000 + (int64_t)R.below(3);
        o.nsec = (int)R.below(2);
        break;
      default:
        o.sec = (int64_t)R.below(5);
        o.nsec = (int)R.below(1000000000);
        break;
    }
  }
  op_t op(int where) {  // where: 0 root, 1 body, 2 callback
    op_t o;
    int x = (int)R.below(total_w);
    for (auto &e : p.w) {
      if (x < e.second) {
        o.k = e.first;
        break;
      }
      x -= e.second;
    }
    if (where != 1 && (o.k == YIELD || o.k == AWAIT || o.k == SELFKEEP)) o.k = R.chance(50) ? QUERY : RESUME;
    if (o.k == THROW && (where == 0 || !VF_EPTR)) o.k = START;
    if (where == 1 && R.chance(35)) o.k = YIELD;
    o.a = any_all();
    o.b = any_all();
    o.d = data();
    o.collect = R.chance(40) && VF_EPTR;
    o.catchit = R.chance(60);
    if (w.nm) o.m = (int)R.below(w.nm);
    switch (o.k) {
      case KILL:
      case MKILL: {
        static const int st[] = {ST_KILLED, ST_KILLED, ST_TIMEOUT, ST_CANCELED, ST_DONE};
        o.v = st[R.below(5)];
        break;
      }
      case NEXT:
        if (R.chance(85) && o.b < o.a) std::swap(o.a, o.b);
        o.v = (int)R.below(2);
        break;
      case THEN:
        if (next_then >= p.then_tasks) {
          o.k = QUERY;
          break;
        }
        o.b = w.n + next_then++;
        o.a = any();
        o.v = (int)R.below(2);
        break;
      case AWAIT_BAD: o.v = R.chance(20); break;
      case THROW: o.d = (uniq++ << 4) | 1; break;
      case SELFKEEP: o.v = (int)R.below(2); break;
      case START:
      case RESUME: o.v = (int)R.below(2); break;
      case MADD:
        o.a = any();
        o.v = (int)R.below(2);
        if (R.chance(60)) span(o);
        break;
      case MTIMEOUT:
        o.a = any();
        span(o);
        break;
      case MTICK: {
        __int128 &c = clock[o.m];
        op_t t;
        span(t);
        __int128 step = (__int128)t.sec * 1000000000 + t.nsec;
        switch (R.below(10)) {
          case 0: step = 0; break;
          case 1: step = -step; break;
          case 2: step = 1; break;
          case 3: step = 1000000000 - c % 1000000000; break;
          default: break;
        }
        __int128 now = c + step;
        if (c == 0 && R.chance(60)) now = (__int128)(R.chance(50) ? 1 + R.below(5) : 1600000000) * 1000000000 + (R.chance(50) ? 999999990 + R.below(10) : R.below(1000000000));
        if (now < 0) now = 0;
        if (now > c) c = now;
        o.sec = (int64_t)(now / 1000000000);
        o.nsec = (int)(now % 1000000000);
        break;
      }
      case MSTART:
      case MRESUME:
      case MCANCEL:
      case MREMOVE:
        o.a = any();
        if (o.k == MREMOVE) o.v = (int)R.below(3);
        break;
      default: break;
    }
    return o;
  }
};

void play(vf::rng &R, const profile &p) {
  world w;
  W = &w;
  w.n = (int)R.range(p.lo_tasks, p.hi_tasks);
  w.total = w.n + p.then_tasks;
  w.nm = p.managers ? 1 + (int)R.below(p.managers) : 0;
  gen g(w, R, p);
  w.sc.resize(w.total);
  for (int i = 0; i < w.total; ++i) {
    int nb = (int)R.below(7), nc = R.chance(45) ? 0 : (int)R.below(3);
    for (int k = 0; k < nb; ++k) w.sc[i].body.push_back(g.op(1));
    for (int k = 0; k < nc; ++k) w.sc[i].cb.push_back(g.op(2));
    w.sc[i].ret = (int)R.next();
  }
  int nr = (int)R.range(p.root_lo, p.root_hi);
  for (int k = 0; k < nr; ++k) w.root.push_back(g.op(0));
  w.slot.resize(w.total);
  w.pin.resize(w.total);
  w.stack_of.resize(w.total);
  w.ids.resize(w.total);
  for (int i = 0; i < w.n; ++i) {
    ev_alloc al(i, w.book);
    w.stack_of[i] = 112 * K + 16 * R.below(1024);
    size_t priv = R.below(200);
    w.slot[i] = task_t::create(action(i), al, w.stack_of[i], priv);
    VF_CHECK(w.slot[i], "create", "task creation failed");
    w.ids[i] = w.slot[i]->get_id();
    VF_CHECK(w.ids[i] != 0, "id-zero", "task id is zero");
    VF_CHECK(w.slot[i]->get_private_buffer_size() >= priv, "private-size", "private area too small");
  }
  for (int i = w.n; i < w.total; ++i) w.ids[i] = 0xfff0000000000000ull + i;
  for (int i = 0; i < w.nm; ++i) w.mgr.push_back(mgr_t::create());

  model mo(w);
  if (!mo.all()) {
    VF_COUNT("scripts_skipped");
    w.mute = true;
    return;
  }
  w.want = std::move(mo.out);

  for (auto &o : w.root) vf::hop([&] { real_step(o, -1, false); });
  for (int round = 0; round < 5; ++round) {
    for (int i = 0; i < w.total; ++i) {
      op_t o;
      o.k = KILL;
      o.a = i;
      o.v = ST_KILLED;
      o.collect = VF_EPTR;
      vf::hop([&] { real_step(o, -1, false); });
    }
    for (int pass = w.n; round == 0 && pass < w.total; ++pass)
      for (int i = w.n; i < w.total; ++i) {
        op_t o;
        o.k = KILL;
        o.a = i;
        o.v = ST_KILLED;
        o.collect = VF_EPTR;
        vf::hop([&] { real_step(o, -1, false); });
      }
    for (int i = 0; i < w.total; ++i) {
      op_t o;
      o.a = i;
      o.k = QUERY;
      vf::hop([&] { real_step(o, -1, false); });
      o.k = UNPIN;
      vf::hop([&] { real_step(o, -1, false); });
      o.k = DROP;
      vf::hop([&] { real_step(o, -1, false); });
    }
  }
  for (int i = 0; i < w.nm; ++i) {
    op_t o;
    o.k = MDROP;
    o.m = i;
    vf::hop([&] { real_step(o, -1, false); });
  }
  w.got(E_DONE);
  VF_CHECK(w.pos == w.want.size(), "trace-short", "only %zu of %zu expected events happened", w.pos, w.want.size());
  VF_EQ(w.book->live_count(), 0, "stack-leak", "stacks held at the end");
  VF_EQ(w.led.live.load(), 0, "value-leak", "callables and locals alive at the end");
  uint64_t h = 0;
  for (auto &e : w.want) h = vf::mix64(h, vf::mix64((u64)e.k * 131 + (u64)e.a, vf::mix64((u64)e.b, (u64)e.c)));
  vf::tr(h);
  if (mo.maxdepth >= 2 && w.want.size() >= 25) vf::nontrivial();
  vf::note("%d tasks, %d managers, %zu events, depth %d", w.total, w.nm, w.want.size(), mo.maxdepth);
  W = nullptr;
}

VF_MODE(life) {
  static const profile p{2, 5, 1, 0, 8, 30, 0, {{START, 18}, {RESUME, 22}, {CANCEL, 8}, {KILL, 14}, {QUERY, 14}, {NEXT, 4}, {THEN, 2}, {AWAIT, 3}, {AWAIT_BAD, 3}, {DROP, 3}, {SELFKEEP, 2}, {YIELD, 5}}};
  play(R, p);
}
VF_MODE(drop) {
  static const profile p{2, 6, 2, 0, 8, 26, 0, {{START, 20}, {RESUME, 14}, {CANCEL, 3}, {KILL, 6}, {QUERY, 5}, {NEXT, 14}, {THEN, 5}, {AWAIT, 4}, {DROP, 22}, {SELFKEEP, 6}, {YIELD, 5}}};
  play(R, p);
}
VF_MODE(chain) {
  static const profile p{3, 7, 3, 0, 10, 34, 0, {{START, 16}, {RESUME, 16}, {CANCEL, 5}, {KILL, 8}, {QUERY, 4}, {NEXT, 24}, {THEN, 10}, {AWAIT, 14}, {AWAIT_BAD, 3}, {DROP, 5}, {YIELD, 6}}};
  play(R, p);
}
VF_MODE(exc) {
  static const profile p{2, 6, 2, 0, 8, 28, 0, {{START, 20}, {RESUME, 16}, {CANCEL, 6}, {KILL, 8}, {QUERY, 5}, {NEXT, 12}, {THEN, 5}, {AWAIT, 5}, {DROP, 6}, {THROW, 20}, {YIELD, 5}}};
  play(R, p);
}
VF_MODE(mgr) {
  static const profile p{2, 6, 1, 2, 12, 40, 0, {{START, 8}, {RESUME, 8}, {CANCEL, 4}, {KILL, 6}, {QUERY, 4}, {NEXT, 5}, {THEN, 2}, {AWAIT, 3}, {DROP, 5}, {YIELD, 5}, {THROW, 3}, {MADD, 26}, {MSTART, 14}, {MRESUME, 12}, {MCANCEL, 7}, {MKILL, 7}, {MREMOVE, 8}, {MTIMEOUT, 4}, {MTICK, 5}, {MQUERY, 12}}};
  play(R, p);
}
VF_MODE(timer) {
  static const profile p{3, 8, 0, 2, 16, 50, 0, {{START, 6}, {RESUME, 6}, {KILL, 3}, {DROP, 2}, {YIELD, 6}, {NEXT, 3}, {MADD, 30}, {MSTART, 8}, {MRESUME, 5}, {MCANCEL, 2}, {MKILL, 3}, {MREMOVE, 4}, {MTIMEOUT, 22}, {MTICK, 34}, {MQUERY, 14}, {MRESET, 1}}};
  play(R, p);
}
VF_MODE(reset) {
  static const profile p{2, 6, 1, 2, 10, 34, 0, {{START, 8}, {RESUME, 6}, {CANCEL, 2}, {KILL, 4}, {QUERY, 3}, {NEXT, 5}, {AWAIT, 2}, {DROP, 5}, {YIELD, 6}, {THROW, 3}, {MADD, 30}, {MSTART, 14}, {MRESUME, 8}, {MCANCEL, 3}, {MKILL, 4}, {MREMOVE, 4}, {MTIMEOUT, 5}, {MTICK, 8}, {MRESET, 12}, {MDROP, 4}, {MQUERY, 8}}};
  play(R, p);
}
}  // namespace
