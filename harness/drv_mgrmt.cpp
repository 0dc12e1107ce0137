// C16: task managers used from many threads at once.
// mgrmt: threads (and the bodies they run) add, start, resume, cancel, kill, remove, retime, find, tick and reset over a few
//        tasks they share. Every call is logged with its result and two stamps; the log is judged afterwards.
// privmt: the tasks of each thread are its own, the manager is shared: every result is known exactly.
// stdmgrmt: the same for the manager of C++20 tasks.
#include "lib.h"

#include <libcotask/task.h>
#include <libcotask/task_manager.h>
#include <libcopp/coroutine/callable_promise.h>
#include <libcopp/coroutine/generator_promise.h>
#include <libcotask/task_promise.h>

#include <algorithm>
#include <coroutine>
#include <thread>

namespace {
using u64 = uint64_t;
struct macro {
  using stack_allocator_type = vf::talloc;
  using coroutine_type = copp::coroutine_context_container<vf::talloc>;
  using value_type = int;
};
using task_t = cotask::task<macro>;
using task_p = task_t::ptr_type;
using mgr_t = cotask::task_manager<task_t>;
using id_t = task_t::id_type;

enum EC {
  OK = copp::COPP_EC_SUCCESS,
  RESET = copp::COPP_EC_IN_RESET,
  NOTREADY = copp::COPP_EC_NOT_READY,
  RUNNING = copp::COPP_EC_IS_RUNNING,
  FINISHED = copp::COPP_EC_ALREADY_FINISHED,
  NOTFOUND = copp::COPP_EC_NOT_FOUND,
  EXIST = copp::COPP_EC_ALREADY_EXIST,
  OTHER = copp::COPP_EC_TASK_ALREADY_IN_ANOTHER_MANAGER,
  EXITING = copp::COPP_EC_TASK_IS_EXITING,
};

vf::rlx<u64> g_clk{1};
u64 stamp() { return g_clk.fetch_add(1, std::memory_order_relaxed); }
void gate(std::atomic<int> &a, int n) {
  a.fetch_add(1, std::memory_order_acq_rel);
  for (int i = 0; a.load(std::memory_order_acquire) < n; ++i)
    if (i > 200) std::this_thread::yield();
}

enum op_k { O_ADD, O_START, O_RESUME, O_CANCEL, O_KILL, O_REMOVE, O_RETIME, O_FIND, O_TICK, O_RESET, O_DIRECT_RESUME, O_DIRECT_KILL };
const char *op_name[] = {"add", "start", "resume", "cancel", "kill", "remove", "set_timeout", "find", "tick", "reset", "task.resume", "task.kill"};
struct rec {
  u64 b = 0, e = 0;
  int op = 0, t = -1, m = 0, rc = 0;
  int64_t sec = 0;  // timeout or time
  bool in_body = false;
};

struct body {
  int idx = 0;
  id_t id = 0;
  int nseg = 1, ret = 0;
  bool obey = false, held = true;
  u64 salt = 0;
  unsigned ops = 0;  // percent
  vf::rlx<int> inside{0}, starts{0}, completions{0}, dead{0}, final_status{-1};
  vf::rlx<u64> begun{0}, ended{0}, finished{0};
  int seq = 0;
  u64 chain = 0;
  std::vector<rec> recs;
};

struct world {
  vf::rng &R;
  std::shared_ptr<vf::stack_book> book = std::make_shared<vf::stack_book>();
  std::vector<std::shared_ptr<mgr_t>> ms;
  std::vector<std::unique_ptr<body>> bs;
  std::vector<task_p> ts;  // null if nobody but the managers holds it
  vf::rlx<int64_t> now{1};
  bool with_reset = false, with_tick = false, with_remove = true;
  int zero_pct = 50;

  explicit world(vf::rng &r) : R(r) {}

  struct act : cotask::impl::task_action_impl {
    world *w;
    body *b;
    vf::tv pay;
    bool armed = true;
    act(world *w_, body *b_, vf::ledger *l) : w(w_), b(b_), pay(l, b_->salt) {}
    act(act &&o) noexcept : w(o.w), b(o.b), pay(std::move(o.pay)), armed(o.armed) { o.armed = false; }
    ~act() {
      if (armed) {
        VF_EQ(b->dead.fetch_add(1), 0, "callable-destroyed-twice", "destructions of the callable");
        VF_EQ(b->inside.load(), 0, "destroyed-while-running", "body executing while it is destroyed");
      }
    }
    int operator()(void *) override { return w->run_body(b, pay); }
    int on_finished(cotask::impl::task_impl &t) override {
      VF_EQ(pay.get(), b->salt, "callable-damaged", "callable payload");
      VF_EQ(b->completions.fetch_add(1), 0, "ended-twice", "earlier completion callbacks");
      int s = t.get_status();
      VF_CHECK(s >= cotask::EN_TS_DONE, "ended-not-final", "completion callback with status %d", s);
      int none = -1;
      if (!b->final_status.compare_exchange_strong(none, s)) VF_EQ(s, none, "status-changed", "final status");
      b->finished.store(stamp());
      return 0;
    }
  };
  vf::ledger led;

  int run_body(body *b, const vf::tv &pay) {
    VF_EQ(b->starts.fetch_add(1, std::memory_order_relaxed), 0, "body-run-twice", "earlier runs of the body");
    b->begun.store(stamp(), std::memory_order_relaxed);
    vf::rng r(b->salt);
    volatile u64 a[32];
    for (int i = 0; i < 32; ++i) a[i] = vf::mix64(b->salt, (u64)i);
    for (int k = 0;; ++k) {
      VF_EQ(b->inside.exchange(1, std::memory_order_relaxed), 0, "two-threads-inside", "threads already executing the body");
      VF_EQ(b->seq, k, "segment-order", "segments so far");
      u64 c = b->chain;
      if (r.chance(b->ops)) exec(r, b->recs, true);
      if (r.chance(50)) vf::spin_a_bit(r.below(300));
      VF_CHECK(c == b->chain && b->seq == k, "segment-order", "state of the body moved under it");
      b->chain = vf::mix64(c, (u64)k);
      b->seq = k + 1;
      VF_EQ(pay.get(), b->salt, "callable-damaged", "callable payload");
      VF_EQ(b->inside.exchange(0, std::memory_order_relaxed), 1, "two-threads-inside", "threads executing the body at the end of a segment");
      if (k + 1 >= b->nseg) break;
      auto *self = cotask::this_task::get<task_t>();
      VF_CHECK(self && self->get_id() == b->id, "current-task", "wrong current task inside a body");
      if (b->obey && self->is_exiting()) break;
      self->yield();
      for (int i = 0; i < 32; ++i) VF_CHECK(a[i] == vf::mix64(b->salt, (u64)i), "stack-damaged", "stack of a task changed while it was suspended");
    }
    b->ended.store(stamp(), std::memory_order_relaxed);
    return b->ret;
  }

  void observe(body *b, int s) {
    if (s < cotask::EN_TS_DONE) {
      return;
    }
    int none = -1;
    if (!b->final_status.compare_exchange_strong(none, s)) VF_EQ(s, none, "status-changed", "final status");
  }

  void exec(vf::rng &r, std::vector<rec> &out, bool in_body) {
    rec c;
    c.in_body = in_body;
    c.t = (int)r.below(bs.size());
    c.m = (int)r.below(ms.size());
    body *b = bs[(size_t)c.t].get();
    mgr_t &m = *ms[(size_t)c.m];
    task_t *direct = ts[(size_t)c.t].get();
    unsigned k = (unsigned)r.below(100);
    auto timeout = [&] { return r.chance((unsigned)zero_pct) ? 0 : r.range(1, 12); };
    if (k < 18) {
      if (!direct) return;
      c.op = O_ADD;
      c.sec = timeout();
      c.b = stamp();
      c.rc = c.sec ? m.add_task(ts[(size_t)c.t], c.sec, 0) : m.add_task(ts[(size_t)c.t]);
    } else if (k < 34) {
      c.op = O_START;
      c.b = stamp();
      c.rc = m.start(b->id);
    } else if (k < 52) {
      c.op = O_RESUME;
      c.b = stamp();
      c.rc = m.resume(b->id);
    } else if (k < 57) {
      c.op = O_CANCEL;
      c.b = stamp();
      c.rc = m.cancel(b->id);
    } else if (k < 62) {
      c.op = O_KILL;
      c.b = stamp();
      c.rc = m.kill(b->id);
    } else if (k < 70) {
      if (!with_remove) return;
      c.op = O_REMOVE;
      c.b = stamp();
      c.rc = direct && r.chance(40) ? m.remove_task(b->id, ts[(size_t)c.t]) : m.remove_task(b->id);
    } else if (k < 78) {
      c.op = O_RETIME;
      c.sec = timeout();
      c.b = stamp();
      c.rc = m.set_timeout(b->id, c.sec, 0);
    } else if (k < 86) {
      c.op = O_FIND;
      c.b = stamp();
      task_p p = m.find_task(b->id);
      c.rc = p ? OK : NOTFOUND;
      if (p) {
        VF_EQ(p->get_id(), b->id, "find-wrong-task", "id of the task found");
        if (direct) VF_CHECK(p.get() == direct, "find-wrong-task", "another task found");
        observe(b, p->get_status());
        VF_EQ(b->dead.load(), 0, "found-destroyed", "task found after it was destroyed");
      }
    } else if (k < 92) {
      if (!with_tick) return;
      c.op = O_TICK;
      c.t = -1;
      c.sec = now.fetch_add(r.range(0, 3)) + 1;
      c.b = stamp();
      c.rc = m.tick(c.sec);
    } else if (k < 94) {
      if (!with_reset || !r.chance(30)) return;
      c.op = O_RESET;
      c.t = -1;
      c.b = stamp();
      m.reset();
    } else if (k < 98) {
      if (!direct) return;
      c.op = O_DIRECT_RESUME;
      c.b = stamp();
      c.rc = direct->resume();
    } else {
      if (!direct) return;
      c.op = O_DIRECT_KILL;
      c.b = stamp();
      c.rc = direct->kill(cotask::EN_TS_KILLED, nullptr);
    }
    c.e = stamp();
    out.push_back(c);
    if (direct && r.chance(30)) observe(b, direct->get_status());
  }

  void make(int i, unsigned ops) {
    auto b = std::make_unique<body>();
    b->idx = i;
    b->nseg = (int)R.range(1, R.chance(50) ? 20 : 6);
    b->ret = (int)R.below(1000);
    b->obey = R.chance(40);
    b->salt = R.next();
    b->ops = ops;
    vf::talloc al(book);
    auto p = task_t::create(act(this, b.get(), &led), al, 128 * 1024);
    VF_CHECK(p, "create-failed", "task");
    b->id = p->get_id();
    ts.push_back(p);
    bs.push_back(std::move(b));
  }

  // ---- judging
  std::vector<rec> all;
  void judge() {
    int nm = (int)ms.size();
    std::vector<const rec *> resets, ticks;
    for (auto &c : all) {
      if (c.op == O_RESET) resets.push_back(&c);
      if (c.op == O_TICK) {
        ticks.push_back(&c);
        VF_CHECK(c.rc == OK || (c.rc == RESET && with_reset), "tick-result", "tick returned %d", c.rc);
      }
    }
    auto reset_near = [&](const rec &c) {
      for (auto *x : resets)
        if (x->m == c.m && x->b < c.e && x->e > c.b) return true;
      return false;
    };
    for (auto &bp : bs) {
      body &b = *bp;
      std::vector<const rec *> cs;
      for (auto &c : all)
        if (c.t == b.idx) cs.push_back(&c);
      bool ended = b.finished.load() != 0;
      u64 fin = b.finished.load();
      int wins = 0;
      for (auto *c : cs) {
        if (c->rc == RESET && c->op != O_DIRECT_KILL && c->op != O_DIRECT_RESUME) {
          VF_CHECK(reset_near(*c), "reset-for-nothing", "%s was refused because of a reset, and none ran", op_name[c->op]);
          continue;
        }
        bool may_be_over = false;  // the end may have begun during the call
        if (ended) {
          u64 first = b.ended.load() ? b.ended.load() : fin;
          if (fin < c->e || (first && first < c->e)) may_be_over = true;
          for (auto *o : cs)
            if ((o->op == O_CANCEL || o->op == O_KILL || o->op == O_REMOVE || o->op == O_DIRECT_KILL) && o->rc == OK && o->b < c->e) may_be_over = true;
          for (auto *o : ticks)
            if (o->b < c->e) may_be_over = true;
          for (auto *o : resets)
            if (o->b < c->e) may_be_over = true;
        }
        bool bad = false;
        switch (c->op) {
          case O_ADD:
            if (c->rc == EXITING)
              bad = !may_be_over;
            else if (c->rc == OTHER) {
              bad = pre[(size_t)b.idx] < 0 || pre[(size_t)b.idx] == c->m;
              for (auto *o : cs)
                if (o->op == O_ADD && o->m != c->m && o->rc == OK && o->b < c->e) bad = false;
            } else if (c->rc == EXIST) {
              bad = true;
              for (auto *o : cs)
                if (o->op == O_ADD && o->m == c->m && o->rc == OK && o->b < c->e) bad = false;
              if (pre[(size_t)b.idx] == c->m) bad = false;
            } else
              bad = c->rc != OK;
            break;
          case O_START:
          case O_RESUME:
          case O_DIRECT_RESUME:
            if (c->rc == FINISHED)
              bad = !may_be_over;
            else
              bad = !(c->rc == OK || c->rc == RUNNING || c->rc == NOTFOUND || (c->op != O_START && c->rc == NOTREADY));
            break;
          case O_CANCEL:
            bad = !(c->rc == OK || c->rc == RUNNING || c->rc == NOTFOUND || (c->rc == FINISHED && may_be_over));
            break;
          case O_KILL:
          case O_DIRECT_KILL:
          case O_REMOVE:
            bad = !(c->rc == OK || c->rc == NOTFOUND || (c->rc == FINISHED && may_be_over));
            break;
          case O_RETIME:
          case O_FIND:
            bad = !(c->rc == OK || c->rc == NOTFOUND);
            break;
          default:
            break;
        }
        VF_CHECK(!bad, "result-unexplained", "%s of task %d returned %d", op_name[c->op], b.idx, c->rc);
        if ((c->op == O_CANCEL || c->op == O_KILL || c->op == O_DIRECT_KILL) && c->rc == OK) {
          ++wins;
          VF_EQ(b.final_status.load(), c->op == O_CANCEL ? cotask::EN_TS_CANCELED : cotask::EN_TS_KILLED, "status-not-the-winners",
                "final status of a task that was killed or cancelled");
        }
      }
      VF_CHECK(wins <= 1, "ended-twice", "%d kill and cancel calls of task %d reported success", wins, b.idx);
      VF_EQ(b.completions.load(), ended ? 1 : 0, "ended-twice", "completions");
      if (b.starts.load() && !ended) VF_CHECK(b.ended.load() == 0, "end-not-reported", "the body of task %d ended and nobody was told", b.idx);
      // membership
      for (int m = 0; m < nm; ++m) {
        struct iv {
          u64 b, e;
        };
        std::vector<iv> adds, outs;
        if (pre[(size_t)b.idx] == m) adds.push_back({0, 0});
        for (auto *c : cs) {
          if (c->op == O_ADD && c->m == m && c->rc == OK) adds.push_back({c->b, c->e});
          if (c->op == O_CANCEL || c->op == O_KILL || c->op == O_REMOVE) outs.push_back({c->b, c->e});
          // also of another manager: it was looked up there before it was moved to this one
          if (c->op == O_DIRECT_KILL) outs.push_back({c->b, c->e});
          if ((c->op == O_START || c->op == O_RESUME || c->op == O_DIRECT_RESUME) && c->rc == OK) outs.push_back({c->b, c->e});
        }
        for (auto *c : ticks) outs.push_back({c->b, c->e});
        for (auto *c : resets) outs.push_back({c->b, c->e});
        for (auto *c : cs) {
          if (c->m != m || c->rc != NOTFOUND) continue;
          if (c->op == O_DIRECT_KILL || c->op == O_DIRECT_RESUME) continue;
          for (auto &a : adds) {
            if (a.e >= c->b) continue;
            bool out = false;
            for (auto &o : outs)
              if (o.e > a.b && o.b < c->e && !(o.b == c->b && o.e == c->e)) out = true;
            VF_CHECK(out, "lost-task", "%s did not find task %d, which is in the manager and nothing removed it", op_name[c->op], b.idx);
          }
        }
        for (auto *c : cs) {
          if (c->m != m || c->rc == NOTFOUND || c->rc == RESET || c->op == O_ADD || c->op >= O_TICK) continue;
          bool in = false;
          for (auto &a : adds)
            if (a.b < c->e) in = true;
          VF_CHECK(in, "found-never-added", "%s found task %d, which nobody had added", op_name[c->op], b.idx);
        }
      }
      // conservation
      if (!ended) {
        int total = 0;
        for (int m = 0; m < nm; ++m) {
          int n = pre[(size_t)b.idx] == m;
          for (auto *c : cs) {
            if (c->m != m) continue;
            if (c->op == O_ADD && c->rc == OK) ++n;
            if (c->op == O_REMOVE && c->rc == OK) --n;
          }
          VF_CHECK(n == 0 || n == 1, "membership-count", "task %d was added to and removed from manager %d with difference %d", b.idx, m, n);
          auto p = ms[(size_t)m]->find_task(b.id);
          VF_EQ(p ? 1 : 0, n, "lost-task", "the task is in the manager");
          total += n;
          if (n) in_manager[(size_t)m]++;
          if (n && p) {
            int timed = 0, untimed = 0;
            if (pre[(size_t)b.idx] == m) (pre_sec[(size_t)b.idx] ? timed : untimed)++;
            for (auto *c : cs)
              if (c->m == m && c->rc == OK && (c->op == O_ADD || c->op == O_RETIME)) (c->sec ? timed : untimed)++;
            auto it = ms[(size_t)m]->get_container().find(b.id);
            bool has = it->second.timer_node != ms[(size_t)m]->get_checkpoints().end();
            if (has) {
              VF_EQ(it->second.timer_node->task_id, b.id, "checkpoint-of-another", "id at the checkpoint");
              with_timer[(size_t)m]++;
            }
            if (!timed) VF_CHECK(!has, "checkpoint", "task %d has a deadline that nobody gave it", b.idx);
            if (!untimed) VF_CHECK(has, "checkpoint", "task %d lost its deadline", b.idx);
          }
        }
        VF_CHECK(total <= 1, "in-two-managers", "task %d is in %d managers", b.idx, total);
      } else {
        for (auto &m : ms) VF_CHECK(!m->find_task(b.id), "ended-task-in-manager", "task %d ended and is still in a manager", b.idx);
      }
      // ended by a deadline: some tick was later than the earliest possible deadline
      if (b.final_status.load() == cotask::EN_TS_TIMEOUT && b.held) {
        bool could = false;
        for (auto *t : ticks) {
          int64_t first = INT64_MAX;
          auto consider = [&](u64 begin, int64_t sec) {
            int64_t base = 1;
            for (auto *o : ticks)
              if (o->m == t->m && o->e < begin && o->rc == OK && !ignored(o, ticks)) base = std::max(base, o->sec);
            first = std::min(first, base + sec);
          };
          for (auto *c : cs)
            if (c->m == t->m && c->rc == OK && (c->op == O_ADD || c->op == O_RETIME) && c->sec && c->b < t->e) consider(c->b, c->sec);
          if (pre[(size_t)b.idx] == t->m && pre_sec[(size_t)b.idx]) first = std::min(first, 1 + pre_sec[(size_t)b.idx]);
          if (first < t->sec) could = true;
        }
        VF_CHECK(could, "timeout-too-early", "task %d was ended by its deadline before it", b.idx);
        VF_COUNT("mgrmt_timeouts");
      }
      if (ended) VF_COUNT("mgrmt_tasks_ended");
    }
  }
  // a tick during another one, or with a time not after an earlier one, has no effect
  static bool ignored(const rec *o, const std::vector<const rec *> &ticks) {
    for (auto *x : ticks)
      if (x != o && x->m == o->m && x->b < o->e && x->e > o->b) return true;
    return false;
  }
  std::vector<int> pre;
  std::vector<int64_t> pre_sec;
  std::vector<size_t> in_manager, with_timer;

  void run(unsigned delay) {
    int nth = (int)R.range(2, 6), nt = (int)R.range(1, 8), nm = R.chance(20) ? 2 : 1;
    with_reset = R.chance(20);
    with_tick = R.chance(50);
    with_remove = R.chance(80);
    zero_pct = with_tick ? (int)R.range(0, 80) : (int)R.range(20, 100);
    in_manager.assign((size_t)nm, 0);
    with_timer.assign((size_t)nm, 0);
    for (int i = 0; i < nm; ++i) {
      ms.push_back(mgr_t::create());
      ms.back()->tick(1);
    }
    unsigned ops = R.chance(50) ? (unsigned)R.range(5, 60) : 0;
    for (int i = 0; i < nt; ++i) {
      make(i, ops);
      pre.push_back(-1);
      pre_sec.push_back(0);
      if (R.chance(50)) {
        pre[(size_t)i] = (int)R.below((u64)nm);
        pre_sec[(size_t)i] = R.chance((unsigned)zero_pct) ? 0 : R.range(1, 12);
        VF_EQ(ms[(size_t)pre[(size_t)i]]->add_task(ts[(size_t)i], pre_sec[(size_t)i], 0), OK, "add", "first add");
        if (R.chance(40)) {
          bs[(size_t)i]->held = false;
          ts[(size_t)i].reset();
        }
      }
    }
    if (delay) vf::delays_on(R.next(), delay);
    std::vector<std::vector<rec>> recs((size_t)nth);
    std::vector<std::thread> th;
    std::atomic<int> g{0};
    int iters = (int)R.range(6, 30);
    for (int t = 0; t < nth; ++t)
      th.emplace_back([&, t, seed = R.next()] {
        vf::rng r(seed);
        auto &out = recs[(size_t)t];
        out.reserve((size_t)iters);
        gate(g, nth);
        for (int k = 0; k < iters; ++k) {
          exec(r, out, false);
          if (r.chance(20)) vf::spin_a_bit(r.below(300));
        }
      });
    for (auto &x : th) x.join();
    vf::delays_off();
    u64 overlaps = 0;
    for (auto &v : recs) all.insert(all.end(), v.begin(), v.end());
    for (auto &b : bs) all.insert(all.end(), b->recs.begin(), b->recs.end());
    for (auto &a : all)
      for (auto &b : all)
        if (&a < &b && a.b < b.e && b.b < a.e && (a.t == b.t || a.t < 0 || b.t < 0)) ++overlaps;
    std::sort(all.begin(), all.end(), [](const rec &a, const rec &b) { return a.b < b.b; });
    if (vf::g_verbose) fprintf(stderr, "-- %d threads, %d tasks\n", nth, nt);
    for (auto &c : all) {
      vf::tr(vf::mix64((u64)c.op, (u64)(c.t + 1)), (u64)(int64_t)c.rc);
      if (vf::g_verbose) fprintf(stderr, "  [%llu %llu] %s t%d m%d sec %lld -> %d%s\n", (unsigned long long)c.b, (unsigned long long)c.e, op_name[c.op], c.t, c.m, (long long)c.sec, c.rc, c.in_body ? " (body)" : "");
    }
    judge();
    VF_COUNT_N("mgrmt_calls", all.size());
    VF_COUNT_N("mgrmt_overlapping_pairs", overlaps);
    vf::note("%d threads, %d tasks, %d managers, %zu calls of which %llu pairs overlapped", nth, nt, nm, all.size(), (unsigned long long)overlaps);
    if (overlaps >= 3) vf::nontrivial();
    // quiescent: exact counts
    for (int m = 0; m < nm; ++m) {
      VF_EQ(ms[(size_t)m]->get_task_size(), in_manager[(size_t)m], "manager-size", "tasks in the manager");
      VF_EQ(ms[(size_t)m]->get_tick_checkpoint_size(), with_timer[(size_t)m], "manager-checkpoints", "deadlines in the manager");
    }
    // all deadlines pass
    if (R.chance(60)) {
      all.clear();
      if (R.chance(50))
        for (auto &b : bs) b->ops = 0;  // otherwise bodies that run now may add, remove and retime more
      for (int m = 0; m < nm; ++m) {
        VF_EQ(ms[(size_t)m]->tick(now + 1000), OK, "tick", "the last tick");
        // the first one only sets the times if the manager was reset
        VF_EQ(ms[(size_t)m]->tick(now + 5000), OK, "tick", "the last tick");
        if (bodies_act()) continue;
        VF_EQ(ms[(size_t)m]->get_tick_checkpoint_size(), 0, "manager-checkpoints", "deadlines left after a tick beyond all of them");
        size_t left = ms[(size_t)m]->get_task_size();
        VF_COUNT("mgrmt_last_ticks_judged");
        VF_EQ(left, in_manager[(size_t)m] - with_timer[(size_t)m], "manager-size", "tasks left after a tick beyond all deadlines");
      }
    }
    if (R.chance(50)) {
      for (auto &m : ms) {
        m->reset();
        if (!bodies_act()) VF_EQ(m->get_task_size(), 0, "manager-size", "tasks after a reset");
      }
    }
    std::vector<std::shared_ptr<mgr_t>> dying;
    bool tasks_first = R.chance(50);
    for (auto &b : bs) b->ops = 0;
    if (tasks_first) ts.assign(ts.size(), nullptr);
    ms.clear();
    ts.clear();
    for (auto &b : bs) {
      VF_EQ(b->dead.load(), 1, "task-leaked", "destructions of the callable");
      VF_CHECK(b->starts.load() == 0 || (b->ended.load() && b->completions.load() == 1), "never-ended", "task %d: body ended %d, completions %d", b->idx,
               b->ended.load() != 0, b->completions.load());
    }
    VF_EQ(led.live.load(), 0, "callables-leaked", "payloads alive");
    VF_EQ(book->live_count(), 0, "stacks-leaked", "stacks alive");
  }
  bool bodies_act() {
    for (auto &b : bs)
      if (b->ops) return true;
    return false;
  }
};
}  // namespace

VF_MODE(mgrmt) {
  world w(R);
  w.run(R.chance(85) ? (unsigned)R.range(3, 60) : 0);
}

// ---- tasks of one's own in a shared manager
namespace {
using PS = copp::promise_status;
using ctask_t = cotask::task_future<int, void>;
using cmgr_t = cotask::task_manager<ctask_t>;
using gen_t = copp::generator_future<int>;

struct item {  // one task and what its owner knows; handed between threads only at the gates
  int idx = 0;
  u64 salt = 0;
  int nseg = 1;
  u64 id = 0;
  bool in = false, started = false, ended = false, final = false;
  int status = 1;
  bool timed = false;
  int64_t due = 0;
  int body_starts = 0, body_ends = 0, segs = 0;
  vf::rlx<int> dead{0};
  vf::ledger *led = nullptr;
  // stackful
  task_p tp;
  // C++20
  ctask_t ct;
  std::unique_ptr<gen_t> gen;
  std::shared_ptr<gen_t::context_type> gctx;
  u64 seen = 0;
};
struct stackful {
  using mgr = mgr_t;
  static constexpr bool STD = false;
  static constexpr int CREATED = cotask::EN_TS_CREATED, WAIT = cotask::EN_TS_WAITING, DONE = cotask::EN_TS_DONE, CANCELED = cotask::EN_TS_CANCELED,
                       KILLED = cotask::EN_TS_KILLED, TIMEOUT = cotask::EN_TS_TIMEOUT;
};
struct cpp20 {
  using mgr = cmgr_t;
  static constexpr bool STD = true;
  static constexpr int CREATED = (int)PS::kCreated, WAIT = (int)PS::kRunning, DONE = (int)PS::kDone, CANCELED = (int)PS::kCancle,
                       KILLED = (int)PS::kKilled, TIMEOUT = (int)PS::kTimeout;
};

int own_body(item *x) {
  VF_EQ(x->body_starts++, 0, "body-run-twice", "earlier runs of the body");
  {
    vf::tv local(x->led, x->salt);
    for (int k = 0;; ++k) {
      ++x->segs;
      vf::spin_a_bit(vf::mix64(x->salt, (u64)k) % 200);
      if (k + 1 >= x->nseg) break;
      auto *self = cotask::this_task::get<task_t>();
      VF_CHECK(self && self->get_id() == x->id, "current-task", "wrong current task");
      if (self->is_exiting()) break;
      self->yield();
      VF_EQ(local.get(), x->salt, "stack-damaged", "local of a body");
      if (self->is_exiting()) break;
    }
  }
  ++x->body_ends;
  return x->idx;
}
ctask_t own_coro(item *x) {
  VF_EQ(x->body_starts++, 0, "body-run-twice", "earlier runs of the body");
  {
    vf::tv local(x->led, x->salt);
    for (int k = 0;; ++k) {
      ++x->segs;
      vf::spin_a_bit(vf::mix64(x->salt, (u64)k) % 200);
      if (k + 1 >= x->nseg) break;
      PS st = co_yield ctask_t::yield_status();
      if (st >= PS::kDone) break;
      int got = co_await *x->gen;
      (void)got;
      VF_EQ(local.get(), x->salt, "frame-damaged", "local of a body");
      PS now = co_yield ctask_t::yield_status();
      if (now >= PS::kDone) break;
    }
  }
  ++x->body_ends;
  co_return x->idx;
}

template <class P>
struct own_world {
  vf::rng &R;
  std::shared_ptr<vf::stack_book> book = std::make_shared<vf::stack_book>();
  std::shared_ptr<typename P::mgr> m = P::mgr::create();
  std::vector<std::unique_ptr<item>> xs;
  vf::ledger led;
  vf::rlx<u64> ops{0};

  explicit own_world(vf::rng &r) : R(r) {}

  void make(int i) {
    auto x = std::make_unique<item>();
    x->idx = i;
    x->salt = R.next();
    x->nseg = (int)R.range(1, 8);
    x->led = &led;
    xs.push_back(std::move(x));
    renew(*xs.back());
  }
  void fresh_gen(item &x) {
    x.gctx.reset();
    x.gen = std::make_unique<gen_t>([&x](gen_t::context_pointer_type c) { x.gctx = std::move(c); });
  }
  void renew(item &x) {
    if constexpr (P::STD) x.ct = ctask_t();  // runs the body of a task killed before its start
    VF_EQ(x.body_ends, x.body_starts, "own-ended", "a body at the end");
    x.in = x.started = x.ended = x.final = x.timed = false;
    x.body_starts = x.body_ends = x.segs = 0;
    if constexpr (P::STD) {
      fresh_gen(x);
      x.ct = own_coro(&x);
      x.id = x.ct.get_id();
    } else {
      vf::talloc al{book};
      item *xp = &x;
      x.tp = task_t::create([xp]() { return own_body(xp); }, al, 96 * 1024);
      VF_CHECK(x.tp, "create-failed", "task");
      x.id = x.tp->get_id();
    }
    x.status = P::CREATED;
  }
  int status_of(item &x) {
    if constexpr (P::STD)
      return (int)x.ct.get_status();
    else
      return x.tp->get_status();
  }
  void finish(item &x, int st) {
    if (!x.final) x.status = st;
    x.final = true;
    x.ended = true;
    x.in = false;
    x.timed = false;
  }
  // x was driven: it is at its end, or suspended again
  void drove(item &x) {
    x.started = true;
    if (x.segs == x.nseg)
      finish(x, P::DONE);
    else
      x.status = P::WAIT;
  }
  void verify(item &x, const char *what) {
    VF_EQ(status_of(x), x.status, "own-status", what);
    VF_EQ(x.body_starts, x.started ? 1 : 0, "own-started", what);
    VF_EQ(x.body_ends, x.ended && x.started ? 1 : 0, "own-ended", what);
    bool f;
    if constexpr (P::STD) {
      auto *p = m->find_task(x.id);
      f = !!p;
      if (p) VF_CHECK(p->get_context() == x.ct.get_context(), "find-wrong-task", "%s", what);
    } else {
      auto p = m->find_task(x.id);
      f = !!p;
      if (p) VF_CHECK(p.get() == x.tp.get(), "find-wrong-task", "%s", what);
    }
    VF_EQ(f ? 1 : 0, x.in ? 1 : 0, "own-membership", what);
  }
  void add(vf::rng &r, item &x, int64_t sec, int64_t now) {
    int rc;
    if constexpr (P::STD)
      rc = sec ? m->add_task(x.ct, sec, 0) : m->add_task(x.ct);
    else
      rc = sec ? m->add_task(x.tp, sec, 0) : m->add_task(x.tp);
    (void)r;
    VF_EQ(rc, x.final ? (int)EXITING : x.in ? (int)EXIST : (int)OK, "own-result", "add");
    if (rc == OK) {
      x.in = true;
      x.timed = sec != 0;
      x.due = now + sec;
    }
  }
  void step(vf::rng &r, item &x) {
    ops.fetch_add(1, std::memory_order_relaxed);
    unsigned k = (unsigned)r.below(100);
    if (k < 22) {
      add(r, x, r.chance(40) ? r.range(100000, 100010) : 0, 1);
      verify(x, "after add");
    } else if (k < 36) {
      int rc = m->start(x.id);
      VF_EQ(rc, x.in ? OK : NOTFOUND, "own-result", "start");
      if (rc == OK) {
        if (!x.started && !x.final)
          drove(x);
        else if (!P::STD && !x.final)
          drove(x);
        else if (x.final)
          x.in = false;
      }
      verify(x, "after start");
    } else if (k < 58) {
      if constexpr (P::STD) {
        if (!x.started || x.final) return;
        auto c = std::move(x.gctx);
        VF_CHECK(c, "own-not-suspended", "task %d does not wait", x.idx);
        auto keep = x.ct;
        auto old = std::move(x.gen);
        fresh_gen(x);
        c->set_value(7);
        drove(x);
      } else {
        if (!x.started) return;
        int rc = m->resume(x.id);
        VF_EQ(rc, x.in ? OK : NOTFOUND, "own-result", "resume");
        if (rc == OK) drove(x);
      }
      verify(x, "after resume");
    } else if (k < 66) {
      bool cancel = r.chance(50);
      int rc = cancel ? m->cancel(x.id) : m->kill(x.id);
      VF_EQ(rc, x.in ? OK : NOTFOUND, "own-result", "kill");
      if (rc == OK) end(x, cancel ? P::CANCELED : P::KILLED);
      verify(x, "after kill");
    } else if (k < 76) {
      int rc;
      if constexpr (P::STD)
        rc = r.chance(50) ? m->remove_task(x.id, x.ct) : m->remove_task(x.id);
      else
        rc = r.chance(50) ? m->remove_task(x.id, x.tp) : m->remove_task(x.id);
      VF_EQ(rc, x.in ? OK : NOTFOUND, "own-result", "remove");
      if (rc == OK) {
        if (x.started && !x.final) end(x, P::KILLED);
        x.in = x.timed = false;
      }
      verify(x, "after remove");
    } else if (k < 86) {
      int64_t sec = r.chance(50) ? 0 : r.range(100000, 100010);
      int rc = m->set_timeout(x.id, sec, 0);
      VF_EQ(rc, x.in ? OK : NOTFOUND, "own-result", "set_timeout");
      if (rc == OK) x.timed = sec != 0;
    } else if (k < 92) {
      verify(x, "find");
    } else {
      if (x.in) return;
      if (!x.ended && !(P::STD && x.final)) return;
      renew(x);
      VF_COUNT("own_tasks_renewed");
    }
  }
  void end(item &x, int st) {  // killed through the manager
    if (P::STD) {
      if (!x.final) x.status = st;
      x.final = true;
      x.in = x.timed = false;
      if (x.started) x.ended = true;  // it waited and was resumed
    } else {
      // an unstarted body is run, with the task exiting
      x.started = true;
      finish(x, st);
    }
  }

  void run(unsigned delay) {
    int nth = (int)R.range(2, 6), per = (int)R.range(1, 3), rounds = (int)R.range(1, 3);
    int n = nth * per;
    for (int i = 0; i < n; ++i) make(i);
    bool ticker = R.chance(70);
    if (!ticker || R.chance(50)) {  // else the first tick races with the others
      m->tick(1);
      now = 1;
    }
    if (delay) vf::delays_on(R.next(), delay);
    for (int round = 0; round < rounds; ++round) {
      std::vector<std::thread> th;
      std::atomic<int> g{0};
      int iters = (int)R.range(5, 40);
      for (int t = 0; t < nth; ++t)
        th.emplace_back([&, t, seed = R.next()] {
          vf::rng r(seed);
          gate(g, nth);
          if (t == 0 && ticker) {
            tick_thread(r, iters, round, per);
            return;
          }
          for (int k = 0; k < iters; ++k) {
            int slot = (int)r.below((u64)per);
            int owner = (t + round) % nth;
            if (ticker) owner = 1 + (t - 1 + round) % (nth - 1);
            step(r, *xs[(size_t)(owner * per + slot)]);
          }
        });
      for (auto &x : th) x.join();
      check_counts();
    }
    vf::delays_off();
    VF_COUNT_N("own_operations", ops.load());
    vf::note("%s manager, %d threads, %d tasks each, %llu operations", P::STD ? "C++20" : "stackful", nth, per, (unsigned long long)ops.load());
    if (ops.load() >= 20 && nth >= 2) vf::nontrivial();
    for (auto &x : xs) vf::tr(vf::mix64((u64)x->status, (u64)x->segs), (u64)x->in);
    if (R.chance(50)) {
      if (!now) m->tick(1);
      VF_EQ(m->tick(900000), OK, "tick", "the last tick");
      for (auto &x : xs)
        if (x->in && x->timed) {
          end(*x, P::TIMEOUT);
          verify(*x, "after the last tick");
        }
      check_counts();
    }
    if (R.chance(50)) {
      m->reset();
      for (auto &x : xs)
        if (x->in) {
          end(*x, P::KILLED);
          verify(*x, "after reset");
        }
      check_counts();
    }
    if constexpr (P::STD)
      if (R.chance(40)) reset_round(delay);
    m.reset();
    for (auto &x : xs) {
      x->tp.reset();
      x->gctx.reset();
      x->ct = ctask_t();
      VF_EQ(x->body_ends, x->body_starts, "own-ended", "a body at the end");
      x->gen.reset();
    }
    xs.clear();
    VF_EQ(led.live.load(), 0, "locals-leaked", "locals alive");
    VF_EQ(book->live_count(), 0, "stacks-leaked", "stacks alive");
  }
  // resets while others add, remove and retime tasks that were not started; every task leaves once
  void reset_round(unsigned delay) {
    if constexpr (P::STD) {
      m->tick(1000000);
      m->reset();
      int nth = (int)R.range(2, 4), per = (int)R.range(2, 6);
      struct spare {
        item x;
        int added = -1, removed = -1;
      };
      std::vector<std::unique_ptr<spare>> sp;
      for (int i = 0; i < nth * per; ++i) {
        sp.push_back(std::make_unique<spare>());
        sp.back()->x.idx = i;
        sp.back()->x.led = &led;
        renew(sp.back()->x);
        if (R.chance(40)) {
          sp.back()->added = m->add_task(sp.back()->x.ct, R.chance(50) ? 1000 : 0, 0);
          VF_EQ(sp.back()->added, OK, "own-result", "add");
        }
      }
      if (delay) vf::delays_on(R.next(), delay);
      std::vector<std::thread> th;
      std::atomic<int> g{0};
      for (int t = 0; t < nth; ++t)
        th.emplace_back([&, t, seed = R.next()] {
          vf::rng r(seed);
          gate(g, nth + 1);
          for (int k = 0; k < per * 3; ++k) {
            spare &y = *sp[(size_t)(t * per) + r.below((u64)per)];
            if (y.added != OK) {
              y.added = m->add_task(y.x.ct, r.chance(50) ? 1000 : 0, 0);
              VF_CHECK(y.added == OK || y.added == (int)copp::COPP_EC_IN_RESET, "own-result", "add during a reset: %d", y.added);
            } else if (y.removed != OK && r.chance(50)) {
              y.removed = m->remove_task(y.x.id);
              VF_CHECK(y.removed == OK || y.removed == NOTFOUND || y.removed == (int)copp::COPP_EC_IN_RESET, "own-result", "remove during a reset: %d", y.removed);
            } else {
              int rc = m->set_timeout(y.x.id, r.chance(50) ? 2000 : 0, 0);
              VF_CHECK(rc == OK || rc == NOTFOUND || rc == (int)copp::COPP_EC_IN_RESET, "own-result", "set_timeout during a reset: %d", rc);
            }
          }
        });
      th.emplace_back([&, seed = R.next()] {
        vf::rng r(seed);
        gate(g, nth + 1);
        int n = (int)r.range(1, 4);
        for (int k = 0; k < n; ++k) {
          vf::spin_a_bit(r.below(400));
          m->reset();
          VF_COUNT("own_resets_overlapping");
        }
      });
      for (auto &t : th) t.join();
      vf::delays_off();
      size_t in = 0;
      for (auto &y : sp) {
        int st = (int)y->x.ct.get_status();
        bool f = !!m->find_task(y->x.id);
        bool killed = st == P::KILLED;
        VF_CHECK(killed || st == P::CREATED, "own-status", "a task that was not started has status %d", st);
        if (y->added != OK) {
          VF_CHECK(!f && !killed, "own-membership", "a task that was not added");
        } else {
          VF_EQ((int)f + (int)killed + (int)(y->removed == OK), 1, "own-left-once", "ways in which a task left or stayed");
        }
        in += f;
      }
      VF_EQ(m->get_task_size(), in, "manager-size", "tasks after overlapping resets");
      m->reset();
      VF_EQ(m->get_task_size(), 0, "manager-size", "tasks after a reset");
      VF_EQ(m->get_tick_checkpoint_size(), 0, "manager-checkpoints", "deadlines after a reset");
      for (auto &y : sp) {
        y->x.ct = ctask_t();
        VF_EQ(y->x.body_ends, 1, "own-ended", "a body that was not started");
        y->x.gctx.reset();
      }
    }
  }
  int64_t now = 0;
  // its tasks have deadlines, and nobody else ticks
  void tick_thread(vf::rng &r, int iters, int, int per) {
    for (int k = 0; k < iters; ++k) {
      ops.fetch_add(1, std::memory_order_relaxed);
      item &x = *xs[r.below((u64)per)];
      if (x.ended || (x.final && !x.in)) {
        renew(x);
        continue;
      }
      if (r.chance(40)) {
        int64_t to = r.range(1, 4);
        add(r, x, to, now);
        verify(x, "after add");
      } else if (r.chance(30)) {
        int64_t to = r.range(0, 4);
        int rc = m->set_timeout(x.id, to, 0);
        VF_EQ(rc, x.in ? OK : NOTFOUND, "own-result", "set_timeout");
        if (x.in) x.timed = to != 0, x.due = now + to;
      } else if (r.chance(30)) {
        int rc = m->start(x.id);
        VF_EQ(rc, x.in ? OK : NOTFOUND, "own-result", "start");
        if (rc == OK && (!x.started || !P::STD)) drove(x);
        verify(x, "after start");
      } else {
        int64_t t = now + r.range(1, 3);
        VF_EQ(m->tick(t), OK, "own-result", "tick");
        bool first = now == 0;
        now = t;
        if (first) VF_COUNT("own_first_ticks");
        for (int i = 0; first && i < per; ++i) xs[(size_t)i]->due += t;  // they count from the first tick
        for (int i = 0; i < per; ++i) {
          item &y = *xs[(size_t)i];
          if (!first && y.in && y.timed && y.due < now) {
            end(y, P::TIMEOUT);
            VF_COUNT("own_timeouts");
          }
          verify(y, "after tick");
        }
      }
    }
  }
  void check_counts() {
    size_t in = 0, timed = 0;
    for (auto &x : xs) {
      in += x->in;
      timed += x->in && x->timed;
    }
    VF_EQ(m->get_task_size(), in, "manager-size", "tasks in the manager");
    VF_EQ(m->get_container().size(), in, "manager-size", "tasks in the container");
    VF_EQ(m->get_tick_checkpoint_size(), timed, "manager-checkpoints", "deadlines in the manager");
    for (auto &x : xs) verify(*x, "when quiet");
    VF_COUNT("own_quiet_states_compared");
  }
};
}  // namespace

VF_MODE(privmt) {
  own_world<stackful> w(R);
  w.run(R.chance(85) ? (unsigned)R.range(3, 60) : 0);
}
VF_MODE(stdmgrmt) {
  own_world<cpp20> w(R);
  w.run(R.chance(85) ? (unsigned)R.range(3, 60) : 0);
}
