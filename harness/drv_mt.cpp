// C03: coroutines and tasks driven by several threads. C12: successors attached from several threads.
#include "lib.h"

#include <libcotask/task.h>

#include <thread>

namespace {
using u64 = uint64_t;
using container = copp::coroutine_context_container<vf::talloc>;
struct task_macro {
  using stack_allocator_type = vf::talloc;
  using coroutine_type = container;
  using value_type = int;
};
using task_t = cotask::task<task_macro>;
using task_p = task_t::ptr_type;

vf::rlx<u64> g_clk{1};
u64 stamp() { return g_clk.fetch_add(1, std::memory_order_relaxed); }

void gate(std::atomic<int> &a, int n) {
  a.fetch_add(1, std::memory_order_acq_rel);
  for (int i = 0; a.load(std::memory_order_acquire) < n; ++i)
    if (i > 200) std::this_thread::yield();
}

enum { NOT_READY = copp::COPP_EC_NOT_READY, IS_RUNNING = copp::COPP_EC_IS_RUNNING, FINISHED = copp::COPP_EC_ALREADY_FINISHED };

struct seg_rec {
  u64 nonce, in, out;
};

// What a body does and what the monitor knows about it. Fields without atomics are only touched by the body:
// at most one thread at a time, each run visible to the next.
struct body {
  int idx = 0;
  int nseg = 1;
  int ret = 0;
  bool obey = false;  // returns early when the task is exiting
  unsigned spin = 0;
  u64 salt = 0;
  bool as_task = false;
  vf::rlx<int> inside{0};
  vf::rlx<int> inflight{0};
  vf::rlx<u64> ended{0};  // stamp of the end of the body, taken before it
  vf::rlx<int> starts{0};
  int seq = 0;
  std::vector<seg_rec> log;
  // completion
  vf::rlx<int> completions{0};
  vf::rlx<int> completion_status{-1};
  vf::rlx<int> callable_dead{0};
  u64 chain = 0;

  void segment(u64 nonce) {
    VF_EQ(inside.exchange(1, std::memory_order_relaxed), 0, "two-threads-inside", "threads already executing the body");
    seg_rec r{nonce, stamp(), 0};
    int at = seq;
    u64 c = chain;
    vf::spin_a_bit(spin ? vf::mix64(salt, (u64)at) % spin : 0);
    VF_EQ(at, seq, "segment-order", "segment counter moved under the body");
    VF_CHECK(c == chain, "segment-order", "state of the body moved under it");
    VF_EQ(log.size(), (size_t)at, "segment-order", "segments logged so far");
    chain = vf::mix64(c, (u64)at);
    seq = at + 1;
    r.out = stamp();
    log.push_back(r);
    VF_EQ(inside.exchange(0, std::memory_order_relaxed), 1, "two-threads-inside", "threads executing the body at the end of a segment");
  }
  int run(void *arg) {
    VF_EQ(starts.fetch_add(1, std::memory_order_relaxed), 0, "body-run-twice", "earlier runs of the body");
    volatile u64 a[96];
    for (int i = 0; i < 96; ++i) a[i] = vf::mix64(salt, (u64)i);
    segment((u64)(uintptr_t)arg);
    for (int k = 1; k < nseg; ++k) {
      if (obey && as_task && task_t::this_task()->is_exiting()) break;
      void *d = this;
      int rc;
      if (as_task) {
        auto self = task_t::this_task();
        VF_CHECK(self, "current-task", "no current task inside a task body");
        rc = self->yield(&d);
      } else {
        rc = copp::this_coroutine::yield(&d);
      }
      VF_EQ(rc, 0, "yield-code", "yield inside the body");
      for (int i = 0; i < 96; ++i) VF_CHECK(a[i] == vf::mix64(salt, (u64)i), "stack-damaged", "stack of a coroutine changed while it was suspended");
      segment((u64)(uintptr_t)d);
    }
    ended.store(stamp(), std::memory_order_relaxed);
    return ret;
  }
};

enum { K_DRIVE, K_KILL, K_CANCEL };
struct call_rec {
  u64 nonce, b, e;
  int rc, op, body, thread;
  int status;  // passed to kill
};

// runs fn on the thread or inside a private coroutine of it
template <class F>
void on_maybe_coroutine(bool inside, const std::shared_ptr<vf::stack_book> &book, F fn) {
  if (!inside) {
    fn();
    return;
  }
  vf::talloc al(book);
  auto p = container::create([&fn](void *) {
    fn();
    return 31;
  }, al, 256 * 1024);
  VF_CHECK(p, "create-failed", "private coroutine");
  VF_EQ(p->start(), 0, "drive-result", "private coroutine");
  VF_CHECK(p->is_finished() && p->get_ret_code() == 31, "return-code", "private coroutine did not run to its end");
}

struct tally {
  u64 drives = 0, busy = 0, refused = 0, kills = 0, segs = 0;
};

// the log of one body against all calls made on it
void judge(body &b, std::vector<call_rec> &all, tally &t, bool task) {
  std::vector<const call_rec *> cs, ok;
  for (auto &c : all)
    if (c.body == b.idx) cs.push_back(&c);
  std::map<u64, const call_rec *> by;
  const call_rec *winner = nullptr;
  for (auto *c : cs) {
    by[c->nonce] = c;
    if (c->op == K_DRIVE && c->rc == 0) ok.push_back(c);
    if (c->op != K_DRIVE && c->rc == 0) {
      VF_CHECK(!winner, "ended-twice", "two kill/cancel calls of one task reported success");
      winner = c;
    }
  }
  std::map<u64, int> seen;
  bool tail = false;
  for (auto &s : b.log) {
    auto it = by.find(s.nonce);
    VF_CHECK(it != by.end(), "data-unknown", "a segment received data nobody sent");
    const call_rec *c = it->second;
    VF_EQ(c->rc, 0, "refused-call-ran", "result of a call whose data the body received");
    if (c->op == K_DRIVE) {
      VF_CHECK(!tail, "segment-order", "a drive reached the body after it was being ended");
      VF_EQ(seen[s.nonce]++, 0, "run-twice", "earlier segments run by the same call");
      VF_CHECK(c->b < s.in && s.out < c->e, "segment-outside-call", "segment ran outside of the call that drove it");
    } else {
      VF_CHECK(c == winner, "data-unknown", "data of a kill that lost");
      tail = true;
      VF_CHECK(s.in > c->b, "segment-outside-call", "segment with the data of a later kill");
    }
  }
  for (size_t i = 1; i < b.log.size(); ++i)
    VF_CHECK(b.log[i - 1].out < b.log[i].in, "segment-order", "segments overlap");
  for (auto *c : ok) VF_EQ(seen[c->nonce], 1, "run-lost", "segments run by a call that reported success");
  // refused calls: someone else was at it during the call
  u64 fin = b.ended.load();
  for (auto *c : cs) {
    if (c->rc == 0) continue;
    if (c->rc == IS_RUNNING) {
      bool overlap = false;
      for (auto *o : cs)
        if (o != c && o->rc == 0 && o->b < c->e && o->e > c->b) overlap = true;
      VF_CHECK(overlap, "busy-for-nothing", "a call was refused as running while nobody ran the coroutine");
      ++t.busy;
    } else if (c->rc == (task ? FINISHED : NOT_READY)) {
      bool over = fin && fin < c->e;
      if (winner && winner->b < c->e) over = true;
      VF_CHECK(over, "finished-too-early", "a call was refused as finished before the body ended or was killed");
      ++t.refused;
    } else {
      vf::fail("drive-result", __FILE__, __LINE__, "call returned %d", c->rc);
    }
  }
  // a call begun after the winner returned, or after the finishing call returned, must be refused
  if (winner)
    for (auto *c : cs)
      if (c != winner && c->b > winner->e) VF_CHECK(c->rc != 0, "call-after-end", "call (op %d) succeeded after the task was ended", c->op);
  t.drives += ok.size();
  t.kills += !!winner;
  t.segs += b.log.size();
}

void mt_case(vf::rng &R, bool task, unsigned delay) {
  auto book = std::make_shared<vf::stack_book>();
  int nco = (int)R.range(1, 3), nth = (int)R.range(2, 5);
  std::vector<std::unique_ptr<body>> bs;
  std::vector<container::ptr_type> cs;
  std::vector<task_p> ts;
  vf::rlx<int> destroyed{0};

  struct act : cotask::impl::task_action_impl {
    body *b;
    vf::rlx<int> *dead;
    vf::ledger *led;
    vf::tv pay;
    bool armed = true;
    act(body *b_, vf::rlx<int> *d, vf::ledger *l) : b(b_), dead(d), led(l), pay(l, b_->salt) {}
    act(act &&o) noexcept : b(o.b), dead(o.dead), led(o.led), pay(std::move(o.pay)), armed(o.armed) { o.armed = false; }
    ~act() {
      if (armed) {
        VF_EQ(b->callable_dead.fetch_add(1), 0, "callable-destroyed-twice", "destructions of the callable");
        dead->fetch_add(1);
      }
    }
    int operator()(void *p) override {
      VF_EQ(pay.get(), b->salt, "callable-damaged", "callable payload");
      return b->run(p);
    }
    int on_finished(cotask::impl::task_impl &t) override {
      VF_EQ(pay.get(), b->salt, "callable-damaged", "callable payload");
      VF_EQ(b->completions.fetch_add(1), 0, "completion-twice", "earlier completion callbacks");
      VF_CHECK(t.is_completed(), "callback-early", "completion callback before the body ended");
      b->completion_status.store(t.get_status());
      VF_EQ(b->inside.load(), 0, "two-threads-inside", "body executing during the completion callback");
      return 0;
    }
  };
  vf::ledger led;
  for (int i = 0; i < nco; ++i) {
    auto b = std::make_unique<body>();
    b->idx = i;
    b->nseg = (int)R.range(1, R.chance(30) ? 60 : 14);
    b->ret = (int)R.below(1000);
    b->obey = R.chance(40);
    b->spin = R.chance(50) ? (unsigned)R.below(400) : 0;
    b->salt = R.next();
    b->as_task = task;
    vf::talloc al(book);
    if (task) {
      auto p = task_t::create(act(b.get(), &destroyed, &led), al, 96 * 1024);
      VF_CHECK(p, "create-failed", "task");
      ts.push_back(p);
    } else {
      auto p = container::create([bp = b.get()](void *d) { return bp->run(d); }, al, 96 * 1024);
      VF_CHECK(p, "create-failed", "coroutine");
      cs.push_back(p);
    }
    bs.push_back(std::move(b));
  }
  if (delay) vf::delays_on(R.next(), delay);
  std::vector<std::vector<call_rec>> recs((size_t)nth);
  std::vector<std::thread> th;
  std::atomic<int> g{0}, g2{0};
  unsigned kill_pct = task ? (R.chance(30) ? 0 : (unsigned)R.range(1, 12)) : 0;
  int iters = (int)R.range(5, 40);
  bool drop_early = R.chance(50);
  vf::rlx<u64> observations{0};
  for (int t = 0; t < nth; ++t) {
    th.emplace_back([&, t, seed = R.next(), inside = R.chance(30), myt = ts, myc = cs]() mutable {
      vf::rng r(seed);
      auto &out = recs[(size_t)t];
      std::vector<int> last((size_t)nco, -1);
      u64 obs = 0;
      gate(g, nth);
      on_maybe_coroutine(inside, book, [&] {
        for (int k = 0; k < iters; ++k) {
          int i = (int)r.below((u64)nco);
          body &b = *bs[(size_t)i];
          call_rec c{};
          c.nonce = ((u64)(t + 1) << 40) | (u64)(k + 1) << 8 | 0x40;
          c.body = i;
          c.thread = t;
          c.op = K_DRIVE;
          void *d = reinterpret_cast<void *>((uintptr_t)c.nonce);
          if (task) {
            task_t &x = *myt[(size_t)i];
            unsigned w = (unsigned)r.below(100);
            if (w < kill_pct) {
              c.op = r.chance(60) ? K_KILL : K_CANCEL;
              c.status = c.op == K_CANCEL ? cotask::EN_TS_CANCELED : r.chance(50) ? cotask::EN_TS_KILLED : cotask::EN_TS_TIMEOUT;
              c.b = stamp();
              c.rc = c.op == K_CANCEL ? x.cancel(d) : x.kill((cotask::EN_TASK_STATUS)c.status, d);
            } else if (w < 90) {
              c.b = stamp();
              c.rc = r.chance(50) ? x.start(d) : x.resume(d);
            } else {
              int s = x.get_status();
              if (s == cotask::EN_TS_DONE) {  // everything the body did is visible, without asking anything else
                VF_EQ(x.get_ret_code(), b.ret, "return-code", "result of a task that is done");
                VF_COUNT("mt_results_read_by_watchers");
              }
              int &l = last[(size_t)i];
              if (l >= cotask::EN_TS_DONE) VF_EQ(s, l, "status-changed", "status after a terminal one");
              if (l > cotask::EN_TS_CREATED) VF_CHECK(s > cotask::EN_TS_CREATED, "status-changed", "status went back to created");
              l = s;
              if (x.is_completed()) {
                int s2 = x.get_status();
                VF_CHECK(s2 >= cotask::EN_TS_DONE || s2 == cotask::EN_TS_RUNNING, "status-changed", "completed task is waiting");
                VF_CHECK(b.ended.load() != 0, "finished-too-early", "completed before the body ended");
                VF_EQ(x.get_ret_code(), b.ret, "return-code", "result of a completed task");
              }
              ++obs;
              continue;
            }
          } else {
            if (r.chance(10)) {
              if (myc[(size_t)i]->is_finished()) {
                VF_CHECK(b.ended.load() != 0, "finished-too-early", "finished before the body ended");
                VF_EQ(myc[(size_t)i]->get_ret_code(), b.ret, "return-code", "result of a finished coroutine");
              }
              ++obs;
              continue;
            }
            c.b = stamp();
            c.rc = r.chance(50) ? myc[(size_t)i]->start(d) : myc[(size_t)i]->resume(d);
          }
          c.e = stamp();
          out.push_back(c);
          if (r.chance(20)) vf::spin_a_bit(r.below(300));
        }
      });
      observations.fetch_add(obs, std::memory_order_relaxed);
      if (drop_early) gate(g2, nth);
      myt.clear();
      myc.clear();
    });
  }
  if (drop_early && R.chance(50)) {
    ts.clear();
    cs.clear();
  }
  for (auto &x : th) x.join();
  vf::delays_off();
  std::vector<call_rec> all;
  for (auto &v : recs) all.insert(all.end(), v.begin(), v.end());
  // drive what is left to its end
  for (int i = 0; i < nco; ++i) {
    body &b = *bs[(size_t)i];
    for (int k = 0;; ++k) {
      VF_CHECK(k < 100, "never-ends", "body does not end");
      call_rec c{};
      c.nonce = ((u64)(nth + 7) << 40) | (u64)(k + 1) << 8 | 0x80;
      c.body = i;
      c.op = K_DRIVE;
      void *d = reinterpret_cast<void *>((uintptr_t)c.nonce);
      if (task ? ts.empty() : cs.empty()) break;
      c.b = stamp();
      if (task) {
        c.rc = k ? ts[(size_t)i]->resume(d) : ts[(size_t)i]->start(d);
      } else {
        c.rc = cs[(size_t)i]->start(d);
      }
      c.e = stamp();
      VF_CHECK(c.rc != IS_RUNNING, "busy-for-nothing", "refused as running while nobody runs it");
      all.push_back(c);
      if (c.rc != 0) break;
    }
  }
  tally t;
  bool dropped = task && ts.empty();
  if (!dropped && (task || !cs.empty()))
    for (int i = 0; i < nco; ++i) {
      body &b = *bs[(size_t)i];
      VF_CHECK(b.ended.load(), "never-ends", "body did not end");
      if (!b.obey || !task) VF_EQ(b.log.size(), (size_t)b.nseg, "segments-executed", "segments of the body");
    }
  if (dropped) {
    // ended by the last reference: data of those segments is that of no call
    for (auto &b : bs) {
      if (b->starts.load()) {
        VF_CHECK(b->ended.load(), "never-ends", "body was not ended when the last reference went away");
        VF_EQ(b->completions.load(), 1, "completion-lost", "completion callbacks");
        bool any = false;
        for (auto &s : b->log)
          if (!s.nonce) any = true;
        if (any) {
          VF_EQ(b->completion_status.load(), cotask::EN_TS_TIMEOUT, "drop-status", "status of a task ended by the last reference going away");
          VF_COUNT("mt_ended_by_drop");
          while (!b->log.empty() && !b->log.back().nonce) b->log.pop_back();
        }
      }
    }
  }
  for (auto &b : bs) judge(*b, all, t, task);
  if (task) {
    for (int i = 0; i < nco; ++i) {
      body &b = *bs[(size_t)i];
      int won = 0;
      for (auto &c : all)
        if (c.body == i && c.op != K_DRIVE && c.rc == 0) won = c.status;
      if (!dropped) {
        int s = ts[(size_t)i]->get_status();
        VF_EQ(s, won ? won : cotask::EN_TS_DONE, "terminal-status", "final status");
        VF_EQ(b.completions.load(), 1, "completion-lost", "completion callbacks");
      }
      if (b.completions.load() && (won || !dropped)) VF_EQ(b.completion_status.load(), won ? won : cotask::EN_TS_DONE, "terminal-status", "status seen by the completion callback");
    }
    ts.clear();
    VF_EQ(destroyed.load(), nco, "callable-not-destroyed", "callables destroyed");
    VF_EQ(led.live.load(), 0, "callable-not-destroyed", "callable payloads alive");
  }
  cs.clear();
  VF_EQ(book->live_count(), 0, "stack-leak", "stacks alive at the end");
  VF_COUNT_N("mt_drives", t.drives);
  VF_COUNT_N("mt_refused_running", t.busy);
  VF_COUNT_N("mt_refused_finished", t.refused);
  VF_COUNT_N("mt_kills", t.kills);
  VF_COUNT_N("mt_segments", t.segs);
  VF_COUNT_N("mt_observations", observations.load());
  // interleaving: which thread ran each segment
  u64 h = 0;
  int handoffs = 0;
  for (auto &b : bs) {
    u64 prev = 0;
    for (auto &s : b->log) {
      h = vf::mix64(h, s.nonce >> 40);
      if (prev && prev != s.nonce >> 40) ++handoffs;
      prev = s.nonce >> 40;
    }
  }
  VF_COUNT_N("mt_segments_handed_to_another_thread", handoffs);
  vf::tr(h, vf::mix64(t.busy, t.refused));
  if (handoffs > 0 && t.segs > 3) vf::nontrivial();
  vf::note("%d %s, %d threads: %llu drives (%d changes of thread), %llu refused as running, %llu as finished, %llu kills", nco,
           task ? "tasks" : "coroutines", nth, (unsigned long long)t.drives, handoffs, (unsigned long long)t.busy,
           (unsigned long long)t.refused, (unsigned long long)t.kills);
}

// ---- C12: attaching while the predecessor finishes elsewhere ----------------------------------------
struct succ {
  vf::rlx<int> runs{0};
  vf::rlx<u64> began{0};
  vf::rlx<u64> data{0};
  u64 want = 0;
  u64 attach_b = 0, attach_e = 0;
  int thread = 0, order = 0;
  bool resumed_kind = false;
  vf::rlx<int> phase{0};
  std::thread::id by, attacher;
};
void chain_case(vf::rng &R, unsigned delay) {
  auto book = std::make_shared<vf::stack_book>();
  vf::talloc al(book);
  int nth = (int)R.range(1, 4);
  int per = (int)R.range(1, 5);
  int yields = (int)R.below(4);
  int how = (int)R.below(4);  // done, killed, cancelled, killed while running
  vf::rlx<u64> pred_end{0};
  u64 work = 0, worth = vf::mix64(R.next(), 17);  // plain: what the body did is visible to its successors
  std::atomic<int> go{0};
  task_p pred = task_t::create(
      [&](void *) {
        for (int i = 0; i < yields; ++i) task_t::this_task()->yield(nullptr);
        vf::spin_a_bit(50);
        work = worth;
        pred_end.store(stamp());
        return 5;
      },
      al, 96 * 1024);
  std::vector<std::unique_ptr<succ>> ss;
  std::vector<task_p> st;
  vf::rng rr = R.fork();
  for (int i = 0; i < nth * per; ++i) {
    ss.push_back(std::make_unique<succ>());
    succ *s = ss.back().get();
    s->want = ((u64)(i + 1) << 8) | 1;
    s->resumed_kind = R.chance(40);
    st.push_back(task_t::create(
        [s, &pred_end, &work, worth, predp = pred.get()](void *d) {
          if (s->resumed_kind) {
            void *back = nullptr;
            s->phase = 1;
            task_t::this_task()->yield(&back);
            d = back;
          }
          s->began.store(stamp());
          VF_EQ(s->runs.fetch_add(1), 0, "successor-ran-twice", "earlier runs of the successor");
          s->data.store((u64)(uintptr_t)d);
          s->by = std::this_thread::get_id();
          if (!pred_end.load()) {  // allowed for one attached to a task that is already ending
            VF_CHECK(s->by == s->attacher && predp->is_exiting(), "successor-too-early", "successor ran before the predecessor's body ended");
            VF_COUNT("mt_attached_while_ending");
          } else if (s->by != s->attacher || predp->is_completed()) {
            VF_CHECK(work == worth, "successor-too-early", "successor does not see what the predecessor's body did");
            VF_COUNT("mt_successors_see_work");
          }
          return 9;
        },
        al, 96 * 1024));
    if (s->resumed_kind) VF_EQ(st.back()->start(nullptr), 0, "drive-result", "start of a waiting successor");
  }
  VF_EQ(pred->start(nullptr), 0, "drive-result", "start of the predecessor");
  for (int i = 0; i < yields - 1; ++i) VF_EQ(pred->resume(nullptr), 0, "drive-result", "resume of the predecessor");
  if (delay) vf::delays_on(R.next(), delay);
  std::vector<std::thread> th;
  vf::rlx<int> attached_late{0};
  for (int t = 0; t < nth; ++t)
    th.emplace_back([&, t, seed = R.next(), p = pred]() mutable {
      vf::rng r(seed);
      gate(go, nth + 1);
      for (int k = 0; k < per; ++k) {
        int i = t * per + k;
        succ &s = *ss[(size_t)i];
        vf::spin_a_bit(r.below(120));
        s.thread = t;
        s.order = k;
        s.attacher = std::this_thread::get_id();
        s.attach_b = stamp();
        task_p q = r.chance(50) ? p->next(st[(size_t)i], reinterpret_cast<void *>((uintptr_t)s.want))
                                : p->then(st[(size_t)i], reinterpret_cast<void *>((uintptr_t)s.want));
        s.attach_e = stamp();
        VF_CHECK(q == st[(size_t)i], "attach-result", "next() did not return the attached task");
        if (s.began.load() && s.began.load() < s.attach_e) attached_late.fetch_add(1);
      }
      p.reset();
    });
  gate(go, nth + 1);
  vf::spin_a_bit(rr.below(400));
  if (yields > 0) {
    if (how == 0)
      VF_EQ(pred->resume(nullptr), 0, "drive-result", "last resume");
    else if (how == 1)
      VF_EQ(pred->kill(nullptr), 0, "drive-result", "kill");
    else if (how == 2)
      VF_EQ(pred->cancel(nullptr), 0, "drive-result", "cancel");
    else {
      std::thread k([&] { pred->kill(nullptr); });
      int rc = pred->resume(nullptr);
      VF_CHECK(rc == 0 || rc == FINISHED, "drive-result", "resume against a kill returned %d", rc);
      k.join();
    }
  }
  for (auto &t : th) t.join();
  vf::delays_off();
  VF_CHECK(pred->is_exiting() && pred->is_completed(), "never-ends", "predecessor did not end");
  u64 h = 0;
  for (size_t i = 0; i < ss.size(); ++i) {
    succ &s = *ss[i];
    VF_EQ(s.runs.load(), 1, "successor-lost", "runs of a successor after the predecessor ended");
    VF_CHECK(s.data.load() == s.want, "successor-data", "successor received %llx, attached with %llx", (unsigned long long)s.data.load(), (unsigned long long)s.want);
    VF_CHECK(s.began.load() > s.attach_b, "successor-too-early", "successor ran before it was attached");
    VF_EQ(st[i]->get_status(), cotask::EN_TS_DONE, "terminal-status", "status of a successor");
  }
  // those attached before the end, by one thread, start in the order attached unless attached directly after the end
  for (size_t i = 0; i + 1 < ss.size(); ++i) {
    succ &a = *ss[i], &b = *ss[i + 1];
    if (a.thread == b.thread && a.began.load() > a.attach_e && b.began.load() > b.attach_e) {
      VF_CHECK(a.began.load() < b.began.load(), "successor-order", "successors started out of order");
      VF_COUNT("mt_successors_ordered");
    }
  }
  int late = attached_late.load();
  VF_COUNT_N("mt_successors", ss.size());
  VF_COUNT_N("mt_run_by_attacher", late);
  for (auto &s : ss) h = h * 2 + (s->began.load() < s->attach_e);
  vf::tr(h, (u64)how);
  if (late > 0 && late < (int)ss.size()) vf::nontrivial();
  vf::note("%zu successors attached by %d threads, %d run by the attacher", ss.size(), nth, late);
  st.clear();
  pred.reset();
  VF_EQ(book->live_count(), 0, "stack-leak", "stacks alive at the end");
}

// awaiting a task that ends on another thread
void await_case(vf::rng &R, unsigned delay) {
  auto book = std::make_shared<vf::stack_book>();
  vf::talloc al(book);
  vf::rlx<int> target_done{0}, returned{0};
  u64 work = 0, worth = vf::mix64(R.next(), 18);
  std::atomic<int> go{0};
  task_p target = task_t::create(
      [&](void *) {
        task_t::this_task()->yield(nullptr);
        work = worth;
        target_done = 1;
        return 3;
      },
      al, 96 * 1024);
  VF_EQ(target->start(nullptr), 0, "drive-result", "start");
  task_p waiter = task_t::create(
      [&](void *) {
        int rc = task_t::this_task()->await_task(target);
        VF_CHECK(rc == 0 || rc == copp::COPP_EC_TASK_IS_EXITING, "await-result", "await returned %d", rc);
        VF_CHECK(target_done.load(), "await-too-early", "await returned before the awaited task ended");
        if (rc == 0) VF_CHECK(work == worth, "await-too-early", "what the awaited task did is not visible");
        VF_EQ(returned.fetch_add(1), 0, "await-twice", "returns of the await");
        return 4;
      },
      al, 96 * 1024);
  if (delay) vf::delays_on(R.next(), delay);
  u64 sp = R.below(300), sp2 = R.below(300);
  u64 tb = 0, te = 0, wb, we;
  std::thread th([&] {
    gate(go, 2);
    vf::spin_a_bit(sp);
    tb = stamp();
    VF_EQ(target->resume(nullptr), 0, "drive-result", "resume");
    te = stamp();
  });
  gate(go, 2);
  vf::spin_a_bit(sp2);
  wb = stamp();
  int rc = waiter->start(nullptr);
  we = stamp();
  th.join();
  bool overlap = tb < we && wb < te;
  if (overlap) VF_COUNT("mt_awaits_overlapping");
  vf::delays_off();
  VF_EQ(rc, 0, "drive-result", "start of the waiting task");
  bool woke = returned.load() == 1;
  VF_COUNT("mt_awaits");
  vf::tr(woke, vf::mix64(sp * 1000 + sp2, delay));
  if (overlap) vf::nontrivial();
  vf::note("await of a task ending on another thread: %s", woke ? "returned" : "still sleeping");
  VF_CHECK(woke, "await-lost-wakeup", "the awaited task ended on another thread, the waiting task was never resumed");
  waiter.reset();
  target.reset();
  VF_EQ(book->live_count(), 0, "stack-leak", "stacks alive at the end");
}
}  // namespace

VF_MODE(ctxmt) { mt_case(R, false, R.chance(70) ? 30 : 6); }
VF_MODE(taskmt) { mt_case(R, true, R.chance(70) ? 30 : 6); }
VF_MODE(chainmt) { chain_case(R, R.chance(70) ? 30 : 6); }
VF_MODE(awaitmt) { await_case(R, R.chance(70) ? 30 : 6); }
