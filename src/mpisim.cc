#include "mpisim.h"

#include <dlfcn.h>
#include <mpi.h>
#include <stdio.h>
#include <string.h>
#include <sys/mman.h>
#include <ucontext.h>

#include <algorithm>
#include <chrono>
#include <deque>
#include <map>
#include <memory>
#include <stdexcept>

#include "vh.h"

namespace mpisim {

struct Comm
{
  int              id;
  std::vector<int> members;  // world ranks
  std::vector<uint64_t> seq;  // per member: number of collectives started
};

struct Args
{
  bool                    here = false;
  int                     kind = 0, root = 0, count = 0, rcount = 0, color = 0, key = 0;
  size_t                  dt = 0;
  MPI_Op                  op = 0;
  MPI_Datatype            type = 0;
  const void*             sbuf = nullptr;
  void*                   rbuf = nullptr;
  std::vector<int>        counts, displs, scounts, sdispls;
  std::vector<char>       sent;  // payload captured when the operation was started
  bool                    inplace = false;
};
struct Coll
{
  Comm*                          comm;
  int                            kind = -1;
  int                            arrived = 0, left = 0;
  bool                           computed = false;
  std::vector<Args>              a;
  std::vector<std::vector<char>> result;  // per member
  std::vector<Comm*>             newcomm;
};
struct Msg
{
  int               src, dst, tag, commid;
  std::vector<char> data;
  bool              taken = false;     // the sender is done with it
  bool              reserved = false;  // a posted receive has it
  uint64_t          serial;
};
struct Req
{
  int    type = 0;  // 1 collective, 2 isend, 3 irecv
  Coll*  coll = nullptr;
  int    me = 0;
  bool   done = false;
  // irecv
  void*  rbuf = nullptr;
  size_t cap = 0;
  int    src = 0, tag = 0;
  Comm*  comm = nullptr;
  std::shared_ptr<Msg> msg;
  MPI_Status st;
};

// The message tags of Teuchos come from a counter that is static in each process;
// here it is one variable for all ranks, so every rank gets its own value of it.
extern int teuchos_tags __asm__("_ZN7Teuchos7MpiCommIiE11tagCounter_E") __attribute__((weak));

struct Fiber
{
  int                   tags = 0;
  ucontext_t            ctx;
  char*                 stack = nullptr;
  bool                  done = false, spinning = false;
  std::function<bool()> pred;
  std::vector<std::pair<const char*, size_t>> active;  // buffers owned by pending operations
};

struct World
{
  Config                                    cfg;
  std::vector<int>                          prefix;
  Execution                                 ex;
  std::vector<Fiber>                        f;
  ucontext_t                                main;
  int                                       cur = -1, last = 0;
  std::vector<std::unique_ptr<Comm>>        comms;
  std::map<std::pair<int, uint64_t>, std::unique_ptr<Coll>> colls;
  std::deque<std::shared_ptr<Msg>>          msgs;
  std::vector<std::unique_ptr<Req>>         reqs;
  uint64_t                                  progress = 0, serial = 0;
  std::function<void(int)>                  body;
  bool                                      aborted = false;
};
static World* W = nullptr;
static std::vector<char*> g_stacks;

bool active() { return W != nullptr; }
int  rank() { return W ? W->cur : 0; }
void
error(const std::string& s)
{
  if (W && W->ex.errors.size() < 8) W->ex.errors.push_back(s);
}
std::string
show(const std::vector<int>& p)
{
  std::string s;
  size_t      n = p.size();
  while (n && p[n - 1] == 0) n--;
  for (size_t i = 0; i < n; i++)
    if (p[i]) s += (s.empty() ? "" : ",") + std::to_string(i) + "->" + std::to_string(p[i]);
  return s.empty() ? "(default schedule)" : s;
}

static int
choose(int n)
{
  if (n <= 1) return 0;
  size_t i = W->ex.choices.size();
  int    t = 0;
  if (i < W->prefix.size()) {
    t = W->prefix[i];
    if (t >= n) {
      error("replay divergence: recorded choice " + std::to_string(t) + " of " + std::to_string(n));
      t = 0;
    }
  }
  W->ex.choices.push_back({n, t});
  return t;
}

static void
event(int kind, int a, int b)
{
  uint64_t x[4] = {(uint64_t)W->cur, (uint64_t)kind, (uint64_t)a, (uint64_t)b};
  W->ex.signature = vh::hash_bytes(x, sizeof x, W->ex.signature);
}

// the address sanitizer has to know which stack is in use
#ifdef __SANITIZE_ADDRESS__
extern "C" void __sanitizer_start_switch_fiber(void** save, const void* bottom, size_t size);
extern "C" void __sanitizer_finish_switch_fiber(void* save, const void** bottom, size_t* size);
static const void* g_main_bottom = nullptr;
static size_t      g_main_size   = 0;
static void*       g_fake[64];  // of the fibers, the last one of the scheduler
static void        leave_fiber(int r, bool last) { __sanitizer_start_switch_fiber(last ? nullptr : &g_fake[r], g_main_bottom, g_main_size); }
static void        enter_fiber(int r, bool first) { __sanitizer_finish_switch_fiber(first ? nullptr : g_fake[r], &g_main_bottom, &g_main_size); }
static void        leave_main(const void* stack) { __sanitizer_start_switch_fiber(&g_fake[63], stack, 64u << 20); }
static void        enter_main() { __sanitizer_finish_switch_fiber(g_fake[63], nullptr, nullptr); }
#else
static void leave_fiber(int, bool) {}
static void enter_fiber(int, bool) {}
static void leave_main(const void*) {}
static void enter_main() {}
#endif

static void
to_scheduler()
{
  int    r  = W->cur;
  Fiber& me = W->f[r];
  if (&teuchos_tags) me.tags = teuchos_tags;
  leave_fiber(r, false);
  swapcontext(&me.ctx, &W->main);
  enter_fiber(r, false);
  if (&teuchos_tags) teuchos_tags = me.tags;
}
static void
point()
{
  if (W->cfg.sched_points && W->cfg.nranks > 1) to_scheduler();
}
static void
wait_until(const std::function<bool()>& p)
{
  if (p()) return;
  Fiber& me = W->f[W->cur];
  me.pred   = p;
  to_scheduler();
  me.pred = nullptr;
}
static void
yield_spin()
{
  Fiber& me   = W->f[W->cur];
  me.spinning = true;
  to_scheduler();
  me.spinning = false;
}

static void
fiber_main()
{
  World* w = W;
  int    r = w->cur;
  enter_fiber(r, true);
  if (&teuchos_tags) teuchos_tags = w->f[r].tags;
  try {
    w->body(r);
  } catch (std::exception& e) {
    error("rank " + std::to_string(r) + " ended with an exception: " + e.what());
  } catch (...) {
    error("rank " + std::to_string(r) + " ended with an exception");
  }
  w->f[r].done = true;
  w->progress++;
  leave_fiber(r, true);
  swapcontext(&w->f[r].ctx, &w->main);
}

static uint64_t
state_hash()
{
  uint64_t h = 1469598103934665603ull;
  for (auto& f : W->f) {
    uint64_t x = (f.done ? 1 : 0) | (f.pred ? 2 : 0) | (f.spinning ? 4 : 0);
    h          = vh::hmix(h, x);
  }
  for (auto& c : W->comms)
    for (auto s : c->seq) h = vh::hmix(h, s);
  for (auto& q : W->reqs) h = vh::hmix(h, q->done);
  for (auto& m : W->msgs) h = vh::hmix(h, (uint64_t)m->src << 20 | m->dst << 10 | m->taken);
  return h;
}

Execution
run(const Config& cfg, const std::vector<int>& prefix, const std::function<void(int)>& body)
{
  World w;
  w.cfg    = cfg;
  w.prefix = prefix;
  w.body   = body;
  w.f.resize(cfg.nranks);
  w.comms.emplace_back(new Comm{0, {}, std::vector<uint64_t>(cfg.nranks, 0)});
  for (int r = 0; r < cfg.nranks; r++) w.comms[0]->members.push_back(r);
  W = &w;
  for (int r = 0; r < cfg.nranks; r++) {
    Fiber& f = w.f[r];
    if (&teuchos_tags) f.tags = teuchos_tags;
    if ((int)g_stacks.size() <= r) g_stacks.push_back((char*)mmap(nullptr, 64u << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    f.stack = g_stacks[r];
    getcontext(&f.ctx);
    f.ctx.uc_stack.ss_sp   = f.stack;
    f.ctx.uc_stack.ss_size = 64u << 20;
    f.ctx.uc_link          = &w.main;
    makecontext(&f.ctx, fiber_main, 0);
  }
  w.last                  = 0;
  uint64_t idle_since     = 0, seen_progress = 0;
  for (;;) {
    std::vector<int> en;
    int              alive = 0;
    for (int k = 0; k < cfg.nranks; k++) {
      int r = (w.last + k) % cfg.nranks;
      if (w.f[r].done) continue;
      alive++;
      if (w.f[r].pred && !w.f[r].pred()) continue;
      en.push_back(r);
    }
    if (!alive) break;
    if (en.empty()) {
      std::string s = "deadlock: every unfinished rank is blocked (";
      for (int r = 0; r < cfg.nranks; r++) s += w.f[r].done ? "done " : "blocked ";
      error(s + ")");
      break;
    }
    // spinning ranks go last
    std::stable_sort(en.begin(), en.end(), [&](int a, int b) { return w.f[a].spinning < w.f[b].spinning; });
    if (w.progress != seen_progress) {
      seen_progress = w.progress;
      idle_since    = w.ex.steps;
    }
    if (w.ex.steps - idle_since > 4000u * cfg.nranks) {
      error("livelock: ranks keep polling and nothing can complete");
      break;
    }
    if (w.ex.steps > cfg.max_steps) {
      error("step horizon exceeded");
      break;
    }
    int pick = en[cfg.sched_points ? choose((int)en.size()) : 0];
    w.ex.steps++;
    // a spinning default rank must not starve the others
    w.last = w.f[pick].spinning ? (pick + 1) % cfg.nranks : pick;
    w.cur  = pick;
    leave_main(w.f[pick].stack);
    swapcontext(&w.main, &w.f[pick].ctx);
    enter_main();
    w.last = w.f[pick].spinning ? (pick + 1) % cfg.nranks : pick;
    if (cfg.keep_states) w.ex.state_hashes.push_back(state_hash());
    w.cur = -1;
    if (w.aborted) {
      error("MPI_Abort was called");
      break;
    }
  }
  if (w.ex.errors.empty()) {
    for (auto& m : w.msgs)
      if (!m->taken) {
        error("a message from rank " + std::to_string(m->src) + " to rank " + std::to_string(m->dst) + " was never received");
        break;
      }
  }
  W = nullptr;
  return std::move(w.ex);
}

uint64_t
explore(const Config& cfg, int bound, const std::function<std::function<void(int)>()>& make,
        const std::function<void(const Execution&, const std::vector<int>&)>& check, uint64_t cap, bool* capped)
{
  uint64_t n = 0;
  if (cfg.seconds <= 0) {
    bool stop = false;
    std::function<void(const std::vector<int>&, int)> rec = [&](const std::vector<int>& prefix, int devs) {
      if (stop) return;
      if (cap && n >= cap) {
        stop = true;
        if (capped) *capped = true;
        return;
      }
      Execution e = run(cfg, prefix, make());
      n++;
      check(e, prefix);
      if (!e.errors.empty() || devs >= bound) return;
      for (size_t i = prefix.size(); i < e.choices.size() && !stop; i++)
        for (int alt = 1; alt < e.choices[i].n; alt++) {
          std::vector<int> p(i + 1, 0);
          for (size_t k = 0; k < i; k++) p[k] = e.choices[k].taken;
          p[i] = alt;
          rec(p, devs + 1);
        }
    };
    rec({}, 0);
    return n;
  }
  // by rising number of deviations, so that a time limit cuts the deepest schedules only
  auto                          t0 = std::chrono::steady_clock::now();
  std::vector<std::vector<int>> level{{}};
  for (int devs = 0; devs <= bound && !level.empty(); devs++) {
    std::vector<std::vector<int>> next;
    for (auto& prefix : level) {
      bool late = cfg.seconds > 0 && std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > cfg.seconds;
      if ((cap && n >= cap) || late) {
        if (capped) *capped = true;
        return n;
      }
      Execution e = run(cfg, prefix, make());
      n++;
      check(e, prefix);
      if (!e.errors.empty() || devs >= bound) continue;
      for (size_t i = prefix.size(); i < e.choices.size(); i++)
        for (int alt = 1; alt < e.choices[i].n; alt++) {
          std::vector<int> p(i + 1, 0);
          for (size_t k = 0; k < i; k++) p[k] = e.choices[k].taken;
          p[i] = alt;
          next.push_back(std::move(p));
        }
    }
    level = std::move(next);
  }
  return n;
}

// ------------------------------------------------------------------ MPI calls
enum Kind { K_BARRIER = 1, K_BCAST, K_GATHER, K_GATHERV, K_SCATTER, K_SCATTERV, K_ALLGATHER, K_ALLGATHERV, K_ALLREDUCE, K_REDUCE, K_DUP, K_SPLIT, K_IALLREDUCE, K_ALLTOALL, K_ALLTOALLV, K_SCAN, K_EXSCAN };

static size_t
tsize(MPI_Datatype t)
{
  if (t == MPI_INT || t == MPI_UNSIGNED || t == MPI_FLOAT || t == MPI_INT32_T || t == MPI_UINT32_T) return 4;
  if (t == MPI_DOUBLE || t == MPI_LONG || t == MPI_UNSIGNED_LONG || t == MPI_LONG_LONG || t == MPI_LONG_LONG_INT || t == MPI_UNSIGNED_LONG_LONG || t == MPI_INT64_T || t == MPI_UINT64_T) return 8;
  if (t == MPI_CHAR || t == MPI_BYTE || t == MPI_UNSIGNED_CHAR || t == MPI_SIGNED_CHAR || t == MPI_C_BOOL || t == MPI_CXX_BOOL) return 1;
  if (t == MPI_SHORT || t == MPI_UNSIGNED_SHORT) return 2;
  error("unmodelled MPI datatype");
  return 1;
}
template <class T>
static void
opT(MPI_Op op, T* a, const T* b, int n)
{
  for (int i = 0; i < n; i++) {
    if (op == MPI_SUM) a[i] = a[i] + b[i];
    else if (op == MPI_MAX) a[i] = std::max(a[i], b[i]);
    else if (op == MPI_MIN) a[i] = std::min(a[i], b[i]);
    else if (op == MPI_PROD) a[i] = a[i] * b[i];
    else if (op == MPI_LOR) a[i] = a[i] || b[i];
    else if (op == MPI_LAND) a[i] = a[i] && b[i];
    else error("unmodelled MPI op");
  }
}
static void
combine(MPI_Op op, MPI_Datatype t, void* a, const void* b, int n)
{
  if (t == MPI_DOUBLE) opT(op, (double*)a, (const double*)b, n);
  else if (t == MPI_FLOAT) opT(op, (float*)a, (const float*)b, n);
  else if (t == MPI_INT || t == MPI_INT32_T) opT(op, (int*)a, (const int*)b, n);
  else if (t == MPI_UNSIGNED) opT(op, (unsigned*)a, (const unsigned*)b, n);
  else if (tsize(t) == 8) opT(op, (long*)a, (const long*)b, n);
  else if (tsize(t) == 1) opT(op, (char*)a, (const char*)b, n);
  else error("unmodelled reduction type");
}

static Comm*
getcomm(MPI_Comm c)
{
  if (c == MPI_COMM_WORLD) return W->comms[0].get();
  if (c == MPI_COMM_SELF) {
    static Comm self;
    self.members = {W->cur};
    self.seq.assign(1, 0);
    return &self;
  }
  for (auto& p : W->comms)
    if ((void*)p.get() == (void*)c) return p.get();
  error("use of an invalid communicator");
  throw std::runtime_error("invalid communicator");
}
static int
myindex(Comm* c)
{
  for (size_t i = 0; i < c->members.size(); i++)
    if (c->members[i] == W->cur) return (int)i;
  error("use of a communicator by a non-member");
  throw std::runtime_error("not a member");
}

static void
compute(Coll* k)
{
  k->computed = true;
  size_t n    = k->a.size();
  k->result.resize(n);
  Args& a0 = k->a[0];
  for (size_t i = 1; i < n; i++) {
    if (k->a[i].root != a0.root) error("collective called with different roots");
    if (k->a[i].op != a0.op) error("collective called with different operations");
  }
  auto chk_count = [&] {
    for (size_t i = 1; i < n; i++)
      if (k->a[i].count * k->a[i].dt != a0.count * a0.dt) error("collective called with different counts");
  };
  switch (k->kind) {
    case K_BARRIER: break;
    case K_BCAST:
      chk_count();
      for (size_t i = 0; i < n; i++) k->result[i] = k->a[a0.root].sent;
      break;
    case K_ALLREDUCE:
    case K_IALLREDUCE:
    case K_REDUCE: {
      chk_count();
      std::vector<char> acc = a0.sent;
      for (size_t i = 1; i < n; i++) {
        if (k->a[i].sent.size() == acc.size()) combine(a0.op, a0.type, acc.data(), k->a[i].sent.data(), a0.count);
      }
      for (size_t i = 0; i < n; i++)
        if (k->kind != K_REDUCE || (int)i == a0.root) k->result[i] = acc;
      break;
    }
    case K_SCAN:
    case K_EXSCAN: {
      chk_count();
      std::vector<char> acc;
      for (size_t i = 0; i < n; i++) {
        if (k->kind == K_EXSCAN) k->result[i] = acc;
        if (i == 0) acc = k->a[0].sent;
        else combine(a0.op, a0.type, acc.data(), k->a[i].sent.data(), a0.count);
        if (k->kind == K_SCAN) k->result[i] = acc;
      }
      break;
    }
    case K_GATHER:
    case K_ALLGATHER: {
      chk_count();
      std::vector<char> all;
      for (size_t i = 0; i < n; i++) all.insert(all.end(), k->a[i].sent.begin(), k->a[i].sent.end());
      for (size_t i = 0; i < n; i++)
        if (k->kind == K_ALLGATHER || (int)i == a0.root) k->result[i] = all;
      break;
    }
    case K_GATHERV:
    case K_ALLGATHERV: {
      for (size_t i = 0; i < n; i++) {
        if (k->kind == K_GATHERV && (int)i != a0.root) continue;
        Args& r = k->a[i];
        for (size_t j = 0; j < n; j++)
          if ((int)(k->a[j].count * k->a[j].dt) != (int)(r.counts[j] * r.dt)) error("gatherv: a rank sends a different amount than the receiver expects");
      }
      break;  // copied on departure
    }
    case K_SCATTER: chk_count(); break;
    case K_SCATTERV: {
      Args& r = k->a[a0.root];
      for (size_t j = 0; j < n; j++)
        if ((int)(k->a[j].rcount * k->a[j].dt) != (int)(r.counts[j] * r.dt)) error("scatterv: a rank receives a different amount than the root sends");
      break;
    }
    case K_DUP: {
      W->comms.emplace_back(new Comm{(int)W->comms.size(), k->comm->members, std::vector<uint64_t>(n, 0)});
      k->newcomm.assign(n, W->comms.back().get());
      break;
    }
    case K_SPLIT: {
      k->newcomm.assign(n, nullptr);
      std::map<int, std::vector<std::pair<std::pair<int, int>, int>>> g;
      for (size_t i = 0; i < n; i++)
        if (k->a[i].color != MPI_UNDEFINED) g[k->a[i].color].push_back({{k->a[i].key, (int)i}, (int)i});
      for (auto& kv : g) {
        std::sort(kv.second.begin(), kv.second.end());
        std::vector<int> mem;
        for (auto& m : kv.second) mem.push_back(k->comm->members[m.second]);
        W->comms.emplace_back(new Comm{(int)W->comms.size(), mem, std::vector<uint64_t>(mem.size(), 0)});
        for (auto& m : kv.second) k->newcomm[m.second] = W->comms.back().get();
      }
      break;
    }
    default: break;
  }
}

static Coll*
arrive(Comm* c, Args a)
{
  int  me = myindex(c);
  auto id = std::make_pair(c->id, c->seq[me]++);
  auto& p = W->colls[id];
  if (!p) {
    p.reset(new Coll);
    p->comm = c;
    p->kind = a.kind;
    p->a.resize(c->members.size());
  }
  if (p->kind != a.kind) error("ranks call different collectives on the same communicator (kinds " + std::to_string(p->kind) + " and " + std::to_string(a.kind) + ")");
  a.here   = true;
  p->a[me] = a;
  p->arrived++;
  W->progress++;
  event(a.kind, c->id, (int)id.second);
  if (p->arrived == (int)c->members.size()) compute(p.get());
  return p.get();
}
static void
leave(Coll* k)
{
  k->left++;
  if (k->left == (int)k->a.size()) {
    for (auto it = W->colls.begin(); it != W->colls.end(); ++it)
      if (it->second.get() == k) {
        W->colls.erase(it);
        break;
      }
  }
}
static void capture(Args& a, const void* p, size_t n) { if (p) a.sent.assign((const char*)p, (const char*)p + n); }

// blocking collective; finish(k, me) copies results out before leaving
template <class F>
static int
coll(MPI_Comm comm, Args a, F finish)
{
  point();
  Comm* c  = getcomm(comm);
  int   me = myindex(c);
  Coll* k  = arrive(c, a);
  wait_until([k] { return k->computed; });
  finish(k, me);
  leave(k);
  W->progress++;
  return MPI_SUCCESS;
}
static void out(void* dst, const std::vector<char>& v) { if (!v.empty() && dst) memcpy(dst, v.data(), v.size()); }

static bool
match(const Msg& m, int me_world, Comm* c, int src, int tag)
{
  if (m.taken || m.reserved || m.dst != me_world || m.commid != c->id) return false;
  if (src != MPI_ANY_SOURCE && m.src != c->members.at(src)) return false;
  return tag == MPI_ANY_TAG || m.tag == tag;
}
static std::shared_ptr<Msg>
find(Comm* c, int me_world, int src, int tag)
{
  for (auto& m : W->msgs)
    if (match(*m, me_world, c, src, tag)) return m;
  return nullptr;
}
// A posted receive takes the first message that fits, in the order of posting, and the
// sender goes on; the contents are delivered when the receiver completes its request.
static void
pair_up()
{
  for (auto& q : W->reqs)
    if (q->type == 3 && !q->done && !q->msg)
      if (auto m = find(q->comm, q->me, q->src, q->tag)) {
        q->msg      = m;
        m->reserved = m->taken = true;
        W->progress++;
      }
}
static std::shared_ptr<Msg>
post(Comm* c, const void* b, size_t n, int dst, int tag)
{
  auto m    = std::make_shared<Msg>();
  m->src    = W->cur;
  m->dst    = c->members.at(dst);
  m->tag    = tag;
  m->commid = c->id;
  m->data.assign((const char*)b, (const char*)b + n);
  m->serial = W->serial++;
  W->msgs.push_back(m);
  W->progress++;
  event(100, m->dst, tag);
  pair_up();
  return m;
}
static void
consume(Comm* c, std::shared_ptr<Msg> m, void* b, size_t cap, MPI_Status* st)
{
  if (m->data.size() > cap) error("message truncated on receive");
  if (!m->data.empty()) memcpy(b, m->data.data(), std::min(cap, m->data.size()));
  m->taken = true;
  W->progress++;
  if (st != MPI_STATUS_IGNORE && st) {
    memset(st, 0, sizeof *st);
    for (size_t i = 0; i < c->members.size(); i++)
      if (c->members[i] == m->src) st->MPI_SOURCE = (int)i;
    st->MPI_TAG = m->tag;
    st->_ucount = m->data.size();
  }
  auto& q = W->msgs;
  q.erase(std::remove(q.begin(), q.end(), m), q.end());
}

static void
claim(const void* p, size_t n, bool writes)
{
  if (!n) return;
  auto& v = W->f[W->cur].active;
  if (writes)
    for (auto& a : v)
      if ((const char*)p < a.first + a.second && a.first < (const char*)p + n) error("a buffer of a pending operation is reused by another operation");
  v.push_back({(const char*)p, n});
}
static void
unclaim(const void* p, size_t n)
{
  if (!n) return;
  auto& v = W->f[W->cur].active;
  for (size_t i = 0; i < v.size(); i++)
    if (v[i].first == (const char*)p && v[i].second == n) {
      v.erase(v.begin() + i);
      return;
    }
}

// try to complete; true when complete
static bool
complete(Req* q, MPI_Status* st)
{
  if (q->done) return true;
  if (q->type == 1) {
    if (!q->coll->computed) return false;
    Args& a = q->coll->a[q->me];
    size_t n = a.count * a.dt;
    if (n && memcmp(a.sbuf, a.sent.data(), n) && !a.inplace) error("the send buffer of a pending reduction was modified before it completed");
    unclaim(a.sbuf, n);
    unclaim(a.rbuf, n);
    out(a.rbuf, q->coll->result[q->me]);
    leave(q->coll);
  } else if (q->type == 2) {
    if (!q->msg->taken) return false;
  } else if (q->type == 3) {
    auto m = q->msg;
    if (!m) return false;
    consume(q->comm, m, q->rbuf, q->cap, st);
  }
  q->done = true;
  W->progress++;
  event(200, q->type, 0);
  return true;
}
static bool
completable(Req* q)
{
  if (q->done) return true;
  if (q->type == 1) return q->coll->computed;
  if (q->type == 2) return q->msg->taken;
  return q->msg != nullptr;
}
static Req*
getreq(MPI_Request r)
{
  for (auto& p : W->reqs)
    if ((void*)p.get() == (void*)r) return p.get();
  error("use of an invalid request");
  throw std::runtime_error("invalid request");
}
}  // namespace mpisim

using namespace mpisim;
#define SOLO if (!W)
extern "C" {
static int g_init = 0;
int MPI_Init(int*, char***) { g_init = 1; return MPI_SUCCESS; }
int MPI_Init_thread(int*, char***, int r, int* p) { g_init = 1; *p = r; return MPI_SUCCESS; }
int MPI_Initialized(int* f) { *f = g_init; return MPI_SUCCESS; }
int MPI_Finalized(int* f) { *f = 0; return MPI_SUCCESS; }
int MPI_Finalize() { return MPI_SUCCESS; }
double MPI_Wtime() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
int
MPI_Abort(MPI_Comm, int code)
{
  SOLO _Exit(code ? code : 1);
  W->aborted = true;
  to_scheduler();
  return 0;
}
int MPI_Error_string(int, char* s, int* n) { strcpy(s, "error"); *n = 5; return MPI_SUCCESS; }
int MPI_Comm_rank(MPI_Comm c, int* r) { SOLO { *r = 0; return 0; } *r = myindex(getcomm(c)); return 0; }
int MPI_Comm_size(MPI_Comm c, int* n) { SOLO { *n = 1; return 0; } *n = (int)getcomm(c)->members.size(); return 0; }
int MPI_Comm_free(MPI_Comm* c) { *c = MPI_COMM_NULL; return 0; }
int
MPI_Comm_dup(MPI_Comm c, MPI_Comm* n)
{
  SOLO { *n = c; return 0; }
  Args a;
  a.kind = K_DUP;
  return coll(c, a, [&](Coll* k, int me) { *n = (MPI_Comm)(void*)k->newcomm[me]; });
}
int
MPI_Comm_split(MPI_Comm c, int color, int key, MPI_Comm* n)
{
  SOLO { *n = color == MPI_UNDEFINED ? MPI_COMM_NULL : c; return 0; }
  Args a;
  a.kind  = K_SPLIT;
  a.color = color;
  a.key   = key;
  return coll(c, a, [&](Coll* k, int me) { *n = k->newcomm[me] ? (MPI_Comm)(void*)k->newcomm[me] : MPI_COMM_NULL; });
}
int
MPI_Barrier(MPI_Comm c)
{
  SOLO return 0;
  Args a;
  a.kind = K_BARRIER;
  return coll(c, a, [](Coll*, int) {});
}
int
MPI_Bcast(void* b, int n, MPI_Datatype t, int root, MPI_Comm c)
{
  SOLO return 0;
  Args a;
  a.kind  = K_BCAST;
  a.root  = root;
  a.count = n;
  a.dt    = tsize(t);
  if (myindex(getcomm(c)) == root) capture(a, b, n * a.dt);
  return coll(c, a, [&](Coll* k, int me) { out(b, k->result[me]); });
}
static Args
red(int kind, const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, int root)
{
  Args a;
  a.kind  = kind;
  a.root  = root;
  a.count = n;
  a.dt    = tsize(t);
  a.type  = t;
  a.op    = op;
  a.inplace = s == MPI_IN_PLACE;
  a.sbuf  = a.inplace ? r : s;
  a.rbuf  = r;
  capture(a, a.sbuf, n * a.dt);
  return a;
}
int
MPI_Allreduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c)
{
  SOLO { if (s != MPI_IN_PLACE) memcpy(r, s, n * tsize(t)); return 0; }
  return coll(c, red(K_ALLREDUCE, s, r, n, t, op, 0), [&](Coll* k, int me) { out(r, k->result[me]); });
}
int
MPI_Reduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c)
{
  SOLO { if (s != MPI_IN_PLACE) memcpy(r, s, n * tsize(t)); return 0; }
  return coll(c, red(K_REDUCE, s, r, n, t, op, root), [&](Coll* k, int me) { out(r, k->result[me]); });
}
int
MPI_Scan(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c)
{
  SOLO { if (s != MPI_IN_PLACE) memcpy(r, s, n * tsize(t)); return 0; }
  return coll(c, red(K_SCAN, s, r, n, t, op, 0), [&](Coll* k, int me) { out(r, k->result[me]); });
}
int
MPI_Exscan(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c)
{
  SOLO return 0;
  return coll(c, red(K_EXSCAN, s, r, n, t, op, 0), [&](Coll* k, int me) { out(r, k->result[me]); });
}
int
MPI_Iallreduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c, MPI_Request* q)
{
  SOLO { if (s != MPI_IN_PLACE) memcpy(r, s, n * tsize(t)); *q = MPI_REQUEST_NULL; return 0; }
  point();
  Args  a  = red(K_IALLREDUCE, s, r, n, t, op, 0);
  Comm* cc = getcomm(c);
  claim(a.sbuf, n * a.dt, false);
  claim(a.rbuf, n * a.dt, !a.inplace);
  std::unique_ptr<Req> u(new Req);
  u->type = 1;
  u->me   = myindex(cc);
  u->coll = arrive(cc, a);
  // until completion the receive buffer holds nothing usable
  if (!a.inplace && n) memset(r, 0x7f, n * a.dt);
  *q = (MPI_Request)(void*)u.get();
  W->reqs.push_back(std::move(u));
  return 0;
}
static int
test(MPI_Request* r, int* flag, MPI_Status* st)
{
  if (*r == MPI_REQUEST_NULL) { *flag = 1; return 0; }
  Req* q = getreq(*r);
  if (completable(q)) {
    if (W->cfg.test_points && choose(2) == 1) {
      *flag = 0;
      yield_spin();
      return 0;
    }
    complete(q, st);
    *flag = 1;
    *r    = MPI_REQUEST_NULL;
    return 0;
  }
  *flag = 0;
  yield_spin();
  return 0;
}
int
MPI_Test(MPI_Request* r, int* flag, MPI_Status* st)
{
  SOLO { *flag = 1; return 0; }
  return test(r, flag, st);
}
int
MPI_Wait(MPI_Request* r, MPI_Status* st)
{
  SOLO return 0;
  if (*r == MPI_REQUEST_NULL) return 0;
  point();
  Req* q = getreq(*r);
  wait_until([q] { return completable(q); });
  complete(q, st);
  *r = MPI_REQUEST_NULL;
  return 0;
}
int
MPI_Waitall(int n, MPI_Request r[], MPI_Status st[])
{
  for (int i = 0; i < n; i++) MPI_Wait(&r[i], st == MPI_STATUSES_IGNORE ? MPI_STATUS_IGNORE : &st[i]);
  return 0;
}
int
MPI_Waitany(int n, MPI_Request r[], int* idx, MPI_Status* st)
{
  SOLO { *idx = 0; return 0; }
  point();
  std::vector<Req*> v;
  for (int i = 0; i < n; i++) v.push_back(r[i] == MPI_REQUEST_NULL ? nullptr : getreq(r[i]));
  bool any = false;
  for (auto q : v) any |= q != nullptr;
  if (!any) { *idx = MPI_UNDEFINED; return 0; }
  wait_until([v] { for (auto q : v) if (q && completable(q)) return true; return false; });
  std::vector<int> ok;
  for (int i = 0; i < n; i++) if (v[i] && completable(v[i])) ok.push_back(i);
  int i = ok[choose((int)ok.size())];
  complete(v[i], st);
  r[i] = MPI_REQUEST_NULL;
  *idx = i;
  return 0;
}
int
MPI_Testany(int n, MPI_Request r[], int* idx, int* flag, MPI_Status* st)
{
  SOLO { *idx = 0; *flag = 1; return 0; }
  std::vector<int> ok;
  bool any = false;
  for (int i = 0; i < n; i++) if (r[i] != MPI_REQUEST_NULL) { any = true; if (completable(getreq(r[i]))) ok.push_back(i); }
  if (!any) { *flag = 1; *idx = MPI_UNDEFINED; return 0; }
  int k = ok.empty() ? 0 : choose((int)ok.size() + 1);
  if (ok.empty() || k == (int)ok.size()) { *flag = 0; *idx = MPI_UNDEFINED; yield_spin(); return 0; }
  complete(getreq(r[ok[k]]), st);
  r[ok[k]] = MPI_REQUEST_NULL;
  *idx = ok[k];
  *flag = 1;
  return 0;
}
int
MPI_Testall(int n, MPI_Request r[], int* flag, MPI_Status st[])
{
  SOLO { *flag = 1; return 0; }
  for (int i = 0; i < n; i++)
    if (r[i] != MPI_REQUEST_NULL && !completable(getreq(r[i]))) {
      *flag = 0;
      yield_spin();
      return 0;
    }
  for (int i = 0; i < n; i++)
    if (r[i] != MPI_REQUEST_NULL) {
      complete(getreq(r[i]), st == MPI_STATUSES_IGNORE ? MPI_STATUS_IGNORE : &st[i]);
      r[i] = MPI_REQUEST_NULL;
    }
  *flag = 1;
  return 0;
}
static Args
gat(int kind, const void* s, int n, MPI_Datatype t, int root)
{
  Args a;
  a.kind  = kind;
  a.root  = root;
  a.count = n;
  a.dt    = tsize(t);
  a.inplace = s == MPI_IN_PLACE;
  if (!a.inplace) capture(a, s, n * a.dt);
  return a;
}
int
MPI_Gather(const void* s, int n, MPI_Datatype t, void* r, int rn, MPI_Datatype rt, int root, MPI_Comm c)
{
  SOLO { if (s != MPI_IN_PLACE) memcpy(r, s, n * tsize(t)); return 0; }
  return coll(c, gat(K_GATHER, s, n, t, root), [&](Coll* k, int me) { if (me == root) out(r, k->result[me]); });
}
int
MPI_Allgather(const void* s, int n, MPI_Datatype t, void* r, int rn, MPI_Datatype rt, MPI_Comm c)
{
  SOLO { if (s != MPI_IN_PLACE) memcpy(r, s, n * tsize(t)); return 0; }
  Args a = gat(K_ALLGATHER, s, n, t, 0);
  if (a.inplace) {
    int me  = myindex(getcomm(c));
    a.count = rn;
    a.dt    = tsize(rt);
    capture(a, (char*)r + me * rn * a.dt, rn * a.dt);
  }
  return coll(c, a, [&](Coll* k, int me) { out(r, k->result[me]); });
}
static int
gatherv(int kind, const void* s, int n, MPI_Datatype t, void* r, const int* cs, const int* ds, MPI_Datatype rt, int root, MPI_Comm c)
{
  Args  a  = gat(kind, s, n, t, root);
  Comm* cc = getcomm(c);
  int   me = myindex(cc);
  bool  rc = kind == K_ALLGATHERV || me == root;
  if (rc) {
    a.counts.assign(cs, cs + cc->members.size());
    a.displs.assign(ds, ds + cc->members.size());
    a.dt = tsize(rt);
    if (a.inplace) {
      a.count = cs[me];
      capture(a, (char*)r + ds[me] * a.dt, cs[me] * a.dt);
    }
  }
  return coll(c, a, [&](Coll* k, int me) {
    if (!(kind == K_ALLGATHERV || me == root)) return;
    for (size_t j = 0; j < k->a.size(); j++)
      if (!k->a[j].sent.empty()) memcpy((char*)r + (size_t)k->a[me].displs[j] * tsize(rt), k->a[j].sent.data(), std::min(k->a[j].sent.size(), (size_t)k->a[me].counts[j] * tsize(rt)));
  });
}
int
MPI_Gatherv(const void* s, int n, MPI_Datatype t, void* r, const int* cs, const int* ds, MPI_Datatype rt, int root, MPI_Comm c)
{
  SOLO { if (s != MPI_IN_PLACE) memcpy((char*)r + ds[0] * tsize(rt), s, n * tsize(t)); return 0; }
  return gatherv(K_GATHERV, s, n, t, r, cs, ds, rt, root, c);
}
int
MPI_Allgatherv(const void* s, int n, MPI_Datatype t, void* r, const int* cs, const int* ds, MPI_Datatype rt, MPI_Comm c)
{
  SOLO { if (s != MPI_IN_PLACE) memcpy((char*)r + ds[0] * tsize(rt), s, n * tsize(t)); return 0; }
  return gatherv(K_ALLGATHERV, s, n, t, r, cs, ds, rt, 0, c);
}
int
MPI_Scatter(const void* s, int n, MPI_Datatype t, void* r, int rn, MPI_Datatype rt, int root, MPI_Comm c)
{
  SOLO { if (r != MPI_IN_PLACE) memcpy(r, s, n * tsize(t)); return 0; }
  Args  a;
  Comm* cc = getcomm(c);
  int   me = myindex(cc);
  a.kind   = K_SCATTER;
  a.root   = root;
  a.count  = me == root ? n : rn;
  a.dt     = me == root ? tsize(t) : tsize(rt);
  if (me == root) capture(a, s, (size_t)n * a.dt * cc->members.size());
  return coll(c, a, [&](Coll* k, int me) {
    if (r == MPI_IN_PLACE) return;
    size_t b = (size_t)rn * tsize(rt);
    if (b) memcpy(r, k->a[root].sent.data() + me * b, b);
  });
}
int
MPI_Scatterv(const void* s, const int* cs, const int* ds, MPI_Datatype t, void* r, int rn, MPI_Datatype rt, int root, MPI_Comm c)
{
  SOLO { if (r != MPI_IN_PLACE) memcpy(r, (char*)s + ds[0] * tsize(t), rn * tsize(rt)); return 0; }
  Args  a;
  Comm* cc = getcomm(c);
  int   me = myindex(cc);
  a.kind   = K_SCATTERV;
  a.root   = root;
  a.rcount = rn;
  a.dt     = tsize(rt);
  if (me == root) {
    a.dt = tsize(t);
    a.counts.assign(cs, cs + cc->members.size());
    a.displs.assign(ds, ds + cc->members.size());
    a.sbuf = s;
    if (r == MPI_IN_PLACE) a.rcount = cs[me];
    size_t need = 0;
    for (size_t j = 0; j < cc->members.size(); j++) need = std::max(need, (size_t)(ds[j] + cs[j]) * a.dt);
    capture(a, s, need);
  }
  return coll(c, a, [&](Coll* k, int me) {
    if (r == MPI_IN_PLACE) return;
    Args&  R = k->a[root];
    size_t b = std::min((size_t)rn * tsize(rt), (size_t)R.counts[me] * R.dt);
    if (b) memcpy(r, R.sent.data() + (size_t)R.displs[me] * R.dt, b);
  });
}
int
MPI_Alltoall(const void* s, int n, MPI_Datatype t, void* r, int rn, MPI_Datatype rt, MPI_Comm c)
{
  SOLO { memcpy(r, s, n * tsize(t)); return 0; }
  Args a;
  a.kind  = K_ALLTOALL;
  a.count = n;
  a.dt    = tsize(t);
  size_t b = (size_t)n * a.dt;
  capture(a, s, b * getcomm(c)->members.size());
  return coll(c, a, [&](Coll* k, int me) {
    for (size_t j = 0; j < k->a.size(); j++)
      if (b) memcpy((char*)r + j * b, k->a[j].sent.data() + me * b, b);
  });
}
// standard-mode send: the strictest legal behaviour, it returns when it has been received
int
MPI_Send(const void* b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c)
{
  SOLO return 0;
  point();
  Comm* cc = getcomm(c);
  auto  m  = post(cc, b, n * tsize(t), dst, tag);
  wait_until([m] { return m->taken; });
  return 0;
}
int
MPI_Recv(void* b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Status* st)
{
  SOLO return 0;
  point();
  Comm* cc = getcomm(c);
  int   me = W->cur;
  wait_until([=] { return find(cc, me, src, tag) != nullptr; });
  consume(cc, find(cc, me, src, tag), b, n * tsize(t), st);
  return 0;
}
int
MPI_Probe(int src, int tag, MPI_Comm c, MPI_Status* st)
{
  SOLO return 0;
  point();
  Comm* cc = getcomm(c);
  int   me = W->cur;
  wait_until([=] { return find(cc, me, src, tag) != nullptr; });
  auto m = find(cc, me, src, tag);
  if (st != MPI_STATUS_IGNORE) {
    memset(st, 0, sizeof *st);
    for (size_t i = 0; i < cc->members.size(); i++)
      if (cc->members[i] == m->src) st->MPI_SOURCE = (int)i;
    st->MPI_TAG = m->tag;
    st->_ucount = m->data.size();
  }
  return 0;
}
int
MPI_Get_count(const MPI_Status* st, MPI_Datatype t, int* n)
{
  *n = (int)(st->_ucount / tsize(t));
  return 0;
}
int
MPI_Sendrecv(const void* sb, int sn, MPI_Datatype stt, int dst, int stag, void* rb, int rn, MPI_Datatype rt, int src, int rtag, MPI_Comm c, MPI_Status* st)
{
  SOLO { memcpy(rb, sb, sn * tsize(stt)); return 0; }
  point();
  Comm* cc = getcomm(c);
  int   me = W->cur;
  std::shared_ptr<Msg> m;
  if (dst != MPI_PROC_NULL) m = post(cc, sb, sn * tsize(stt), dst, stag);
  if (src != MPI_PROC_NULL) {
    wait_until([=] { return find(cc, me, src, rtag) != nullptr; });
    consume(cc, find(cc, me, src, rtag), rb, rn * tsize(rt), st);
  }
  if (m) wait_until([m] { return m->taken; });
  return 0;
}
int
MPI_Isend(const void* b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c, MPI_Request* q)
{
  SOLO { *q = MPI_REQUEST_NULL; return 0; }
  point();
  std::unique_ptr<Req> u(new Req);
  u->type = 2;
  u->msg  = post(getcomm(c), b, n * tsize(t), dst, tag);
  *q      = (MPI_Request)(void*)u.get();
  W->reqs.push_back(std::move(u));
  return 0;
}
int
MPI_Irecv(void* b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Request* q)
{
  SOLO { *q = MPI_REQUEST_NULL; return 0; }
  point();
  std::unique_ptr<Req> u(new Req);
  u->type = 3;
  u->rbuf = b;
  u->cap  = n * tsize(t);
  u->src  = src;
  u->tag  = tag;
  u->comm = getcomm(c);
  u->me   = W->cur;
  *q      = (MPI_Request)(void*)u.get();
  W->reqs.push_back(std::move(u));
  pair_up();
  return 0;
}
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler) { return 0; }
}

// Ranks share the process, so the process-wide runtime is started once.
namespace Kokkos {
void initialize(int& narg, char* arg[]);
void finalize();
}  // namespace Kokkos
static int g_kokkos = 0;
void
Kokkos::initialize(int& narg, char* arg[])
{
  typedef void (*F)(int&, char**);
  static F real = (F)dlsym(RTLD_NEXT, "_ZN6Kokkos10initializeERiPPc");
  if (g_kokkos++ == 0) real(narg, arg);
}
void
Kokkos::finalize()
{
  typedef void (*F)();
  static F real = (F)dlsym(RTLD_NEXT, "_ZN6Kokkos8finalizeEv");
  if (--g_kokkos == 0) real();
}
