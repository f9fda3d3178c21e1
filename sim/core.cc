// Deterministic simulator: fibers, scheduler, network, system-call seam.
#include "core.h"

#include <arpa/inet.h>
#include <errno.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <poll.h>
#include <signal.h>
#include <stdio.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/select.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <dlfcn.h>
#include <math.h>
#include <stdarg.h>
#include <ucontext.h>
#include <iostream>
#include <random>
#include <streambuf>
#include <cstdarg>
#include <dlfcn.h>
#include <sodium.h>
#include <algorithm>
#include <new>
#include <sstream>

namespace sim {

Scenario S;
std::vector<std::unique_ptr<Node>> nodes;
std::vector<std::unique_ptr<Conn>> conns;
std::vector<std::unique_ptr<Listener>> listeners;
std::vector<SealEv> seals;
std::vector<OpenEv> opens;
Node* cur = nullptr;
uint64_t step_no = 0, vclock_us = 1000000, hashv = 1469598103934665603ull;
std::vector<uint64_t> clock_at;
static uint64_t tick_us = 0, cost_us = 0;  // how long a step, and a cryptographic operation, take (0: no account of it)
bool deadlocked = false, livelocked = false, stepcapped = false;
uint64_t progress_step = 0;
bool mesh_up_at_fault = true;
uint64_t fault_step = 0;
bool MeshUp() {
  size_t want = (size_t)S.parties * S.servers + (size_t)S.parties * S.servers * (S.servers - 1) / 2, have = 0;
  for (auto& c : conns) if (c->accepted) have++;
  return have >= want;
}
static void NoteFault() { if (!fault_step) fault_step = step_no + 1; if (!MeshUp()) mesh_up_at_fault = false; }
std::map<std::string, uint64_t> counters;
std::vector<uint32_t> choice_log;
bool record_crypto = false;
Rng sched_rng(1);
volatile uint64_t activity = 0;

static std::vector<uint32_t> replay;
static bool replaying = false;
static size_t replay_pos = 0;

void HashAdd(uint64_t v) { hashv = (hashv ^ v) * 1099511628211ull; hashv ^= hashv >> 29; }

void SetReplayChoices(const std::vector<uint32_t>& c) { replay = c; replaying = true; replay_pos = 0; }
uint32_t Choose(uint32_t pick) {
  uint32_t v = pick;
  if (replaying) v = replay_pos < replay.size() ? replay[replay_pos++] : 0;
  choice_log.push_back(v);
  return v;
}

// ---------- fibers ----------
static void* sched_sp;
extern "C" void sim_switch(void** save, void* to);
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size sim_switch,.-sim_switch
)");

int mem_fill = 0;
static const size_t kStack = 8u << 20;
static void FiberMain();

static void ToScheduler() {
  Node* me = cur;
  cur = nullptr;
  sim_switch(&me->sp, sched_sp);
}

static void MakeFiber(Node* n) {
  char* m = (char*)mmap(nullptr, kStack, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (m == MAP_FAILED) { fprintf(stderr, "stack mmap failed\n"); _exit(3); }
  mprotect(m, 4096, PROT_NONE);
  n->stack = m;
#ifdef SIM_MEM
  if (mem_fill) memset(m + kStack - (192 << 10), 0x5A, 192 << 10);
#endif
  void** sp = (void**)(m + kStack - 64);
  sp = (void**)((uintptr_t)sp & ~15ull);
  *--sp = nullptr;               // fake return address => alignment at entry
  *--sp = (void*)&FiberMain;     // ret target
  for (int i = 0; i < 6; i++) *--sp = nullptr;
  n->sp = sp;
}

static void CloseSock(Node* n, size_t k);
static void CloseAll(Node* n) { for (size_t k = 0; k < n->socks.size(); k++) CloseSock(n, k); }

static void EndNode(Node* n) {
  CloseAll(n);
  n->end_step = step_no;
  progress_step = step_no;
  HashAdd(0xE0 + n->id * 7919 + (uint64_t)(n->code + 5) * 31 + n->sig);
}

[[noreturn]] void NodeExit(int code) {
  Guard guard_;
  Node* n = cur;
  n->st = Node::EXITED; n->code = code;
  EndNode(n);
  ToScheduler();
  abort();
}
[[noreturn]] void NodeDie(int sig, const std::string& why) {
  Guard guard_;
  Node* n = cur;
  n->st = Node::DEAD; n->sig = sig; n->code = 128 + sig; n->death = why;
  EndNode(n);
  ToScheduler();
  __builtin_trap();
}

static void FiberMain() {
  Node* n = cur;
  std::vector<char*> av;
  for (auto& a : n->argv) av.push_back(const_cast<char*>(a.c_str()));
  av.push_back(nullptr);
  int rc = 0;
  try {
    auto fn = n->entry == 0 ? n->img->main_fn : n->entry == 1 ? n->img->gen_fn : n->img->harness_fn;
    rc = fn((int)n->argv.size(), av.data());
  } catch (const std::bad_alloc&) {
    NodeDie(SIGABRT, "uncaught std::bad_alloc");
  } catch (const std::exception& e) {
    NodeDie(SIGABRT, std::string("uncaught exception ") + e.what());
  } catch (...) {
    NodeDie(SIGABRT, "uncaught exception");
  }
  NodeExit(rc & 0xff);
}

static char altstack[65536];
static void CrashTrampoline() {
  NodeDie(SIGSEGV, "memory fault (SIGSEGV/SIGBUS)");
}
static void IllTrampoline() {
  NodeDie(SIGILL, "undefined operation (SIGILL)");
}
static void FpeTrampoline() {
  NodeDie(SIGFPE, "arithmetic fault (SIGFPE)");
}
static int crash_sig_node = -1;
static void OnSegv(int sig, siginfo_t*, void* uc_) {
  if (!cur) {
    static const char m[] = "simulator fault outside a node\n";
    syscall(SYS_write, 2, m, sizeof(m) - 1);
    signal(sig, SIG_DFL);
    return;
  }
  crash_sig_node = cur->id;
  ucontext_t* uc = (ucontext_t*)uc_;
  uintptr_t top = (uintptr_t)cur->stack + kStack - 256;
  top &= ~15ull;
  uc->uc_mcontext.gregs[REG_RSP] = top - 8;
  uc->uc_mcontext.gregs[REG_RIP] = sig == SIGFPE ? (greg_t)&FpeTrampoline : sig == SIGILL ? (greg_t)&IllTrampoline : (greg_t)&CrashTrampoline;
  sigset_t s; sigemptyset(&s); sigaddset(&s, sig);
  // mask restored by sigreturn from uc_sigmask
}
static uint64_t last_activity = 0; static int idle_ticks = 0;
static int spin_limit_ticks = 8;
static void SpinTrampoline() { NodeDie(SIGXCPU, "spins without any system call or randomness request"); }
static void OnProf(int, siginfo_t*, void* uc_) {
  if (!cur) return;
  static uint64_t last_step = 0; static int step_ticks = 0;
  if (step_no != last_step) { last_step = step_no; step_ticks = 0; }
  if (activity != last_activity) { last_activity = activity; idle_ticks = 0; }
  ++step_ticks;
  if (++idle_ticks < spin_limit_ticks && step_ticks < 4 * spin_limit_ticks) return;
  idle_ticks = step_ticks = 0;
  ucontext_t* uc = (ucontext_t*)uc_;
  uintptr_t top = (uintptr_t)cur->stack + kStack - 256;
  top &= ~15ull;
  uc->uc_mcontext.gregs[REG_RSP] = top - 8;
  uc->uc_mcontext.gregs[REG_RIP] = (greg_t)&SpinTrampoline;
}

// ---------- nodes ----------
int AddNode(const std::string& name, int role, int party, int server, int host, int entry,
            const std::vector<std::string>& argv) {
  auto n = std::make_unique<Node>();
  n->id = nodes.size(); n->name = name; n->role = role; n->party = party; n->server = server; n->host = host;
  n->entry = entry; n->argv = argv;
  nodes.push_back(std::move(n));
  return nodes.size() - 1;
}

static void InitRand(Node* n, unsigned seed) {
  if (!n->rd) {
    n->rd = (random_data*)calloc(1, sizeof(random_data));
    n->rstate = (char*)calloc(1, 128);
    initstate_r(seed, n->rstate, 128, n->rd);
  } else {
    srandom_r(seed, n->rd);
  }
}

std::vector<Image> image_pool;
size_t image_next = 0;
static void StartNode(Node* n) {
  if (image_next >= image_pool.size()) { fprintf(stderr, "image pool exhausted\n"); _exit(3); }
  n->img = &image_pool[image_next++];
  MakeFiber(n);
  n->st = Node::READY;
  n->wait = W_NONE;
  n->in_sim = 0;
  n->socks.clear();
  if (n->rd) { free(n->rd); free(n->rstate); n->rd = nullptr; }
  InitRand(n, 1);
  n->rng.Seed(Hash2(S.seed, 1000 + n->id * 17 + n->incarnation * 977));
  progress_step = step_no;
  HashAdd(0x57A57 + n->id);
}

const char* WaitName(Wait w) {
  switch (w) {
    case W_READ: return "read"; case W_SEND: return "send"; case W_ACCEPT: return "accept";
    case W_POLL: return "poll"; case W_SLEEP: return "sleep"; case W_CONNECT: return "connect"; default: return "run";
  }
}

// ---------- readiness ----------
static bool Readable(Conn* c, int side) {
  Dir& d = c->d[1 - side];
  return d.Queued() > 0 || d.fin_seen || d.rst;
}
static bool SendSpace(Conn* c, int side) {
  Dir& d = c->d[side];
  return d.InFlight() < S.sbuf || c->d[1 - side].rst;
}
static bool PollReady(Node* n, struct pollfd* p, size_t cnt) {
  for (size_t i = 0; i < cnt; i++) {
    if (p[i].fd < 0) continue;
    size_t k = p[i].fd - 700;
    if (p[i].fd < 700 || k >= n->socks.size()) return true;  // POLLNVAL
    Sock& s = n->socks[k];
    if (s.t == Sock::CLOSED) return true;
    if (s.t == Sock::LISTEN) { if ((p[i].events & POLLIN) && !listeners[s.listener]->pending.empty()) return true; continue; }
    if (s.t != Sock::CONN) return true;
    Conn* c = conns[s.conn].get();
    if (c->d[1 - s.side].rst) return true;
    if ((p[i].events & (POLLIN | POLLRDHUP)) && Readable(c, s.side)) return true;
    if ((p[i].events & POLLOUT) && SendSpace(c, s.side)) return true;
  }
  return false;
}
static bool NodeEnabled(Node* n) {
  if (n->stall_until > step_no && n->stall_clock > vclock_us) return false;
  if (n->st == Node::READY) return true;
  if (n->st != Node::WAITING) return false;
  switch (n->wait) {
    case W_READ: return Readable(conns[n->wconn].get(), n->wside);
    case W_SEND: return SendSpace(conns[n->wconn].get(), n->wside);
    case W_ACCEPT: return !listeners[n->wlist]->pending.empty();
    case W_POLL: return PollReady(n, n->wp, n->wn) || (n->wtimed && vclock_us >= n->wake);
    case W_SLEEP: return vclock_us >= n->wake;
    case W_CONNECT: return vclock_us >= n->wake;
    default: return true;
  }
}
static bool DirEnabled(Conn* c, int i) {
  Dir& d = c->d[i];
  if (d.hold_until > step_no && d.hold_clock > vclock_us) return false;
  if (d.rst) return false;
  if (d.rst_pending) return true;
  if (c->closed[1 - i]) return d.InFlight() > 0;          // will bounce
  if (d.InFlight() > 0) return d.Queued() < S.rbuf;
  return d.fin && !d.fin_seen;
}

// ---------- closing / resets ----------
static void ResetConn(Conn* c, int victim_side) {
  // The end `victim_side` will learn of a reset: its incoming direction.
  Dir& in = c->d[1 - victim_side];
  if (!in.rst) in.rst_pending = true;
}
static void CloseSock(Node* n, size_t k) {
  Sock& s = n->socks[k];
  if (s.t == Sock::LISTEN) {
    Listener* l = listeners[s.listener].get();
    l->open = false;
    for (int ci : l->pending) { Conn* c = conns[ci].get(); c->closed[1] = true; ResetConn(c, 0); }
    l->pending.clear();
  } else if (s.t == Sock::CONN) {
    Conn* c = conns[s.conn].get();
    if (!c->closed[s.side]) {
      c->closed[s.side] = true;
      Dir& in = c->d[1 - s.side]; Dir& out = c->d[s.side];
      if (in.Queued() > 0) { if (!out.rst) out.rst_pending = true; counters["rst_on_close"]++; }
      else out.fin = true;
    }
  }
  s.t = Sock::CLOSED;
}

// ---------- delivery ----------
static uint32_t PickChunk(size_t avail, Rng& r) {
  // 0 means "everything possible"
  switch (S.chunk) {
    case 0: return 0;
    case 1: return r.Chance(0.5) ? 0 : (uint32_t)r.Range(1, avail);
    case 2: return (uint32_t)r.Range(1, std::min<size_t>(avail, 16));
    case 3: return 1;
    case 4: { static const int sz[] = {1, 3, 4, 11, 12, 13, 51, 52, 53, 75, 76, 77, 123, 124, 125, 247, 248, 249, 371, 372, 373, 1460};
              return std::min<size_t>(avail, sz[r.Below(sizeof(sz) / sizeof(sz[0]))]); }
    case 5: return std::min<size_t>(avail, 1460);
    case 6: return avail > 1 ? (uint32_t)(avail - 1) : 0;
    default: { // per-step mixture
      double u = r.Unit();
      if (u < 0.3) return 0;
      if (u < 0.5) return 1;
      if (u < 0.7) return (uint32_t)r.Range(1, std::min<size_t>(avail, 200));
      return (uint32_t)r.Range(1, avail);
    }
  }
}
static void Deliver(Conn* c, int i) {
  Dir& d = c->d[i];
  if (d.rst_pending) {
    size_t room = S.rbuf > d.Queued() ? S.rbuf - d.Queued() : 0;
    size_t can = c->closed[1 - i] ? 0 : std::min(room, d.InFlight());
    uint32_t lose = Choose(can ? (sched_rng.Chance(0.5) ? 0 : (uint32_t)sched_rng.Range(1, can)) : 0);
    if (lose > can) lose = can;
    d.delivered += can - lose;
    d.log.resize(d.delivered);
    d.rst = true; d.rst_pending = false; d.err = ECONNRESET;
    counters["ev_rst_delivered"]++;
    progress_step = step_no;
    return;
  }
  if (c->closed[1 - i]) {  // receiver is gone: data bounces as a reset
    d.delivered = d.log.size(); d.consumed = d.delivered;
    if (!c->d[1 - i].rst) { c->d[1 - i].rst_pending = true; counters["data_to_closed"]++; }
    progress_step = step_no;
    return;
  }
  if (d.InFlight() > 0) {
    size_t can = std::min<size_t>(S.rbuf - d.Queued(), d.InFlight());
    uint32_t k = Choose(can > 1 ? PickChunk(can, sched_rng) : 0);
    if (k == 0 || k > can) k = can;
    if (k < d.InFlight()) counters["split_deliveries"]++;
    d.delivered += k;
    HashAdd(k);
    progress_step = step_no;
    return;
  }
  d.fin_seen = true;
  progress_step = step_no;
}

// ---------- scheduling ----------
struct Action { int type; int a, b; };  // 0 node, 1 dir(conn,i), 2 clock
static std::vector<Action> acts;
static std::vector<uint32_t> node_age, dir_age;
static uint32_t clock_age = 0;
static std::vector<double> prio_node, prio_dir;
static double prio_clock = 0;
static std::vector<uint64_t> change_points;
static Node* last_node = nullptr;

static bool IsSlowNode(int i) { return S.slow && (Hash2(S.slow, i) % 3 == 0); }
static bool IsSlowDir(int c, int i) { return S.slow && (Hash2(S.slow + 1, c * 2 + i) % 4 == 0); }

static uint32_t PickAction() {
  size_t n = acts.size();
  if (n == 1) return 0;
  Rng& r = sched_rng;
  switch (S.strat) {
    case 0: return 0;
    case 1: {
      uint32_t k = r.Below(n);
      if (acts[k].type == 2 && !r.Chance(0.1)) k = r.Below(n - 1);  // the clock is the last action
      return k;
    }
    case 2: case 3: {  // priorities with change points
      for (uint64_t cp : change_points)
        if (cp == step_no) {
          // demote a random entity
          size_t k = r.Below(prio_node.size() + prio_dir.size());
          if (k < prio_node.size()) prio_node[k] = r.Unit() * 0.1; else prio_dir[k - prio_node.size()] = r.Unit() * 0.1;
        }
      double best = -1; uint32_t bi = 0;
      for (uint32_t k = 0; k < n; k++) {
        auto& a = acts[k];
        double p = a.type == 0 ? prio_node[a.a] : a.type == 1 ? prio_dir[a.a * 2 + a.b] : prio_clock;
        if (p > best) { best = p; bi = k; }
      }
      return bi;
    }
    default: {
      // weighted: 4 sticky, 5 lazy delivery, 6 eager delivery, 7 slow entities
      double tot = 0; static std::vector<double> w; w.assign(n, 1);
      for (uint32_t k = 0; k < n; k++) {
        auto& a = acts[k];
        double x = 1;
        if (S.strat == 4) x = (a.type == 0 && last_node && a.a == last_node->id) ? 20 : 1;
        if (S.strat == 5) x = a.type == 1 ? 0.02 : 1;
        if (S.strat == 6) x = a.type == 0 ? 0.05 : 1;
        if (S.strat == 7) {
          if (a.type == 0 && IsSlowNode(a.a)) x = nodes[a.a]->nconn ? 0.002 : 0.05;  // (while peers still retry, less so)
          if (a.type == 1 && IsSlowDir(a.a, a.b)) x = 0.002;
        }
        if (a.type == 2) x *= 0.05;
        w[k] = x; tot += x;
      }
      double u = r.Unit() * tot;
      for (uint32_t k = 0; k < n; k++) { if (u < w[k]) return k; u -= w[k]; }
      return n - 1;
    }
  }
}

static void RunFiber(Node* n) {
  last_node = n;
  cur = n;
  n->st = Node::READY;
  sim_switch(&sched_sp, n->sp);
  cur = nullptr;
}

bool AllEnded() {
  for (auto& n : nodes) if (n->st != Node::EXITED && n->st != Node::DEAD) return false;
  return true;
}

static void KillNode(Node* n, const std::string& why) {
  n->st = Node::DEAD; n->sig = SIGKILL; n->code = 137; n->death = why;
  EndNode(n);
}

uint64_t* state_bitmap = nullptr;  // 2^24 bits shared
static void CoverState() {
  if (!state_bitmap) return;
  uint64_t h = 77;
  for (auto& n : nodes) h = Hash2(h, (uint64_t)n->st * 16 + (n->st == Node::WAITING ? n->wait : 0) + (uint64_t)n->role * 512);
  for (auto& c : conns) for (int i = 0; i < 2; i++) {
    Dir& d = c->d[i];
    int b = (d.InFlight() > 0) + 2 * (d.Queued() > 0) + 4 * (d.InFlight() >= S.sbuf) + 8 * (d.Queued() >= S.rbuf);
    h = Hash2(h, b);
  }
  h &= (1u << 24) - 1;
  state_bitmap[h >> 6] |= 1ull << (h & 63);
}

void RunAll() {
  tick_us = S.X("tick"); cost_us = S.X("cost");
  sched_rng.Seed(Hash2(S.sched, 0x5CED));
  Rng pr(Hash2(S.sched, 0x9107));
  prio_node.clear(); prio_dir.clear();
  for (size_t i = 0; i < nodes.size(); i++) prio_node.push_back(pr.Unit() + 0.2);
  prio_clock = S.sched % 4 == 0 ? 0.15 : 0;
  change_points.clear();
  if (S.strat == 2 || S.strat == 3) {
    int d = pr.Range(1, 12);
    for (int i = 0; i < d; i++) change_points.push_back((uint64_t)exp2(pr.Unit() * 14));
  }
  node_age.assign(nodes.size(), 0); clock_age = 0; dir_age.clear();
  // start delays
  Rng st(Hash2(S.nstart, 0x57A7));
  uint64_t wait_steps = 0;  // what polling for a late start takes
  for (auto& n : nodes) {
    if (n->st != Node::NOTSTARTED) continue;
    if (S.nstart == 0 || n->start_at) { if (!n->start_at) StartNode(n.get()); }
    else {
      double u = st.Unit();
      n->start_at = vclock_us + (u < 0.2 ? 0 : (uint64_t)(exp2(st.Unit() * (S.nstart >= 65536 ? 22 : 10 + S.nstart % 7)) * 1000));  // up to 65 s, or 70 min
      wait_steps = std::max(wait_steps, (n->start_at - vclock_us) / 1000000 * 16 * nodes.size());
      if (n->start_at == vclock_us) { n->start_at = 0; StartNode(n.get()); }
    }
  }
  std::vector<bool> fired(S.faults.size(), false);
  uint64_t noprog_limit = 0, stall_total = 0;
  for (auto& f : S.faults) if (f.kind == "stall" || f.kind == "hold") stall_total += f.arg;
  for (;;) {
    // start nodes whose time came
    for (auto& n : nodes)
      if (n->st == Node::NOTSTARTED && n->start_at && vclock_us >= n->start_at) { n->start_at = 0; StartNode(n.get()); }
    // connection resets at a global step
    for (size_t f = 0; f < S.faults.size(); f++) {
      Fault& x = S.faults[f];
      if (fired[f] || (x.kind != "reset" && x.kind != "hold") || step_no < x.at) continue;
      if (conns.empty()) continue;
      if (x.kind == "hold") {
        Conn* c = conns[x.node / 2 % conns.size()].get();
        fired[f] = true;
        c->d[x.node % 2].hold_until = step_no + x.arg; c->d[x.node % 2].hold_clock = vclock_us + x.arg * 500;
        counters["fault_link_stall"]++;
        continue;
      }
      Conn* c = conns[x.node % conns.size()].get();
      fired[f] = true;
      if (c->closed[0] || c->closed[1]) continue;
      if (c->d[0].InFlight() == 0 && c->d[1].InFlight() == 0 && c->d[0].fin && c->d[1].fin) continue;
      NoteFault();
      ResetConn(c, 0); ResetConn(c, 1);
      counters["fault_reset"]++;
    }
    while (dir_age.size() < conns.size() * 2) dir_age.push_back(0);
    while (prio_dir.size() < conns.size() * 2) prio_dir.push_back(pr.Unit() + 0.2);
    // enabled actions, benign order first
    acts.clear();
    int nn = nodes.size();
    int lastid = last_node ? last_node->id : -1;
    bool last_ok = lastid >= 0 && NodeEnabled(last_node);
    if (last_ok) acts.push_back({0, lastid, 0});
    for (size_t c = 0; c < conns.size(); c++)
      for (int i = 0; i < 2; i++)
        if (DirEnabled(conns[c].get(), i)) acts.push_back({1, (int)c, i});
    for (int k = 1; k <= nn; k++) {
      int i = (std::max(lastid, 0) + k) % nn;
      if (i == lastid) continue;
      if (NodeEnabled(nodes[i].get())) acts.push_back({0, i, 0});
    }
    uint64_t next = UINT64_MAX;
    for (auto& n : nodes) {
      if (n->st == Node::NOTSTARTED && n->start_at) next = std::min(next, n->start_at);
      if (n->st == Node::WAITING && (n->wait == W_SLEEP || n->wait == W_CONNECT || (n->wait == W_POLL && n->wtimed)) && n->wake > vclock_us)
        next = std::min(next, n->wake);
    }
    if (acts.empty()) {
      // only stalled processes and links (or the clock) are left: they resume
      bool any = false;
      for (auto& n : nodes) if (n->stall_until > step_no) { n->stall_until = 0; any = true; }
      for (auto& c : conns) for (int i = 0; i < 2; i++) if (c->d[i].hold_until > step_no) { c->d[i].hold_until = 0; any = true; }
      if (any) continue;
    }
    if (next != UINT64_MAX) acts.push_back({2, 0, 0});
    if (acts.empty()) {
      if (!AllEnded()) deadlocked = true;
      break;
    }
    // fairness: anything enabled but unserved for too long is forced
    int forced = -1;
    uint32_t fairn = S.fair + acts.size();
    for (size_t k = 0; k < acts.size(); k++) {
      auto& a = acts[k];
      uint32_t& age = a.type == 0 ? node_age[a.a] : a.type == 1 ? dir_age[a.a * 2 + a.b] : clock_age;
      if (++age > fairn && forced < 0) forced = k;
    }
    uint32_t pick;
    if (forced >= 0) pick = forced;
    else {
      pick = Choose(replaying ? 0 : PickAction());
      if (pick >= acts.size()) pick %= acts.size();
    }
    Action a = acts[pick];
    (a.type == 0 ? node_age[a.a] : a.type == 1 ? dir_age[a.a * 2 + a.b] : clock_age) = 0;
    HashAdd(((uint64_t)a.type << 40) | ((uint64_t)a.a << 8) | a.b);
    step_no++;
    vclock_us += tick_us ? 1 + Hash2(S.seed, step_no) % tick_us : 10;
    if (a.type == 2) vclock_us = std::max(vclock_us, next);
    clock_at.resize(step_no, vclock_us);
    clock_at.push_back(vclock_us);
    if (a.type == 0) RunFiber(nodes[a.a].get());
    else if (a.type == 1) Deliver(conns[a.a].get(), a.b);
    if ((step_no & 3) == 0) CoverState();
    uint64_t ents = nodes.size() + conns.size() * 2 + 1;
    noprog_limit = 60 * (S.fair + ents) + 4000 + stall_total + wait_steps;
    if (step_no - progress_step > noprog_limit) { livelocked = true; break; }
    if (step_no > S.maxsteps) { stepcapped = true; break; }
  }
  HashAdd(step_no);
}

std::string DescribeNodes() {
  std::ostringstream o;
  for (auto& n : nodes) {
    o << n->name << ":";
    switch (n->st) {
      case Node::NOTSTARTED: o << "not-started"; break;
      case Node::READY: o << "runnable"; break;
      case Node::WAITING: o << "blocked-in-" << WaitName(n->wait);
        if (n->wconn >= 0 && (n->wait == W_READ || n->wait == W_SEND)) {
          Conn* c = conns[n->wconn].get();
          o << "(peer " << nodes[c->node[1 - n->wside]]->name << ")";
        }
        break;
      case Node::EXITED: o << "exit" << n->code; break;
      case Node::DEAD: o << "died(" << n->sig << " " << n->death << ")"; break;
    }
    o << " ";
  }
  return o.str();
}

// ---------- fault points ----------
static int SysFault(const char* kind) {
  (void)kind;
  Node* n = cur;
  for (auto& f : S.faults) {
    if (f.node != n->id || f.at != n->nsys) continue;
    if (f.kind == "crash" && n->incarnation == 0) {
      counters["fault_crash"]++;
      NoteFault();
      KillNode(n, "killed by fault");
      ToScheduler();
    }
    if (f.kind == "restart" && n->incarnation == 0) {
      bool connected = false;
      for (auto& c : conns) connected |= c->node[0] == n->id || c->node[1] == n->id;
      if (connected) { counters["restart_skipped_connected"]++; continue; }
      counters["fault_restart"]++;
      if (!fault_step) fault_step = step_no + 1;
      EndNode(n);
      n->incarnation++;
      n->st = Node::NOTSTARTED;
      n->start_at = vclock_us + 1 + f.arg * 1000ull;
      n->nsys = 0; n->nconn = 0; n->nalloc = 0; n->draws.clear(); n->lookups.clear(); n->answers.clear();
      n->socks.clear();
      ToScheduler();
    }
    if (f.kind == "stall" && n->incarnation == 0) {
      counters["fault_process_stall"]++;
      n->stall_until = step_no + f.arg; n->stall_clock = vclock_us + f.arg * 500;  // up to 16 s
    }
    if (f.kind == "sysfail") { NoteFault(); return f.arg; }
  }
  return 0;
}
static int pending_errno = 0;
void YieldPoint(const char* kind) {
  Node* n = cur;
  activity++;
  n->nsys++;
  if (!n->nconn && kind[0] != 'c' && kind[0] != 'a' && (kind[0] == 'r' || !strcmp(kind, "send"))) n->nconn = n->nsys;
  int e = SysFault(kind);
  HashAdd((uint64_t)kind[0] * 131 + kind[1] + n->id * 65537);
  ToScheduler();
  pending_errno = e;
  if (e) counters[std::string("fault_sysfail_") + kind]++;
}
static int TakeErr() { int e = pending_errno; pending_errno = 0; return e; }
static void Block(Wait w) {
  Node* n = cur;
  n->st = Node::WAITING; n->wait = w;
  ToScheduler();
  n->wait = W_NONE;
}

void InitEngine() {
  stack_t ss{}; ss.ss_sp = altstack; ss.ss_size = sizeof(altstack);
  sigaltstack(&ss, nullptr);
  struct sigaction sa{};
  sa.sa_sigaction = OnSegv; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL}) sigaction(s, &sa, nullptr);
  struct sigaction sp{};
  sp.sa_sigaction = OnProf; sp.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_RESTART;
  sigaction(SIGPROF, &sp, nullptr);
  struct itimerval it{}; it.it_interval.tv_usec = 500000; it.it_value.tv_usec = 500000;
  setitimer(ITIMER_PROF, &it, nullptr);
}

static Sock* GetSock(int fd) {
  if (!cur || fd < 700) return nullptr;
  size_t k = fd - 700;
  if (k >= cur->socks.size() || cur->socks[k].t == Sock::CLOSED) return nullptr;
  return &cur->socks[k];
}
static bool IsSim(int fd) { return cur && fd >= 700; }
static int NewFd(Node* n) {
  for (size_t k = 0; k < n->socks.size(); k++)
    if (n->socks[k].t == Sock::CLOSED) { n->socks[k] = Sock(); return 700 + k; }
  n->socks.emplace_back();
  return 700 + n->socks.size() - 1;
}

static ssize_t SimRecv(int fd, char* buf, size_t n, int flags) {
  Guard guard_;
  YieldPoint("read");
  Sock* s = GetSock(fd);
  if (!s) { errno = EBADF; return -1; }
  if (int e = TakeErr()) { errno = e; return -1; }
  if (s->t != Sock::CONN) { errno = ENOTCONN; return -1; }
  if (n == 0) return 0;
  size_t got = 0;
  for (;;) {
    Conn* c = conns[s->conn].get();
    Dir& d = c->d[1 - s->side];
    if (d.Queued() > 0) {
      size_t k = std::min(n - got, d.Queued());
      MEMCHECK(buf + got, k, "receive into");
      memcpy(buf + got, d.log.data() + d.consumed, k);
      if (flags & MSG_PEEK) return k;
      d.consumed += k; got += k;
      d.read.emplace_back(d.consumed, step_no);
      progress_step = step_no;
      HashAdd(k * 3 + 1);
      if ((flags & MSG_WAITALL) && got < n) continue;
      return got;
    }
    if (got > 0 && !(flags & MSG_WAITALL)) return got;
    if (d.rst) { if (got) return got; if (d.err) { errno = d.err; d.err = 0; return -1; } return 0; }
    if (d.fin_seen) { counters["eof_reads"]++; return got; }
    if (s->nonblock || (flags & MSG_DONTWAIT)) { if (got) return got; errno = EAGAIN; return -1; }
    int side = s->side, conn = s->conn;
    cur->wconn = conn; cur->wside = side;
    Block(W_READ);
    s = GetSock(fd);
  }
}

static ssize_t SimSend(int fd, const char* buf, size_t n, int flags) {
  Guard guard_;
  YieldPoint("send");
  Sock* s = GetSock(fd);
  if (!s) { errno = EBADF; return -1; }
  if (int e = TakeErr()) { errno = e; return -1; }
  if (s->t != Sock::CONN) { errno = ENOTCONN; return -1; }
  uint32_t lim = 0;
  if (n > 1 && S.shortw) {
    lim = Choose(sched_rng.Below(100) < (uint64_t)S.shortw ? (uint32_t)sched_rng.Range(1, n - 1) : 0);
    if (lim >= n) lim = 0;
    if (lim) counters["fault_short_send"]++;
  }
  size_t want = lim ? lim : n, done = 0;
  if (n == 0) return 0;
  MEMCHECK(buf, n, "send from");
  for (;;) {
    Conn* c = conns[s->conn].get();
    Dir& out = c->d[s->side]; Dir& in = c->d[1 - s->side];
    if (in.rst) {
      if (done) return done;
      if (in.err) { errno = in.err; in.err = 0; return -1; }
      if (!(flags & MSG_NOSIGNAL)) NodeDie(SIGPIPE, "SIGPIPE");
      errno = EPIPE; return -1;
    }
    size_t space = out.InFlight() < S.sbuf ? S.sbuf - out.InFlight() : 0;
    size_t k = std::min(space, want - done);
    if (k) {
      if (!out.rst) out.log.append(buf + done, k);  // else it goes nowhere
      out.accepted += k;
      out.sent.emplace_back(out.accepted, step_no);
      done += k;
      progress_step = step_no;
      HashAdd(k * 5 + 2);
    }
    if (done == want) return done;
    if (s->nonblock || (flags & MSG_DONTWAIT)) { if (done) return done; errno = EAGAIN; return -1; }
    counters["send_blocked"]++;
    cur->wconn = s->conn; cur->wside = s->side;
    Block(W_SEND);
    s = GetSock(fd);
  }
}

static int SimPoll(struct pollfd* p, size_t n, int64_t timeout_ms) {
  Guard guard_;
  YieldPoint("poll");
  if (int e = TakeErr()) { errno = e; return -1; }
  Node* me = cur;
  uint64_t until = timeout_ms > 0 ? vclock_us + timeout_ms * 1000 : 0;
  for (;;) {
    int cnt = 0;
    for (size_t i = 0; i < n; i++) {
      p[i].revents = 0;
      if (p[i].fd < 0) continue;
      Sock* s = GetSock(p[i].fd);
      if (!s) { p[i].revents = POLLNVAL; cnt++; continue; }
      if (s->t == Sock::LISTEN) {
        if ((p[i].events & POLLIN) && !listeners[s->listener]->pending.empty()) p[i].revents |= POLLIN;
      } else if (s->t == Sock::CONN) {
        Conn* c = conns[s->conn].get();
        Dir& in = c->d[1 - s->side];
        if ((p[i].events & POLLIN) && Readable(c, s->side)) p[i].revents |= POLLIN;
        if ((p[i].events & POLLRDHUP) && (in.fin_seen || in.rst)) p[i].revents |= POLLRDHUP;
        if ((p[i].events & POLLOUT) && SendSpace(c, s->side)) p[i].revents |= POLLOUT;
        if (in.rst) p[i].revents |= POLLHUP | (in.err ? POLLERR : 0);
      } else p[i].revents = POLLHUP;
      if (p[i].revents) cnt++;
    }
    HashAdd(cnt + 9);
    if (cnt || timeout_ms == 0) return cnt;
    if (timeout_ms > 0 && vclock_us >= until) return 0;
    me->wp = p; me->wn = n; me->wtimed = timeout_ms > 0; me->wake = until;
    Block(W_POLL);
  }
}

static void SimSleepUs(uint64_t us) {
  Guard guard_;
  YieldPoint("sleep");
  TakeErr();
  cur->wake = vclock_us + us;
  counters["sleeps"]++;
  if (us) Block(W_SLEEP);
}

static int HostOf(uint32_t ip_be) {
  uint32_t ip = ntohl(ip_be);
  if ((ip >> 24) == 127) return -1;  // own host
  if ((ip >> 24) == 10) return ip & 0xffffff;
  return -2;
}

static int SimConnect(int fd, const struct sockaddr* addr, socklen_t len) {
  Guard guard_;
  YieldPoint("connect");
  Sock* s = GetSock(fd);
  if (!s) { errno = EBADF; return -1; }
  if (int e = TakeErr()) { errno = e; return -1; }
  if (len < sizeof(sockaddr_in) || addr->sa_family != AF_INET) { errno = EAFNOSUPPORT; return -1; }
  if (s->t == Sock::CONN) { errno = EISCONN; return -1; }
  const sockaddr_in* a = (const sockaddr_in*)addr;
  int host = HostOf(a->sin_addr.s_addr);
  HashAdd(a->sin_addr.s_addr);
  // a listener bound to one address is reached through that address only
  bool lo = host == -1;
  if (lo) host = cur->host;
  int port = ntohs(a->sin_port);
  if (S.connfail && cur->connfails < 6) {
    uint32_t f = Choose(sched_rng.Below(100) < (uint64_t)S.connfail ? 1 + sched_rng.Below(3) : 0);
    if (f) {
      cur->connfails++;
      counters["fault_connect_fail"]++;
      static const int es[] = {ETIMEDOUT, EHOSTUNREACH, ECONNREFUSED};
      cur->wake = vclock_us + 1000;
      Block(W_CONNECT);
      errno = es[(f - 1) % 3];
      return -1;
    }
  }
  for (int tries = 0;; tries++) {
    int li = -1;
    for (size_t i = 0; i < listeners.size(); i++)
      if (listeners[i]->open && listeners[i]->host == host && listeners[i]->port == port &&
          (listeners[i]->via == 0 || (listeners[i]->via == 1) == lo)) { li = i; break; }
    if (li < 0) { counters["connect_refused"]++; errno = ECONNREFUSED; return -1; }
    Listener* l = listeners[li].get();
    if ((int)l->pending.size() > l->backlog) {  // SYN dropped, retried
      if (tries > 60) { errno = ETIMEDOUT; return -1; }
      counters["backlog_full"]++;
      cur->wake = vclock_us + 1000000;
      Block(W_CONNECT);
      s = GetSock(fd);
      continue;
    }
    auto c = std::make_unique<Conn>();
    c->id = conns.size(); c->node[0] = cur->id; c->node[1] = l->node; c->port = port;
    c->incarnation[0] = cur->incarnation; c->incarnation[1] = nodes[l->node]->incarnation;
    s->t = Sock::CONN; s->conn = c->id; s->side = 0;
    l->pending.push_back(c->id);
    conns.push_back(std::move(c));
    progress_step = step_no;
    HashAdd(0xC0 + port);
    return 0;
  }
}
static int SimAccept(int fd, struct sockaddr* addr, socklen_t* len) {
  Guard guard_;
  YieldPoint("accept");
  Sock* s = GetSock(fd);
  if (!s) { errno = EBADF; return -1; }
  if (int e = TakeErr()) { errno = e; return -1; }
  if (s->t != Sock::LISTEN) { errno = EINVAL; return -1; }
  int li = s->listener;
  while (listeners[li]->pending.empty()) {
    if (s->nonblock) { errno = EAGAIN; return -1; }
    cur->wlist = li;
    Block(W_ACCEPT);
  }
  int ci = listeners[li]->pending.front();
  listeners[li]->pending.pop_front();
  Conn* c = conns[ci].get();
  c->accepted = true;
  int nfd = NewFd(cur);
  Sock& ns = cur->socks[nfd - 700];
  ns.t = Sock::CONN; ns.conn = ci; ns.side = 1;
  if (addr && len && *len >= sizeof(sockaddr_in)) {
    sockaddr_in a{}; a.sin_family = AF_INET; a.sin_port = htons(30000 + ci);
    a.sin_addr.s_addr = htonl(0x0a000000u + nodes[c->node[0]]->host);
    memcpy(addr, &a, sizeof(a)); *len = sizeof(a);
  }
  progress_step = step_no;
  HashAdd(0xACC + ci);
  return nfd;
}

}  // namespace sim

using namespace sim;

static bool SimOn() { return sim::cur != nullptr; }

extern "C" {

int socket(int dom, int type, int proto) {
  Guard guard_;
  if (!SimOn()) return syscall(SYS_socket, dom, type, proto);
  YieldPoint("socket");
  if (int e = TakeErr()) { errno = e; return -1; }
  int fd = NewFd(cur);
  if (type & SOCK_NONBLOCK) cur->socks[fd - 700].nonblock = true;
  return fd;
}
int setsockopt(int fd, int level, int opt, const void* v, socklen_t l) {
  Guard guard_;
  if (!IsSim(fd)) return syscall(SYS_setsockopt, fd, level, opt, v, l);
  YieldPoint("setsockopt");
  if (!GetSock(fd)) { errno = EBADF; return -1; }
  if (int e = TakeErr()) { errno = e; return -1; }
  if (level == SOL_SOCKET && (opt == SO_REUSEADDR || opt == SO_REUSEPORT) && v && l >= sizeof(int)) {
    int on; memcpy(&on, v, sizeof(on));
    if (opt == SO_REUSEADDR) GetSock(fd)->reuse = on != 0;
  }
  return 0;
}
int getsockopt(int fd, int level, int opt, void* v, socklen_t* l) {
  if (!IsSim(fd)) return syscall(SYS_getsockopt, fd, level, opt, v, l);
  if (!GetSock(fd)) { errno = EBADF; return -1; }
  if (v && l && *l >= sizeof(int)) {
    int x = 0;
    if (level == SOL_SOCKET && (opt == SO_RCVBUF || opt == SO_SNDBUF)) x = 425984;
    memcpy(v, &x, sizeof(x)); *l = sizeof(int);
  }
  return 0;
}
int bind(int fd, const struct sockaddr* a, socklen_t l) {
  Guard guard_;
  if (!IsSim(fd)) return syscall(SYS_bind, fd, a, l);
  YieldPoint("bind");
  Sock* s = GetSock(fd);
  if (!s) { errno = EBADF; return -1; }
  if (int e = TakeErr()) { errno = e; return -1; }
  int port = ntohs(((const sockaddr_in*)a)->sin_port);
  for (auto& li : listeners)
    if (li->open && li->host == cur->host && li->port == port) { errno = EADDRINUSE; return -1; }
  int host = HostOf(((const sockaddr_in*)a)->sin_addr.s_addr);
  if (host == -2 && ((const sockaddr_in*)a)->sin_addr.s_addr != INADDR_ANY) { errno = EADDRNOTAVAIL; return -1; }
  if (host >= 0 && host != cur->host) { errno = EADDRNOTAVAIL; return -1; }
  // Connections of an earlier deployment still linger on the port (TIME_WAIT).
  if (S.X("twait") && vclock_us < 60000000 && !s->reuse) { counters["bind_refused"]++; errno = EADDRINUSE; return -1; }
  s->via = host == -1 ? 1 : host >= 0 ? 2 : 0;
  s->bound_port = port;
  return 0;
}
int listen(int fd, int backlog) {
  Guard guard_;
  if (!IsSim(fd)) return syscall(SYS_listen, fd, backlog);
  YieldPoint("listen");
  Sock* s = GetSock(fd);
  if (!s) { errno = EBADF; return -1; }
  if (int e = TakeErr()) { errno = e; return -1; }
  if (s->t == Sock::LISTEN) { listeners[s->listener]->backlog = std::max(backlog, 0); return 0; }
  auto l = std::make_unique<Listener>();
  l->node = cur->id; l->host = cur->host; l->port = s->bound_port; l->via = s->via; l->backlog = std::max(backlog, 0);
  s->t = Sock::LISTEN; s->listener = listeners.size();
  listeners.push_back(std::move(l));
  sim::progress_step = sim::step_no;
  return 0;
}
int connect(int fd, const struct sockaddr* a, socklen_t l) {
  if (!IsSim(fd)) return syscall(SYS_connect, fd, a, l);
  return SimConnect(fd, a, l);
}
int accept(int fd, struct sockaddr* a, socklen_t* l) {
  if (!IsSim(fd)) return syscall(SYS_accept, fd, a, l);
  return SimAccept(fd, a, l);
}
int accept4(int fd, struct sockaddr* a, socklen_t* l, int flags) {
  if (!IsSim(fd)) return syscall(SYS_accept4, fd, a, l, flags);
  int r = SimAccept(fd, a, l);
  if (r >= 0 && (flags & SOCK_NONBLOCK)) cur->socks[r - 700].nonblock = true;
  return r;
}
ssize_t recv(int fd, void* b, size_t n, int flags) {
  if (!IsSim(fd)) return syscall(SYS_recvfrom, fd, b, n, flags, nullptr, nullptr);
  return SimRecv(fd, (char*)b, n, flags);
}
ssize_t recvfrom(int fd, void* b, size_t n, int flags, struct sockaddr* a, socklen_t* l) {
  if (!IsSim(fd)) return syscall(SYS_recvfrom, fd, b, n, flags, a, l);
  return SimRecv(fd, (char*)b, n, flags);
}
ssize_t send(int fd, const void* b, size_t n, int flags) {
  if (!IsSim(fd)) return syscall(SYS_sendto, fd, b, n, flags, nullptr, 0);
  return SimSend(fd, (const char*)b, n, flags);
}
ssize_t sendto(int fd, const void* b, size_t n, int flags, const struct sockaddr* a, socklen_t l) {
  if (!IsSim(fd)) return syscall(SYS_sendto, fd, b, n, flags, a, l);
  return SimSend(fd, (const char*)b, n, flags);
}
ssize_t sendmsg(int fd, const struct msghdr* m, int flags) {
  Guard guard_;
  if (!IsSim(fd)) return syscall(SYS_sendmsg, fd, m, flags);
  std::string all;
  for (size_t i = 0; i < m->msg_iovlen; i++) all.append((char*)m->msg_iov[i].iov_base, m->msg_iov[i].iov_len);
  return SimSend(fd, all.data(), all.size(), flags);
}
ssize_t recvmsg(int fd, struct msghdr* m, int flags) {
  if (!IsSim(fd)) return syscall(SYS_recvmsg, fd, m, flags);
  if (m->msg_iovlen == 0) return 0;
  return SimRecv(fd, (char*)m->msg_iov[0].iov_base, m->msg_iov[0].iov_len, flags);
}
int close(int fd) {
  Guard guard_;
  if (!IsSim(fd)) return syscall(SYS_close, fd);
  YieldPoint("close");
  TakeErr();
  if (!GetSock(fd)) { errno = EBADF; return -1; }
  CloseSock(cur, fd - 700);
  return 0;
}
int shutdown(int fd, int how) {
  Guard guard_;
  if (!IsSim(fd)) return syscall(SYS_shutdown, fd, how);
  YieldPoint("shutdown");
  TakeErr();
  Sock* s = GetSock(fd);
  if (!s || s->t != Sock::CONN) { errno = ENOTCONN; return -1; }
  if (how != SHUT_RD) conns[s->conn]->d[s->side].fin = true;
  return 0;
}
int poll(struct pollfd* p, nfds_t n, int timeout) {
  if (!SimOn()) { return syscall(SYS_poll, p, n, timeout); }
  bool real = false;
  for (nfds_t i = 0; i < n; i++) if (p[i].fd >= 0 && p[i].fd < 700) real = true;
  if (real) return syscall(SYS_poll, p, n, 0);
  return SimPoll(p, n, timeout);
}
int ppoll(struct pollfd* p, nfds_t n, const struct timespec* ts, const sigset_t*) {
  if (!SimOn()) return syscall(SYS_ppoll, p, n, ts, nullptr, 0);
  return SimPoll(p, n, ts ? ts->tv_sec * 1000 + ts->tv_nsec / 1000000 : -1);
}
unsigned sleep(unsigned s) {
  if (!SimOn()) { struct timespec t{(time_t)s, 0}; syscall(SYS_nanosleep, &t, nullptr); return 0; }
  SimSleepUs(s * 1000000ull); return 0;
}
int usleep(useconds_t us) {
  if (!SimOn()) { struct timespec t{(time_t)(us / 1000000), (long)(us % 1000000) * 1000}; return syscall(SYS_nanosleep, &t, nullptr); }
  SimSleepUs(us); return 0;
}
int nanosleep(const struct timespec* t, struct timespec* rem) {
  if (!SimOn()) return syscall(SYS_nanosleep, t, rem);
  SimSleepUs(t->tv_sec * 1000000ull + t->tv_nsec / 1000); return 0;
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec* t, struct timespec* rem) {
  if (!SimOn()) return syscall(SYS_clock_nanosleep, c, flags, t, rem);
  uint64_t us = t->tv_sec * 1000000ull + t->tv_nsec / 1000;
  if (flags & TIMER_ABSTIME) us = us > vclock_us ? us - vclock_us : 0;
  SimSleepUs(us); return 0;
}
int sched_yield() { if (SimOn()) { YieldPoint("yield"); TakeErr(); } return 0; }
static uint64_t NowUs(clockid_t c) {
  uint64_t t = vclock_us;
  if (c == CLOCK_REALTIME) {
    t += 1700000000ull * 1000000;
    if (S.skew) { t += (int64_t)(Hash2(S.skew, cur->id + (vclock_us >> 20) * 131) % 200000000) - 100000000; counters["fault_clock_jump"]++; }
  }
  return t;
}
int clock_gettime(clockid_t c, struct timespec* t) {
  if (!SimOn()) return syscall(SYS_clock_gettime, c, t);
  uint64_t u = NowUs(c);
  t->tv_sec = u / 1000000; t->tv_nsec = (u % 1000000) * 1000;
  return 0;
}
int gettimeofday(struct timeval* t, void*) {
  if (!SimOn()) { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); t->tv_sec = ts.tv_sec; t->tv_usec = ts.tv_nsec / 1000; return 0; }
  uint64_t u = NowUs(CLOCK_REALTIME);
  t->tv_sec = u / 1000000; t->tv_usec = u % 1000000;
  return 0;
}
time_t time(time_t* o) {
  time_t v;
  if (!SimOn()) { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); v = ts.tv_sec; }
  else v = NowUs(CLOCK_REALTIME) / 1000000;
  if (o) *o = v;
  return v;
}

// ---- libc randomness, one generator per node as in one process each ----
void srand(unsigned s) {
  if (!SimOn()) return;
  if (s == 0) s = 1;  // as in glibc: both seeds give the same sequence
  unsigned v = S.seedsalt ? (unsigned)Hash2(S.seedsalt, s) : s;
  sim::activity++;
  srandom_r(v, cur->rd);
}
int rand() {
  if (!SimOn()) return 4;
  sim::activity++;
  int32_t r; random_r(cur->rd, &r); return r;
}
void srandom(unsigned s) { srand(s); }
long random() { return rand(); }
double drand48() { return rand() / 2147483648.0; }
void srand48(long s) { srand((unsigned)s); }
int getentropy(void* b, size_t n) {
  if (!SimOn()) { return syscall(SYS_getrandom, b, n, 0) == (long)n ? 0 : -1; }
  for (size_t i = 0; i < n; i++) ((unsigned char*)b)[i] = cur->rng.Next();
  return 0;
}
ssize_t getrandom(void* b, size_t n, unsigned f) {
  if (!SimOn()) return syscall(SYS_getrandom, b, n, f);
  getentropy(b, n); return n;
}

// ---- process death ----
void __assert_fail(const char* e, const char* f, unsigned l, const char*) {
  Guard guard_;
  if (!SimOn()) { fprintf(stderr, "simulator assertion %s %s:%u\n", e, f, l); _exit(3); }
  const char* b = strrchr(f, '/');
  char m[400]; snprintf(m, sizeof m, "assertion failed: %s (%s)", e, b ? b + 1 : f);
  (void)l;
  NodeDie(SIGABRT, m);
}
void abort() {
  if (!SimOn()) { signal(SIGABRT, SIG_DFL); kill(getpid(), SIGABRT); _exit(3); }
  NodeDie(SIGABRT, "abort() called");
}
void exit(int c) {
  if (!SimOn()) {
    static void (*real)(int) = (void (*)(int))dlsym(RTLD_NEXT, "exit");
    real(c); __builtin_trap();
  }
  NodeExit(c & 0xff);
}
void perror(const char* s) {
  Guard guard_;
  if (!SimOn()) { fprintf(stderr, "%s\n", s); return; }
  cur->out += std::string(s) + strerror(errno) + "\n";
}
int kill(pid_t p, int s) { return SimOn() ? 0 : syscall(SYS_kill, p, s); }

void dppir_sim_on_answer(uint32_t idx, uint32_t key, const void* rec, size_t n) {
  Guard guard_;
  if (!SimOn()) return;
  Answer a; a.idx = idx; a.key = key; a.n = n; a.rec.fill(0);
  MEMCHECK(rec, n, "answer read from");
  memcpy(a.rec.data(), rec, std::min<size_t>(n, 64));
  cur->answers.push_back(a);
}
void dppir_sim_on_lookup(uint32_t key, uint32_t size) {
  Guard guard_;
  if (!SimOn()) return;
  cur->lookups.emplace_back(key, step_no);
#ifdef SIM_MEM
  size = UINT32_MAX;   // the access itself is checked
#endif
  if (key >= size) {
    char m[128]; snprintf(m, sizeof m, "database lookup of key %u outside [0,%u)", key, size);
    NodeDie(SIGSEGV, m);
  }
}
}  // extern "C"

// ---------- libsodium randomness ----------
namespace {
const char* RName() { return "sim"; }
uint32_t RRandom() { sim::activity++; return cur ? (uint32_t)(cur->rng.Next() >> 16) : 0x12345678u; }
uint32_t RUniform(uint32_t ub) {
  Guard guard_;
  sim::activity++;
  if (ub < 2) return 0;
  if (!cur) return 0;
  Node* n = cur;
  bool keydraw = n->role == 0 && ub == S.db;
  uint32_t v = n->rng.Below(ub);
  if (keydraw && S.fixedkey >= 0) v = S.fixedkey % ub;
  else if (keydraw && S.keymode == 1) {
    uint64_t m = n->rng.Below(6);
    if (m == 0) v = 0; else if (m == 1) v = ub - 1; else if (m == 2 && !n->pool.empty()) v = n->pool[n->rng.Below(n->pool.size())] % ub;
  } else if (!keydraw && S.edge && n->rng.Below(100) < (uint64_t)S.edge) {
    counters["edge_draws"]++;
    switch (n->rng.Below(8)) {
      case 0: v = 0; break;
      case 1: v = ub - 1; break;
      case 2: v = 1 % ub; break;
      case 3: v = ub - 2; break;
      case 4: case 5: v = n->rng.Below(S.db) % ub; break;
      case 6: v = ub / 2; break;
      default: v = (ub - 1 - n->rng.Below(S.db)) % ub;
    }
  }
  if (!keydraw && v < S.db && n->pool.size() < 64) n->pool.push_back(v);
  if (keydraw) n->draws.push_back({ub, v});
  return v;
}
void RBuf(void* const b, const size_t sz) {
  sim::activity++;
  if (cur && !cur->in_sim) MEMCHECK(b, sz, "random bytes into");
  unsigned char* p = (unsigned char*)b;
  static Rng outside(77);
  Rng& r = cur ? cur->rng : outside;
  size_t i = 0;
  for (; i + 8 <= sz; i += 8) { uint64_t v = r.Next(); memcpy(p + i, &v, 8); }
  if (i < sz) { uint64_t v = r.Next(); memcpy(p + i, &v, sz - i); }
}
randombytes_implementation impl = {RName, RRandom, nullptr, RUniform, RBuf, nullptr};
}  // namespace
namespace sim { void InstallRandom() { randombytes_set_implementation(&impl); } }

// ---------- onion encryption seam: record, and optionally a fast stand-in ----------
extern "C" {
typedef int (*seal_fn)(unsigned char*, const unsigned char*, unsigned long long, const unsigned char*);
typedef int (*open_fn)(unsigned char*, const unsigned char*, unsigned long long, const unsigned char*, const unsigned char*);
static uint64_t KeyTag(const unsigned char* pk) { uint64_t v; memcpy(&v, pk, 8); return v; }
static std::map<std::string, std::string> sk2pk;
static void FastStream(const unsigned char* pk, uint64_t nonce, unsigned char* out, const unsigned char* in, size_t n) {
  Rng r(Hash2(KeyTag(pk), nonce));
  size_t i = 0;
  for (; i + 8 <= n; i += 8) { uint64_t a; memcpy(&a, in + i, 8); a ^= r.Next(); memcpy(out + i, &a, 8); }
  if (i < n) { uint64_t k = r.Next(); for (int j = 0; i < n; i++, j++) out[i] = in[i] ^ (k >> (8 * j)); }
}
int crypto_box_seal(unsigned char* c, const unsigned char* m, unsigned long long n, const unsigned char* pk) {
  Guard guard_;
  static seal_fn real = (seal_fn)dlsym(RTLD_NEXT, "crypto_box_seal");
  if (cur) { MEMCHECK(m, n, "seal from"); MEMCHECK(c, n + 48, "seal into"); MEMCHECK(pk, 32, "key read from"); }
  if (cur && record_crypto) {
    SealEv e; e.node = cur->id; e.step = step_no; e.t0 = vclock_us; vclock_us += cost_us; e.t1 = vclock_us; memcpy(e.pk.data(), pk, 32);
    e.plain.assign((const char*)m, n);
    seals.push_back(std::move(e));
  }
  if (cur) sim::activity++;
  if (!cur || !S.crypto) return real(c, m, n, pk);
  unsigned char head[48];
  for (int i = 0; i < 48; i += 8) { uint64_t v = cur->rng.Next(); memcpy(head + i, &v, 8); }
  uint64_t nonce; memcpy(&nonce, head, 8);
  std::string tmp(n, 0);
  FastStream(pk, nonce, (unsigned char*)tmp.data(), m, n);
  uint64_t mac = Hash2(nonce, KeyTag(pk));
  for (size_t i = 0; i < n; i++) mac = (mac ^ (unsigned char)tmp[i]) * 1099511628211ull;
  memcpy(head + 8, &mac, 8);
  memcpy(c, head, 48);
  memcpy(c + 48, tmp.data(), n);
  return 0;
}
int crypto_box_seal_open(unsigned char* m, const unsigned char* c, unsigned long long n, const unsigned char* pk, const unsigned char* sk) {
  Guard guard_;
  static open_fn real = (open_fn)dlsym(RTLD_NEXT, "crypto_box_seal_open");
  if (cur) { MEMCHECK(c, n, "open from"); if (n > 48) MEMCHECK(m, n - 48, "open into"); MEMCHECK(pk, 32, "key read from"); MEMCHECK(sk, 32, "key read from"); }
  if (cur) sim::activity++;
  int rc = 0;
  std::string chead((const char*)c, std::min<unsigned long long>(n, 32));
  if (!cur || !S.crypto) rc = real(m, c, n, pk, sk);
  else {
    if (n < 48) return -1;
    std::string key((const char*)sk, 32), want;
    auto it = sk2pk.find(key);
    if (it == sk2pk.end()) { unsigned char q[32]; crypto_scalarmult_base(q, sk); want.assign((char*)q, 32); sk2pk[key] = want; }
    else want = it->second;
    uint64_t nonce, mac; memcpy(&nonce, c, 8); memcpy(&mac, c + 8, 8);
    uint64_t t = Hash2(nonce, KeyTag(pk));
    for (size_t i = 48; i < n; i++) t = (t ^ c[i]) * 1099511628211ull;
    if (memcmp(want.data(), pk, 32) != 0 || t != mac) rc = -1;
    else { std::string tmp((const char*)c + 48, n - 48); FastStream(pk, nonce, m, (const unsigned char*)tmp.data(), n - 48); }
  }
  if (cur && record_crypto && rc == 0) {
    OpenEv e; e.node = cur->id; e.step = step_no; e.t0 = vclock_us; vclock_us += cost_us; e.t1 = vclock_us; memcpy(e.pk.data(), pk, 32);
    e.plain.assign((const char*)m, n - 48); e.cipherhead = chead;
    opens.push_back(std::move(e));
  }
  return rc;
}
}

// ---------- allocation seam: failure injection, red zones, defined fill ----------
namespace {
struct Hdr { size_t n; uint64_t magic; };
const uint64_t kMagic = 0xA110CA7EDBADF00Dull, kFreed = 0xDEADDEADDEADDEADull;
// Memory of the simulated processes comes from an arena at a fixed address, so
// its layout does not depend on what this worker did before.
char* const kArena = (char*)0x200000000000ull;
const size_t kArenaSize = 3ull << 30;
char* arena_top = nullptr;
void* arena_free[256];
bool InArena(void* p) { return (char*)p >= kArena && (char*)p < kArena + kArenaSize; }
int ArenaClass(size_t n, size_t* sz) {
  if (n <= 1024) { size_t c = (n + 15) / 16; *sz = c * 16; return (int)c; }
  int c = 65; size_t z = 1280;
  for (;; c++) { if (n <= z) { *sz = z; return c; } z += z / 4; z = (z + 15) & ~15ull; }
}
void* ArenaAlloc(size_t n) {
  if (!arena_top) {
    void* m = mmap(kArena, kArenaSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
    if (m == MAP_FAILED) { fprintf(stderr, "arena mmap failed\n"); _exit(3); }
    arena_top = kArena;
  }
#ifdef SIM_MEM
  // blocks are never reused: freed memory stays poisoned
  size_t w = (n + 255) & ~15ull;
  if ((size_t)(kArena + kArenaSize - arena_top) < w) { counters["arena_exhausted"]++; return nullptr; }
  void* fresh = arena_top; arena_top += w;
  return fresh;
#endif
  size_t z; int c = ArenaClass(n, &z);
  if (arena_free[c]) { void* r = arena_free[c]; arena_free[c] = *(void**)r; return r; }
  if ((size_t)(kArena + kArenaSize - arena_top) < z) return nullptr;
  void* r = arena_top; arena_top += z;
  return r;
}
void ArenaFree(void* p, size_t n) {
#ifdef SIM_MEM
  return;
#endif
  // the header stays readable as freed; the link lives in its first word (size)
  size_t z; int c = ArenaClass(n, &z);
  *(void**)p = arena_free[c]; arena_free[c] = p;
}
void* Alloc(size_t n, bool nothrow) {
  if (cur && !cur->in_sim) {
    Node* nd = cur;
    nd->nalloc++;
    activity++;
    for (auto& f : S.faults)
      if (f.kind == "allocfail" && f.node == nd->id && f.at == nd->nalloc) {
        counters["fault_allocfail"]++;
        NoteFault();
        if (nothrow) return nullptr;
        throw std::bad_alloc();
      }
    if (n > (1ull << 31)) { if (nothrow) return nullptr; throw std::bad_alloc(); }
  }
#ifdef SIM_MEM
  Guard guard_;
  bool mine = cur && cur->in_sim == 1;
#else
  bool mine = cur && !cur->in_sim;
#endif
  char* p = mine ? (char*)ArenaAlloc(n + sizeof(Hdr) + 16) : (char*)malloc(n + sizeof(Hdr) + 16);
  if (!p) { if (nothrow) return nullptr; throw std::bad_alloc(); }
  Hdr h{n, kMagic}; memcpy(p, &h, sizeof h);
  if (n <= (4u << 20)) memset(p + sizeof(Hdr), mem_fill ? 0x35 : 0xCB, n);
  uint64_t t[2] = {kMagic ^ n, kMagic}; memcpy(p + sizeof(Hdr) + n, t, 16);
#ifdef SIM_MEM
  if (mine) {
    MemPoison(p, (n + sizeof(Hdr) + 16 + 255) & ~15ull, 0xfa);
    MemUnpoison(p + sizeof(Hdr), n);
  }
#endif
  return p + sizeof(Hdr);
}
void Dealloc(void* q) {
  if (!q) return;
#ifdef SIM_MEM
  Guard guard_;
#endif
  char* p = (char*)q - sizeof(Hdr);
  Hdr h; memcpy(&h, p, sizeof h);
  bool bad = h.magic != kMagic;
  if (!bad) { uint64_t t[2]; memcpy(t, p + sizeof(Hdr) + h.n, 16); bad = t[0] != (kMagic ^ h.n) || t[1] != kMagic; }
  if (bad) {
    if (cur) { NodeDie(SIGABRT, "heap corruption detected (write outside an allocation, or double free)"); }
    return;
  }
  h.magic = kFreed; memcpy(p, &h, sizeof h);
#ifdef SIM_MEM
  if (InArena(p)) {
    memset(q, mem_fill ? 0x22 : 0xDD, h.n);
    MemPoison(p, (h.n + sizeof(Hdr) + 16) & ~7ull, 0xfd);
  }
#else
  if (h.n <= 65536) memset(q, 0xDD, h.n);
#endif
  if (InArena(p)) ArenaFree(p, h.n + sizeof(Hdr) + 16); else free(p);
}
}  // namespace
#ifdef SIM_MEM
bool sim::MemBeyondArena(uintptr_t a) { return a >= (uintptr_t)arena_top && a < (uintptr_t)kArena + kArenaSize && arena_top; }
#endif
void* operator new(size_t n) { return Alloc(n, false); }
void* operator new[](size_t n) { return Alloc(n, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return Alloc(n, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return Alloc(n, true); }
void operator delete(void* p) noexcept { Dealloc(p); }
void operator delete[](void* p) noexcept { Dealloc(p); }
void operator delete(void* p, size_t) noexcept { Dealloc(p); }
void operator delete[](void* p, size_t) noexcept { Dealloc(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { Dealloc(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { Dealloc(p); }

// ---------- standard streams, one per node ----------
namespace {
struct NodeBuf : std::streambuf {
  std::streambuf* real = nullptr;
  int overflow(int c) override {
  Guard guard_;
    if (c == EOF) return 0;
    if (cur) { if (cur->out.size() < 65536) cur->out.push_back((char)c); return c; }
    return real->sputc((char)c);
  }
  std::streamsize xsputn(const char* s, std::streamsize n) override {
  Guard guard_;
    if (cur) { if (cur->out.size() < 65536) cur->out.append(s, n); return n; }
    return real->sputn(s, n);
  }
  int sync() override { return cur ? 0 : real->pubsync(); }
};
NodeBuf coutbuf, cerrbuf, clogbuf;
}  // namespace
// The same for C stdio.
static bool NodeStream(FILE* f) { return SimOn() && (f == stdout || f == stderr); }
static void NodeOut(const char* s, size_t n) {
  Guard guard_;
  if (cur->out.size() < 65536) cur->out.append(s, n);
}
template <class F> static F RealFn(const char* name) { return (F)dlsym(RTLD_NEXT, name); }
static int NodeFormat(const char* fmt, va_list ap) {
  Guard guard_;
  char b[4096];
  int n = vsnprintf(b, sizeof b, fmt, ap);
  if (n > 0) NodeOut(b, std::min<size_t>(n, sizeof b - 1));
  return n;
}
extern "C" {
int vfprintf(FILE* f, const char* fmt, va_list ap) {
  if (NodeStream(f)) return NodeFormat(fmt, ap);
  static auto real = RealFn<int (*)(FILE*, const char*, va_list)>("vfprintf");
  return real(f, fmt, ap);
}
int vprintf(const char* fmt, va_list ap) { return vfprintf(stdout, fmt, ap); }
int printf(const char* fmt, ...) { va_list ap; va_start(ap, fmt); int r = vfprintf(stdout, fmt, ap); va_end(ap); return r; }
int fprintf(FILE* f, const char* fmt, ...) { va_list ap; va_start(ap, fmt); int r = vfprintf(f, fmt, ap); va_end(ap); return r; }
int fputs(const char* t, FILE* f) {
  if (NodeStream(f)) { NodeOut(t, strlen(t)); return 1; }
  static auto real = RealFn<int (*)(const char*, FILE*)>("fputs");
  return real(t, f);
}
int puts(const char* t) {
  if (SimOn()) { NodeOut(t, strlen(t)); NodeOut("\n", 1); return 1; }
  static auto real = RealFn<int (*)(const char*)>("puts");
  return real(t);
}
int fputc(int c, FILE* f) {
  if (NodeStream(f)) { char b = c; NodeOut(&b, 1); return (unsigned char)c; }
  static auto real = RealFn<int (*)(int, FILE*)>("fputc");
  return real(c, f);
}
int putc(int c, FILE* f) { return fputc(c, f); }
int putchar(int c) { return fputc(c, stdout); }
size_t fwrite(const void* d, size_t u, size_t n, FILE* f) {
  if (NodeStream(f)) { NodeOut((const char*)d, u * n); return n; }
  static auto real = RealFn<size_t (*)(const void*, size_t, size_t, FILE*)>("fwrite");
  return real(d, u, n, f);
}
}
namespace sim {
void RouteStreams() {
  coutbuf.real = std::cout.rdbuf(); std::cout.rdbuf(&coutbuf);
  cerrbuf.real = std::cerr.rdbuf(); std::cerr.rdbuf(&cerrbuf);
  clogbuf.real = std::clog.rdbuf(); std::clog.rdbuf(&clogbuf);
}
uint64_t disk_ops = 0;
std::vector<DiskEv> disk_log;
}  // namespace sim

// ---------- files, and the remaining descriptor calls ----------
// Fault "disk": the at-th file operation (open, read, write, close) of a node
// fails with errno arg, or is short (arg -1: half, -2: one byte), or the node
// is killed there (arg -3).
static int DiskFault(const char* op) {
  Guard guard_;
  Node* n = cur;
  sim::disk_ops++;
  sim::activity++;
  HashAdd(0xD15C + op[0]);
  for (auto& f : S.faults)
    if (f.kind == "disk" && f.node == n->id && f.at == sim::disk_ops) {
      counters[std::string("fault_disk_") + op + (f.arg == -3 ? "_kill" : f.arg < 0 ? "_short" : "_error")]++;
      if (f.arg == -3) NodeDie(SIGKILL, "killed by fault at a file operation");
      return f.arg;
    }
  return 0;
}
static size_t Shorten(int f, size_t n) { return f == -1 ? (n > 1 ? n / 2 : n) : f == -2 ? std::min<size_t>(n, 1) : n; }
extern "C" {
ssize_t read(int fd, void* b, size_t n) {
  Guard guard_;
  if (IsSim(fd)) return SimRecv(fd, (char*)b, n, 0);
  if (SimOn() && fd > 2) {
    int f = DiskFault("read");
    if (f > 0) { errno = f; return -1; }
    n = Shorten(f, n);
  }
  ssize_t r = syscall(SYS_read, fd, b, n);
  if (SimOn() && r > 0) MEMCHECK(b, r, "file read into");
  if (SimOn() && fd > 2) sim::disk_log.push_back({"read", (long)r});
  return r;
}
ssize_t write(int fd, const void* b, size_t n) {
  Guard guard_;
  if (IsSim(fd)) return SimSend(fd, (const char*)b, n, 0);
  if (SimOn() && fd <= 2) { cur->out.append((const char*)b, n); return n; }
  if (SimOn()) {
    int f = DiskFault("write");
    if (f > 0) { errno = f; return -1; }
    n = Shorten(f, n);
  }
  if (SimOn()) MEMCHECK(b, n, "file written from");
  ssize_t r = syscall(SYS_write, fd, b, n);
  if (SimOn()) sim::disk_log.push_back({"write", (long)r});
  return r;
}
ssize_t readv(int fd, const struct iovec* v, int c) {
  if (!SimOn()) return syscall(SYS_readv, fd, v, c);
  ssize_t t = 0;
  for (int i = 0; i < c; i++) {
    if (!v[i].iov_len) continue;
    ssize_t r = read(fd, v[i].iov_base, v[i].iov_len);
    if (r < 0) return t ? t : r;
    t += r;
    if ((size_t)r < v[i].iov_len) break;
  }
  return t;
}
ssize_t writev(int fd, const struct iovec* v, int c) {
  Guard guard_;
  if (!SimOn()) return syscall(SYS_writev, fd, v, c);
  std::string all;
  for (int i = 0; i < c; i++) all.append((char*)v[i].iov_base, v[i].iov_len);
  return write(fd, all.data(), all.size());
}
int fcntl(int fd, int cmd, ...) {
  va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
  if (!IsSim(fd)) return syscall(SYS_fcntl, fd, cmd, arg);
  Sock* s = GetSock(fd);
  if (!s) { errno = EBADF; return -1; }
  if (cmd == F_GETFL) return O_RDWR | (s->nonblock ? O_NONBLOCK : 0);
  if (cmd == F_SETFL) { s->nonblock = arg & O_NONBLOCK; return 0; }
  return 0;
}
int fcntl64(int fd, int cmd, ...) {
  va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
  return fcntl(fd, cmd, arg);
}
static FILE* OpenFile(const char* path, const char* mode, const char* sym) {
  Guard guard_;
  typedef FILE* (*fn)(const char*, const char*);
  fn real = (fn)dlsym(RTLD_NEXT, sym);
  if (SimOn()) {
    int f = DiskFault("open");
    if (f > 0) { errno = f; return nullptr; }
  }
  FILE* r = real(path, mode);
  if (SimOn()) sim::disk_log.push_back({"open", r ? 0 : -1});
  return r;
}
FILE* fopen(const char* p, const char* m) { return OpenFile(p, m, "fopen"); }
FILE* fopen64(const char* p, const char* m) { return OpenFile(p, m, "fopen64"); }
int fclose(FILE* f) {
  typedef int (*fn)(FILE*);
  static fn real = (fn)dlsym(RTLD_NEXT, "fclose");
  int e = SimOn() ? DiskFault("close") : 0;
  int r = real(f);
  if (e > 0) { errno = e; return EOF; }
  return r;
}
void _exit(int c) {
  if (SimOn()) NodeExit(c & 0xff);
  syscall(SYS_exit_group, c);
  __builtin_unreachable();
}
void _Exit(int c) { _exit(c); }
void quick_exit(int c) { _exit(c); }
int raise(int s) {
  if (SimOn()) NodeDie(s, "raise()");
  return syscall(SYS_tgkill, getpid(), (int)syscall(SYS_gettid), s);
}
}  // extern "C"

// std::random_device reads the CPU or the kernel: give it the node's stream.
extern "C" unsigned sim_random_device_getval(void*) asm("_ZNSt13random_device9_M_getvalEv");
extern "C" unsigned sim_random_device_getval(void*) { return RRandom(); }
