// Deterministic simulator for multiparty/DP-PIR: core declarations.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <stdlib.h>
#include <poll.h>
#include <stdio.h>
#include <array>
#include <deque>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

namespace sim {

// ---------- PRNG (xoshiro256**, seeded by splitmix64) ----------
struct Rng {
  uint64_t s[4];
  explicit Rng(uint64_t seed = 1) { Seed(seed); }
  static uint64_t Mix(uint64_t& x) {
    uint64_t z = (x += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  void Seed(uint64_t seed) { for (auto& v : s) v = Mix(seed); }
  uint64_t Next() {
    auto rotl = [](uint64_t x, int k) { return (x << k) | (x >> (64 - k)); };
    uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
    s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
    return r;
  }
  uint64_t Below(uint64_t n) { return n <= 1 ? 0 : (unsigned __int128)Next() * n >> 64; }
  uint64_t Range(uint64_t lo, uint64_t hi) { return lo + Below(hi - lo + 1); }
  double Unit() { return (Next() >> 11) * (1.0 / 9007199254740992.0); }
  bool Chance(double p) { return Unit() < p; }
};
inline uint64_t Hash2(uint64_t a, uint64_t b) {
  uint64_t x = a * 0x9e3779b97f4a7c15ull ^ (b + 0x7f4a7c15ull + (a << 6) + (a >> 2));
  return Rng::Mix(x);
}

// ---------- Scenario: every parameter of one run, explicit ----------
struct Fault {
  std::string kind;  // crash, sysfail, allocfail, reset, restart
  int node = 0;      // node index (or connection ordinal for reset)
  uint64_t at = 0;   // n-th system call / allocation of that node, or global step
  int arg = 0;       // errno, restart delay ...
};
struct Scenario {
  std::string mode = "system";  // system | sockets | config
  std::string variant = "real";
  uint64_t seed = 1;      // values: keys, shares, masks, key pairs
  uint64_t sched = 1;     // schedule, segmentation, delays
  std::string check;      // oracles to apply, comma separated
  int parties = 2, servers = 1;
  uint32_t db = 10;
  std::string eps = "0", delta = "0";
  std::string stage = "all";
  std::vector<uint32_t> queries{1};
  int hosts = 0;        // 0: one host, 1: one host per process, 2: mixed
  int crypto = 0;       // 0: real libsodium boxes, 1: fast stand-in
  int edge = 0;         // percent of random draws biased to boundary values
  int seedsalt = 0;     // 0: srand seeds used as is
  int fixedkey = -1;    // >=0: every client query asks for this key
  int keymode = 0;      // 0 random 1 boundary keys
  int strat = 0;        // scheduling strategy
  int chunk = 0;        // delivery segmentation mode
  int shortw = 0;       // percent of short sends
  int connfail = 0;     // percent of spurious connect failures (bounded)
  uint32_t rbuf = 1 << 20, sbuf = 1 << 20;
  int fair = 400;
  int slow = 0;         // bitmask-like seed for slow entities
  int nstart = 0;       // 0: all at once, otherwise seed for start delays
  int skew = 0;         // clock skew/jumps
  uint64_t maxsteps = 20000000;
  std::vector<Fault> faults;
  std::map<std::string, std::string> extra;  // mode specific
  std::string Text() const;
  static Scenario Parse(const std::string& text);
  int X(const std::string& k, int d = 0) const {
    auto it = extra.find(k);
    return it == extra.end() ? d : atoi(it->second.c_str());
  }
};

// ---------- Network ----------
struct Dir {
  std::string log;           // every byte accepted by send() up to a reset
  size_t accepted = 0;       // number of bytes ever accepted by send()
  size_t delivered = 0;      // prefix moved to the receiver's buffer
  size_t consumed = 0;       // prefix read by the receiver
  bool fin = false, fin_seen = false;
  bool rst_pending = false, rst = false;
  uint64_t hold_until = 0, hold_clock = 0;   // nothing is delivered before this step while anything else can happen
  int err = 0;               // pending socket error for the receiver end
  std::vector<std::pair<size_t, uint64_t>> sent;  // (end offset, step)
  std::vector<std::pair<size_t, uint64_t>> read;  // (end offset, step)
  size_t InFlight() const { return log.size() - delivered; }
  size_t Queued() const { return delivered - consumed; }
};
struct Conn {
  int id;
  int node[2];     // 0: connector, 1: acceptor (owner of the listener)
  int incarnation[2];
  int port;
  bool accepted = false;
  bool closed[2] = {false, false};
  Dir d[2];        // d[i]: sent by end i
};
struct Listener {
  int node, host, port, backlog, via = 0;
  bool open = true;
  std::deque<int> pending;
};
struct Sock {
  enum T { FRESH, LISTEN, CONN, CLOSED } t = FRESH;
  int listener = -1, conn = -1, side = 0, bound_port = 0, via = 0;  // via: address bound to, 0: any 1: loopback 2: the host's own
  bool nonblock = false, reuse = false;
};

enum Wait { W_NONE, W_READ, W_SEND, W_ACCEPT, W_POLL, W_SLEEP, W_CONNECT };

struct Image { void* h = nullptr; int (*main_fn)(int, char**) = nullptr; int (*gen_fn)(int, char**) = nullptr; int (*harness_fn)(int, char**) = nullptr; };

extern std::vector<Image> image_pool;
extern size_t image_next;

struct Answer { uint32_t idx, key; std::array<unsigned char, 64> rec; size_t n; };
struct Draw { uint32_t bound, value; };

struct Node {
  enum St { NOTSTARTED, READY, WAITING, EXITED, DEAD } st = NOTSTARTED;
  int id = 0;
  std::string name;
  int role = 0;  // 0 client 1 party 2 backend 3 other
  int party = -1, server = -1;
  int host = 0;
  int incarnation = 0;
  Image* img = nullptr;
  int entry = 0;  // 0 main, 1 gen, 2 harness
  std::vector<std::string> argv;
  std::string out;
  int code = -1, sig = 0;
  std::string death;
  uint64_t start_at = 0;
  // fiber
  void* sp = nullptr;
  char* stack = nullptr;
  // waiting
  Wait wait = W_NONE;
  int wconn = -1, wside = 0, wlist = -1;
  ::pollfd* wp = nullptr; size_t wn = 0; bool wtimed = false;
  uint64_t wake = 0;
  uint64_t stall_until = 0, stall_clock = 0;  // not scheduled before this step while anything else can happen
  std::vector<Sock> socks;
  // libc rand
  ::random_data* rd = nullptr; char* rstate = nullptr;
  Rng rng;
  uint64_t nsys = 0, nalloc = 0, nconn = 0;  // nconn: the first transfer is this node's nconn-th call
  uint64_t end_step = 0;
  int connfails = 0;
  std::vector<Draw> draws;   // client draws bounded by db size (key draws)
  std::vector<uint32_t> pool;
  std::vector<std::pair<uint32_t, uint64_t>> lookups;  // (key, step)
  std::vector<Answer> answers;
  int64_t skew = 0;
  int in_sim = 0;  // > 0 while inside the simulator on behalf of this node
};

struct SealEv { int node; uint64_t step, t0 = 0, t1 = 0; std::array<unsigned char, 32> pk; std::string plain; };
struct OpenEv { int node; uint64_t step, t0 = 0, t1 = 0; std::array<unsigned char, 32> pk; std::string plain; std::string cipherhead; };

struct Outcome {
  std::string violation;   // empty: none
  std::string detail;
};

extern Scenario S;
extern std::vector<std::unique_ptr<Node>> nodes;
extern std::vector<std::unique_ptr<Conn>> conns;
extern std::vector<std::unique_ptr<Listener>> listeners;
extern std::vector<SealEv> seals;
extern std::vector<OpenEv> opens;
extern Node* cur;
extern uint64_t step_no, vclock_us, hashv;
extern std::vector<uint64_t> clock_at;  // step -> time
extern bool deadlocked, livelocked, stepcapped;
extern bool mesh_up_at_fault;     // every connection was established when the first crash or reset struck
extern uint64_t fault_step;
bool MeshUp();
extern uint64_t progress_step;
extern std::map<std::string, uint64_t> counters;
extern std::vector<uint32_t> choice_log;
extern bool record_crypto;

void HashAdd(uint64_t v);
// Logged choice; `pick` is the value the strategy wants, 0 the benign one.
uint32_t Choose(uint32_t pick);
void SetReplayChoices(const std::vector<uint32_t>& c);
extern Rng sched_rng;

void InitEngine();
int AddNode(const std::string& name, int role, int party, int server, int host, int entry,
            const std::vector<std::string>& argv);
void RunAll();          // until every started node terminated, deadlock or livelock
bool AllEnded();
std::string DescribeNodes();
const char* WaitName(Wait w);

struct Guard { Node* n; Guard() : n(cur) { if (n) n->in_sim++; } ~Guard() { if (n) n->in_sim--; } };
// called from interposed functions (in fiber context)
void YieldPoint(const char* kind);
[[noreturn]] void NodeDie(int sig, const std::string& why);
[[noreturn]] void NodeExit(int code);
extern volatile uint64_t activity;
extern uint64_t* state_bitmap;
void InstallRandom();
void RouteStreams();

// ---------- memory checking (mem.cc; only in the simulator built for C23) ----------
#ifdef SIM_MEM
void MemInit();
void MemPoison(const void* a, size_t n, int v);
void MemUnpoison(const void* a, size_t n);
void MemCheck(const void* a, size_t n, const char* what, void* pc);
bool MemBeyondArena(uintptr_t a);
extern std::string mem_error, mem_detail;
#define MEMCHECK(a, n, what) ::sim::MemCheck(a, n, what, __builtin_return_address(0))
#else
#define MEMCHECK(a, n, what) do {} while (0)
#endif
extern int mem_fill;   // pattern of fresh memory: 0, or 1 in the twin of a run

// disk faults (config mode): n-th file operation of the running node
extern uint64_t disk_ops;
struct DiskEv { std::string op; long n; };
extern std::vector<DiskEv> disk_log;

}  // namespace sim
