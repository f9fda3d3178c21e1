// Worker: runs scenarios, one forked child per simulated run.
#include "core.h"
#include "oracle.h"
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <sodium.h>
#include <stdio.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <algorithm>
#include <fstream>
#include <iostream>
#include <sstream>

using namespace sim;

static std::map<std::string, std::vector<Image>> pools;   // variant -> images
static std::map<std::string, std::string> variant_path;
static std::string scratch;
static uint64_t* bitmap;

static bool LoadPool(const std::string& v, int n) {
  auto& pool = pools[v];
  std::ifstream f(variant_path[v], std::ios::binary);
  std::string data((std::istreambuf_iterator<char>(f)), {});
  while ((int)pool.size() < n) {
    int fd = memfd_create("node", 0);
    for (size_t o = 0; o < data.size();) { ssize_t w = write(fd, data.data() + o, data.size() - o); if (w <= 0) return false; o += w; }
    // The loader tells libraries apart by name first: give every copy a name of its own.
    static int serial = 0;
    std::string path = "/proc/self/fd/";
    for (int b = ++serial; b; b >>= 1) path += (b & 1) ? "./" : "../fd/";
    path += std::to_string(fd);
    Image im;
    im.h = dlopen(path.c_str(), RTLD_NOW | RTLD_LOCAL);
    if (!im.h) { fprintf(stderr, "dlopen: %s\n", dlerror()); return false; }
    close(fd);
    im.main_fn = (int (*)(int, char**))dlsym(im.h, "dppir_main");
    im.gen_fn = (int (*)(int, char**))dlsym(im.h, "dppir_gen_main");
    im.harness_fn = (int (*)(int, char**))dlsym(im.h, "dppir_harness_main");
    static std::set<void*> distinct;
    if (!distinct.insert((void*)im.main_fn).second) { fprintf(stderr, "node image is not a copy of its own\n"); return false; }
    if (!im.main_fn || !im.gen_fn) { fprintf(stderr, "node image lacks entry points\n"); return false; }
    pool.push_back(im);
  }
  return true;
}

static std::string JStr(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o + "\"";
}
static std::string Slurp(const std::string& p, bool* ok = nullptr) {
  FILE* f = fopen(p.c_str(), "rb");
  if (ok) *ok = f != nullptr;
  if (!f) return "";
  std::string r; char b[4096]; size_t n;
  while ((n = fread(b, 1, sizeof b, f)) > 0) r.append(b, n);
  fclose(f);
  return r;
}
static void Spit(const std::string& p, const std::string& d) {
  FILE* f = fopen(p.c_str(), "wb"); fwrite(d.data(), 1, d.size(), f); fclose(f);
}

static int HostFor(int p, int s) {
  if (S.hosts == 0) return 0;
  int idx = p * S.servers + s;
  if (S.hosts == 1) return 1 + idx;
  if (S.hosts == 3) return 1 + s;            // one machine per server number
  if (S.hosts == 4) return 1 + p;            // one machine per party
  return 1 + (int)(Hash2(S.hosts, idx) % 3);  // mixed
}
static std::string IpOf(int h) { char b[32]; snprintf(b, 32, "10.%d.%d.%d", (h >> 16) & 255, (h >> 8) & 255, h & 255); return b; }
// What someone answering the generator's questions types. `inbad` = k: answer k (1..5) is no number
// (k < 10) or the input ends before it (k >= 10); 20: the input ends where the addresses would follow.
static std::string TypedAnswers() {
  Rng r(Hash2(S.seed, 0x7E1));
  int bad = S.X("inbad");
  std::vector<std::string> w{std::to_string(S.db), S.eps, S.delta, std::to_string(S.parties), std::to_string(S.servers)};
  static const char* junk[] = {"x", "two", "-", "#", "nine", ","};
  std::string t;
  for (int k = 0; k < 5; k++) {
    if (bad == 11 + k) return t;
    static const char* sep[] = {"\n", " ", "  ", "\n\n", "\t", " \n"};
    t += bad == 1 + k ? junk[r.Below(6)] : w[k];
    t += k == 4 ? "\n" : sep[r.Below(3) ? 0 : r.Below(6)];
  }
  if (bad == 20) return t;
  for (int p = 0; p < S.parties; p++) for (int s = 0; s < S.servers; s++) t += (S.hosts ? IpOf(HostFor(p, s)) : "") + "\n";
  if (S.hosts && r.Below(4) == 0) t.pop_back();
  return t;
}
static std::vector<std::string> GenArgs(const std::string& path) {
  if (S.X("inter")) return {"gen_config", path};
  std::vector<std::string> a{"gen_config", path, std::to_string(S.db), S.eps, S.delta, std::to_string(S.parties), std::to_string(S.servers)};
  if (S.hosts) for (int p = 0; p < S.parties; p++) for (int s = 0; s < S.servers; s++) a.push_back(IpOf(HostFor(p, s)));
  if (S.hosts && S.X("badip")) {  // something that is no IPv4 address
    static const char* bad[] = {"localhost", "10.0.0", "256.1.1.1", "host.example", "10.0.0.1 ", "::1"};
    a[7 + S.X("badip") % (S.parties * S.servers)] = bad[S.X("badip") / 64 % 6];
  }
  return a;
}

// Reference reader of the configuration file format.
struct RefConf { bool ok = false; int db; double eps, delta; int parties, servers; std::vector<std::string> pk, sk, ip; std::vector<int> seed, lseed, port, pport; };
static RefConf RefParse(const std::string& d) {
  RefConf r; size_t o = 0; bool bad = false;
  auto I = [&] { int v = 0; if (o + 4 > d.size()) { bad = true; return 0; } memcpy(&v, d.data() + o, 4); o += 4; return v; };
  auto D = [&] { double v = 0; if (o + 8 > d.size()) { bad = true; return 0.0; } memcpy(&v, d.data() + o, 8); o += 8; return v; };
  r.db = I(); r.eps = D(); r.delta = D(); r.parties = I(); r.servers = I();
  if (bad || r.parties < 0 || r.parties > 300 || r.servers < 0 || r.servers > 300) return r;
  for (int i = 0; i < r.parties && !bad; i++) {
    r.seed.push_back(I());
    if (o + 64 > d.size()) return r;
    r.pk.push_back(d.substr(o, 32)); r.sk.push_back(d.substr(o + 32, 32)); o += 64;
    for (int j = 0; j < r.servers && !bad; j++) {
      r.lseed.push_back(I()); r.port.push_back(I()); r.pport.push_back(I());
      size_t e = d.find('\0', o);
      if (e == std::string::npos) return r;
      r.ip.push_back(d.substr(o, e - o)); o = e + 1;
    }
  }
  r.ok = !bad && o == d.size();
  return r;
}
// Is this file exactly the requested configuration?
static std::string Unfaithful(const std::string& d) {
  RefConf r = RefParse(d);
  if (!r.ok) return "file is not a complete configuration (" + std::to_string(d.size()) + " bytes)";
  if (r.db != (int)S.db) return "db size " + std::to_string(r.db);
  if (r.eps != strtod(S.eps.c_str(), nullptr) || r.delta != strtod(S.delta.c_str(), nullptr)) return "epsilon or delta differ";
  if (r.parties != S.parties || r.servers != S.servers) return "party or server count differ";
  std::set<int> ports; std::set<std::pair<std::string, int>> addr;
  for (int p = 0; p < S.parties; p++) {
    unsigned char q[32];
    crypto_scalarmult_base(q, (const unsigned char*)r.sk[p].data());
    if (memcmp(q, r.pk[p].data(), 32) != 0) return "keys of party " + std::to_string(p) + " do not match";
    for (int k = 0; k < p; k++) if (r.pk[k] == r.pk[p]) return "two parties share a key";
    for (int s = 0; s < S.servers; s++) {
      size_t i = p * S.servers + s;
      std::string want = S.hosts ? IpOf(HostFor(p, s)) : "127.0.0.1";
      if (r.ip[i] != want) return "ip of party " + std::to_string(p) + " server " + std::to_string(s) + " is " + r.ip[i] + " instead of " + want;
      if (!addr.insert({r.ip[i], r.port[i]}).second || !addr.insert({r.ip[i], r.pport[i]}).second) return "two listeners share an address";
    }
  }
  return "";
}

static void AddSystemNodes(const std::string& conf) {
  for (int s = 0; s < S.servers; s++) {
    int h = S.hosts ? 1000 + s : 0;
    AddNode("client" + std::to_string(s), 0, -1, s, h, 0,
            {"main", "--role=client", "--stage=" + S.stage, "--config=" + conf, "--server_id=" + std::to_string(s),
             "--queries=" + std::to_string(S.queries[s] + (S.X("qbig") == s + 1 ? (1LL << 32) : 0))});
  }
  for (int p = 0; p < S.parties; p++)
    for (int s = 0; s < S.servers; s++)
      AddNode("party" + std::to_string(p) + "." + std::to_string(s), p == S.parties - 1 ? 2 : 1, p, s, HostFor(p, s), 0,
              {"main", "--role=party", "--stage=" + S.stage, "--config=" + conf, "--server_id=" + std::to_string(s), "--party_id=" + std::to_string(p)});
}

static void RunSystem() {
  std::string conf = scratch + "/conf";
  AddNode("gen", 3, -1, -1, 5000, 1, GenArgs(conf));
  auto saved = S.faults; S.faults.clear();
  int ns = S.nstart; S.nstart = 0;
  bool rc = record_crypto; record_crypto = false;
  RunAll();
  record_crypto = rc;
  S.nstart = ns; S.faults = saved;
  if (nodes[0]->st != Node::EXITED || nodes[0]->code != 0) {
    Violate((S.check.empty() ? "X" : S.check.substr(0, 3)) + ":config-generation", "gen_config failed: " + DescribeNodes());
    return;
  }
  std::string d = Slurp(conf);
  RefConf r = RefParse(d);
  if (r.ok && r.parties == S.parties) { std::string pks; for (auto& k : r.pk) pks += k; report["_pks"] = pks; }
  AddSystemNodes(conf);
  seals.clear(); opens.clear();
  RunAll();
  bool fault_free = true;
  for (auto& f : S.faults) if (f.kind != "restart" && f.kind != "stall" && f.kind != "hold") fault_free = false;
  if (Has("C08") && !fault_free && fault_step && mesh_up_at_fault) {
    report["mesh"] = "true";
    if (deadlocked) Violate("C08:hang", "after a fault at step " + std::to_string(fault_step) + ": " + DescribeNodes());
    else if (livelocked || stepcapped) Violate("C08:spin", "after a fault at step " + std::to_string(fault_step) + ": " + DescribeNodes());
    else for (auto& n : nodes) if (n->st == Node::DEAD && n->sig == 24) Violate("C08:spin", n->name + ": " + n->death);
  }
  if (S.X("noracle")) return;
  RunOracles(fault_free);
}

// ---------- configuration files under disk faults ----------
static void RunConfig() {
  std::string conf = scratch + "/conf";
  unlink(conf.c_str());
  std::string action = S.extra.count("action") ? S.extra["action"] : "gen";
  struct rlimit old{};
  if (S.extra.count("old")) Spit(conf, std::string(S.X("old"), 'x'));
  AddNode("gen", 3, -1, -1, 5000, 1, GenArgs(conf));
  if (S.X("inter")) {
    std::string in = scratch + "/typed";
    Spit(in, TypedAnswers());
    if (!freopen(in.c_str(), "r", stdin)) _exit(3);
    std::cin.clear();
    counters["typed_answers"]++;
    if (S.X("inbad")) counters[S.X("inbad") < 10 ? "fault_not_a_number" : "fault_input_ends"]++;
  }
  if (S.extra.count("quota")) {
    getrlimit(RLIMIT_FSIZE, &old);
    struct rlimit q = old; q.rlim_cur = S.X("quota");
    signal(SIGXFSZ, SIG_IGN);
    setrlimit(RLIMIT_FSIZE, &q);
    counters["fault_disk_full"]++;
  }
  auto all = S.faults;
  S.faults.clear();
  for (auto& f : all) if (f.node == 0) S.faults.push_back(f);
  RunAll();
  if (S.extra.count("quota")) setrlimit(RLIMIT_FSIZE, &old);
  bool exists; std::string d = Slurp(conf, &exists);
  std::string why = Unfaithful(d);
  Node* g = nodes[0].get();
  // what the file format cannot hold, or was never said, has to be refused
  bool genfault = !S.faults.empty() || S.extra.count("quota") || S.X("inbad") || S.parties > 255 || S.servers > 255;
  if (S.parties > 255 || S.servers > 255) counters["fault_count_out_of_range"]++;
  report["genops"] = std::to_string(disk_ops);
  report["size"] = std::to_string(d.size());
  report["genok"] = (g->st == Node::EXITED && g->code == 0) ? "true" : "false";
  if (deadlocked || livelocked) { Violate("C14:generator-hangs", DescribeNodes()); return; }
  if (g->st == Node::EXITED && g->code == 0 && S.X("inbad") && S.X("inbad") != 20) {
    Violate("C14:unfaithful-success", "the generator reports success without having been given all parameters (typed: " + TypedAnswers() + ")" + (exists ? "" : " and wrote no file"));
    return;
  }
  if (g->st == Node::EXITED && g->code == 0 && (!exists || !why.empty())) {
    Violate("C14:unfaithful-success", "the generator reports success but " + (exists ? why : std::string("wrote no file")));
    return;
  }
  if (!genfault && !(g->st == Node::EXITED && g->code == 0)) { Violate("C14:generator-fails", "without any fault: " + DescribeNodes()); return; }
  // what a process makes of the file
  bool missing = !exists;
  if (S.extra.count("cut")) { size_t k = (size_t)S.X("cut"); if (k < d.size()) { d.resize(k); Spit(conf, d); counters["fault_truncated_file"]++; } }
  if (S.extra.count("add")) {
    Rng r(Hash2(S.seed, 0xADD)); int k = S.X("add");
    for (int i = 0; i < k; i++) d.push_back(S.X("addzero") ? 0 : (char)r.Next());
    Spit(conf, d); counters["fault_overlong_file"]++;
  }
  if (S.X("rm")) { unlink(conf.c_str()); missing = true; d.clear(); counters["fault_missing_file"]++; }
  why = missing ? "missing" : Unfaithful(d);
  int role = S.X("role");  // 0 client, 1 party, 2 backend
  std::vector<std::string> av{"main", "--stage=" + S.stage, "--config=" + conf, "--server_id=0"};
  if (role == 0) { av.push_back("--role=client"); av.push_back("--queries=1"); }
  else { av.push_back("--role=party"); av.push_back("--party_id=" + std::to_string(role == 1 ? 0 : S.parties - 1)); }
  S.faults.clear();
  for (auto& f : all) if (f.node == 1) S.faults.push_back(f);
  bool readfault = !S.faults.empty();
  disk_ops = 0;
  int id = AddNode("reader", role == 0 ? 0 : role, 0, 0, 1, 0, av);
  S.maxsteps = step_no + 3000;
  RunAll();
  Node* n = nodes[id].get();
  for (unsigned char c : d) HashAdd(c);
  for (auto& k : nodes) HashAdd(k->st * 1000 + k->code * 10 + k->sig);
  report["readops"] = std::to_string(disk_ops);
  bool contacted = !n->socks.empty() || !listeners.empty() || !conns.empty();
  report["contacted"] = contacted ? "true" : "false";
  if (!why.empty()) {
    if (contacted) { Violate("C14:bad-file-accepted", n->name + " goes on to the network with a bad file (" + why + ")"); return; }
    if (n->st == Node::EXITED && n->code == 0) { Violate("C14:bad-file-success", n->name + " ends successfully with a bad file (" + why + ")"); return; }
    if (n->st != Node::EXITED && n->st != Node::DEAD) { Violate("C14:bad-file-hang", n->name + " hangs on a bad file (" + why + ") " + DescribeNodes()); return; }
    if (n->st == Node::DEAD && n->sig == 24) { Violate("C14:bad-file-hang", n->name + " spins on a bad file (" + why + ")"); return; }
  } else {
    if (readfault) {
      // With the file itself good, a read error may be reported or may not have mattered; made-up
      // parameters would show as a listener on (or a connection attempt to) the wrong port or host.
      RefConf r = RefParse(d);
      bool okport = true;
      for (auto& l : listeners) { bool f = false; for (int p : r.port) f |= p == l->port; for (int p : r.pport) f |= p == l->port; okport &= f; }
      if (!okport) { Violate("C14:made-up-parameters", n->name + " listens on a port that is not in the configuration"); return; }
    } else if (!contacted && S.db <= (1u << 20)) { Violate("C14:good-file-rejected", n->name + " rejects a faithful file: " + DescribeNodes()); return; }
  }
}

// ---------- socket classes driven directly ----------
static void RunSockets() {
  int n = S.X("hn", 2);
  for (int i = 0; i < n; i++)
    AddNode("h" + std::to_string(i), 3, -1, i, 0, 2,
            {"harness", S.extra["hkind"], std::to_string(i), std::to_string(n), std::to_string(S.seed), std::to_string(S.X("layers", 1)), std::to_string(S.X("vol", 20))});
  RunAll();
  if (deadlocked) Violate("C04:deadlock", DescribeNodes());
  else if (livelocked || stepcapped) Violate("C04:livelock", DescribeNodes());
  else for (auto& nd : nodes) {
    if (nd->st == Node::DEAD) Violate("C04:abnormal-end", nd->name + " died: " + nd->death);
    else if (nd->code != 0) Violate("C04:message-corrupted", nd->name + ": " + nd->out.substr(nd->out.size() > 300 ? nd->out.size() - 300 : 0));
  }
}

#ifdef SIM_MEM
// ---------- memory: what the run recorded, and a digest of all it produced ----------
static uint64_t HashStr(const std::string& s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) h = (h ^ c) * 1099511628211ull; return h ^ s.size(); }
static void CheckMemory() {
  if (!mem_error.empty()) Violate("C23:" + mem_error, mem_detail);
  for (auto& n : nodes) {
    if (n->st != Node::DEAD || !mem_error.empty()) continue;
    if (n->sig == SIGILL || n->sig == SIGFPE) Violate("C23:undefined-operation", n->name + ": " + n->death);
    if (n->sig == SIGSEGV) Violate("C23:memory-fault", n->name + ": " + n->death);
    if (n->death.compare(0, 15, "heap corruption") == 0) Violate("C23:heap-corruption", n->name + ": " + n->death);
  }
  std::ostringstream d;
  for (auto& c : conns) for (int i = 0; i < 2; i++)
    d << "bytes from " << nodes[c->node[i]]->name << " to " << nodes[c->node[1 - i]]->name << "=" << std::hex << HashStr(c->d[i].log) << ";";
  for (auto& n : nodes) {
    std::string a;
    for (auto& x : n->answers) { a.append((char*)&x.idx, 4); a.append((char*)&x.key, 4); a.append((char*)x.rec.data(), 64); }
    for (auto& x : n->lookups) a.append((char*)&x.first, 4);
    d << "what " << n->name << " prints, answers or ends with=" << std::hex << HashStr(n->out + "|" + a + "|" + std::to_string(n->st * 1000 + n->code)) << ";";
  }
  struct stat sb;
  if (stat((scratch + "/conf").c_str(), &sb) == 0) d << "the configuration file=" << std::hex << HashStr(Slurp(scratch + "/conf")) << ";";
  report["data"] = JStr(d.str());
}
static std::string DataOf(const std::string& res) {
  size_t a = res.find("\"data\":\""); if (a == std::string::npos) return "";
  a += 8; return res.substr(a, res.find('"', a) - a);
}
static std::string FirstDifference(const std::string& a, const std::string& b) {
  std::istringstream x(a), y(b); std::string p, q;
  for (;;) {
    bool f = (bool)std::getline(x, p, ';'), g = (bool)std::getline(y, q, ';');
    if (!f && !g) return "";
    if (!f || !g || p != q) return (f ? p : q).substr(0, (f ? p : q).find('='));
  }
}
#endif

static void RunOne(const std::string& text, int outfd) {
  S = Scenario::Parse(text);
  bool want_choices = S.X("wantchoices");
  {
    size_t p = text.find("\nchoices ");
    if (p != std::string::npos) {
      std::vector<uint32_t> c;
      const char* q = text.c_str() + p + 9;
      while (*q && *q != '\n') { char* e; c.push_back(strtoul(q, &e, 10)); if (e == q) break; q = e; if (*q == ',') q++; }
      SetReplayChoices(c);
    }
  }
  state_bitmap = bitmap;
  record_crypto = Has("C02") || Has("C10") || Has("C11") || Has("C12") || Has("C13") || Has("C19") || Has("C20") || Has("C22");
  image_pool = pools[S.variant];
#ifdef SIM_MEM
  if (mem_fill && pools.count(S.variant + "z")) image_pool = pools[S.variant + "z"];
#endif
  InitEngine();
  RouteStreams();
#ifndef SIM_MEM
  struct rlimit rl{10ull << 30, 10ull << 30};
  setrlimit(RLIMIT_AS, &rl);
#endif
  if (S.mode == "system") RunSystem();
  else if (S.mode == "config") RunConfig();
  else if (S.mode == "sockets") RunSockets();
#ifdef SIM_MEM
  CheckMemory();
#endif
  std::ostringstream o;
  char hb[32]; snprintf(hb, 32, "%016llx", (unsigned long long)hashv);
  o << "{\"hash\":\"" << hb << "\",\"steps\":" << step_no << ",\"vtime_us\":" << vclock_us << ",\"nchoices\":" << choice_log.size();
  o << ",\"end\":\"" << (deadlocked ? "deadlock" : livelocked ? "livelock" : stepcapped ? "stepcap" : "ended") << "\"";
  o << ",\"violations\":[";
  for (size_t i = 0; i < violations.size(); i++) o << (i ? "," : "") << "{\"cls\":" << JStr(violations[i].cls) << ",\"msg\":" << JStr(violations[i].msg) << "}";
  o << "],\"counters\":{";
  bool f = true;
  for (auto& c : counters) { o << (f ? "" : ",") << JStr(c.first) << ":" << c.second; f = false; }
  o << "},\"nodes\":[";
  f = true;
  for (auto& n : nodes) {
    o << (f ? "" : ",") << "{\"n\":" << JStr(n->name) << ",\"code\":" << n->code << ",\"st\":" << (int)n->st << ",\"nsys\":" << n->nsys << ",\"nconn\":" << n->nconn << ",\"nalloc\":" << n->nalloc << ",\"ans\":" << n->answers.size();
    if (!n->death.empty()) o << ",\"death\":" << JStr(n->death);
    if (S.X("wantout")) o << ",\"out\":" << JStr(n->out);
    o << "}"; f = false;
  }
  uint64_t bytes = 0; for (auto& c : conns) bytes += c->d[0].log.size() + c->d[1].log.size();
  o << "],\"conns\":" << conns.size() << ",\"bytes\":" << bytes << ",\"fault_step\":" << fault_step << ",\"meshok\":" << (mesh_up_at_fault ? "true" : "false");
  for (auto& r : report) if (r.first[0] != '_') o << "," << JStr(r.first) << ":" << r.second;
  if (want_choices) {
    o << ",\"choices\":\"";
    size_t last = choice_log.size(); while (last && choice_log[last - 1] == 0) last--;
    for (size_t i = 0; i < last; i++) o << (i ? "," : "") << choice_log[i];
    o << "\"";
  }
  o << "}";
  std::string s = o.str();
  for (size_t k = 0; k < s.size();) { ssize_t w = write(outfd, s.data() + k, s.size() - k); if (w <= 0) break; k += w; }
}

// One simulated run in a child of its own.
static std::string RunChild(const std::string& text, const Scenario& sc, int fill) {
  int pfd[2];
    if (pipe(pfd)) _exit(3);
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
      close(pfd[0]);
      mem_fill = fill;
      RunOne(text, pfd[1]);
      syscall(SYS_exit_group, 0);
    }
    close(pfd[1]);
    int limit = sc.X("timeout", 60);
    std::string res; char buf[65536];
    struct timespec t0; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t0);
    bool timeout = false;
    for (;;) {
      struct timespec t1; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t1);
      long left = limit * 1000L - ((t1.tv_sec - t0.tv_sec) * 1000 + (t1.tv_nsec - t0.tv_nsec) / 1000000);
      if (left <= 0) { timeout = true; kill(pid, SIGKILL); break; }
      pollfd p{pfd[0], POLLIN, 0};
      if (poll(&p, 1, left) <= 0) continue;
      ssize_t r = read(pfd[0], buf, sizeof buf);
      if (r <= 0) break;
      res.append(buf, r);
    }
    close(pfd[0]);
    int st = 0; waitpid(pid, &st, 0);
    if (timeout) res = "{\"timeout\":true}";
    else if (res.empty() || res.back() != '}') { char b[100]; snprintf(b, 100, "{\"error\":\"run process ended with status %d\"}", st); res = b; }
    return res;
}

int main(int argc, char** argv) {
  // same addresses in every run
  if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE)) {
    personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE);
    execv("/proc/self/exe", argv);
  }
  setvbuf(stdout, nullptr, _IOLBF, 1 << 16);
  scratch = argv[1];
  mkdir(scratch.c_str(), 0700);
  for (int i = 2; i < argc; i++) {
    std::string a = argv[i];
    auto eq = a.find('=');
    variant_path[a.substr(0, eq)] = a.substr(eq + 1);
  }
  bitmap = (uint64_t*)mmap(nullptr, 1 << 21, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
#ifdef SIM_MEM
  MemInit();
#endif
  InstallRandom();
  if (sodium_init() < 0) return 3;
  std::string header;
  while (std::getline(std::cin, header)) {
    if (header == "STATES") {
      uint64_t n = 0; for (int i = 0; i < (1 << 18); i++) n += __builtin_popcountll(bitmap[i]);
      printf("{\"states\":%llu}\n", (unsigned long long)n); fflush(stdout);
      continue;
    }
    if (header == "BITMAP") { fwrite(bitmap, 1, 1 << 21, stdout); fflush(stdout); continue; }
    size_t len = strtoul(header.c_str() + 4, nullptr, 10);
    std::string text(len, 0);
    std::cin.read(&text[0], len);
    Scenario sc = Scenario::Parse(text);
    int need = 1 + sc.parties * sc.servers + sc.servers;
    for (auto& f : sc.faults) if (f.kind == "restart") need++;
    if (sc.mode == "sockets") need = sc.X("hn", 2);
    if (sc.mode == "config") need = 2;
    if (!variant_path.count(sc.variant) || !LoadPool(sc.variant, std::max(need, 14))) { printf("{\"error\":\"no image %s\"}\n", sc.variant.c_str()); fflush(stdout); continue; }
#ifdef SIM_MEM
    if (variant_path.count(sc.variant + "z")) LoadPool(sc.variant + "z", std::max(need, 14));
#endif
    std::string res = RunChild(text, sc, 0);
#ifdef SIM_MEM
    // the same run with other contents in fresh memory must produce the same
    if (res[0] == '{' && res.find("\"hash\"") != std::string::npos) {
      std::string twin = RunChild(text, sc, 1);
      size_t v = res.find("\"violations\":[");
      std::string cls, msg;
      if (twin.find("\"hash\"") == std::string::npos) { if (twin.find("timeout") == std::string::npos) cls = "C23:memory-fault", msg = "the run breaks down with other contents in fresh memory"; }
      else if (v != std::string::npos && res[v + 14] == ']') {
        size_t w = twin.find("\"violations\":["), e = twin.find("],\"counters\"");
        if (w != std::string::npos && e > w + 14) res.insert(v + 14, twin.substr(w + 14, e - w - 14));
        else if (DataOf(res) != DataOf(twin)) { cls = "C23:uninitialised"; msg = "depends on the contents of fresh memory: " + FirstDifference(DataOf(res), DataOf(twin)); }
        else if (res.compare(0, 28, twin, 0, 28) != 0) { cls = "C23:uninitialised"; msg = "the execution depends on the contents of fresh memory"; }
      }
      if (!cls.empty() && v != std::string::npos && res[v + 14] == ']') res.insert(v + 14, "{\"cls\":" + JStr(cls) + ",\"msg\":" + JStr(msg) + "}");
      // the digest is not needed any more
      size_t a = res.find(",\"data\":\"");
      if (a != std::string::npos) { size_t z = res.find('"', a + 9); res.erase(a, z + 1 - a); }
    }
#endif
    fwrite(res.data(), 1, res.size(), stdout); fputc('\n', stdout); fflush(stdout);
  }
  return 0;
}
