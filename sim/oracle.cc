// Oracles over a finished (or stuck) simulated run.
#include "oracle.h"
#include <math.h>
#include <string.h>
#include <algorithm>
#include <array>
#include <sstream>
#include <unordered_map>
#include <unordered_set>

namespace sim {
std::vector<Violation> violations;
std::map<std::string, std::string> report;
void Violate(const std::string& cls, const std::string& msg) {
  if (violations.size() < 20) violations.push_back({cls, msg});
}
bool Has(const char* c) { return ("," + S.check + ",").find(std::string(",") + c + ",") != std::string::npos; }

long NoiseCount() {
  double e = strtod(S.eps.c_str(), nullptr), d = strtod(S.delta.c_str(), nullptr);
  if (e == 0 || d == 0) return 0;
  return (long)floor(std::min((2.0 / e) * log(1.0 / d), 1e12));
}

static const size_t kSecret = 76, kLayer = 124, kQuery = 12, kResp = 52;

struct Link {
  Conn* c = nullptr;
  Dir* f = nullptr;  // upstream -> downstream
  Dir* b = nullptr;  // downstream -> upstream
  int up = -1, down = -1;
  uint32_t count = 0;
  bool has_count = false;
  size_t q0 = 0, q1 = 0;  // byte range of the queries (forward)
  size_t c0 = 0, c1 = 0;  // byte range of the ciphers (forward)
  size_t r0 = 0, r1 = 0;  // byte range of the responses (backward)
};

static std::vector<std::vector<int>> N;     // N[p][s] node id, p in [0, parties)
static std::vector<int> C;                  // client node per server
static std::vector<std::vector<Link>> L;    // L[p][s]: link into party p server s
static std::map<std::pair<int, int>, Conn*> sib;  // (node a, node b) any order

static uint64_t ReadAt(const Dir& d, size_t off) {  // step at which off bytes had been read
  if (off == 0) return 0;
  auto it = std::lower_bound(d.read.begin(), d.read.end(), std::make_pair(off, (uint64_t)0));
  return it == d.read.end() ? UINT64_MAX : it->second;
}
static uint64_t FirstSendBeyond(const Dir& d, size_t off) {  // step at which a byte at >= off was first sent
  for (auto& m : d.sent) if (m.first > off) return m.second;
  return UINT64_MAX;
}
static std::string Nm(int id) { return id < 0 ? "?" : nodes[id]->name; }
static uint32_t U32(const std::string& s, size_t o) { uint32_t v = 0; memcpy(&v, s.data() + o, 4); return v; }
static uint64_t U64(const std::string& s, size_t o) { uint64_t v = 0; memcpy(&v, s.data() + o, 8); return v; }

static bool Completed() {
  if (deadlocked || livelocked || stepcapped) return false;
  for (auto& n : nodes) if (n->st != Node::EXITED || n->code != 0) return false;
  return true;
}

static void RefRecord(uint32_t key, unsigned char* out) {
  uint32_t v = 2 * key; memcpy(out, &v, 4);
  memset(out + 4, key % 128, 48);
}

static bool Offline() { return S.stage == "all" || S.stage == "offline"; }
static bool Online() { return S.stage == "all" || S.stage == "online"; }

// ---------- topology ----------
static void BuildTopology() {
  N.assign(S.parties, std::vector<int>(S.servers, -1)); C.assign(S.servers, -1);
  L.assign(S.parties, std::vector<Link>(S.servers)); sib.clear();
  for (auto& n : nodes) {
    if (n->role == 0) C[n->server] = n->id;
    if (n->role == 1 || n->role == 2) N[n->party][n->server] = n->id;
  }
  std::map<std::pair<int, int>, int> seen;
  bool wrong = false; std::string why;
  for (auto& cp : conns) {
    Conn* c = cp.get();
    Node* a = nodes[c->node[0]].get(); Node* b = nodes[c->node[1]].get();
    if (c->incarnation[0] != a->incarnation || c->incarnation[1] != b->incarnation) continue;
    bool ok = false;
    if (a->role == 0 && b->role == 1 + (S.parties == 1) && b->party == 0 && b->server == a->server) ok = true;
    if (a->role == 1 && b->party == a->party + 1 && b->server == a->server) ok = true;
    bool sibling = (a->role == 1 || a->role == 2) && a->party == b->party && a->server != b->server;
    if (ok) {
      Link& l = L[b->party][b->server];
      if (l.c) { wrong = true; why = "two connections from " + a->name + " to " + b->name; continue; }
      l.c = c; l.f = &c->d[0]; l.b = &c->d[1]; l.up = a->id; l.down = b->id;
    } else if (sibling) {
      auto k = std::make_pair(std::min(a->id, b->id), std::max(a->id, b->id));
      if (sib.count(k)) { wrong = true; why = "two connections between siblings " + a->name + " and " + b->name; }
      sib[k] = c;
    } else { wrong = true; why = a->name + " is connected to " + b->name; }
  }
  if (wrong) report["_wrongpeer"] = why;
  for (int p = 0; p < S.parties; p++)
    for (int s = 0; s < S.servers; s++) {
      Link& l = L[p][s];
      if (!l.c || l.f->log.size() < 4) continue;
      l.has_count = true;
      l.count = U32(l.f->log, 0);
      size_t o = 4, r = 0;
      if (Offline()) { l.c0 = o; o += (size_t)l.count * kLayer * (S.parties - p); l.c1 = o; r += 2; }
      else r += 1;
      if (Online()) { l.q0 = o; o += (size_t)l.count * kQuery; l.q1 = o; l.r0 = r; l.r1 = r + (size_t)l.count * kResp; }
    }
}

// ---------- fault-free completion and answers ----------
static bool CheckCompletion(const std::string& cls, bool hang_only = false) {
  if (deadlocked) { Violate(cls + ":deadlock", "no process can proceed: " + DescribeNodes()); return false; }
  if (livelocked) { Violate(cls + ":livelock", "no progress for a bounded number of steps: " + DescribeNodes()); return false; }
  if (stepcapped) { Violate(cls + ":nontermination", "step bound exceeded: " + DescribeNodes()); return false; }
  for (auto& n : nodes)
    if (n->st == Node::DEAD && n->sig == 24) { Violate(cls + ":spin", n->name + " spins: " + n->death); return false; }
  if (hang_only) return true;
  for (auto& n : nodes)
    if (n->st == Node::DEAD) { Violate(cls + ":abnormal-end", n->name + " died: " + n->death); return false; }
  for (auto& n : nodes)
    if (n->st == Node::EXITED && n->code != 0) {
      Violate(cls + ":abnormal-end", n->name + " exit code " + std::to_string(n->code) + " output: " + n->out.substr(n->out.size() > 200 ? n->out.size() - 200 : 0));
      return false;
    }
  return true;
}
static bool answers_seen_anywhere() { for (int c : C) if (c >= 0 && !nodes[c]->answers.empty()) return true; return false; }
// Answers of one client that ended successfully.
static bool CheckAnswers(const std::string& cls, int c) {
  Node* n = nodes[c].get();
  if (!Online()) return true;
  uint32_t q = S.queries[n->server];
  if (n->answers.size() != q) {
    if (n->answers.empty() && !answers_seen_anywhere()) {
      // hook absent: fall back to the bytes the client consumed
      Link& l = L[0][n->server];
      if (l.c && l.b->consumed < l.r1) { Violate(cls + ":missing-answers", n->name + " finished without reading all responses"); return false; }
      return true;
    }
    Violate(cls + ":missing-answers", n->name + " succeeded with " + std::to_string(n->answers.size()) + " answers to " + std::to_string(q) + " queries");
    return false;
  }
  bool drawn = n->draws.size() == q;
  for (uint32_t i = 0; i < q; i++) {
    Answer& a = n->answers[i];
    unsigned char ref[52]; RefRecord(a.key, ref);
    if (a.idx != i) { Violate(cls + ":order", n->name + " answers out of order at " + std::to_string(i)); return false; }
    if (drawn && n->draws[i].value != a.key && S.X("strictkeys")) { Violate(cls + ":wrong-key", n->name + " query " + std::to_string(i)); return false; }
    if (a.key >= S.db) { Violate(cls + ":wrong-key", n->name + " asked key " + std::to_string(a.key) + " outside the database"); return false; }
    if (a.n == 52 && memcmp(ref, a.rec.data(), 52) != 0) {
      Violate(cls + ":wrong-record", n->name + " query " + std::to_string(i) + " key " + std::to_string(a.key) + " got value " + std::to_string(*(uint32_t*)a.rec.data()));
      return false;
    }
  }
  return true;
}
static bool CheckAllAnswers(const std::string& cls) {
  for (int c : C) if (c >= 0 && nodes[c]->st == Node::EXITED && nodes[c]->code == 0) if (!CheckAnswers(cls, c)) return false;
  return true;
}

// tag -> tag under which the party passes the query on, from what was decrypted (identity where unknown)
static std::vector<std::unordered_map<uint64_t, uint64_t>> TagMap() {
  std::vector<std::unordered_map<uint64_t, uint64_t>> next(S.parties);
  for (auto& o : opens) {
    Node* n = nodes[o.node].get();
    if (n->party >= 0 && o.plain.size() >= kSecret) next[n->party][U64(o.plain, 0)] = U64(o.plain, 8);
  }
  return next;
}
static uint64_t NextTag(const std::unordered_map<uint64_t, uint64_t>& m, uint64_t t) { auto it = m.find(t); return it == m.end() ? t : it->second; }

// ---------- C02 ----------
static void CheckParties(const std::string& cls) {
  long noise = NoiseCount() * (long)S.db;
  // tag -> next tag, per party, from what was decrypted
  std::vector<std::unordered_map<uint64_t, uint64_t>> next(S.parties);
  std::vector<std::unordered_map<std::string, int>> inner(S.parties);
  for (auto& o : opens) {
    Node* n = nodes[o.node].get();
    if (n->party < 0 || o.plain.size() < kSecret) continue;
    next[n->party][U64(o.plain, 0)] = U64(o.plain, 8);
    if (o.plain.size() > kSecret) inner[n->party][o.plain.substr(kSecret, 32)]++;
  }
  for (int p = 0; p < S.parties; p++) {
    long in_total = 0;
    for (int s = 0; s < S.servers; s++) {
      Link& l = L[p][s];
      if (!l.has_count) { Violate(cls + ":no-count", Nm(N[p][s]) + " never got a batch size"); return; }
      in_total += l.count;
      size_t want = 4 + (Offline() ? (size_t)l.count * kLayer * (S.parties - p) : 0) + (Online() ? (size_t)l.count * kQuery : 0);
      if (l.f->log.size() != want) {
        Violate(cls + ":announced", Nm(l.up) + " announced " + std::to_string(l.count) + " messages and sent " + std::to_string(l.f->log.size()) + " bytes instead of " + std::to_string(want));
        return;
      }
      size_t resp = (Offline() ? 2 : 1) + (Online() ? (size_t)l.count * kResp : 0);
      if (l.b->log.size() != resp) {
        Violate(cls + ":responses", Nm(l.down) + " received " + std::to_string(l.count) + " queries and returned " + std::to_string(l.b->log.size()) + " bytes instead of " + std::to_string(resp));
        return;
      }
      if (p == 0 && l.count != S.queries[s]) { Violate(cls + ":announced", Nm(l.up) + " announced " + std::to_string(l.count) + " queries, has " + std::to_string(S.queries[s])); return; }
    }
    if (p == S.parties - 1) break;
    long out_total = 0;
    for (int s = 0; s < S.servers; s++) out_total += L[p + 1][s].has_count ? L[p + 1][s].count : 0;
    if (out_total != in_total + noise) {
      Violate(cls + ":conservation", "party " + std::to_string(p) + " received " + std::to_string(in_total) + ", noise " + std::to_string(noise) + ", forwards " + std::to_string(out_total));
      return;
    }
    long base = out_total / S.servers;
    for (int s = 0; s < S.servers; s++) {
      long want = s == S.servers - 1 ? out_total - base * (S.servers - 1) : base;
      if ((long)L[p + 1][s].count != want) {
        Violate(cls + ":split", "party " + std::to_string(p) + " server " + std::to_string(s) + " forwards " + std::to_string(L[p + 1][s].count) + " of " + std::to_string(out_total) + " instead of " + std::to_string(want));
        return;
      }
    }
    if (Online()) {
      if (S.stage == "all") {
        std::unordered_map<uint64_t, long> out, in;
        for (int s = 0; s < S.servers; s++) {
          Link &li = L[p][s], &lo = L[p + 1][s];
          for (size_t o = li.q0; o < li.q1; o += kQuery) in[U64(li.f->log, o)]++;
          for (size_t o = lo.q0; o < lo.q1; o += kQuery) out[U64(lo.f->log, o)]++;
        }
        if ((long)out.size() != out_total) { Violate(cls + ":duplicate", "party " + std::to_string(p) + " forwards a query twice"); return; }
        for (auto& t : in) {
          if (t.second != 1) { Violate(cls + ":duplicate", "party " + std::to_string(p) + " received a query twice"); return; }
          auto it = next[p].find(t.first);
          if (it == next[p].end()) continue;
          if (!out.count(it->second)) { Violate(cls + ":lost", "party " + std::to_string(p) + " never forwards query with tag " + std::to_string(t.first)); return; }
        }
      } else {
        std::map<uint32_t, long> bal;
        for (int s = 0; s < S.servers; s++) {
          Link &li = L[p][s], &lo = L[p + 1][s];
          for (size_t o = li.q0; o < li.q1; o += kQuery) bal[U32(li.f->log, o + 8)]--;
          for (size_t o = lo.q0; o < lo.q1; o += kQuery) bal[U32(lo.f->log, o + 8)]++;
        }
        long per = NoiseCount();
        for (uint32_t k = 0; k < S.db; k++) if (per && bal.find(k) == bal.end()) bal[k] = 0;
        for (auto& b : bal)
          if (b.second != (b.first < S.db ? per : 0)) {
            Violate(cls + ":conservation", "party " + std::to_string(p) + ": key " + std::to_string(b.first) + " forwarded " + std::to_string(b.second) + " times more than received, noise is " + std::to_string(per));
            return;
          }
      }
    }
    if (Offline()) {
      std::unordered_map<std::string, int> out;
      long cnt = 0;
      size_t cs = kLayer * (S.parties - p - 1);
      for (int s = 0; s < S.servers; s++) {
        Link& lo = L[p + 1][s];
        for (size_t o = lo.c0; o < lo.c1; o += cs) { out[lo.f->log.substr(o, 32)]++; cnt++; }
      }
      if ((long)out.size() != cnt) { Violate(cls + ":duplicate", "party " + std::to_string(p) + " forwards an offline message twice"); return; }
      for (auto& i : inner[p])
        if (!out.count(i.first)) { Violate(cls + ":lost", "party " + std::to_string(p) + " never forwards an offline message it received"); return; }
      if (!opens.empty() && (long)inner[p].size() != in_total) { Violate(cls + ":lost", "party " + std::to_string(p) + " decrypted " + std::to_string(inner[p].size()) + " of " + std::to_string(in_total)); return; }
    }
  }
}

// ---------- C03 ----------
static bool CheckLookups(const std::string& cls, bool completed) {
  for (auto& n : nodes)
    for (auto& l : n->lookups)
      if (l.first >= S.db) { Violate(cls + ":outside", n->name + " looks up key " + std::to_string(l.first) + " outside [0," + std::to_string(S.db) + ")"); return false; }
  if (!completed) return true;
  long per = NoiseCount();
  long want_total = per * (long)S.db * (S.parties - 1);
  // announced sizes carry the noise also when only the offline stage runs
  for (int p = 0; p + 1 < S.parties; p++) {
    long in = 0, out = 0;
    for (int s = 0; s < S.servers; s++) { in += L[p][s].count; out += L[p + 1][s].count; }
    if (out - in != per * (long)S.db) { Violate(cls + ":amount", "party " + std::to_string(p) + " adds " + std::to_string(out - in) + " noise queries instead of " + std::to_string(per * (long)S.db)); return false; }
  }
  if (!Online()) return true;
  std::map<uint32_t, long> bal;
  long seen = 0;
  for (int s = 0; s < S.servers; s++) for (auto& l : nodes[N[S.parties - 1][s]]->lookups) { bal[l.first]++; seen++; }
  if (seen == 0) {
    if (want_total > 0 && S.stage == "online") {  // hook absent: unmasked tallies into the last party
      for (int s = 0; s < S.servers; s++) { Link& l = L[S.parties - 1][s]; for (size_t o = l.q0; o < l.q1; o += kQuery) bal[U32(l.f->log, o + 8)]++; }
    } else return true;
  }
  bool ans = answers_seen_anywhere();
  long q = 0;
  for (int c : C) { q += S.queries[nodes[c]->server]; for (auto& a : nodes[c]->answers) bal[a.key]--; }
  if (!ans && q > 0) return true;
  for (uint32_t k = 0; k < S.db; k++) {
    long v = bal.count(k) ? bal[k] : 0;
    if (v != per * (S.parties - 1)) {
      Violate(cls + ":noise", "key " + std::to_string(k) + " looked up " + std::to_string(v) + " times beyond the client queries instead of " + std::to_string(per * (S.parties - 1)));
      return false;
    }
  }
  return true;
}

// ---------- C06 ----------
static void CheckWiring(const std::string& cls) {
  if (report.count("_wrongpeer")) { Violate(cls + ":wrong-peer", report["_wrongpeer"]); return; }
  for (int p = 0; p < S.parties; p++)
    for (int s = 0; s < S.servers; s++)
      if (!L[p][s].c) { Violate(cls + ":not-connected", Nm(N[p][s]) + " has no connection from its predecessor"); return; }
  if (S.servers > 1)
    for (int p = 0; p < S.parties; p++)
      for (int s = 0; s < S.servers; s++)
        for (int t = s + 1; t < S.servers; t++) {
          int a = N[p][s], b = N[p][t];
          if (!sib.count({std::min(a, b), std::max(a, b)})) { Violate(cls + ":not-connected", Nm(a) + " and " + Nm(b) + " are not connected"); return; }
        }
}

// ---------- C09 ----------
static void CheckBatching(const std::string& cls) {
  // whole-input time: everything announced (and the announcement) has been read
  for (int p = 0; p < S.parties; p++) {
    uint64_t allc = 0, allq = 0, allr = 0;
    for (int s = 0; s < S.servers; s++) {
      Link& l = L[p][s];
      if (!l.c || !l.has_count) { allc = allq = allr = UINT64_MAX; continue; }
      if (Offline()) allc = std::max(allc, ReadAt(*l.f, std::max<size_t>(l.c1, 4)));
      if (Online()) allq = std::max(allq, ReadAt(*l.f, l.q1));
      if (p + 1 < S.parties) {
        Link& o = L[p + 1][s];
        if (!o.c || !o.has_count) allr = UINT64_MAX;
        else if (Online()) allr = std::max(allr, ReadAt(*o.b, o.r1));
      }
    }
    for (int s = 0; s < S.servers; s++) {
      Link& l = L[p][s];
      if (!l.c || !l.has_count) continue;
      if (p + 1 < S.parties && L[p + 1][s].c && L[p + 1][s].has_count) {
        Link& o = L[p + 1][s];
        if (Offline() && o.c1 > o.c0) {
          uint64_t t = FirstSendBeyond(*o.f, o.c0);
          if (t != UINT64_MAX && t <= allc) { Violate(cls + ":early-offline", Nm(o.up) + " sends offline messages at step " + std::to_string(t) + " before its party has read its input"); return; }
        }
        if (Online() && o.q1 > o.q0) {
          uint64_t t = FirstSendBeyond(*o.f, o.q0);
          if (t != UINT64_MAX && t <= allq) { Violate(cls + ":early-query", Nm(o.up) + " sends queries at step " + std::to_string(t) + " before its party has read all of its queries"); return; }
        }
      }
      if (Online() && l.r1 > l.r0) {
        uint64_t t = FirstSendBeyond(*l.b, l.r0);
        if (t == UINT64_MAX) continue;
        if (t <= ReadAt(*l.f, l.q1)) { Violate(cls + ":early-response", Nm(l.down) + " returns responses before it has its whole batch"); return; }
        if (p + 1 < S.parties && t <= allr) { Violate(cls + ":early-response", Nm(l.down) + " returns responses before its party has all responses from the next party"); return; }
      }
    }
  }
}

// ---------- secrets: where each one was read in the clear ----------
struct SecretInfo { int party; uint64_t share; std::string pre; };
static std::unordered_map<uint64_t, std::vector<size_t>> prekey;  // first 8 bytes of preshare -> index
static std::vector<SecretInfo> secrets;
static void CollectSecrets(const std::map<std::string, int>& pk2party) {
  prekey.clear(); secrets.clear();
  for (auto& e : seals) {
    std::string pk((char*)e.pk.data(), 32);
    auto it = pk2party.find(pk);
    if (it == pk2party.end() || e.plain.size() < kSecret) continue;
    SecretInfo i; i.party = it->second; memcpy(&i.share, e.plain.data() + 16, 8); i.pre = e.plain.substr(24, 52);
    prekey[U64(i.pre, 0)].push_back(secrets.size());
    secrets.push_back(i);
  }
}
template <class F>
static void Scan(const std::string& bytes, F f) {
  if (bytes.size() < 8) return;
  for (size_t o = 0; o + 8 <= bytes.size(); o++) {
    uint64_t v; memcpy(&v, bytes.data() + o, 8);
    auto it = prekey.find(v);
    if (it == prekey.end()) continue;
    for (size_t k : it->second) f(o, k);
  }
}

// ---------- C10 ----------
static void CheckStaging(const std::string& cls) {
  // (b) nothing is sent to a party before it signalled ready
  for (int p = 0; p < S.parties; p++)
    for (int s = 0; s < S.servers; s++) {
      Link& l = L[p][s];
      if (!l.c || !l.has_count || l.count == 0) continue;
      uint64_t first = FirstSendBeyond(*l.f, 4);
      uint64_t rdy1 = ReadAt(*l.b, 1);
      if (first != UINT64_MAX && first <= rdy1) { Violate(cls + ":before-ready", Nm(l.up) + " sends to " + Nm(l.down) + " before being told it is ready"); return; }
      if (S.stage == "all") {
        uint64_t q = FirstSendBeyond(*l.f, l.q0), rdy2 = ReadAt(*l.b, 2);
        if (q != UINT64_MAX && q <= rdy2) { Violate(cls + ":before-ready", Nm(l.up) + " sends queries to " + Nm(l.down) + " before its offline stage is over"); return; }
      }
    }
  // (c) no client starts before every server of every party after the first said that it is ready for what comes first
  uint64_t start = UINT64_MAX; int starter = -1;
  for (int s = 0; s < S.servers; s++) {
    Link& l = L[0][s];
    if (!l.c || !l.has_count || l.count == 0) continue;
    uint64_t t = FirstSendBeyond(*l.f, 4);
    if (t < start) { start = t; starter = l.up; }
  }
  if (start == UINT64_MAX) return;
  for (int p = 1; p < S.parties; p++)
    for (int s = 0; s < S.servers; s++) {
      Link& l = L[p][s];
      if (!l.c || FirstSendBeyond(*l.b, 0) >= start) { Violate(cls + ":started-early", Nm(starter) + " starts although " + Nm(N[p][s]) + " has not said that it is ready"); return; }
    }
  if (S.stage != "all") return;
  uint64_t firstq = UINT64_MAX; int who = -1;
  for (int s = 0; s < S.servers; s++) {
    Link& l = L[0][s];
    if (!l.c || !l.has_count || l.count == 0) continue;
    uint64_t t = FirstSendBeyond(*l.f, l.q0);
    if (t < firstq) { firstq = t; who = l.up; }
  }
  if (firstq == UINT64_MAX) return;
  // (a) every server has read and decrypted its whole offline batch
  std::vector<long> nopen(nodes.size(), 0);
  std::vector<std::unordered_map<uint64_t, uint64_t>> known(nodes.size());  // share id -> step
  std::vector<std::unordered_set<uint64_t>> party_all(S.parties);
  prekey.clear(); secrets.clear();
  for (auto& o : opens) {
    Node* n = nodes[o.node].get();
    if (n->party < 0 || o.plain.size() < kSecret) continue;
    if (o.step >= firstq) { Violate(cls + ":late-decrypt", n->name + " decrypts an offline message after " + Nm(who) + " sent an online query"); return; }
    nopen[o.node]++;
    SecretInfo i; i.party = n->party; i.share = U64(o.plain, 16); i.pre = o.plain.substr(24, 52);
    prekey[U64(i.pre, 0)].push_back(secrets.size());
    known[o.node][secrets.size()] = o.step;
    party_all[n->party].insert(secrets.size());
    secrets.push_back(i);
  }
  if (opens.empty()) return;
  for (int p = 1; p < S.parties; p++)
    for (int s = 0; s < S.servers; s++) {
      Link& l = L[p][s];
      if (!l.c || FirstSendBeyond(*l.b, 1) >= firstq) { Violate(cls + ":not-finished", Nm(N[p][s]) + " has not signalled the end of its offline stage when " + Nm(who) + " sends an online query"); return; }
    }
  for (int p = 0; p < S.parties; p++)
    for (int s = 0; s < S.servers; s++) {
      Link& l = L[p][s];
      if (!l.c || !l.has_count) { Violate(cls + ":incomplete", Nm(N[p][s]) + " has no offline batch when " + Nm(who) + " sends an online query"); return; }
      if (ReadAt(*l.f, l.c1) >= firstq) { Violate(cls + ":incomplete", Nm(l.down) + " has not read its offline batch when " + Nm(who) + " sends an online query"); return; }
      if (nopen[N[p][s]] < (long)l.count) { Violate(cls + ":incomplete", Nm(l.down) + " decrypted " + std::to_string(nopen[N[p][s]]) + " of " + std::to_string(l.count) + " offline messages before an online query was sent"); return; }
    }
  if (S.servers == 1) return;
  for (auto& kv : sib) {
    Conn* c = kv.second;
    for (int i = 0; i < 2; i++) {
      int to = c->node[1 - i];
      if (nodes[to]->party != nodes[c->node[i]]->party) continue;
      Scan(c->d[i].log, [&](size_t o, size_t k) {
        if (secrets[k].party != nodes[to]->party) return;
        if (c->d[i].log.size() < o + 52 || c->d[i].log.compare(o, 52, secrets[k].pre) != 0) return;
        uint64_t t = ReadAt(c->d[i], o + 52);
        auto it = known[to].find(k);
        if (it == known[to].end()) known[to][k] = t; else it->second = std::min(it->second, t);
      });
    }
  }
  for (int p = 0; p < S.parties; p++)
    for (int s = 0; s < S.servers; s++)
      for (uint64_t k : party_all[p]) {
        auto it = known[N[p][s]].find(k);
        if (it == known[N[p][s]].end() || it->second >= firstq) {
          Violate(cls + ":not-shared", Nm(N[p][s]) + " does not have all of its party's offline secrets when " + Nm(who) + " sends an online query");
          return;
        }
      }
}

// ---------- C11 (per run; the distribution tests are aggregated by the driver) ----------
static std::string JNum(const std::vector<uint64_t>& v) {
  std::ostringstream o; o << "[";
  for (size_t i = 0; i < v.size(); i++) o << (i ? "," : "") << v[i];
  o << "]"; return o.str();
}
static void CheckMasking(const std::string& cls) {
  if (S.stage != "all") return;
  // All queries of the run are for one key (fixed key), except noise in a database of several records.
  bool multi = S.db > 1 && strtod(S.eps.c_str(), nullptr) > 0 && strtod(S.delta.c_str(), nullptr) > 0;
  std::vector<std::array<unsigned char, 52>> recs(multi ? S.db : 0);
  for (uint32_t k = 0; k < recs.size(); k++) RefRecord(k, recs[k].data());
  uint32_t key = S.db == 1 ? 0 : (uint32_t)S.fixedkey % S.db;
  unsigned char ref[52]; RefRecord(key, ref);
  std::vector<uint64_t> tbits(32, 0), tsame(1, 0); uint64_t tn = 0, tkey = 0, tdup = 0, thop = 0;
  std::vector<uint64_t> rbits(416, 0), rmatch(52, 0); uint64_t rn = 0, rdupw = 0;
  std::unordered_map<std::string, int> allresp;
  std::map<uint64_t, uint32_t> prev;
  auto next = TagMap();
  for (int p = 0; p < S.parties; p++) {
    std::map<uint64_t, uint32_t> here;
    std::unordered_map<uint32_t, int> tallies;
    std::vector<std::unordered_map<uint64_t, int>> words(13);
    for (int s = 0; s < S.servers; s++) {
      Link& l = L[p][s];
      if (!l.c || !l.has_count) continue;
      for (size_t o = l.q0; o + kQuery <= std::min(l.q1, l.f->log.size()); o += kQuery) {
        uint32_t t = U32(l.f->log, o + 8);
        tn++;
        if (multi ? t < S.db : t == key) tkey++;
        if (tallies[t]++) tdup++;
        for (int b = 0; b < 32; b++) tbits[b] += (t >> b) & 1;
        uint64_t tag = U64(l.f->log, o);
        here[NextTag(next[p], tag)] = t;
        auto it = prev.find(tag);
        if (it != prev.end() && it->second == t) thop++;
      }
      for (size_t o = l.r0; o + kResp <= std::min(l.r1, l.b->log.size()); o += kResp) {
        const unsigned char* r = (const unsigned char*)l.b->log.data() + o;
        rn++;
        std::string rs((const char*)r, 52);
        if (allresp[rs]++) { Violate(cls + ":repeated-response", "two responses on inter-party links are identical (link into " + Nm(l.down) + ")"); return; }
        int same = 0;
        for (int j = 0; j < 52; j++) same += r[j] == ref[j];
        for (auto& x : recs) {
          int m = 0;
          for (int j = 0; j < 52; j++) m += r[j] == x[j];
          same = std::max(same, m);
        }
        // by chance: below 1e-17 per response
        if (same >= 12) { Violate(cls + ":record-visible", std::to_string(same) + " of 52 bytes of a response equal the record, on the link into " + Nm(l.down)); return; }
        for (int j = 0; j < 52; j++) {
          if (!multi && r[j] == ref[j]) rmatch[j]++;
          for (int b = 0; b < 8; b++) rbits[j * 8 + b] += (r[j] >> b) & 1;
        }
        for (int w = 0; w < 13; w++) { uint32_t v; memcpy(&v, r + 4 * w, 4); if (words[w][v]++) rdupw++; }
      }
    }
    prev = here;
  }
  std::ostringstream o;
  o << "{\"tn\":" << tn << ",\"tkey\":" << tkey << ",\"tdup\":" << tdup << ",\"thop\":" << thop << ",\"tbits\":" << JNum(tbits)
    << ",\"rn\":" << rn << ",\"rmn\":" << (multi ? 0 : rn) << ",\"tkeys\":" << (multi ? tn * S.db : tn) << ",\"rdupw\":" << rdupw << ",\"rmatch\":" << JNum(rmatch) << ",\"rbits\":" << JNum(rbits) << "}";
  report["mask"] = o.str();
  // secrets never reused: every share and preshare given out is fresh
  std::unordered_map<std::string, int> pre; std::unordered_map<uint64_t, int> sh;
  for (auto& e : seals) {
    if (e.plain.size() < kSecret) continue;
    if (pre[e.plain.substr(24, 52)]++) { Violate(cls + ":mask-reuse", "the same response mask is dealt twice by " + Nm(e.node)); return; }
    if (sh[U64(e.plain, 16)]++) { Violate(cls + ":mask-reuse", "the same query share is dealt twice by " + Nm(e.node)); return; }
  }
}

// ---------- C19: nothing that identifies a message survives a party ----------
static void CheckUnlinkable(const std::string& cls) {
  if (S.stage != "all") return;
  auto next = TagMap();
  std::unordered_map<uint64_t, int> seen;    // tag -> link
  std::unordered_map<uint64_t, int> words;   // 8-byte words of ciphers and responses -> link
  std::unordered_map<uint64_t, int> hopd, hopx;
  std::vector<uint64_t> cb(64, 0), nb(64, 0), hb(64, 0); uint64_t cn = 0, nn = 0, hn = 0;
  for (int p = 0; p < S.parties; p++) {
    std::vector<uint64_t> tags;
    std::unordered_set<uint64_t> client;
    for (int s = 0; s < S.servers; s++) {
      Link& l = L[p][s];
      if (!l.c || !l.has_count) continue;
      for (size_t o = l.q0; o + kQuery <= std::min(l.q1, l.f->log.size()); o += kQuery) tags.push_back(U64(l.f->log, o));
      auto word = [&](const std::string& b, size_t o) {
        auto w = words.emplace(U64(b, o), p);
        if (!w.second) {
          Violate(cls + ":same-bytes", "8 bytes of a message on the link into " + Nm(l.down) + " also occur in a message on a link into party " + std::to_string(w.first->second));
          return true;
        }
        return false;
      };
      size_t ci = kLayer * (S.parties - p);
      for (size_t o = l.c0; o + ci <= std::min(l.c1, l.f->log.size()); o += ci)
        for (size_t k : {(size_t)0, (size_t)24, ci / 2 / 8 * 8, ci - 8}) if (word(l.f->log, o + k)) return;
      for (size_t o = l.r0; o + kResp <= std::min(l.r1, l.b->log.size()); o += kResp)
        for (size_t k : {0, 20, 44}) if (word(l.b->log, o + k)) return;
    }
    for (uint64_t t : tags) {
      auto e = seen.emplace(t, p);
      if (!e.second) { Violate(cls + ":same-tag", "a query into party " + std::to_string(p) + " carries the tag of a query into party " + std::to_string(e.first->second)); return; }
      if (next[p].count(t)) {
        uint64_t n = next[p][t];
        hn++;
        for (int b = 0; b < 64; b++) hb[b] += ((n ^ t) >> b) & 1;
        if (p + 1 < S.parties && (hopd[n - t]++ || hopx[n ^ t]++)) { Violate(cls + ":linked", "the tags of two queries change by the same amount at party " + std::to_string(p)); return; }
      }
    }
    // whose they are: client queries and noise
    static std::unordered_set<uint64_t> mine;
    if (p == 0) { mine.clear(); mine.insert(tags.begin(), tags.end()); }
    for (uint64_t t : tags) {
      bool c = mine.count(t);
      (c ? cn : nn)++;
      for (int b = 0; b < 64; b++) (c ? cb : nb)[b] += (t >> b) & 1;
    }
    std::unordered_set<uint64_t> m2;
    for (uint64_t t : mine) m2.insert(NextTag(next[p], t));
    mine.swap(m2);
    std::sort(tags.begin(), tags.end());
    for (size_t i = 0; i + 1 < tags.size(); i++)
      if (tags[i + 1] - tags[i] < 256) { Violate(cls + ":predictable", "tags on the link into party " + std::to_string(p) + " are " + std::to_string(tags[i + 1] - tags[i]) + " apart"); return; }
  }
  std::ostringstream o;
  o << "{\"cn\":" << cn << ",\"nn\":" << nn << ",\"hn\":" << hn << ",\"cb\":" << JNum(cb) << ",\"nb\":" << JNum(nb) << ",\"hb\":" << JNum(hb) << "}";
  report["mask"] = o.str();
}

// ---------- C22: the times reported ----------
// All numbers "<label>: <n>ms" written at the start of a line.
static std::vector<long long> Reported(const std::string& out, const std::string& label) {
  std::vector<long long> v;
  std::string k = label + ": ";
  for (size_t o = out.find(k); o != std::string::npos; o = out.find(k, o + 1)) {
    size_t e = o + k.size(), b = e;
    while (e < out.size() && isdigit((unsigned char)out[e])) e++;
    if (e > b && out.compare(e, 2, "ms") == 0) v.push_back(atoll(out.substr(b, e - b).c_str()));
    else v.push_back(-1);
  }
  return v;
}
static void CheckTimes(const std::string& cls) {
  auto T = [](uint64_t step) -> long long { return step < clock_at.size() ? clock_at[step] : clock_at.back(); };
  std::map<int, std::pair<uint64_t, uint64_t>> opened;               // node -> first opening (start), last
  std::map<int, std::vector<std::pair<uint64_t, uint64_t>>> sealed;  // node -> (begin, end)
  for (auto& o : opens) { auto it = opened.find(o.node); if (it == opened.end()) opened[o.node] = {o.t0, o.t1}; else it->second.second = o.t1; }
  for (auto& e : seals) sealed[e.node].push_back({e.t0, e.t1});
  long tested = 0, longest = 0;
  for (int p = 0; p + 1 < S.parties; p++)
    for (int s = 0; s < S.servers; s++) {
      Node* n = nodes[N[p][s]].get();
      Link &l = L[p][s], &o = L[p + 1][s];
      if (!l.has_count || !o.has_count) continue;
      auto on = Reported(n->out, "Online time"), off = Reported(n->out, "Offline time");
      if (on.size() != (Online() ? 1u : 0u)) { Violate(cls + ":online-lines", n->name + " writes " + std::to_string(on.size()) + " online times for stage " + S.stage); return; }
      if (off.size() != (Offline() ? 1u : 0u)) { Violate(cls + ":offline-lines", n->name + " writes " + std::to_string(off.size()) + " offline times for stage " + S.stage); return; }
      auto judge = [&](const char* what, long long got, long long lo, long long hi, int parts) {
        lo = (std::max(lo, 0ll)) / 1000 - parts; hi = hi / 1000 + parts;
        tested++; longest = std::max<long>(longest, hi);
        if (got < lo || got > hi)
          Violate(cls + ":" + what + (got < lo ? "-too-short" : "-too-long"),
                  n->name + " reports " + std::to_string(got) + " ms, it took at least " + std::to_string(lo) + " and at most " + std::to_string(hi) + " ms");
        return got >= lo && got <= hi;
      };
      if (Online()) {
        uint64_t slo = FirstSendBeyond(*l.b, Offline() ? 1 : 0), shi = FirstSendBeyond(*o.f, o.q0), elo = 0;
        for (int t = 0; t < S.servers; t++) {
          slo = std::max(slo, ReadAt(*L[p][t].f, L[p][t].q1));
          elo = std::max(elo, ReadAt(*L[p + 1][t].b, L[p + 1][t].r1));
        }
                for (int t = 0; t < S.servers; t++) if (t != s) {  // the first exchange of more than a signal
          auto it = sib.find({std::min(N[p][s], N[p][t]), std::max(N[p][s], N[p][t])});
          if (it == sib.end()) continue;
          Dir& d = it->second->d[it->second->node[0] == N[p][s] ? 0 : 1];
          size_t before = 0;
          for (auto& m : d.sent) { if (m.second > slo && m.first - before > 1) { shi = std::min(shi, m.second); break; } before = m.first; }
        }
        uint64_t ehi = FirstSendBeyond(*l.b, l.r0);
        long long a = T(slo), b = std::max<long long>(T(shi), a), c = T(elo), d = T(ehi);
        if (!judge("online", on[0], c - b, d - a, 1)) return;
      }
      if (Offline()) {
        uint64_t slo = 0, s2lo = FirstSendBeyond(*l.b, 0), e1 = FirstSendBeyond(*l.b, 0), e2 = FirstSendBeyond(*l.b, 1);
        for (int t = 0; t < S.servers; t++) {
          slo = std::max(slo, ReadAt(*L[p][t].f, 4));
          s2lo = std::max(s2lo, ReadAt(*L[p][t].f, L[p][t].c1));
        }
        long long a = T(slo), b = std::min(T(e1), T(ReadAt(*o.b, 1))), c = T(ReadAt(*o.b, 1)), d = T(e1);
        for (auto& x : sealed[n->id]) if ((long long)x.first < d) { b = std::min<long long>(b, x.first); c = std::max<long long>(c, x.second); }
        b = std::max(a, b);
        long long a2 = T(s2lo), b2 = T(FirstSendBeyond(*o.f, o.c0)), c2 = T(ReadAt(*o.b, 2)), d2 = T(e2);
        if (opened.count(n->id)) { b2 = std::min<long long>(b2, opened[n->id].first); c2 = std::max<long long>(c2, opened[n->id].second); }
        b2 = std::max(a2, b2);
        if (!judge("offline", off[0], std::max(0ll, c - b) + std::max(0ll, c2 - b2), (d - a) + (d2 - a2), 2)) return;
      }
    }
  report["times"] = std::to_string(tested);
  report["longest_ms"] = std::to_string(longest);
  counters["times_judged"] += tested;
}

// ---------- C20: how many fake queries each party adds for each key (noise sampled) ----------
static void ReportNoise(const std::string& cls) {
  if (!Online()) return;
  std::vector<std::vector<long>> bal(S.parties - 1, std::vector<long>(S.db, 0));
  auto bad = [&](int p, long key) { Violate(cls + ":outside", "party " + std::to_string(p) + " adds a query for key " + std::to_string(key) + " outside the database"); };
  if (S.stage == "online") {  // nothing is masked
    for (int p = 0; p + 1 < S.parties; p++)
      for (int s = 0; s < S.servers; s++) {
        Link &li = L[p][s], &lo = L[p + 1][s];
        for (size_t o = li.q0; o < li.q1; o += kQuery) { uint32_t k = U32(li.f->log, o + 8); if (k < S.db) bal[p][k]--; }
        for (size_t o = lo.q0; o < lo.q1; o += kQuery) { uint32_t k = U32(lo.f->log, o + 8); if (k >= S.db) { bad(p, k); return; } bal[p][k]++; }
      }
  } else {
    auto next = TagMap();
    std::vector<std::unordered_map<uint64_t, uint32_t>> key(S.parties);
    long seen = 0;
    for (int s = 0; s < S.servers; s++) {
      Link& l = L[S.parties - 1][s];
      auto& lk = nodes[l.down]->lookups;
      if (lk.size() != l.count) return;  // hook absent
      for (uint32_t i = 0; i < l.count; i++, seen++) {
        if (lk[i].first >= S.db) { bad(S.parties - 2, lk[i].first); return; }
        key[S.parties - 1][U64(l.f->log, l.q0 + i * kQuery)] = lk[i].first;
      }
    }
    if ((long)key[S.parties - 1].size() != seen) return;
    for (int p = S.parties - 2; p >= 0; p--) {
      for (auto& t : key[p + 1]) bal[p][t.second]++;
      for (int s = 0; s < S.servers; s++) {
        Link& l = L[p][s];
        for (size_t o = l.q0; o < l.q1; o += kQuery) {
          uint64_t t = U64(l.f->log, o);
          auto it = key[p + 1].find(NextTag(next[p], t));
          if (it == key[p + 1].end()) { Violate(cls + ":lost", "party " + std::to_string(p) + " never forwards a query it received"); return; }
          bal[p][it->second]--;
          key[p][t] = it->second;
        }
      }
    }
  }
  double e = atof(S.eps.c_str()), d = atof(S.delta.c_str());
  long top = e == 0 || d == 0 ? 0 : (long)std::floor(2 * (2 / e) * std::log(1 / d) + 1e-9);
  std::ostringstream o; o << "{\"n\":[";
  for (int p = 0; p + 1 < S.parties; p++) {
    for (uint32_t k = 0; k < S.db; k++)
      if (bal[p][k] < 0 || bal[p][k] > top) {
        Violate(cls + ":range", "party " + std::to_string(p) + " adds " + std::to_string(bal[p][k]) + " queries for key " + std::to_string(k) + ", at most " + std::to_string(top) + " are possible");
        return;
      }
    o << (p ? "," : "") << "[";
    for (uint32_t k = 0; k < S.db; k++) o << (k ? "," : "") << bal[p][k];
    o << "]";
  }
  o << "]}";
  report["mask"] = o.str();
}

// ---------- C12 ----------
// Looks for any 8-byte piece of the given (party, secret bytes) outside that party: in what
// other parties decrypt, in layers encrypted to them, and on links (offline stage) that do
// not stay inside the party.
static std::string FindExposed(const std::vector<std::pair<int, std::string>>& what, const std::map<std::string, int>& pk2party, uint64_t firstq) {
  std::unordered_map<uint64_t, int> owner;  // piece -> party, -1: not unique
  for (auto& w : what)
    for (size_t o = 0; o + 8 <= w.second.size(); o += o + 16 <= w.second.size() ? 8 : std::max<size_t>(1, w.second.size() - o - 8)) {
      uint64_t v = U64(w.second, o);
      auto r = owner.emplace(v, w.first);
      if (!r.second && r.first->second != w.first) r.first->second = -1;
    }
  owner.erase(0);
  auto scan = [&](const std::string& b, auto&& f) {
    for (size_t o = 0; o + 8 <= b.size(); o++) {
      auto it = owner.find(U64(b, o));
      if (it != owner.end() && it->second >= 0 && f(o, it->second)) return;
    }
  };
  std::string why;
  for (auto& o : opens) {
    int p = nodes[o.node]->party;
    scan(o.plain, [&](size_t, int w) { if (w == p) return false; why = Nm(o.node) + " obtains (part of) a secret meant for party " + std::to_string(w); return true; });
    if (!why.empty()) return why;
  }
  for (auto& e : seals) {
    auto it = pk2party.find(std::string((char*)e.pk.data(), 32));
    if (it == pk2party.end()) continue;
    scan(e.plain, [&](size_t, int w) { if (w == it->second) return false; why = "a layer for party " + std::to_string(it->second) + " contains (part of) the secret of party " + std::to_string(w) + " in the clear"; return true; });
    if (!why.empty()) return why;
  }
  for (auto& cp : conns) {
    Conn* c = cp.get();
    int pa = nodes[c->node[0]]->party, pb = nodes[c->node[1]]->party;
    for (int i = 0; i < 2; i++) {
      scan(c->d[i].log, [&](size_t off, int w) {
        if (pa == pb && w == pa) return false;
        if (FirstSendBeyond(c->d[i], off) >= firstq) return true;  // online from here on
        why = "(part of) the secret of party " + std::to_string(w) + " is on the link from " + Nm(c->node[i]) + " to " + Nm(c->node[1 - i]) + " in the clear";
        return true;
      });
      if (!why.empty()) return why;
    }
  }
  return why;
}
// The masks the parties really applied, from what went in and came out of them.
static std::vector<std::pair<int, std::string>> EffectiveMasks() {
  std::vector<std::pair<int, std::string>> r;
  if (S.stage != "all") return r;
  auto x = [](const char* a, const char* b) { std::string m(52, 0); for (int i = 0; i < 52; i++) m[i] = a[i] ^ b[i]; return m; };
  auto next = TagMap();
  for (int p = 0; p < S.parties; p++) {
    std::unordered_map<uint64_t, std::string> later;  // tag -> response from the next party
    if (p + 1 < S.parties)
      for (int s = 0; s < S.servers; s++) {
        Link& l = L[p + 1][s];
        for (uint32_t i = 0; i < l.count && l.r0 + (i + 1) * kResp <= l.b->log.size(); i++)
          later[U64(l.f->log, l.q0 + i * kQuery)] = l.b->log.substr(l.r0 + i * kResp, kResp);
      }
    for (int s = 0; s < S.servers; s++) {
      Link& l = L[p][s];
      for (uint32_t i = 0; i < l.count && l.r0 + (i + 1) * kResp <= l.b->log.size(); i++) {
        const char* resp = l.b->log.data() + l.r0 + i * kResp;
        if (p + 1 < S.parties) {
          auto it = later.find(NextTag(next[p], U64(l.f->log, l.q0 + i * kQuery)));
          if (it != later.end()) r.emplace_back(p, x(resp, it->second.data()));
        } else {
          auto& lk = nodes[l.down]->lookups;
          if (lk.size() != l.count) continue;
          unsigned char ref[52]; RefRecord(lk[i].first, ref);
          r.emplace_back(p, x(resp, (const char*)ref));
        }
      }
    }
  }
  return r;
}
static void CheckSecrecy(const std::string& cls, bool completed) {
  if (!Offline()) return;
  std::map<std::string, int> pk2party;
  for (auto& o : opens) if (nodes[o.node]->party >= 0) {
    std::string pk((char*)o.pk.data(), 32);
    auto it = pk2party.find(pk);
    if (it != pk2party.end() && it->second != nodes[o.node]->party) { Violate(cls + ":foreign-key", Nm(o.node) + " decrypts with the key of party " + std::to_string(it->second)); return; }
    pk2party[pk] = nodes[o.node]->party;
  }
  // keys from the configuration are authoritative when known
  auto itc = report.find("_pks");
  if (itc != report.end()) {
    std::map<std::string, int> m;
    for (int p = 0; p < S.parties; p++) m[itc->second.substr(p * 32, 32)] = p;
    for (auto& k : pk2party) {
      auto f = m.find(k.first);
      if (f == m.end() || f->second != k.second) { Violate(cls + ":foreign-key", "party " + std::to_string(k.second) + " decrypts with a key that is not its own"); return; }
    }
    pk2party = m;
  }
  CollectSecrets(pk2party);
  std::unordered_map<std::string, int> owner;
  for (auto& i : secrets) {
    auto it = owner.find(i.pre);
    if (it != owner.end() && it->second != i.party) { Violate(cls + ":shared-secret", "one secret is encrypted to party " + std::to_string(i.party) + " and to party " + std::to_string(it->second)); return; }
    owner[i.pre] = i.party;
  }
  // plaintext of one layer must not contain a secret of another party
  bool bad = false; std::string why;
  for (auto& e : seals) {
    auto it = pk2party.find(std::string((char*)e.pk.data(), 32));
    if (it == pk2party.end()) { Violate(cls + ":unknown-key", Nm(e.node) + " encrypts to a key of no party"); return; }
    // A message with j inner layers is for the party j before the last.
    if (e.plain.size() >= kSecret && (e.plain.size() - kSecret) % kLayer == 0) {
      int meant = S.parties - 1 - (int)((e.plain.size() - kSecret) / kLayer);
      if (meant != it->second) { Violate(cls + ":wrong-party", Nm(e.node) + " encrypts what is meant for party " + std::to_string(meant) + " to party " + std::to_string(it->second)); return; }
    }
    Scan(e.plain, [&](size_t o, size_t k) {
      if (!bad && secrets[k].party != it->second) { bad = true; why = "a layer for party " + std::to_string(it->second) + " contains the secret of party " + std::to_string(secrets[k].party) + " in the clear"; }
      (void)o;
    });
    if (bad) { Violate(cls + ":exposed-in-layer", why); return; }
  }
  for (auto& o : opens) {
    int p = nodes[o.node]->party;
    Scan(o.plain, [&](size_t off, size_t k) { (void)off; if (!bad && secrets[k].party != p) { bad = true; why = Nm(o.node) + " obtains a secret meant for party " + std::to_string(secrets[k].party); } });
    if (bad) { Violate(cls + ":exposed-by-decryption", why); return; }
  }
  // links
  // (in the online stage a response may equal a mask, where the record is all zeros: there
  // only a mask next to its share counts)
  uint64_t firstq = UINT64_MAX;
  if (Online()) for (auto& v : L) for (auto& l : v) if (l.c && l.has_count) firstq = std::min(firstq, FirstSendBeyond(*l.f, l.q0));
  std::vector<std::unordered_set<size_t>> got(nodes.size());
  for (auto& cp : conns) {
    Conn* c = cp.get();
    int pa = nodes[c->node[0]]->party, pb = nodes[c->node[1]]->party;
    bool same = pa >= 0 && pa == pb;
    for (int i = 0; i < 2; i++) {
      int to = c->node[1 - i];
      Scan(c->d[i].log, [&](size_t off, size_t k) {
        if (same && secrets[k].party == pa) { if (off + 52 <= c->d[i].consumed && c->d[i].log.compare(off, 52, secrets[k].pre) == 0) got[to].insert(k); return; }
        if (FirstSendBeyond(c->d[i], off) >= firstq && (off < 8 || U64(c->d[i].log, off - 8) != secrets[k].share)) return;
        if (!bad) { bad = true; why = "the secret of party " + std::to_string(secrets[k].party) + " is on the link from " + Nm(c->node[i]) + " to " + Nm(to) + " in the clear"; }
      });
    }
  }
  if (bad) { Violate(cls + ":exposed-on-link", why); return; }
  std::vector<std::pair<int, std::string>> parts;
  for (auto& k : secrets) {
    // (shares drawn from the boundary values are not unique to a secret)
    if (S.edge == 0) { std::string sh(8, 0); memcpy(&sh[0], &k.share, 8); parts.emplace_back(k.party, sh); }
    parts.emplace_back(k.party, k.pre);
  }
  why = FindExposed(parts, pk2party, firstq);
  if (!why.empty()) { Violate(cls + ":partly-exposed", why); return; }
  if (!completed) return;
  why = FindExposed(EffectiveMasks(), pk2party, firstq);
  if (!why.empty()) { Violate(cls + ":mask-exposed", why); return; }
  std::unordered_map<std::string, size_t> preidx;
  for (size_t k = 0; k < secrets.size(); k++) preidx[secrets[k].pre] = k;
  for (auto& o : opens) if (o.plain.size() >= kSecret) {
    auto it = preidx.find(o.plain.substr(24, 52));
    if (it != preidx.end()) got[o.node].insert(it->second);
  }
  if (!opens.empty())
    for (int p = 0; p < S.parties; p++)
      for (int s = 0; s < S.servers; s++)
        for (auto& pr : preidx)
          if (secrets[pr.second].party == p && !got[N[p][s]].count(pr.second)) {
            Violate(cls + ":missing-secret", Nm(N[p][s]) + " lacks a secret of its party");
            return;
          }
}

// ---------- C13: report the order in which each party forwards its batch ----------
static void ReportOrder() {
  // For each party but the last: input positions (server-major) in output order,
  // -1-k for the k-th noise message (server-major, in the order they were made); queries and offline messages.
  std::ostringstream o; o << "[";
  bool firstp = true;
  for (int p = 0; p + 1 < S.parties; p++) {
    std::unordered_map<uint64_t, uint64_t> next; std::unordered_map<std::string, std::string> inn;
    for (auto& e : opens) if (nodes[e.node]->party == p && e.plain.size() > kSecret) {
      next[U64(e.plain, 0)] = U64(e.plain, 8);
      inn[e.cipherhead] = e.plain.substr(kSecret, 32);
    }
    std::unordered_map<uint64_t, long> pos; std::unordered_map<std::string, long> cpos;
    long k = 0, kc = 0;
    size_t ci = kLayer * (S.parties - p), co = kLayer * (S.parties - p - 1);
    for (int s = 0; s < S.servers; s++) {
      Link& l = L[p][s];
      for (size_t q = l.q0; q < l.q1; q += kQuery) { auto it = next.find(U64(l.f->log, q)); if (it != next.end()) pos[it->second] = k; k++; }
      for (size_t q = l.c0; q < l.c1; q += ci) { auto it = inn.find(l.f->log.substr(q, 32)); if (it != inn.end()) cpos[it->second] = kc; kc++; }
    }
    std::vector<uint64_t> noise;
    for (int s = 0; s < S.servers; s++) { Link& l = L[p + 1][s]; for (size_t q = l.q0; q < l.q1; q += kQuery) { uint64_t t = U64(l.f->log, q); if (!pos.count(t)) noise.push_back(t); } }
    std::sort(noise.begin(), noise.end());
    std::unordered_map<uint64_t, long> made;
    for (int s = 0; s < S.servers; s++)
      for (auto& e : seals)
        if (e.node == N[p][s] && e.plain.size() >= kSecret) {
          uint64_t t = U64(e.plain, 0);
          if (std::binary_search(noise.begin(), noise.end(), t)) made.emplace(t, (long)made.size());
        }
    if (made.size() != noise.size()) { made.clear(); for (uint64_t t : noise) made.emplace(t, (long)made.size()); }
    auto emit = [&](bool cip) {
      o << "["; bool f = true;
      for (int s = 0; s < S.servers; s++) {
        Link& l = L[p + 1][s];
        if (!cip) for (size_t q = l.q0; q < l.q1; q += kQuery) {
          uint64_t t = U64(l.f->log, q); auto it = pos.find(t);
          long v = it != pos.end() ? it->second : -1 - made[t];
          o << (f ? "" : ",") << v; f = false;
        } else for (size_t q = l.c0; q < l.c1; q += co) {
          auto it = cpos.find(l.f->log.substr(q, 32));
          o << (f ? "" : ",") << (it != cpos.end() ? it->second : -1L); f = false;
        }
      }
      o << "]";
    };
    o << (firstp ? "" : ",") << "{\"q\":"; firstp = false;
    if (Online()) emit(false); else o << "[]";
    o << ",\"c\":";
    if (Offline()) emit(true); else o << "[]";
    o << "}";
  }
  o << "]";
  report["order"] = o.str();
}

// ---------- faults: C07, C08 ----------
static void CheckNoFalseSuccess(const std::string& cls) {
  for (int c : C) if (nodes[c]->st == Node::EXITED && nodes[c]->code == 0) {
    if (!CheckAnswers(cls, c)) return;
    if (S.X("qbig") == nodes[c]->server + 1) { Violate(cls + ":false-success", Nm(c) + " was to make " + std::to_string(S.queries[nodes[c]->server] + (1LL << 32)) + " queries and reports success after " + std::to_string(nodes[c]->answers.size())); return; }
  }
  // a wrong record handed to the client is wrong even if it later fails
  for (int c : C) for (auto& a : nodes[c]->answers) {
    unsigned char ref[52]; RefRecord(a.key, ref);
    if (a.n == 52 && memcmp(ref, a.rec.data(), 52) != 0 && nodes[c]->st == Node::EXITED && nodes[c]->code == 0) { Violate(cls + ":wrong-record", Nm(c)); return; }
  }
  for (int p = 0; p < S.parties; p++)
    for (int s = 0; s < S.servers; s++) {
      Node* n = nodes[N[p][s]].get();
      if (n->st != Node::EXITED || n->code != 0) continue;
      Link& l = L[p][s];
      if (!l.c || !l.has_count) { Violate(cls + ":false-success", n->name + " succeeds without ever receiving a batch"); return; }
      size_t infull = Online() ? l.q1 : l.c1;
      if (l.f->consumed < infull) { Violate(cls + ":false-success", n->name + " succeeds having read " + std::to_string(l.f->consumed) + " of " + std::to_string(infull) + " input bytes"); return; }
      // everything it had to return was accepted by its socket (a reset may have discarded it afterwards)
      size_t outfull = Online() ? l.r1 : 2;
      size_t sent = l.b->sent.empty() ? 0 : l.b->sent.back().first;
      if (sent < outfull) { Violate(cls + ":false-success", n->name + " succeeds having returned " + std::to_string(sent) + " of " + std::to_string(outfull) + " bytes"); return; }
      if (p + 1 < S.parties) {
        Link& o = L[p + 1][s];
        if (!o.c || !o.has_count) { Violate(cls + ":false-success", n->name + " succeeds without a batch for the next party"); return; }
        size_t fs = o.f->sent.empty() ? 0 : o.f->sent.back().first;
        size_t ofull = Online() ? o.q1 : o.c1;
        if (fs < ofull) { Violate(cls + ":false-success", n->name + " succeeds having forwarded " + std::to_string(fs) + " of " + std::to_string(ofull) + " bytes"); return; }
        if (Online() && o.b->consumed < o.r1) { Violate(cls + ":false-success", n->name + " succeeds without all responses of the next party"); return; }
      }
    }
  if (Online() && answers_seen_anywhere()) {
    // right records also in runs that later fail: compare what successful clients got (done above)
  }
}

void RunOracles(bool fault_free) {
  BuildTopology();
  bool completed = Completed();
  if (fault_free) {
    // completion and right answers are part of these statements
    for (const char* c : {"C01", "C02", "C03", "C04", "C06", "C20"})
      if (Has(c)) {
        if (std::string(c) == "C03" && !CheckLookups("C03", false)) return;
        if (std::string(c) == "C06") { CheckWiring("C06"); if (!violations.empty()) return; }
        if (S.X("beyond") ? completed : CheckCompletion(c)) CheckAllAnswers(c);
        if (!violations.empty()) return;
      }
    if (Has("C05")) { CheckCompletion("C05"); if (!violations.empty()) return; }
    if (Has("C07") && S.X("qbig")) CheckNoFalseSuccess("C07");
    if (Has("C02") && completed) CheckParties("C02");
    if (Has("C03") && completed) CheckLookups("C03", true);
    if (Has("C09")) CheckBatching("C09");
    if (Has("C10")) CheckStaging("C10");
    if (Has("C11")) CheckMasking("C11");
    if (Has("C12")) CheckSecrecy("C12", completed);
    if (Has("C13") && completed) ReportOrder();
    if (Has("C19")) CheckUnlinkable("C19");
    if (Has("C20") && completed) ReportNoise("C20");
    if (Has("C22") && completed) CheckTimes("C22");
  } else {
    if (Has("C07")) CheckNoFalseSuccess("C07");
    if (Has("C09")) CheckBatching("C09");
    if (Has("C10")) CheckStaging("C10");
    if (Has("C12")) CheckSecrecy("C12", false);
    if (Has("C19")) CheckUnlinkable("C19");
  }
  // reported for the driver's evidence
  report["completed"] = completed ? "true" : "false";
}
}  // namespace sim
