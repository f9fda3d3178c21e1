// Drives the socket classes of DP-PIR directly (C04): every byte received is
// compared with what a reference generator says was sent.
// argv: name kind index count seed layers volume
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <functional>
#include <string>
#include <vector>

#include "DPPIR/config/config.h"
#include "DPPIR/onion/onion.h"
#include "DPPIR/sockets/client_socket.h"
#include "DPPIR/sockets/parallel_socket.h"
#include "DPPIR/sockets/server_socket.h"

using namespace DPPIR;

namespace {
uint64_t seed_;
uint64_t Mix(uint64_t x) {
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}
uint64_t H(uint64_t a, uint64_t b, uint64_t c, uint64_t d) { return Mix(Mix(Mix(Mix(seed_ ^ Mix(a)) ^ b) ^ c) ^ d); }
void Fill(char* p, size_t n, uint64_t a, uint64_t b, uint64_t i) {
  for (size_t o = 0; o < n; o += 8) {
    uint64_t v = H(a, b, i, o);
    memcpy(p + o, &v, n - o < 8 ? n - o : 8);
  }
}
// Number of messages of kind k from a to b: often none, often around a buffer's worth.
uint32_t Count(int a, int b, int k, uint32_t vol, size_t unit) {
  uint64_t h = H(100 + k, a, b, 7);
  uint32_t cap = BUFFER_SIZE / unit;
  switch (h % 6) {
    case 0: return 0;
    case 1: return 1 + (h >> 8) % 3;
    case 2: if (cap && cap * 3 + 2 < 4 * vol + 40) return cap * (1 + (h >> 8) % 3) + (h >> 20) % 3 - 1;  // k buffers, one less or more
    default: return (h >> 8) % (vol + 1);
  }
}
int Bad(const char* what, int a, int b, long i) {
  printf("corrupt: %s from %d to %d number %ld\n", what, a, b, i);
  fflush(stdout);
  exit(7);
}
template <class T> T Make(int a, int b, int k, uint32_t i) { T t; Fill((char*)&t, sizeof(T), a * 64 + b, k, i); return t; }
template <class T> void Expect(const T& got, const char* what, int a, int b, int k, uint32_t i) {
  T w = Make<T>(a, b, k, i);
  if (memcmp((const char*)&w, (const char*)&got, sizeof(T)) != 0) Bad(what, a, b, i);
}

int Client(size_t cs, uint32_t vol) {
  sockets::ClientSocket s(cs);
  s.Initialize("127.0.0.1", 3000);
  std::vector<char> c(cs);
  for (int round = 0; round < 2; round++) {
    int a = 10 * round, b = a + 1;
    uint32_t nc = Count(a, b, 1, vol, cs), nq = Count(a, b, 2, vol * 4, sizeof(Query)), nr = Count(b, a, 3, vol * 2, sizeof(Response));
    s.SendCount(nc);
    s.SendCount(nq);
    s.SendCount(nr);
    s.WaitForReady();
    for (uint32_t i = 0; i < nc; i++) { Fill(c.data(), cs, a * 64 + b, 1, i); s.SendCipher(c.data()); }
    s.FlushCiphers();
    for (uint32_t i = 0; i < nq; i++) s.SendQuery(Make<Query>(a, b, 2, i));
    s.FlushQueries();
    uint32_t got = 0;
    while (got < nr) {
      auto& buf = s.ReadResponses(nr - got);
      for (auto& r : buf) { if (got >= nr) Bad("too many responses", b, a, got); Expect(r, "response", b, a, 3, got); got++; }
      buf.Clear();
    }
    s.WaitForReady();
  }
  return 0;
}
int Server(size_t cs, uint32_t vol) {
  sockets::ServerSocket s(cs);
  s.Initialize(3000);
  std::vector<char> c(cs);
  for (int round = 0; round < 2; round++) {
    int a = 10 * round, b = a + 1;
    uint32_t nc = Count(a, b, 1, vol, cs), nq = Count(a, b, 2, vol * 4, sizeof(Query)), nr = Count(b, a, 3, vol * 2, sizeof(Response));
    if (s.ReadCount() != nc) Bad("count", a, b, 0);
    if (s.ReadCount() != nq) Bad("count", a, b, 1);
    if (s.ReadCount() != nr) Bad("count", a, b, 2);
    s.SendReady();
    uint32_t got = 0;
    while (got < nc) {
      auto& buf = s.ReadCiphers(nc - got);
      for (char* p : buf) { if (got >= nc) Bad("too many ciphers", a, b, got); Fill(c.data(), cs, a * 64 + b, 1, got); if (memcmp(c.data(), p, cs)) Bad("cipher", a, b, got); got++; }
      buf.Clear();
    }
    got = 0;
    while (got < nq) {
      auto& buf = s.ReadQueries(nq - got);
      for (auto& q : buf) { if (got >= nq) Bad("too many queries", a, b, got); Expect(q, "query", a, b, 2, got); got++; }
      buf.Clear();
    }
    for (uint32_t i = 0; i < nr; i++) s.SendResponse(Make<Response>(b, a, 3, i));
    s.FlushResponses();
    s.SendReady();
  }
  return 0;
}

int Mesh(int me, int n, size_t cs, uint32_t vol) {
  config::PartyConfig conf;
  conf.shared_seed = 1;
  for (int i = 0; i < n; i++) conf.servers.push_back({1, 4000 + i, 5000 + i, "127.0.0.1"});
  sockets::ParallelSocket s(me, n, cs);
  s.Initialize(conf);
  std::vector<char> c(cs);
  size_t units[4] = {cs, sizeof(OfflineSecret), sizeof(Query), sizeof(Response)};
  for (int k = 0; k < 4; k++) {
    // secrets go to every sibling alike
    auto cnt = [&](int a, int b) { return Count(a, k == 1 ? 63 : b, 10 + k, vol, units[k]); };
    for (int o = 0; o < n; o++) if (o != me) s.SendCount(o, cnt(me, o));
    if (k & 1) s.BroadcastReady();
    for (int o = 0; o < n; o++) if (o != me) if (s.ReadCount(o) != cnt(o, me)) Bad("count", o, me, k);
    if (k & 1) s.WaitForReady();
    uint32_t most = 0;
    for (int o = 0; o < n; o++) if (o != me) most = std::max(most, cnt(me, o));
    for (uint32_t i = 0; i < most; i++) {
      if (k == 1) { s.BroadcastSecret(Make<OfflineSecret>(me, 63, k, i)); continue; }
      for (int o = 0; o < n; o++) if (o != me && i < cnt(me, o)) {
        if (k == 0) { Fill(c.data(), cs, me * 64 + o, k, i); s.SendCipher(o, c.data()); }
        else if (k == 2) s.SendQuery(o, Make<Query>(me, o, k, i));
        else s.SendResponse(o, Make<Response>(me, o, k, i));
      }
    }
    if (k == 0) s.FlushCiphers(); else if (k == 1) s.FlushSecrets(); else if (k == 2) s.FlushQueries(); else s.FlushResponses();
    std::vector<uint32_t> got(n, 0);
    uint32_t left = 0;
    for (int o = 0; o < n; o++) if (o != me) { left += cnt(o, me); if (!cnt(o, me)) s.IgnoreServer(o); }
    ServersMap<bool> polled(me, n, false);
    while (left > 0) {
      int np = s.Poll(&polled, -1);
      for (int o = 0; o < n && np > 0; o++) {
        if (o == me || !polled[o]) continue;
        np--;
        polled[o] = false;
        uint32_t want = cnt(o, me);
        if (got[o] >= want) Bad("poll reports an ignored sibling", o, me, k);
        auto take = [&](auto& buf, auto check) {
          for (auto&& v : buf) { if (got[o] >= want) Bad("too many messages", o, me, got[o]); check(v); got[o]++; left--; }
          buf.Clear();
        };
        if (k == 0) take(s.ReadCiphers(o, want - got[o]), [&](char* p) { Fill(c.data(), cs, o * 64 + me, k, got[o]); if (memcmp(c.data(), p, cs)) Bad("cipher", o, me, got[o]); });
        else if (k == 1) take(s.ReadSecrets(o, want - got[o]), [&](OfflineSecret& v) { Expect(v, "secret", o, 63, k, got[o]); });
        else if (k == 2) take(s.ReadQueries(o, want - got[o]), [&](Query& v) { Expect(v, "query", o, me, k, got[o]); });
        else take(s.ReadResponses(o, want - got[o]), [&](Response& v) { Expect(v, "response", o, me, k, got[o]); });
        if (got[o] == want) s.IgnoreServer(o);
      }
    }
    s.ResetServers();
    // every sibling is done with this kind before the next one starts
    s.BroadcastReady();
    s.WaitForReady();
  }
  return 0;
}
}  // namespace

extern "C" int dppir_harness_main(int argc, char** argv) {
  if (argc < 7) return 9;
  std::string kind = argv[1];
  int i = atoi(argv[2]), n = atoi(argv[3]);
  seed_ = strtoull(argv[4], nullptr, 10);
  size_t cs = onion::CipherSize(atoi(argv[5]));
  uint32_t vol = atoi(argv[6]);
  if (kind == "link") return i == 0 ? Client(cs, vol) : Server(cs, vol);
  return Mesh(i, n, cs, vol);
}
