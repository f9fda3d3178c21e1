// Memory checking for builds of the nodes compiled with kernel-address
// instrumentation (check C23).  Every access of the nodes calls in here; the
// shadow follows the usual encoding: 0 = all 8 bytes valid, k = first k bytes
// valid, >= 0x80 poisoned.  Heap blocks are poisoned around and, once freed,
// for good; stack frames and globals are poisoned by the compiled code.
#include "core.h"
#include <dlfcn.h>
#include <signal.h>
#include <stdarg.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>

namespace sim {
static const uintptr_t kShadow = 0x100000000000ull, kShadowSize = 0x100000000000ull;
static bool on = false;
std::string mem_error, mem_detail;

void MemInit() {
  void* m = mmap((void*)kShadow, kShadowSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (m != (void*)kShadow) { fprintf(stderr, "shadow mmap failed\n"); _exit(3); }
  madvise(m, kShadowSize, MADV_NOHUGEPAGE);
  on = true;
}
static inline unsigned char* Sh(uintptr_t a) { return (unsigned char*)((a >> 3) + kShadow); }
static void Fill(unsigned char* p, int v, size_t n) { for (size_t i = 0; i < n; i++) ((volatile unsigned char*)p)[i] = v; }
// a is 8-aligned
void MemPoison(const void* a, size_t n, int v) {
  if (!on) return;
  uintptr_t p = (uintptr_t)a;
  Fill(Sh(p), v, (n + 7) / 8);
}
void MemUnpoison(const void* a, size_t n) {
  if (!on) return;
  uintptr_t p = (uintptr_t)a;
  Fill(Sh(p), 0, n / 8);
  if (n & 7) *Sh(p + n) = n & 7;
}
// First invalid byte of [a, a+n), or 0.
static uintptr_t Bad(uintptr_t a, size_t n) {
  if (n == 0) return 0;
  uintptr_t e = a + n;
  if (e < a || e > 0x7fffffffffffull) return 0;  // faults by itself
  if (MemBeyondArena(e - 1)) return e - 1;
  for (uintptr_t p = a & ~7ull; p < e; p += 8) {
    unsigned char s = *Sh(p);
    if (!s) continue;
    uintptr_t lo = p < a ? a - p : 0, hi = e - p < 8 ? e - p : 8;  // bytes lo..hi-1 wanted
    if (s >= 0x80) return p + lo;
    if (hi > s) return p + (lo > s ? lo : s);
  }
  return 0;
}
void MemReport(uintptr_t a, size_t n, uintptr_t b, const char* what, void* pc) {
  Guard guard_;
  unsigned char s = *Sh(b);
  if (!(s >= 0x80) && (b & ~7ull) + 8 < 0x7fffffffffffull) { unsigned char t = *Sh((b & ~7ull) + 8); if (t >= 0x80 && s) s = t; }
  const char* kind = s == 0xfd ? "use-after-free" : s == 0xf8 ? "use-after-scope" : "out-of-bounds";
  const char* where = s == 0xfd ? "freed memory" : s == 0xfa || MemBeyondArena(b) ? "outside a heap block" : s == 0xf9 ? "outside a global" :
                      s == 0xf8 ? "a variable out of scope" : s >= 0xf0 ? "outside a stack variable" : "outside an object";
  if (mem_error.empty()) {
    Dl_info di; char buf[400];
    const char* sym = "?"; unsigned long off = 0;
    if (pc && dladdr(pc, &di) && di.dli_sname) { sym = di.dli_sname; off = (char*)pc - (char*)di.dli_saddr; }
    (void)off;
    snprintf(buf, sizeof buf, "%s: %s of %zu bytes touches %s (byte %zd), in %s", cur ? cur->name.c_str() : "?", what, n, where, (ssize_t)(b - a), sym);
    mem_error = kind; mem_detail = buf;
  }
  if (cur) NodeDie(SIGSEGV, mem_detail);
}
void MemCheck(const void* a, size_t n, const char* what, void* pc) {
  if (!on || !cur) return;
  uintptr_t b = Bad((uintptr_t)a, n);
  if (b) MemReport((uintptr_t)a, n, b, what, pc);
}
static inline void Chk(uintptr_t a, size_t n, const char* what, void* pc) {
  if (!cur) return;
  // one or two shadow bytes, almost always zero
  if (a < 0x7ffffffff000ull && n <= 8) {
    unsigned char s = *Sh(a);
    if (!s && ((a & 7) + n <= 8 || !*Sh(a + n - 1)) && !MemBeyondArena(a)) return;
  }
  MemCheck((const void*)a, n, what, pc);
}
}  // namespace sim

using namespace sim;
#define PC __builtin_return_address(0)
static void* Real(const char* n) { return dlsym(RTLD_NEXT, n); }
static bool Node_() { return sim::cur && !sim::cur->in_sim; }

extern "C" {
#define LS(n) \
  void __asan_load##n##_noabort(uintptr_t a) { Chk(a, n, "read", PC); } \
  void __asan_store##n##_noabort(uintptr_t a) { Chk(a, n, "write", PC); }
LS(1) LS(2) LS(4) LS(8) LS(16)
void __asan_loadN_noabort(uintptr_t a, size_t n) { Chk(a, n, "read", PC); }
void __asan_storeN_noabort(uintptr_t a, size_t n) { Chk(a, n, "write", PC); }
void __asan_handle_no_return() {
  if (!sim::cur) return;
  uintptr_t sp = (uintptr_t)__builtin_frame_address(0) & ~7ull, top = (uintptr_t)sim::cur->stack + (8u << 20);
  if (sp < top) { uintptr_t k = (sp >> 3) + 0x100000000000ull, e = (top >> 3) + 0x100000000000ull; for (; k < e; k++) *(volatile unsigned char*)k = 0; }
}
void __asan_poison_stack_memory(uintptr_t a, size_t n) { MemPoison((void*)a, n & ~7ull, 0xf8); if (n & 7) MemPoison((void*)(a + (n & ~7ull)), 8, 0xf8); }
void __asan_unpoison_stack_memory(uintptr_t a, size_t n) { MemUnpoison((void*)a, n); }
void __asan_alloca_poison(uintptr_t a, size_t n) {
  // red zones of 32 bytes around a variable-length array (a is 32-aligned)
  uintptr_t e = a + n;
  MemPoison((void*)(a - 32), 32, 0xca);
  MemUnpoison((void*)a, n);
  uintptr_t r = (e + 7) & ~7ull, rr = ((e + 31) & ~31ull) + 32;
  MemPoison((void*)r, rr - r, 0xcb);
}
void __asan_allocas_unpoison(uintptr_t top, uintptr_t bottom) { if (top && top < bottom) MemUnpoison((void*)top, bottom - top); }
void __asan_set_shadow_00(uintptr_t p, size_t n) { for (size_t i = 0; i < n; i++) ((volatile unsigned char*)p)[i] = 0; }
void __asan_set_shadow_f8(uintptr_t p, size_t n) { for (size_t i = 0; i < n; i++) ((volatile unsigned char*)p)[i] = 0xf8; }
struct AsanGlobal { uintptr_t beg; size_t size, sizez; const char *name, *module; uintptr_t dyn; void* loc; uintptr_t odr; };
void __asan_register_globals(AsanGlobal* g, size_t n) {
  for (size_t i = 0; i < n; i++) {
    uintptr_t e = g[i].beg + g[i].size, r = (e + 7) & ~7ull;
    if (g[i].beg & 7) continue;
    MemUnpoison((void*)g[i].beg, g[i].size);
    if (r < g[i].beg + g[i].sizez) MemPoison((void*)r, g[i].beg + g[i].sizez - r, 0xf9);
  }
}
void __asan_unregister_globals(AsanGlobal* g, size_t n) { for (size_t i = 0; i < n; i++) if (!(g[i].beg & 7)) MemUnpoison((void*)g[i].beg, g[i].sizez & ~7ull); }
void __asan_before_dynamic_init(const char*) {}
void __asan_after_dynamic_init() {}
void __asan_init() {}

void* __asan_memcpy(void* d, const void* s, size_t n) {
  MemCheck(s, n, "copy from", PC); MemCheck(d, n, "copy to", PC);
  return __builtin_memmove(d, s, n);
}
void* __asan_memmove(void* d, const void* s, size_t n) {
  MemCheck(s, n, "copy from", PC); MemCheck(d, n, "copy to", PC);
  return __builtin_memmove(d, s, n);
}
void* __asan_memset(void* d, int c, size_t n) {
  MemCheck(d, n, "fill", PC);
  return __builtin_memset(d, c, n);
}
// the copies libstdc++ and libsodium make on behalf of a node
void* memcpy(void* d, const void* s, size_t n) {
  if (Node_()) { MemCheck(s, n, "copy from", PC); MemCheck(d, n, "copy to", PC); }
  void* r = d;
  asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
  return r;
}
void* memmove(void* d, const void* s, size_t n) {
  if (Node_()) { MemCheck(s, n, "copy from", PC); MemCheck(d, n, "copy to", PC); }
  void* r = d;
  if ((uintptr_t)d - (uintptr_t)s >= n) asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
  else {
    char* a = (char*)d + n - 1; const char* b = (const char*)s + n - 1;
    asm volatile("std; rep movsb; cld" : "+D"(a), "+S"(b), "+c"(n) : : "memory");
  }
  return r;
}
void* memset(void* d, int c, size_t n) {
  if (Node_()) MemCheck(d, n, "fill", PC);
  void* r = d;
  asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory");
  return r;
}
int memcmp(const void* a, const void* b, size_t n) {
  if (Node_()) { MemCheck(a, n, "comparison", PC); MemCheck(b, n, "comparison", PC); }
  const volatile unsigned char *p = (const unsigned char*)a, *q = (const unsigned char*)b;
  for (size_t i = 0; i < n; i++) if (p[i] != q[i]) return p[i] < q[i] ? -1 : 1;
  return 0;
}
size_t strlen(const char* s) {
  const volatile char* p = s;
  size_t n = 0;
  while (p[n]) n++;
  if (Node_()) MemCheck(s, n + 1, "string read", PC);
  return n;
}
void __cxa_throw(void* o, void* t, void (*f)(void*)) {
  static auto real = (void (*)(void*, void*, void (*)(void*)))Real("__cxa_throw");
  __asan_handle_no_return();
  real(o, t, f);
  __builtin_unreachable();
}
}
