// Native implementation of the harness interface: replays a solver model
// against the compiled real code.
#include "osym.h"
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <new>
#include <string>
#include <vector>
#include <ucontext.h>
#include <unistd.h>
#ifndef OSYM_ENTRY
#define OSYM_ENTRY osym_main
#endif
extern "C" void OSYM_ENTRY();
namespace {
std::map<std::string, unsigned long long>* vals; std::map<std::string, int>* occ; std::map<std::string, long long>* prm;
int expect_abort = 0; long live = 0; bool harness = true;
void on_abort(int s) { fflush(stdout); if (s == SIGABRT && expect_abort) { printf("ABORT-EXPECTED\n"); fflush(stdout); _exit(0); } printf(s == SIGABRT ? "ABORT\n" : s == SIGFPE ? "SIGFPE\n" : "SEGV\n"); fflush(stdout); _exit(s == SIGABRT ? 97 : 96); }
void load() {
  vals = new std::map<std::string, unsigned long long>; occ = new std::map<std::string, int>; prm = new std::map<std::string, long long>;
  char const* f = getenv("OSYM_REPLAY"); FILE* h = f ? fopen(f, "r") : nullptr;
  char n[512]; unsigned long long v; char k[8];
  if (h) { while (fscanf(h, "%7s %511s %llu", k, n, &v) == 3) { if (k[0] == 'v') (*vals)[n] = v; else if (k[0] == 'p') (*prm)[n] = (long long)v; } fclose(h); }
}
struct KeepLive { long l = live; ~KeepLive() { live = l; } };
unsigned long long get(char const* name, long long lo, long long hi) {
  KeepLive kl;
  std::string n = std::string(name) + "#" + std::to_string((*occ)[name]++);
  for (auto& c : n) if (c == ' ') c = '_';
  auto it = vals->find(n); if (it != vals->end()) return it->second;
  return (unsigned long long)(lo <= 0 && hi >= 0 ? 0 : lo);
}
struct Co { ucontext_t c; void (*fn)(int64_t); int64_t arg; bool done; std::vector<char>* stack; };
std::vector<Co*>* cos_; int cur = 0;
void tramp(int id) { Co* c = (*cos_)[id]; c->fn(c->arg); c->done = true; cur = 0; setcontext(&(*cos_)[0]->c); }
}
extern "C" {
int32_t osym_i32(char const* n, int64_t lo, int64_t hi) { if (lo == hi) return (int32_t)lo; return (int32_t)get(n, lo, hi); }
int64_t osym_i64(char const* n, int64_t lo, int64_t hi) { if (lo == hi) return lo; return (int64_t)get(n, lo, hi); }
uint8_t osym_u8(char const* n) { return (uint8_t)get(n, 0, 255); }
double osym_f64(char const* n) { unsigned long long b = get(n, 0, 0); double d; memcpy(&d, &b, 8); return d; }
int64_t osym_choose(char const* n, int64_t lo, int64_t hi) { if (lo >= hi) return lo; return (int64_t)get(n, lo, hi); }
void osym_assume(int c) { if (!c) { printf("ASSUME-FAIL\n"); fflush(stdout); _exit(98); } }
void osym_assert(int c, char const* m) { if (!c) { printf("ASSERT-FAIL %s\n", m); fflush(stdout); _exit(99); } }
void osym_reach(char const*) {}
void osym_observe(char const* n, uint64_t v) { printf("OBS %s %llu\n", n, (unsigned long long)v); }
void osym_note(char const*, int64_t) {}
int64_t osym_concretize(int64_t v) { return v; }
int osym_is_symbolic(int64_t) { return 0; }
int64_t osym_param(char const* n, int64_t d) { KeepLive kl; auto it = prm->find(n); return it == prm->end() ? d : it->second; }
void osym_expect_abort(int on) { expect_abort = on; }
int64_t osym_heap_live(void) { return live; }
void osym_print(char const* n, int64_t v) { if (getenv("OSYM_PRINT")) printf("[%s] %lld\n", n, (long long)v); }
void osym_where(void) {}
int osym_fmt_double(char* b, int n, int prec, int mode, double v) { return snprintf(b, n, mode == 4 ? "%.*f" : mode == 256 ? "%.*e" : "%.*g", prec < 0 ? 6 : prec, v); }
double osym_parse_double(char const* s, int* used) { char* e; double v = strtod(s, &e); *used = (int)(e - s); return v; }
int osym_co_create(void (*fn)(int64_t), int64_t arg) { KeepLive kl;
  if (!cos_) { cos_ = new std::vector<Co*>; Co* m = new Co; m->done = false; cos_->push_back(m); }
  Co* c = new Co; c->fn = fn; c->arg = arg; c->done = false; c->stack = new std::vector<char>(8 << 20);
  getcontext(&c->c); c->c.uc_stack.ss_sp = c->stack->data(); c->c.uc_stack.ss_size = c->stack->size(); c->c.uc_link = nullptr;
  int id = (int)cos_->size(); cos_->push_back(c); makecontext(&c->c, (void (*)())tramp, 1, id); return id;
}
void osym_co_switch(int id) { if (id == cur) return; int me = cur; cur = id; swapcontext(&(*cos_)[me]->c, &(*cos_)[id]->c); }
int osym_co_self(void) { return cur; }
int osym_co_done(int id) { return cos_ && id < (int)cos_->size() && (*cos_)[id]->done; }
void* __real_malloc(size_t); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t); void __real_free(void*);
static int fillByte() { static int f = -2; if (f == -2) { char const* e = getenv("OSYM_FILL"); f = e ? atoi(e) : -1; } return f; }
static void* filled(void* p, size_t n) { int f = fillByte(); if (p && f >= 0) memset(p, f, n); return p; }
void* __wrap_malloc(size_t n) { ++live; return filled(__real_malloc(n), n); }
void* __wrap_calloc(size_t a, size_t b) { ++live; return __real_calloc(a, b); }
void* __wrap_realloc(void* p, size_t n) { if (!p) ++live; return __real_realloc(p, n); }
void __wrap_free(void* p) { if (p) --live; __real_free(p); }
#ifndef OSYM_ASAN
#endif
}
#ifndef OSYM_ASAN
void* operator new(size_t n) { ++live; return filled(__real_malloc(n ? n : 1), n); }
void* operator new[](size_t n) { ++live; return filled(__real_malloc(n ? n : 1), n); }
void* operator new(size_t n, std::nothrow_t const&) noexcept { ++live; return filled(__real_malloc(n ? n : 1), n); }
void operator delete(void* p) noexcept { if (p) --live; __real_free(p); }
void operator delete(void* p, size_t) noexcept { if (p) --live; __real_free(p); }
void operator delete[](void* p) noexcept { if (p) --live; __real_free(p); }
void operator delete[](void* p, size_t) noexcept { if (p) --live; __real_free(p); }
#endif
__attribute__((constructor(101))) static void init_early() { load(); }
int main() {
#ifndef OSYM_ASAN
  signal(SIGSEGV, on_abort); signal(SIGBUS, on_abort);
#endif
  signal(SIGABRT, on_abort); signal(SIGFPE, on_abort);
  OSYM_ENTRY(); printf("DONE\n"); fflush(stdout); _exit(0);
}
