// libc pieces executed symbolically by the engine (no headers on purpose)
typedef unsigned long size_t; typedef unsigned long uint64_t; typedef _Bool bool;
#define nullptr ((void*)0)
#define true 1
#define false 0
#define ERANGE 34
void abort(void);
void* memchr(void const* p, int c, size_t n) { unsigned char const* a = (unsigned char const*)p; for (size_t i = 0; i < n; ++i) if (a[i] == (unsigned char)c) return (void*)(a + i); return nullptr; }
int memcmp(void const* p, void const* q, size_t n) { unsigned char const *a = (unsigned char const*)p, *b = (unsigned char const*)q; for (size_t i = 0; i < n; ++i) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1; return 0; }
int bcmp(void const* p, void const* q, size_t n) { unsigned char const *a = (unsigned char const*)p, *b = (unsigned char const*)q; unsigned char d = 0; for (size_t i = 0; i < n; ++i) d |= a[i] ^ b[i]; return d != 0; }
size_t strlen(char const* s) { size_t n = 0; while (s[n]) ++n; return n; }
int strcmp(char const* a, char const* b) { while (*a && *a == *b) { ++a; ++b; } return (int)(unsigned char)*a - (int)(unsigned char)*b; }
int strncmp(char const* a, char const* b, size_t n) { for (; n; --n, ++a, ++b) { if (*a != *b) return (int)(unsigned char)*a - (int)(unsigned char)*b; if (!*a) return 0; } return 0; }
char* strcpy(char* d, char const* s) { char* r = d; while ((*d++ = *s++)) {} return r; }
char* strncpy(char* d, char const* s, size_t n) { size_t i = 0; for (; i < n && s[i]; ++i) d[i] = s[i]; for (; i < n; ++i) d[i] = 0; return d; }
char* strchr(char const* s, int c) { for (;; ++s) { if (*s == (char)c) return (char*)s; if (!*s) return nullptr; } }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalnum(int c) { return isdigit(c) || isalpha(c); }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static int the_errno;
int* __errno_location(void) { return &the_errno; }
long strtol(char const* s, char** end, int base) {
  char const* p = s; while (isspace((unsigned char)*p)) ++p; bool neg = false; if (*p == '-' || *p == '+') { neg = *p == '-'; ++p; }
  unsigned long v = 0; bool any = false, ovf = false; if (base == 0) base = 10;
  for (; isdigit((unsigned char)*p); ++p) { any = true; unsigned long d = (unsigned long)(*p - '0'); if (v > (0x7fffffffffffffffUL - d) / 10) ovf = true; else v = v * 10 + d; }
  if (end) *end = (char*)(any ? p : s);
  if (ovf) { the_errno = ERANGE; return neg ? (long)(1UL << 63) : 0x7fffffffffffffffL; }
  return neg ? -(long)v : (long)v;
}
long __isoc23_strtol(char const* s, char** end, int base) { return strtol(s, end, base); }
long long __isoc23_strtoll(char const* s, char** end, int base) { return strtol(s, end, base); }
double frexp(double x, int* e) {
  uint64_t b; __builtin_memcpy(&b, &x, 8); int ex = (int)((b >> 52) & 0x7ff);
  if (ex == 0x7ff || (b << 1) == 0) { *e = 0; return x; }
  if (ex == 0) { x = x * 0x1p54; __builtin_memcpy(&b, &x, 8); ex = (int)((b >> 52) & 0x7ff) - 54; }
  *e = ex - 1022; b = (b & ~(0x7ffULL << 52)) | (1022ULL << 52); double r; __builtin_memcpy(&r, &b, 8); return r;
}
double ldexp(double x, int e) {
  if (e > 2100) e = 2100; if (e < -2200) e = -2200;
  // exact scaling by powers of two in steps; the last step rounds once
  while (e > 1000) { x *= 0x1p1000; e -= 1000; }
  if (e < -1000) { // keep a single rounding: scale up-front by normal powers while the value stays normal
    while (e < -1000) { x *= 0x1p-900; e += 900; }
  }
  uint64_t b = (uint64_t)(e + 1023) << 52; double p; __builtin_memcpy(&p, &b, 8); return x * p;
}
double scalbn(double x, int e) { return ldexp(x, e); }
int raise(int) { abort(); }
typedef void (*sigh)(int);
sigh signal(int, sigh h) { return h; }
char* getenv(char const*) { return nullptr; }
int system(char const*) { return -1; }
char __libc_single_threaded = 1;
void* __dso_handle = nullptr;
int __gxx_personality_v0() { return 0; }
int usleep(unsigned) { return 0; }
// stdio with empty bodies: formatting and logging are not part of any property
typedef unsigned long size_t_;
void *stderr, *stdout, *stdin;
int printf(char const* f, ...) { return 0; }
int fprintf(void* a, char const* f, ...) { return 0; }
int vfprintf(void* a, char const* f, void* l) { return 0; }
int vprintf(char const* f, void* l) { return 0; }
int puts(char const* s) { return 0; }
int putchar(int c) { return c; }
int fputs(char const* s, void* f) { return 0; }
int fputc(int c, void* f) { return c; }
size_t_ fwrite(void const* p, size_t_ s, size_t_ n, void* f) { return n; }
int fflush(void* f) { return 0; }

extern double osym_parse_double(char const* s, int* used);
double strtod(char const* s, char** end) { int used = 0; double v = osym_parse_double(s, &used); if (end) *end = (char*)s + used; return v; }
// type information of the fundamental types, which lives in the C++ runtime library
struct osym_typeinfo { void *vt; char const *name; };
#define OSYM_TI(c) __attribute__((weak)) struct osym_typeinfo _ZTI##c = {0, #c};
OSYM_TI(b) OSYM_TI(c) OSYM_TI(a) OSYM_TI(h) OSYM_TI(s) OSYM_TI(t) OSYM_TI(i) OSYM_TI(j) OSYM_TI(l) OSYM_TI(m) OSYM_TI(x) OSYM_TI(y) OSYM_TI(f) OSYM_TI(d) OSYM_TI(e) OSYM_TI(v)
